// Hex helpers and length helpers.
#include "common.hpp"
#include "utils.hpp"
#include "mc.hpp"
#include "ref.hpp"

static std::string
hex_ref(const std::vector<uint8_t>& b, bool upper = false)
{
  const char* d = upper ? "0123456789ABCDEF" : "0123456789abcdef";
  std::string s;
  for (uint8_t x : b) {
    s += d[x >> 4];
    s += d[x & 15];
  }
  return s;
}
static std::string
both(const std::vector<uint8_t>& b, const std::string& what)
{
  const auto keep = b;
  const std::string h = to_hex(b.data(), b.size());
  if (h != hex_ref(b))
    return what + ": to_hex gives " + h.substr(0, 80);
  if (b != keep)
    return what + ": input modified";
  for (int up = 0; up < 2; up++) {
    std::vector<uint8_t> out(b.size() + 16, 0xee);
    to_byte_array(hex_ref(b, up), out.data() + 8);
    for (size_t i = 0; i < b.size(); i++)
      if (out[8 + i] != b[i])
        return what + mc::fmt(": to_byte_array gives %02x at %zu, expected %02x", out[8 + i], i, b[i]);
    for (size_t i = 0; i < 8; i++)
      if (out[i] != 0xee || out[8 + b.size() + i] != 0xee)
        return what + ": to_byte_array writes outside of the output";
  }
  mc::transitions(3);
  mc::traces(3);
  return "";
}

int
main(int argc, char** argv)
{
  return mc::main(argc, argv, [] {
    mc::add("all byte strings of length 0, 1, 2", 1 + 256 + 65536, [](uint64_t i) -> std::string {
      std::vector<uint8_t> b;
      if (i >= 257)
        b = { (uint8_t)((i - 257) >> 8), (uint8_t)(i - 257) };
      else if (i >= 1)
        b = { (uint8_t)(i - 1) };
      mc::states(1);
      mc::outcome(mc::fmt("length %zu", b.size()));
      return both(b, "bytes " + hex_ref(b));
    }, 256);
    mc::add("every byte value at every position, every length", mc::quick ? 130 : 2400, [](uint64_t n) -> std::string {
      for (size_t p = 0; p < n; p += (n > 130 ? 37 : 1))
        for (int v = 0; v < 256; v += 5 - (int)(n % 2)) {
          std::vector<uint8_t> b(n, 0xa0);
          b[p] = v;
          mc::states(1);
          if (auto e = both(b, mc::fmt("length %d, byte %zu = %02x", (int)n, p, v)); !e.empty())
            return e;
        }
      mc::outcome("longer");
      return "";
    });
    mc::add("key and signature sized strings", 7 * 256, [](uint64_t i) -> std::string {
      static const size_t len[] = { 897, 1793, 1281, 2305, 666, 1280, 40 };
      std::vector<uint8_t> b(len[i / 256]);
      for (size_t j = 0; j < b.size(); j++)
        b[j] = (i % 256) + j;
      mc::states(1);
      return both(b, mc::fmt("length %zu", b.size()));
    }, 16);
    static const size_t LONG[] = { 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 32769, 65535, 65536, 65537, 65537 + 255, 131071, 131072, 131073, 1 << 18, (1 << 20) - 1, (1 << 20) + 1 };
    mc::add("long strings", std::size(LONG) * 4, [](uint64_t i) -> std::string {
      std::vector<uint8_t> b(LONG[i / 4]);
      for (size_t j = 0; j < b.size(); j++)
        b[j] = i % 4 == 0 ? 0 : i % 4 == 1 ? 0xff : i % 4 == 2 ? j : mc::mix(j * 4 + i) >> 9;
      mc::states(1);
      mc::outcome("very long");
      return both(b, mc::fmt("length %zu", b.size()));
    }, 2);
    // mixed upper/lower case
    mc::add("every pair of hex digits", 22 * 22, [](uint64_t i) -> std::string {
      const char* d = "0123456789abcdefABCDEF";
      auto val = [](int k) { return k < 16 ? k : k - 6; };
      const int x = i / 22, y = i % 22;
      for (size_t n : { 1, 3, 8 })
        for (size_t p = 0; p < n; p++) {
          std::string s(2 * n, '7');
          s[2 * p] = d[x];
          s[2 * p + 1] = d[y];
          std::vector<uint8_t> out(n, 0);
          to_byte_array(s, out.data());
          for (size_t j = 0; j < n; j++)
            if (out[j] != (j == p ? val(x) * 16 + val(y) : 0x77))
              return "to_byte_array(" + s + ")";
          mc::states(1);
          mc::traces(1);
        }
      if (i == 300)
        mc::sample(std::string("digits ") + d[x] + d[y] + " at every position of 1, 3, 8 byte strings");
      return "";
    }, 32);
    mc::add("lengths", 1, [](uint64_t) -> std::string {
      using namespace falcon_utils;
      static_assert(noexcept(0));
      if (compute_pkey_len<512>() != 897 || compute_pkey_len<1024>() != 1793)
        return "public key length";
      if (compute_skey_len<512>() != 1281 || compute_skey_len<1024>() != 2305)
        return "secret key length";
      if (compute_sig_len<512>() != 666 || compute_sig_len<1024>() != 1280)
        return "signature length";
      if (log2<1>() != 0 || log2<2>() != 1 || log2<512>() != 9 || log2<1024>() != 10)
        return "log2";
      mc::states(6);
      mc::traces(10);
      return "";
    });
  });
}
