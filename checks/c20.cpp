// 72-bit integers, 64x64-bit products, cumulative tables: against unsigned __int128.
#include "u72.hpp"
#include "samplerz.hpp"
#include "mc.hpp"
using u128 = unsigned __int128;
using u72::u72_t;
static constexpr u128 M72 = ((u128)1 << 72) - 1;

static u128
V(const u72_t& x)
{
  return ((u128)x.hi << 64) | x.lo;
}
static u72_t
U(u128 v)
{
  return u72_t{ (uint64_t)(v >> 64), (uint64_t)v };
}
static const std::vector<uint64_t>&
limbs()
{
  static const std::vector<uint64_t> l = [] {
    std::set<uint64_t> s{ 0, 1, 2, 3, 0xaaaaaaaaaaaaaaaaull, 0x5555555555555555ull, 0x0123456789abcdefull, 0xfedcba9876543210ull };
    for (int b : { 7, 8, 15, 16, 31, 32, 33, 47, 48, 62, 63 }) {
      s.insert(1ull << b);
      s.insert((1ull << b) - 1);
      s.insert((1ull << b) + 1);
      s.insert(0 - (1ull << b));
      s.insert(0 - (1ull << b) - 1);
    }
    for (int i = 0; i < 4; i++)
      s.insert(~0ull - i);
    return std::vector<uint64_t>(s.begin(), s.end());
  }();
  return l;
}

static std::string
pair_ops(u128 a, u128 b)
{
  const u72_t x = U(a), y = U(b);
  auto bad = [&](const char* op, u128 got, u128 want) {
    return mc::fmt("%s of %02x:%016llx and %02x:%016llx: got %llx:%016llx, expected %02x:%016llx", op, (unsigned)(a >> 64),
                   (unsigned long long)a, (unsigned)(b >> 64), (unsigned long long)b, (unsigned long long)(got >> 64),
                   (unsigned long long)got, (unsigned)(want >> 64), (unsigned long long)want);
  };
  if (V(x + y) != ((a + b) & M72))
    return bad("sum", V(x + y), (a + b) & M72);
  if (V(x - y) != ((a - b) & M72))
    return bad("difference", V(x - y), (a - b) & M72);
  if ((x < y) != (a < b))
    return bad("less", x < y, a < b);
  if ((x > y) != (a > b))
    return bad("greater", x > y, a > b);
  return "";
}

int
main(int argc, char** argv)
{
  return mc::main(argc, argv, [] {
    mc::add("72-bit pairs: all high bytes, boundary low limbs", 256, [](uint64_t ha) -> std::string {
      uint64_t n = 0, carry = 0;
      for (uint64_t la : limbs()) {
        const u128 a = ((u128)ha << 64) | la;
        const u72_t x = U(a);
        if (V(-x) != ((0 - a) & M72))
          return mc::fmt("negation of %02x:%016llx", (unsigned)ha, (unsigned long long)la);
        for (int hb = 0; hb < 256; hb++)
          for (uint64_t lb : limbs()) {
            const u128 b = ((u128)hb << 64) | lb;
            if (auto e = pair_ops(a, b); !e.empty())
              return e;
            n++;
            carry += la + lb < la;
          }
      }
      mc::states(n);
      mc::transitions(4 * n);
      mc::traces(n);
      mc::outcome("low limbs carry", carry);
      mc::outcome("low limbs do not carry", n - carry);
      return "";
    });
    mc::add("72-bit pairs: neighbours", 73 * 73, [](uint64_t i) -> std::string {
      const u128 A = i % 73 == 72 ? 0 : (u128)1 << (i % 73), B = i / 73 == 72 ? 0 : (u128)1 << (i / 73);
      for (int da = -2; da <= 2; da++)
        for (int db = -2; db <= 2; db++) {
          mc::states(1);
          if (auto e = pair_ops((A + da) & M72, (B + db) & M72); !e.empty())
            return e;
        }
      mc::transitions(100);
      mc::traces(25);
      return "";
    }, 64);
    mc::add("byte conversions", 9 * 256, [](uint64_t i) -> std::string {
      const size_t p = i / 256;
      for (int bg : { 0, 255, 0x35 })
        for (int inc : { 0, 1, 29 }) {
          std::array<uint8_t, 9> b;
          for (size_t j = 0; j < 9; j++)
            b[j] = bg + inc * j;
          b[p] = i % 256;
          u128 le = 0, be = 0;
          for (size_t j = 0; j < 9; j++) {
            le |= (u128)b[j] << (8 * j);
            be = be << 8 | b[j];
          }
          auto c1 = b, c2 = b;
          const u72_t x = u72_t::from_le_bytes(std::move(c1)), y = u72_t::from_be_bytes(std::move(c2));
          if (V(x) != le || V(y) != be)
            return mc::fmt("reading bytes: position %zu value %d", p, (int)(i % 256));
          if (x.to_le_bytes() != b || y.to_be_bytes() != b)
            return mc::fmt("writing bytes: position %zu value %d", p, (int)(i % 256));
          mc::states(1);
          mc::transitions(4);
          mc::traces(1);
        }
      return "";
    }, 32);
    static std::vector<uint32_t> H{ 0, 1, 2, 3, 0xffff, 0x10000, 0x10001, 0x7fffffff, 0x80000000, 0x80000001, 0xaaaaaaaa, 0x55555555, 0xfffffffe, 0xffffffff, 0xfffeffff, 0xffff0000, 0x12345678, 0x9abcdef0, 0xdeadbeef, 0x40000000, 0xc0000000, 0xb504f333, 0xb504f334, 0x00ff00ff };
    mc::add("64x64 products", H.size() * H.size(), [](uint64_t i) -> std::string {
      const uint64_t a = (uint64_t)H[i / H.size()] << 32 | H[i % H.size()];
      auto one = [&](uint64_t b) -> std::string {
        const auto r = samplerz::full_mul_u64(a, b);
        const u128 w = (u128)a * b;
        if (r.first != (uint64_t)(w >> 64) || r.second != (uint64_t)w)
          return mc::fmt("%016llx * %016llx: got %016llx:%016llx", (unsigned long long)a, (unsigned long long)b, (unsigned long long)r.first, (unsigned long long)r.second);
        if (samplerz::top_63_bits(r) != ((uint64_t)(w >> 63) & ((1ull << 63) - 1)))
          return mc::fmt("top 63 bits of %016llx * %016llx", (unsigned long long)a, (unsigned long long)b);
        mc::states(1);
        mc::transitions(2);
        mc::traces(1);
        return "";
      };
      for (uint32_t h : H)
        for (uint32_t l : H)
          if (auto e = one((uint64_t)h << 32 | l); !e.empty())
            return e;
      for (int s = 0; s < 64; s++)
        for (int d = -1; d <= 1; d++)
          if (auto e = one((1ull << s) + d); !e.empty())
            return e;
      return "";
    }, 4);
    mc::add("products of powers of two and neighbours", 64 * 64, [](uint64_t i) -> std::string {
      for (int da = -1; da <= 1; da++)
        for (int db = -1; db <= 1; db++) {
          const uint64_t a = (1ull << (i / 64)) + da, b = (1ull << (i % 64)) + db;
          const auto r = samplerz::full_mul_u64(a, b);
          const u128 w = (u128)a * b;
          if (r.first != (uint64_t)(w >> 64) || r.second != (uint64_t)w)
            return mc::fmt("%016llx * %016llx", (unsigned long long)a, (unsigned long long)b);
          mc::states(1);
          mc::transitions(1);
          mc::traces(1);
        }
      return "";
    }, 64);
    mc::add("top 63 bits", 64 * 4, [](uint64_t i) -> std::string {
      for (uint64_t lo : { 0ull, 1ull, 1ull << 63, (1ull << 63) - 1, ~0ull, 0x5555555555555555ull }) {
        // the product of two numbers below 2^63: 126 bits
        const uint64_t hi = ((i % 4 == 0 ? 1ull << (i / 4) : i % 4 == 1 ? (1ull << (i / 4)) - 1 : i % 4 == 2 ? ~0ull << (i / 4) : 0x0123456789abcdefull >> (i / 4))) & ((1ull << 62) - 1);
        const uint64_t want = (hi << 1) | (lo >> 63);
        if (samplerz::top_63_bits({ hi, lo }) != want)
          return mc::fmt("top 63 bits of %016llx:%016llx", (unsigned long long)hi, (unsigned long long)lo);
        mc::states(1);
        mc::traces(1);
      }
      return "";
    }, 16);
    mc::add("tables", 1, [](uint64_t) -> std::string {
      // section 4.4 of the Falcon specification
      static const char* const R[] = { "3024686241123004913666", "1564742784480091954050", "636254429462080897535", "199560484645026482916", "47667343854657281903", "8595902006365044063", "1163297957344668388", "117656387352093658", "8867391802663976", "496969357462633", "20680885154299", "638331848991", "14602316184", "247426747", "3104126", "28824", "198", "1", "0" };
      u128 acc = 0;
      for (size_t i = 0; i < 19; i++) {
        u128 w = 0;
        for (const char* c = R[i]; *c; c++)
          w = 10 * w + (*c - '0');
        if (V(samplerz::RCDT[i]) != w)
          return mc::fmt("reverse cumulative table entry %zu", i);
        acc = (acc + V(samplerz::PDT[i])) & M72;
        if (V(samplerz::CDT[i]) != acc)
          return mc::fmt("cumulative table entry %zu", i);
        if (V(samplerz::RCDT[i]) != ((0 - acc) & M72))
          return mc::fmt("reverse cumulative table entry %zu is not the complement", i);
        mc::states(3);
      }
      mc::sample("19 entries of PDT, CDT, RCDT against the specification's table");
      mc::traces(19);
      return "";
    });
  });
}
