// Signature compression: compress_sig / decompress_sig / decode_sig against the reference bit codec.
#include "encoding.hpp"
#include "decoding.hpp"
#include "mc.hpp"
#include "ref.hpp"

template<size_t N>
constexpr size_t L = ref::params<N>::siglen;
template<size_t N>
constexpr int64_t CAP = 8 * (L<N> - 41); // bits
template<size_t N>
constexpr int64_t SPARE = CAP<N> - 9 * (int64_t)N; // bits left for unary parts: 392 / 696

template<size_t N>
std::string
decompress_any(const uint8_t* body, const std::string& what, const char* origin)
{
  uint8_t sig[L<N>];
  memset(sig, 0x5c, 41);
  memcpy(sig + 41, body, L<N> - 41);
  int32_t out[N + 32];
  std::fill_n(out, N + 32, 0x13579bdf);
  const bool ok = decoding::decompress_sig<N, L<N>>(sig, out + 16);
  ref::poly want(N);
  const bool w = ref::decompress(body, L<N> - 41, want.data(), N);
  if (!w)
    want.assign(N, 0);
  mc::transitions(1);
  mc::traces(1);
  mc::outcome(std::string("decompress ") + origin + (w ? ": accepted" : ": refused"));
  if (ok != w)
    return what + (ok ? ": decompression accepted, must refuse" : ": decompression refused, must accept");
  for (size_t i = 0; i < N; i++)
    if (out[16 + i] != want[i])
      return what + mc::fmt(": coefficient %zu decompresses to %d, expected %d", i, out[16 + i], (int)want[i]);
  for (size_t i = 0; i < 16; i++)
    if (out[i] != 0x13579bdf || out[16 + N + i] != 0x13579bdf)
      return what + ": write outside of the output polynomial";
  if (w) { // unique encoding
    uint8_t again[L<N>];
    memset(again, 0x5c, sizeof again);
    if (!encoding::compress_sig<N, L<N>>(out + 16, again) || memcmp(again, sig, L<N>))
      return what + ": accepted body is not what compression produces";
  }
  return "";
}

template<size_t N>
std::string
compress_any(const ref::poly& s, const std::string& what, const char* origin, bool back = true)
{
  int32_t in[N];
  for (size_t i = 0; i < N; i++)
    in[i] = (int32_t)s[i];
  uint8_t sig[64 + L<N> + 64];
  memset(sig, 0xc3, sizeof sig);
  const bool ok = encoding::compress_sig<N, L<N>>(in, sig + 64);
  uint8_t want[L<N> - 41];
  const bool w = ref::compress(s.data(), N, want, L<N> - 41);
  mc::transitions(1);
  mc::traces(1);
  mc::outcome(std::string("compress ") + origin + (w ? ": fits" : ": too long"));
  if (ok != w)
    return what + (ok ? ": compression claims success although it does not fit" : ": compression fails although it fits");
  for (size_t i = 0; i < L<N> - 41; i++)
    if (sig[64 + 41 + i] != want[i])
      return what + mc::fmt(": body byte %zu is %02x, expected %02x", i, sig[64 + 41 + i], want[i]);
  for (size_t i = 0; i < 64 + 41; i++)
    if (sig[i] != 0xc3)
      return what + ": compression touched header or salt";
  for (size_t i = 0; i < 64; i++)
    if (sig[64 + L<N> + i] != 0xc3)
      return what + ": compression wrote past the signature";
  for (size_t i = 0; i < N; i++)
    if (in[i] != (int32_t)s[i])
      return what + ": compression modified its input";
  if (w && back) {
    int32_t out[N];
    std::fill_n(out, N, -77);
    if (!decoding::decompress_sig<N, L<N>>(sig + 64, out))
      return what + ": decompression refuses what compression produced";
    for (size_t i = 0; i < N; i++)
      if (out[i] != s[i])
        return what + mc::fmt(": coefficient %zu decompresses to %d instead of %d", i, out[i], (int)s[i]);
  }
  return "";
}

// deterministic honest-looking polynomial
template<size_t N>
ref::poly
honest(uint64_t k)
{
  ref::poly s(N);
  for (size_t i = 0; i < N; i++) {
    const uint64_t h = mc::mix(k * 1000003 + i);
    s[i] = (int64_t)(h % 128);
    if ((h >> 20) % 3 == 0)
      s[i] += 128;
    if ((h >> 24) % 16 == 0)
      s[i] += 128;
    if ((h >> 40) & 1)
      s[i] = -s[i];
  }
  while (ref::compressed_bits(s.data(), N) > (size_t)CAP<N>)
    for (size_t i = 0; i < N; i++)
      if (std::abs(s[i]) >= 128) {
        s[i] /= 2;
        break;
      }
  return s;
}

template<size_t N>
void
define()
{
  const std::string n = mc::fmt("%zu: ", N);
  constexpr int64_t MAXV = SPARE<N> * 128 + 127;
  // 16 positions: all bit alignments at the start and at the end of the buffer
  mc::add(n + "every magnitude at every alignment", 16 * 2 * 64, [](uint64_t i) -> std::string {
    const size_t slot = i % 16, p = slot < 8 ? slot : N - 16 + slot;
    const int sign = (i / 16) % 2 ? -1 : 1;
    for (int64_t v = i / 32; v <= MAXV + 300; v += 64) {
      ref::poly s(N, 0);
      s[p] = sign * v;
      mc::states(1);
      if (auto e = compress_any<N>(s, mc::fmt("s[%zu]=%d", p, (int)(sign * v)), "single coefficient"); !e.empty())
        return e;
    }
    return "";
  });
  mc::add(n + "low bits and sign at every position", 256, [](uint64_t k) -> std::string {
    for (uint64_t step : { 0, 1, 3, 17, 128 })
      for (int amp : { 0, 1 }) {
        ref::poly s(N);
        int64_t extra = 0;
        for (size_t j = 0; j < N; j++) {
          const uint64_t x = (k + j * step) % 256;
          s[j] = x % 128;
          if (amp && (j + k) % 2 == 0 && extra < SPARE<N>) {
            s[j] += 128;
            extra++;
          }
          if (x >= 128)
            s[j] = -s[j];
        }
        mc::state(mc::hash(s.data(), 8 * N));
        if (auto e = compress_any<N>(s, mc::fmt("k=%d step=%d amp=%d", (int)k, (int)step, amp), "sliding values"); !e.empty())
          return e;
      }
    return "";
  }, 4);
  mc::add(n + "one large coefficient at every position", N, [](uint64_t p) -> std::string {
    for (int64_t k : { (int64_t)1, (int64_t)7, (int64_t)8, (int64_t)9, (int64_t)63, (int64_t)64, SPARE<N> - 1, SPARE<N>, SPARE<N> + 1, SPARE<N> + 8 })
      for (int low : { 0, 1, 127 })
        for (int sg : { 1, -1 }) {
          ref::poly s(N, 0);
          s[p] = sg * (128 * k + low);
          mc::states(1);
          if (auto e = compress_any<N>(s, mc::fmt("s[%d]=%d", (int)p, (int)s[p]), "one large"); !e.empty())
            return e;
        }
    return "";
  }, 4);
  // total length one short of full, exactly full, one too long: excess split over two coefficients
  mc::add(n + "boundary lengths split over two positions", N, [](uint64_t p) -> std::string {
    for (int d = -2; d <= 2; d++) {
      const int64_t E = SPARE<N> + d;
      const size_t q = (p + 1 + (p * 37) % (N - 1)) % N;
      if (q == p)
        continue;
      for (int64_t k = 0; k <= E; k += mc::quick ? 5 : 1) {
        ref::poly s(N, 0);
        s[p] = 128 * k + 3;
        s[q] = -(128 * (E - k) + 5);
        mc::states(1);
        if (auto e = compress_any<N>(s, mc::fmt("s[%d]=%d s[%zu]=%d (total bits %d of %d)", (int)p, (int)s[p], q, (int)s[q],
                                                (int)ref::compressed_bits(s.data(), N), (int)CAP<N>),
                                     d < 0 ? "below full" : d == 0 ? "exactly full" : "above full");
            !e.empty())
          return e;
      }
    }
    return "";
  }, 4);
  mc::add(n + "boundary lengths spread over many positions", 64, [](uint64_t i) -> std::string {
    for (int d = -9; d <= 9; d++) {
      ref::poly s(N, 0);
      int64_t E = SPARE<N> + d;
      size_t p = i;
      const int64_t unit = 1 + (int64_t)(i % 8);
      while (E > 0) {
        const int64_t u = std::min(unit, E);
        s[p % N] += (s[p % N] < 0 ? -1 : 1) * 128 * u;
        if (p % 3 == 0)
          s[p % N] = -s[p % N];
        E -= u;
        p += 1 + i / 8;
      }
      mc::state(mc::hash(s.data(), 8 * N));
      if (auto e = compress_any<N>(s, mc::fmt("spread %d excess %d", (int)i, d), d < 0 ? "below full" : d == 0 ? "exactly full" : "above full"); !e.empty())
        return e;
    }
    return "";
  });
  mc::add(n + "oversized coefficients", N, [](uint64_t p) -> std::string {
    static const int64_t big[] = { INT32_MAX, -(int64_t)INT32_MAX, INT32_MIN, 1 << 30, -(1 << 30), 1 << 20, 1 << 17, 100000, 65536, 65535, -65536, 12289 * 7 };
    for (int64_t v : big) {
      ref::poly s(N, 1);
      s[p] = v;
      mc::states(2);
      if (auto e = compress_any<N>(s, mc::fmt("s[%d]=%lld", (int)p, (long long)v), "oversized"); !e.empty())
        return e;
      s.assign(N, v);
      s[p] = 0;
      if (auto e = compress_any<N>(s, mc::fmt("all %lld but [%d]", (long long)v, (int)p), "oversized"); !e.empty())
        return e;
    }
    return "";
  }, 16);
  // arbitrary bodies
  mc::add(n + "flip every bit of valid bodies", CAP<N>, [](uint64_t b) -> std::string {
    for (int k = 0; k < (mc::quick ? 6 : 40); k++) {
      uint8_t body[L<N> - 41];
      auto s = k == 0 ? ref::poly(N, 0) : honest<N>(k);
      ref::compress(s.data(), N, body, sizeof body);
      body[b / 8] ^= 0x80 >> (b % 8);
      mc::states(1);
      if (auto e = decompress_any<N>(body, mc::fmt("bit %d of honest body %d flipped", (int)b, k), "bit flip"); !e.empty())
        return e;
    }
    return "";
  }, 16);
  mc::add(n + "minus zero at every position", N, [](uint64_t p) -> std::string {
    for (int k = 0; k < 4; k++) {
      auto s = honest<N>(k + 10);
      s[p] = 0;
      uint8_t body[L<N> - 41];
      ref::compress(s.data(), N, body, sizeof body);
      const size_t at = ref::compressed_bits(s.data(), p);
      body[at / 8] |= 0x80 >> (at % 8);
      mc::states(1);
      if (auto e = decompress_any<N>(body, mc::fmt("minus zero at %d", (int)p), "minus zero"); !e.empty())
        return e;
    }
    return "";
  }, 8);
  // after the first N-1 (or N) coefficients r bits remain: all 2^r patterns
  mc::add(n + "every tail pattern", 2 * 17 * 16, [](uint64_t i) -> std::string {
    const int last = i % 2; // 1: one coefficient still to come, 0: only padding to come
    const int r = (i / 2) % 17 + (last ? 3 : 0);
    const uint64_t part = i / 34;
    ref::poly s(N, 0);
    // consume CAP - r bits with N - last coefficients
    const int64_t M = N - last;
    int64_t E = CAP<N> - r - 9 * M;
    s[0] = 128 * (E / 2) + 1;
    s[M - 1] = 128 * (E - E / 2) + 1;
    uint8_t body[L<N> - 41];
    memset(body, 0, sizeof body);
    {
      std::vector<uint8_t> big(sizeof body + 64, 0);
      ref::compress(s.data(), M, big.data(), big.size());
      memcpy(body, big.data(), sizeof body);
    }
    for (uint64_t v = part; v < 1ull << r; v += 16) {
      uint8_t b2[sizeof body];
      memcpy(b2, body, sizeof body);
      for (int b = 0; b < r; b++) {
        const size_t at = CAP<N> - r + b;
        b2[at / 8] &= ~(0x80 >> (at % 8));
        if ((v >> (r - 1 - b)) & 1)
          b2[at / 8] |= 0x80 >> (at % 8);
      }
      mc::states(1);
      if (auto e = decompress_any<N>(b2, mc::fmt("%d tail bits = %llx with %d coefficients left", r, (unsigned long long)v, last),
                                     last ? "tail: last coefficient" : "tail: padding");
          !e.empty())
        return e;
    }
    return "";
  });
  mc::add(n + "every value of every two adjacent bytes", mc::quick ? 24 : L<N> - 42, [](uint64_t i) -> std::string {
    // start, middle and end of the body (all offsets in the thorough tier)
    const size_t off = !mc::quick ? i : i < 8 ? i : i < 16 ? (L<N> - 41) / 2 + i : L<N> - 43 - (i - 16);
    auto s = honest<N>(3);
    uint8_t body[L<N> - 41];
    ref::compress(s.data(), N, body, sizeof body);
    for (int v = 0; v < 65536; v++) {
      body[off] = v >> 8;
      body[off + 1] = v;
      mc::states(1);
      if (auto e = decompress_any<N>(body, mc::fmt("bytes %zu,%zu = %04x", off, off + 1, v), "two bytes"); !e.empty())
        return e;
    }
    return "";
  });
  mc::add(n + "runs of zeros and ones", CAP<N>, [](uint64_t b) -> std::string {
    for (int kind = 0; kind < 6; kind++) {
      uint8_t body[L<N> - 41];
      memset(body, kind % 2 ? 0xff : 0, sizeof body);
      if (kind < 2) // single differing bit
        body[b / 8] ^= 0x80 >> (b % 8);
      else if (kind < 4) // everything from bit b on differs
        for (int64_t x = b; x < CAP<N>; x++)
          body[x / 8] ^= 0x80 >> (x % 8);
      else { // honest prefix, then constant
        auto s = honest<N>(5);
        uint8_t h[sizeof body];
        ref::compress(s.data(), N, h, sizeof h);
        for (uint64_t x = 0; x < b; x++) {
          body[x / 8] &= ~(0x80 >> (x % 8));
          body[x / 8] |= h[x / 8] & (0x80 >> (x % 8));
        }
      }
      mc::states(1);
      if (auto e = decompress_any<N>(body, mc::fmt("run kind %d at bit %d", kind, (int)b), "runs"); !e.empty())
        return e;
    }
    return "";
  }, 16);
  mc::add(n + "decode_sig: every header byte", 256, [](uint64_t hd) -> std::string {
    for (int k = 0; k < 3; k++) {
      auto s = honest<N>(k);
      uint8_t salt[40];
      for (int i = 0; i < 40; i++)
        salt[i] = i * 7 + k + 1;
      bool fits;
      auto sig = ref::make_sig<N>(salt, s, &fits);
      if (!fits)
        return "internal: honest body does not fit";
      sig[0] = hd;
      uint8_t out[40];
      int32_t p[N];
      std::fill_n(p, N, 99);
      memset(out, 0, 40);
      const bool ok = decoding::decode_sig<N>(sig.data(), out, p);
      const bool w = hd == (0x30 | ref::params<N>::lg);
      mc::states(1);
      mc::transitions(1);
      mc::traces(1);
      mc::outcome(w ? "decode_sig accepted" : "decode_sig refused: header");
      if (ok != w)
        return mc::fmt("header %02x: %s", (unsigned)hd, ok ? "accepted" : "refused");
      if (ok) {
        if (memcmp(out, salt, 40))
          return "salt differs";
        for (size_t i = 0; i < N; i++)
          if (p[i] != s[i])
            return "s2 differs";
      }
    }
    return "";
  }, 16);
}

int
main(int argc, char** argv)
{
  return mc::main(argc, argv, [] {
    define<512>();
    define<1024>();
    mc::add("sample executions", 1, [](uint64_t) -> std::string {
      mc::sample("s[509] = 128*392+127 at 16 alignments, both signs, compress + decompress");
      mc::sample("N=512, 511 coefficients consume CAP-11 bits: all 2^11 tails decompressed and compared");
      return "";
    });
  });
}
