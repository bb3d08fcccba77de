// Secret key codec: encode_skey / decode_skey against the reference bit packing.
#include "encoding.hpp"
#include "decoding.hpp"
#include "mc.hpp"
#include "ref.hpp"

template<size_t N>
constexpr int FG = (1 << (ref::params<N>::fgbits - 1)) - 1; // largest magnitude of f, g

template<size_t N>
struct outbuf
{
  int32_t g0[16], p[N], g1[16];
  outbuf()
  {
    for (auto& x : g0)
      x = 0x5a5a5a5a;
    for (auto& x : g1)
      x = 0x5a5a5a5a;
    for (auto& x : p)
      x = 0x7fffffff;
  }
  bool guards() const
  {
    for (auto x : g0)
      if (x != 0x5a5a5a5a)
        return false;
    for (auto x : g1)
      if (x != 0x5a5a5a5a)
        return false;
    return true;
  }
};

template<size_t N>
std::string
decode_any(const uint8_t* sk, const std::string& what)
{
  constexpr size_t L = ref::params<N>::sklen, B = ref::params<N>::fgbits;
  outbuf<N> f, g, F;
  std::vector<uint8_t> copy(sk, sk + L);
  const bool ok = decoding::decode_skey<N>(copy.data(), f.p, g.p, F.p);
  mc::transitions(1);
  mc::traces(1);
  if (memcmp(copy.data(), sk, L))
    return what + ": input modified";
  if (!f.guards() || !g.guards() || !F.guards())
    return what + ": write outside of the output buffers";
  ref::poly wf(N, 0), wg(N, 0), wF(N, 0);
  const bool hdr = sk[0] == (0x50 | ref::params<N>::lg);
  bool forbidden = false; // the minimum of the field is not a representable key coefficient
  if (hdr) {
    wf = ref::unpack(sk + 1, N, B, true);
    wg = ref::unpack(sk + 1 + N * B / 8, N, B, true);
    wF = ref::unpack(sk + 1 + N * B / 4, N, 8, true);
    for (size_t i = 0; i < N; i++)
      forbidden |= wf[i] < -FG<N> || wg[i] < -FG<N> || wF[i] < -127;
  }
  mc::outcome(!hdr ? "refused: header" : forbidden ? "contains a forbidden minimum" : "valid");
  if (!ok && (!hdr || forbidden)) {
    for (size_t i = 0; i < N; i++)
      if (f.p[i] || g.p[i] || F.p[i])
        return what + mc::fmt(": refused, but output %zu is not zero", i);
    return "";
  }
  if (ok != hdr)
    return what + (ok ? ": accepted, must be refused" : ": refused, must be accepted");
  for (size_t i = 0; i < N; i++) {
    if (f.p[i] != wf[i])
      return what + mc::fmt(": f[%zu] is %d, expected %d", i, f.p[i], (int)wf[i]);
    if (g.p[i] != wg[i])
      return what + mc::fmt(": g[%zu] is %d, expected %d", i, g.p[i], (int)wg[i]);
    if (F.p[i] != wF[i])
      return what + mc::fmt(": F[%zu] is %d, expected %d", i, F.p[i], (int)wF[i]);
  }
  std::vector<uint8_t> out(L + 64, 0xee);
  encoding::encode_skey<N>(f.p, g.p, F.p, out.data());
  if (memcmp(out.data(), sk, L))
    return what + ": re-encoding the decoded key gives different bytes";
  for (size_t i = 0; i < 64; i++)
    if (out[L + i] != 0xee)
      return what + ": encoding writes past the secret key";
  return "";
}

template<size_t N>
std::string
roundtrip(const ref::poly& f, const ref::poly& g, const ref::poly& F, const std::string& what)
{
  int32_t f_[N], g_[N], F_[N];
  for (size_t i = 0; i < N; i++) {
    f_[i] = f[i];
    g_[i] = g[i];
    F_[i] = F[i];
  }
  constexpr size_t L = ref::params<N>::sklen;
  std::vector<uint8_t> out(L, 0xff);
  encoding::encode_skey<N>(f_, g_, F_, out.data());
  mc::transitions(1);
  const auto want = ref::encode_sk<N>(f, g, F);
  for (size_t i = 0; i < L; i++)
    if (want[i] != out[i])
      return what + mc::fmt(": encoded byte %zu is %02x, expected %02x", i, out[i], want[i]);
  for (size_t i = 0; i < N; i++)
    if (f_[i] != f[i] || g_[i] != g[i] || F_[i] != F[i])
      return what + ": input modified";
  return decode_any<N>(out.data(), what);
}

static int64_t
in_range(uint64_t k, int max) // all of [-max, max]
{
  return static_cast<int64_t>(k % (2 * max + 1)) - max;
}

template<size_t N>
void
define()
{
  const std::string n = mc::fmt("%zu: ", N);
  mc::add(n + "every value at every position", 255 * 8, [](uint64_t i) -> std::string {
    static const uint64_t steps[8] = { 0, 1, 2, 7, 31, 32, 64, 127 };
    const uint64_t k = i / 8, s = steps[i % 8];
    ref::poly f(N), g(N), F(N);
    for (size_t j = 0; j < N; j++) {
      f[j] = in_range(k + j * s, FG<N>);
      g[j] = in_range(k + 5 + j * s, FG<N>);
      F[j] = in_range(k + 9 + j * s, 127);
    }
    mc::state(mc::hash(f.data(), 8 * N, mc::hash(g.data(), 8 * N, mc::hash(F.data(), 8 * N))));
    if (i == 1000)
      mc::sample(mc::fmt("N=%zu f,g,F[j] = k + j*step over the whole coefficient range, k=%d step=%d", N, (int)k, (int)s));
    return roundtrip<N>(f, g, F, mc::fmt("k=%d step=%d", (int)k, (int)s));
  }, 16);
  mc::add(n + "single coefficient among equal neighbours", 3 * N, [](uint64_t i) -> std::string {
    const size_t p = i / 3;
    for (int bg : { 0, -1, 1 }) { // zero, minimum, maximum
      ref::poly f(N, bg * FG<N>), g(N, bg * FG<N>), F(N, bg * 127);
      const int max = i % 3 == 2 ? 127 : FG<N>;
      for (int v = -max; v <= max; v++) {
        (i % 3 == 0 ? f : i % 3 == 1 ? g : F)[p] = v;
        mc::states(1);
        if (auto e = roundtrip<N>(f, g, F, mc::fmt("%s[%zu]=%d, others %s", i % 3 == 0 ? "f" : i % 3 == 1 ? "g" : "F", p, v, bg ? "extreme" : "0"));
            !e.empty())
          return e;
      }
    }
    return "";
  }, 2);
  mc::add(n + "every header byte", 256 * 3, [](uint64_t i) -> std::string {
    std::vector<uint8_t> sk(ref::params<N>::sklen, i % 3 == 0 ? 0 : i % 3 == 1 ? 0x41 : 0xff);
    sk[0] = i / 3;
    mc::states(1);
    return decode_any<N>(sk.data(), mc::fmt("header %02x", (unsigned)(i / 3)));
  }, 16);
  mc::add(n + "every byte value at every offset", ref::params<N>::sklen * 2, [](uint64_t i) -> std::string {
    std::vector<uint8_t> sk(ref::params<N>::sklen, i % 2 ? 0x41 : 0);
    sk[0] = 0x50 | ref::params<N>::lg;
    for (int v = 0; v < 256; v++) {
      sk[i / 2] = v;
      mc::states(1);
      if (auto e = decode_any<N>(sk.data(), mc::fmt("byte %d = %02x", (int)(i / 2), v)); !e.empty())
        return e;
    }
    return "";
  }, 8);
}

int
main(int argc, char** argv)
{
  return mc::main(argc, argv, [] {
    define<512>();
    define<1024>();
  });
}
