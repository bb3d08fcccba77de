// Memory and undefined behaviour: hostile contents in buffers of exactly the declared sizes, built
// with AddressSanitizer and UndefinedBehaviorSanitizer (any report ends the process).
#include "cands.hpp"
#include "canddata.hpp"
#include "targets.hpp"
#include "utils.hpp"

// exactly n bytes on the heap, `off` bytes away from the allocator's alignment
template<typename T>
struct exact
{
  uint8_t* base;
  T* p;
  size_t n;
  explicit exact(size_t n_, size_t off = 0)
    : n(n_)
  {
    base = (uint8_t*)malloc(n * sizeof(T) + off);
    p = (T*)(base + off);
    memset((void*)base, 0xa5, n * sizeof(T) + off);
  }
  exact(const std::vector<uint8_t>& v, size_t off = 0)
    : exact(v.size(), off)
  {
    if (n)
      memcpy((void*)p, v.data(), n);
  }
  ~exact() { free(base); }
  exact(const exact&) = delete;
  T* get() { return p; }
  T& operator[](size_t i) { return p[i]; }
};
using buf = exact<uint8_t>;
using bytes = std::vector<uint8_t>;

static std::string
done(const char* what, uint64_t n = 1)
{
  mc::states(n);
  mc::transitions(n);
  mc::traces(n);
  mc::outcome(what, n);
  return "";
}

template<size_t N>
static bytes
honest(int key, uint64_t seed, size_t mlen)
{
  flat_rng f(seed);
  f.keep = false;
  install_rng in(&f);
  bytes sig(P<N>::siglen), msg(mlen, 3);
  const auto& e = expand<N>(key);
  prng::prng_t g;
  falcon::sign<N>(e.B.data(), e.T.data(), msg.data(), mlen, sig.data(), g);
  return sig;
}

// --- decoding -----------------------------------------------------------------------------------
template<size_t N>
static std::string
hostile_pk(uint64_t i)
{
  // item: offset; every value of that byte, on three backgrounds
  const size_t o = i % P<N>::pklen;
  const auto& k = keys::get<N>(i % 3);
  static const bytes sig = honest<N>(0, 1, 4);
  for (int bg = 0; bg < 3; bg++)
    for (int v = 0; v < 256; v++) {
      bytes b = bg == 0 ? k.pk : bytes(P<N>::pklen, bg == 1 ? 0 : 0xff);
      if (o)
        b[0] = P<N>::lg;
      b[o] = v;
      const size_t off = (v + o) % 8;
      buf pk(b, off);
      exact<ff::ff_t> h(N);
      decoding::decode_pkey<N>(pk.get(), h.get());
      if (v % 32 == 5) {
        buf m(bytes{ 3, 3, 3, 3 }, v % 3), s(sig, v % 7);
        falcon::verify<N>(pk.get(), m.get(), 4, s.get());
      }
    }
  return done("hostile public keys decoded", 768);
}
template<size_t N>
static std::string
hostile_sk(uint64_t i)
{
  const size_t o = i % P<N>::sklen;
  static const int V[] = { 0x00, 0x80, 0xff, 0x7f, 0x20, 0x01 };
  const auto& k = keys::get<N>((i / P<N>::sklen) % 3);
  for (int v = 0; v < 256; v++) {
    bytes b = k.sk;
    b[o] = v;
    buf sk(b, v % 8);
    exact<int32_t> f(N), g(N), F(N);
    decoding::decode_skey<N>(sk.get(), f.get(), g.get(), F.get());
  }
  flat_rng r(i);
  r.keep = false;
  install_rng in(&r);
  for (int q = 0; q < (mc::quick ? 1 : 6); q++) {
    bytes b = k.sk;
    b[o] = V[(q + i) % 6];
    buf sk(b, o % 8), sig(P<N>::siglen, o % 5), m(bytes{ 1, 2, 3 });
    const bool ok = falcon::sign<N>(sk.get(), m.get(), 3, sig.get());
    mc::outcome(ok ? "altered secret key: signed" : "altered secret key: refused");
  }
  return done("hostile secret keys", 256);
}
template<size_t N>
static bytes
pattern_sk(int kind)
{
  const auto& k = keys::get<N>(kind % 3);
  poly f(N), g(N), F(N);
  switch (kind / 3 % 16) {
    case 0: f[0] = 1; break;                         // g = F = 0
    case 1: f[0] = 1; g[0] = 1; break;
    case 2: g[0] = 1; break;                         // f = 0
    case 3: break;                                   // all zero
    case 4: f = k.f; g = k.g; break;                 // F = 0
    case 5: f = k.f; F = k.F; break;                 // g = 0
    case 6: g = k.g; F = k.F; break;                 // f = 0
    case 7: f = k.g; g = k.f; F = k.F; break;        // exchanged
    case 8: f = k.f; g = k.g; F = k.F; F[0]++; break;
    case 9: for (auto& x : f) x = 1; g = k.g; F = k.F; break; // f vanishes nowhere but is far from invertible
    case 10: f = k.f; g = k.g; for (auto& x : F) x = 127; break;
    case 11: for (auto& x : f) x = N == 512 ? 31 : 15; g = f; for (auto& x : F) x = -127; break;
    case 12: f[0] = 1; f[N / 2] = 1; g = k.g; F = k.F; break;
    case 13: f = k.f; g = k.g; for (size_t i = 0; i < N; i++) F[i] = -k.F[i]; break;
    case 14: for (size_t i = 0; i < N; i++) { f[i] = -k.f[i]; g[i] = -k.g[i]; F[i] = -k.F[i]; } break; // a good key
    case 15: f = k.f; g = k.g; F = k.G; for (auto& x : F) x = std::max<int64_t>(-127, std::min<int64_t>(127, x)); break;
  }
  return ref::encode_sk<N>(f, g, F);
}
template<size_t N>
static std::string
pattern_keys(uint64_t i)
{
  bytes b;
  if (i < 48)
    b = pattern_sk<N>((int)i);
  else {
    const int v = (int)(i - 48);
    b.assign(P<N>::sklen, v);
    b[0] = 0x50 | P<N>::lg;
  }
  flat_rng r(i);
  r.keep = false;
  install_rng in(&r);
  for (size_t off = 0; off < 2; off++) {
    buf sk(b, off), sig(P<N>::siglen, off), m(bytes(5, 7), off);
    const bool ok = falcon::sign<N>(sk.get(), m.get(), 5, sig.get());
    mc::outcome(ok ? "patterned secret key: signed" : "patterned secret key: refused");
  }
  return done("patterned secret keys");
}
template<size_t N>
static std::string
headers(uint64_t h)
{
  const auto& k = keys::get<N>(h % 3);
  for (int bg = 0; bg < 3; bg++) {
    bytes p = bg == 0 ? k.pk : bytes(P<N>::pklen, bg == 1 ? 0 : 0xff), s = bg == 0 ? k.sk : bytes(P<N>::sklen, bg == 1 ? 0 : 0xff),
          g = bg == 0 ? honest<N>(h % 3, h, 1) : bytes(P<N>::siglen, bg == 1 ? 0 : 0xff);
    p[0] = s[0] = g[0] = (uint8_t)h;
    buf pk(p, h % 4), sk(s, h % 3), sig(g, h % 5), sig2(P<N>::siglen), m(bytes{ 3 });
    falcon::verify<N>(pk.get(), m.get(), 1, sig.get());
    buf good(k.pk);
    falcon::verify<N>(good.get(), m.get(), 1, sig.get());
    flat_rng r(h);
    r.keep = false;
    install_rng in(&r);
    falcon::sign<N>(sk.get(), m.get(), 1, sig2.get());
  }
  return done("every header", 3);
}
// --- signatures -----------------------------------------------------------------------------------
template<size_t N>
static void
check_sig(int key, const bytes& s, size_t off)
{
  buf sig(s, off), pk(keys::get<N>(key).pk, off), m(bytes{ 3, 3, 3, 3 }, off);
  exact<int32_t> s2(N);
  uint8_t salt[40];
  decoding::decompress_sig<N, P<N>::siglen>(sig.get(), s2.get());
  decoding::decode_sig<N>(sig.get(), salt, s2.get());
  falcon::verify<N>(pk.get(), m.get(), 4, sig.get());
}
template<size_t N>
static std::string
hostile_sig(uint64_t bit)
{
  // honest (or constant) up to a bit, then a constant tail; a single zero / one bit
  const int key = bit % 3;
  static const bytes hon = honest<N>(0, 77, 4);
  bytes base = hon;
  auto setbit = [&](bytes& b, size_t i, int v) {
    const size_t p = 41 + i / 8;
    b[p] = (uint8_t)((b[p] & ~(0x80 >> (i % 8))) | (v ? 0x80 >> (i % 8) : 0));
  };
  const size_t nb = CAP<N>;
  for (int pre = 0; pre < 4; pre++)
    for (int tail = 0; tail < 4; tail++) {
      bytes b = base;
      for (size_t i = 0; i < nb; i++) {
        if (i < bit && pre)
          setbit(b, i, pre == 1 ? 0 : pre == 2 ? 1 : i % 9 == 8);
        if (i >= bit)
          setbit(b, i, tail == 0 ? 0 : tail == 1 ? 1 : tail == 2 ? i == bit : i % 9 == (bit + 8) % 9);
      }
      check_sig<N>(key, b, (bit + pre) % 8);
    }
  bytes b = base;
  setbit(b, bit, !(b[41 + bit / 8] & (0x80 >> (bit % 8))));
  check_sig<N>(key, b, bit % 8);
  return done("hostile signatures", 17);
}
template<size_t N>
static std::string
tail_bytes(uint64_t hi)
{
  // the last two bytes take every value, behind bodies which need all, nearly all or none of the bits
  static const bytes hon = [] {
    target t = with_bits<N>(0, 5, P<N>::beta2 / 2);
    bytes s(P<N>::siglen);
    s[0] = 0x30 | P<N>::lg;
    std::vector<int32_t> v(t.s2.begin(), t.s2.end());
    encoding::compress_sig<N, P<N>::siglen>(v.data(), s.data());
    return s;
  }();
  for (int bg = 0; bg < 3; bg++)
    for (int lo = 0; lo < 256; lo++) {
      bytes b = hon;
      if (bg)
        for (size_t i = 41; i < b.size(); i++)
          b[i] = bg == 1 ? 0 : 0xff;
      b[b.size() - 2] = (uint8_t)hi;
      b[b.size() - 1] = (uint8_t)lo;
      buf sig(b, lo % 8);
      exact<int32_t> s2(N);
      decoding::decompress_sig<N, P<N>::siglen>(sig.get(), s2.get());
    }
  return done("last two bytes", 768);
}
template<size_t N>
static std::string
compress(uint64_t pos)
{
  static const int32_t V[] = { 127, 128, 1023, 1024, 2047, 2048, 4095, 5900, 8383, 8448, 9000, 12288, 65535, 1 << 20 };
  for (int bg = 0; bg < 4; bg++)
    for (int32_t v0 : V)
      for (int sg = 0; sg < 2; sg++) {
        exact<int32_t> p(N);
        for (size_t i = 0; i < N; i++)
          p[i] = bg == 0 ? 0 : bg == 1 ? 127 : bg == 2 ? -128 : (i < N * 3 / 5 ? -255 : 12);
        p[pos] = sg ? -v0 : v0;
        buf sig(P<N>::siglen, (v0 + pos) % 8);
        encoding::compress_sig<N, P<N>::siglen>(p.get(), sig.get());
      }
  return done("compressed polynomials", 112);
}
template<size_t N>
static std::string
hashing_lengths(uint64_t mlen)
{
  exact<ff::ff_t> c(N);
  buf salt(40, mlen % 8);
  for (int s = 0; s < 2; s++) {
    buf m(bytes(mlen, (uint8_t)(mlen * 3)), s * 3);
    hashing::hash_to_point<N>(salt.get(), 40, mlen ? m.get() : nullptr, mlen, c.get());
    hashing::hash_to_point<N>(salt.get(), 40, m.get(), mlen, c.get());
    static const bytes sg = honest<N>(1, 9, 4);
    buf sig(sg, s), pk(keys::get<N>(1).pk, s);
    falcon::verify<N>(pk.get(), m.get(), mlen, sig.get());
  }
  return done("message lengths", 2);
}
// --- sampler ----------------------------------------------------------------------------------------
static std::string
byte_arrays(uint64_t len)
{
  static const int K[] = { 0x00, 0xff, 0x7f, 0x80, 0x01, 0x55 };
  static const double MU[] = { 0, 0.5, -0.5, 1e-300, 0.999999999999, -91.90471153063714, 8321.25, -100000.75 };
  static const double SG[][2] = { { 1.7037990414754918, 1.2778336969128337 }, { 1.277833697, 1.277833697 }, { 1.8205, 1.298280334 }, { 1.298280334, 1.298280334 } };
  uint64_t n = 0;
  for (int a : K)
    for (int b : K)
      for (double mu : MU)
        for (auto& sg : SG) {
          bytes v(len);
          for (size_t i = 0; i < len; i++)
            v[i] = i % 10 < 9 ? a : b;
          buf r(v, len % 8);
          const auto [z, used] = samplerz::samplerz(mu, sg[0], sg[1], r.get(), len);
          if (used > len)
            return mc::fmt("samplerz claims to have used %zu of %zu bytes", used, (size_t)len);
          n++;
        }
  for (double x : { 0., 1e-17, 0.5, 0.6931471805599453, 0.6931471805599454, 5.5, 43.9, 44.5, 63.9 * 0.6931471805599453, 64 * 0.6931471805599453, 100., 130. })
    for (double ccs : { 0.7, 0.71, 0.999999, 1. })
      for (int a : K)
        if (len) {
          bytes v(len, a);
          buf r(v, 1);
          const auto [t, used] = samplerz::ber_exp(x, ccs, r.get(), len);
          if (used > len)
            return mc::fmt("ber_exp claims to have used %zu of %zu bytes", used, (size_t)len);
          n++;
        }
  return done("byte array interfaces", n);
}
// every sampler answer in every corner of centre and width, generator interface
static std::string
generator_corners(uint64_t i)
{
  struct prefix_rng : flat_rng
  {
    using flat_rng::flat_rng;
  } r(i);
  r.keep = false;
  const int v = i % 256;
  const size_t len = (i / 256) % 40;
  r.prefix.assign(len, (uint8_t)v);
  install_rng in(&r);
  prng::prng_t g;
  uint64_t n = 0;
  for (double mu : { 0., -0., 0.5, -1e-18, 0x1.fffffffffffffp-1, 12345.6789, -7000.000001, 1e6 + 0.3, -1e6 - 0.7 })
    for (double s : { 1.277833697, 1.298280334, 1.5, 1.8205 }) {
      r.pos = 0;
      samplerz::samplerz(mu, s, s > 1.29 ? 1.298280334 : 1.277833697, g);
      n++;
    }
  return done("generator interface", n);
}
// --- signing ----------------------------------------------------------------------------------------
template<size_t N>
static std::string
directed_sign(int key, int api, const std::vector<target>& seq)
{
  const auto& p = directed::prep<N>(key);
  poly c = ref::mulq(seq[0].s2, p.k->h);
  for (size_t i = 0; i < N; i++)
    c[i] = ref::modq(c[i] + seq[0].s1[i]);
  scripted_rng r(7 + key);
  r.salt.assign(40, (uint8_t)key);
  for (auto& t : seq)
    if (!directed::plan_attempt<N>(p, c, t.s1, t.s2, r.s)) {
      mc::outcome("point not reachable by the sampler: skipped");
      return "";
    }
  chosen_c x;
  x.c = c;
  install_rng ir(&r);
  install_xof ix(&x);
  buf sig(P<N>::siglen, key), m(bytes{ 1, 2 }, 1), sk(p.k->sk, 3), pk(p.k->pk, 5);
  if (api == 0)
    falcon::sign<N>(sk.get(), m.get(), 2, sig.get());
  else {
    const auto& e = expand<N>(key);
    exact<fft::cmplx> B(4 * N), T(N * (P<N>::lg + 1));
    memcpy((void*)B.p, e.B.data(), 4 * N * sizeof(fft::cmplx));
    memcpy((void*)T.p, e.T.data(), N * (P<N>::lg + 1) * sizeof(fft::cmplx));
    prng::prng_t rng;
    falcon::sign<N>(B.get(), T.get(), m.get(), 2, sig.get(), rng);
  }
  falcon::verify<N>(pk.get(), m.get(), 2, sig.get());
  return done("directed signing", seq.size());
}
template<size_t N>
static std::string
rejections(uint64_t i)
{
  const int key = i % 3, kind = i / 3 % KINDS;
  target ok = with_bits<N>((i / 15 % 3) * -1, i, P<N>::beta2 / 10 * 8), bad;
  if (ok.s1.empty() || !rejected<N>(kind, key, ok, i * 31, bad)) {
    mc::outcome("no such point: skipped");
    return "";
  }
  mc::outcome("history contains: " + bad.name);
  return directed_sign<N>(key, (int)(i / 15 % 2), { bad, ok });
}
template<size_t N>
static std::string
large_s2(uint64_t pos)
{
  static const int64_t V[] = { 1023, 1024, 2048, 4000, 5200 };
  const int64_t v = V[pos % 5];
  target t = plain<N>(pos + 3, 0);
  for (auto& x : t.s2)
    x = pos % 3 ? x / 3 : x;
  t.s2[pos] = pos & 1 ? -v : v;
  if (!set_norm(t, std::max(P<N>::beta2 / 10 * 4, v * v + P<N>::beta2 / 5), pos)) {
    mc::outcome("no such point: skipped");
    return "";
  }
  return directed_sign<N>(pos % 3, (int)(pos / 3 % 2), { t });
}
// the generator's answers begin with a constant byte
template<size_t N>
static std::string
constant_prefix(uint64_t i)
{
  const int v = i % 256;
  static const size_t L[] = { 40, 49, 50, 51, 60, 400, 4000, 11000 };
  flat_rng r(i);
  r.keep = false;
  r.prefix.assign(L[(i / 256) % 8], (uint8_t)v);
  for (size_t k = 0; k < r.prefix.size() && k < 40; k++)
    r.prefix[k] = (uint8_t)k;
  install_rng in(&r);
  const auto& k = keys::get<N>(i % 3);
  buf sig(P<N>::siglen, i % 8), m(bytes(i % 200, 1), i % 3), sk(k.sk, i % 7);
  falcon::sign<N>(sk.get(), m.get(), i % 200, sig.get());
  return done("constant random bytes");
}
// --- key generation -----------------------------------------------------------------------------------
struct stop_here
{};
struct bounded_rng : flat_rng
{
  size_t limit = ~size_t(0);
  using flat_rng::flat_rng;
  bool read(uint8_t* o, size_t n, env::sponge& s) override
  {
    if (pos >= limit)
      throw stop_here{};
    return flat_rng::read(o, n, s);
  }
};
template<size_t N>
static std::string
keygen_prefix(uint64_t i)
{
  bounded_rng r(i);
  r.keep = false;
  static const size_t L[] = { 11, 110, 5000, 30000, 70000 };
  r.prefix.assign(L[i / 256 % 5], (uint8_t)(i % 256));
  r.limit = 260000;
  install_rng in(&r);
  exact<int32_t> f(N), g(N), F(N), G(N);
  std::string how = "key generation with constant random bytes: ";
  try {
    prng::prng_t rng;
    ntru_gen::ntru_gen<N>(f.get(), g.get(), F.get(), G.get(), rng);
    how += "accepted";
  } catch (const stop_here&) {
    how += "candidates refused";
  }
  return done(how.c_str());
}
template<size_t N>
static std::string
whole_keygen(uint64_t i)
{
  flat_rng r(i + 900);
  r.keep = false;
  install_rng in(&r);
  if (i % 3 == 2) {
    exact<fft::cmplx> B(4 * N), T(N * (P<N>::lg + 1));
    exact<ff::ff_t> h(N);
    prng::prng_t g;
    keygen::keygen<N>(B.get(), T.get(), h.get(), P<N>::sigma, g);
    buf m(bytes{}), sig(P<N>::siglen);
    falcon::sign<N>(B.get(), T.get(), m.get(), 0, sig.get(), g);
    return done("key generation (matrix and tree), then signing");
  }
  buf pk(P<N>::pklen, i % 8), sk(P<N>::sklen, i % 7), sig(P<N>::siglen, i % 5), m(bytes(i, 1));
  falcon::keygen<N>(pk.get(), sk.get());
  if (!falcon::sign<N>(sk.get(), m.get(), i, sig.get()))
    mc::outcome("a generated key is refused: left to another property");
  falcon::verify<N>(pk.get(), m.get(), i, sig.get());
  return done("key generation, signing, verification");
}

template<size_t N>
static void
define()
{
  const std::string nm = mc::fmt("N=%zu: ", N);
  const bool q = mc::quick;
  mc::add(nm + "whole key generation", q ? (N == 512 ? 6 : 2) : 40, whole_keygen<N>, 1, 400);
  mc::add(nm + "every header, three bodies", 256, headers<N>);
  mc::add(nm + "public keys: every byte value at every offset, three backgrounds", P<N>::pklen, hostile_pk<N>);
  mc::add(nm + "secret keys: every byte value at every offset decoded, one (thorough: six) signed with", P<N>::sklen * (q ? 1 : 3), hostile_sk<N>, 4);
  mc::add(nm + "secret keys: degenerate bases, constant bodies", 48 + 256, pattern_keys<N>);
  mc::add(nm + "signatures: every bit as start of a constant tail, single bit flips", CAP<N>, [](uint64_t i) { return hostile_sig<N>((i * 7919) % CAP<N>); }, 8);
  mc::add(nm + "signatures: every value of the last two bytes", 256, tail_bytes<N>);
  mc::add(nm + "compression: large coefficients at every position", N, compress<N>);
  mc::add(nm + "message lengths", q ? 300 : 1200, hashing_lengths<N>, 4);
  mc::add(nm + "signing: rejected attempts of every kind", q ? 90 : 900, rejections<N>);
  mc::add(nm + "signing: large coefficient of s2 at every position", N, large_s2<N>, 2);
  mc::add(nm + "signing: constant random bytes", 256 * (q ? 2 : 8), [q](uint64_t i) { return constant_prefix<N>(q ? i % 256 + 256 * ((i * 5 + i / 256) % 8) : i); });
  mc::add(nm + "candidate generation: constant random bytes", q ? (N == 512 ? 256 : 86) : 256 * 5, [q](uint64_t i) { return keygen_prefix<N>(q ? (i * (N == 512 ? 1 : 3)) % 256 + 256 * (i % 5) : i); }, 1, 200);
}

int
main(int argc, char** argv)
{
  return mc::main(argc, argv, [] {
#ifdef PART_512
    mc::add("sampler: byte arrays of every length", mc::quick ? 64 : 200, byte_arrays);
    mc::add("sampler: generator, constant answers", mc::quick ? 256 * 12 : 256 * 40, [](uint64_t i) { return generator_corners(mc::quick ? i % 256 + 256 * ((i / 256) + 9 * (i % 3)) : i); }, 16);
    define<512>();
#else
    define<1024>();
#endif
  });
}
