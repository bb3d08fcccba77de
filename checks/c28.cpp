// The secret polynomials: which random bytes become which coefficient, and which candidate is returned.
#include "canddata.hpp"
#include "flat.hpp"
#include "fsref.hpp"
#include "keys.hpp"
#include "ref.hpp"
#include "falcon.hpp"
#include "mc.hpp"

using bytes = std::vector<uint8_t>;
using ref::poly;
template<size_t N>
using P = ref::params<N>;
constexpr fs::ld SG = 1.43300980528773L; // 1.17 sqrt(q / 8192)

template<size_t N>
static fs::sampled
one_call(fs::source& s)
{
  return fs::samplerz(0, SG, P<N>::sigma_min, s);
}
struct finite_rng : env::rng_source
{
  const bytes* b;
  size_t pos = 0, over = 0;
  bool read(uint8_t* o, size_t n, env::sponge&) override
  {
    for (size_t i = 0; i < n; i++)
      if (pos < b->size())
        o[i] = (*b)[pos++];
      else
        o[i] = 0, over++;
    return true;
  }
};
// pseudo random bytes for 4096 calls, where each call begins, and what each call yields
template<size_t N>
struct base_run
{
  bytes b;
  std::vector<size_t> off;
  std::vector<int64_t> z;
};
template<size_t N>
static const base_run<N>&
base_for(int k)
{
  static std::map<int, base_run<N>> m;
  auto it = m.find(k);
  if (it != m.end())
    return it->second;
  base_run<N> r;
  for (uint64_t salt = 0;; salt++) {
    r = {};
    r.b.resize(200000);
    for (size_t i = 0; i < r.b.size(); i++)
      r.b[i] = (uint8_t)(mc::mix(((salt * 100 + k) << 32) + i) >> 13);
    fs::source s{ r.b.data(), r.b.size() };
    bool amb = false;
    for (int i = 0; i < 4096; i++) {
      r.off.push_back(s.pos);
      const auto x = one_call<N>(s);
      amb |= x.ambiguous;
      r.z.push_back(x.z);
    }
    r.off.push_back(s.pos);
    if (!amb && !s.over)
      break;
  }
  r.b.resize(r.off.back());
  return m[k] = r;
}
// bytes of one attempt: base sample z0 (at its smallest or largest admissible 72-bit number), sign bit,
// and a draw next to the acceptance threshold, no longer than what decides it
template<size_t N>
static bytes
attempt(int z0, int sign, bool accept, bool low)
{
  fs::u128 u;
  if (low)
    u = z0 < 18 ? fs::rcdt()[z0] : 0;
  else
    u = z0 == 0 ? ((fs::u128)1 << 72) - 1 : fs::rcdt()[z0 - 1] - 1;
  const int z = sign + (2 * sign - 1) * z0;
  const fs::ld x = (fs::ld)(z * z) / (2 * SG * SG) - (fs::ld)(z0 * z0) / (2 * fs::SIGMA_MAX * fs::SIGMA_MAX);
  const auto t = fs::threshold(x, P<N>::sigma_min / SG);
  bytes o;
  for (int i = 0; i < 9; i++)
    o.push_back((uint8_t)(u >> (8 * i)));
  o.push_back((uint8_t)(sign | (low ? 0x6c : 0x92)));
  for (int d = 8; d >= 1; d--) { // deepest byte position at which the interval is a single value
    const int sh = 64 - 8 * d;
    const uint64_t lo = (uint64_t)t.lo >> sh, hi = (uint64_t)t.hi >> sh;
    if (lo != hi || (accept ? lo == 0 : (d == 8 ? lo == ~0ull : lo == (1ull << (8 * d)) - 1)))
      continue;
    const uint64_t w = accept ? lo - 1 : lo + 1;
    bytes p;
    for (int i = d - 1; i >= 0; i--) {
      p.push_back((uint8_t)(w >> (8 * i)));
      if ((w >> (8 * i)) != (lo >> (8 * i)))
        break;
    }
    o.insert(o.end(), p.begin(), p.end());
    return o;
  }
  return {};
}
template<size_t N>
static std::string
compare(const bytes& b, const std::vector<int64_t>& z, const std::string& what)
{
  finite_rng r;
  r.b = &b;
  install_rng in(&r);
  prng::prng_t rng;
  std::vector<int32_t> p(N + 8, 0x33333333);
  mc::transitions(4096);
  ntru_gen::gen_poly<P<N>::lg>(p.data() + 4, rng);
  mc::traces(1);
  constexpr size_t k = 4096 / N;
  for (size_t i = 0; i < N; i++) {
    int64_t v = 0;
    for (size_t j = 0; j < k; j++)
      v += z[i * k + j];
    if (p[4 + i] != v)
      return what + mc::fmt(": coefficient %zu is %d, the sum of its %zu samples is %lld", i, p[4 + i], k, (long long)v);
  }
  if (r.over || r.pos != b.size())
    return what + mc::fmt(": the polynomial took %zu random bytes, its samples take %zu", r.pos + r.over, b.size());
  for (int i = 0; i < 4; i++)
    if (p[i] != 0x33333333 || p[N + 4 + i] != 0x33333333)
      return what + ": written outside of the polynomial";
  return "";
}
// the given attempts put in front of call `at`
template<size_t N>
static std::string
spliced(int k, size_t at, const std::vector<bytes>& ins, const std::string& what)
{
  const auto& r = base_for<N>(k);
  std::vector<int64_t> z(r.z.begin(), r.z.begin() + at);
  bytes b(r.b.begin(), r.b.begin() + r.off[at]);
  for (auto& a : ins) {
    if (a.empty()) {
      mc::outcome("not constructible");
      return "";
    }
    fs::source s{ a.data(), a.size() };
    const auto x = one_call<N>(s);
    if (x.ambiguous)
      return "harness: ambiguous attempt";
    if (!s.over)
      z.push_back(x.z);
    b.insert(b.end(), a.begin(), a.end());
  }
  size_t i = at;
  for (; z.size() < 4096; i++)
    z.push_back(r.z[i]);
  if (z.size() > 4096)
    return "";
  b.insert(b.end(), r.b.begin() + r.off[at], r.b.begin() + r.off[i]);
  mc::states(1);
  return compare<N>(b, z, what);
}

// --- whole key generation ------------------------------------------------------------------------
template<size_t N>
static const std::vector<cands::cand>&
table()
{
  if constexpr (N == 512)
    return cands::data_512;
  else
    return cands::data_1024;
}
struct cheap
{
  bool pass, unclear;
  std::string why;
};
template<size_t N>
static cheap
conditions(const poly& f, const poly& g)
{
  const int64_t M = N == 512 ? 31 : 15;
  for (size_t i = 0; i < N; i++)
    if (std::llabs(f[i]) > M || std::llabs(g[i]) > M)
      return { false, false, "coefficient out of range" };
  const cands::pair p{ f, g };
  if (cands::norm2(p) > 16822)
    return { false, false, "too long" };
  const auto d = cands::dual2(p);
  if (!(d <= cands::LIMIT * (1 + 1e-9L)))
    return { false, false, "dual too long" };
  if (!ref::invertible(f))
    return { false, false, "not invertible" };
  return { true, d > cands::LIMIT * (1 - 1e-9L), "" };
}
// does (f, g) have a completion with |F| <= 127?  (the solver is decided by C15)
template<size_t N>
static bool
completable(const poly& f, const poly& g)
{
  std::array<mpz_class, N> a, b;
  for (size_t i = 0; i < N; i++) {
    a[i] = mpz_class((long)f[i]);
    b[i] = mpz_class((long)g[i]);
  }
  const auto r = ntru_gen::ntru_solve(a, b);
  if (!r.second.is_solution())
    return false;
  for (auto& x : r.first.first)
    if (abs(x) > 127)
      return false;
  return true;
}
template<size_t N>
static std::string
whole(int api, env::rng_source& src, const bytes& log, const std::string& what, bool skip_solve)
{
  poly f, g;
  {
    install_rng in(&src);
    mc::transitions(1);
    if (api == 0) {
      std::vector<int32_t> v[4];
      for (auto& a : v)
        a.assign(N, 0x77777777);
      prng::prng_t rng;
      ntru_gen::ntru_gen<N>(v[0].data(), v[1].data(), v[2].data(), v[3].data(), rng);
      f.assign(v[0].begin(), v[0].end());
      g.assign(v[1].begin(), v[1].end());
    } else if (api == 1) {
      bytes pk(P<N>::pklen), sk(P<N>::sklen);
      falcon::keygen<N>(pk.data(), sk.data());
      f = ref::unpack(sk.data() + 1, N, P<N>::fgbits, true);
      g = ref::unpack(sk.data() + 1 + N * P<N>::fgbits / 8, N, P<N>::fgbits, true);
    } else {
      std::vector<fft::cmplx> B(4 * N), T(N * (P<N>::lg + 1));
      std::vector<ff::ff_t> hh(N);
      prng::prng_t rng;
      keygen::keygen<N>(B.data(), T.data(), hh.data(), P<N>::sigma, rng);
      fft::ifft<P<N>::lg>(B.data());
      fft::ifft<P<N>::lg>(B.data() + N);
      for (size_t i = 0; i < N; i++) {
        g.push_back((int64_t)std::llround(B[i].real()));
        f.push_back(-(int64_t)std::llround(B[N + i].real()));
      }
    }
  }
  mc::traces(1);
  fs::source s{ log.data(), log.size() };
  size_t n = 0;
  for (;; n++) {
    poly p[2];
    for (auto& a : p)
      for (size_t i = 0; i < N; i++) {
        int64_t v = 0;
        for (size_t j = 0; j < 4096 / N; j++) {
          const auto x = one_call<N>(s);
          if (x.ambiguous) {
            mc::outcome("a decision within rounding");
            return "";
          }
          v += x.z;
        }
        a.push_back(v);
      }
    if (s.over)
      return what + mc::fmt(": the random bytes of the call are used up in the middle of candidate %zu, but no candidate so far is the returned one", n);
    const auto c = conditions<N>(p[0], p[1]);
    if (s.pos == log.size()) {
      if (p[0] != f || p[1] != g)
        return what + mc::fmt(": f or g is not the polynomial drawn last (candidate %zu)", n);
      mc::outcome(mc::fmt("candidate %zu returned", n < 10 ? n : 10));
      return c.pass || c.unclear ? "" : what + ": a candidate is returned whose conditions fail: " + c.why;
    }
    if (c.pass && !c.unclear && !skip_solve && completable<N>(p[0], p[1]))
      return what + mc::fmt(": candidate %zu fulfils every condition, but was not returned", n);
    mc::outcome(c.pass ? "rejected: no short completion" : "rejected: " + c.why);
    if (n > 3000)
      return what + ": no end";
  }
}
struct scripted : flat_rng
{
  using flat_rng::flat_rng;
};
// bytes that make the generator draw the given polynomials
template<size_t N>
static void
plan(const poly& p, bytes& out)
{
  static std::map<int64_t, bytes> memo;
  constexpr int64_t k = 4096 / N;
  for (int64_t v : p) {
    const int64_t q = v / k, r = v % k;
    for (int64_t j = 0; j < k; j++) {
      const int64_t z = q + (j < std::llabs(r) ? (v < 0 ? -1 : 1) : 0);
      auto& a = memo[z];
      if (a.empty())
        a = attempt<N>(z >= 1 ? (int)z - 1 : (int)-z, z >= 1, true, true);
      out.insert(out.end(), a.begin(), a.end());
    }
  }
}
static bool
good(int kind)
{
  return kind == cands::GOOD || kind == cands::GOOD_EDGE || kind == cands::GOOD_DUAL || kind == cands::GOOD_G_NONINV || kind == cands::GOOD_F31 || kind == cands::GOOD_G31 || kind == cands::GOOD_BIGG;
}

template<size_t N>
static void
define()
{
  const std::string nm = mc::fmt("N=%zu: ", N);
  const size_t st = mc::quick ? 3 : 1;
  mc::add(nm + "one unusual attempt at every sampler call of a polynomial", 4096 * 76 / st, [st](uint64_t i) -> std::string {
    const size_t at = i % 4096;
    const int kind = (int)(i / 4096 * st + at % st) % 76;
    return spliced<N>((int)(at % 2), at, { attempt<N>(kind % 19, kind / 19 % 2, kind / 38, (at + kind / 19) % 2) },
                      mc::fmt("N=%zu sampler call %zu answered with base sample %d, sign %d, draw just %s the threshold", N, at, kind % 19, kind / 19 % 2, kind / 38 ? "below" : "above"));
  }, 64);
  const int depth = mc::quick ? 5 : 7;
  uint64_t total = 1;
  for (int i = 0; i < depth; i++)
    total *= 5;
  mc::add(nm + mc::fmt("every sequence of %d attempts out of 5 kinds at the border of coefficients", depth), total * 4, [depth](uint64_t i) -> std::string {
    static const size_t AT[4] = { 0, 4096 / N - 2, 2048 - 3, 4096 - 5 };
    const size_t at = AT[i % 4];
    i /= 4;
    std::vector<bytes> v;
    std::string s;
    static const bytes K[5] = { attempt<N>(0, 0, true, false), attempt<N>(0, 1, true, true), attempt<N>(1, 0, true, true), attempt<N>(2, 1, true, false), attempt<N>(3, 1, false, true) };
    for (int d = 0; d < depth; d++, i /= 5) {
      v.push_back(K[i % 5]);
      s += (char)('0' + i % 5);
    }
    return spliced<N>(2, at, v, mc::fmt("N=%zu attempts %s from sampler call %zu on", N, s.c_str(), at));
  }, 64);
  mc::add(nm + "runs of rejected attempts at one sampler call", 20 * 16, [](uint64_t i) -> std::string {
    static const size_t L[20] = { 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 257, 1025 };
    const size_t n = L[i % 20], at = i / 20 * 273 % 4096;
    return spliced<N>(1, at, std::vector<bytes>(n, attempt<N>((int)(i % 7), (int)(i & 1), false, true)), mc::fmt("N=%zu %zu rejected attempts at sampler call %zu", N, n, at));
  }, 4);
  mc::add(nm + "pseudo random streams: f, g are the first candidate that fulfils the conditions", (mc::quick ? 16 : 96) * (N == 512 ? 2 : 1), [](uint64_t i) -> std::string {
    flat_rng r(9000 + i);
    return whole<N>((int)(i % 3), r, r.log, mc::fmt("N=%zu stream %d, interface %d", N, (int)i, (int)(i % 3)), false);
  }, 1, 120);
  mc::add(nm + "pairs of fixture keys (one with |F| = 127, one with |G| > 127) and their images", mc::quick ? 9 : 90, [](uint64_t i) -> std::string {
    const auto& k = keys::get<N>((int)(i % 3));
    const size_t a = i < 3 ? 1 : 2 * (mc::mix(i * 13) % N) + 1, j = i < 3 ? 0 : mc::mix(i * 17) % (2 * N);
    flat_rng r(78);
    plan<N>(cands::image(k.f, a, j), r.prefix);
    plan<N>(cands::image(k.g, a, j), r.prefix);
    mc::states(1);
    return whole<N>((int)(i / 3 % 3), r, r.log, mc::fmt("N=%zu fixture key %d under x -> x^%zu, times x^%zu", N, (int)(i % 3), a, j), false);
  }, 1, 120);
  const auto& t = table<N>();
  static std::vector<const cands::cand*> ok, bad;
  for (auto& c : t)
    (good(c.kind) ? ok : bad).push_back(&c);
  mc::add(nm + "a candidate that fulfils every condition is returned, whatever was rejected before it", ok.size() * (mc::quick ? 2 : 12) * (1 + bad.size() / (N == 512 ? 4 : 6)), [](uint64_t i) -> std::string {
    const uint64_t i0 = i;
    const auto* c = ok[i % ok.size()];
    i /= ok.size();
    bytes b;
    std::string what = mc::fmt("N=%zu candidate of kind %d", N, c->kind);
    const size_t before = i % (1 + bad.size() / (N == 512 ? 4 : 6)) ? 1 + i0 % 2 : 0;
    for (size_t j = 0; j < before; j++) {
      const auto* x = bad[(i0 * 5 + j * 3) % bad.size()];
      const auto q = cands::image(cands::make(N, *x), 2 * (mc::mix(i0 + j) % N) + 1, mc::mix(i0 + 9 * j) % (2 * N));
      plan<N>(q.f, b);
      plan<N>(q.g, b);
      what += mc::fmt(" after a rejected one of kind %d", x->kind);
    }
    const auto q = cands::image(cands::make(N, *c), 2 * (mc::mix(i0 * 7) % N) + 1, mc::mix(i0 * 11) % (2 * N));
    plan<N>(q.f, b);
    plan<N>(q.g, b);
    if (conditions<N>(q.f, q.g).unclear) {
      mc::outcome("at the limit within rounding");
      return "";
    }
    flat_rng r(77);
    r.prefix = b;
    mc::states(1);
    if (auto e = whole<N>((int)(i0 % 3), r, r.log, what, true); !e.empty())
      return e;
    if (r.log.size() != b.size())
      return what + ": it was not returned";
    return "";
  }, 1, 120);
}

int
main(int argc, char** argv)
{
  return mc::main(argc, argv, [] {
#ifdef PART_1024
    define<1024>();
#else
    define<512>();
#endif
  });
}
