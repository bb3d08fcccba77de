// Fast Fourier sampling against the recursive definition, reading the same random bytes.
#include "falcon.hpp"
#include "fftmap.hpp"
#include "flat.hpp"
#include "keys.hpp"
#include "mc.hpp"

using fs::cx;
using fs::ld;
using fs::vec;
using ref::poly;

constexpr ld SMIN[2] = { 1.277833697L, 1.298280334L };

template<size_t LG>
struct instance
{
  static constexpr size_t N = 1ul << LG;
  std::vector<fft::cmplx> t0, t1, T;
  vec e0, e1;
  const fs::tree* tree = nullptr;
};

// coordinates: a polynomial in FFT form must be integral
static bool
integral(const vec& v, std::vector<int64_t>& out, ld& worst)
{
  const auto c = fs::coefs(v);
  out.clear();
  worst = 0;
  ld sc = 1;
  for (auto x : c)
    sc = std::max(sc, fabsl(x));
  for (auto x : c) {
    if (!std::isfinite(x)) {
      worst = HUGE_VALL;
      return false;
    }
    worst = std::max(worst, fabsl(x - roundl(x)) / sc);
    out.push_back((int64_t)roundl(x));
  }
  return worst < 1e-7L;
}

static constexpr ld SLACK = 1e-8L; // how far a correct implementation's centres may be from ours
template<size_t LG>
std::string
compare(instance<LG>& in, ld sigma_min, flat_rng& f, const std::string& what, fs::ctx* ctx_out = nullptr)
{
  static constexpr size_t N = 1ul << LG;
  static std::vector<fft::cmplx> z0(N + 16), z1(N + 16), k0, k1, kT;
  std::fill(z0.begin(), z0.end(), fft::cmplx{ 31., -4. });
  std::fill(z1.begin(), z1.end(), fft::cmplx{ 32., -5. });
  k0 = in.t0;
  k1 = in.t1;
  kT = in.T;
  static prng::prng_t rng;
  {
    install_rng ir(&f);
    ffsampling::ff_sampling<N, 0, LG>(in.t0.data(), in.t1.data(), in.T.data(), (double)sigma_min, z0.data() + 8, z1.data() + 8, rng);
  }
  if (memcmp(k0.data(), in.t0.data(), N * sizeof(fft::cmplx)) || memcmp(k1.data(), in.t1.data(), N * sizeof(fft::cmplx)) || memcmp(kT.data(), in.T.data(), kT.size() * sizeof(fft::cmplx)))
    return what + ": sampling modified its inputs";
  for (int i = 0; i < 8; i++)
    if (z0[i] != fft::cmplx{ 31., -4. } || z0[8 + N + i] != fft::cmplx{ 31., -4. } || z1[i] != fft::cmplx{ 32., -5. } || z1[8 + N + i] != fft::cmplx{ 32., -5. })
      return what + ": write outside of the result";
  fs::source s{ f.log.data(), f.log.size() };
  fs::ctx c{ &s, sigma_min, SLACK };
  vec w0, w1;
  fs::ffsampling(c, in.e0, in.e1, *in.tree, w0, w1);
  mc::transitions(2 * N);
  mc::traces(1);
  if (c.ambiguous) {
    mc::outcome("a decision is within rounding of its threshold: skipped");
    return "";
  }
  std::vector<int64_t> a0, a1, b0, b1;
  ld q;
  if (!integral(fftmap::from<LG>(z0.data() + 8), a0, q) || !integral(fftmap::from<LG>(z1.data() + 8), a1, q))
    return what + mc::fmt(": the result is not the transform of an integer polynomial (off by %.3Lg)", q);
  integral(w0, b0, q);
  integral(w1, b1, q);
  if (s.over || s.pos != f.log.size())
    return what + mc::fmt(": %zu random bytes used, expected %s%zu", f.log.size(), s.over ? "more than " : "", s.over ? f.log.size() : s.pos);
  for (size_t i = 0; i < N; i++) {
    if (a1[i] != b1[i])
      return what + mc::fmt(": z1[%zu] = %lld, expected %lld", i, (long long)a1[i], (long long)b1[i]);
    if (a0[i] != b0[i])
      return what + mc::fmt(": z0[%zu] = %lld, expected %lld", i, (long long)a0[i], (long long)b0[i]);
  }
  mc::outcome(mc::fmt("N=%zu agrees", N));
  if (ctx_out)
    *ctx_out = std::move(c);
  return "";
}

static ld
unit(uint64_t h)
{
  return (ld)(mc::mix(h) >> 11) * 0x1p-53L;
}
static vec
sparse_l10(size_t n, uint64_t seed)
{
  // 1 at the pair of conjugate roots number seed, 0 elsewhere: found by evaluating x + 1/x
  std::vector<ld> x(n, 0);
  x[1] = 1;
  const vec e = fs::eval(x, n);
  const size_t k = seed % n;
  vec r(n, cx(0, 0));
  const cx v(unit(seed * 3) - 0.5L, unit(seed * 5) - 0.5L);
  for (size_t j = 0; j < n; j++) {
    if (j == k)
      r[j] = v;
    else if (std::abs(e[j] - std::conj(e[k])) < 1e-9L)
      r[j] = std::conj(v);
  }
  return r;
}
// tree with arbitrary l10 and leaf widths
static std::unique_ptr<fs::tree>
synthetic(size_t n, uint64_t seed, ld sigma_min, int kind)
{
  auto t = std::make_unique<fs::tree>();
  std::vector<ld> l(n);
  for (size_t i = 0; i < n; i++)
    l[i] = kind == 0 || kind == 3 ? 0 : kind == 1 ? (i == seed % n ? 0.37L : 0) : (unit(seed * 77 + i) - 0.5L) * 1.6L;
  t->l10 = fs::eval(l, n);
  if (kind == 3) // nonzero at one (conjugate pair of) evaluation point only
    t->l10 = sparse_l10(n, seed);
  if (kind == 4) // zero at one pair
    for (size_t i = 0; i < n; i++)
      if (sparse_l10(n, seed)[i] != cx(0, 0))
        t->l10[i] = 0;
  if (n == 2) {
    for (int k = 0; k < 2; k++)
      t->leaf[k] = sigma_min + (fs::SIGMA_MAX - sigma_min) * ((kind & 1) && k ? 0.9L : unit(seed * 31 + k + 5));
    for (int k = 0; k < 2; k++)
      t->leaf[k] = (double)t->leaf[k];
    return t;
  }
  t->left = synthetic(n / 2, seed * 2 + 1, sigma_min, kind);
  t->right = synthetic(n / 2, seed * 2 + 2, sigma_min, kind);
  return t;
}
template<size_t LG>
void
fill_tree(instance<LG>& in, const fs::tree& t)
{
  static constexpr size_t N = 1ul << LG;
  in.T.assign(N * (LG + 1), fft::cmplx{ 0. });
  fftmap::tree_to<LG>(t, in.T.data());
  in.tree = &t;
}
template<size_t LG>
void
fill_target(instance<LG>& in, const std::vector<ld>& c0, const std::vector<ld>& c1)
{
  static constexpr size_t N = 1ul << LG;
  in.t0.resize(N);
  in.t1.resize(N);
  in.e0 = fs::eval(c0, N);
  in.e1 = fs::eval(c1, N);
  fftmap::to<LG>(in.e0, in.t0.data());
  fftmap::to<LG>(in.e1, in.t1.data());
}

// bytes of one attempt with base sample z0 whose acceptance draw is as close to the acceptance
// probability as the slack allows: a centre or width that is slightly off decides it the other way
static void
close_call(std::vector<uint8_t>& b, ld mu, ld sigma, ld sigma_min, int z0, int sign, bool accept)
{
  const ld d = mu - floorl(mu);
  const int z = sign + (2 * sign - 1) * z0;
  const ld x = (z - d) * (z - d) / (2 * sigma * sigma) - (ld)(z0 * z0) / (2 * fs::SIGMA_MAX * fs::SIGMA_MAX);
  const ld w = (fabsl(z - d) + 1) * SLACK, p = sigma_min / sigma * expl(-x) * 18446744073709551616.0L;
  uint64_t bits = 0;
  for (ld m = 1.5L * w; m < 0.25L; m *= 1.25L) {
    const ld v = accept ? p * (1 - m) - 64 : p * (1 + m) + 64;
    bits = v < 0 ? 0 : v >= 18446744073709551615.0L ? ~0ull : (uint64_t)v;
    const uint64_t lo = (uint64_t)fs::threshold(x + w, sigma_min / sigma).lo, hi = (uint64_t)fs::threshold(x - w, sigma_min / sigma).hi;
    // every threshold in [lo, hi] must decide it, at the same byte
    int i = 56;
    while (i > 0 && lo >> i == hi >> i && bits >> i == lo >> i)
      i -= 8;
    if (accept ? bits >> i < lo >> i : bits >> i > hi >> i)
      break;
  }
  const fs::u128 u = z0 < 18 ? fs::rcdt()[z0] + (z0 == 0 ? 12345 : 0) : 0;
  for (int i = 0; i < 9; i++)
    b.push_back((uint8_t)(u >> (8 * i)));
  b.push_back(sign);
  for (int i = 56; i >= 0; i -= 8)
    b.push_back((uint8_t)(bits >> i));
}
// bytes of one accepted attempt (index a of a small alphabet of sampler answers)
static void
answer(std::vector<uint8_t>& b, int a)
{
  // base sample 0,1,2,3 (top byte of the 72 bits, thresholds 163.9, 84.8, 34.5, 10.8) x sign
  static const uint8_t top[] = { 0xf0, 0x80, 0x40, 0x18 };
  for (int i = 0; i < 8; i++)
    b.push_back(0x55);
  b.push_back(top[a / 2 % 4]);
  b.push_back(a % 2);
  b.push_back(0); // accepted at once unless the probability is below 1/256
}

template<size_t LG>
void
define_small(int alphabet)
{
  static constexpr size_t N = 1ul << LG;
  uint64_t total = 1;
  for (size_t i = 0; i < 2 * N; i++)
    total *= alphabet;
  mc::add(mc::fmt("N=%zu: every sequence of sampler answers out of %d, targets and trees", N, alphabet), total, [alphabet, total](uint64_t id) -> std::string {
    std::vector<uint8_t> p;
    uint64_t x = id;
    for (size_t i = 0; i < 2 * N; i++, x /= alphabet)
      answer(p, x % alphabet);
    const int reps = mc::quick ? 6 : 24;
    for (int k = 0; k < reps; k++) {
      static std::map<int, std::unique_ptr<fs::tree>> trees;
      auto& t = trees[k];
      if (!t)
        t = synthetic(N, k * 13 + 1, SMIN[k & 1], k % 5);
      instance<LG> in;
      fill_tree<LG>(in, *t);
      std::vector<ld> c0(N), c1(N);
      const uint64_t h = mc::mix(id * 5 + k);
      for (size_t i = 0; i < N; i++) {
        c0[i] = (unit(h + i) - 0.5L) * (k & 2 ? 3 : 30000);
        c1[i] = (unit(h + 100 + i) - 0.5L) * (k & 1 ? 2 : 20000);
      }
      fill_target<LG>(in, c0, c1);
      flat_rng f(id + k);
      f.prefix = p;
      if (auto r = compare<LG>(in, SMIN[k & 1], f, mc::fmt("answers %llu target %d", (unsigned long long)id, k)); !r.empty())
        return r;
      mc::states(1);
    }
    return "";
  }, 16);
}
template<size_t LG>
void
define_patterns()
{
  static constexpr size_t N = 1ul << LG;
  mc::add(mc::fmt("N=%zu: patterned trees and targets, pseudo random bytes", N), mc::quick ? (N <= 32 ? 2000 : 64000 / N) : (N <= 32 ? 40000 : 1600000 / N), [](uint64_t id) -> std::string {
    const auto t = synthetic(N, id * 3 + 1, SMIN[id & 1], id % 5 == 0 ? 1 : id % 5 == 1 ? 3 : id % 5 == 2 ? 4 : 2);
    instance<LG> in;
    fill_tree<LG>(in, *t);
    std::vector<ld> c0(N, 0), c1(N, 0);
    for (size_t i = 0; i < N; i++) {
      c0[i] = (id % 7 == 0 && i) ? 0.3L : (unit(id * 1000 + i) - 0.5L) * (id & 2 ? 4 : 60000);
      c1[i] = (id % 7 == 1 && i != id % N) ? -0.2L : (unit(id * 1001 + 7 * i) - 0.5L) * (id & 4 ? 4 : 60000);
    }
    fill_target<LG>(in, c0, c1);
    flat_rng f(id);
    mc::states(1);
    return compare<LG>(in, SMIN[id & 1], f, mc::fmt("pattern %d", (int)id));
  }, 4);
  // impulse response: t = v at one coefficient of one coordinate, one unusual sampler answer
  mc::add(mc::fmt("N=%zu: one unusual answer at every sampler call", N), 2 * N, [](uint64_t call) -> std::string {
    const auto t = synthetic(N, call + 1, SMIN[1], 2);
    instance<LG> in;
    fill_tree<LG>(in, *t);
    std::vector<ld> c0(N), c1(N);
    for (size_t i = 0; i < N; i++) {
      c0[i] = (unit(call * 1000 + i) - 0.5L) * 100;
      c1[i] = (unit(call * 1001 + 7 * i) - 0.5L) * 100;
    }
    fill_target<LG>(in, c0, c1);
    flat_rng f(call);
    fs::ctx c;
    if (auto r = compare<LG>(in, SMIN[1], f, "baseline", &c); !r.empty())
      return r;
    if (c.offs.size() != 2 * N)
      return "";
    for (int dev = 0; dev < 4; dev++) {
      flat_rng d(call);
      d.prefix.assign(f.log.begin(), f.log.begin() + c.offs[call]);
      static const uint8_t top[] = { 0x00, 0xff, 0x08, 0x02 };
      if (dev == 0) // a rejected attempt first: largest base sample needs a tiny byte string
        for (int k = 0; k < 11; k++)
          d.prefix.push_back(k < 9 ? 0 : 0xff);
      else {
        for (int k = 0; k < 8; k++)
          d.prefix.push_back(0x11 * dev);
        d.prefix.push_back(top[dev]);
        d.prefix.push_back(dev);
        for (int k = 0; k < 3; k++)
          d.prefix.push_back(0);
      }
      if (auto r = compare<LG>(in, SMIN[1], d, mc::fmt("unusual answer %d at call %d", dev, (int)call)); !r.empty())
        return r;
      mc::states(1);
    }
    static const int bases[] = { 0, 2, 6, 10, 14 };
    // (rounding errors grow with the synthetic l10, whose values are far larger than those of real keys)
    for (int k = 0; k < (N <= 32 ? 20 : 0); k++) {
      flat_rng d(call + k);
      d.prefix.assign(f.log.begin(), f.log.begin() + c.offs[call]);
      close_call(d.prefix, c.mus[call], c.sigmas[call], SMIN[1], bases[k / 4], k & 1, k & 2);
      if (auto r = compare<LG>(in, SMIN[1], d, mc::fmt("acceptance draw %s its threshold, base sample %d, sign %d, at call %d", k & 2 ? "just below" : "just above", bases[k / 4], k & 1, (int)call)); !r.empty())
        return r;
      mc::states(1);
    }
    return "";
  });
}

// targets which are (almost) integer polynomials, sampled to just these integers: everything that is
// passed on in the recursion is tiny, and a draw beside its threshold shows whether it is passed on
template<size_t LG>
void
define_near_lattice()
{
  static constexpr size_t N = 1ul << LG;
  mc::add(mc::fmt("N=%zu: targets next to the lattice, acceptance draw next to its threshold at every call", N), 2 * N * 8, [](uint64_t id) -> std::string {
    const size_t call = id % (2 * N);
    const int e = (int)(id / (2 * N));
    const ld eps = powl(10.L, -2.5L - e * 0.5L); // 3e-3 .. 1e-6
    const auto t = synthetic(N, id * 7 + 1, SMIN[1], 2);
    instance<LG> in;
    fill_tree<LG>(in, *t);
    std::vector<ld> c0(N), c1(N);
    for (size_t i = 0; i < N; i++) {
      c0[i] = (int)(mc::mix(id * 64 + i) % 201) - 100 + (unit(id * 1000 + i) - 0.5L) * eps;
      c1[i] = (int)(mc::mix(id * 96 + i) % 201) - 100 + (unit(id * 1001 + 7 * i) - 0.5L) * eps;
    }
    fill_target<LG>(in, c0, c1);
    std::vector<uint8_t> p;
    ld mu = 0, sigma = 1;
    for (size_t k = 0;; k++) {
      std::vector<uint8_t> q = p;
      q.resize(q.size() + 64 * N, 0xff); // any answers
      for (size_t j = p.size(); j + 11 <= q.size(); j += 11)
        q[j + 10] = 0;
      fs::source s{ q.data(), q.size() };
      fs::ctx c{ &s, SMIN[1], SLACK };
      vec w0, w1;
      fs::ffsampling(c, in.e0, in.e1, *in.tree, w0, w1);
      mu = c.mus[k];
      sigma = c.sigmas[k];
      if (k == call)
        break;
      for (int j = 0; j < 9; j++)
        p.push_back(0xf0);
      p.push_back(mu - floorl(mu) > 0.5L);
      p.push_back(0);
    }
    static const int bases[] = { 0, 1, 3, 6 };
    for (int k = 0; k < 16; k++) {
      flat_rng d(id * 16 + k);
      d.prefix = p;
      close_call(d.prefix, mu, sigma, SMIN[1], bases[k / 4], k & 1, k & 2);
      if (auto r = compare<LG>(in, SMIN[1], d, mc::fmt("targets within %.1Le of the lattice, acceptance draw %s its threshold, base sample %d, sign %d, at call %d", eps, k & 2 ? "just below" : "just above", bases[k / 4], k & 1, (int)call)); !r.empty())
        return r;
      mc::states(1);
    }
    return "";
  });
}

template<size_t N>
void
define_real()
{
  constexpr size_t LG = ref::params<N>::lg;
  struct prepared
  {
    std::unique_ptr<fs::tree> t;
    vec b[4];
    std::vector<fft::cmplx> T;
  };
  static auto prep = [](int i) -> const prepared& {
    static std::map<int, prepared> m;
    auto it = m.find(i);
    if (it != m.end())
      return it->second;
    prepared p;
    const auto& k = keys::get<N>(i);
    const poly* src[4] = { &k.g, &k.f, &k.G, &k.F };
    for (int a = 0; a < 4; a++) {
      p.b[a] = fs::eval(*src[a], N);
      if (a & 1)
        for (auto& x : p.b[a])
          x = -x;
    }
    vec g00(N), g10(N), g11(N);
    for (size_t j = 0; j < N; j++) {
      g00[j] = std::norm(p.b[0][j]) + std::norm(p.b[1][j]);
      g10[j] = fs::mul(p.b[2][j], std::conj(p.b[0][j])) + fs::mul(p.b[3][j], std::conj(p.b[1][j]));
      g11[j] = std::norm(p.b[2][j]) + std::norm(p.b[3][j]);
    }
    p.t = fs::ffldl(g00, g10, g11, ref::params<N>::sigma);
    p.T.assign(N * (LG + 1), fft::cmplx{ 0. });
    fftmap::tree_to<LG>(*p.t, p.T.data());
    return m[i] = std::move(p);
  };
  mc::add(mc::fmt("N=%zu: fixture keys, hashed targets, pseudo random bytes and one unusual answer", N), mc::quick ? 240 : 6000, [](uint64_t id) -> std::string {
    const prepared& p = prep(id % 3);
    instance<LG> in;
    in.T = p.T;
    in.tree = p.t.get();
    poly c(N);
    for (size_t i = 0; i < N; i++)
      c[i] = id % 8 == 7 ? (i == id % N ? 12288 : 1) : mc::mix(id * N + i) % ref::Q;
    const vec ce = fs::eval(c, N);
    in.e0.resize(N);
    in.e1.resize(N);
    for (size_t j = 0; j < N; j++) {
      in.e0[j] = fs::mul(ce[j], p.b[3][j]) / (ld)ref::Q;
      in.e1[j] = -fs::mul(ce[j], p.b[1][j]) / (ld)ref::Q;
    }
    in.t0.resize(N);
    in.t1.resize(N);
    fftmap::to<LG>(in.e0, in.t0.data());
    fftmap::to<LG>(in.e1, in.t1.data());
    flat_rng f(id);
    fs::ctx x;
    if (auto r = compare<LG>(in, SMIN[N == 1024], f, mc::fmt("key %d target %d", (int)(id % 3), (int)id), &x); !r.empty())
      return r;
    if (x.offs.size() != 2 * N)
      return "";
    mc::states(1);
    flat_rng d(id + 77);
    const size_t call = (id * 97) % (2 * N);
    d.prefix.assign(f.log.begin(), f.log.begin() + x.offs[call]);
    for (int k = 0; k < 9; k++)
      d.prefix.push_back(id & 1 ? 3 : 0xff);
    d.prefix.push_back(id & 2 ? 1 : 0);
    d.prefix.push_back(0);
    mc::states(1);
    flat_rng e(id + 78);
    e.prefix.assign(f.log.begin(), f.log.begin() + x.offs[call]);
    close_call(e.prefix, x.mus[call], x.sigmas[call], SMIN[N == 1024], id / 2 % 12, id & 1, id / 24 & 1);
    if (auto r = compare<LG>(in, SMIN[N == 1024], e, mc::fmt("key %d target %d close call at %zu", (int)(id % 3), (int)id, call)); !r.empty())
      return r;
    mc::states(1);
    return compare<LG>(in, SMIN[N == 1024], d, mc::fmt("key %d target %d unusual answer at call %zu", (int)(id % 3), (int)id, call));
  });
}

int
main(int argc, char** argv)
{
  return mc::main(argc, argv, [] {
    define_small<1>(8);
    define_small<2>(mc::quick ? 3 : 5);
    define_small<3>(2);
    define_patterns<1>();
    define_patterns<2>();
    define_patterns<3>();
    define_patterns<4>();
    define_patterns<5>();
    define_patterns<6>();
    define_patterns<7>();
    define_patterns<8>();
    define_patterns<9>();
    define_patterns<10>();
    define_near_lattice<1>();
    define_near_lattice<2>();
    define_near_lattice<3>();
    define_near_lattice<4>();
    define_near_lattice<5>();
    define_real<512>();
    define_real<1024>();
  });
}
