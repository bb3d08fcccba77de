// Gram matrix, LDL* tree and leaf normalization against a long double reference.
#include "falcon.hpp"
#include "fftmap.hpp"
#include "flat.hpp"
#include "keys.hpp"
#include "mc.hpp"

using fs::cx;
using fs::ld;
using fs::vec;
using ref::poly;

// B = [[b00, b01], [b10, b11]] in coefficients
template<size_t LG>
struct basis
{
  static constexpr size_t N = 1ul << LG;
  poly b[4];
  vec e[4];
  vec g00, g01, g10, g11;
  std::vector<fft::cmplx> B;
  void finish()
  {
    B.resize(4 * N);
    for (int k = 0; k < 4; k++) {
      e[k] = fs::eval(b[k], N);
      fftmap::to<LG>(e[k], B.data() + k * N);
    }
    g00.resize(N);
    g01.resize(N);
    g10.resize(N);
    g11.resize(N);
    for (size_t j = 0; j < N; j++) {
      auto m = [&](int a, int c) { return fs::mul(e[a][j], std::conj(e[c][j])); };
      g00[j] = m(0, 0) + m(1, 1);
      g01[j] = m(0, 2) + m(1, 3);
      g10[j] = m(2, 0) + m(3, 1);
      g11[j] = m(2, 2) + m(3, 3);
    }
  }
};

template<size_t LG>
std::string
gram(basis<LG>& s, const std::string& what)
{
  static constexpr size_t N = 1ul << LG;
  std::vector<fft::cmplx> keep = s.B, G(4 * N + 16, fft::cmplx{ 777., 1. });
  keygen::compute_gram_matrix<N>(s.B.data(), G.data() + 8);
  mc::transitions(1);
  mc::traces(1);
  if (memcmp(keep.data(), s.B.data(), sizeof(fft::cmplx) * 4 * N))
    return what + ": gram matrix computation modified the basis";
  for (int i = 0; i < 8; i++)
    if (G[i] != fft::cmplx{ 777., 1. } || G[8 + 4 * N + i] != fft::cmplx{ 777., 1. })
      return what + ": write outside of the gram matrix";
  const vec* w[4] = { &s.g00, &s.g01, &s.g10, &s.g11 };
  for (int k = 0; k < 4; k++) {
    const vec got = fftmap::from<LG>(G.data() + 8 + k * N);
    ld scale = 0;
    for (auto& x : *w[k])
      scale = std::max(scale, std::abs(x));
    for (auto& x : s.g00)
      scale = std::max(scale, std::abs(x));
    for (auto& x : s.g11)
      scale = std::max(scale, std::abs(x));
    for (size_t j = 0; j < N; j++)
      if (!(std::abs(got[j] - (*w[k])[j]) <= 1e-11 * scale + 1e-12))
        return what + mc::fmt(": gram[%d][%d] at root %zu is (%g,%g), expected (%Lg,%Lg)", k / 2, k % 2, j, (double)got[j].real(), (double)got[j].imag(), (*w[k])[j].real(), (*w[k])[j].imag());
  }
  return "";
}

struct stats
{
  ld lo = 1e9, hi = 0, err = 0, logs = 0;
};
// amplification of rounding errors by the subtraction in d11
static bool
cmp_tree(const fs::tree& got, const fs::tree& want, ld amp, const std::string& path, std::string& bad, stats& st, bool normalized, ld sigma)
{
  const size_t n = want.l10.size();
  ld sc = 1e-3L;
  for (auto& x : want.l10)
    sc = std::max(sc, std::abs(x));
  for (size_t j = 0; j < n; j++) {
    const ld d = std::abs(got.l10[j] - want.l10[j]);
    if (!(d <= sc * amp)) {
      bad = path + mc::fmt(": l10 at root %zu is (%Lg,%Lg), expected (%Lg,%Lg)", j, got.l10[j].real(), got.l10[j].imag(), want.l10[j].real(), want.l10[j].imag());
      return false;
    }
    st.err = std::max(st.err, d / sc);
  }
  if (n == 2) {
    for (int k = 0; k < 2; k++) {
      const ld w = normalized ? want.leaf[k] : want.raw[k];
      if (!(fabsl(got.leaf[k] - w) <= fabsl(w) * amp)) {
        bad = path + mc::fmt(": leaf %d is %.12Lg, expected %.12Lg", k, got.leaf[k], w);
        return false;
      }
      st.err = std::max(st.err, fabsl(got.leaf[k] / w - 1));
      st.logs += logl(got.leaf[k]);
      st.lo = std::min(st.lo, got.leaf[k]);
      st.hi = std::max(st.hi, got.leaf[k]);
    }
    return true;
  }
  return cmp_tree(*got.left, *want.left, amp, path + "/left", bad, st, normalized, sigma) &&
         cmp_tree(*got.right, *want.right, amp, path + "/right", bad, st, normalized, sigma);
}
// largest g11/d11, d(max)/d(min) met: how ill-conditioned the decomposition is (>=1), < 0: singular
static ld
condition(const vec& g00, const vec& g10, const vec& g11)
{
  const size_t n = g00.size();
  vec d11(n);
  ld c = 1, mx0 = 0, mn0 = 1e300L, mx1 = 0, mn1 = 1e300L;
  for (size_t j = 0; j < n; j++) {
    const ld a = g00[j].real();
    mx0 = std::max(mx0, a);
    mn0 = std::min(mn0, a);
    if (a < 1e-9L)
      return -1;
    const ld d = g11[j].real() - std::norm(g10[j]) / a;
    d11[j] = d;
    mx1 = std::max(mx1, d);
    mn1 = std::min(mn1, d);
    if (d < 1e-9L * (1 + fabsl(g11[j].real())))
      return -1;
    c = std::max(c, g11[j].real() / d);
  }
  c = std::max({ c, mx0 / mn0, mx1 / mn1 });
  if (n == 2)
    return c;
  ld r = c;
  const vec* d[2] = { &g00, &d11 };
  for (auto* x : d) {
    vec e, o, oa;
    fs::split(*x, e, o);
    for (auto& y : o)
      oa.push_back(std::conj(y));
    const ld q = condition(e, oa, e);
    if (q < 0)
      return -1;
    r = std::max(r, c * q);
  }
  return r;
}

template<size_t LG>
std::string
tree_of(basis<LG>& s, ld sigma, const std::string& what, ld amp = 0)
{
  static constexpr size_t N = 1ul << LG;
  if (amp == 0) {
    const ld c = condition(s.g00, s.g10, s.g11);
    if (c < 0 || c > 1e7L) {
      mc::outcome("singular or too ill-conditioned: skipped");
      return "";
    }
    amp = 1e-12L * c;
  }
  std::vector<fft::cmplx> G(4 * N), T(N * (LG + 1) + 16, fft::cmplx{ -55., 3. });
  fftmap::to<LG>(s.g00, G.data());
  fftmap::to<LG>(s.g01, G.data() + N);
  fftmap::to<LG>(s.g10, G.data() + 2 * N);
  fftmap::to<LG>(s.g11, G.data() + 3 * N);
  const auto keep = G;
  const auto want = fs::ffldl(s.g00, s.g10, s.g11, sigma);
  // one node
  if constexpr (true) {
    std::vector<fft::cmplx> l(N), d0(N), d1(N);
    falcon_tree::ldl<N>(G.data(), l.data(), d0.data(), d1.data());
    const vec gl = fftmap::from<LG>(l.data()), g0 = fftmap::from<LG>(d0.data()), g1 = fftmap::from<LG>(d1.data());
    for (size_t j = 0; j < N; j++) {
      const ld w1 = s.g11[j].real() - std::norm(want->l10[j]) * s.g00[j].real();
      if (!(std::abs(gl[j] - want->l10[j]) <= amp * (1 + std::abs(want->l10[j]))))
        return what + mc::fmt(": ldl: l10 at root %zu", j);
      if (!(std::abs(g0[j] - s.g00[j]) <= amp * std::abs(s.g00[j])))
        return what + mc::fmt(": ldl: d00 at root %zu", j);
      if (!(std::abs(g1[j] - cx(w1, 0)) <= amp * s.g11[j].real()))
        return what + mc::fmt(": ldl: d11 at root %zu", j);
    }
  }
  falcon_tree::ffldl<N, 0, LG>(G.data(), T.data() + 8);
  mc::transitions(2 * N - 1);
  mc::traces(2);
  if (memcmp(keep.data(), G.data(), sizeof(fft::cmplx) * 4 * N))
    return what + ": the decomposition modified the gram matrix";
  stats st;
  std::string bad;
  auto got = fftmap::tree_from<LG>(T.data() + 8);
  if (!cmp_tree(*got, *want, amp, "root", bad, st, false, sigma))
    return what + ": before normalization: " + bad;
  falcon_tree::normalize_tree<N, 0, LG>(T.data() + 8, (double)sigma);
  got = fftmap::tree_from<LG>(T.data() + 8);
  if (!cmp_tree(*got, *want, amp, "root", bad, st, true, sigma))
    return what + ": " + bad;
  for (int i = 0; i < 8; i++)
    if (T[i] != fft::cmplx{ -55., 3. } || T[T.size() - 1 - i] != fft::cmplx{ -55., 3. })
      return what + ": write outside of the tree";
  mc::outcome(mc::fmt("N=%zu tree compared", N));
  return "";
}

template<size_t LG>
void
define_small()
{
  static constexpr size_t N = 1ul << LG;
  const std::string nm = mc::fmt("N=%zu: ", N);
  // bilinearity: two monomials in any two entries
  constexpr size_t step = N <= 16 ? 1 : N / 16;
  mc::add(nm + "gram matrix of every pair of monomials in every pair of entries", 16 * N / (mc::quick ? step : 1), [](uint64_t id) -> std::string {
    const uint64_t e = id % 16, i = (id / 16) * (mc::quick ? step : 1) + (mc::quick ? e % step : 0);
    for (size_t j = i % step; j < N; j += step) {
      basis<LG> s;
      for (auto& p : s.b)
        p.assign(N, 0);
      s.b[e / 4][i] = 3;
      s.b[e % 4][j] -= 5;
      s.finish();
      if (auto r = gram<LG>(s, mc::fmt("B[%d] = 3x^%d, B[%d] -= 5x^%d", (int)e / 4, (int)i, (int)e % 4, (int)j)); !r.empty())
        return r;
    }
    mc::states(N / step);
    return "";
  });
  if constexpr (LG == 1)
    mc::add(nm + "every basis with coefficients in {-1,0,1,2}", 65536, [](uint64_t id) -> std::string {
      basis<LG> s;
      for (auto& p : s.b)
        for (size_t i = 0; i < N; i++, id /= 4)
          p.push_back((int64_t)(id % 4) - 1);
      s.finish();
      mc::states(1);
      std::string w = "basis";
      for (auto& p : s.b)
        for (auto v : p)
          w += mc::fmt(" %d", (int)v);
      if (auto r = gram<LG>(s, w); !r.empty())
        return r;
      return tree_of<LG>(s, 165.7L, w);
    }, 64);
  if constexpr (LG == 2)
    mc::add(nm + "every basis with coefficients in {0,1}", 65536, [](uint64_t id) -> std::string {
      basis<LG> s;
      std::string w = mc::fmt("basis mask %llx", (unsigned long long)id);
      for (auto& p : s.b)
        for (size_t i = 0; i < N; i++, id /= 2)
          p.push_back(id % 2);
      s.finish();
      mc::states(1);
      if (auto r = gram<LG>(s, w); !r.empty())
        return r;
      return tree_of<LG>(s, 165.7L, w);
    }, 64);
  mc::add(nm + "trees of patterned bases", mc::quick ? (LG <= 5 ? 2000 : 8000 >> LG) : (LG <= 5 ? 40000 : 400000 >> LG), [](uint64_t id) -> std::string {
    basis<LG> s;
    for (int k = 0; k < 4; k++)
      for (size_t i = 0; i < N; i++)
        s.b[k].push_back((int64_t)(mc::mix(id * 4 * N + k * N + i) % 41) - 20);
    s.b[0][0] += 60 + 4 * (int64_t)N; // well-conditioned: dominant constant terms
    s.b[3][id % 2 ? 0 : N - 1] += 90 + 4 * (int64_t)N;
    if (id % 3 == 0)
      s.b[2][N / 2] += 70;
    s.finish();
    mc::states(1);
    if (auto r = gram<LG>(s, mc::fmt("pattern %d", (int)id)); !r.empty())
      return r;
    return tree_of<LG>(s, 100 + id % 100, mc::fmt("pattern %d", (int)id));
  }, 4);
}

template<size_t N>
std::string
check_real(const fft::cmplx* B, const fft::cmplx* T, const poly& f, const poly& g, const poly& F, const poly& G, const std::string& what)
{
  constexpr size_t LG = ref::params<N>::lg;
  basis<LG> s;
  s.b[0] = g;
  s.b[1] = f;
  s.b[2] = G;
  s.b[3] = F;
  for (int k : { 1, 3 })
    for (auto& v : s.b[k])
      v = -v;
  s.finish();
  for (int k = 0; k < 4; k++) {
    const vec got = fftmap::from<LG>(B + k * N);
    for (size_t j = 0; j < N; j++)
      if (!(std::abs(got[j] - s.e[k][j]) <= 1e-8L))
        return what + mc::fmt(": basis entry %d at root %zu is wrong", k, j);
  }
  const auto want = fs::ffldl(s.g00, s.g10, s.g11, ref::params<N>::sigma);
  const auto got = fftmap::tree_from<LG>(T);
  stats st;
  std::string bad;
  if (!cmp_tree(*got, *want, 1e-9L, "root", bad, st, true, 0))
    return what + ": " + bad;
  // the product of all squared Gram-Schmidt norms is the determinant, q^2N: the geometric mean of
  // the leaves is sigma / sqrt(q), much more exactly than any single leaf
  const ld mean = st.logs / N - logl((ld)ref::params<N>::sigma / sqrtl((ld)ref::Q));
  if (!(fabsl(mean) < 1e-12L))
    return what + mc::fmt(": the geometric mean of the leaves is off by a factor of 1%+.3Lg", mean);
  mc::sample(what + mc::fmt(": geometric mean of leaves off by %.2Lg", mean));
  if (st.lo < ref::params<N>::sigma_min - 1e-6L || st.hi > fs::SIGMA_MAX)
    return what + mc::fmt(": leaves range from %.9Lg to %.9Lg, outside of [sigma_min, sigma_max]", st.lo, st.hi);
  mc::sample(what + mc::fmt(": leaves %.6Lf..%.6Lf, relative error %.2Lg", st.lo, st.hi, st.err));
  mc::transitions(2 * N - 1);
  mc::states(2 * N - 1);
  mc::traces(1);
  mc::outcome(mc::fmt("N=%zu real key: leaves in range", N));
  return "";
}

template<size_t N>
void
define_real()
{
  constexpr size_t LG = ref::params<N>::lg;
  const std::string nm = mc::fmt("N=%zu: ", N);
  mc::add(nm + "basis matrix and tree of the fixture keys", 3, [](uint64_t i) -> std::string {
    const auto& k = keys::get<N>(i);
    int32_t v[4][N];
    const poly* p[4] = { &k.f, &k.g, &k.F, &k.G };
    for (int a = 0; a < 4; a++)
      for (size_t j = 0; j < N; j++)
        v[a][j] = (int32_t)(*p[a])[j];
    std::vector<fft::cmplx> B(4 * N), T(N * (LG + 1));
    falcon::compute_matrix_B<N>(v[0], v[1], v[2], v[3], B.data());
    falcon::compute_falcon_tree<N>(B.data(), T.data());
    basis<LG> s;
    for (int a = 0; a < 4; a++)
      s.b[a] = *p[a == 0 ? 1 : a == 1 ? 0 : a == 2 ? 3 : 2];
    for (int a : { 1, 3 })
      for (auto& x : s.b[a])
        x = -x;
    s.finish();
    if (auto r = gram<LG>(s, mc::fmt("fixture key %d", (int)i)); !r.empty())
      return r;
    if (auto r = tree_of<LG>(s, ref::params<N>::sigma, mc::fmt("fixture key %d", (int)i), 1e-9L); !r.empty())
      return r;
    return check_real<N>(B.data(), T.data(), k.f, k.g, k.F, k.G, mc::fmt("fixture key %d", (int)i));
  });
  mc::add(nm + "basis matrix and tree returned by key generation", mc::quick ? 8 : 64, [](uint64_t i) -> std::string {
    flat_rng f(1000 + i);
    f.keep = false;
    install_rng ir(&f);
    prng::prng_t rng;
    std::vector<fft::cmplx> B(4 * N), T(N * (LG + 1));
    std::vector<ff::ff_t> h(N);
    keygen::keygen<N>(B.data(), T.data(), h.data(), ref::params<N>::sigma, rng);
    poly p[4];
    for (int k = 0; k < 4; k++) {
      const auto c = fs::coefs(fftmap::from<LG>(B.data() + k * N));
      for (auto x : c) {
        if (!(fabsl(x - roundl(x)) <= 1e-6L))
          return mc::fmt("key generation %d: basis entry %d is not integral", (int)i, k);
        p[k].push_back((int64_t)roundl(x) * (k % 2 ? -1 : 1));
      }
    }
    return check_real<N>(B.data(), T.data(), p[1], p[0], p[3], p[2], mc::fmt("generated key %d", (int)i));
  }, 1, 120);
}

int
main(int argc, char** argv)
{
  return mc::main(argc, argv, [] {
    define_small<1>();
    define_small<2>();
    define_small<3>();
    define_small<4>();
    define_small<5>();
    define_small<6>();
    define_small<7>();
    define_small<8>();
    define_small<9>();
    define_small<10>();
    define_real<512>();
    define_real<1024>();
  });
}
