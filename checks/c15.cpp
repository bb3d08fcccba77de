// NTRU equation solver: soundness, completeness, termination and size reduction.
#include "keys.hpp"
#include "fsref.hpp"
#include "mc.hpp"
#include "ntru_gen.hpp"
#include <vector>

using mpz = mpz_class;
template<size_t N>
using arr = std::array<mpz, N>;

template<size_t N>
arr<N>
mul(const arr<N>& a, const arr<N>& b)
{
  arr<N> r;
  for (size_t i = 0; i < N; i++)
    if (a[i] != 0)
      for (size_t j = 0; j < N; j++) {
        if (i + j < N)
          r[i + j] += a[i] * b[j];
        else
          r[i + j - N] -= a[i] * b[j];
      }
  return r;
}
// norm of f down to Z, and the cofactor c with f*c = norm
template<size_t N>
mpz
norm(const arr<N>& f, arr<N>* cof = nullptr)
{
  if constexpr (N == 1) {
    if (cof)
      (*cof)[0] = 1;
    return f[0];
  } else {
    arr<N> m;
    for (size_t i = 0; i < N; i++)
      m[i] = i & 1 ? mpz(-f[i]) : f[i];
    const arr<N> p = mul<N>(f, m);
    arr<N / 2> h, hc;
    for (size_t i = 0; i < N / 2; i++)
      h[i] = p[2 * i];
    const mpz r = norm<N / 2>(h, cof ? &hc : nullptr);
    if (cof) {
      arr<N> l;
      for (size_t i = 0; i < N / 2; i++)
        l[2 * i] = hc[i];
      *cof = mul<N>(m, l);
    }
    return r;
  }
}
template<size_t N>
std::string
show(const arr<N>& a)
{
  std::string s = "(";
  for (size_t i = 0; i < N && i < 16; i++)
    s += (i ? " " : "") + a[i].get_str();
  return s + ")";
}
// largest coefficient of (F f* + G g*)/(f f* + g g*): at most 1/2 when size-reduced
template<size_t N>
fs::ld
excess(const arr<N>& f, const arr<N>& g, const arr<N>& F, const arr<N>& G)
{
  auto bits = [](const arr<N>& a) {
    size_t m = 0;
    for (auto& x : a)
      m = std::max(m, mpz_sizeinbase(x.get_mpz_t(), 2));
    return m;
  };
  // far beyond half of f and g: no need for (and no way of) evaluating it in floating point
  if (std::max(bits(F), bits(G)) > std::max(bits(f), bits(g)) + 200)
    return HUGE_VALL;
  auto ev = [](const arr<N>& a) {
    std::vector<fs::ld> d(N);
    for (size_t i = 0; i < N; i++)
      d[i] = a[i].get_d();
    return fs::eval(d, N);
  };
  const auto a = ev(f), b = ev(g), c = ev(F), d = ev(G);
  fs::vec k(N);
  for (size_t j = 0; j < N; j++)
    k[j] = (fs::mul(c[j], std::conj(a[j])) + fs::mul(d[j], std::conj(b[j]))) / (std::norm(a[j]) + std::norm(b[j]));
  fs::ld m = 0;
  for (auto x : fs::coefs(k)) {
    if (!std::isfinite(x))
      return HUGE_VALL;
    m = std::max(m, fabsl(x));
  }
  return m;
}

template<size_t N>
std::string
solve(const arr<N>& f, const arr<N>& g, bool key_sized = true)
{
  const auto kf = f, kg = g;
  const auto ret = ntru_gen::ntru_solve<N>(f, g);
  mc::transitions(1);
  mc::traces(1);
  const std::string what = "f=" + show<N>(f) + " g=" + show<N>(g);
  if (f != kf || g != kg)
    return what + ": inputs modified";
  const mpz nf = norm<N>(f), ng = norm<N>(g);
  mpz gcd;
  mpz_gcd(gcd.get_mpz_t(), nf.get_mpz_t(), ng.get_mpz_t());
  const bool sol = ret.second.is_solution();
  if (sol != (gcd == 1)) {
    if (sol)
      mc::outcome("solved although the norms are not coprime");
    else if (gcd == 1)
      return what + ": reported as unsolvable although the norms " + nf.get_str() + " and " + ng.get_str() + " are coprime";
  }
  if (!sol) {
    mc::outcome(mc::fmt("N=%zu: no solution", N));
    return "";
  }
  const auto &F = ret.first.first, &G = ret.first.second;
  const auto a = mul<N>(f, G), b = mul<N>(g, F);
  for (size_t i = 0; i < N; i++)
    if (a[i] - b[i] != (i ? 0 : 12289))
      return what + ": F=" + show<N>(F) + " G=" + show<N>(G) + mc::fmt(": f*G - g*F differs from q at coefficient %zu", i);
  const auto ex = key_sized ? excess<N>(f, g, F, G) : 0;
  if (!(ex <= 0.5L + 0.01L))
    return what + ": F=" + show<N>(F) + " G=" + show<N>(G) + mc::fmt(" are not size-reduced (%.4Lf)", ex);
  mc::outcome(mc::fmt("N=%zu: solved", N));
  return "";
}
template<size_t N>
std::string
solve1(const arr<N>& f, const arr<N>& g) // N = 1: only soundness
{
  const auto ret = ntru_gen::ntru_solve<1>(f, g);
  mc::transitions(1);
  if (!ret.second.is_solution()) {
    mc::outcome("N=1: no solution");
    return "";
  }
  mc::outcome("N=1: solved");
  if (f[0] * ret.first.second[0] - g[0] * ret.first.first[0] != 12289)
    return "N=1: f=" + show<1>(f) + " g=" + show<1>(g) + ": f*G - g*F differs from q";
  return "";
}

// (F, G) -> reduce -> must differ by k*(f, g), k integral, and be reduced
template<size_t N>
std::string
reduced(const arr<N>& f, const arr<N>& g, const arr<N>& F0, const arr<N>& G0, const std::string& what, bool key_sized = true)
{
  arr<N> F = F0, G = G0, fc = f, gc = g;
  ntru_gen::reduce<N>(fc, gc, F, G);
  mc::transitions(1);
  mc::traces(1);
  if (fc != f || gc != g)
    return what + ": reduction modified f, g";
  arr<N> dF, dG, cof;
  for (size_t i = 0; i < N; i++) {
    dF[i] = F0[i] - F[i];
    dG[i] = G0[i] - G[i];
  }
  if (mul<N>(dF, g) != mul<N>(dG, f))
    return what + ": reduction subtracts different multiples of f and g";
  const bool usef = norm<N>(f) != 0;
  const mpz n = norm<N>(usef ? f : g, &cof);
  const auto k = mul<N>(usef ? dF : dG, cof);
  for (size_t i = 0; i < N; i++)
    if (k[i] % n != 0)
      return what + ": reduction subtracts a fractional multiple";
  // For f, g wider than the floating-point mantissa the quotient is computed on
  // scaled-down operands, and the step may stop before F, G are fully reduced.
  // That only happens inside the recursion (the next level reduces again), so
  // complete reduction is demanded of key-sized f, g only.
  const auto ex = excess<N>(f, g, F, G);
  if (key_sized && !(ex <= 0.5L + 0.01L))
    return what + ": " + mc::fmt("not size-reduced after reduction (%.4Lf)", ex);
  mc::outcome(mc::fmt("N=%zu: reduced", N));
  return "";
}

template<size_t N>
arr<N>
digits(uint64_t& id, int base, int lo)
{
  arr<N> a;
  for (size_t i = 0; i < N; i++, id /= base)
    a[i] = (int)(id % base) + lo;
  return a;
}
template<size_t N>
bool
zero(const arr<N>& a)
{
  for (auto& x : a)
    if (x != 0)
      return false;
  return true;
}

template<size_t N>
void
define_reduce()
{
  mc::add(mc::fmt("N=%zu: reduction of K*(f,g) + small for K of 0..2000 (20000) bits", N), mc::quick ? 600 / (N >= 64 ? N / 16 : 1) : 6000 / (N >= 64 ? N / 32 : 1), [](uint64_t id) -> std::string {
    arr<N> f, g, K, F, G;
    for (size_t i = 0; i < N; i++) {
      f[i] = (long)(mc::mix(id * 7000 + i) % 21) - 10;
      g[i] = (long)(mc::mix(id * 7001 + 3 * i) % 21) - 10;
      // f, g themselves large in some items (as in the middle of the recursion)
      if (id % 3 == 1) {
        f[i] = (f[i] << (id % 200)) + (long)(mc::mix(id + i) % 1000);
        g[i] = (g[i] << (id % 200)) - (long)(mc::mix(id - i) % 1000);
      }
      const long bits = id % 32 == 4 && N <= 32 ? (long)(id * 997 % 20000) : (long)(id * 37 % (id % 4 == 0 ? 2000 : 120));
      K[i] = 0;
      for (long b = 0, w = 0; b <= bits; b += 60, w++) // significant digits all the way down
        K[i] = (K[i] << 60) + (long)(mc::mix(id * 3 + i + (w << 32)) >> (id % 5 ? 4 : 40));
      if (bits < 60)
        K[i] >>= 40;
      if (mc::mix(id * 5 + i) & 1)
        K[i] = -K[i];
    }
    f[0] += 1;
    g[N - 1] += 2;
    if (norm<N>(f) == 0)
      return "";
    const auto a = mul<N>(K, f), b = mul<N>(K, g);
    for (size_t i = 0; i < N; i++) {
      F[i] = a[i] + (long)(mc::mix(id + 9 * i) % 41) - 20;
      G[i] = b[i] + (long)(mc::mix(id + 11 * i) % 41) - 20;
    }
    mc::states(1);
    return reduced<N>(f, g, F, G, mc::fmt("N=%zu pattern %d", N, (int)id), id % 3 != 1 || id % 200 < 24);
  }, 1, 20);
}
template<size_t N>
void
define_solve()
{
  mc::add(mc::fmt("N=%zu: solving patterned pairs", N), mc::quick ? (N <= 32 ? 400 : 6400 / N) : (N <= 32 ? 8000 : 64000 / N), [](uint64_t id) -> std::string {
    arr<N> f, g;
    const int r = 3 + id % 20;
    for (size_t i = 0; i < N; i++) {
      f[i] = (long)(mc::mix(id * 9000 + i) % (2 * r + 1)) - r;
      g[i] = (long)(mc::mix(id * 9001 + 5 * i) % (2 * r + 1)) - r;
    }
    if (zero<N>(f) || zero<N>(g))
      return "";
    mc::states(1);
    return solve<N>(f, g);
  }, 1, 30);
}
// coefficients far beyond those of keys (the recursion meets such numbers further down)
template<size_t N>
void
define_large()
{
  mc::add(mc::fmt("N=%zu: solving pairs with large coefficients", N), mc::quick ? 240 : 2400, [](uint64_t id) -> std::string {
    static const int sizes[] = { 12, 20, 21, 31, 40, 53, 54, 61, 63, 64, 65, 100, 127, 128, 200, 500, 1000, 1023, 1024, 2000, 5000, 9000, 16000, 20000 };
    const int big = std::min(sizes[id % 24], N == 2 ? 20000 : 20000 / (int)N), shape = id / 24 % 5; // solving takes about cubic time
    auto rnd = [&](uint64_t h, int bits) {
      mpz r = 0;
      for (int k = 0; k < bits; k += 32)
        r = (r << 32) + (long)(mc::mix(h * 77 + k) >> 32);
      r = (r >> (mpz_sizeinbase(r.get_mpz_t(), 2) > (size_t)bits ? mpz_sizeinbase(r.get_mpz_t(), 2) - bits : 0));
      return mc::mix(h) & 1 ? mpz(-r) : r;
    };
    arr<N> f, g;
    for (size_t i = 0; i < N; i++) {
      f[i] = rnd(id * 9002 + i, shape == 1 ? 6 : shape == 3 && i != id / 120 % N ? 5 : big);
      g[i] = rnd(id * 9003 + 5 * i, shape == 2 ? 6 : shape == 4 && i != id / 120 % N ? 5 : big);
    }
    if (zero<N>(f) || zero<N>(g))
      return "";
    mc::states(1);
    return solve<N>(f, g, big < 20);
  }, 1, 30);
}

int
main(int argc, char** argv)
{
  return mc::main(argc, argv, [] {
    mc::add("N=1: f, g in [-60,60]", 121 * 121, [](uint64_t i) -> std::string {
      mc::states(1);
      return solve1<1>({ (int)(i % 121) - 60 }, { (int)(i / 121) - 60 });
    }, 64);
    const int r2 = mc::quick ? 4 : 9;
    uint64_t t2 = 1;
    for (int i = 0; i < 4; i++)
      t2 *= 2 * r2 + 1;
    mc::add(mc::fmt("N=2: all f, g with coefficients in [-%d,%d]", r2, r2), t2, [r2](uint64_t id) -> std::string {
      const auto f = digits<2>(id, 2 * r2 + 1, -r2), g = digits<2>(id, 2 * r2 + 1, -r2);
      if (zero<2>(f) && zero<2>(g))
        return "";
      mc::states(1);
      return solve<2>(f, g);
    }, 16, 20);
    mc::add("N=4: all f, g with coefficients in {-1,0,1}", 6561, [](uint64_t id) -> std::string {
      const auto f = digits<4>(id, 3, -1), g = digits<4>(id, 3, -1);
      if (zero<4>(f) && zero<4>(g))
        return "";
      mc::states(1);
      return solve<4>(f, g);
    }, 16, 20);
    if (!mc::quick)
      mc::add("N=4: all f, g with coefficients in [-2,2]", 390625, [](uint64_t id) -> std::string {
        const auto f = digits<4>(id, 5, -2), g = digits<4>(id, 5, -2);
        if (zero<4>(f) && zero<4>(g))
          return "";
        mc::states(1);
        return solve<4>(f, g);
      }, 16, 20);
    mc::add("N=8: all f, g with coefficients in {0,1}", 65536, [](uint64_t id) -> std::string {
      const auto f = digits<8>(id, 2, 0), g = digits<8>(id, 2, 0);
      if (zero<8>(f) && zero<8>(g))
        return "";
      mc::states(1);
      return solve<8>(f, g);
    }, 16, 20);
    mc::add("N=8: f in {-1,0,1}^8, g = its reverse or shift", 6561 * 4, [](uint64_t id) -> std::string {
      const int v = id % 4;
      id /= 4;
      const auto f = digits<8>(id, 3, -1);
      arr<8> g;
      for (int i = 0; i < 8; i++)
        g[i] = v == 0 ? f[7 - i] : v == 1 ? mpz(f[i] * 2 + 1) : v == 2 ? f[(i + 3) % 8] : mpz(i - 3);
      if (zero<8>(f) && zero<8>(g))
        return "";
      mc::states(1);
      return solve<8>(f, g);
    }, 16, 20);
    // reduction, exhaustive for N = 2
    mc::add("N=2: reduction of all F, G in a grid against small f, g", 7 * 7 * 7 * 7, [](uint64_t id) -> std::string {
      const auto f = digits<2>(id, 7, -3), g = digits<2>(id, 7, -3);
      if (zero<2>(f) || norm<2>(f) == 0)
        return "";
      for (int a = -6; a <= 6; a += 2)
        for (int b = -9; b <= 9; b += 3)
          for (int c = -8; c <= 8; c += 4)
            for (int d = -50; d <= 50; d += 10) {
              mc::states(1);
              if (auto r = reduced<2>(f, g, { a, b }, { c, d }, "f=" + show<2>(f) + " g=" + show<2>(g) + mc::fmt(" F=(%d %d) G=(%d %d)", a, b, c, d)); !r.empty())
                return r;
            }
      return "";
    }, 8, 20);
    define_reduce<2>();
    define_reduce<4>();
    define_reduce<8>();
    define_reduce<16>();
    define_reduce<32>();
    define_reduce<64>();
    define_large<2>();
    define_large<4>();
    define_large<8>();
    define_large<16>();
    define_solve<2>();
    define_solve<4>();
    define_solve<8>();
    define_solve<16>();
    define_solve<32>();
    define_solve<64>();
    define_solve<128>();
    mc::add("N=512: fixture pairs", 3, [](uint64_t i) -> std::string {
      const auto& k = keys::get<512>(i);
      arr<512> f, g;
      for (size_t j = 0; j < 512; j++) {
        f[j] = (long)k.f[j];
        g[j] = (long)k.g[j];
      }
      mc::states(1);
      return solve<512>(f, g);
    }, 1, 120);
    mc::add("N=1024: fixture pairs", 2, [](uint64_t i) -> std::string {
      const auto& k = keys::get<1024>(i);
      arr<1024> f, g;
      for (size_t j = 0; j < 1024; j++) {
        f[j] = (long)k.f[j];
        g[j] = (long)k.g[j];
      }
      mc::states(1);
      return solve<1024>(f, g);
    }, 1, 120);
  });
}
