// FFT domain arithmetic against long double evaluation at the roots of x^N+1.  Only the order of
// evaluations is read off the implementation (from the transform of x), never assumed.
#include "fft.hpp"
#include "polynomial.hpp"
#include "guard.hpp"
#include "mc.hpp"
#include "ref.hpp"
using C = fft::cmplx;
using L = std::complex<long double>;

static long double
dist(C a, L b)
{
  const L d = L(a.real(), a.imag()) - b;
  return std::hypot(d.real(), d.imag());
}

template<size_t LG>
struct X
{
  static constexpr size_t N = 1ul << LG;
  using arr = std::vector<C>;
  static inline std::string err;

  static void fft_(arr& a)
  {
    if constexpr (LG > 0)
      fft::fft<LG>(a.data());
  }
  static void ifft_(arr& a)
  {
    if constexpr (LG > 0)
      fft::ifft<LG>(a.data());
  }
  // exponent e_j (odd, mod 2N) with slot j holding the evaluation at exp(i pi e_j / N)
  static const std::vector<int>& order()
  {
    static const std::vector<int> o = [] {
      std::vector<int> r(N, -1);
      if constexpr (LG == 0) {
        r[0] = 1;
        return r;
      }
      arr x(N, C(0));
      if (N > 1)
        x[1] = 1;
      fft_(x);
      std::set<int> seen;
      for (size_t j = 0; j < N; j++) {
        long double t = atan2l(x[j].imag(), x[j].real()) / M_PIl * N;
        long k = lroundl(t);
        k = ((k % (long)(2 * N)) + 2 * N) % (2 * N);
        const L want = root(k, 1);
        if (k % 2 == 0 || !(dist(x[j], want) <= 1e-13L)) {
          err = mc::fmt("slot %zu of the transform of x is (%.17g,%.17g), not a root of x^N+1", j, x[j].real(), x[j].imag());
        }
        if (!seen.insert((int)k).second)
          err = mc::fmt("slot %zu repeats an evaluation point", j);
        r[j] = (int)k;
      }
      return r;
    }();
    return o;
  }
  static L root(long e, long i)
  {
    const long k = (e * i) % (long)(2 * N);
    // exact reduction to the first octant is not needed at long double precision
    const long double t = M_PIl * (long double)k / (long double)N;
    return L(cosl(t), sinl(t));
  }
  static const std::vector<L>& roots() // exp(i pi k / N), k < 2N
  {
    static const std::vector<L> r = [] {
      std::vector<L> t(2 * N);
      for (size_t k = 0; k < 2 * N; k++)
        t[k] = root((long)k, 1);
      return t;
    }();
    return r;
  }
  static L at(size_t j, size_t i) { return roots()[((size_t)order()[j] * i) % (2 * N)]; }
};

static const double SC[] = { 1., -1., 0.5, 12288., -127., 6.62e7, 9007199254740991., 0x1p-70, -0x1p+110 };

static double
val(size_t n, uint64_t k, size_t i)
{
  const uint64_t h = mc::mix(k * 1000003 + i * 17 + n);
  switch (k % 6) {
    case 0: return (double)(h % 24577) - 12288;
    case 1: return (double)(h % 15) - 7;
    case 2: return (i & 1) ? 1 : -1;
    case 3: return (double)(h % (1ull << 53)) - (double)(1ull << 52);
    case 4: return 12288;
    default: return ((double)(h % 2000003) - 1000001) / 1024.;
  }
}

template<size_t LG>
void
define()
{
  using Y = X<LG>;
  using Z = X<LG - 1>;
  static constexpr size_t N = 1ul << LG;
  const std::string n = mc::fmt("%zu: ", N);

  mc::add(n + "evaluation points", 1, [](uint64_t) -> std::string {
    Y::order();
    mc::sample(mc::fmt("N=%zu: slots 0,1 evaluate at exp(i pi %d/%zu), exp(i pi %d/%zu)", N, Y::order()[0], N, Y::order()[1], N));
    return Y::err;
  });
  mc::add(n + "monomials: transform, inverse, adjoint, split, merge", N, [](uint64_t i) -> std::string {
    for (double c : SC)
      for (int im = 0; im < 2; im++) { // complex-linear: also times the imaginary unit
        const C s = im ? C(0, c) : C(c);
        typename Y::arr a(N, C(0));
        a[i] = s;
        const auto a0 = a;
        Y::fft_(a);
        const long double tol = 1e-13L * fabs(c);
        for (size_t j = 0; j < N; j++)
          if (!(dist(a[j], L(s) * Y::at(j, i)) <= tol))
            return mc::fmt("fft of (%g,%g) x^%d: slot %zu is (%.17g,%.17g)", s.real(), s.imag(), (int)i, j, a[j].real(), a[j].imag());
        // split: even / odd halves
        typename Y::arr f0(N / 2), f1(N / 2), keep = a;
        fft::split_fft<LG>(a.data(), f0.data(), f1.data());
        if (memcmp(keep.data(), a.data(), sizeof(C) * N))
          return "split modified its input";
        for (size_t j = 0; j < N / 2; j++) {
          const L z = L(s) * Z::at(j, i / 2);
          if (!(dist(i % 2 ? f1[j] : f0[j], z) <= tol))
            return mc::fmt("split of x^%d * (%g,%g): %s slot %zu is (%.17g,%.17g)", (int)i, s.real(), s.imag(), i % 2 ? "odd" : "even", j,
                           (i % 2 ? f1 : f0)[j].real(), (i % 2 ? f1 : f0)[j].imag());
          if (!(dist(i % 2 ? f0[j] : f1[j], L(0)) <= tol))
            return mc::fmt("split of x^%d: %s half is not zero at %zu", (int)i, i % 2 ? "even" : "odd", j);
        }
        // merge of the exact halves
        typename Y::arr e0(N / 2, C(0)), e1(N / 2, C(0)), m(N, C(77));
        for (size_t j = 0; j < N / 2; j++) {
          const L z = L(s) * Z::at(j, i / 2);
          (i % 2 ? e1 : e0)[j] = C((double)z.real(), (double)z.imag());
        }
        fft::merge_fft<LG>(e0.data(), e1.data(), m.data());
        for (size_t j = 0; j < N; j++)
          if (!(dist(m[j], L(s) * Y::at(j, i)) <= tol))
            return mc::fmt("merge towards x^%d * (%g,%g): slot %zu is (%.17g,%.17g)", (int)i, s.real(), s.imag(), j, m[j].real(), m[j].imag());
        // adjoint (of the complex vector: conjugation of every evaluation)
        typename Y::arr ad = a;
        fft::adj_poly<LG>(ad.data());
        for (size_t j = 0; j < N; j++)
          if (!(dist(ad[j], std::conj(L(s) * Y::at(j, i))) <= tol))
            return mc::fmt("adjoint of x^%d: slot %zu", (int)i, j);
        if (!im) { // a(1/x) = -a x^(N-i)
          Y::ifft_(ad);
          for (size_t k = 0; k < N; k++) {
            const double want = i == 0 ? (k == 0 ? c : 0) : (k == N - i ? -c : 0);
            if (!(dist(ad[k], L(want)) <= tol))
              return mc::fmt("adjoint of x^%d is wrong at coefficient %zu", (int)i, k);
          }
        }
        Y::ifft_(a);
        for (size_t k = 0; k < N; k++)
          if (!(dist(a[k], L(a0[k])) <= tol))
            return mc::fmt("ifft(fft((%g,%g) x^%d)): coefficient %zu is (%.17g,%.17g)", s.real(), s.imag(), (int)i, k, a[k].real(), a[k].imag());
        mc::states(1);
        mc::transitions(6);
        mc::traces(1);
      }
    mc::outcome(mc::fmt("N=%zu monomial", N), 14);
    return "";
  }, 4);
  mc::add(n + "every evaluation unit vector", N, [](uint64_t j) -> std::string {
    for (C z : { C(1), C(0, 1), C(-3.5, 1e6) }) {
      typename Y::arr a(N, C(0));
      a[j] = z;
      Y::ifft_(a);
      const long double tol = 1e-13L * (long double)std::abs(z);
      for (size_t i = 0; i < N; i++)
        if (!(dist(a[i], L(z) * std::conj(Y::at(j, i)) / (long double)N) <= tol))
          return mc::fmt("ifft of unit vector %d: coefficient %zu is (%.17g,%.17g)", (int)j, i, a[i].real(), a[i].imag());
      // split followed by merge, on a vector that is not the transform of anything real
      typename Y::arr u(N, C(0)), f0(N / 2), f1(N / 2), m(N);
      u[j] = z;
      fft::split_fft<LG>(u.data(), f0.data(), f1.data());
      fft::merge_fft<LG>(f0.data(), f1.data(), m.data());
      for (size_t i = 0; i < N; i++)
        if (!(dist(m[i], L(u[i])) <= tol))
          return mc::fmt("merge(split(unit vector %d)): slot %zu", (int)j, i);
      mc::states(1);
      mc::transitions(3);
      mc::traces(1);
    }
    return "";
  }, 8);
  mc::add(n + "product of every pair of monomials", N, [](uint64_t i) -> std::string {
    typename Y::arr a(N, C(0)), b(N), c(N);
    a[i] = -12288;
    Y::fft_(a);
    for (size_t j = 0; j < N; j++) {
      std::fill(b.begin(), b.end(), C(0));
      b[j] = 127;
      Y::fft_(b);
      polynomial::mul<LG>(a.data(), b.data(), c.data());
      Y::ifft_(c);
      for (size_t k = 0; k < N; k++) {
        const double want = k == (i + j) % N ? (i + j >= N ? 1. : -1.) * 12288 * 127 : 0.;
        if (!(dist(c[k], L(want)) <= 1e-6L))
          return mc::fmt("x^%d * x^%zu: coefficient %zu is (%g,%g)", (int)i, j, k, c[k].real(), c[k].imag());
      }
    }
    mc::states(N);
    mc::transitions(3 * N);
    mc::traces(N);
    return "";
  }, 4);
  mc::add(n + "dense: round trip, ring product, element-wise operations", mc::quick ? 60 : 600, [](uint64_t k) -> std::string {
    typename Y::arr a(N), b(N), c(N, C(5)), a0, b0;
    for (size_t i = 0; i < N; i++) {
      a[i] = val(N, k, i);
      b[i] = val(N, k / 6 + 7 * (k % 6), i + 5000);
    }
    long double ma = 0, mb = 0;
    for (size_t i = 0; i < N; i++) {
      ma = std::max<long double>(ma, std::abs(a[i]));
      mb = std::max<long double>(mb, std::abs(b[i]));
    }
    std::vector<long double> pa(N), pb(N), want(N, 0);
    for (size_t i = 0; i < N; i++) {
      pa[i] = a[i].real();
      pb[i] = b[i].real();
    }
    for (size_t i = 0; i < N; i++)
      for (size_t j = 0; j < N; j++)
        i + j < N ? want[i + j] += pa[i] * pb[j] : want[i + j - N] -= pa[i] * pb[j];
    a0 = a;
    b0 = b;
    Y::fft_(a);
    Y::fft_(b);
    const auto fa = a, fb = b;
    auto r = a;
    Y::ifft_(r);
    for (size_t i = 0; i < N; i++)
      if (!(dist(r[i], L(a0[i])) <= 1e-12L * ma))
        return mc::fmt("dense %d: round trip changes coefficient %zu from %.17g to %.17g", (int)k, i, a0[i].real(), r[i].real());
    struct
    {
      const char* name;
      std::function<void()> run;
      std::function<L(L, L)> op;
      long double scale;
    } ops[] = {
      { "add", [&] { polynomial::add<LG>(a.data(), b.data(), c.data()); }, [](L x, L y) { return x + y; }, 1 },
      { "sub", [&] { polynomial::sub<LG>(a.data(), b.data(), c.data()); }, [](L x, L y) { return x - y; }, 1 },
      { "mul", [&] { polynomial::mul<LG>(a.data(), b.data(), c.data()); }, [](L x, L y) { return x * y; }, 1 },
      { "div", [&] { polynomial::div<LG>(a.data(), b.data(), c.data()); }, [](L x, L y) { return x / y; }, 1 },
      { "add_to", [&] { c = a; polynomial::add_to<LG>(c.data(), b.data()); }, [](L x, L y) { return x + y; }, 1 },
    };
    for (auto& o : ops) {
      o.run();
      if (memcmp(a.data(), fa.data(), sizeof(C) * N) || memcmp(b.data(), fb.data(), sizeof(C) * N))
        return std::string(o.name) + " modified an operand";
      for (size_t i = 0; i < N; i++) {
        const L x(fa[i]), y(fb[i]), w = o.op(x, y);
        if (std::abs(y) == 0 && o.name[0] == 'd')
          continue;
        const long double mag = o.name[0] == 'm' || o.name[0] == 'd' ? std::abs(w) : std::abs(x) + std::abs(y);
        if (!(dist(c[i], w) <= 1e-14L * mag))
          return mc::fmt("%s: slot %zu is (%.17g,%.17g), expected (%.17Lg,%.17Lg)", o.name, i, c[i].real(), c[i].imag(), w.real(), w.imag());
      }
      mc::transitions(1);
    }
    polynomial::mul<LG>(a.data(), b.data(), c.data());
    Y::ifft_(c);
    for (size_t i = 0; i < N; i++)
      if (!(dist(c[i], L(want[i])) <= 1e-12L * ma * mb * N))
        return mc::fmt("dense %d: product coefficient %zu is %.17g, expected %.17Lg", (int)k, i, c[i].real(), want[i]);
    // split / merge of a dense vector
    typename Y::arr f0(N / 2), f1(N / 2), m(N);
    fft::split_fft<LG>(a.data(), f0.data(), f1.data());
    typename Z::arr ev(N / 2), od(N / 2);
    for (size_t i = 0; i < N / 2; i++) {
      ev[i] = a0[2 * i];
      od[i] = a0[2 * i + 1];
    }
    Z::fft_(ev);
    Z::fft_(od);
    for (size_t i = 0; i < N / 2; i++)
      if (!(dist(f0[i], L(ev[i])) <= 1e-12L * ma * N) || !(dist(f1[i], L(od[i])) <= 1e-12L * ma * N))
        return mc::fmt("dense %d: split differs from the transforms of the even/odd halves at %zu", (int)k, i);
    fft::merge_fft<LG>(f0.data(), f1.data(), m.data());
    for (size_t i = 0; i < N; i++)
      if (!(dist(m[i], L(a[i])) <= 1e-12L * ma * N))
        return mc::fmt("dense %d: merge(split) differs at %zu", (int)k, i);
    mc::states(1);
    mc::traces(1);
    mc::transitions(5);
    mc::outcome(mc::fmt("N=%zu dense", N));
    return "";
  }, 2);
  mc::add(n + "element-wise operations, all pairs of magnitudes 2^-80..2^80", 41, [](uint64_t ea) -> std::string {
    typename Y::arr a(N), b(N), c(N);
    for (int eb = -80; eb <= 80; eb += N >= 256 && mc::quick ? 8 : 2) {
      for (size_t i = 0; i < N; i++) {
        auto u = [&](uint64_t k) { return (double)(int64_t)(mc::mix(i * 8 + k + ea * 77) >> 11) / 9007199254740992. * 2 - 1; };
        const int fa = (int)(i % 7 == 6 ? -30 : 0), fb = (int)(i % 5 == 4 ? -40 : 0); // one component much smaller, or zero
        a[i] = C(std::ldexp(u(0) + (u(0) < 0 ? -1 : 1), (int)ea * 4 - 80), std::ldexp(u(1), (int)ea * 4 - 80 + fa));
        b[i] = C(std::ldexp(u(2) + (u(2) < 0 ? -1 : 1), eb), i % 3 == 2 ? 0 : std::ldexp(u(3), eb + fb));
        if (i % 4 == 3)
          b[i] = C(b[i].imag(), b[i].real());
      }
      struct
      {
        const char* name;
        std::function<void()> run;
        std::function<L(L, L)> op;
        bool mult;
      } ops[] = {
        { "add", [&] { polynomial::add<LG>(a.data(), b.data(), c.data()); }, [](L x, L y) { return x + y; }, false },
        { "sub", [&] { polynomial::sub<LG>(a.data(), b.data(), c.data()); }, [](L x, L y) { return x - y; }, false },
        { "mul", [&] { polynomial::mul<LG>(a.data(), b.data(), c.data()); }, [](L x, L y) { return x * y; }, true },
        { "div", [&] { polynomial::div<LG>(a.data(), b.data(), c.data()); }, [](L x, L y) { return x / y; }, true },
        { "add_to", [&] { c = a; polynomial::add_to<LG>(c.data(), b.data()); }, [](L x, L y) { return x + y; }, false },
      };
      for (auto& o : ops) {
        o.run();
        for (size_t i = 0; i < N; i++) {
          const L x(a[i]), y(b[i]), w = o.op(x, y);
          if (!(dist(c[i], w) <= 1e-14L * (o.mult ? std::abs(w) : std::abs(x) + std::abs(y))))
            return mc::fmt("%s, magnitudes 2^%d and 2^%d: slot %zu is (%.17g,%.17g), expected (%.17Lg,%.17Lg)", o.name, (int)ea * 4 - 80, eb, i, c[i].real(), c[i].imag(), w.real(), w.imag());
        }
        mc::transitions(1);
      }
      mc::states(1);
      mc::traces(1);
    }
    mc::outcome(mc::fmt("N=%zu magnitudes", N));
    return "";
  });
  mc::add(n + "operands of exactly the right size between inaccessible pages", 10, [](uint64_t o) -> std::string {
    std::vector<C> a(N), b(N), c(N), h(N / 2), k(N / 2);
    for (size_t i = 0; i < N; i++) {
      a[i] = C(val(N, 1, i), val(N, 2, i));
      b[i] = C(val(N, 3, i), 1);
      if (i < N / 2)
        h[i] = a[i], k[i] = b[i];
    }
    switch (o) {
      case 0: return between_pages<C>("fft", { a, {}, {} }, 1, [](C* x, C*, C*) { fft::fft<LG>(x); });
      case 1: return between_pages<C>("ifft", { a, {}, {} }, 1, [](C* x, C*, C*) { fft::ifft<LG>(x); });
      case 2: return between_pages<C>("split_fft", { a, h, k }, 6, [](C* x, C* y, C* z) { fft::split_fft<LG>(x, y, z); });
      case 3: return between_pages<C>("merge_fft", { h, k, a }, 4, [](C* x, C* y, C* z) { fft::merge_fft<LG>(x, y, z); });
      case 4: return between_pages<C>("adj_poly", { a, {}, {} }, 1, [](C* x, C*, C*) { fft::adj_poly<LG>(x); });
      case 5: return between_pages<C>("add", { a, b, c }, 4, [](C* x, C* y, C* z) { polynomial::add<LG>(x, y, z); });
      case 6: return between_pages<C>("add_to", { a, b, {} }, 1, [](C* x, C* y, C*) { polynomial::add_to<LG>(x, y); });
      case 7: return between_pages<C>("sub", { a, b, c }, 4, [](C* x, C* y, C* z) { polynomial::sub<LG>(x, y, z); });
      case 8: return between_pages<C>("mul", { a, b, c }, 4, [](C* x, C* y, C* z) { polynomial::mul<LG>(x, y, z); });
      default: return between_pages<C>("div", { a, b, c }, 4, [](C* x, C* y, C* z) { polynomial::div<LG>(x, y, z); });
    }
  });
}

int
main(int argc, char** argv)
{
  return mc::main(argc, argv, [] {
    define<1>();
    define<2>();
    define<3>();
    define<4>();
    define<5>();
    define<6>();
    define<7>();
    define<8>();
    define<9>();
    define<10>();
  });
}
