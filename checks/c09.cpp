// NTT: transform / inverse / element-wise operations against naive arithmetic in Z_q[x]/(x^N+1).
// Nothing is assumed about the order in which evaluations are stored.
#include "ntt.hpp"
#include "polynomial.hpp"
#include "guard.hpp"
#include "mc.hpp"
#include "ref.hpp"
using ff::ff_t;
static constexpr int Q = 12289;

template<size_t LG>
struct T
{
  static constexpr size_t N = 1ul << LG;
  using arr = std::array<ff_t, N>;

  static arr from(const ref::poly& p)
  {
    arr a;
    for (size_t i = 0; i < N; i++)
      a[i].v = static_cast<uint16_t>(p[i]);
    return a;
  }
  static std::string canonical(const arr& a, const char* what)
  {
    for (size_t i = 0; i < N; i++)
      if (a[i].v >= Q)
        return mc::fmt("%s: slot %zu holds %d, not canonical", what, i, a[i].v);
    return "";
  }
  static std::string roundtrip(const ref::poly& p, const std::string& what)
  {
    arr a = from(p);
    ntt::ntt<LG>(a.data());
    if (auto e = canonical(a, "transform"); !e.empty())
      return e + " " + what;
    ntt::intt<LG>(a.data());
    mc::transitions(2);
    mc::traces(1);
    for (size_t i = 0; i < N; i++)
      if (a[i].v != p[i])
        return what + mc::fmt(": coefficient %zu is %d after the round trip, was %d", i, a[i].v, (int)p[i]);
    return "";
  }
  // the evaluation points, read off the transform of x
  static const std::array<int, N>& points()
  {
    static const std::array<int, N> w = [] {
      ref::poly x(N, 0);
      x[1] = 1;
      arr a = from(x);
      ntt::ntt<LG>(a.data());
      std::array<int, N> r;
      for (size_t i = 0; i < N; i++)
        r[i] = a[i].v;
      return r;
    }();
    return w;
  }
  static std::string products(const ref::poly& p, const ref::poly& q, const std::string& what)
  {
    arr a = from(p), b = from(q), c, a0, b0;
    ntt::ntt<LG>(a.data());
    ntt::ntt<LG>(b.data());
    a0 = a;
    b0 = b;
    const ref::poly want = ref::mulq(p, q);
    polynomial::mul<LG>(a.data(), b.data(), c.data());
    if (memcmp(a.data(), a0.data(), sizeof a) || memcmp(b.data(), b0.data(), sizeof b))
      return what + ": mul modified its input";
    ntt::intt<LG>(c.data());
    for (size_t i = 0; i < N; i++)
      if (c[i].v != want[i])
        return what + mc::fmt(": product coefficient %zu is %d, expected %d", i, c[i].v, (int)want[i]);
    // sum
    c = a;
    polynomial::add_to<LG>(c.data(), b.data());
    if (memcmp(b.data(), b0.data(), sizeof b))
      return what + ": add_to modified its right operand";
    if (auto e = canonical(c, "add_to"); !e.empty())
      return what + e;
    ntt::intt<LG>(c.data());
    for (size_t i = 0; i < N; i++)
      if (c[i].v != (p[i] + q[i]) % Q)
        return what + mc::fmt(": sum coefficient %zu is %d", i, c[i].v);
    // negation
    c = a;
    polynomial::neg<LG>(c.data());
    if (auto e = canonical(c, "neg"); !e.empty())
      return what + e;
    ntt::intt<LG>(c.data());
    for (size_t i = 0; i < N; i++)
      if (c[i].v != (Q - p[i]) % Q)
        return what + mc::fmt(": negated coefficient %zu is %d, expected %d", i, c[i].v, (int)((Q - p[i]) % Q));
    // quotient: divide the product by q when q is invertible
    bool inv = true;
    for (size_t i = 0; i < N; i++)
      inv &= b[i].v != 0;
    polynomial::mul<LG>(a.data(), b.data(), c.data());
    arr d;
    polynomial::div<LG>(c.data(), b.data(), d.data());
    if (auto e = canonical(d, "div"); !e.empty())
      return what + e;
    if (inv) {
      ntt::intt<LG>(d.data());
      for (size_t i = 0; i < N; i++)
        if (d[i].v != p[i])
          return what + mc::fmt(": quotient coefficient %zu is %d, expected %d", i, d[i].v, (int)p[i]);
    }
    mc::outcome(inv ? "divisor invertible" : "divisor has a zero evaluation");
    mc::transitions(6);
    mc::traces(4);
    return "";
  }
};

static ref::poly
pattern(size_t n, uint64_t k)
{
  ref::poly p(n);
  for (size_t i = 0; i < n; i++)
    switch (k % 8) {
      case 0: p[i] = (k / 8 + i) % Q; break;
      case 1: p[i] = mc::mix(k * 7919 + i) % Q; break;
      case 2: p[i] = i % 2 ? Q - 1 : (k / 8) % Q; break;
      case 3: p[i] = Q - 1 - mc::mix(k + i) % 3; break;
      case 4: p[i] = mc::mix(k + i) % 3 == 0 ? Q - 1 : 0; break;
      case 5: p[i] = (Q / 2 + mc::mix(k + i) % 3) % Q; break;
      case 6: p[i] = i == (k / 8) % n ? 1 : 0; break;
      case 7: p[i] = (mc::mix(k * 31 + i) % 63 + Q - 31) % Q; break; // key-like
    }
  return p;
}

template<size_t LG>
void
define()
{
  using X = T<LG>;
  static constexpr size_t N = 1ul << LG;
  const std::string n = mc::fmt("%zu: ", N);
  mc::add(n + "evaluation points are the N roots of x^N+1", 1, [](uint64_t) -> std::string {
    std::set<int> s;
    for (int w : X::points()) {
      s.insert(w);
      if (ref::powq(w, N) != Q - 1)
        return mc::fmt("%d is not a root of x^N+1", w);
    }
    mc::sample(mc::fmt("N=%zu: transform of x lists %zu distinct roots of x^N+1", N, s.size()));
    return s.size() == N ? "" : mc::fmt("only %zu distinct evaluation points", s.size());
  });
  // c * x^i for every residue c and every i: transform is c*w^i, the inverse undoes it
  mc::add(n + "every residue at every monomial", N * 16, [](uint64_t it) -> std::string {
    const size_t i = it / 16;
    const auto& w = X::points();
    std::vector<int> wi(N);
    for (size_t j = 0; j < N; j++)
      wi[j] = (int)ref::powq(w[j], i);
    const int st = mc::quick ? 3 : 1;
    for (int c = (int)(it % 16) * st + (int)(i % st); c < Q; c += 16 * st) {
      typename X::arr a{};
      a[i].v = c;
      ntt::ntt<LG>(a.data());
      for (size_t j = 0; j < N; j++)
        if (a[j].v != c * wi[j] % Q)
          return mc::fmt("transform of %d x^%zu: slot %zu is %d, expected %d", c, i, j, a[j].v, c * wi[j] % Q);
      ntt::intt<LG>(a.data());
      for (size_t j = 0; j < N; j++)
        if (a[j].v != (j == i ? c : 0))
          return mc::fmt("%d x^%zu: coefficient %zu is %d after the round trip", c, i, j, a[j].v);
      mc::states(1);
      mc::transitions(2);
      mc::traces(1);
    }
    return "";
  }, 4);
  // inverse transform of unit vectors: sum over slots (linearity basis of the inverse)
  mc::add(n + "every evaluation unit vector", N, [](uint64_t j) -> std::string {
    for (int c : { 1, 2, Q - 1, Q / 2, 7 }) {
      typename X::arr a{};
      a[j].v = c;
      ntt::intt<LG>(a.data());
      if (auto e = X::canonical(a, "inverse"); !e.empty())
        return e;
      ntt::ntt<LG>(a.data());
      for (size_t i = 0; i < N; i++)
        if (a[i].v != (i == j ? c : 0))
          return mc::fmt("unit vector %d: slot %zu is %d", (int)j, i, a[i].v);
      mc::states(1);
      mc::transitions(2);
      mc::traces(1);
    }
    return "";
  }, 8);
  mc::add(n + "sums of two monomials, every pair of positions", N, [](uint64_t i) -> std::string {
    for (size_t j = 0; j < N; j++) {
      ref::poly p(N, 0);
      p[i] = 1 + (i * 5 + j) % (Q - 1);
      p[j] = (p[j] + Q - 1 - (j % 7)) % Q;
      mc::states(1);
      if (auto e = X::roundtrip(p, mc::fmt("monomials %d, %zu", (int)i, j)); !e.empty())
        return e;
    }
    return "";
  }, 4);
  // x^i * x^j for every pair
  mc::add(n + "product of every pair of monomials", N, [](uint64_t i) -> std::string {
    const int ca = 1 + (i * 911) % (Q - 1);
    typename X::arr A{};
    A[i].v = ca;
    ntt::ntt<LG>(A.data());
    for (size_t j = 0; j < N; j++) {
      const int cb = Q - 1 - (int)(j % 5);
      typename X::arr B{}, C;
      B[j].v = cb;
      ntt::ntt<LG>(B.data());
      polynomial::mul<LG>(A.data(), B.data(), C.data());
      ntt::intt<LG>(C.data());
      const int v = (int)((int64_t)ca * cb % Q);
      for (size_t k = 0; k < N; k++) {
        const int want = k == (i + j) % N ? (i + j >= N ? (Q - v) % Q : v) : 0;
        if (C[k].v != want)
          return mc::fmt("%d x^%d * %d x^%zu: coefficient %zu is %d, expected %d", ca, (int)i, cb, j, k, C[k].v, want);
      }
    }
    mc::states(N);
    mc::transitions(3 * N);
    mc::traces(N);
    mc::outcome("monomial products with wrap-around", i);
    mc::outcome("monomial products without wrap-around", N - i);
    return "";
  }, 4);
  mc::add(n + "dense polynomials: round trip, product, sum, negation, quotient", mc::quick ? 1500 : 12289, [](uint64_t k) -> std::string {
    const auto p = pattern(N, k), q = pattern(N, k * 5 + 3);
    mc::state(mc::hash(p.data(), 8 * N, mc::hash(q.data(), 8 * N)));
    if (auto e = X::roundtrip(p, mc::fmt("pattern %d", (int)k)); !e.empty())
      return e;
    if (k == 17)
      mc::sample(mc::fmt("N=%zu dense pattern 17 times pattern 88: product, sum, negation, quotient compared with the naive ring", N));
    return X::products(p, q, mc::fmt("patterns %d, %d", (int)k, (int)(5 * k + 3)));
  }, 4);
  mc::add(n + "constant polynomials", Q, [](uint64_t c) -> std::string {
    ref::poly p(N, c);
    mc::states(1);
    return X::roundtrip(p, mc::fmt("all coefficients %d", (int)c));
  }, 64);
  mc::add(n + "operands of exactly the right size between inaccessible pages", 6, [](uint64_t o) -> std::string {
    const auto p = X::from(pattern(N, 9)), q = X::from(pattern(N, 15));
    std::vector<ff_t> a(p.begin(), p.end()), b(q.begin(), q.end()), c(N);
    switch (o) {
      case 0: return between_pages<ff_t>("ntt", { a, {}, {} }, 1, [](ff_t* x, ff_t*, ff_t*) { ntt::ntt<LG>(x); });
      case 1: return between_pages<ff_t>("intt", { a, {}, {} }, 1, [](ff_t* x, ff_t*, ff_t*) { ntt::intt<LG>(x); });
      case 2: return between_pages<ff_t>("mul", { a, b, c }, 4, [](ff_t* x, ff_t* y, ff_t* z) { polynomial::mul<LG>(x, y, z); });
      case 3: return between_pages<ff_t>("div", { a, b, c }, 4, [](ff_t* x, ff_t* y, ff_t* z) { polynomial::div<LG>(x, y, z); });
      case 4: return between_pages<ff_t>("add_to", { a, b, {} }, 1, [](ff_t* x, ff_t* y, ff_t*) { polynomial::add_to<LG>(x, y); });
      default: return between_pages<ff_t>("neg", { a, {}, {} }, 1, [](ff_t* x, ff_t*, ff_t*) { polynomial::neg<LG>(x); });
    }
  });
}

int
main(int argc, char** argv)
{
  return mc::main(argc, argv, [] {
    define<9>();
    define<10>();
  });
}
