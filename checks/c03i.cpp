// The candidate filters of key generation in isolation: invertibility, Gram-Schmidt norm, public key.
#include "cands.hpp"
#include "keys.hpp"
#include "mc.hpp"
#include "ntru_gen.hpp"
#include "keygen.hpp"
using ref::poly;

// polynomial with given values at the roots of x^N+1
static poly
interpolate(const std::vector<int64_t>& v)
{
  const size_t n = v.size();
  std::vector<int64_t> w;
  ref::roots(n, w);
  poly f(n);
  const int64_t ninv = ref::powq(n, ref::Q - 2);
  std::vector<int64_t> wi(n), cur(n, 1);
  for (size_t j = 0; j < n; j++)
    wi[j] = ref::powq(w[j], ref::Q - 2);
  for (size_t i = 0; i < n; i++) {
    int64_t s = 0;
    for (size_t j = 0; j < n; j++) {
      s += v[j] * cur[j] % ref::Q;
      cur[j] = cur[j] * wi[j] % ref::Q;
    }
    f[i] = ref::center(s % ref::Q * ninv % ref::Q);
  }
  return f;
}
template<size_t LG>
static std::string
inv(const std::vector<int64_t>& vals, const std::string& what)
{
  static constexpr size_t N = 1ul << LG;
  const poly f = interpolate(vals);
  std::vector<int32_t> v(f.begin(), f.end());
  const bool want = std::find(vals.begin(), vals.end(), 0) == vals.end();
  const bool got = ntru_gen::is_poly_invertible<LG>(v.data());
  mc::states(1);
  mc::transitions(1);
  if (got != want)
    return what + (got ? ": reported invertible although f has a root" : ": reported not invertible although f has no root");
  if (want) {
    poly g(N);
    for (size_t i = 0; i < N; i++)
      g[i] = (int64_t)(mc::mix(vals[0] + i) % 4097) - 2048;
    std::vector<int32_t> gv(g.begin(), g.end());
    std::vector<ff::ff_t> h(N);
    keygen::compute_public_key<N>(v.data(), gv.data(), h.data());
    poly hp;
    for (auto& x : h)
      hp.push_back(x.v);
    const poly p = ref::mulq(f, hp);
    for (size_t i = 0; i < N; i++)
      if (h[i].v >= ref::Q || ref::modq(p[i]) != ref::modq(g[i]))
        return what + mc::fmt(": public key is not g/f (coefficient %zu)", i);
    mc::transitions(1);
  }
  mc::outcome(want ? "invertible, public key exact" : "not invertible");
  mc::traces(1);
  return "";
}
template<size_t LG>
static void
define()
{
  static constexpr size_t N = 1ul << LG;
  const std::string nm = mc::fmt("N=%zu: ", N);
  if constexpr (LG >= 9) {
  mc::add(nm + "f with a root at one place, value elsewhere 1..", N * 4, [](uint64_t i) -> std::string {
    std::vector<int64_t> v(N, 1);
    for (size_t j = 0; j < N; j++)
      v[j] = i / N == 0 ? 1 : i / N == 1 ? ref::Q - 1 : 1 + (int64_t)(mc::mix(i * N + j) % (ref::Q - 1));
    if (i / N != 3)
      v[i % N] = 0;
    return inv<LG>(v, mc::fmt("N=%zu root at %d, pattern %d", N, (int)(i % N), (int)(i / N)));
  }, 4);
  mc::add(nm + "f with roots at two places", mc::quick ? N : N * 16, [](uint64_t i) -> std::string {
    std::vector<int64_t> v(N, 1);
    for (size_t j = 0; j < N; j++)
      v[j] = 1 + (int64_t)(mc::mix(i * N + j + 7) % (ref::Q - 1));
    v[i % N] = 0;
    v[mc::mix(i) % N] = 0;
    return inv<LG>(v, mc::fmt("N=%zu roots at two places %d", N, (int)i));
  }, 4);
    mc::add(nm + "every residue as a value of f", mc::quick ? 1536 : ref::Q, [](uint64_t i) -> std::string {
      std::vector<int64_t> v(N, 3);
      v[i % N] = mc::quick ? i * 8 + i % 8 : i;
      return inv<LG>(v, mc::fmt("N=%zu value %d", N, (int)v[i % N]));
    }, 16);
  }
  mc::add(nm + "Gram-Schmidt norm of patterned pairs", mc::quick ? 200 : 2000, [](uint64_t i) -> std::string {
    cands::pair p;
    p.f.resize(N);
    p.g.resize(N);
    const int r = 1 + i % 30;
    for (size_t j = 0; j < N; j++) {
      p.f[j] = (int64_t)(mc::mix(i * 5000 + j) % (2 * r + 1)) - r;
      p.g[j] = i % 5 == 0 ? 0 : (int64_t)(mc::mix(i * 5001 + j + 99) % (2 * r + 1)) - r;
    }
    if (i % 7 == 0)
      std::fill(p.f.begin(), p.f.end(), 0);
    p.f[i % N] += 40 + i % 3;
    const auto a = (fs::ld)cands::norm2(p), b = cands::dual2(p);
    std::vector<int32_t> f(p.f.begin(), p.f.end()), g(p.g.begin(), p.g.end());
    const double got = ntru_gen::gram_schmidt_norm<LG>(f.data(), g.data());
    const auto want = std::max(a, b);
    mc::states(1);
    mc::transitions(1);
    mc::traces(1);
    mc::outcome(a > b ? "primal larger" : "dual larger");
    if (!(fabsl(got - want) <= want * 1e-9L))
      return mc::fmt("N=%zu pattern %d: Gram-Schmidt norm %.10g, exact value %.10Lg", N, (int)i, got, want);
    return "";
  }, 4);
}

int
main(int argc, char** argv)
{
  return mc::main(argc, argv, [] {
    define<2>();
    define<3>();
    define<4>();
    define<5>();
    define<6>();
    define<7>();
    define<8>();
    define<9>();
    define<10>();
  });
}
