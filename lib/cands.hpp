// Candidate pairs (f, g) of key generation with chosen properties, as seeds of a generator; which
// seed has which property was found by tools/gen_cands.cpp and is checked by the reference on use.
#pragma once
#include "fsref.hpp"
#include "ref.hpp"
#include <cmath>

namespace cands {

using ref::poly;

inline uint64_t
mix(uint64_t x)
{
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
// coefficients like a normal distribution, squared norm exactly `norm`; v[0] = fixed unless 0
inline poly
gauss(size_t n, uint64_t seed, int64_t norm, int64_t fixed)
{
  poly v(n);
  const double s = std::sqrt((double)(norm - fixed * fixed) / n);
  for (size_t i = 0; i < n; i++) {
    double t = -6;
    for (int k = 0; k < 12; k++)
      t += (double)(mix(seed * 1000003 + i * 12 + k) >> 40) / 16777216.;
    v[i] = (int64_t)std::floor(t * s + 0.5);
  }
  if (fixed)
    v[0] = fixed;
  int64_t have = 0;
  for (auto x : v)
    have += x * x;
  for (uint64_t k = 0; have != norm; k++) {
    const size_t i = 1 + mix(seed * 77 + k) % (n - 1);
    const int64_t up = v[i] >= 0 ? 1 : -1, d = norm - have;
    if (d > 0 && 2 * std::llabs(v[i]) + 1 <= d) {
      have += 2 * std::llabs(v[i]) + 1;
      v[i] += up;
    } else if (d < 0 && v[i] != 0) {
      have -= 2 * std::llabs(v[i]) - 1;
      v[i] -= up;
    }
  }
  return v;
}
enum kind_t
{
  GOOD,
  GOOD_EDGE,     // squared norm 16822, the largest allowed
  NORM,          // squared norm 16823, everything else fine
  DUAL,          // the other half of the basis slightly too long, everything else fine
  GOOD_DUAL,     // slightly below the limit
  NONINV,        // f has a root mod q, everything else fine
  GOOD_G_NONINV, // g has a root: fine
  EVEN,          // both norms even: no solution
  ODD,           // another common factor
  F32,           // coefficient of f just above the encodable range, everything else fine
  G32,           // the same for g
  GOOD_F31,      // largest encodable coefficient
  GOOD_G31,
  BIGF,     // |F| = 128, everything else fine
  BIGF2,    // |F| > 128
  NORM_FAR, // far too long
  GOOD_BIGG, // |G| > 127: fine, G is not stored
  NKINDS
};
struct cand
{
  int kind;
  uint64_t seed;
  int64_t A, B, fv, gv;
};
struct pair
{
  poly f, g;
};
inline pair
make(size_t n, const cand& c)
{
  return { gauss(n, 2 * c.seed, c.A, c.fv), gauss(n, 2 * c.seed + 1, c.B, c.gv) };
}
// symmetries: x -> x^k (k odd) and multiplication with x^j preserve all the properties above
inline poly
image(const poly& a, size_t k, size_t j)
{
  const size_t n = a.size();
  poly r(n);
  for (size_t i = 0; i < n; i++) {
    const size_t e = (i * k + j) % (2 * n);
    r[e % n] += e >= n ? -a[i] : a[i];
  }
  return r;
}
inline pair
image(const pair& p, size_t k, size_t j)
{
  return { image(p.f, k, j), image(p.g, k, j) };
}
inline int64_t
norm2(const pair& p)
{
  int64_t s = 0;
  for (auto x : p.f)
    s += x * x;
  for (auto x : p.g)
    s += x * x;
  return s;
}
inline fs::ld
dual2(const pair& p)
{
  const size_t n = p.f.size();
  const auto a = fs::eval(p.f, n), b = fs::eval(p.g, n);
  fs::ld s = 0;
  for (size_t j = 0; j < n; j++)
    s += 1 / (std::norm(a[j]) + std::norm(b[j]));
  return s / n * (fs::ld)ref::Q * ref::Q;
}
constexpr fs::ld LIMIT = 1.17L * 1.17L * 12289;

} // namespace cands
