// Lattice points to which a directed signing attempt is driven.
#pragma once
#include "directed.hpp"
#include "falcon.hpp"
#include "mc.hpp"

using directed::script;
using directed::scripted_rng;
using ref::poly;
template<size_t N>
using P = ref::params<N>;
template<size_t N>
constexpr int64_t CAP = 8 * ((int64_t)P<N>::siglen - 41);

template<size_t N>
struct expanded
{
  std::vector<fft::cmplx> B, T;
};
template<size_t N>
const expanded<N>&
expand(int i)
{
  static std::map<int, expanded<N>> m;
  auto it = m.find(i);
  if (it != m.end())
    return it->second;
  expanded<N> e;
  const auto& k = keys::get<N>(i);
  std::vector<int32_t> v[4];
  const poly* p[4] = { &k.f, &k.g, &k.F, &k.G };
  for (int a = 0; a < 4; a++)
    v[a].assign(p[a]->begin(), p[a]->end());
  e.B.resize(4 * N);
  e.T.resize(N * (P<N>::lg + 1));
  falcon::compute_matrix_B<N>(v[0].data(), v[1].data(), v[2].data(), v[3].data(), e.B.data());
  falcon::compute_falcon_tree<N>(e.B.data(), e.T.data());
  return m[i] = e;
}

struct target
{
  poly s1, s2;
  std::string name;
};
static int64_t
norm(const target& t)
{
  int64_t r = 0;
  for (auto x : t.s1)
    r += x * x;
  for (auto x : t.s2)
    r += x * x;
  return r;
}
// completes s1 so that the norm is exactly n2; starts from coefficients of normal size
static bool
set_norm(target& t, int64_t n2, uint64_t seed)
{
  const size_t n = t.s2.size();
  t.s1.assign(n, 0);
  int64_t left = n2 - norm(t);
  if (left < 0)
    return false;
  const int64_t a = (int64_t)sqrtl((long double)left / n);
  for (size_t i = 0; i < n && left > 0; i++) {
    int64_t v = i + 6 < n ? a - 3 + (int64_t)(mc::mix(seed + i) % 5) : (int64_t)sqrtl((long double)left);
    while (v > 0 && v * v > left)
      v--;
    if (v < 0)
      v = 0;
    t.s1[i] = mc::mix(seed * 3 + i) & 1 ? v : -v;
    left -= v * v;
  }
  return left == 0;
}

// --- targets ------------------------------------------------------------------------------------
template<size_t N>
int64_t
bits(const poly& s2)
{
  return (int64_t)ref::compressed_bits(s2.data(), N);
}
// s2 with exactly cap+extra compressed bits
template<size_t N>
target
with_bits(int64_t extra, uint64_t seed, int64_t n2)
{
  target t;
  t.s2.assign(N, 0);
  t.s1.assign(N, 0);
  int64_t need = CAP<N> + extra - 9 * (int64_t)N; // unary zeros
  for (size_t i = 0; i < N; i++) {
    const size_t j = (i * 181 + seed) % N;
    int64_t m = (int64_t)(mc::mix(seed + j) % 12) + 116; // just below and just above the next unary bit
    if (need > 0) {
      const int64_t u = (mc::mix(seed * 5 + j) % 40 == 0) ? std::min<int64_t>(need, 2) : 1;
      m = 128 * u + (mc::mix(seed * 11 + j) % 4 ? 30 + (int64_t)(mc::mix(seed + 9 * j) % 40) : (int64_t)(mc::mix(seed + 9 * j) % 12));
      need -= u;
    }
    t.s2[j] = mc::mix(seed * 7 + j) & 1 ? -m : m;
  }
  t.name = extra <= 0 ? mc::fmt("compressed form %lld bits below the limit", (long long)-extra) : mc::fmt("compressed form %lld bits too long", (long long)extra);
  if (!set_norm(t, n2, seed))
    t.s1.clear();
  return t;
}
template<size_t N>
target
plain(uint64_t seed, int64_t n2)
{
  target t;
  t.s1.assign(N, 0);
  t.s2.assign(N, 0);
  for (size_t i = 0; i < N; i++)
    t.s2[i] = (int64_t)(mc::mix(seed * 9 + i) % 241) - 120;
  t.name = mc::fmt("norm bound%+lld", (long long)(n2 - P<N>::beta2));
  if (!set_norm(t, n2, seed))
    t.s1.clear();
  return t;
}
// another point of the same coset with the wanted property
template<size_t N>
bool
shifted(int key, const target& base, target& out, uint64_t seed, int terms, const std::function<bool(const target&)>& want)
{
  const auto& k = keys::get<N>(key);
  for (uint64_t tr = 0; tr < 120; tr++) {
    out = base;
    // a combination of `terms` lattice vectors (g, -f) x^j with factors +-1..+-3, one (G, -F) x^j
    const int n = terms + (int)(tr * terms / 40);
    for (int q = 0; q < n; q++) {
      const uint64_t h = mc::mix(seed * 100000 + tr * 1000 + q);
      const size_t j = h % N;
      const int64_t m = (h & (1 << 20) ? 1 : -1) * (terms > 8 ? 1 + (int64_t)((h >> 24) % 3) : 1);
      const bool big = q == 0 && (seed & 1);
      for (size_t i = 0; i < N; i++) {
        const size_t d = (i + j) % N;
        const int64_t w = i + j >= N ? -m : m;
        out.s1[d] += w * (big ? k.G[i] : k.g[i]);
        out.s2[d] -= w * (big ? k.F[i] : k.f[i]);
      }
    }
    if (want(out))
      return true;
  }
  return false;
}

// a point of ok's coset that the signer must reject, of one of five kinds
constexpr int KINDS = 5;
template<size_t N>
bool
rejected(int kind, int key, const target& ok, uint64_t seed, target& bad)
{
  constexpr int64_t B = P<N>::beta2;
  bool have = false;
  auto n = [](const target& t) { return norm(t); };
  switch (kind) {
    case 0: // norm slightly too large
      have = shifted<N>(key, ok, bad, seed, 40, [&](const target& t) { return n(t) > B && n(t) < B + B / 8; });
      bad.name = "norm slightly too large";
      break;
    case 1: // norm far too large
      have = shifted<N>(key, ok, bad, seed, 160, [&](const target& t) { return n(t) > B + B / 8; });
      bad.name = "norm far too large";
      break;
    case 2: // fits the norm, too long by a few bits
      have = shifted<N>(key, ok, bad, seed, 1, [&](const target& t) { return n(t) <= B && bits<N>(t.s2) > CAP<N> && bits<N>(t.s2) <= CAP<N> + 8; });
      bad.name = "too long by at most 8 bits";
      break;
    case 3: // fits the norm, much too long
      have = shifted<N>(key, ok, bad, seed, 3, [&](const target& t) { return n(t) <= B && bits<N>(t.s2) > CAP<N> + 8; });
      bad.name = "too long by more than 8 bits";
      break;
    case 4: // both
      have = shifted<N>(key, ok, bad, seed, 90, [&](const target& t) { return n(t) > B && bits<N>(t.s2) > CAP<N>; });
      bad.name = "norm too large and too long";
      break;
  }
  return have;
}
