// Directed signing: the explorer decides which lattice point the signer's sampler produces at each
// attempt, by choosing the hash value (environment answer of the XOF) and the random bytes
// (environment answers of the generator) that lead there.
#pragma once
#include "flat.hpp"
#include "fsref.hpp"
#include "keys.hpp"
#include <map>

namespace directed {

using fs::cx;
using fs::ld;
using fs::vec;
using ref::poly;

template<size_t N>
struct prepared
{
  const keys::key<N>* k;
  std::unique_ptr<fs::tree> t;
  vec b[4]; // g, -f, G, -F
};
template<size_t N>
const prepared<N>&
prep(int i)
{
  static std::map<int, prepared<N>> m;
  auto it = m.find(i);
  if (it != m.end())
    return it->second;
  prepared<N> p;
  p.k = &keys::get<N>(i);
  const poly* src[4] = { &p.k->g, &p.k->f, &p.k->G, &p.k->F };
  for (int a = 0; a < 4; a++) {
    p.b[a] = fs::eval(*src[a], N);
    if (a & 1)
      for (auto& x : p.b[a])
        x = -x;
  }
  vec g00(N), g10(N), g11(N);
  for (size_t j = 0; j < N; j++) {
    g00[j] = std::norm(p.b[0][j]) + std::norm(p.b[1][j]);
    g10[j] = fs::mul(p.b[2][j], std::conj(p.b[0][j])) + fs::mul(p.b[3][j], std::conj(p.b[1][j]));
    g11[j] = std::norm(p.b[2][j]) + std::norm(p.b[3][j]);
  }
  p.t = fs::ffldl(g00, g10, g11, ref::params<N>::sigma);
  return m[i] = std::move(p);
}

struct attempt
{
  uint8_t base[9];
  uint8_t sign;
  uint8_t ties = 8; // Bernoulli bytes needed to accept with zeros
};
// how many zero bytes decide a Bernoulli trial of this 64-bit threshold
inline uint8_t
ties_for(ld x, ld ccs)
{
  const uint64_t t = (uint64_t)fs::threshold(x, ccs).hi;
  return t ? 1 + __builtin_clzll(t) / 8 : 8;
}
using script = std::vector<attempt>;

// which sampler answer gives integer z at centre mu; false if it cannot be (practically) produced
inline bool
plan(ld mu, ld sigma, ld smin, int64_t z, script& out)
{
  const ld fl = floorl(mu), d = mu - fl;
  const int64_t k = z - (int64_t)fl;
  const int b = k >= 1;
  const int64_t z0 = b ? k - 1 : -k;
  if (z0 > 18)
    return false;
  const ld x = (k - d) * (k - d) / (2 * sigma * sigma) - (ld)(z0 * z0) / (2 * fs::SIGMA_MAX * fs::SIGMA_MAX);
  if (smin / sigma * expl(-x) < 0x1p-50L)
    return false;
  if (d < 1e-9L || d > 1 - 1e-9L)
    return false; // the signer may round the other way
  attempt a;
  const fs::u128 u = z0 < 18 ? fs::rcdt()[z0] + (z0 == 0 ? 12345 : 0) : 0;
  for (int i = 0; i < 9; i++)
    a.base[i] = (uint8_t)(u >> (8 * i));
  a.sign = (uint8_t)(b | 0xa4);
  a.ties = ties_for(x, smin / sigma);
  out.push_back(a);
  return true;
}
inline bool
plan_rec(const vec& t0, const vec& t1, const std::vector<int64_t>& z0, const std::vector<int64_t>& z1, const fs::tree& T, ld smin, script& out)
{
  const size_t n = t0.size(), h = n / 2;
  auto halves = [&](const std::vector<int64_t>& z, std::vector<int64_t>& e, std::vector<int64_t>& o) {
    e.resize(h);
    o.resize(h);
    for (size_t i = 0; i < h; i++) {
      e[i] = z[2 * i];
      o[i] = z[2 * i + 1];
    }
  };
  vec a, b;
  std::vector<int64_t> e, o;
  fs::split(t1, a, b);
  halves(z1, e, o);
  if (n == 2) {
    if (!plan(a[0].real(), T.leaf[1], smin, e[0], out) || !plan(b[0].real(), T.leaf[1], smin, o[0], out))
      return false;
  } else if (!plan_rec(a, b, e, o, *T.right, smin, out))
    return false;
  const vec zz = fs::eval(z1, n);
  vec t(n);
  for (size_t j = 0; j < n; j++)
    t[j] = t0[j] + fs::mul(t1[j] - zz[j], T.l10[j]);
  fs::split(t, a, b);
  halves(z0, e, o);
  if (n == 2)
    return plan(a[0].real(), T.leaf[0], smin, e[0], out) && plan(b[0].real(), T.leaf[0], smin, o[0], out);
  return plan_rec(a, b, e, o, *T.left, smin, out);
}
// script of one signing attempt that ends in (s1, s2), given hash value c = s1 + s2 h mod q
template<size_t N>
bool
plan_attempt(const prepared<N>& p, const poly& c, const poly& s1, const poly& s2, script& out)
{
  const auto& k = *p.k;
  poly d(N);
  for (size_t i = 0; i < N; i++)
    d[i] = s1[i] - c[i];
  poly z0 = ref::mulz(d, k.F), z1 = ref::mulz(d, k.f);
  const poly x0 = ref::mulz(s2, k.G), x1 = ref::mulz(s2, k.g);
  for (size_t i = 0; i < N; i++) {
    z0[i] += x0[i];
    z1[i] = -z1[i] - x1[i];
    if (z0[i] % ref::Q || z1[i] % ref::Q)
      return false; // not in the coset
    z0[i] /= ref::Q;
    z1[i] /= ref::Q;
  }
  const vec ce = fs::eval(c, N);
  vec t0(N), t1(N);
  for (size_t j = 0; j < N; j++) {
    t0[j] = fs::mul(ce[j], p.b[3][j]) / (ld)ref::Q;
    t1[j] = -fs::mul(ce[j], p.b[1][j]) / (ld)ref::Q;
  }
  return plan_rec(t0, t1, z0, z1, *p.t, ref::params<N>::sigma_min, out);
}

// salt, then the scripted sampler answers, then pseudo random bytes.  The script is a byte string:
// who reads how many bytes at a time does not matter.  A read of 9 or 10 bytes, which only the
// beginning of an attempt asks for, brings script and sampler back in step should they have parted.
struct scripted_rng : env::rng_source
{
  std::vector<uint8_t> salt;
  script s;
  size_t head = 0, rounds = 1; // the first `head` entries are served `rounds` times
  size_t at = 0;      // attempts begun
  size_t in_salt = 0; // salt bytes served
  size_t pos = 0;     // byte position within the attempt
  env::sponge tail;
  bool keep = true;
  std::vector<uint8_t> log;
  explicit scripted_rng(uint64_t seed = 0)
  {
    tail.absorb(reinterpret_cast<const uint8_t*>(&seed), 8);
    tail.finalize();
  }
  size_t total() const { return s.size() + head * (rounds - 1); }
  const attempt& get(size_t i) const { return i < head * rounds ? s[i % head] : s[i - head * (rounds - 1)]; }
  bool exhausted() const { return at > total(); }
  // every scripted byte has been served
  bool finished() const
  {
    return in_salt >= salt.size() && (s.empty() || at > total() || (at == total() && pos >= 10u + s.back().ties));
  }
  bool read(uint8_t* o, size_t n, env::sponge&) override
  {
    size_t i = 0;
    while (i < n && in_salt < salt.size())
      o[i++] = salt[in_salt++];
    if (i == 0 && (n == 9 || n == 10) && at && at <= total() && pos) {
      at += pos >= 10;
      pos = 0;
    }
    for (; i < n; i++, pos++) {
      if (at == 0 || (at <= total() && pos >= 10u + get(at - 1).ties)) {
        at++;
        pos = 0;
      }
      if (at > total())
        tail.squeeze(o + i, 1);
      else
        o[i] = pos < 9 ? get(at - 1).base[pos] : pos == 9 ? get(at - 1).sign : 0;
    }
    if (keep)
      log.insert(log.end(), o, o + n);
    return true;
  }
};

} // namespace directed
