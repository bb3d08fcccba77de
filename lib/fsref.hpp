// Reference for the sampler, the LDL* tree and fast Fourier sampling (Falcon specification,
// algorithms 8, 9, 11, 12-15), in long double and in an evaluation order of its own.
#pragma once
#include <cmath>
#include <complex>
#include <cstdint>
#include <memory>
#include <numbers>
#include <vector>

namespace fs {

using ld = long double;
using cx = std::complex<ld>;
using vec = std::vector<cx>;
using u128 = unsigned __int128;
constexpr ld PI = std::numbers::pi_v<ld>;

// v[j] = f(exp(i pi (2j+1)/n))
inline cx
root(size_t n, size_t j)
{
  const ld a = PI * (2 * j + 1) / n;
  return { cosl(a), sinl(a) };
}
inline const vec&
roots(size_t n)
{
  static vec t[12];
  int l = __builtin_ctzll(n);
  if (t[l].empty()) {
    vec r(n);
    for (size_t j = 0; j < n; j++)
      r[j] = root(n, j);
    t[l] = r;
  }
  return t[l];
}
inline void
split(const vec& f, vec& f0, vec& f1)
{
  const size_t n = f.size(), h = n / 2;
  const vec& w = roots(n);
  f0.resize(h);
  f1.resize(h);
  for (size_t j = 0; j < h; j++) {
    f0[j] = (f[j] + f[j + h]) / (ld)2;
    f1[j] = (f[j] - f[j + h]) * std::conj(w[j]) / (ld)2;
  }
}
inline vec
merge(const vec& f0, const vec& f1)
{
  const size_t h = f0.size(), n = 2 * h;
  const vec& w = roots(n);
  vec f(n);
  for (size_t j = 0; j < h; j++) {
    const cx t = w[j] * f1[j];
    f[j] = f0[j] + t;
    f[j + h] = f0[j] - t;
  }
  return f;
}
template<typename A>
vec
eval(const A& a, size_t n)
{
  if (n == 1)
    return { cx((ld)a[0], 0) };
  std::vector<ld> e(n / 2), o(n / 2);
  for (size_t i = 0; i < n / 2; i++) {
    e[i] = a[2 * i];
    o[i] = a[2 * i + 1];
  }
  return merge(eval(e, n / 2), eval(o, n / 2));
}
inline std::vector<ld>
coefs(const vec& v)
{
  const size_t n = v.size();
  if (n == 1)
    return { v[0].real() };
  vec a, b;
  split(v, a, b);
  const auto e = coefs(a), o = coefs(b);
  std::vector<ld> r(n);
  for (size_t i = 0; i < n / 2; i++) {
    r[2 * i] = e[i];
    r[2 * i + 1] = o[i];
  }
  return r;
}
inline cx
mul(cx a, cx b)
{
  return { a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real() };
}

// --- tree --------------------------------------------------------------------------------------
struct tree
{
  vec l10;                            // size n
  std::unique_ptr<tree> left, right;  // n > 2
  ld leaf[2]{};                       // n == 2: sigma / sqrt(d00), sigma / sqrt(d11)
  ld raw[2]{};
};
inline std::unique_ptr<tree>
ffldl(const vec& g00, const vec& g10, const vec& g11, ld sigma)
{
  const size_t n = g00.size();
  auto t = std::make_unique<tree>();
  t->l10.resize(n);
  vec d11(n);
  for (size_t j = 0; j < n; j++) {
    t->l10[j] = g10[j] / g00[j].real(); // g00 is self-adjoint, so real at every root
    d11[j] = g11[j].real() - std::norm(t->l10[j]) * g00[j].real();
  }
  if (n == 2) {
    t->raw[0] = (g00[0].real() + g00[1].real()) / 2;
    t->raw[1] = (d11[0].real() + d11[1].real()) / 2;
    t->leaf[0] = sigma / sqrtl(t->raw[0]);
    t->leaf[1] = sigma / sqrtl(t->raw[1]);
    return t;
  }
  const vec* d[2] = { &g00, &d11 };
  for (int k = 0; k < 2; k++) {
    vec e, o, oa;
    split(*d[k], e, o);
    for (auto& x : o)
      oa.push_back(std::conj(x));
    (k ? t->right : t->left) = ffldl(e, oa, e, sigma);
  }
  return t;
}

// --- sampler -----------------------------------------------------------------------------------
inline u128
dec(const char* s)
{
  u128 r = 0;
  for (; *s; s++)
    r = r * 10 + (*s - '0');
  return r;
}
inline const u128*
rcdt()
{
  static const u128 t[18] = { dec("3024686241123004913666"), dec("1564742784480091954050"), dec("636254429462080897535"),
                              dec("199560484645026482916"),  dec("47667343854657281903"),   dec("8595902006365044063"),
                              dec("1163297957344668388"),    dec("117656387352093658"),     dec("8867391802663976"),
                              dec("496969357462633"),        dec("20680885154299"),         dec("638331848991"),
                              dec("14602316184"),            dec("247426747"),              dec("3104126"),
                              dec("28824"),                  dec("198"),                    dec("1") };
  return t;
}
inline int
base(u128 u)
{
  int z = 0;
  for (int i = 0; i < 18; i++)
    z += u < rcdt()[i];
  return z;
}
constexpr ld LN2 = 0.693147180559945309417232121458176568L;
constexpr ld SIGMA_MAX = 1.8205L;

struct source
{
  const uint8_t* p = nullptr;
  size_t n = 0, pos = 0;
  bool over = false;
  uint8_t next()
  {
    if (pos >= n) {
      over = true;
      pos++;
      return 0x5a;
    }
    return p[pos++];
  }
};

// 64-bit acceptance threshold, as an interval that contains every correct rounding of the
// specified approximation: accept iff the 64 random bits, read as a big-endian number, are below it
struct interval
{
  u128 lo, hi;
};
inline interval
threshold(ld x, ld ccs)
{
  if (x < 0)
    x = 0;
  const ld p = ccs * expl(-x) * 18446744073709551616.0L;
  const ld tol = p * 0x1p-44L + 4;
  const ld lo = p - tol < 0 ? 0 : p - tol;
  ld hi = p + tol;
  if (hi > 18446744073709551615.0L)
    hi = 18446744073709551615.0L;
  return { (u128)lo, (u128)hi };
}

struct sampled
{
  int64_t z = 0;
  bool ambiguous = false;
  int attempts = 0;
  int z0 = 0;
};
// mu_slack: how far the implementation's centre may legitimately be from ours
inline sampled
samplerz(ld mu, ld sigma, ld sigma_min, source& s, ld mu_slack = 0)
{
  sampled r;
  const ld fl = floorl(mu), d = mu - fl;
  if (mu_slack > 0 && (d < mu_slack || d > 1 - mu_slack))
    r.ambiguous = true;
  const ld ccs = sigma_min / sigma;
  for (;;) {
    r.attempts++;
    u128 u = 0;
    for (int i = 0; i < 9; i++)
      u |= (u128)s.next() << (8 * i);
    const int z0 = base(u);
    const int b = s.next() & 1;
    const int z = b + (2 * b - 1) * z0;
    const ld x = (z - d) * (z - d) / (2 * sigma * sigma) - (ld)(z0 * z0) / (2 * SIGMA_MAX * SIGMA_MAX);
    interval t = threshold(x, ccs);
    if (mu_slack > 0) { // a slightly different centre moves x by at most |z-d|*slack/sigma^2
      const ld w = fabsl(z - d) * mu_slack + mu_slack;
      t.lo = threshold(x + w, ccs).lo;
      t.hi = threshold(x - w, ccs).hi;
    }
    const uint64_t lo = (uint64_t)t.lo, hi = (uint64_t)t.hi, mid = lo + (hi - lo) / 2;
    bool acc = false;
    uint64_t pre = 0;
    for (int i = 56; i >= 0; i -= 8) {
      const uint64_t v = s.next();
      pre = pre << 8 | v;
      const uint64_t pl = lo >> i, ph = hi >> i, pm = mid >> i;
      if (pl != ph && pre >= pl && pre <= ph)
        r.ambiguous = true;
      if (pre != pm) {
        acc = pre < pm;
        break;
      }
      if (s.over)
        break;
    }
    if (acc || s.over) {
      r.z = z + (int64_t)fl;
      r.z0 = z0;
      return r;
    }
  }
}

// --- fast Fourier sampling -----------------------------------------------------------------------
struct ctx
{
  source* s;
  ld sigma_min;
  ld slack;
  bool ambiguous = false;
  std::vector<size_t> offs;  // byte offset of every sampler call
  std::vector<ld> mus, sigmas;
  std::vector<int64_t> zs;
  bool record = true;
};
inline void
leaf(ctx& c, ld t0, ld t1, ld sigma, vec& z0, vec& z1)
{
  ld t[2] = { t0, t1 };
  vec* z[2] = { &z0, &z1 };
  for (int k = 0; k < 2; k++) {
    if (c.record) {
      c.offs.push_back(c.s->pos);
      c.mus.push_back(t[k]);
      c.sigmas.push_back(sigma);
    }
    const sampled r = samplerz(t[k], sigma, c.sigma_min, *c.s, c.slack);
    c.ambiguous |= r.ambiguous;
    if (c.record)
      c.zs.push_back(r.z);
    *z[k] = { cx((ld)r.z, 0) };
  }
}
inline void
ffsampling(ctx& c, const vec& t0, const vec& t1, const tree& T, vec& z0, vec& z1)
{
  const size_t n = t0.size();
  if (c.s->over) {
    z0.assign(n, 0);
    z1.assign(n, 0);
    return;
  }
  vec a, b, za, zb;
  split(t1, a, b);
  if (n == 2)
    leaf(c, a[0].real(), b[0].real(), T.leaf[1], za, zb);
  else
    ffsampling(c, a, b, *T.right, za, zb);
  z1 = merge(za, zb);
  vec t(n);
  for (size_t j = 0; j < n; j++)
    t[j] = t0[j] + mul(t1[j] - z1[j], T.l10[j]);
  split(t, a, b);
  if (n == 2)
    leaf(c, a[0].real(), b[0].real(), T.leaf[0], za, zb);
  else
    ffsampling(c, a, b, *T.left, za, zb);
  z0 = merge(za, zb);
}

} // namespace fs
