// Verification verdicts.  The hash c is an environment answer (the XOF stream), so the explorer can
// put (s1, s2) exactly on, just inside and just outside of the acceptance region, anywhere.
#include "falcon.hpp"
#include "keys.hpp"
#include "mc.hpp"
#include "ref.hpp"
#include <sys/mman.h>

using ref::poly;
template<size_t N>
using P = ref::params<N>;

struct fixed_c : env::xof_source
{
  const poly* c = nullptr;
  size_t absorbed = 0;
  bool absorb(const uint8_t*, size_t n) override
  {
    absorbed += n;
    return true;
  }
  bool read(uint8_t* out, size_t n, size_t off) override
  {
    for (size_t i = 0; i < n; i++) {
      const size_t k = (off + i) / 2;
      const unsigned w = k < c->size() ? (unsigned)(*c)[k] : 0;
      out[i] = (off + i) % 2 ? w & 255 : w >> 8;
    }
    return true;
  }
};

static bool
sparse(const poly& a)
{
  size_t n = 0;
  for (auto v : a)
    n += v != 0;
  return n <= 24;
}
static poly
mulq_any(const poly& a, const poly& b)
{
  if (!sparse(a) && !sparse(b))
    return ref::mulq(a, b);
  const poly &s = sparse(a) ? a : b, &d = sparse(a) ? b : a;
  const size_t n = a.size();
  poly r(n, 0);
  for (size_t i = 0; i < n; i++) {
    const int64_t x = ref::modq(s[i]);
    if (x)
      for (size_t j = 0; j < n; j++)
        if (const int64_t y = d[j])
          r[(i + j) % n] += (i + j >= n ? ref::Q - x : x) * ref::modq(y) % ref::Q;
  }
  for (auto& v : r)
    v %= ref::Q;
  return r;
}
static int64_t
norm(const poly& s1, const poly& s2)
{
  int64_t r = 0;
  for (auto v : s1)
    r += v * v;
  for (auto v : s2)
    r += v * v;
  return r;
}

enum { BYTES = 1, DIRECT = 2 };

// verdict of the real code for (h, s1, s2), the hash being s1 + s2*h
template<size_t N>
std::string
triple(const poly& h, const poly& s1, const poly& s2, const std::string& what, int api = BYTES | DIRECT)
{
  poly c = mulq_any(s2, h);
  for (size_t i = 0; i < N; i++)
    c[i] = ref::modq(c[i] + s1[i]);
  uint8_t salt[40];
  for (int i = 0; i < 40; i++)
    salt[i] = 17 * i;
  bool fits;
  std::vector<uint8_t> sig = ref::make_sig<N>(salt, s2, &fits);
  if (!fits)
    return "";
  const int64_t n2 = norm(s1, s2);
  const bool want = n2 <= P<N>::beta2;
  fixed_c x;
  x.c = &c;
  const uint8_t msg[3] = { 1, 2, 3 };
  env::xof = &x;
  std::string r;
  if (api & BYTES) {
    const auto pk = ref::encode_pk<N>(h);
    const bool got = falcon::verify<N>(pk.data(), msg, 3, sig.data());
    mc::transitions(1);
    if (got != want)
      r = what + mc::fmt(": squared norm %lld %s bound %lld, verification returned %d", (long long)n2, want ? "within" : "above", (long long)P<N>::beta2, got);
  }
  if (api & DIRECT) {
    ff::ff_t hh[N];
    for (size_t i = 0; i < N; i++)
      hh[i].v = (uint16_t)h[i];
    const bool got = verification::verify<N, (int32_t)P<N>::beta2>(hh, msg, 3, sig.data());
    mc::transitions(1);
    if (got != want && r.empty())
      r = what + mc::fmt(": squared norm %lld, bound %lld, verification::verify returned %d", (long long)n2, (long long)P<N>::beta2, got);
  }
  env::xof = nullptr;
  mc::traces(1);
  const int64_t d = n2 - P<N>::beta2;
  mc::outcome(mc::fmt("N=%zu norm %s", N, d < -3 ? "well inside: accept" : d <= 0 ? "on the boundary: accept" : d <= 3 ? "just outside: reject" : n2 < (1ll << 31) ? "outside: reject" : n2 < (1ll << 32) ? "2^31..2^32: reject" : "above 2^32: reject"));
  return r;
}

// fills v (zero at `free` slots) so that the squares of all of (v,w) sum to target; false if impossible
static bool
complete(poly& v, int64_t have, int64_t target, size_t at, int64_t cap = 6144)
{
  int64_t left = target - have;
  const size_t n = v.size();
  for (size_t k = 0; left > 0 && k < n; k++) {
    const size_t i = (at + k) % n;
    if (v[i])
      continue;
    int64_t a = (int64_t)sqrtl((long double)left);
    while (a * a > left)
      a--;
    a = std::min(a, cap);
    v[i] = k % 2 ? a : -a;
    left -= a * a;
  }
  return left == 0;
}

template<size_t N>
void
define_n()
{
  const std::string nm = mc::fmt("N=%zu: ", N);
  constexpr int64_t B = P<N>::beta2;
  // 1: the boundary, mass of one coefficient of s1 or s2 at every position
  mc::add(nm + "norm bound+d, d in [-3,3], large coefficient at every position", N, [](uint64_t pos) -> std::string {
    for (int d = -3; d <= 3; d++)
      for (int where = 0; where < 4; where++)
        for (int64_t big : { 0l, 5830l, 4095l, 180l }) {
          poly s1(N, 0), s2(N, 0), h(N, 0);
          (where & 1 ? s2 : s1)[pos] = where & 2 ? -big : big;
          if (!complete(s1, big * big, B + d, pos + 1))
            return "internal: cannot reach the norm";
          if (auto r = triple<N>(h, s1, s2, mc::fmt("d=%d, |s%d[%d]|=%d", d, 1 + (where & 1), (int)pos, (int)big), d & 1 ? BYTES : DIRECT); !r.empty())
            return r;
        }
    mc::states(7 * 16);
    return "";
  });
  mc::add(nm + "norm bound+d, mass spread over s1 and s2", 7 * 64, [](uint64_t i) -> std::string {
    const int d = (int)(i % 7) - 3;
    const uint64_t pat = i / 7;
    poly s1(N, 0), s2(N, 0), h(N, 0);
    // spread: amplitude a on every (1 + pat%8)-th coefficient
    const size_t step = 1 + pat % 8;
    const int64_t a2 = 40 + 11 * (int64_t)(pat / 8);
    int64_t have = 0;
    for (size_t k = 0; k < N; k += step) {
      s2[k] = (k / step) % 3 == 1 ? -a2 : a2;
      have += a2 * a2;
    }
    for (size_t k = 0; k < N; k += 2) {
      const int64_t a = 100 + (int64_t)((k * 7 + pat) % 90);
      if (have + a * a > B - 10000)
        break;
      s1[k] = k % 4 ? -a : a;
      have += a * a;
    }
    for (size_t k = 0; k < N; k++)
      h[k] = mc::mix(k * 77 + pat) % ref::Q;
    if (!complete(s1, have, B + d, 1))
      return "internal: cannot reach the norm";
    mc::states(1);
    return triple<N>(h, s1, s2, mc::fmt("spread pattern %d, d=%d", (int)pat, d));
  });
  // how the norm is divided between s1 and s2, down to all of it in one of them
  mc::add(nm + "norm bound+d, every division of it between s1 and s2 near the ends and at powers of two", 3 * (2 * 300 + 60), [](uint64_t id) -> std::string {
    const int d = (int)(id % 3) - 1;
    const int64_t k = id / 3;
    int64_t e; // share of s2
    if (k < 300)
      e = k;
    else if (k < 600)
      e = B + d - (k - 300);
    else {
      const int64_t t = (k - 600) / 3, o = (k - 600) % 3 - 1;
      e = t < 4 ? B / 2 + (t - 2) * 3 + o : (B >> (t - 3)) + o;
    }
    for (size_t at : { size_t(0), N / 2 - 1, N - 1, (size_t)(k * 29 % N) }) {
      poly s1(N, 0), s2(N, 0), h(N, 0);
      if (!complete(s2, 0, e, at, 8382) || !complete(s1, 0, B + d - e, N - 1 - at))
        return "internal: cannot reach the norm";
      h[at] = 1 + (k * 7 + at) % 12288;
      h[(at + 3) % N] = k % 12289;
      if (auto r = triple<N>(h, s1, s2, mc::fmt("norm of s2 = %lld, of s1 = %lld (d=%d)", (long long)e, (long long)(B + d - e), d)); !r.empty())
        return r;
      mc::states(1);
    }
    return "";
  }, 4);
  // 2a: all constants h
  mc::add(nm + "every value of a coefficient of h, on and just above the bound", ref::Q, [](uint64_t v) -> std::string {
    const size_t hp = v % N;
    for (int d = 0; d <= 1; d++)
      for (int s : { 1, -1, 2, -97 }) {
        poly s1(N, 0), s2(N, 0), h(N, 0);
        h[hp] = v;
        const size_t i = (v * 5 + 3) % N;
        s2[i] = s;
        s2[(i + N / 2) % N] = -s;
        complete(s1, 2 * s * s, B + d, (i + hp) % N);
        if (auto r = triple<N>(h, s1, s2, mc::fmt("h=%d x^%d, s2=%d x^%d, d=%d", (int)v, (int)hp, s, (int)i, d), s > 1 ? DIRECT : BYTES); !r.empty())
          return r;
      }
    mc::states(8);
    return "";
  }, 8);
  // 2b: all monomial pairs
  mc::add(nm + "every pair (s2 = +-x^i, h = x^j), on and just above the bound", N, [](uint64_t i) -> std::string {
    const size_t step = mc::quick ? (N == 512 ? 1 : 4) : 1;
    for (size_t j = i % step; j < N; j += step)
      for (int d = 0; d <= 1; d++) {
        poly s1(N, 0), s2(N, 0), h(N, 0);
        s2[i] = (i + j) & 2 ? 1 : -1;
        h[j] = (j & 1) ? 1 : 5000;
        complete(s1, 1, B + d, (i + j) % N);
        if (auto r = triple<N>(h, s1, s2, mc::fmt("i=%d j=%d d=%d", (int)i, (int)j, d), DIRECT); !r.empty())
          return r;
        mc::states(1);
      }
    return "";
  });
  // 2c: all decodable values of one s2 coefficient
  {
    constexpr int64_t MAXM = (8 * ((int64_t)P<N>::siglen - 41) - 9 * (int64_t)N) * 128 + 127;
    mc::add(nm + "every decodable value of one coefficient of s2", MAXM + 1, [](uint64_t m) -> std::string {
      for (int sgn = 0; sgn < 2; sgn++) {
        if (m == 0 && sgn)
          continue;
        for (int d = 0; d < (m * m <= (uint64_t)B ? 2 : 1); d++) {
          poly s1(N, 0), s2(N, 0), h(N, 0);
          const size_t i = (m * 13) % N;
          s2[i] = sgn ? -(int64_t)m : m;
          h[(m * 7) % N] = 1 + m % 12288;
          h[(m * 3 + 1) % N] = 12288;
          if (m * m <= (uint64_t)B)
            complete(s1, m * m, B + d, i);
          if (auto r = triple<N>(h, s1, s2, mc::fmt("s2[%d]=%d d=%d", (int)i, (int)s2[i], d), m % 2 ? DIRECT : BYTES); !r.empty())
            return r;
          mc::states(1);
        }
      }
      return "";
    }, 64);
  }
  // 2d: every residue of s1 at a position that moves through all coefficients
  mc::add(nm + "every residue of one coefficient of s1", ref::Q, [](uint64_t v) -> std::string {
    const size_t reps = mc::quick ? 2 : 16;
    for (size_t k = 0; k < reps; k++) {
      const size_t i = (v * 31 + k * (N / reps)) % N;
      const int64_t x = ref::center(v);
      for (int d = 0; d < (x * x <= B ? 2 : 1); d++) {
        poly s1(N, 0), s2(N, 0), h(N, 0);
        s1[i] = x;
        h[k] = 1;
        s2[(i + 5) % N] = 3;
        if (x * x + 9 <= B)
          complete(s1, x * x + 9, B + d, (i + 1) % N);
        if (auto r = triple<N>(h, s1, s2, mc::fmt("s1[%d]=%d d=%d", (int)i, (int)x, d), BYTES); !r.empty())
          return r;
        mc::states(1);
      }
    }
    return "";
  }, 16);
  // 3: sums that overflow narrow accumulators
  mc::add(nm + "norms around every multiple of 2^31", 2 * (N == 512 ? 10 : 19) * 4, [](uint64_t id) -> std::string {
    const int64_t k = 1 + (int64_t)(id / 8), order = id % 8;
    const int64_t base = k << 31;
    for (int64_t e : { -1l, 0l, 1l, 1000l, B - 1, B, B + 1, -B, 7 * B / 8, (1l << 30) }) {
      poly s1(N, 0), s2(N, 0), h(N, 0);
      int64_t have = 0;
      if (order & 4) { // part of the mass in one huge coefficient of s2
        const int64_t m = N == 512 ? 50303 : 60000;
        s2[(order * 37) % N] = order & 1 ? -m : m;
        have = m * m;
        if (have > base + e)
          continue;
      }
      if (!complete(s1, have, base + e, order & 2 ? N / 2 : 0))
        continue;
      h[0] = 1;
      if (auto r = triple<N>(h, s1, s2, mc::fmt("norm = %lld*2^31%+lld", (long long)k, (long long)e), order & 1 ? BYTES : DIRECT); !r.empty())
        return r;
      mc::states(1);
    }
    return "";
  });
  mc::add(nm + "dense large polynomials", 256, [](uint64_t id) -> std::string {
    poly s1(N, 0), s2(N, 0), h(N, 0);
    const int64_t lv[] = { 6144, -6144, 6143, 5000, 3, -1, 0, 2047 };
    for (size_t i = 0; i < N; i++) {
      s1[i] = lv[(id + i * (id / 64)) % 8];
      s2[i] = (id >> 3) & 1 ? (i % 2 ? 127 : -127) : (i % (3 + id % 5) == 0 ? 128 : -1);
      h[i] = (id >> 4) & 1 ? 12288 : (i * i + id) % ref::Q;
    }
    mc::states(1);
    return triple<N>(h, s1, s2, mc::fmt("dense %d", (int)id));
  });
  // dense accept: realistic (s1,s2) on the boundary for dense h
  mc::add(nm + "dense h and s2 on and just above the bound", mc::quick ? 512 : 8192, [](uint64_t id) -> std::string {
    poly s1(N, 0), s2(N, 0), h(N, 0);
    int64_t have = 0;
    for (size_t i = 0; i < N; i++) {
      h[i] = (id & 1) ? 12288 - (id >> 1) % 4 : mc::mix(id * N + i) % ref::Q;
      s2[i] = (id & 2) ? ((i + id) % 2 ? 127 : -127) : (int64_t)(mc::mix(~(id * N + i)) % 301) - 150;
      have += s2[i] * s2[i];
    }
    for (size_t k = 0; k + 8 < N; k++) {
      const int64_t a = (int64_t)(mc::mix(id + k * 131) % 321) - 160;
      if (have + a * a > B - 5000)
        break;
      s1[k] = a;
      have += a * a;
    }
    complete(s1, have, B + (id & 4 ? 1 : 0), 0);
    mc::states(1);
    return triple<N>(h, s1, s2, mc::fmt("dense boundary %d", (int)id));
  }, 2);
  // 4: headers
  mc::add(nm + "every public key header x every signature header", 256, [](uint64_t a) -> std::string {
    poly s1(N, 0), s2(N, 0), h(N, 0);
    s1[0] = 1;
    poly c = s1;
    uint8_t salt[40]{};
    auto sig = ref::make_sig<N>(salt, s2);
    auto pk = ref::encode_pk<N>(h);
    fixed_c x;
    x.c = &c;
    for (int b = 0; b < 256; b++) {
      pk[0] = a;
      sig[0] = b;
      env::xof = &x;
      const bool got = falcon::verify<N>(pk.data(), nullptr, 0, sig.data());
      env::xof = nullptr;
      const bool want = a == P<N>::lg && b == (0x30 | (int)P<N>::lg);
      mc::transitions(1);
      mc::states(1);
      if (got != want)
        return mc::fmt("headers %02x/%02x: verification returned %d", (int)a, b, got);
    }
    mc::outcome(a == P<N>::lg ? "public key header right" : "public key header wrong: reject");
    return "";
  }, 8);
  // 5: non canonical public keys that would verify if reduced
  mc::add(nm + "public key coefficient >= q at every position (value congruent to a valid one)", N, [](uint64_t pos) -> std::string {
    for (int v : { 12289, 12290, 12289 + 4094, 16383, 12289 + 2048, 14000 }) {
      for (int canon = 0; canon < 2; canon++) {
        poly s2(N, 0), h(N, 0), s1(N, 0);
        h[pos] = canon ? v - 12289 : v;
        h[(pos + 1) % N] = 12288;
        s2[2] = 1;
        poly hr = h;
        hr[pos] = v - 12289;
        poly c = mulq_any(s2, hr);
        uint8_t salt[40]{};
        auto sig = ref::make_sig<N>(salt, s2);
        const auto pk = ref::encode_pk<N>(h);
        fixed_c x;
        x.c = &c;
        env::xof = &x;
        const bool got = falcon::verify<N>(pk.data(), nullptr, 0, sig.data());
        env::xof = nullptr;
        mc::transitions(1);
        mc::states(1);
        mc::outcome(canon ? "canonical public key: accept" : "public key coefficient >= q: reject");
        if (got != (canon == 1))
          return mc::fmt("public key coefficient %d = %d: verification returned %d", (int)pos, (int)h[pos], got);
      }
    }
    return "";
  }, 4);
}

// honest triples under the real hash, and everything one bit away
template<size_t N>
struct honest
{
  std::vector<uint8_t> pk, msg, sig;
  poly h;
};
template<size_t N>
const honest<N>&
make_honest(int i)
{
  static std::map<int, honest<N>> m;
  auto it = m.find(i);
  if (it != m.end())
    return it->second;
  // choose salt, message, s1, s2 and solve for the key: h = (c - s1) / s2
  honest<N> t;
  t.msg.resize(33 + i);
  for (size_t j = 0; j < t.msg.size(); j++)
    t.msg[j] = 3 * j + i;
  uint8_t salt[40];
  for (int j = 0; j < 40; j++)
    salt[j] = 5 * j + i;
  poly s1(N), s2(N);
  for (uint64_t tweak = 0;; tweak++) {
    for (size_t j = 0; j < N; j++) {
      s1[j] = (int64_t)(mc::mix(j + 1000 * tweak) % 401) - 200;
      s2[j] = (int64_t)(mc::mix(~(j + 1000 * tweak)) % 401) - 200;
    }
    if (ref::invertible(s2))
      break;
  }
  poly c = ref::hash_to_point(N, salt, 40, t.msg.data(), t.msg.size());
  for (size_t j = 0; j < N; j++)
    c[j] = ref::modq(c[j] - s1[j]);
  t.h = keys::divq(c, s2);
  t.pk = ref::encode_pk<N>(t.h);
  t.sig = ref::make_sig<N>(salt, s2);
  return m[i] = t;
}

template<size_t N>
void
define_bits()
{
  const std::string nm = mc::fmt("N=%zu: ", N);
  constexpr size_t SB = P<N>::siglen * 8, PB = P<N>::pklen * 8, MB = 33 * 8;
  mc::add(nm + "honest triple and every single bit flip of signature, public key, message (real hash)", 1 + SB + PB + MB,
          [](uint64_t i) -> std::string {
            honest<N> t = make_honest<N>(0);
            std::string what = "honest triple";
            if (i >= 1 + SB + PB) {
              const size_t b = i - 1 - SB - PB;
              t.msg[b / 8] ^= 1 << (b % 8);
              what = mc::fmt("message bit %zu flipped", b);
            } else if (i >= 1 + SB) {
              const size_t b = i - 1 - SB;
              t.pk[b / 8] ^= 1 << (b % 8);
              what = mc::fmt("public key bit %zu flipped", b);
            } else if (i >= 1) {
              const size_t b = i - 1;
              t.sig[b / 8] ^= 1 << (b % 8);
              what = mc::fmt("signature bit %zu flipped", b);
            }
            const bool want = ref::verify<N>(t.pk.data(), t.msg.data(), t.msg.size(), t.sig.data());
            const bool got = falcon::verify<N>(t.pk.data(), t.msg.data(), t.msg.size(), t.sig.data());
            mc::transitions(1);
            mc::traces(1);
            mc::states(1);
            mc::outcome(std::string(i ? "one bit flipped" : "honest") + (want ? ": accept" : ": reject"));
            if (got != want)
              return what + mc::fmt(": verification returned %d, expected %d", got, want);
            return "";
          }, 16);
  mc::add(nm + "message lengths 0..600 and cross pairs (real hash)", 601, [](uint64_t len) -> std::string {
    // s1 is short for exactly one message: h and s2 are chosen so that c - s2*h = 0 with s2 = 1
    std::vector<uint8_t> msg(len);
    for (size_t j = 0; j < len; j++)
      msg[j] = mc::mix(j + len);
    uint8_t salt[40];
    for (int j = 0; j < 40; j++)
      salt[j] = mc::mix(j * 3 + len);
    poly s2(N, 0);
    s2[0] = 1;
    const poly h = ref::hash_to_point(N, salt, 40, msg.data(), len);
    const auto pk = ref::encode_pk<N>(h);
    auto sig = ref::make_sig<N>(salt, s2);
    for (int v = 0; v < 4; v++) {
      std::vector<uint8_t> m2 = msg;
      auto s = sig;
      if (v == 1) {
        if (!len)
          continue;
        m2[len - 1] ^= 1;
      } else if (v == 2)
        m2.push_back(0);
      else if (v == 3)
        s[40] ^= 0x80;
      const bool want = ref::verify<N>(pk.data(), m2.data(), m2.size(), s.data());
      const bool got = falcon::verify<N>(pk.data(), m2.data(), m2.size(), s.data());
      mc::transitions(1);
      mc::states(1);
      mc::outcome(v == 0 ? "message of every length: accept" : "message changed at its end, extended, salt changed: reject");
      if (got != want)
        return mc::fmt("message length %d variant %d: verification returned %d, expected %d", (int)len, v, got, want);
    }
    mc::traces(1);
    return "";
  }, 4);
  // contents of salt and message: single bytes, pairs of neighbours and constant runs (real hash)
  mc::add(nm + "special contents of salt and message (real hash)", 2 * 48 * 8, [](uint64_t id) -> std::string {
    static const uint8_t V[] = { 0x00, 0x01, 0x0a, 0x7f, 0x80, 0x9f, 0xf0, 0xff };
    const uint8_t v = V[id % 8];
    const size_t pos = id / 8 % 48;
    const bool in_msg = id / 384;
    for (int kind = 0; kind < 6; kind++) {
      std::vector<uint8_t> m(48), salt(40);
      for (size_t j = 0; j < 48; j++)
        m[j] = mc::mix(j + id);
      for (size_t j = 0; j < 40; j++)
        salt[j] = mc::mix(j * 3 + id);
      auto& x = in_msg ? m : salt;
      const size_t n = x.size();
      if (kind == 0)
        x[pos % n] = v;
      else if (kind == 1)
        x[pos % n] = x[(pos + 1) % n] = v;
      else if (kind == 2)
        x[pos % n] = x[(pos + 1) % n] = x[(pos + 2) % n] = x[(pos + 3) % n] = v;
      else if (kind == 3)
        std::fill(x.begin(), x.begin() + pos % n + 1, v);
      else if (kind == 4)
        std::fill(x.begin() + pos % n, x.end(), v);
      else
        x[pos % n] = v, x[(pos + 1) % n] = (uint8_t)~v;
      poly s2(N, 0);
      s2[0] = 1;
      const poly h = ref::hash_to_point(N, salt.data(), 40, m.data(), 48);
      const auto pk = ref::encode_pk<N>(h);
      auto sig = ref::make_sig<N>(salt.data(), s2);
      mc::transitions(1);
      mc::states(1);
      if (!falcon::verify<N>(pk.data(), m.data(), 48, sig.data()))
        return mc::fmt("%s with special bytes (kind %d, position %zu, value %02x): a valid signature is refused", in_msg ? "message" : "salt", kind, pos, v);
    }
    mc::outcome("special salt or message: accept");
    return "";
  }, 16);
  mc::add(nm + "huge message lengths are absorbed completely", 12, [](uint64_t i) -> std::string {
    static const size_t L[] = { 1u << 16, (1u << 16) + 1, 1u << 20, (1ull << 31) - 1, 1ull << 31, (1ull << 31) + 7,
                                (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, (1ull << 33) + 3, 0, 1 };
    const size_t n = L[i];
    void* m = mmap(nullptr, n + 1, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED)
      return "";
    poly s2(N, 0), h(N, 0), c(N, 0);
    uint8_t salt[40]{};
    auto sig = ref::make_sig<N>(salt, s2);
    const auto pk = ref::encode_pk<N>(h);
    fixed_c x;
    x.c = &c;
    env::xof = &x;
    const bool got = falcon::verify<N>(pk.data(), (const uint8_t*)m, n, sig.data());
    env::xof = nullptr;
    munmap(m, n + 1);
    mc::transitions(1);
    mc::states(1);
    if (!got)
      return mc::fmt("message of length %zu: refused", n);
    if (x.absorbed != 40 + n)
      return mc::fmt("message of length %zu: %zu bytes were hashed, expected %zu", n, x.absorbed, 40 + n);
    return "";
  });
  mc::add(nm + "malleability: minus zero and every padding bit of a valid signature", 3 * N, [](uint64_t i) -> std::string {
    poly s2(N, 0), h(N, 0), c(N, 0);
    for (size_t k = 0; k < N; k++) {
      s2[k] = (k + i / N) % 3 == 0 ? 0 : (int64_t)(k % 7) - 3;
      h[k] = (k * k) % ref::Q;
    }
    c = ref::mulq(s2, h);
    uint8_t salt[40]{};
    auto sig = ref::make_sig<N>(salt, s2);
    // all coefficients are below 128: coefficient k occupies bits 9k..9k+8
    const size_t k = i % N;
    const size_t bits = 8 * (P<N>::siglen - 41);
    fixed_c x;
    x.c = &c;
    const auto pk = ref::encode_pk<N>(h);
    for (int v = 0; v < 3; v++) {
      auto s = sig;
      size_t b = v == 0 ? 9 * k : v == 1 ? 9 * N + k % (bits - 9 * N) : 9 * k + 8;
      if (v < 3)
        s[41 + b / 8] ^= 0x80 >> (b % 8);
      const bool want = ref::verify_c<N>(h, c, s.data());
      env::xof = &x;
      const bool got = falcon::verify<N>(pk.data(), nullptr, 0, s.data());
      env::xof = nullptr;
      mc::transitions(1);
      mc::states(1);
      mc::outcome(want ? "re-encoded valid signature: accept" : "re-encoded valid signature: reject");
      if (got != want)
        return mc::fmt("signature bit %zu of the body flipped: verification returned %d, expected %d", b, got, want);
    }
    return "";
  }, 16);
}

int
main(int argc, char** argv)
{
  return mc::main(argc, argv, [] {
#ifdef PART_512
    define_n<512>();
    define_bits<512>();
#else
    define_n<1024>();
    define_bits<1024>();
#endif
  });
}
