// Independent, deliberately boring reference of what Falcon specifies.  Shares no code with
// /repo/include (only the SHAKE256 sponge of the shim).
#pragma once
#include "shake256.hpp"
#include <array>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstring>
#include <vector>

namespace ref {

constexpr int Q = 12289;
using poly = std::vector<int64_t>;

inline int64_t
modq(int64_t a)
{
  a %= Q;
  return a < 0 ? a + Q : a;
}
inline int64_t
center(int64_t a)
{
  a = modq(a);
  return a > Q / 2 ? a - Q : a;
}
inline int64_t
powq(int64_t b, uint64_t e)
{
  int64_t r = 1;
  b = modq(b);
  for (; e; e >>= 1, b = b * b % Q)
    if (e & 1)
      r = r * b % Q;
  return r;
}

// a*b mod (x^n+1) over Z (caller guarantees no int64 overflow)
inline poly
mulz(const poly& a, const poly& b)
{
  const size_t n = a.size();
  std::vector<int64_t> t(2 * n, 0);
  for (size_t i = 0; i < n; i++) {
    const int64_t ai = a[i];
    if (!ai)
      continue;
    int64_t* d = t.data() + i;
    for (size_t j = 0; j < n; j++)
      d[j] += ai * b[j];
  }
  poly r(n);
  for (size_t i = 0; i < n; i++)
    r[i] = t[i] - t[n + i];
  return r;
}
inline poly
mulq(const poly& a, const poly& b)
{
  poly x(a), y(b);
  for (auto& v : x)
    v = modq(v);
  for (auto& v : y)
    v = modq(v);
  poly r = mulz(x, y);
  for (auto& v : r)
    v = modq(v);
  return r;
}

template<size_t N>
struct params;
template<>
struct params<512>
{
  static constexpr int64_t beta2 = 34034726;
  static constexpr size_t siglen = 666, pklen = 897, sklen = 1281, lg = 9, fgbits = 6;
  static constexpr double sigma = 165.736617183, sigma_min = 1.277833697;
};
template<>
struct params<1024>
{
  static constexpr int64_t beta2 = 70265242;
  static constexpr size_t siglen = 1280, pklen = 1793, sklen = 2305, lg = 10, fgbits = 5;
  static constexpr double sigma = 168.388571447, sigma_min = 1.298280334;
};

// --- signature polynomial codec: bit string, most significant bit first -----------------------
// per coefficient: sign, 7 low bits, unary high part (k zeros and a one); zero padding.
inline bool
compress(const int64_t* s, size_t n, uint8_t* out, size_t bytes)
{
  memset(out, 0, bytes);
  const size_t cap = bytes * 8;
  size_t p = 0;
  auto put = [&](int b) {
    if (b && p < cap)
      out[p >> 3] |= 0x80 >> (p & 7);
    p++;
  };
  for (size_t i = 0; i < n; i++) {
    const uint64_t m = s[i] < 0 ? -static_cast<uint64_t>(s[i]) : s[i];
    put(s[i] < 0);
    for (int b = 6; b >= 0; b--)
      put((m >> b) & 1);
    if ((m >> 7) > cap) {
      p = cap + 1;
      break;
    }
    p += m >> 7;
    put(1);
    if (p > cap)
      break;
  }
  if (p > cap) {
    memset(out, 0, bytes);
    return false;
  }
  return true;
}
inline size_t
compressed_bits(const int64_t* s, size_t n)
{
  size_t p = 0;
  for (size_t i = 0; i < n; i++)
    p += 9 + ((s[i] < 0 ? -s[i] : s[i]) >> 7);
  return p;
}
inline bool
decompress(const uint8_t* in, size_t bytes, int64_t* s, size_t n)
{
  const size_t cap = bytes * 8;
  size_t p = 0;
  auto get = [&]() -> int { return p < cap ? (in[p >> 3] >> (7 - (p & 7))) & 1 : -1; };
  for (size_t i = 0; i < n; i++) {
    int b = get();
    if (b < 0)
      return false;
    p++;
    const int sign = b;
    int64_t m = 0;
    for (int k = 0; k < 7; k++) {
      b = get();
      if (b < 0)
        return false;
      p++;
      m = 2 * m + b;
    }
    for (;;) {
      b = get();
      if (b < 0)
        return false;
      p++;
      if (b)
        break;
      m += 128;
    }
    if (m == 0 && sign)
      return false;
    s[i] = sign ? -m : m;
  }
  for (; p < cap; p++)
    if ((in[p >> 3] >> (7 - (p & 7))) & 1)
      return false;
  return true;
}

// --- key codecs: little-endian bit packing --------------------------------------------------
inline void
pack(std::vector<uint8_t>& out, const int64_t* v, size_t n, size_t bits)
{
  uint64_t acc = 0;
  size_t have = 0;
  for (size_t i = 0; i < n; i++) {
    acc |= (static_cast<uint64_t>(v[i]) & ((1ull << bits) - 1)) << have;
    have += bits;
    while (have >= 8) {
      out.push_back(static_cast<uint8_t>(acc));
      acc >>= 8;
      have -= 8;
    }
  }
  if (have)
    out.push_back(static_cast<uint8_t>(acc));
}
inline poly
unpack(const uint8_t* in, size_t n, size_t bits, bool sgn)
{
  poly r(n);
  size_t p = 0;
  for (size_t i = 0; i < n; i++) {
    int64_t v = 0;
    for (size_t b = 0; b < bits; b++, p++)
      v |= static_cast<int64_t>((in[p >> 3] >> (p & 7)) & 1) << b;
    if (sgn && (v >> (bits - 1)))
      v -= 1ll << bits;
    r[i] = v;
  }
  return r;
}
template<size_t N>
std::vector<uint8_t>
encode_pk(const poly& h)
{
  std::vector<uint8_t> o{ static_cast<uint8_t>(params<N>::lg) };
  pack(o, h.data(), N, 14);
  return o;
}
template<size_t N>
bool
decode_pk(const uint8_t* pk, poly& h)
{
  h.assign(N, 0);
  if (pk[0] != params<N>::lg)
    return false;
  poly t = unpack(pk + 1, N, 14, false);
  for (auto v : t)
    if (v >= Q)
      return false;
  h = t;
  return true;
}
template<size_t N>
std::vector<uint8_t>
encode_sk(const poly& f, const poly& g, const poly& F)
{
  std::vector<uint8_t> o{ static_cast<uint8_t>(0x50 | params<N>::lg) };
  pack(o, f.data(), N, params<N>::fgbits);
  pack(o, g.data(), N, params<N>::fgbits);
  pack(o, F.data(), N, 8);
  return o;
}

// --- hash to point -----------------------------------------------------------------------------
inline poly
hash_to_point(size_t n, const uint8_t* salt, size_t slen, const uint8_t* msg, size_t mlen)
{
  env::sponge sp;
  sp.absorb(salt, slen);
  sp.absorb(msg, mlen);
  sp.finalize();
  poly c;
  while (c.size() < n) {
    uint8_t b[2];
    sp.squeeze(b, 2);
    const int t = b[0] * 256 + b[1];
    if (t < 61445)
      c.push_back(t % Q);
  }
  return c;
}

// --- signatures --------------------------------------------------------------------------------
template<size_t N>
bool
decode_sig(const uint8_t* sig, uint8_t salt[40], poly& s2)
{
  s2.assign(N, 0);
  if (sig[0] != (0x30 | params<N>::lg))
    return false;
  memcpy(salt, sig + 1, 40);
  return decompress(sig + 41, params<N>::siglen - 41, s2.data(), N);
}
template<size_t N>
std::vector<uint8_t>
make_sig(const uint8_t* salt, const poly& s2, bool* ok = nullptr)
{
  std::vector<uint8_t> o(params<N>::siglen, 0);
  o[0] = 0x30 | params<N>::lg;
  memcpy(o.data() + 1, salt, 40);
  const bool r = compress(s2.data(), N, o.data() + 41, params<N>::siglen - 41);
  if (ok)
    *ok = r;
  return o;
}
// squared norm of (s1, s2) with s1 = c - s2 h centered
inline int64_t
norm2(const poly& c, const poly& s2, const poly& h)
{
  const poly t = mulq(s2, h);
  int64_t r = 0;
  for (size_t i = 0; i < c.size(); i++) {
    const int64_t v = center(c[i] - t[i]);
    r += v * v + s2[i] * s2[i];
  }
  return r;
}
template<size_t N>
bool
verify_c(const poly& h, const poly& c, const uint8_t* sig)
{
  uint8_t salt[40];
  poly s2;
  if (!decode_sig<N>(sig, salt, s2))
    return false;
  return norm2(c, s2, h) <= params<N>::beta2;
}
template<size_t N>
bool
verify(const uint8_t* pk, const uint8_t* msg, size_t mlen, const uint8_t* sig)
{
  poly h, s2;
  uint8_t salt[40];
  if (!decode_pk<N>(pk, h) || !decode_sig<N>(sig, salt, s2))
    return false;
  const poly c = hash_to_point(N, salt, 40, msg, mlen);
  return norm2(c, s2, h) <= params<N>::beta2;
}

// inverse of a in Z_q[x]/(x^n+1) by evaluation at the roots of x^n+1 (n <= 2048 | 2n divides q-1)
inline bool
roots(size_t n, std::vector<int64_t>& w)
{
  // 11 generates Z_q^*; psi = primitive 2n-th root of unity
  const int64_t psi = powq(11, (Q - 1) / (2 * n));
  w.resize(n);
  for (size_t j = 0; j < n; j++)
    w[j] = powq(psi, 2 * j + 1);
  return true;
}
inline int64_t
evalq(const poly& a, int64_t x)
{
  int64_t r = 0;
  for (size_t i = a.size(); i-- > 0;)
    r = (r * x + modq(a[i])) % Q;
  return r;
}
inline bool
invertible(const poly& a)
{
  std::vector<int64_t> w;
  roots(a.size(), w);
  for (auto x : w)
    if (!evalq(a, x))
      return false;
  return true;
}

} // namespace ref
