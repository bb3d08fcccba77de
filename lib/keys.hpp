// Fixture key pairs, completed and cross-checked by the reference.
#pragma once
#include "keydata.hpp"
#include "ref.hpp"
#include <cstdlib>

namespace keys {

template<size_t N>
struct key
{
  ref::poly f, g, F, G, h;
  std::vector<uint8_t> pk, sk;
};

// h = g / f mod q by interpolation at the roots of x^N+1
inline ref::poly
divq(const ref::poly& g, const ref::poly& f)
{
  const size_t n = f.size();
  std::vector<int64_t> w, v(n);
  ref::roots(n, w);
  for (size_t j = 0; j < n; j++) {
    const int64_t d = ref::evalq(f, w[j]);
    v[j] = ref::evalq(g, w[j]) * ref::powq(d, ref::Q - 2) % ref::Q;
  }
  // inverse: h_i = 1/n sum_j v_j w_j^-i
  ref::poly h(n);
  const int64_t ninv = ref::powq(n, ref::Q - 2);
  std::vector<int64_t> wi(n), cur(n, 1);
  for (size_t j = 0; j < n; j++)
    wi[j] = ref::powq(w[j], ref::Q - 2);
  for (size_t i = 0; i < n; i++) {
    int64_t s = 0;
    for (size_t j = 0; j < n; j++) {
      s += v[j] * cur[j] % ref::Q;
      cur[j] = cur[j] * wi[j] % ref::Q;
    }
    h[i] = s % ref::Q * ninv % ref::Q;
  }
  return h;
}

template<size_t N>
key<N>
make(const short (&d)[4][N])
{
  key<N> k;
  ref::poly* p[4] = { &k.f, &k.g, &k.F, &k.G };
  for (int j = 0; j < 4; j++)
    p[j]->assign(d[j], d[j] + N);
  const auto a = ref::mulz(k.f, k.G), b = ref::mulz(k.g, k.F);
  for (size_t i = 0; i < N; i++)
    if (a[i] - b[i] != (i ? 0 : ref::Q)) {
      fprintf(stderr, "fixture key is not a solution\n");
      abort();
    }
  k.h = divq(k.g, k.f);
  k.pk = ref::encode_pk<N>(k.h);
  k.sk = ref::encode_sk<N>(k.f, k.g, k.F);
  return k;
}

template<size_t N>
const key<N>&
get(int i);
template<>
inline const key<512>&
get<512>(int i)
{
  static const key<512> k[] = { make<512>(key_512_0), make<512>(key_512_197), make<512>(key_512_1028) };
  return k[i];
}
template<>
inline const key<1024>&
get<1024>(int i)
{
  static const key<1024> k[] = { make<1024>(key_1024_0), make<1024>(key_1024_1), make<1024>(key_1024_2) };
  return k[i];
}

} // namespace keys
