// Maps between the library's FFT arrays and the reference's evaluation order (found by transforming x).
#pragma once
#include "fft.hpp"
#include "fsref.hpp"

namespace fftmap {

template<size_t LG>
const std::vector<size_t>&
order()
{
  constexpr size_t N = 1ul << LG;
  static const std::vector<size_t> o = [&] {
    std::vector<size_t> r(1ul << LG, 0);
    if constexpr (LG > 0) {
      fft::cmplx a[N];
      for (auto& v : a)
        v = fft::cmplx{ 0. };
      a[1] = fft::cmplx{ 1. };
      fft::fft<LG>(a);
      for (size_t i = 0; i < N; i++) {
        fs::ld best = 1e9;
        for (size_t j = 0; j < N; j++) {
          const auto d = std::norm(fs::cx(a[i].real(), a[i].imag()) - fs::roots(N)[j]);
          if (d < best) {
            best = d;
            r[i] = j;
          }
        }
      }
    }
    return r;
  }();
  return o;
}
template<size_t LG>
fs::vec
from(const fft::cmplx* a)
{
  const auto& o = order<LG>();
  fs::vec r(1ul << LG);
  for (size_t i = 0; i < r.size(); i++)
    r[o[i]] = fs::cx(a[i].real(), a[i].imag());
  return r;
}
template<size_t LG>
void
to(const fs::vec& v, fft::cmplx* a)
{
  const auto& o = order<LG>();
  for (size_t i = 0; i < v.size(); i++)
    a[i] = fft::cmplx{ (double)v[o[i]].real(), (double)v[o[i]].imag() };
}

// library tree layout: node at T[0..n), children at T + 2^level*n and that plus n/2
template<size_t LG, size_t LEVEL = 0>
void
tree_to(const fs::tree& t, fft::cmplx* T)
{
  constexpr size_t N = 1ul << LG, off = (1ul << LEVEL) * N;
  to<LG>(t.l10, T);
  if constexpr (LG == 1) {
    T[off] = fft::cmplx{ (double)t.leaf[0] };
    T[off + 1] = fft::cmplx{ (double)t.leaf[1] };
  } else {
    tree_to<LG - 1, LEVEL + 1>(*t.left, T + off);
    tree_to<LG - 1, LEVEL + 1>(*t.right, T + off + N / 2);
  }
}
template<size_t LG, size_t LEVEL = 0>
std::unique_ptr<fs::tree>
tree_from(const fft::cmplx* T)
{
  constexpr size_t N = 1ul << LG, off = (1ul << LEVEL) * N;
  auto t = std::make_unique<fs::tree>();
  t->l10 = from<LG>(T);
  if constexpr (LG == 1) {
    t->leaf[0] = T[off].real();
    t->leaf[1] = T[off + 1].real();
  } else {
    t->left = tree_from<LG - 1, LEVEL + 1>(T + off);
    t->right = tree_from<LG - 1, LEVEL + 1>(T + off + N / 2);
  }
  return t;
}

} // namespace fftmap
