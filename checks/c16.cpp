// Karatsuba multiplication over the integers against schoolbook multiplication.
#include "karatsuba.hpp"
#include "mc.hpp"
#include <vector>

using mpz = mpz_class;

template<size_t N>
std::string
compare(const std::array<mpz, N>& a, const std::array<mpz, N>& b, const std::string& what, bool same = false)
{
  std::vector<mpz> w(2 * N, 0);
  for (size_t i = 0; i < N; i++)
    if (a[i] != 0)
      for (size_t j = 0; j < N; j++)
        if (b[j] != 0)
          w[i + j] += a[i] * b[j];
  const auto ka = a, kb = b;
  const auto full = same ? karatsuba::karatsuba<N>(a, a) : karatsuba::karatsuba<N>(a, b);
  const auto red = same ? karatsuba::karamul<N>(a, a) : karatsuba::karamul<N>(a, b);
  mc::transitions(2);
  mc::traces(2);
  if (a != ka || b != kb)
    return what + ": an input was modified";
  for (size_t i = 0; i < 2 * N; i++)
    if (full[i] != w[i])
      return what + mc::fmt(": product coefficient %zu is ", i) + full[i].get_str() + ", expected " + w[i].get_str();
  for (size_t i = 0; i < N; i++)
    if (red[i] != w[i] - w[N + i])
      return what + mc::fmt(": reduced product coefficient %zu is ", i) + red[i].get_str() + ", expected " + mpz(w[i] - w[N + i]).get_str();
  return "";
}
static const std::vector<mpz>&
values()
{
  static const std::vector<mpz> v = [] {
    std::vector<mpz> r{ 0, 1, 2, 3, 12289 };
    for (int k : { 31, 32, 53, 62, 63, 64, 65, 127, 128, 192, 1000, 6400 }) {
      const mpz p = mpz(1) << k;
      r.push_back(p);
      r.push_back(p - 1);
      if (k <= 128)
        r.push_back(p + 1);
    }
    const size_t n = r.size();
    for (size_t i = 1; i < n; i++)
      r.push_back(-r[i]);
    return r;
  }();
  return v;
}

template<size_t N>
void
define()
{
  const std::string nm = mc::fmt("N=%zu: ", N);
  const size_t V = values().size();
  if constexpr (N == 1)
    mc::add(nm + "all pairs of boundary values", V * V, [V](uint64_t i) -> std::string {
      std::array<mpz, 1> a{ values()[i / V] }, b{ values()[i % V] };
      mc::states(1);
      mc::outcome("N=1");
      if (auto r = compare<1>(a, b, "pair"); !r.empty())
        return r;
      return compare<1>(a, a, "square", true);
    }, 64);
  if constexpr (N == 2)
    mc::add(nm + "all coefficients in [-4,4]", 6561, [](uint64_t i) -> std::string {
      std::array<mpz, 2> a{ (int)(i % 9) - 4, (int)(i / 9 % 9) - 4 }, b{ (int)(i / 81 % 9) - 4, (int)(i / 729 % 9) - 4 };
      mc::states(1);
      mc::outcome("N=2");
      if (auto r = compare<2>(a, b, mc::fmt("#%d", (int)i)); !r.empty())
        return r;
      return compare<2>(a, a, mc::fmt("square #%d", (int)i), true);
    }, 64);
  if constexpr (N == 2)
    mc::add(nm + "all quadruples of boundary values (quick: rotating fourth)", V * V * V, [V](uint64_t i) -> std::string {
      for (size_t d = mc::quick ? mc::mix(i) % V : 0; d < V; d += mc::quick ? V : 1) {
        std::array<mpz, 2> a{ values()[i % V], values()[i / V % V] }, b{ values()[i / V / V], values()[d] };
        mc::states(1);
        if (auto r = compare<2>(a, b, mc::fmt("#%d", (int)i)); !r.empty())
          return r;
      }
      return "";
    }, 64);
  if constexpr (N == 4)
    mc::add(nm + "all coefficients in {-1,0,1}", 6561, [](uint64_t i) -> std::string {
      std::array<mpz, 4> a, b;
      for (int k = 0; k < 8; k++, i /= 3)
        (k < 4 ? a[k] : b[k - 4]) = (int)(i % 3) - 1;
      mc::states(1);
      mc::outcome("N=4");
      if (auto r = compare<4>(a, b, "small"); !r.empty())
        return r;
      return compare<4>(a, a, "square", true);
    }, 64);
  // bilinear: all monomial pairs; values differ per pair
  constexpr size_t step = N <= 64 ? 1 : N / 32;
  if constexpr (N <= 512)
    mc::add(nm + "every pair of monomials", N, [](uint64_t i) -> std::string {
      const size_t V = values().size();
      const size_t st = mc::quick ? (N <= 64 ? 1 : N / 16) : step;
      for (size_t j = i % st; j < N; j += st) {
        std::array<mpz, N> a, b;
        a[i] = values()[1 + (i * 7 + j) % (V - 1)];
        b[j] = values()[1 + (i + 11 * j) % (V - 1)];
        mc::states(1);
        if (auto r = compare<N>(a, b, mc::fmt("x^%d * x^%d", (int)i, (int)j)); !r.empty())
          return r;
      }
      mc::outcome(mc::fmt("N=%zu monomials", N));
      return "";
    });
  if constexpr (N <= 64)
    mc::add(nm + "pairs of large coefficients, 8191 .. 2^21 bits", 15 * 15, [](uint64_t id) -> std::string {
      static const size_t BITS[] = { 1, 64, 8191, 8192, 8193, 20000, 32767, 32768, 65535, 65536, 65537, 100003, 262145, 1000003, 2097153 };
      const size_t x = BITS[id % 15], y = BITS[id / 15];
      if (mc::quick && N > 4 && (x > 66000 || y > 66000))
        return "";
      std::array<mpz, N> a, b;
      auto make = [&](size_t bits, uint64_t seed) { // digits significant throughout, odd, of both signs
        mpz r;
        std::vector<uint64_t> w((bits + 63) / 64);
        for (size_t k = 0; k < w.size(); k++)
          w[k] = mc::mix(seed * 7919 + k);
        mpz_import(r.get_mpz_t(), w.size(), -1, 8, 0, 0, w.data());
        mpz_fdiv_r_2exp(r.get_mpz_t(), r.get_mpz_t(), bits);
        mpz_setbit(r.get_mpz_t(), bits - 1);
        mpz_setbit(r.get_mpz_t(), 0);
        return mpz(seed % 3 ? r : -r);
      };
      for (size_t i = 0; i < N; i++) {
        a[i] = make(x - std::min(x - 1, i % 3), id * 200 + i);
        b[i] = make(i % 5 == 4 ? 1 : y, id * 200 + 100 + i);
      }
      mc::states(1);
      mc::outcome(mc::fmt("N=%zu large", N));
      if (auto r = compare<N>(a, b, mc::fmt("coefficients of %zu and %zu bits", x, y)); !r.empty())
        return r.substr(0, 300);
      if (auto r = compare<N>(a, a, mc::fmt("square, coefficients of %zu bits", x), true); !r.empty())
        return r.substr(0, 300);
      return "";
    }, 1, 120);
  mc::add(nm + "dense patterns", mc::quick ? (N <= 64 ? 600 : N <= 256 ? 48 : 12) : (N <= 64 ? 6000 : 400), [](uint64_t id) -> std::string {
    const size_t V = values().size();
    std::array<mpz, N> a, b;
    for (size_t i = 0; i < N; i++) {
      const uint64_t h = mc::mix(id * 4096 + i);
      switch (id % 6) {
        case 0:
          a[i] = -1;
          b[i] = (i & 1) ? 1 : -1;
          break;
        case 1:
          a[i] = values()[h % V];
          b[i] = values()[(h >> 20) % V];
          break;
        case 2:
          a[i] = mpz((long)(h % 511) - 255);
          b[i] = mpz((long)((h >> 20) % 511) - 255);
          break;
        case 3:
          a[i] = (mpz(1) << (64 * (1 + id % 30))) - (long)i;
          b[i] = -(mpz(1) << (64 * (1 + (id + i) % 30))) + 1;
          break;
        case 4:
          a[i] = i % 2 ? mpz(0) : mpz((long)h);
          b[i] = i < N / 2 ? mpz(0) : mpz((long)(h * 3));
          break;
        default:
          a[i] = mpz((long)h) * mpz((long)mc::mix(h)) * (long)(i % 3 - 1);
          b[i] = mpz((long)mc::mix(~h));
      }
    }
    mc::states(1);
    mc::outcome(mc::fmt("N=%zu dense", N));
    if (auto r = compare<N>(a, b, mc::fmt("dense %d", (int)id)); !r.empty())
      return r;
    return compare<N>(a, a, mc::fmt("dense square %d", (int)id), true);
  });
}

int
main(int argc, char** argv)
{
  return mc::main(argc, argv, [] {
    define<1>();
    define<2>();
    define<4>();
    define<8>();
    define<16>();
    define<32>();
    define<64>();
    define<128>();
    define<256>();
    define<512>();
    define<1024>();
  });
}
