// Searches seeds of candidate pairs with the properties listed in lib/cands.hpp; prints
// lib/canddata.hpp.  Not run by the checks.  usage: gen_cands <512|1024> <kind>
#include "cands.hpp"
#include "falcon.hpp"
#include <cstdio>
#include <thread>
#include <mutex>
#include <atomic>
using namespace cands;
template<size_t N>
void run(int kind)
{
  const int64_t lim = N == 512 ? 31 : 15;
  const int want = kind == GOOD ? 4 : kind == BIGF2 || kind == NONINV || kind == ODD ? 2 : 1;
  std::atomic<int> found{ 0 };
  std::mutex mu;
  std::vector<std::thread> th;
  for (int t = 0; t < 8; t++)
    th.emplace_back([&, t] {
      for (uint64_t seed = kind * 100000000ull + t; found < want; seed += 8) {
        cand c{ kind, seed, 0, 0, 0, 0 };
        int64_t T = 16500 + (int64_t)(mix(seed) % 320);
        if (kind == GOOD_EDGE) T = 16822;
        if (kind == NORM) T = 16823;
        if (kind == NORM_FAR) T = 26000;
        if (kind == BIGF || kind == BIGF2 || kind == GOOD_BIGG) T = 16800;
        const bool lop = kind == BIGF || kind == BIGF2;
        c.A = lop ? 11400 + (int64_t)(mix(seed + 9) % 1200) : T / 2 + (int64_t)(mix(seed + 5) % 1000) - 500;
        if (kind == GOOD_BIGG) c.A = T - (11400 + (int64_t)(mix(seed + 9) % 1200));
        c.B = T - c.A;
        if (kind == F32) c.fv = lim + 1;
        if (kind == G32) c.gv = lim + 1;
        if (kind == GOOD_F31) c.fv = lim;
        if (kind == GOOD_G31) c.gv = lim;
        const pair p = make(N, c);
        int64_t mf = 0, mg = 0, sf = 0, sg = 0;
        for (auto x : p.f) mf = std::max<int64_t>(mf, std::llabs(x)), sf += x;
        for (auto x : p.g) mg = std::max<int64_t>(mg, std::llabs(x)), sg += x;
        if (kind == F32 || kind == GOOD_F31 ? mf != c.fv : mf > lim) continue;
        if (kind == G32 || kind == GOOD_G31 ? mg != c.gv : mg > lim) continue;
        const bool even = !(sf & 1) && !(sg & 1);
        if (even != (kind == EVEN)) continue;
        int32_t f[N], g[N];
        for (size_t i = 0; i < N; i++) f[i] = p.f[i], g[i] = p.g[i];
        const bool fi = ntru_gen::is_poly_invertible<log2<N>()>(f), gi = ntru_gen::is_poly_invertible<log2<N>()>(g);
        if (fi == (kind == NONINV)) continue;
        if (kind == GOOD_G_NONINV && gi) continue;
        // cheap estimate of the dual norm through the library, exact one below
        fft::cmplx a[N], b[N];
        for (size_t i = 0; i < N; i++) a[i] = (double)f[i], b[i] = (double)g[i];
        fft::fft<log2<N>()>(a); fft::fft<log2<N>()>(b);
        double d = 0;
        for (size_t i = 0; i < N; i++) d += 1 / (std::norm(a[i]) + std::norm(b[i]));
        d = d / N * 12289. * 12289.;
        const double L = (double)LIMIT;
        if (kind == DUAL ? !(d > L * 1.0001 && d < L * 1.01) : kind == GOOD_DUAL ? !(d < L * .9999 && d > L * .99) : !(d < L * .9999)) continue;
        if (kind != EVEN) {
          std::array<mpz_class, N> F, G;
          for (size_t i = 0; i < N; i++) F[i] = f[i], G[i] = g[i];
          const auto r = ntru_gen::ntru_solve<N>(F, G);
          if (r.second.is_solution() == (kind == ODD)) continue;
          if (kind != ODD) {
            long m = 0, mG = 0;
            for (auto& x : r.first.second) mG = std::max(mG, labs(x.get_si()));
            if (kind == GOOD_BIGG && mG <= 127) continue;
            for (auto& x : r.first.first) m = std::max(m, labs(x.get_si()));
            if (kind == BIGF ? m != 128 : kind == BIGF2 ? m <= 128 : m > 127) continue;
          }
        }
        std::lock_guard<std::mutex> lk(mu);
        if (found++ < want) {
          printf("{%d,%lluu,%lld,%lld,%lld,%lld}, // %zu\n", kind, (unsigned long long)seed, (long long)c.A, (long long)c.B, (long long)c.fv, (long long)c.gv, N);
          fflush(stdout);
        }
      }
    });
  for (auto& x : th) x.join();
}
int main(int argc, char** argv)
{
  const int k = atoi(argv[2]);
  atoi(argv[1]) == 512 ? run<512>(k) : run<1024>(k);
}
