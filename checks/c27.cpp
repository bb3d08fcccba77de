// Signing from stored bytes: a secret key that cannot sign is refused, one that can is used correctly.
#include "canddata.hpp"
#include "targets.hpp"

using bytes = std::vector<uint8_t>;

enum verdict_t
{
  BAD,
  FINE,
  EITHER
};
struct judged
{
  verdict_t v;
  std::string why;
  poly f, g;
};
template<size_t N>
static judged
judge(const bytes& sk)
{
  judged r;
  constexpr size_t w = P<N>::fgbits;
  if (sk[0] != (0x50 | P<N>::lg))
    return { BAD, "header", {}, {} };
  r.f = ref::unpack(sk.data() + 1, N, w, true);
  r.g = ref::unpack(sk.data() + 1 + N * w / 8, N, w, true);
  const poly F = ref::unpack(sk.data() + 1 + 2 * N * w / 8, N, 8, true);
  bool edge = false; // the most negative value of a field: a key that no encoder produces
  for (size_t i = 0; i < N; i++)
    edge |= r.f[i] == -(1 << (w - 1)) || r.g[i] == -(1 << (w - 1)) || F[i] == -128;
  const cands::pair p{ r.f, r.g };
  if (cands::norm2(p) > 16822)
    return { BAD, "f, g too long", r.f, r.g };
  const auto a = fs::eval(r.f, N), b = fs::eval(r.g, N);
  fs::ld s = 0, least = 1e30L;
  for (size_t j = 0; j < N; j++) {
    const fs::ld n = std::norm(a[j]) + std::norm(b[j]);
    s += 1 / n;
    least = std::min(least, n);
  }
  s = s / N * (fs::ld)ref::Q * ref::Q;
  if (!(least > 1e-6L) || !(s <= cands::LIMIT * (1 + 1e-9L)))
    return { BAD, "dual too long", r.f, r.g };
  if (s > cands::LIMIT * (1 - 1e-9L))
    edge = true;
  const auto c = fs::eval(F, N);
  fs::vec d(N);
  for (size_t j = 0; j < N; j++)
    d[j] = (fs::mul(b[j], c[j]) + (fs::ld)ref::Q) / a[j];
  poly G;
  for (auto x : fs::coefs(d)) {
    if (!(fabsl(x) < 1e9L) || fabsl(x - roundl(x)) > 0x1p-12L)
      return { BAD, "G is not integral", r.f, r.g };
    G.push_back((int64_t)roundl(x));
  }
  const poly x = ref::mulz(r.f, G), y = ref::mulz(r.g, F);
  for (size_t i = 0; i < N; i++)
    if (x[i] - y[i] != (i ? 0 : ref::Q))
      return { BAD, "the NTRU equation fails", r.f, r.g };
  if (!ref::invertible(r.f))
    return { EITHER, "f is not invertible", {}, {} };
  r.v = edge ? EITHER : FINE;
  return r;
}
template<size_t N>
static std::string
attempt(const bytes& sk, uint64_t seed, const std::string& what, const poly* h = nullptr)
{
  const judged j = judge<N>(sk);
  const bytes m{ 'm', 's', 'g', (uint8_t)seed };
  bytes sig(P<N>::siglen + 64, 0xc9), copy(sk);
  flat_rng r(seed);
  r.keep = false;
  bool ok;
  {
    install_rng in(&r);
    mc::transitions(1);
    ok = falcon::sign<N>(sk.data(), m.data(), m.size(), sig.data() + 32);
  }
  mc::states(1);
  mc::traces(1);
  if (sk != copy)
    return what + ": the secret key was modified";
  for (int i = 0; i < 32; i++)
    if (sig[i] != 0xc9 || sig[sig.size() - 1 - i] != 0xc9)
      return what + ": written outside of the signature";
  if (!ok) {
    if (j.v == FINE)
      return what + ": a secret key that fulfils every condition is refused";
    mc::outcome("refused");
    for (auto x : sig)
      if (x != 0xc9)
        return what + ": refused (" + j.why + "), but the signature buffer was written";
    return "";
  }
  if (j.v == BAD)
    return what + ": a secret key that cannot sign (" + j.why + ") is accepted";
  mc::outcome("signed");
  if (j.v == EITHER)
    return "";
  const poly hh = h ? *h : keys::divq(j.g, j.f);
  const auto pk = ref::encode_pk<N>(hh);
  if (!ref::verify<N>(pk.data(), m.data(), m.size(), sig.data() + 32))
    return what + ": the signature does not verify";
  return "";
}
template<size_t N>
static bytes
key_of(const poly& f, const poly& g, const poly& F)
{
  return ref::encode_sk<N>(f, g, F);
}
static poly
plus(const poly& F, const poly& f, int64_t m, size_t j)
{
  poly r(F);
  const size_t n = F.size();
  for (size_t i = 0; i < n; i++) {
    const size_t d = (i + j) % (2 * n);
    const size_t e = d % n;
    const int64_t s = (i + j) % (2 * n) >= n ? -m : m;
    r[e] += s * f[i];
  }
  return r;
}
static bool
within(const poly& a, int64_t m)
{
  for (auto x : a)
    if (std::llabs(x) > m)
      return false;
  return true;
}
// keys of the subring of polynomials in x^(N/n): there F can be altered so that G is fractional at
// the places of one residue class only
struct subkey
{
  poly f, g, F;
};
template<size_t N, size_t n>
static const subkey&
subring(int which)
{
  static std::map<int, subkey> m;
  if (auto it = m.find(which); it != m.end())
    return it->second;
  constexpr int64_t M = N == 512 ? 31 : 15;
  const double A = std::min<double>(M + 0.999, std::sqrt(3 * 15600. / (2 * n)));
  for (uint64_t t = (uint64_t)which << 40;; t++) {
    cands::pair p{ poly(n), poly(n) };
    for (size_t i = 0; i < 2 * n; i++)
      (i < n ? p.f : p.g)[i % n] = (int64_t)(((double)(mc::mix(t * 4096 + i) >> 11) / 9007199254740992. * 2 - 1) * A);
    const auto n2 = cands::norm2(p);
    if (n2 > 16800 || n2 < 9500 || !(cands::dual2(p) < cands::LIMIT * 0.999L))
      continue;
    std::array<mpz_class, n> a, b;
    for (size_t i = 0; i < n; i++) {
      a[i] = mpz_class((long)p.f[i]);
      b[i] = mpz_class((long)p.g[i]);
    }
    const auto r = ntru_gen::ntru_solve(a, b);
    if (!r.second.is_solution())
      continue;
    subkey k{ poly(N), poly(N), poly(N) };
    bool fits = true;
    for (size_t i = 0; i < n; i++) {
      k.f[i * (N / n)] = p.f[i];
      k.g[i * (N / n)] = p.g[i];
      fits = fits && abs(r.first.first[i]) <= 120;
      k.F[i * (N / n)] = r.first.first[i].get_si();
    }
    if (fits && ref::invertible(k.f))
      return m[which] = k;
  }
}
template<size_t N, size_t n>
static void
define_subring()
{
  mc::add(mc::fmt("N=%zu: keys of the subring of x^%zu, F altered so that G is fractional in one residue class only", N, N / n), mc::quick ? 4 * N / 8 : 24 * N, [](uint64_t i) -> std::string {
    const size_t nk = mc::quick ? 4 : 24;
    const auto& k = subring<N, n>((int)(i % nk));
    const size_t j = i / nk * (mc::quick ? 8 : 1) + (mc::quick ? i / nk % 8 : 0);
    if (auto e = i / nk ? "" : attempt<N>(key_of<N>(k.f, k.g, k.F), i, mc::fmt("N=%zu key %d of the subring of x^%zu", N, (int)(i % nk), N / n)); !e.empty())
      return e;
    poly F = k.F;
    F[j % N] += i & 16 ? 1 : -1;
    return attempt<N>(key_of<N>(k.f, k.g, F), i, mc::fmt("N=%zu key %d of the subring of x^%zu, F[%zu] altered", N, (int)(i % nk), N / n, j));
  }, 8, 60);
}
template<size_t N>
static void
define()
{
  const std::string nm = mc::fmt("N=%zu: ", N);
  constexpr size_t L = P<N>::sklen;
  constexpr int64_t M = N == 512 ? 31 : 15;
  const size_t st = mc::quick ? (N == 512 ? 3 : 7) : 1;
  const int nk = mc::quick ? 1 : 3;
  mc::add(nm + "every value of every byte of a stored key", L * 256 / st * nk, [st, nk](uint64_t i) -> std::string {
    const int key = mc::quick ? (int)(i / 7 % 3) : (int)(i % nk);
    i /= nk;
    i = i * st + i / 256 % st;
    bytes sk = keys::get<N>(key).sk;
    const size_t o = i / 256 % L;
    sk[o] = (uint8_t)i;
    return attempt<N>(sk, i, mc::fmt("N=%zu fixture key %d with byte %zu set to %02x", N, key, o, (unsigned)(i & 255)), sk == keys::get<N>(key).sk ? &keys::get<N>(key).h : nullptr);
  }, 64, 60);
  mc::add(nm + "every bit of a stored key", L * 8 * nk, [nk](uint64_t i) -> std::string {
    const int key = mc::quick ? (int)(i % 3) : (int)(i / (L * 8));
    bytes sk = keys::get<N>(key).sk;
    i %= L * 8;
    sk[i / 8] ^= 1 << i % 8;
    return attempt<N>(sk, i, mc::fmt("N=%zu fixture key %d with bit %zu flipped", N, key, (size_t)i));
  }, 64, 60);
  mc::add(nm + "two fields of a stored key exchanged or altered", mc::quick ? 6000 : 200000, [](uint64_t i) -> std::string {
    const auto& k = keys::get<N>((int)(i % 3));
    poly v[3] = { k.f, k.g, k.F };
    const uint64_t h = mc::mix(i);
    poly& a = v[h % 3];
    const size_t x = h >> 8 & (N - 1), y = h >> 24 & (N - 1);
    if (h >> 40 & 1)
      std::swap(a[x], a[y]);
    else {
      const int64_t lim = h % 3 == 2 ? 127 : M;
      if (a[x] < lim && a[y] > -lim)
        a[x]++, a[y]--;
    }
    return attempt<N>(key_of<N>(v[0], v[1], v[2]), i, mc::fmt("N=%zu fixture key %d, coefficients %zu and %zu of %c", N, (int)(i % 3), x, y, "fgF"[h % 3]));
  }, 16, 60);
  mc::add(nm + "keys with all the same conditions: F + m x^j f, rotations, automorphisms", (mc::quick ? 240 : 3000), [](uint64_t i) -> std::string {
    const auto& k = keys::get<N>((int)(i % 3));
    const uint64_t i0 = i;
    i /= 3;
    poly f = k.f, g = k.g, F = k.F, G = k.G;
    std::string what = mc::fmt("N=%zu fixture key %d", N, (int)(i0 % 3));
    if (i % 2) {
      const size_t a = 2 * (mc::mix(i) % N) + 1, j = mc::mix(i * 3) % (2 * N);
      f = cands::image(f, a, j);
      g = cands::image(g, a, j);
      F = cands::image(F, a, 2 * N - j);
      what += mc::fmt(" under x -> x^%zu, times x^%zu", a, j);
    } else {
      const size_t j = mc::mix(i * 5) % (2 * N);
      F = plus(F, f, 1, j);
      what += mc::fmt(", F plus x^%zu f", j);
    }
    if (!within(F, 127)) {
      mc::outcome("F does not fit");
      return "";
    }
    return attempt<N>(key_of<N>(f, g, F), i0, what);
  }, 2, 60);
  mc::add(nm + "candidate pairs with and without completion, conditions at their limits", (N == 512 ? cands::data_512 : cands::data_1024).size() * 2, [](uint64_t i) -> std::string {
    const auto& t = N == 512 ? cands::data_512 : cands::data_1024;
    const auto& c = t[i / 2];
    const auto p = cands::make(N, c);
    if (!within(p.f, M) || !within(p.g, M))
      return "";
    const std::string what = mc::fmt("N=%zu candidate of kind %d", N, c.kind);
    std::array<mpz_class, N> a, b;
    for (size_t j = 0; j < N; j++) {
      a[j] = mpz_class((long)p.f[j]);
      b[j] = mpz_class((long)p.g[j]);
    }
    poly F(N);
    if (i % 2 == 0) {
      const auto r = ntru_gen::ntru_solve(a, b);
      if (r.second.is_solution())
        for (size_t j = 0; j < N; j++)
          F[j] = abs(r.first.first[j]) > 127 ? 0 : r.first.first[j].get_si();
    }
    return attempt<N>(key_of<N>(p.f, p.g, F), i, what);
  }, 1, 120);
  mc::add(nm + "degenerate keys", 6 * 6 * 6 * 4, [](uint64_t i) -> std::string {
    poly v[3];
    std::string what = mc::fmt("N=%zu key of constants", N);
    const int pos = (int)(i % 4);
    i /= 4;
    for (int k = 0; k < 3; k++, i /= 6) {
      static const int64_t C[] = { 0, 1, -1, 2, 5, -9 };
      v[k].assign(N, pos == 3 ? C[i % 6] : 0);
      v[k][pos == 1 ? N / 2 : pos == 2 ? N - 1 : 0] = C[i % 6];
      what += mc::fmt(" %lld", (long long)C[i % 6]);
    }
    return attempt<N>(key_of<N>(v[0], v[1], v[2]), i, what + mc::fmt(" kind %d", pos));
  }, 8, 60);
  mc::add(nm + "every header; keys mixed from two keys", 256 * 3 + 27, [](uint64_t i) -> std::string {
    if (i < 256 * 3) {
      bytes sk = keys::get<N>((int)(i % 3)).sk;
      sk[0] = (uint8_t)(i / 3);
      return attempt<N>(sk, i, mc::fmt("N=%zu fixture key with header %02x", N, (unsigned)(i / 3)));
    }
    i -= 256 * 3;
    return attempt<N>(key_of<N>(keys::get<N>((int)(i % 3)).f, keys::get<N>((int)(i / 3 % 3)).g, keys::get<N>((int)(i / 9)).F), i, mc::fmt("N=%zu f, g, F of fixture keys %d, %d, %d", N, (int)(i % 3), (int)(i / 3 % 3), (int)(i / 9)));
  }, 8, 60);
}

int
main(int argc, char** argv)
{
  return mc::main(argc, argv, [] {
    define<512>();
    define_subring<512, 16>();
    define_subring<512, 64>();
    define_subring<512, 32>();
    define<1024>();
    define_subring<1024, 64>();
    define_subring<1024, 128>();
  });
}
