// A reloaded secret key is the generated one: f, g, F, G, matrix, tree and signatures agree.
#include "fftmap.hpp"
#include "targets.hpp"

using bytes = std::vector<uint8_t>;

template<size_t N>
struct loaded
{
  std::vector<int32_t> f, g, F, G;
  std::vector<fft::cmplx> B, T;
  bool ok;
  explicit loaded(const uint8_t* sk)
    : f(N)
    , g(N)
    , F(N)
    , G(N)
    , B(4 * N)
    , T(N * (P<N>::lg + 1))
  {
    ok = decoding::decode_skey<N>(sk, f.data(), g.data(), F.data());
    if (!ok)
      return;
    falcon::recompute_G<N>(f.data(), g.data(), F.data(), G.data());
    falcon::compute_matrix_B<N>(f.data(), g.data(), F.data(), G.data(), B.data());
    falcon::compute_falcon_tree<N>(B.data(), T.data());
  }
};
static std::string
near(const std::vector<fft::cmplx>& a, const std::vector<fft::cmplx>& b, const char* what)
{
  double m = 0;
  for (auto& x : b)
    m = std::max(m, std::abs(x));
  for (size_t i = 0; i < a.size(); i++)
    if (!(std::abs(a[i] - b[i]) <= 1e-9 * (1 + std::abs(b[i])) + 1e-12 * m))
      return mc::fmt("%s entry %zu is %.12g%+.12gi, at generation it was %.12g%+.12gi", what, i, a[i].real(), a[i].imag(), b[i].real(), b[i].imag());
  return "";
}

// f (G + d g) - g (F + d f) = q as well: G must come out exactly for every such F
template<size_t N>
static std::string
recompute(int key, const std::vector<std::pair<size_t, int64_t>>& d)
{
  const auto& k = keys::get<N>(key);
  poly F = k.F, G = k.G;
  std::string what = mc::fmt("N=%zu fixture key %d", N, key);
  for (auto [j, m] : d) {
    what += mc::fmt(" %+lld x^%zu", (long long)m, j);
    for (size_t i = 0; i < N; i++) {
      const int64_t w = i + j >= N ? -m : m;
      F[(i + j) % N] += w * k.f[i];
      G[(i + j) % N] += w * k.g[i];
    }
  }
  std::vector<int32_t> f(k.f.begin(), k.f.end()), g(k.g.begin(), k.g.end()), F_(F.begin(), F.end()), G_(N + 8, 0x5a5a5a5a);
  falcon::recompute_G<N>(f.data(), g.data(), F_.data(), G_.data() + 4);
  mc::states(1);
  mc::transitions(1);
  for (size_t i = 0; i < N; i++)
    if (G_[4 + i] != G[i])
      return what + mc::fmt(": recomputed G[%zu] = %d, the solution of the NTRU equation is %lld", i, G_[4 + i], (long long)G[i]);
  for (int i = 0; i < 4; i++)
    if (G_[i] != 0x5a5a5a5a || G_[4 + N + i] != 0x5a5a5a5a)
      return what + ": written outside of G";
  for (size_t i = 0; i < N; i++)
    if (f[i] != k.f[i] || g[i] != k.g[i] || F_[i] != F[i])
      return what + ": inputs modified";
  mc::outcome(mc::fmt("N=%zu: G exact", N));
  return "";
}
template<size_t N>
static std::string
fixture(int key)
{
  const auto& k = keys::get<N>(key);
  loaded<N> l(k.sk.data());
  const std::string what = mc::fmt("N=%zu fixture key %d: ", N, key);
  if (!l.ok)
    return what + "the stored secret key is refused";
  const poly* p[4] = { &k.f, &k.g, &k.F, &k.G };
  const std::vector<int32_t>* q[4] = { &l.f, &l.g, &l.F, &l.G };
  for (int a = 0; a < 4; a++)
    for (size_t i = 0; i < N; i++)
      if ((*q[a])[i] != (*p[a])[i])
        return what + mc::fmt("%c[%zu] = %d after reloading, was %lld", "fgFG"[a], i, (*q[a])[i], (long long)(*p[a])[i]);
  // matrix [[g, -f], [G, -F]]
  static const int IDX[4] = { 1, 0, 3, 2 };
  for (int a = 0; a < 4; a++) {
    const auto want = fs::eval(*p[IDX[a]], N);
    const auto got = fftmap::from<P<N>::lg>(l.B.data() + a * N);
    for (size_t j = 0; j < N; j++)
      if (!(std::abs(got[j] - (a % 2 ? -want[j] : want[j])) <= 1e-8L))
        return what + mc::fmt("matrix entry %d at root %zu is wrong", a, j);
  }
  mc::states(1);
  mc::traces(1);
  return "";
}
template<size_t N>
static std::string
generated(uint64_t seed)
{
  auto rng = [&] {
    flat_rng r(seed);
    r.keep = false;
    return r;
  };
  flat_rng r1 = rng(), r2 = rng();
  bytes pk(P<N>::pklen), sk(P<N>::sklen);
  std::vector<fft::cmplx> B(4 * N), T(N * (P<N>::lg + 1));
  std::vector<ff::ff_t> h(N);
  {
    install_rng i(&r1);
    falcon::keygen<N>(pk.data(), sk.data());
  }
  {
    install_rng i(&r2);
    prng::prng_t g;
    keygen::keygen<N>(B.data(), T.data(), h.data(), P<N>::sigma, g);
  }
  mc::transitions(2);
  const std::string what = mc::fmt("N=%zu key generation from stream %d: ", N, (int)seed);
  loaded<N> l(sk.data());
  if (!l.ok)
    return what + "the stored secret key is refused";
  poly f(l.f.begin(), l.f.end()), g(l.g.begin(), l.g.end()), F(l.F.begin(), l.F.end()), G(l.G.begin(), l.G.end());
  const poly a = ref::mulz(f, G), b = ref::mulz(g, F);
  for (size_t i = 0; i < N; i++)
    if (a[i] - b[i] != (i ? 0 : ref::Q))
      return what + "reloaded f, g, F with recomputed G do not solve the NTRU equation";
  for (int e = 0; e < 4; e++) {
    const poly& want = e == 0 ? g : e == 1 ? f : e == 2 ? G : F;
    const auto c = fs::coefs(fftmap::from<P<N>::lg>(B.data() + e * N));
    for (size_t i = 0; i < N; i++)
      if (!(fabsl(c[i] - (fs::ld)(e % 2 ? -want[i] : want[i])) < 1e-6L))
        return what + mc::fmt("reloaded %c[%zu] = %lld, at generation it was %.3Lf", "gfGF"[e], i, (long long)want[i], e % 2 ? -c[i] : c[i]);
  }
  if (auto r = near(l.B, B, "matrix"); !r.empty())
    return what + r;
  if (auto r = near(l.T, T, "tree"); !r.empty())
    return what + r;
  // the geometric mean of the leaves averages the rounding errors out
  const std::function<fs::ld(const fs::tree&)> logs = [&](const fs::tree& t) { return t.l10.size() == 2 ? logl(t.leaf[0]) + logl(t.leaf[1]) : logs(*t.left) + logs(*t.right); };
  const fs::ld dm = (logs(*fftmap::tree_from<P<N>::lg>(l.T.data())) - logs(*fftmap::tree_from<P<N>::lg>(T.data()))) / N;
  if (!(fabsl(dm) < 1e-12L))
    return what + mc::fmt("the leaves of the reloaded tree are wider by a factor of 1%+.3Lg on average", dm);
  poly hp;
  if (!ref::decode_pk<N>(pk.data(), hp))
    return what + "the public key does not decode";
  for (size_t i = 0; i < N; i++)
    if (hp[i] != h[i].v)
      return what + mc::fmt("public key coefficient %zu differs between the two interfaces", i);
  // signatures with the same bytes: stored key, reloaded matrix, generated matrix
  for (int m = 0; m < 12; m++) {
    bytes s[3];
    const bytes msg(m * 7, (uint8_t)m);
    for (int v = 0; v < 3; v++) {
      flat_rng e(seed * 100 + m);
      install_rng i(&e);
      s[v].resize(P<N>::siglen);
      if (v == 0)
        falcon::sign<N>(sk.data(), msg.data(), msg.size(), s[v].data());
      else {
        prng::prng_t p;
        falcon::sign<N>(v == 1 ? l.B.data() : B.data(), v == 1 ? l.T.data() : T.data(), msg.data(), msg.size(), s[v].data(), p);
      }
      mc::transitions(1);
    }
    if (s[0] != s[1] || s[0] != s[2])
      return what + mc::fmt("signature %d from the %s differs from the one of the stored key", m, s[0] != s[1] ? "reloaded matrix" : "generated matrix");
  }
  mc::states(1);
  mc::traces(1);
  mc::outcome(mc::fmt("N=%zu: generated key reloads", N));
  return "";
}

// both interfaces read the same environment
template<size_t N>
static std::string
same(int key, const std::function<std::unique_ptr<env::rng_source>()>& rng, const poly* c, const bytes& msg, const std::string& what)
{
  loaded<N> l(keys::get<N>(key).sk.data());
  bytes s[2];
  for (int v = 0; v < 2; v++) {
    auto r = rng();
    chosen_c x;
    if (c)
      x.c = *c;
    install_rng i(r.get());
    install_xof j(c ? &x : nullptr);
    s[v].assign(P<N>::siglen, 0x99 * v);
    if (v == 0)
      falcon::sign<N>(keys::get<N>(key).sk.data(), msg.data(), msg.size(), s[v].data());
    else {
      prng::prng_t p;
      falcon::sign<N>(l.B.data(), l.T.data(), msg.data(), msg.size(), s[v].data(), p);
    }
    mc::transitions(1);
  }
  mc::states(1);
  mc::traces(1);
  if (s[0] != s[1])
    return what + ": signatures of the stored key and of the matrix and tree differ";
  mc::outcome(mc::fmt("N=%zu: same signature", N));
  return "";
}
struct altered_flat : flat_rng
{
  size_t where;
  uint8_t mask;
  altered_flat(uint64_t s, size_t w, uint8_t m)
    : flat_rng(s)
    , where(w)
    , mask(m)
  {
    keep = false;
  }
  bool read(uint8_t* o, size_t n, env::sponge& sp) override
  {
    const size_t at = pos;
    flat_rng::read(o, n, sp);
    if (where >= at && where < at + n)
      o[where - at] ^= mask;
    return true;
  }
};

template<size_t N>
static void
define()
{
  const std::string nm = mc::fmt("N=%zu: ", N);
  mc::add(nm + "fixture keys reload", 3, fixture<N>);
  mc::add(nm + "G recomputed for F + m x^j f, all j, m in +-1..3", 3 * N, [](uint64_t i) -> std::string {
    for (int m : { 1, -1, 2, -2, 3, -3 })
      if (auto r = recompute<N>(i / N, { { i % N, m } }); !r.empty())
        return r;
    return "";
  }, 8);
  mc::add(nm + "G recomputed for F + (x^i + m x^j) f", 3 * N * (mc::quick ? 1 : 16), [](uint64_t i) -> std::string {
    const int key = i % 3;
    i /= 3;
    const size_t a = i % N;
    for (size_t b = (i / N * 7) % 64; b < N; b += 64)
      if (b != a)
        if (auto r = recompute<N>(key, { { a, 1 }, { b, (int64_t)(mc::mix(i + b) % 5) - 2 } }); !r.empty())
          return r;
    return "";
  }, 8);
  mc::add(nm + "generated keys", mc::quick ? (N == 512 ? 16 : 8) : 200, [](uint64_t i) -> std::string { return generated<N>(3000 + i); }, 1, 200);
  mc::add(nm + "signatures from pseudo random streams", 3 * (mc::quick ? 300 : 5000), [](uint64_t i) -> std::string {
    return same<N>(i % 3, [i] { return std::make_unique<flat_rng>(50 + i); }, nullptr, bytes(i % 211, (uint8_t)i), mc::fmt("stream %d", (int)i));
  }, 4);
  mc::add(nm + "signatures, message lengths and contents, special salts", 20 * 6, [](uint64_t i) -> std::string {
    static const size_t LEN[] = { 0, 1, 95, 96, 97, 135, 136, 137, 255, 256, 511, 512, 1023, 4096, 8191, 65535, 65536, 65537, 262144, (1 << 20) + 1 };
    const size_t n = LEN[i % 20];
    const int k = (int)(i / 20);
    bytes m(n);
    for (size_t j = 0; j < n; j++)
      m[j] = k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? (uint8_t)j : (uint8_t)mc::mix(i * 0x1000000 + j);
    return same<N>((int)(i % 3), [=] {
      auto r = std::make_unique<flat_rng>(7000 + i);
      if (k < 5)
        r->prefix.assign(40, k == 3 ? 0 : k == 4 ? 0xff : (uint8_t)i);
      return r;
    }, nullptr, m, mc::fmt("message of %zu bytes, kind %d", n, k));
  }, 2, 60);
  mc::add(nm + "signatures with one altered random byte", mc::quick ? 600 : 12000, [](uint64_t i) -> std::string {
    const size_t w = mc::quick ? (i * 31) % 18600 : i;
    return same<N>(i % 3, [=] { return std::make_unique<altered_flat>(3, w, i & 1 ? 0xff : 0x80); }, nullptr, { 1, 2 }, mc::fmt("random byte %zu altered", w));
  }, 4);
  constexpr int K = KINDS;
  mc::add(nm + "every history of up to 2 rejected attempts", (1 + K + K * K) * (mc::quick ? 3 : 24), [](uint64_t id) -> std::string {
    const int rep = id % (mc::quick ? 3 : 24), key = rep % 3;
    id /= mc::quick ? 3 : 24;
    const target ok = with_bits<N>(-3, rep + 13, P<N>::beta2 / 10 * 8);
    if (ok.s1.empty())
      return "";
    const auto& p = directed::prep<N>(key);
    poly c = ref::mulq(ok.s2, p.k->h);
    for (size_t i = 0; i < N; i++)
      c[i] = ref::modq(c[i] + ok.s1[i]);
    const int len = id == 0 ? 0 : id <= K ? 1 : 2;
    id -= len == 0 ? 0 : len == 1 ? 1 : 1 + K;
    script s;
    std::string what = "rejections:";
    for (int i = 0; i < len; i++, id /= K) {
      target bad;
      if (!rejected<N>(id % K, key, ok, rep * 100 + i * 10, bad) || !directed::plan_attempt<N>(p, c, bad.s1, bad.s2, s)) {
        mc::outcome("history not constructible");
        return "";
      }
      what += " [" + bad.name + "]";
    }
    if (!directed::plan_attempt<N>(p, c, ok.s1, ok.s2, s))
      return "";
    return same<N>(key, [&] {
      auto r = std::make_unique<scripted_rng>(5);
      r->salt.assign(40, 0x42);
      r->s = s;
      return r;
    }, &c, { 1, 2, 3 }, what);
  });
}

int
main(int argc, char** argv)
{
  return mc::main(argc, argv, [] {
    define<512>();
    define<1024>();
  });
}
