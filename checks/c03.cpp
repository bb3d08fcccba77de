// Key generation: candidates (f, g) are chosen by the explorer through the random bytes; every key
// pair that is returned is judged in exact arithmetic.
#include "canddata.hpp"
#include "fftmap.hpp"
#include "targets.hpp"

using bytes = std::vector<uint8_t>;
using cands::cand;

struct stop
{};
struct cand_rng : scripted_rng
{
  bool may_stop;
  cand_rng(bool st, uint64_t seed)
    : scripted_rng(seed)
    , may_stop(st)
  {
  }
  bool read(uint8_t* o, size_t n, env::sponge& sp) override
  {
    if (may_stop && finished())
      throw stop{};
    return scripted_rng::read(o, n, sp);
  }
};
// sampler answers whose sums are the coefficients
template<size_t N>
static void
plan(const poly& p, script& out)
{
  constexpr int64_t k = 4096 / N;
  for (int64_t v : p) {
    const int64_t q = v / k, r = v % k;
    for (int64_t j = 0; j < k; j++) {
      const int64_t z = q + (j < std::llabs(r) ? (v < 0 ? -1 : 1) : 0);
      directed::attempt a;
      const int z0 = z >= 1 ? (int)z - 1 : (int)-z;
      const fs::u128 u = z0 < 18 ? fs::rcdt()[z0] : 0;
      for (int i = 0; i < 9; i++)
        a.base[i] = (uint8_t)(u >> (8 * i));
      a.sign = (uint8_t)((z >= 1) | 0x54);
      constexpr fs::ld sg = 1.43300980528773L;
      a.ties = directed::ties_for(z * z / (2 * sg * sg) - z0 * z0 / (2 * fs::SIGMA_MAX * fs::SIGMA_MAX), P<N>::sigma_min / sg);
      out.push_back(a);
    }
  }
}

template<size_t N>
static std::string
judge(const poly& f, const poly& g, const poly& F, const poly* Gp, const poly& h, const std::string& what)
{
  poly G;
  if (Gp)
    G = *Gp;
  else { // (q + g F) / f
    const auto a = fs::eval(f, N), b = fs::eval(g, N), c = fs::eval(F, N);
    fs::vec d(N);
    for (size_t j = 0; j < N; j++)
      d[j] = (fs::mul(b[j], c[j]) + (fs::ld)ref::Q) * std::conj(a[j]) / std::norm(a[j]);
    for (auto x : fs::coefs(d))
      G.push_back((int64_t)roundl(x));
  }
  const poly x = ref::mulz(f, G), y = ref::mulz(g, F);
  for (size_t i = 0; i < N; i++)
    if (x[i] - y[i] != (i ? 0 : ref::Q))
      return what + mc::fmt(": the returned key does not satisfy f*G - g*F = q (coefficient %zu)", i);
  if (!ref::invertible(f))
    return what + ": the returned f is not invertible modulo q";
  const poly z = ref::mulq(f, h);
  for (size_t i = 0; i < N; i++) {
    if (h[i] < 0 || h[i] >= ref::Q)
      return what + mc::fmt(": h[%zu] = %lld", i, (long long)h[i]);
    if (ref::modq(z[i]) != ref::modq(g[i]))
      return what + mc::fmt(": the returned public key is not g/f (coefficient %zu of f*h)", i);
  }
  const cands::pair p{ f, g };
  if (cands::norm2(p) > 16822)
    return what + mc::fmt(": squared norm of (f, g) is %lld, above 1.17^2 q", (long long)cands::norm2(p));
  if (const auto d = cands::dual2(p); d > cands::LIMIT * (1 + 1e-9L))
    return what + mc::fmt(": squared Gram-Schmidt norm is %.4Lf, above 1.17^2 q", d);
  // encodes and decodes
  std::vector<int32_t> v[3] = { { f.begin(), f.end() }, { g.begin(), g.end() }, { F.begin(), F.end() } }, w[3];
  bytes sk(P<N>::sklen);
  encoding::encode_skey<N>(v[0].data(), v[1].data(), v[2].data(), sk.data());
  for (auto& a : w)
    a.assign(N, 0x5555);
  const bool ok = decoding::decode_skey<N>(sk.data(), w[0].data(), w[1].data(), w[2].data());
  for (int k = 0; k < 3; k++)
    for (size_t i = 0; i < N; i++)
      if (!ok || v[k][i] != w[k][i])
        return what + mc::fmt(": the encoded secret key %s (%c[%zu] = %d)", ok ? "decodes differently" : "is refused", "fgF"[k], i, v[k][i]);
  return "";
}

// runs one of the three key generation interfaces; out: f, for outcome statistics
template<size_t N>
static std::string
generate(int api, env::rng_source& r, const std::string& what, poly* fout = nullptr)
{
  install_rng in(&r);
  poly f, g, F, G, h;
  bool haveG = false;
  mc::transitions(1);
  if (api == 0) {
    std::vector<int32_t> v[4];
    for (auto& a : v)
      a.assign(N + 8, 0x77777777);
    std::vector<ff::ff_t> hh(N);
    prng::prng_t rng;
    ntru_gen::ntru_gen<N>(v[0].data() + 4, v[1].data() + 4, v[2].data() + 4, v[3].data() + 4, rng);
    keygen::compute_public_key<N>(v[0].data() + 4, v[1].data() + 4, hh.data());
    poly* p[4] = { &f, &g, &F, &G };
    for (int a = 0; a < 4; a++) {
      p[a]->assign(v[a].begin() + 4, v[a].end() - 4);
      for (int i = 0; i < 4; i++)
        if (v[a][i] != 0x77777777 || v[a][N + 4 + i] != 0x77777777)
          return what + ": written outside of an output polynomial";
    }
    for (auto& x : hh)
      h.push_back(x.v);
    haveG = true;
  } else if (api == 1) {
    bytes pk(P<N>::pklen + 64, 0xe7), sk(P<N>::sklen + 64, 0xe7);
    falcon::keygen<N>(pk.data() + 32, sk.data() + 32);
    for (int i = 0; i < 32; i++)
      if (pk[i] != 0xe7 || sk[i] != 0xe7 || pk[pk.size() - 1 - i] != 0xe7 || sk[sk.size() - 1 - i] != 0xe7)
        return what + ": written outside of the key buffers";
    if (!ref::decode_pk<N>(pk.data() + 32, h))
      return what + ": the returned public key does not decode";
    std::vector<int32_t> v[3];
    for (auto& a : v)
      a.assign(N, 0);
    if (!decoding::decode_skey<N>(sk.data() + 32, v[0].data(), v[1].data(), v[2].data()))
      return what + ": the returned secret key does not decode";
    poly* p[3] = { &f, &g, &F };
    for (int a = 0; a < 3; a++)
      p[a]->assign(v[a].begin(), v[a].end());
  } else {
    std::vector<fft::cmplx> B(4 * N), T(N * (P<N>::lg + 1));
    std::vector<ff::ff_t> hh(N);
    prng::prng_t rng;
    keygen::keygen<N>(B.data(), T.data(), hh.data(), P<N>::sigma, rng);
    poly* p[4] = { &g, &f, &G, &F };
    for (int a = 0; a < 4; a++)
      for (auto x : fs::coefs(fftmap::from<P<N>::lg>(B.data() + a * N))) {
        if (!(fabsl(x - roundl(x)) < 1e-6L))
          return what + ": the returned basis matrix is not integral";
        p[a]->push_back((int64_t)roundl(x) * (a % 2 ? -1 : 1));
      }
    for (auto& x : hh)
      h.push_back(x.v);
    haveG = true;
  }
  mc::traces(1);
  if (fout)
    *fout = f;
  return judge<N>(f, g, F, haveG ? &G : nullptr, h, what);
}

static const char* KNAME[] = { "good", "good, squared norm 16822", "squared norm 16823", "dual norm slightly too long", "good, dual norm slightly below the limit", "f not invertible", "good, g not invertible", "both norms even", "norms with an odd common factor", "coefficient of f out of range", "coefficient of g out of range", "good, largest f", "good, largest g", "|F| = 128", "|F| > 128", "far too long", "good, |G| > 127" };
template<size_t N>
static const std::vector<cand>&
table();
template<>
const std::vector<cand>&
table<512>()
{
  return cands::data_512;
}
template<>
const std::vector<cand>&
table<1024>()
{
  return cands::data_1024;
}
template<size_t N>
static const cands::pair&
base_pair(const cand& c)
{
  static std::map<uint64_t, cands::pair> m;
  auto it = m.find(c.seed);
  if (it != m.end())
    return it->second;
  const auto p = cands::make(N, c);
  const auto n2 = cands::norm2(p);
  const auto d = cands::dual2(p);
  bool fine = ref::invertible(p.f) != (c.kind == cands::NONINV) && n2 == c.A + c.B;
  fine = fine && (c.kind == cands::DUAL) == (d > cands::LIMIT);
  if (!fine && c.kind != cands::NORM_FAR) {
    fprintf(stderr, "candidate table is inconsistent: kind %d seed %llu\n", c.kind, (unsigned long long)c.seed);
    abort();
  }
  return m[c.seed] = p;
}
static bool
good(int kind)
{
  return kind == cands::GOOD || kind == cands::GOOD_EDGE || kind == cands::GOOD_DUAL || kind == cands::GOOD_G_NONINV || kind == cands::GOOD_F31 || kind == cands::GOOD_G31 || kind == cands::GOOD_BIGG;
}
struct pick
{
  const cand* c;
  size_t k, j; // symmetry
};
template<size_t N>
static std::string
run(int api, const std::vector<pick>& seq, bool end_after, size_t rounds = 1)
{
  cand_rng r(end_after, 1);
  std::string what = mc::fmt("N=%zu candidates:", N);
  poly lastf;
  for (auto& p : seq) {
    const auto q = cands::image(base_pair<N>(*p.c), p.k, p.j);
    plan<N>(q.f, r.s);
    plan<N>(q.g, r.s);
    what += std::string(" [") + KNAME[p.c->kind] + mc::fmt(", image %zu/%zu]", p.k, p.j);
    lastf = q.f;
  }
  if (rounds > 1) { // all but the last candidate, again and again
    r.head = r.s.size() / seq.size() * (seq.size() - 1);
    r.rounds = rounds;
    r.keep = false;
    what = mc::fmt("%zu times the first: ", rounds) + what;
  }
  poly f;
  mc::states(1);
  try {
    if (auto e = generate<N>(api, r, what, &f); !e.empty())
      return e;
    mc::outcome(mc::fmt("N=%zu returned ", N) + (f == lastf ? std::string(KNAME[seq.back().c->kind]) : std::string("another candidate")));
  } catch (stop&) {
    mc::outcome(mc::fmt("N=%zu rejected: ", N) + KNAME[seq.back().c->kind]);
  }
  return "";
}

template<size_t N>
static void
define()
{
  const std::string nm = mc::fmt("N=%zu: ", N);
  const auto& t = table<N>();
  static std::vector<const cand*> bad, ok, cheap;
  static const cand* one[cands::NKINDS]{};
  for (auto& c : t) {
    (good(c.kind) ? ok : bad).push_back(&c);
    if (!one[c.kind])
      one[c.kind] = &c;
    if (c.kind == cands::NONINV || c.kind == cands::F32 || c.kind == cands::G32 || c.kind == cands::NORM || c.kind == cands::DUAL || c.kind == cands::NORM_FAR)
      cheap.push_back(&c);
  }
  const size_t st = mc::quick ? (N == 512 ? 2 : 8) : 1;
  // a single candidate, moved to every position / every root by the symmetries
  mc::add(nm + "candidates that violate one condition, every rotation", cheap.size() * 2 * N / st, [st](uint64_t i) -> std::string {
    const size_t c = i % cheap.size();
    i /= cheap.size();
    const size_t j = (i * st + c % st) % (2 * N);
    return run<N>(0, { { cheap[c], 1, j } }, true);
  }, 8, 60);
  mc::add(nm + "candidates that violate one condition, every automorphism x -> x^k", cheap.size() * N / st, [st](uint64_t i) -> std::string {
    const size_t c = i % cheap.size();
    i /= cheap.size();
    const size_t k = 2 * ((i * st + c % st) % N) + 1;
    return run<N>(0, { { cheap[c], k, 0 } }, true);
  }, 8, 60);
  // the expensive ones
  mc::add(nm + "candidates rejected after solving (and good ones), through all three interfaces", t.size() * 3, [](uint64_t i) -> std::string {
    const auto& t = table<N>();
    return run<N>(i / t.size(), { { &t[i % t.size()], 1, 0 } }, true);
  }, 1, 120);
  mc::add(nm + "large F or extreme f, g moved by symmetries", (mc::quick ? (N == 512 ? 60 : 15) : 640), [](uint64_t i) -> std::string {
    static const int K[] = { cands::BIGF, cands::GOOD_F31, cands::BIGF2, cands::GOOD_G31, cands::GOOD_BIGG };
    const cand* c = one[K[i % 5]];
    if (!c)
      return "";
    i /= 5;
    return run<N>(i % 3, { { c, 2 * (i * 37 % N) + 1, i * 113 % (2 * N) } }, true);
  }, 1, 120);
  // histories
  static std::vector<const cand*> b1;
  for (int k = 0; k < cands::NKINDS; k++)
    if (one[k] && !good(k))
      b1.push_back(one[k]);
  const uint64_t nb = b1.size();
  const int depth = mc::quick ? (N == 512 ? 2 : 1) : N == 512 ? 3 : 2;
  uint64_t total = 0, pw = 1;
  for (int i = 0; i <= depth; i++, pw *= nb)
    total += pw;
  mc::add(nm + mc::fmt("every history of up to %d rejected candidates, then a good one", depth), total, [nb](uint64_t id) -> std::string {
    const uint64_t id0 = id;
    int len = 0;
    for (uint64_t pw = 1; id >= pw; pw *= nb)
      id -= pw, len++;
    std::vector<pick> s;
    for (int i = 0; i < len; i++, id /= nb)
      s.push_back({ b1[id % nb], 2 * (size_t)(mc::mix(id0 + i) % N) + 1, (size_t)(mc::mix(id0 * 3 + i) % (2 * N)) });
    s.push_back({ ok[id0 % ok.size()], 2 * (size_t)(id0 % N) + 1, (size_t)(id0 * 7 % (2 * N)) });
    return run<N>(len == 0 ? 1 : 1 + id0 % 2 * (mc::quick ? 0 : 1), s, false);
  }, 1, 240);
  // polynomials of different candidates in one stream: whatever pair is formed of them, what is
  // returned must be consistent
  mc::add(nm + "streams which pair polynomials of different candidates", b1.size() * cheap.size() * 8, [](uint64_t id) -> std::string {
    const cand &x = *b1[id % b1.size()], &y = *cheap[id / b1.size() % cheap.size()];
    const int form = id / b1.size() / cheap.size();
    const auto &a = base_pair<N>(x), &b = base_pair<N>(y);
    std::vector<const poly*> ps;
    const poly* other = form & 1 ? &b.f : &b.g;
    switch (form / 2) {
      case 0: ps = { &a.f, other, &a.g }; break;
      case 1: ps = { other, &a.g, &a.f }; break;
      case 2: ps = { &a.f, other, other, &a.g }; break;
      default: ps = { other, &b.g, &a.f, other, &a.g }; break;
    }
    cand_rng r(true, 1);
    for (auto q : ps)
      plan<N>(*q, r.s);
    mc::states(1);
    const std::string what = mc::fmt("N=%zu stream of polynomials, form %d: [", N, form) + KNAME[x.kind] + "], [" + KNAME[y.kind] + "]";
    try {
      if (auto e = generate<N>(id % 3, r, what); !e.empty())
        return e;
      mc::outcome(mc::fmt("N=%zu: mixed stream: returned", N));
    } catch (stop&) {
      mc::outcome(mc::fmt("N=%zu: mixed stream: all rejected", N));
    }
    return "";
  }, 1, 240);
  static const size_t ROUNDS[] = { 9, 17, 33, 65, 101, 129, 257, 513, 1001, 1025, 4097 };
  mc::add(nm + "long histories of rejected candidates, then a good one", cheap.size() * (mc::quick ? N == 512 ? 9 : 7 : 11), [](uint64_t id) -> std::string {
    const size_t k = id / cheap.size();
    mc::states(ROUNDS[k]);
    mc::outcome(mc::fmt("N=%zu: the same candidate %zu times", N, ROUNDS[k]));
    return run<N>(id % 2 ? 0 : 2, { { cheap[id % cheap.size()], 1, 0 }, { ok[id % ok.size()], 1, 0 } }, false, ROUNDS[k]);
  }, 1, 600);
  mc::add(nm + "pseudo random streams", mc::quick ? (N == 512 ? 16 : 4) : 400, [](uint64_t i) -> std::string {
    flat_rng r(9000 + i);
    r.keep = false;
    mc::states(1);
    return generate<N>(i % 3, r, mc::fmt("N=%zu stream %d", N, (int)i));
  }, 1, 240);
}

#ifndef NO_MAIN
int
main(int argc, char** argv)
{
  return mc::main(argc, argv, [] {
#ifdef PART_1024
    define<1024>();
#else
    define<512>();
#endif
  });
}
#endif
