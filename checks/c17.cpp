// Concurrent calls: real threads under a scheduler that decides every switch, every memory access
// of the library observed (see c17rt.cpp).  For each combination of operations: a happens-before
// race check, and the results of every explored schedule against those of each thread alone.
#include "c17rt.h"
#include "targets.hpp"

using bytes = std::vector<uint8_t>;

struct lib // the library runs
{
  lib() { rt::track(true); }
  ~lib() { rt::track(false); }
};
struct counter_rng : env::rng_source
{
  uint64_t seed, pos = 0;
  explicit counter_rng(uint64_t s)
    : seed(s)
  {
  }
  bool read(uint8_t* o, size_t n, env::sponge&) override
  {
    for (size_t i = 0; i < n; i++, pos++)
      o[i] = (uint8_t)(mc::mix(seed * 1000003 + pos / 8 + 1) >> (8 * (pos % 8)));
    return true;
  }
};
struct sink
{
  uint64_t h = 1, n = 0;
  void put(const void* p, size_t len)
  {
    h = mc::hash(p, len, h);
    n += len;
  }
  void put(bool b) { put(&b, 1); }
};
// --- inputs, shared read-only by all threads, computed without this process calling the library -----
struct inputs_t
{
  uint8_t sig512[3][666], sig1024[3][1280];
  alignas(16) uint8_t B512[4 * 512 * 16], T512[512 * 10 * 16], B1024[4 * 1024 * 16], T1024[1024 * 11 * 16];
};
static inputs_t* IN;
static const bytes MSG[3] = { { 1, 2, 3, 4, 5 }, bytes(200, 0x61), {} };
template<size_t N>
static uint8_t*
sig_of(int key)
{
  return N == 512 ? IN->sig512[key] : IN->sig1024[key];
}
template<size_t N>
static const fft::cmplx*
B_of()
{
  return (const fft::cmplx*)(N == 512 ? IN->B512 : IN->B1024);
}
template<size_t N>
static const fft::cmplx*
T_of()
{
  return (const fft::cmplx*)(N == 512 ? IN->T512 : IN->T1024);
}
struct plan
{
  poly c;
  script s;
  bool ok = false;
};
static plan PLAN[5]; // first attempt rejected for one of five reasons
static void
prepare()
{
  if (IN)
    return;
  IN = (inputs_t*)mmap(nullptr, sizeof *IN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int i = 0; i < 3; i++) {
    keys::get<512>(i);
    keys::get<1024>(i);
  }
  for (int k = 0; k < KINDS; k++) {
    plan& q = PLAN[k];
    const auto& p = directed::prep<512>(0);
    for (uint64_t seed = 5; seed < 30 && !q.ok; seed++) {
      target good = with_bits<512>(-2, seed, P<512>::beta2 / 10 * 8), bad;
      if (good.s1.empty() || !rejected<512>(k, 0, good, seed, bad))
        continue;
      q.c = ref::mulq(good.s2, p.k->h);
      for (size_t i = 0; i < 512; i++)
        q.c[i] = ref::modq(q.c[i] + good.s1[i]);
      q.s.clear();
      q.ok = directed::plan_attempt<512>(p, q.c, bad.s1, bad.s2, q.s) && directed::plan_attempt<512>(p, q.c, good.s1, good.s2, q.s);
    }
  }
  fflush(nullptr);
  const pid_t c = fork();
  if (!c) {
    auto go = []<size_t N>(std::integral_constant<size_t, N>) {
      for (int k = 0; k < 3; k++) {
        counter_rng r(77 + k);
        install_rng i(&r);
        falcon::sign<N>(keys::get<N>(k).sk.data(), MSG[k].data(), MSG[k].size(), sig_of<N>(k));
      }
      const auto& e = expand<N>(0);
      memcpy((void*)B_of<N>(), e.B.data(), 4 * N * 16);
      memcpy((void*)T_of<N>(), e.T.data(), N * (P<N>::lg + 1) * 16);
    };
    go(std::integral_constant<size_t, 512>{});
    go(std::integral_constant<size_t, 1024>{});
    _exit(0);
  }
  int st;
  waitpid(c, &st, 0);
}
// --- operations ---------------------------------------------------------------------------------------
template<size_t N>
static void
op_sign(sink& o, int key, int msg, uint64_t stream)
{
  counter_rng r(stream);
  install_rng i(&r);
  std::vector<uint8_t> sig(P<N>::siglen);
  bool ok;
  {
    lib l;
    ok = falcon::sign<N>(keys::get<N>(key).sk.data(), MSG[msg].data(), MSG[msg].size(), sig.data());
  }
  o.put(ok);
  o.put(sig.data(), sig.size());
}
template<size_t N>
static void
op_signBT(sink& o, int msg, uint64_t stream)
{
  counter_rng r(stream);
  install_rng i(&r);
  std::vector<uint8_t> sig(P<N>::siglen);
  {
    lib l;
    prng::prng_t g;
    falcon::sign<N>(B_of<N>(), T_of<N>(), MSG[msg].data(), MSG[msg].size(), sig.data(), g);
  }
  o.put(sig.data(), sig.size());
}
static void
op_rejected(sink& o, int kind)
{
  const plan& q = PLAN[kind];
  if (!q.ok)
    return;
  scripted_rng r(3);
  r.salt.assign(40, 0x33);
  r.s = q.s;
  chosen_c x;
  x.c = q.c;
  install_rng i(&r);
  install_xof j(&x);
  std::vector<uint8_t> sig(P<512>::siglen);
  bool ok;
  {
    lib l;
    ok = falcon::sign<512>(keys::get<512>(0).sk.data(), MSG[0].data(), MSG[0].size(), sig.data());
  }
  o.put(ok);
  o.put(sig.data(), sig.size());
}
template<size_t N>
static void
op_verify(sink& o, int key, int signer, int msg, int damage)
{
  const uint8_t* pk = keys::get<N>(key).pk.data();
  uint8_t* s = sig_of<N>(signer); // shared by all threads, must only be read
  bytes s2, p2;
  if (damage) {
    s2.assign(s, s + P<N>::siglen);
    p2 = keys::get<N>(key).pk;
    if (damage == 1)
      s2[0] ^= 1;
    if (damage == 2)
      s2[100] ^= 0x7f;
    if (damage == 3)
      std::fill(s2.begin() + 41, s2.end(), 0);
    if (damage == 4)
      p2[1] = p2[2] = 0xff;
    s = s2.data();
    pk = p2.data();
  }
  bool ok;
  {
    lib l;
    ok = falcon::verify<N>(pk, MSG[msg].data(), MSG[msg].size(), s);
  }
  o.put(ok);
}
template<size_t N>
static void
op_codec(sink& o, int kind)
{
  const auto& k = keys::get<N>(kind % 3);
  std::vector<ff::ff_t> h(N);
  std::vector<int32_t> f(N), g(N), F(N), G(N);
  if (kind < 3) {
    bytes pk(P<N>::pklen), sk(P<N>::sklen), bad = k.sk;
    bad[0] ^= 1;
    std::vector<fft::cmplx> B(4 * N);
    {
      lib l;
      decoding::decode_pkey<N>(k.pk.data(), h.data());
      decoding::decode_skey<N>(bad.data(), f.data(), g.data(), F.data());
      decoding::decode_skey<N>(k.sk.data(), f.data(), g.data(), F.data());
      falcon::recompute_G<N>(f.data(), g.data(), F.data(), G.data());
      falcon::compute_matrix_B<N>(f.data(), g.data(), F.data(), G.data(), B.data());
      keygen::compute_public_key<N>(f.data(), g.data(), h.data());
      encoding::encode_pkey<N>(h.data(), pk.data());
      encoding::encode_skey<N>(f.data(), g.data(), F.data(), sk.data());
    }
    o.put(G.data(), 4 * N);
    o.put(B.data(), B.size() * 16);
    o.put(pk.data(), pk.size());
    o.put(sk.data(), sk.size());
  } else if (kind < 5) {
    bytes sig(P<N>::siglen);
    for (size_t i = 0; i < N; i++)
      f[i] = kind == 3 ? (int32_t)(mc::mix(i) % 301) - 150 : 1900;
    bool a, b;
    {
      lib l;
      a = encoding::compress_sig<N, P<N>::siglen>(f.data(), sig.data());
      b = decoding::decompress_sig<N, P<N>::siglen>(sig.data(), g.data());
    }
    o.put(a);
    o.put(b);
    o.put(sig.data() + 41, sig.size() - 41);
    o.put(g.data(), 4 * N);
  } else {
    const uint8_t salt[40] = { 1, 2, 3 };
    {
      lib l;
      hashing::hash_to_point<N>(salt, 40, MSG[1].data(), MSG[1].size(), h.data());
    }
    o.put(h.data(), 2 * N);
  }
}
template<size_t N>
static void
op_keygen(sink& o, uint64_t stream)
{
  counter_rng r(stream);
  install_rng i(&r);
  bytes pk(P<N>::pklen), sk(P<N>::sklen);
  {
    lib l;
    falcon::keygen<N>(pk.data(), sk.data());
  }
  o.put(pk.data(), pk.size());
  o.put(sk.data(), sk.size());
}
template<size_t N>
static void
op_keygenBT(sink& o, uint64_t stream)
{
  counter_rng r(stream);
  install_rng i(&r);
  std::vector<fft::cmplx> B(4 * N), T(N * (P<N>::lg + 1));
  std::vector<ff::ff_t> h(N);
  {
    lib l;
    prng::prng_t g;
    keygen::keygen<N>(B.data(), T.data(), h.data(), P<N>::sigma, g);
  }
  o.put(B.data(), B.size() * 16);
  o.put(T.data(), T.size() * 16);
  o.put(h.data(), 2 * N);
}
static void
op_sampler(sink& o)
{
  counter_rng r(9);
  install_rng i(&r);
  lib l;
  prng::prng_t g;
  for (int k = 0; k < 40; k++) {
    const int z = samplerz::samplerz(k * 0.37, 1.3 + k * 0.01, 1.277833697, g);
    o.put(&z, 4);
  }
}
struct op_t
{
  const char* name;
  void (*run)(sink&);
};
static const op_t OPS[] = {
  { "sign 512 key 0 message 0", [](sink& o) { op_sign<512>(o, 0, 0, 1); } },
  { "sign 512 key 1 message 1", [](sink& o) { op_sign<512>(o, 1, 1, 2); } },
  { "sign 512 B,T message 0", [](sink& o) { op_signBT<512>(o, 0, 3); } },
  { "sign 1024 key 0 message 0", [](sink& o) { op_sign<1024>(o, 0, 0, 1); } },
  { "sign 1024 B,T message 1", [](sink& o) { op_signBT<1024>(o, 1, 3); } },
  { "verify 512 valid", [](sink& o) { op_verify<512>(o, 0, 0, 0, 0); } },
  { "verify 512 valid, key 1", [](sink& o) { op_verify<512>(o, 1, 1, 1, 0); } },
  { "verify 512 other message", [](sink& o) { op_verify<512>(o, 0, 0, 1, 0); } },
  { "verify 1024 valid", [](sink& o) { op_verify<1024>(o, 0, 0, 0, 0); } },
  { "verify 1024 other key", [](sink& o) { op_verify<1024>(o, 1, 0, 0, 0); } },
  { "keys 512", [](sink& o) { op_codec<512>(o, 0); } },
  { "keys 1024", [](sink& o) { op_codec<1024>(o, 1); } },
  { "codec 512 fits", [](sink& o) { op_codec<512>(o, 3); } },
  { "hash 512", [](sink& o) { op_codec<512>(o, 5); } },
  { "integer sampler", op_sampler },
  // from here on: used less
  { "sign 512 key 0 message 2 (empty)", [](sink& o) { op_sign<512>(o, 0, 2, 5); } },
  { "sign 512, norm rejection", [](sink& o) { op_rejected(o, 0); } },
  { "sign 512, length rejection", [](sink& o) { op_rejected(o, 2); } },
  { "sign 512, norm and length rejection", [](sink& o) { op_rejected(o, 4); } },
  { "verify 512 bad header", [](sink& o) { op_verify<512>(o, 0, 0, 0, 1); } },
  { "verify 512 altered", [](sink& o) { op_verify<512>(o, 0, 0, 0, 2); } },
  { "verify 512 undecodable", [](sink& o) { op_verify<512>(o, 0, 0, 0, 3); } },
  { "verify 512 bad key", [](sink& o) { op_verify<512>(o, 0, 0, 0, 4); } },
  { "verify 1024 undecodable", [](sink& o) { op_verify<1024>(o, 0, 0, 0, 3); } },
  { "codec 512 does not fit", [](sink& o) { op_codec<512>(o, 4); } },
  { "codec 1024 fits", [](sink& o) { op_codec<1024>(o, 3); } },
  { "hash 1024", [](sink& o) { op_codec<1024>(o, 5); } },
  // expensive
  { "key generation 512", [](sink& o) { op_keygen<512>(o, 4000); } },
  { "key generation 512, other random bytes", [](sink& o) { op_keygen<512>(o, 4001); } },
  { "key generation 512, matrix and tree", [](sink& o) { op_keygenBT<512>(o, 4002); } },
  { "key generation 1024", [](sink& o) { op_keygen<1024>(o, 4003); } },
};
constexpr int CORE = 15, CHEAP = 27, ALL = 31;

using lists_t = std::vector<std::vector<int>>; // what each thread does
static const lists_t* LISTS;
struct shared_out
{
  rt::result r;
  struct
  {
    uint64_t h, n;
  } res[rt::MAXT][8];
  int finished;
};
static shared_out* OUT;

static void
body(int t)
{
  env::point = rt::point;
  const auto& l = (*LISTS)[t];
  for (size_t i = 0; i < l.size(); i++) {
    sink s;
    OPS[l[i]].run(s);
    OUT->res[t][i] = { s.h, s.n };
  }
  env::point = nullptr;
}
static std::string
describe(const lists_t& L)
{
  std::string s;
  for (auto& l : L) {
    s += s.empty() ? "{" : " || {";
    for (size_t i = 0; i < l.size(); i++)
      s += (i ? "; " : "") + std::string(OPS[l[i]].name);
    s += "}";
  }
  return s;
}
// one execution in a fresh process
static std::string
execute(const lists_t& L, const rt::schedule& s)
{
  if (!OUT)
    OUT = (shared_out*)mmap(nullptr, sizeof *OUT, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(OUT, 0, offsetof(rt::result, log));
  OUT->finished = 0;
  LISTS = &L;
  const pid_t c = fork();
  if (!c) {
    rt::run(s, body, &OUT->r);
    OUT->finished = 1;
    _exit(0);
  }
  int st = 0;
  waitpid(c, &st, 0);
  mc::transitions(OUT->r.steps + 1);
  mc::states(1);
  if (OUT->r.raced || OUT->r.deadlock)
    return OUT->r.msg;
  if (!WIFEXITED(st) || WEXITSTATUS(st) || !OUT->finished)
    return WIFSIGNALED(st) ? mc::fmt("process died with signal %d", WTERMSIG(st)) : mc::fmt("process ended with status %d", WEXITSTATUS(st));
  return "";
}
static std::map<std::vector<int>, std::vector<uint64_t>> SOLO;
static std::string
solo(const std::vector<int>& l)
{
  if (SOLO.count(l))
    return "";
  rt::schedule s{};
  s.threads = 1;
  if (auto e = execute({ l }, s); !e.empty())
    return describe({ l }) + " alone: " + e;
  for (size_t i = 0; i < l.size(); i++)
    SOLO[l].push_back(OUT->res[0][i].h);
  return "";
}
static std::string
judge(const lists_t& L, const rt::schedule& s, const std::string& e)
{
  std::string how = mc::fmt("schedule: thread %d starts", s.first);
  for (int i = 0; i < s.npre; i++)
    how += mc::fmt(", switch at scheduling point %u", s.pre[i]);
  if (!e.empty())
    return describe(L) + ": " + e + " (" + how + ")";
  for (size_t t = 0; t < L.size(); t++)
    for (size_t i = 0; i < L[t].size(); i++)
      if (OUT->res[t][i].h != SOLO[L[t]][i])
        return describe(L) + mc::fmt(": operation %zu of thread %zu returned something else than alone (", i, t) + how + ")";
  mc::traces(1);
  return "";
}
// explores the schedules of one combination: env_stride 0: no switches at environment calls
static std::string
explore(const lists_t& L, int env_points, int bound, uint64_t cap)
{
  prepare();
  for (auto& l : L)
    if (auto e = solo(l); !e.empty())
      return e;
  std::vector<uint64_t> conf;
  auto go = [&](rt::schedule& s) -> std::string {
    s.threads = (int)L.size();
    s.conf = conf.data();
    s.nconf = (uint32_t)conf.size();
    if (auto e = judge(L, s, execute(L, s)); !e.empty())
      return e;
    return "";
  };
  uint64_t runs = 0;
  bool grew = true;
  while (grew && runs < cap) {
    grew = false;
    auto learn = [&] {
      for (uint32_t i = 0; i < OUT->r.nconf; i++)
        if (conf.size() < 64 && std::find(conf.begin(), conf.end(), OUT->r.conf[i]) == conf.end()) {
          conf.push_back(OUT->r.conf[i]);
          grew = true;
        }
    };
    // depth-first over sets of preemptions
    for (int first = 0; first < (int)L.size(); first++) {
      struct node
      {
        std::vector<uint32_t> pre;
      };
      std::vector<node> todo{ {} };
      while (!todo.empty() && runs < cap) {
        const node n = todo.back();
        todo.pop_back();
        rt::schedule s{};
        s.first = first;
        s.npre = (int)n.pre.size();
        for (int i = 0; i < s.npre; i++)
          s.pre[i] = n.pre[i];
        if (auto e = go(s); !e.empty())
          return e;
        runs++;
        learn();
        if ((int)n.pre.size() >= bound)
          continue;
        std::vector<uint32_t> envp, next;
        const uint32_t from = n.pre.empty() ? 0 : n.pre.back() + 1;
        for (uint32_t k = from; k < OUT->r.steps && k < rt::MAXLOG; k++) {
          if (OUT->r.log[k] == rt::P_ENV)
            envp.push_back(k);
          else
            next.push_back(k);
        }
        const size_t want = n.pre.empty() ? env_points : std::min(env_points, 6);
        for (size_t k = 0; k < envp.size(); k++)
          if (want && (envp.size() <= want || k % (envp.size() / want + 1) == 0 || k < 3))
            next.push_back(envp[k]);
        std::sort(next.rbegin(), next.rend());
        for (uint32_t k : next) {
          node m = n;
          m.pre.push_back(k);
          todo.push_back(m);
        }
      }
    }
    if (bound == 0 && !conf.empty() && runs < cap)
      bound = 2, env_points = 0, grew = true; // something is shared: look at its interleavings
  }
  mc::outcome(conf.empty() ? mc::fmt("%zu threads: nothing shared is written, all interleavings are equivalent", L.size())
                           : mc::fmt("%zu threads: shared memory is written under synchronisation", L.size()));
  if (runs >= cap)
    mc::outcome("schedules beyond the cap were not explored");
  return "";
}

int
main(int argc, char** argv)
{
  return mc::main(argc, argv, [] {
    const bool q = mc::quick;
    mc::add("all pairs of operations", CHEAP * (CHEAP + 1) / 2, [q](uint64_t i) -> std::string {
      int a = 0, b;
      while (i >= (uint64_t)(CHEAP - a))
        i -= CHEAP - a++;
      b = a + (int)i;
      return explore({ { a }, { b } }, 0, 0, q ? 3000 : 20000);
    }, 1, 300);
    mc::add("two operations per thread", CORE * CORE, [q](uint64_t i) -> std::string {
      const int a = i % CORE, b = (int)(i / CORE);
      return explore({ { a, b }, { b, a } }, 0, 0, q ? 1000 : 20000);
    }, 1, 300);
    mc::add("three threads", CORE * CORE, [q](uint64_t i) -> std::string {
      const int a = i % CORE, b = (int)(i / CORE);
      return explore({ { a }, { b }, { (a + b) % CORE, a } }, 0, 0, q ? 1000 : 20000);
    }, 1, 300);
    mc::add("one switch at environment calls (quick: 40 places per thread order)", CORE * (CORE + 1) / 2, [q](uint64_t i) -> std::string {
      int a = 0, b;
      while (i >= (uint64_t)(CORE - a))
        i -= CORE - a++;
      b = a + (int)i;
      return explore({ { a }, { b } }, q ? 40 : 100000, 1, q ? 3000 : 40000);
    }, 1, 900);
    mc::add("two switches at environment calls", 12, [q](uint64_t i) -> std::string {
      static const int A[12][2] = { { 0, 0 }, { 0, 1 }, { 0, 2 }, { 2, 2 }, { 0, 3 }, { 3, 4 }, { 0, 5 }, { 5, 6 }, { 5, 8 }, { 1, 14 }, { 13, 13 }, { 10, 2 } };
      return explore({ { A[i][0] }, { A[i][1] } }, q ? 12 : 200, 2, q ? 3000 : 40000);
    }, 1, 900);
    mc::add("key generation", q ? 5 : 16, [q](uint64_t i) -> std::string {
      static const int A[16][2] = { { 27, 27 }, { 27, 28 }, { 29, 0 }, { 30, 5 }, { 29, 29 }, { 29, 27 }, { 27, 5 }, { 27, 10 }, { 30, 27 }, { 30, 30 }, { 30, 0 }, { 30, 4 }, { 28, 16 }, { 29, 12 }, { 27, 14 }, { 27, 24 } };
      return explore({ { A[i][0] }, { A[i][1] } }, 0, 0, q ? 60 : 500);
    }, 1, 900);
  });
}
