// Results depend on inputs and random bytes only: every sequence of operations, run from a fresh
// process, gives for each operation the result it gives as the first thing a process does.
#include "targets.hpp"
#include <alloca.h>

using bytes = std::vector<uint8_t>;

static int FILL = 0;    // previous content of output buffers
static int GARBAGE = 0; // previous content of the stack

__attribute__((noinline)) static void
pollute(int pattern)
{
  constexpr size_t n = 700 << 10;
  volatile uint8_t* p = (volatile uint8_t*)alloca(n);
  const uint64_t words[6] = { 0, ~0ull, 0x0101010101010101ull, 0x3ff0000000000000ull, 0x7ff8dead00000001ull, 0xc07ac07ac07ac07aull };
  for (size_t i = 0; i < n / 8; i++)
    ((volatile uint64_t*)p)[i] = words[pattern % 6] ^ (pattern >= 6 ? mc::mix(i) : 0);
}
static bytes
out(size_t n)
{
  bytes b(n);
  static const uint8_t v[] = { 0, 0xff, 0x5a, 0x01, 0x80 };
  for (size_t i = 0; i < n; i++)
    b[i] = FILL < 5 ? v[FILL] : (uint8_t)mc::mix(i + FILL);
  return b;
}
template<class T>
static std::vector<T>
outv(size_t n)
{
  std::vector<T> v(n);
  const bytes b = out(n * sizeof(T));
  memcpy((void*)v.data(), b.data(), b.size());
  return v;
}
template<class T>
static void
put(bytes& r, const std::vector<T>& v)
{
  r.insert(r.end(), (const uint8_t*)v.data(), (const uint8_t*)(v.data() + v.size()));
}

// read-only inputs: the last bytes of a page followed by an inaccessible one
struct ro
{
  uint8_t* base;
  size_t len;
  // inputs of one kind and length have the same address in every call
  explicit ro(const bytes& b, int slot, bool writable = false)
    : len(b.size())
  {
    const size_t pages = (len + 4095) / 4096 + 1;
    base = (uint8_t*)mmap((void*)(0x200000000000ull + ((uint64_t)slot << 28)), pages * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    data = base + (pages - 1) * 4096 - len;
    memcpy(data, b.data(), len);
    if (!writable)
      mprotect(base, (pages - 1) * 4096, PROT_READ);
    mprotect(base + (pages - 1) * 4096, 4096, PROT_NONE);
    total = pages * 4096;
  }
  ro(const ro&) = delete;
  ~ro() { munmap(base, total); }
  uint8_t* data;
  size_t total;
};

static bytes
altered(size_t at)
{
  bytes b(200, 0x61);
  b[at] ^= 1;
  return b;
}
static const bytes MSGS[4] = { { 1, 2, 3, 4, 5, 6, 7 }, bytes(200, 0x61), altered(0), altered(199) };

template<size_t N>
static bytes
op_sign(int key, int msg, int api, uint64_t stream)
{
  const auto& k = keys::get<N>(key);
  ro sk(k.sk, 0), m(MSGS[msg], 1);
  bytes sig = out(P<N>::siglen), r;
  flat_rng e(stream);
  e.keep = false;
  install_rng i(&e);
  if (api == 0) {
    pollute(GARBAGE);
    r.push_back(falcon::sign<N>(sk.data, m.data, MSGS[msg].size(), sig.data()));
  } else {
    auto f = outv<int32_t>(N), g = outv<int32_t>(N), F = outv<int32_t>(N), G = outv<int32_t>(N);
    auto B = outv<fft::cmplx>(4 * N), T = outv<fft::cmplx>(N * (P<N>::lg + 1));
    pollute(GARBAGE);
    r.push_back(decoding::decode_skey<N>(sk.data, f.data(), g.data(), F.data()));
    pollute(GARBAGE + 1);
    falcon::recompute_G<N>(f.data(), g.data(), F.data(), G.data());
    falcon::compute_matrix_B<N>(f.data(), g.data(), F.data(), G.data(), B.data());
    pollute(GARBAGE + 2);
    falcon::compute_falcon_tree<N>(B.data(), T.data());
    put(r, G);
    prng::prng_t p;
    ro b(bytes((uint8_t*)B.data(), (uint8_t*)(B.data() + B.size())), 3), t(bytes((uint8_t*)T.data(), (uint8_t*)(T.data() + T.size())), 4);
    pollute(GARBAGE);
    falcon::sign<N>((const fft::cmplx*)b.data, (const fft::cmplx*)t.data, m.data, MSGS[msg].size(), sig.data(), p);
  }
  put(r, sig);
  return r;
}
template<size_t N>
static const bytes&
good_sig(int key, int msg) // by the reference: s1, s2 chosen, hash value fixed by the salt
{
  static std::map<int, bytes> m;
  auto it = m.find(key * 2 + msg);
  if (it != m.end())
    return it->second;
  // computed in a child so that this process stays free of library calls
  uint8_t* p = (uint8_t*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  const pid_t c = fork();
  if (!c) {
    const bytes r = op_sign<N>(key, msg, 0, 77 + key);
    memcpy(p, r.data() + 1, P<N>::siglen);
    _exit(0);
  }
  int st;
  waitpid(c, &st, 0);
  m[key * 2 + msg] = bytes(p, p + P<N>::siglen);
  munmap(p, 4096);
  return m[key * 2 + msg];
}
static std::string MODIFIED;
template<size_t N>
static bytes
op_verify(int key, int signer, int msg, int smsg, int damage)
{
  bytes s = good_sig<N>(signer, smsg), pk = keys::get<N>(key).pk;
  switch (damage) {
    case 1: s[0] ^= 1; break;
    case 2: s[100] ^= 0x7f; break;
    case 3: s.back() |= 1; break;
    case 4: pk[1] = pk[2] = 0xff; break;
    case 5: std::fill(s.begin() + 41, s.end(), 0); break;
    case 6: pk[0] ^= 0x10; break;
    case 7: s[40] ^= 1; break;
  }
  ro p(pk, 2), m(MSGS[msg], 1), g(s, 5, true);

  pollute(GARBAGE);
  const bool r = falcon::verify<N>(p.data, m.data, MSGS[msg].size(), g.data);
  if (memcmp(g.data, s.data(), s.size()))
    MODIFIED = "verification modified the signature";
  return { (uint8_t)r };
}
template<size_t N>
static bytes
op_codec(int kind)
{
  const auto& k = keys::get<N>(kind % 2);
  bytes r;
  switch (kind) {
    case 0:
    case 1: { // decode and encode keys
      auto h = outv<ff::ff_t>(N);
      auto f = outv<int32_t>(N), g = outv<int32_t>(N), F = outv<int32_t>(N);
      ro pk(k.pk, 2), sk(k.sk, 0);
      pollute(GARBAGE);
      r.push_back(decoding::decode_pkey<N>(pk.data, h.data()));
      pollute(GARBAGE);
      r.push_back(decoding::decode_skey<N>(sk.data, f.data(), g.data(), F.data()));
      put(r, h);
      put(r, f);
      put(r, g);
      put(r, F);
      bytes p2 = out(P<N>::pklen), s2 = out(P<N>::sklen);
      pollute(GARBAGE);
      encoding::encode_pkey<N>(h.data(), p2.data());
      encoding::encode_skey<N>(f.data(), g.data(), F.data(), s2.data());
      put(r, p2);
      put(r, s2);
      break;
    }
    case 2: { // refused
      bytes pk = k.pk, sk = k.sk;
      pk.back() = pk[pk.size() - 2] = 0xff;
      sk[0] ^= 0x0f;
      auto h = outv<ff::ff_t>(N);
      auto f = outv<int32_t>(N), g = outv<int32_t>(N), F = outv<int32_t>(N);
      pollute(GARBAGE);
      r.push_back(decoding::decode_pkey<N>(pk.data(), h.data()));
      r.push_back(decoding::decode_skey<N>(sk.data(), f.data(), g.data(), F.data()));
      break;
    }
    case 3: { // compress: fits
      std::vector<int32_t> s(N);
      for (size_t i = 0; i < N; i++)
        s[i] = (int32_t)(mc::mix(i) % 301) - 150;
      bytes sig = out(P<N>::siglen);
      pollute(GARBAGE);
      r.push_back(encoding::compress_sig<N, P<N>::siglen>(s.data(), sig.data()));
      r.insert(r.end(), sig.begin() + 41, sig.end());
      auto d = outv<int32_t>(N);
      pollute(GARBAGE);
      r.push_back(decoding::decompress_sig<N, P<N>::siglen>(sig.data(), d.data()));
      put(r, d);
      break;
    }
    case 4: { // compress: does not fit
      std::vector<int32_t> s(N, 1900);
      bytes sig = out(P<N>::siglen);
      pollute(GARBAGE);
      r.push_back(encoding::compress_sig<N, P<N>::siglen>(s.data(), sig.data()));
      break;
    }
    default: {
      auto c = outv<ff::ff_t>(N);
      ro m(MSGS[kind == 6 ? 3 : 1], 1);
      static uint8_t salt[40];
      for (int i = 0; i < 40; i++)
        salt[i] = i < 3 ? i + 1 : kind == 7 && i == 39;
      pollute(GARBAGE);
      hashing::hash_to_point<N>(salt, 40, m.data, MSGS[1].size(), c.data());
      put(r, c);
    }
  }
  return r;
}
template<size_t N>
static bytes
op_keygen(uint64_t stream)
{
  bytes pk = out(P<N>::pklen), sk = out(P<N>::sklen);
  flat_rng e(stream);
  e.keep = false;
  install_rng i(&e);
  pollute(GARBAGE);
  falcon::keygen<N>(pk.data(), sk.data());
  put(pk, sk);
  return pk;
}
// signing with a first attempt that is rejected
template<size_t N>
static bytes
op_rejected(int kind)
{
  struct plan
  {
    poly c;
    script s;
    bool ok = false;
  };
  static std::map<int, plan> m;
  if (!m.count(kind)) {
    plan q;
    const auto& p = directed::prep<N>(0);
    for (uint64_t seed = 5; seed < 30 && !q.ok; seed++) {
      target good = with_bits<N>(-2, seed, P<N>::beta2 / 10 * 8), bad;
      if (good.s1.empty() || !rejected<N>(kind, 0, good, seed, bad))
        continue;
      q.c = ref::mulq(good.s2, p.k->h);
      for (size_t i = 0; i < N; i++)
        q.c[i] = ref::modq(q.c[i] + good.s1[i]);
      q.s.clear();
      q.ok = directed::plan_attempt<N>(p, q.c, bad.s1, bad.s2, q.s) && directed::plan_attempt<N>(p, q.c, good.s1, good.s2, q.s);
    }
    m[kind] = q;
  }
  const plan& q = m[kind];
  if (!q.ok)
    return {};
  scripted_rng r(3);
  r.salt.assign(40, 0x33);
  r.s = q.s;
  chosen_c x;
  x.c = q.c;
  install_rng i(&r);
  install_xof j(&x);
  bytes sig = out(P<N>::siglen), res;
  pollute(GARBAGE);
  res.push_back(falcon::sign<N>(keys::get<N>(0).sk.data(), MSGS[0].data(), 7, sig.data()));
  put(res, sig);
  return res;
}

struct op_t
{
  const char* name;
  std::function<bytes()> run;
};
static const std::vector<op_t>&
ops()
{
  static const std::vector<op_t> v = {
    { "sign 512 key 0 message 0", [] { return op_sign<512>(0, 0, 0, 1); } },
    { "sign 512 key 0 message 1", [] { return op_sign<512>(0, 1, 0, 1); } },
    { "sign 512 key 1 message 0", [] { return op_sign<512>(1, 0, 0, 1); } },
    { "sign 512 key 0 message 0, other random bytes", [] { return op_sign<512>(0, 0, 0, 2); } },
    { "sign 512 B,T key 0 message 0", [] { return op_sign<512>(0, 0, 1, 1); } },
    { "sign 512 with a norm rejection", [] { return op_rejected<512>(0); } },
    { "sign 512 with a length rejection", [] { return op_rejected<512>(2); } },
    { "sign 1024 key 0 message 0", [] { return op_sign<1024>(0, 0, 0, 1); } },
    { "sign 1024 key 1 message 1", [] { return op_sign<1024>(1, 1, 0, 3); } },
    { "sign 1024 B,T key 1 message 1", [] { return op_sign<1024>(1, 1, 1, 3); } },
    { "verify 512 valid", [] { return op_verify<512>(0, 0, 0, 0, 0); } },
    { "verify 512 valid, key 1", [] { return op_verify<512>(1, 1, 1, 1, 0); } },
    { "verify 512 other key", [] { return op_verify<512>(1, 0, 0, 0, 0); } },
    { "verify 512 other message", [] { return op_verify<512>(0, 0, 1, 0, 0); } },
    { "verify 512 bad header", [] { return op_verify<512>(0, 0, 0, 0, 1); } },
    { "verify 512 altered", [] { return op_verify<512>(0, 0, 0, 0, 2); } },
    { "verify 512 undecodable signature", [] { return op_verify<512>(0, 0, 0, 0, 5); } },
    { "verify 512 bad key", [] { return op_verify<512>(0, 0, 0, 0, 4); } },
    { "verify 1024 valid", [] { return op_verify<1024>(0, 0, 0, 0, 0); } },
    { "verify 1024 other message", [] { return op_verify<1024>(0, 0, 1, 0, 0); } },
    { "verify 1024 undecodable signature", [] { return op_verify<1024>(0, 0, 0, 0, 5); } },
    { "keys 512 decoded and encoded", [] { return op_codec<512>(0); } },
    { "keys 512 refused", [] { return op_codec<512>(2); } },
    { "compress 512", [] { return op_codec<512>(3); } },
    { "compress 512 does not fit", [] { return op_codec<512>(4); } },
    { "hash 512", [] { return op_codec<512>(5); } },
    { "keys 1024 decoded and encoded", [] { return op_codec<1024>(1); } },
    { "compress 1024", [] { return op_codec<1024>(3); } },
    { "hash 1024", [] { return op_codec<1024>(5); } },
    { "verify 512 valid, long message", [] { return op_verify<512>(0, 0, 1, 1, 0); } },
    { "verify 512, first byte of the message altered", [] { return op_verify<512>(0, 0, 2, 1, 0); } },
    { "verify 512, last byte of the message altered", [] { return op_verify<512>(0, 0, 3, 1, 0); } },
    { "verify 512, salt altered", [] { return op_verify<512>(0, 0, 1, 1, 7); } },
    { "sign 512 key 0 message 1 altered", [] { return op_sign<512>(0, 3, 0, 1); } },
    { "sign 512 B,T key 1 message 0", [] { return op_sign<512>(1, 0, 1, 1); } },
    { "hash 512, message altered", [] { return op_codec<512>(6); } },
    { "hash 512, salt altered", [] { return op_codec<512>(7); } },
    // expensive ones, used at smaller depth
    { "key generation 512", [] { return op_keygen<512>(4000); } },
    { "key generation 512, other random bytes", [] { return op_keygen<512>(4001); } },
    { "key generation 1024", [] { return op_keygen<1024>(4002); } },
  };
  return v;
}
constexpr int CHEAP = 37, ALL = 40;

// runs fn in a child process; its string result comes back
static std::string
in_child(const std::function<std::string()>& fn)
{
  static char* buf = (char*)mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  buf[0] = 1;
  fflush(nullptr);
  const pid_t c = fork();
  if (!c) {
    std::string r = fn();
    if (r.size() > 65000)
      r.resize(65000);
    const uint32_t n = r.size();
    memcpy(buf + 8, r.data(), n);
    memcpy(buf + 4, &n, 4);
    buf[0] = 0;
    _exit(0);
  }
  int st = 0;
  waitpid(c, &st, 0);
  if (!WIFEXITED(st) || buf[0])
    return "!" + (WIFSIGNALED(st) ? mc::fmt("killed by signal %d", WTERMSIG(st)) : mc::fmt("exited with %d", WEXITSTATUS(st)));
  uint32_t n;
  memcpy(&n, buf + 4, 4);
  return std::string(buf + 8, n);
}
static void
prepare(int o) // reference-side data, so that children do not recompute it (no library calls here)
{
  for (int i = 0; i < 2; i++) {
    keys::get<512>(i);
    keys::get<1024>(i);
    good_sig<512>(i, 0);
    good_sig<512>(i, 1);
    good_sig<1024>(i, 0);
    good_sig<1024>(i, 1);
  }
  directed::prep<512>(0);
}
// the result of an operation as the first thing a process does
static const std::string&
fresh(int o)
{
  static std::map<int, std::string> m;
  auto it = m.find(o);
  if (it != m.end())
    return it->second;
  prepare(o);
  FILL = GARBAGE = 0;
  m[o] = in_child([&] {
    const bytes b = ops()[o].run();
    return std::string(b.begin(), b.end());
  });
  return m[o];
}
static std::string
sequence(const std::vector<int>& seq, int fill, int garbage)
{
  for (int o : seq)
    if (const auto& f = fresh(o); !f.empty() && f[0] == '!' && f.size() < 40)
      return std::string(ops()[o].name) + " in a fresh process: " + f.substr(1);
  const std::string r = in_child([&]() -> std::string {
    std::string what;
    for (size_t i = 0; i < seq.size(); i++) {
      FILL = fill < 0 ? (int)i : fill;
      GARBAGE = garbage < 0 ? (int)i + 1 : garbage;
      if (seq.size() <= 40)
        what += (i ? ", " : "") + std::string(ops()[seq[i]].name);
      else
        what = mc::fmt("%s, %zu times", ops()[seq[i]].name, i + 1);
      const bytes b = ops()[seq[i]].run();
      mc::transitions(1);
      if (std::string(b.begin(), b.end()) != fresh(seq[i]))
        return what + ": the last result differs from that of a fresh process" + mc::fmt(" (buffers prefilled with pattern %d, stack with pattern %d)", FILL, GARBAGE);
      if (!MODIFIED.empty())
        return what + ": " + MODIFIED;
    }
    return "";
  });
  mc::states(1);
  mc::traces(1);
  if (!r.empty() && r[0] == '!') {
    std::string what;
    for (int o : seq)
      if (what.size() < 1000)
        what += std::string(what.empty() ? "" : ", ") + ops()[o].name;
    return what + ": " + r.substr(1) + " (inputs are read-only pages)";
  }
  return r;
}

#ifndef NO_MAIN
int
main(int argc, char** argv)
{
  return mc::main(argc, argv, [] {
    mc::add("every operation, 7 prefills of outputs x 12 prefills of the stack", CHEAP * 7 * 12, [](uint64_t i) -> std::string {
      mc::outcome(ops()[i % CHEAP].name);
      return sequence({ (int)(i % CHEAP) }, (int)(i / CHEAP % 7), (int)(i / CHEAP / 7));
    }, 8, 60);
    mc::add("all sequences of 3 operations", (uint64_t)CHEAP * CHEAP * CHEAP, [](uint64_t i) -> std::string {
      return sequence({ (int)(i % CHEAP), (int)(i / CHEAP % CHEAP), (int)(i / CHEAP / CHEAP) }, -1, -1);
    }, 32, 60);
    if (!mc::quick)
      mc::add("all sequences of 4 operations (every second operation)", 15ull * 15 * 15 * 15, [](uint64_t i) -> std::string {
        return sequence({ (int)(i % 15) * 2, (int)(i / 15 % 15) * 2, (int)(i / 225 % 15) * 2, (int)(i / 3375) * 2 }, -1, -1);
      }, 32, 60);
    mc::add("all ordered pairs with key generation", CHEAP * 3 * 2 + 9, [](uint64_t i) -> std::string {
      if (i < 9)
        return sequence({ CHEAP + (int)i / 3, CHEAP + (int)i % 3 }, -1, -1);
      i -= 9;
      const int c = i % CHEAP, k = CHEAP + (int)(i / CHEAP % 3);
      if (mc::quick && (c + k) % 3)
        return "";
      return i / CHEAP / 3 ? sequence({ c, k }, -1, -1) : sequence({ k, c, k == CHEAP ? 0 : c }, -1, -1);
    }, 1, 120);
    mc::add("one operation 300 times", CHEAP, [](uint64_t i) -> std::string { return sequence(std::vector<int>(300, (int)i), -1, -1); }, 1, 120);
    mc::add("long histories of one operation", mc::quick ? 7 : CHEAP, [](uint64_t i) -> std::string {
      static const int FIRST[] = { 9, 4, 0, 18, 10, 23, 25 };
      const int o = mc::quick ? FIRST[i] : (int)i;
      return sequence(std::vector<int>(mc::quick ? (o == 9 ? 2600 : o == 4 || o == 0 ? 5000 : o == 18 ? 20000 : 66000) : 66000, o), -1, -1);
    }, 1, 900);
  });
}
#endif
