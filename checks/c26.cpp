// Calls keep nothing: heap, mappings and descriptors a call takes are given back when it returns
// (or is left by an exception), and neither heap nor stack grow with the number of rejected attempts.
#include "canddata.hpp"
#include "cands.hpp"
#include "fftmap.hpp"
#include "mc.hpp"
#include "targets.hpp"
#include <alloca.h>
#include <dirent.h>
#include <malloc.h>

#define NO_MAIN
namespace c18 {
#include "c18.cpp"
}
namespace c02 {
#include "c02.cpp"
}
namespace c03 {
#include "c03.cpp"
}

// ---- the ledger: every block the process holds ----
namespace ledger {
int64_t blocks = 0, held = 0, peak = 0;
inline void*
in(void* p)
{
  if (p) {
    blocks++;
    held += malloc_usable_size(p);
    peak = std::max(peak, held);
  }
  return p;
}
inline void
out(void* p)
{
  if (p) {
    blocks--;
    held -= malloc_usable_size(p);
  }
}
}
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
void*
malloc(size_t n)
{
  return ledger::in(__libc_malloc(n));
}
void*
calloc(size_t a, size_t b)
{
  return ledger::in(__libc_calloc(a, b));
}
void*
realloc(void* p, size_t n)
{
  ledger::out(p);
  void* q = __libc_realloc(p, n);
  return ledger::in(q);
}
void*
memalign(size_t a, size_t n)
{
  return ledger::in(__libc_memalign(a, n));
}
void*
aligned_alloc(size_t a, size_t n)
{
  return ledger::in(__libc_memalign(a, n));
}
int
posix_memalign(void** p, size_t a, size_t n)
{
  *p = ledger::in(__libc_memalign(a, n));
  return *p ? 0 : ENOMEM;
}
void
free(void* p)
{
  ledger::out(p);
  __libc_free(p);
}
}

// ---- the device: fails from some word on ----
namespace dev {
uint64_t serial = 0, fail = ~0ull;
}
struct device_failure : std::runtime_error
{
  device_failure()
    : std::runtime_error("random_device could not be read")
  {
  }
};
std::random_device::result_type
std::random_device::_M_getval()
{
  if (dev::serial >= dev::fail)
    throw device_failure{};
  return (uint32_t)mc::mix(dev::serial++ * 77 + 5);
}

struct snap
{
  int64_t blocks, held, fds, maps, threads;
};
static int64_t
entries(const char* d)
{
  DIR* p = opendir(d);
  int64_t n = 0;
  while (readdir(p))
    n++;
  closedir(p);
  return n;
}
static int64_t
mappings()
{
  const int fd = open("/proc/self/maps", O_RDONLY);
  static char b[65536];
  int64_t n = 0;
  for (ssize_t k; (k = read(fd, b, sizeof b)) > 0;)
    n += std::count(b, b + k, '\n');
  close(fd);
  return n;
}
static snap
now()
{
  snap s;
  s.fds = entries("/proc/self/fd");
  s.maps = mappings();
  s.threads = entries("/proc/self/task");
  s.blocks = ledger::blocks;
  s.held = ledger::held;
  return s;
}
// what grows between the 8th and 24th and again between the 24th and 40th repetition is kept
static std::string
repeated(const std::string& what, const std::function<std::string()>& op, int scale = 1, int times = 1)
{
  snap s[3];
  int at = 0;
  for (int k = 0; k < 3; k++) {
    for (const int to = (k == 0 ? 8 : k == 1 ? 24 : 40) * times / scale; at < to; at++) {
      if (auto r = op(); !r.empty())
        return r;
      mc::transitions(1);
    }
    s[k] = now();
  }
  mc::states(1);
  mc::traces(1);
  auto grows = [&](int64_t snap::*m, const char* name) -> std::string {
    if (s[0].*m < s[1].*m && s[1].*m < s[2].*m)
      return what + mc::fmt(": after %d, %d and %d calls the process holds %lld, %lld and %lld %s", 8 * times / scale, 24 * times / scale, 40 * times / scale, (long long)(s[0].*m), (long long)(s[1].*m), (long long)(s[2].*m), name);
    return "";
  };
  for (auto& r : { grows(&snap::blocks, "blocks of memory"), grows(&snap::held, "bytes of memory"), grows(&snap::fds, "file descriptors"), grows(&snap::maps, "mappings"), grows(&snap::threads, "threads") })
    if (!r.empty())
      return r;
  return "";
}

// deepest stack and largest heap seen at the environment calls of a call
static uintptr_t LOWEST;
static void
note_stack()
{
  char c;
  LOWEST = std::min(LOWEST, (uintptr_t)&c);
}
struct usage
{
  int64_t stack, heap;
};
static usage
measured(const std::function<void()>& op)
{
  char here;
  LOWEST = (uintptr_t)&here;
  ledger::peak = ledger::held;
  const int64_t before = ledger::held;
  env::point = note_stack;
  op();
  env::point = nullptr;
  return { (int64_t)((uintptr_t)&here - LOWEST), ledger::peak - before };
}
static std::string
bounded(const std::string& what, const std::function<void(size_t)>& op, size_t few, size_t many)
{
  op(few); // fills what is filled once
  const usage a = measured([&] { op(few); }), b = measured([&] { op(many); });
  mc::states(1);
  mc::traces(3);
  mc::transitions(2 * few + many);
  constexpr int64_t SLACK = 48 << 10;
  if (b.stack > a.stack + SLACK)
    return what + mc::fmt(": %zu rejections need %lld bytes of stack, %zu rejections %lld", few, (long long)a.stack, many, (long long)b.stack);
  if (b.heap > a.heap + SLACK)
    return what + mc::fmt(": %zu rejections need %lld bytes of heap, %zu rejections %lld", few, (long long)a.heap, many, (long long)b.heap);
  mc::outcome(mc::fmt("stack %lld k, heap %lld k", (long long)b.stack >> 10, (long long)b.heap >> 10));
  return "";
}

// the same operation, each time with other inputs and random bytes
template<size_t N>
static std::string
varied(int op)
{
  static const char* NAME[] = { "signing, stored key", "signing, expanded key", "verification", "hashing", "decoding of public keys", "decoding of secret keys", "decompression" };
  const auto& key = keys::get<N>(0);
  const auto& ex = expand<N>(0);
  uint64_t rep = 0;
  std::vector<uint8_t> sig(P<N>::siglen), good(P<N>::siglen);
  {
    flat_rng e(5);
    e.keep = false;
    install_rng i(&e);
    falcon::sign<N>(key.sk.data(), good.data(), 0, good.data());
  }
  return repeated(std::string(NAME[op]) + ", other inputs each time", [&]() -> std::string {
    rep++;
    uint8_t m[16];
    for (int i = 0; i < 16; i++)
      m[i] = (uint8_t)(mc::mix(rep * 16 + i));
    flat_rng e(1000 + rep);
    e.keep = false;
    install_rng in(&e);
    if (op == 0)
      falcon::sign<N>(key.sk.data(), m, 16, sig.data());
    else if (op == 1) {
      prng::prng_t r;
      falcon::sign<N>(ex.B.data(), ex.T.data(), m, 16, sig.data(), r);
    } else if (op == 2) {
      sig = good;
      auto pk = key.pk;
      pk[5 + rep % 700] ^= 1;
      sig[3 + rep % 35] ^= (uint8_t)rep;
      falcon::verify<N>(pk.data(), m, 16, sig.data());
    } else if (op == 3) {
      ff::ff_t c[N];
      hashing::hash_to_point<N>(good.data() + 1, 40, m, 1 + rep % 16, c);
    } else if (op == 4) {
      ff::ff_t h[N];
      auto pk = key.pk;
      pk[rep % pk.size()] ^= (uint8_t)(1 + rep / 7);
      decoding::decode_pkey<N>(pk.data(), h);
    } else if (op == 5) {
      int32_t f[N], g[N], F[N];
      auto sk = key.sk;
      sk[rep % sk.size()] ^= (uint8_t)(1 + rep / 7);
      decoding::decode_skey<N>(sk.data(), f, g, F);
    } else {
      int32_t s2[N];
      sig = good;
      sig[41 + rep % (sig.size() - 41)] ^= (uint8_t)(1 + rep / 7);
      decoding::decompress_sig<N, P<N>::siglen>(sig.data(), s2);
    }
    return "";
  }, 1, op < 2 ? (mc::quick ? 10 : 100) : (mc::quick ? 60 : 1000));
}
// zero answers of the Bernoulli trial, then an acceptance
struct rejecting : env::rng_source
{
  uint64_t left, round = 0;
  explicit rejecting(uint64_t n)
    : left(n)
  {
  }
  bool read(uint8_t* o, size_t n, env::sponge&) override
  {
    if (n >= 9 && left)
      left--;
    memset(o, left ? 0xff : 0, n);
    return true;
  }
};
static std::string
sampler_bounded(int width)
{
  static const double S[] = { 1.277833697, 1.5, 1.8205 };
  return bounded(mc::fmt("the integer sampler with width %g", S[width]), [&](size_t n) {
    rejecting e(n);
    install_rng in(&e);
    prng::prng_t r;
    samplerz::samplerz(5.25, S[width], 1.277833697, r);
  }, 8, mc::quick ? 20000 : 200000);
}

template<size_t N>
static std::vector<target>
rejections(int key, int id, std::string& what)
{
  target ok;
  for (uint64_t sd = id + 13; ok.s1.empty(); sd += 100)
    ok = with_bits<N>(-3, sd, P<N>::beta2 / 10 * 8);
  std::vector<target> seq;
  for (int kind : { id == 0 ? 0 : id == 1 ? 3 : 1, id == 2 ? 2 : -1 })
    if (target bad; kind >= 0 && rejected<N>(kind, key, ok, id * 10 + kind, bad))
      seq.push_back(bad);
  if (seq.empty())
    return seq;
  what = "[" + seq[0].name + "]";
  seq.push_back(ok);
  return seq;
}

template<size_t N>
static void
define()
{
  const std::string nm = mc::fmt("N=%zu: ", N);
  mc::add(nm + "operations on other inputs each time, again and again", 7, [](uint64_t i) -> std::string { return varied<N>((int)i); }, 1, 400);
  // families with rejected attempts
  mc::add(nm + "signing with rejected attempts, again and again", 6, [](uint64_t id) -> std::string {
    std::string what;
    const auto seq = rejections<N>(id % 3, id % 3, what);
    if (seq.empty())
      return "";
    return repeated(mc::fmt("signing with 3 attempts rejected because ") + what, [&] { return c02::run_script<N>(id % 3, id / 3, seq, what, 3); });
  }, 1, 120);
  mc::add(nm + "memory does not grow with the number of rejected attempts", 6, [](uint64_t id) -> std::string {
    std::string what, bad;
    const auto seq = rejections<N>(id % 3, id % 3, what);
    if (seq.empty())
      return "";
    const auto r = bounded("signing with attempts rejected because " + what, [&](size_t n) {
      if (auto e = c02::run_script<N>(id % 3, id / 3, seq, what, n); !e.empty())
        bad = e;
    }, 8, mc::quick ? 1500 : 20000);
    return bad.empty() ? r : bad;
  }, 1, 200);
  static std::vector<const cands::cand*> cheap, bad, ok;
  static bool seen[cands::NKINDS]{};
  for (const auto& c : c03::table<N>()) {
    const int k = c.kind;
    if (c03::good(k))
      ok.push_back(&c);
    else if (!seen[k]) {
      seen[k] = true;
      bad.push_back(&c);
      if (k == cands::NONINV || k == cands::F32 || k == cands::NORM || k == cands::DUAL)
        cheap.push_back(&c);
    }
  }
  const uint64_t step = mc::quick ? (N == 512 ? 1 : 3) : 1;
  mc::add(nm + "key generation with each kind of rejected candidate, again and again", (mc::quick ? 1 : 2) * bad.size() / step, [step](uint64_t id) -> std::string {
    const uint64_t b = id * step % bad.size();
    const int api = (id + id * step / bad.size()) % 2 ? 1 : 2;
    return repeated(mc::fmt("key generation, first candidate of kind %s", c03::KNAME[bad[b]->kind]), [&] { return c03::run<N>(api, { { bad[b], 1, 0 }, { ok[id % ok.size()], 1, 0 } }, false); }, mc::quick ? 8 : 1);
  }, 1, 400);
  mc::add(nm + "memory does not grow with the number of rejected candidates", cheap.size(), [](uint64_t id) -> std::string {
    std::string bad;
    const auto r = bounded(mc::fmt("key generation, candidates of kind %s", c03::KNAME[cheap[id]->kind]), [&](size_t n) {
      if (auto e = c03::run<N>(id % 2 ? 1 : 0, { { cheap[id], 1, 0 }, { ok[id % ok.size()], 1, 0 } }, false, n); !e.empty())
        bad = e;
    }, 8, mc::quick ? 129 : 2000);
    return bad.empty() ? r : bad;
  }, 1, 400);
  mc::add(nm + "the random device fails at every word", 3 * 72, [](uint64_t id) -> std::string {
    const uint64_t k = id / 3;
    const int op = id % 3;
    const auto& key = keys::get<N>(0);
    auto call = [&] {
      const uint8_t m[3] = { 1, 2, 3 };
      std::vector<uint8_t> a(P<N>::pklen), b(P<N>::sklen), s(P<N>::siglen);
      if (op == 0) {
        prng::prng_t r;
        r.read(s.data(), 40);
      } else if (op == 1)
        falcon::sign<N>(key.sk.data(), m, 3, s.data());
      else
        falcon::keygen<N>(a.data(), b.data());
    };
    dev::fail = ~0ull;
    dev::serial = 0;
    {
      prng::prng_t r;
    }
    if (dev::serial <= k) {
      mc::outcome("fewer words are drawn");
      return "";
    }
    static const char* NAME[] = { "a generator", "signing", "key generation" };
    const auto r = repeated(std::string(NAME[op]) + mc::fmt(", the random device fails at word %d", (int)k), [&]() -> std::string {
      dev::serial = 0;
      dev::fail = k;
      try {
        call();
      } catch (...) {
      }
      dev::fail = ~0ull;
      return "";
    });
    mc::outcome("device failed");
    return r;
  }, 1, 200);
}

template<size_t N>
static void
solver()
{
  mc::add(mc::fmt("N=%zu: solver, solvable and unsolvable pairs, again and again", N), 64, [](uint64_t id) -> std::string {
    std::array<mpz_class, N> f, g;
    for (size_t i = 0; i < N; i++) {
      f[i] = (long)(mc::mix(id * 100 + i) % 9) - 4;
      g[i] = (long)(mc::mix(id * 100 + 50 + i) % 9) - 4;
      if (id % 4 == 1 && i)
        f[i] = g[i] = 0;
      if (id % 4 == 2)
        f[i] *= 2, g[i] *= 2;
    }
    if (id == 1)
      f[0] = g[0] = 0;
    return repeated(mc::fmt("N=%zu solver, instance %d", N, (int)id), [&]() -> std::string {
      const auto r = ntru_gen::ntru_solve<N>(f, g);
      mc::outcome(r.second.is_solution() ? "solved" : "no solution");
      return "";
    });
  }, 1, 60);
}

int
main(int argc, char** argv)
{
  return mc::main(argc, argv, [] {
#ifdef PART_1024
    define<1024>();
#else
    define<512>();
    mc::add("memory does not grow with the number of rejections of the integer sampler", 3, [](uint64_t i) -> std::string { return sampler_bounded((int)i); }, 1, 100);
    solver<1>();
    solver<2>();
    solver<4>();
    solver<16>();
    solver<64>();
    mc::add("every operation, again and again", c18::CHEAP + 2, [](uint64_t i) -> std::string {
      c18::prepare(0);
      return repeated(c18::ops()[i].name, [&]() -> std::string {
        c18::ops()[i].run();
        return c18::MODIFIED;
      }, i >= c18::CHEAP && mc::quick ? 4 : 1);
    }, 1, 200);
    mc::add("every pair of operations, again and again", c18::CHEAP * c18::CHEAP, [](uint64_t i) -> std::string {
      if (mc::quick && (i / c18::CHEAP + i) % 4)
        return "";
      c18::prepare(0);
      const auto &a = c18::ops()[i / c18::CHEAP], &b = c18::ops()[i % c18::CHEAP];
      return repeated(std::string(a.name) + " and " + b.name + " in turn", [&]() -> std::string {
        a.run();
        b.run();
        return c18::MODIFIED;
      }, mc::quick ? 4 : 1);
    }, 4, 200);
#endif
  });
}
