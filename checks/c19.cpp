// The random generator: the system random device is the environment.  Every device word, bit and
// pair of bits is varied, and every split of the stream into reads.
#include "flat.hpp"
#include "keys.hpp"
#include "mc.hpp"
#include "falcon.hpp"
#include <memory>
#include <unordered_set>

// ---- the device ----
namespace dev {
int background = 0;
uint64_t serial = 0; // words handed out so far
uint64_t base = 0;   // serial at which the observed instance began
std::map<uint64_t, uint32_t> flip; // serial - base -> xor mask
std::map<uint64_t, uint32_t> force;
uint32_t
word(uint64_t k)
{
  const uint64_t i = k - base;
  uint32_t w = background == 0 ? 0 : background == 1 ? 0xffffffffu : background == 2 ? (uint32_t)mc::mix(k * 77 + 5) : background == 3 ? (uint32_t)(i + 1) * 0x01010101u : 0x80808080u;
  if (k >= base) {
    if (auto f = force.find(i); f != force.end())
      w = f->second;
    if (auto f = flip.find(i); f != flip.end())
      w ^= f->second;
  }
  return w;
}
}
struct device_failure : std::runtime_error
{
  device_failure()
    : std::runtime_error("random_device could not be read")
  {
  }
};
static uint64_t FAIL_AT = ~0ull; // from this word of the observed instance on, the device fails
std::random_device::result_type
std::random_device::_M_getval()
{
  if (dev::base != ~0ull && dev::serial >= dev::base && dev::serial - dev::base >= FAIL_AT)
    throw device_failure{};
  return dev::word(dev::serial++);
}

using bytes = std::vector<uint8_t>;

struct seen_seed : env::rng_source
{
  std::vector<bytes> seeds;
  void seeded(const uint8_t* p, size_t n) override { seeds.emplace_back(p, p + n); }
  bool read(uint8_t*, size_t, env::sponge&) override { return false; }
};

static std::string
hex(const bytes& b, size_t n = 16)
{
  std::string s;
  for (size_t i = 0; i < b.size() && i < n; i++)
    s += mc::fmt("%02x", b[i]);
  return s;
}
static bytes
stream(prng::prng_t& r, size_t n)
{
  bytes b(n);
  r.read(b.data(), n);
  return b;
}
// a fresh instance after `history` earlier ones; its first n bytes and the number of device words used
static bytes
instance(int history, size_t n, size_t* words = nullptr)
{
  // earlier instances see a device that does not depend on the flips
  dev::base = ~0ull;
  dev::serial = 0;
  for (int i = 0; i < history; i++) {
    prng::prng_t r;
    stream(r, 1 + 13 * i);
  }
  dev::base = dev::serial;
  prng::prng_t r;
  bytes b = stream(r, n);
  if (words)
    *words = dev::serial - dev::base;
  mc::transitions(1);
  return b;
}

static const int HIST[] = { 0, 1, 2, 7 };

static std::string
entropy(int bg, int history)
{
  dev::background = bg;
  dev::flip.clear();
  dev::force.clear();
  size_t W = 0;
  const bytes base = instance(history, 48, &W);
  const std::string what = mc::fmt("device background %d, instance number %d: ", bg, history + 1);
  if (W == 0)
    return what + "no word is taken from the system random device";
  std::vector<std::pair<size_t, int>> eff;
  std::set<bytes> all{ base };
  for (size_t w = 0; w < W; w++) {
    size_t here = 0;
    for (int b = 0; b < 32; b++) {
      dev::flip = { { w, 1u << b } };
      const bytes s = instance(history, 48);
      mc::states(1);
      if (s == base)
        continue;
      here++;
      eff.push_back({ w, b });
      if (!all.insert(s).second)
        return what + mc::fmt("flipping bit %d of device word %zu gives the stream of another device output", b, w);
    }
    if (!here)
      return what + mc::fmt("device word %zu of %zu has no influence on the stream", w, W);
  }
  mc::outcome(mc::fmt("%zu device words, %zu bits matter", W, eff.size()));
  if (eff.size() < 256)
    return what + mc::fmt("only %zu bits of device output matter", eff.size());
  for (size_t i = 0; i < eff.size(); i++)
    for (size_t j = i + 1; j < eff.size(); j++) {
      dev::flip.clear();
      dev::flip[eff[i].first] ^= 1u << eff[i].second;
      dev::flip[eff[j].first] ^= 1u << eff[j].second;
      mc::states(1);
      if (!all.insert(instance(history, 48)).second)
        return what + mc::fmt("flipping bit %d of word %zu and bit %d of word %zu gives the stream of another device output", eff[i].second, eff[i].first, eff[j].second, eff[j].first);
    }
  mc::traces(1);
  return "";
}

template<size_t N>
static std::string
sign_words(int history, int k, bool second_interface)
{
  const auto& key = keys::get<N>(k);
  dev::background = 2;
  dev::flip.clear();
  dev::force.clear();
  const uint8_t msg[3] = { 1, 2, 3 };
  auto run = [&](size_t* W) {
    dev::base = ~0ull;
    dev::serial = 0;
    bytes sig(ref::params<N>::siglen);
    for (int i = 0; i < history; i++)
      falcon::sign<N>(key.sk.data(), msg, 3, sig.data());
    dev::base = dev::serial;
    falcon::sign<N>(key.sk.data(), msg, 3, sig.data());
    if (W)
      *W = dev::serial - dev::base;
    mc::transitions(1);
    return bytes(sig.begin() + 1, sig.begin() + 41);
  };
  size_t W = 0;
  std::set<bytes> all{ run(&W) };
  if (!W)
    return mc::fmt("N=%zu: signature number %d takes nothing from the system random device", N, history + 1);
  for (size_t w = 0; w < W; w++) {
    dev::flip = { { w, 0xffffffffu } };
    mc::states(1);
    if (!all.insert(run(nullptr)).second)
      return mc::fmt("N=%zu: complementing device word %zu of %zu does not change the salt of signature number %d", N, w, W, history + 1);
  }
  mc::outcome(mc::fmt("N=%zu: each of %zu device words changes the salt", N, W));
  mc::traces(1);
  return "";
}
template<size_t N>
static std::string
keygen_words(int w)
{
  dev::background = 2;
  dev::flip.clear();
  dev::force.clear();
  dev::base = dev::serial = 0;
  bytes pk0(falcon_utils::compute_pkey_len<N>()), sk0(falcon_utils::compute_skey_len<N>());
  falcon::keygen<N>(pk0.data(), sk0.data());
  const size_t W = dev::serial;
  dev::serial = 0;
  bytes pk1(pk0.size()), sk1(sk0.size());
  dev::flip = { { w % W, 0xffffffffu } };
  falcon::keygen<N>(pk1.data(), sk1.data());
  mc::states(1);
  mc::transitions(2);
  mc::traces(1);
  if (pk0 == pk1 || sk0 == sk1)
    return mc::fmt("N=%zu: complementing device word %zu of %zu leaves the generated key unchanged", N, w % W, W);
  mc::outcome(mc::fmt("N=%zu: keys differ", N));
  return "";
}

// the device fails from word k on: the failure reaches the caller, and later calls are those of a
// process in which it had not happened
template<size_t N>
static std::string
failing(int op, int history, uint64_t k)
{
  static const char* NAME[] = { "a generator", "signing", "", "key generation" };
  const auto& key = keys::get<N>(0);
  static const uint8_t msg[3] = { 1, 2, 3 };
  auto call = [&] {
    bytes r;
    if (op == 0) {
      prng::prng_t g;
      r = stream(g, 48);
    } else if (op == 3) {
      r.resize(falcon_utils::compute_pkey_len<N>());
      bytes sk(falcon_utils::compute_skey_len<N>());
      falcon::keygen<N>(r.data(), sk.data());
    } else {
      bytes sig(ref::params<N>::siglen);
      falcon::sign<N>(key.sk.data(), msg, 3, sig.data());
      r.assign(sig.begin() + 1, sig.begin() + 41);
    }
    mc::transitions(1);
    return r;
  };
  dev::background = 2;
  dev::flip.clear();
  dev::force.clear();
  FAIL_AT = ~0ull;
  dev::base = ~0ull;
  dev::serial = 0;
  for (int i = 0; i < history; i++) {
    prng::prng_t g;
    stream(g, 5);
  }
  const uint64_t start = dev::base = dev::serial;
  const bytes want = (dev::base = dev::serial = start, op == 3 ? bytes{} : call());
  dev::base = dev::serial = start;
  {
    prng::prng_t g;
  }
  const uint64_t W = dev::serial - start;
  mc::states(1);
  if (W <= k) {
    mc::outcome("fewer words are drawn");
    return "";
  }
  dev::base = dev::serial = start;
  FAIL_AT = k;
  bool went_on = true;
  try {
    call();
  } catch (...) {
    went_on = false;
  }
  FAIL_AT = ~0ull;
  if (went_on)
    return mc::fmt("N=%zu: %s goes on although the random device failed at word %d of %d", N, NAME[op], (int)k, (int)W);
  if (op != 3) {
    dev::base = dev::serial = start;
    if (call() != want)
      return mc::fmt("N=%zu: %s after a failure of the random device at word %d of %d gives something else than without it", N, NAME[op], (int)k, (int)W);
  }
  mc::outcome("the failure reaches the caller");
  mc::traces(1);
  return "";
}

// reads of the given sizes return consecutive pieces of the SHAKE256 stream of the seed
static std::string
split(const std::vector<size_t>& sizes)
{
  seen_seed src;
  install_rng in(&src);
  prng::prng_t r;
  if (src.seeds.size() != 1)
    return mc::fmt("one instance initialises SHAKE256 %zu times", src.seeds.size());
  env::sponge sp;
  sp.absorb(src.seeds[0].data(), src.seeds[0].size());
  sp.finalize();
  size_t at = 0;
  std::string what = "reads of";
  for (size_t n : sizes) {
    what += mc::fmt(" %zu", n);
    bytes b(n + 16, 0x5a), e(n);
    r.read(b.data() + 8, n);
    sp.squeeze(e.data(), n);
    if (!std::equal(e.begin(), e.end(), b.begin() + 8))
      return what + mc::fmt(" bytes: the last one does not return bytes %zu.. of the stream", at);
    for (int i = 0; i < 8; i++)
      if (b[i] != 0x5a || b[n + 8 + i] != 0x5a)
        return what + " bytes: written outside of the output";
    at += n;
    mc::transitions(1);
  }
  mc::states(1);
  mc::traces(1);
  mc::outcome("consecutive");
  return "";
}

int
main(int argc, char** argv)
{
  return mc::main(argc, argv, [] {
    mc::add("every bit and pair of bits of the device output, 5 backgrounds, instance 1, 2, 3, 8", 20, [](uint64_t i) -> std::string {
      return entropy(i % 5, HIST[i / 5]);
    }, 1, 300);
    mc::add("every low-byte value at every device word", 5 * 4, [](uint64_t i) -> std::string {
      dev::background = i % 5;
      dev::flip.clear();
      dev::force.clear();
      const int h = HIST[i / 5];
      size_t W = 0;
      const bytes base = instance(h, 48, &W);
      std::set<bytes> all{ base };
      for (size_t w = 0; w < W; w++)
        for (int v = 0; v < 256; v++) {
          dev::force.clear();
          const uint32_t old = dev::word(dev::base + w);
          const uint32_t nw = (old & ~255u) | v;
          if (nw == old)
            continue;
          dev::force = { { w, nw } };
          mc::states(1);
          if (!all.insert(instance(h, 48)).second)
            return mc::fmt("background %d, instance %d: value %02x of device word %zu gives the stream of another device output", (int)i % 5, h + 1, v, w);
        }
      mc::outcome("all distinct");
      mc::traces(1);
      return "";
    }, 1, 120);
    mc::add("two words exchanged", 4, [](uint64_t i) -> std::string {
      dev::background = 2;
      dev::flip.clear();
      dev::force.clear();
      const int h = HIST[i];
      size_t W = 0;
      const bytes base = instance(h, 48, &W);
      std::set<bytes> all{ base };
      for (size_t a = 0; a < W; a++)
        for (size_t b = 0; b < a; b++) {
          dev::force.clear();
          const uint32_t x = dev::word(dev::base + a), y = dev::word(dev::base + b);
          if ((x & 255) == (y & 255))
            continue;
          dev::force = { { a, y }, { b, x } };
          mc::states(1);
          if (!all.insert(instance(h, 48)).second)
            return mc::fmt("instance %d: exchanging device words %zu and %zu does not change the stream", h + 1, a, b);
        }
      mc::traces(1);
      return "";
    }, 1, 120);
    mc::add("all splits of 12 bytes into reads, with empty reads", 2048 * 3, [](uint64_t i) -> std::string {
      const int m = i % 2048, z = i / 2048;
      std::vector<size_t> s;
      size_t run = 1;
      for (int b = 0; b < 11; b++) {
        if (m >> b & 1) {
          s.push_back(run);
          run = 0;
          if (z == 1 && b % 3 == 0)
            s.push_back(0);
        }
        run++;
      }
      s.push_back(run);
      if (z == 2) {
        s.insert(s.begin(), 0);
        s.insert(s.begin(), 130); // across the first block boundary
      }
      return split(s);
    }, 64);
    mc::add("the device fails at every word", 72 * 6 * 2, [](uint64_t i) -> std::string {
      static const int OP[] = { 0, 1, 3 };
      const int o = OP[i % 3], h = i / 3 % 2 * 2, big = i / 6 % 2;
      return big ? failing<1024>(o, h, i / 12) : failing<512>(o, h, i / 12);
    }, 2, 120);
    const size_t A = mc::quick ? 290 : 700;
    mc::add("all pairs of read sizes around the block length, followed by 300 bytes", A, [A](uint64_t a) -> std::string {
      for (size_t b = 0; b < A; b++)
        if (auto r = split({ (size_t)a, b, 300 }); !r.empty())
          return r;
      return "";
    }, 4);
    mc::add("repeated reads of one size", 300, [](uint64_t n) -> std::string { return split(std::vector<size_t>(n < 20 ? 300 : 40, n)); }, 8);
    mc::add("a very long stream", 2, [](uint64_t i) -> std::string {
      seen_seed src;
      install_rng in(&src);
      prng::prng_t r;
      env::sponge sp;
      sp.absorb(src.seeds.at(0).data(), src.seeds[0].size());
      sp.finalize();
      const size_t total = i ? (mc::quick ? (1ull << 32) + (1 << 20) : 1ull << 34) : 1ull << 28, chunk = i ? (1 << 20) + 8 : 777;
      bytes b(chunk), e(chunk);
      for (size_t at = 0; at < total; at += chunk) {
        r.read(b.data(), chunk);
        sp.squeeze(e.data(), chunk);
        if (b != e)
          return mc::fmt("reads of %zu bytes: the one at byte %zu of the stream does not return the next bytes", chunk, at);
      }
      mc::states(total / chunk);
      mc::transitions(total / chunk);
      mc::traces(1);
      mc::outcome("very long stream");
      return "";
    }, 1, 600);
    mc::add("long reads", 12, [](uint64_t n) -> std::string { return split({ 1, (size_t)(1000 << n) + n, 40, 9 }); });
    mc::add("two instances, all interleavings of 10 reads", 1024, [](uint64_t m) -> std::string {
      dev::background = 2;
      dev::flip.clear();
      dev::force.clear();
      seen_seed src;
      install_rng in(&src);
      prng::prng_t r[2];
      env::sponge sp[2];
      for (int k = 0; k < 2; k++) {
        sp[k].absorb(src.seeds[k].data(), src.seeds[k].size());
        sp[k].finalize();
      }
      bytes got[2];
      for (int i = 0; i < 10; i++) {
        const int k = m >> i & 1;
        const size_t n = (i * 29 + 9 * k) % 61;
        bytes b(n), e(n);
        r[k].read(b.data(), n);
        sp[k].squeeze(e.data(), n);
        if (b != e)
          return mc::fmt("interleaving %03x: read %d of instance %d is not the next part of its stream", (int)m, i, k);
        got[k].insert(got[k].end(), b.begin(), b.end());
        mc::transitions(1);
      }
      const size_t c = std::min(got[0].size(), got[1].size());
      if (c >= 16 && std::equal(got[0].begin(), got[0].begin() + c, got[1].begin()))
        return mc::fmt("interleaving %03x: both instances return the same stream", (int)m);
      mc::states(1);
      mc::traces(1);
      return "";
    }, 32);
    mc::add("N=512: every device word of a signing call", 3 * 3, [](uint64_t i) -> std::string { return sign_words<512>(i % 3, i / 3, false); }, 1, 120);
    mc::add("N=1024: every device word of a signing call", 3 * 3, [](uint64_t i) -> std::string { return sign_words<1024>(i % 3, i / 3, false); }, 1, 120);
    mc::add("N=512: device words of key generation", mc::quick ? 8 : 64, [](uint64_t i) -> std::string { return keygen_words<512>(mc::quick ? i * 9 : i); }, 1, 120);
    if (!mc::quick)
      mc::add("N=1024: device words of key generation", 64, [](uint64_t i) -> std::string { return keygen_words<1024>(i); }, 1, 120);
  });
}
