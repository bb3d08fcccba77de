// hash_to_point against the specification, under every XOF output stream of the listed spaces.
#include "hashing.hpp"
#include "mc.hpp"
#include "ref.hpp"

// the XOF answers with 16-bit big-endian words chosen by the explorer
struct stream : env::xof_source
{
  std::vector<uint16_t> w; // explicit prefix
  std::function<uint16_t(size_t)> rest;
  std::vector<std::pair<const uint8_t*, size_t>> absorbed;
  bool skip = true;
  size_t maxoff = 0;
  bool absorb(const uint8_t* p, size_t n) override
  {
    if (n)
      absorbed.push_back({ p, n });
    return skip;
  }
  uint16_t word(size_t i) const { return i < w.size() ? w[i] : rest(i); }
  bool read(uint8_t* out, size_t n, size_t off) override
  {
    for (size_t i = 0; i < n; i++) {
      const uint16_t x = word((off + i) / 2);
      out[i] = (off + i) % 2 ? x & 255 : x >> 8;
    }
    maxoff = std::max(maxoff, off + n);
    return true;
  }
};

template<size_t N>
std::string
compare(stream& s, const std::string& what)
{
  ff::ff_t out[N + 32];
  for (auto& x : out)
    x.v = 0xfffe;
  uint8_t salt[40] = { 1 }, msg[8] = { 2 };
  env::xof = &s;
  hashing::hash_to_point<N>(salt, 40, msg, 8, out + 16);
  env::xof = nullptr;
  size_t k = 0, rejected = 0;
  for (size_t i = 0; k < N; i++) {
    const uint16_t w = s.word(i);
    if (w >= 61445) {
      rejected++;
      continue;
    }
    if (out[16 + k].v != w % 12289)
      return what + mc::fmt(": coefficient %zu is %d, expected %d (word %zu = %d)", k, out[16 + k].v, w % 12289, i, w);
    k++;
  }
  for (size_t i = 0; i < 16; i++)
    if (out[i].v != 0xfffe || out[16 + N + i].v != 0xfffe)
      return what + ": write outside of the polynomial";
  mc::transitions(N + rejected);
  mc::traces(1);
  mc::outcome(mc::fmt("N=%zu, %s", N, rejected == 0 ? "no rejection" : rejected == 1 ? "1 rejection" : rejected == 2 ? "2 rejections" : rejected < 40 ? "3-39 rejections" : "40+ rejections"));
  return "";
}

template<size_t N>
std::string
real(const std::vector<uint8_t>& salt, const std::vector<uint8_t>& msg, const std::string& what)
{
  ff::ff_t out[N];
  for (auto& x : out)
    x.v = 0xffff;
  const auto s2 = salt, m2 = msg;
  hashing::hash_to_point<N>(salt.data(), salt.size(), msg.data(), msg.size(), out);
  if (s2 != salt || m2 != msg)
    return what + ": input modified";
  const auto c = ref::hash_to_point(N, salt.data(), salt.size(), msg.data(), msg.size());
  for (size_t i = 0; i < N; i++)
    if (out[i].v != c[i])
      return what + mc::fmt(": coefficient %zu is %d, expected %d", i, out[i].v, (int)c[i]);
  mc::states(1);
  mc::transitions(N);
  mc::traces(1);
  mc::outcome(mc::fmt("N=%zu real SHAKE256", N));
  return "";
}

static std::vector<uint8_t>
bytes(size_t n, uint64_t k)
{
  std::vector<uint8_t> v(n);
  for (size_t i = 0; i < n; i++)
    v[i] = mc::mix(k * 77777 + i) >> 9;
  return v;
}

template<size_t N>
void
define()
{
  const std::string n = mc::fmt("%zu: ", N);
  static const uint16_t REJ[] = { 61445, 65535, 61446, 63000 };
  mc::add(n + "every word at every position", 65536, [](uint64_t k) -> std::string {
    for (uint64_t step : { 0ull, 1ull, 4091ull }) {
      if (step == 0 && k >= 61445)
        continue;
      stream s;
      s.rest = [=](size_t i) { return (uint16_t)(k + i * step); };
      mc::states(1);
      if (auto e = compare<N>(s, mc::fmt("word i = %d + %d i", (int)k, (int)step)); !e.empty())
        return e;
    }
    return "";
  }, 256);
  mc::add(n + "one word takes every value among accepted words", 65536, [](uint64_t v) -> std::string {
    for (size_t p : { (size_t)0, (size_t)1, (size_t)66, (size_t)67, (size_t)68, (size_t)69, (size_t)135, (size_t)136, N - 2, N - 1 }) {
      stream s;
      s.rest = [=](size_t i) { return (uint16_t)(i == p ? v : 12288 + i); };
      mc::states(1);
      if (auto e = compare<N>(s, mc::fmt("word %zu = %d", p, (int)v)); !e.empty())
        return e;
    }
    return "";
  }, 256);
  mc::add(n + "every pair of rejected positions", N + 70, [](uint64_t p) -> std::string {
    for (size_t q = p; q < N + 70; q++) {
      stream s;
      s.rest = [=](size_t i) { return (uint16_t)(i == p ? REJ[(p + q) % 4] : i == q ? REJ[q % 4] : (i * 3) % 61445); };
      mc::states(1);
      if (auto e = compare<N>(s, mc::fmt("words %d and %zu rejected", (int)p, q)); !e.empty())
        return e;
    }
    if (p == 67)
      mc::sample(mc::fmt("N=%zu word 67 (end of first squeeze block) and every later word rejected in turn", N));
    return "";
  }, 4);
  mc::add(n + "runs of rejected words", N + 1, [](uint64_t p) -> std::string {
    std::vector<size_t> len;
    for (size_t r = 1; r <= (mc::quick ? 72 : 300); r++)
      len.push_back(r);
    for (size_t r : { 135, 136, 137, 203, 204, 205, 500, 1000, 4096 })
      len.push_back(r);
    for (size_t r : len) {
      stream s;
      s.rest = [=](size_t i) { return (uint16_t)(i >= p && i < p + r ? REJ[r % 4] : (i * 5 + 1) % 61445); };
      mc::states(1);
      if (auto e = compare<N>(s, mc::fmt("%zu words from %d on rejected", r, (int)p)); !e.empty())
        return e;
    }
    return "";
  }, 4);
  mc::add(n + "every reject/accept pattern of 12 words at block boundaries and at the end", 4096, [](uint64_t m) -> std::string {
    std::vector<size_t> at{ 0, 62, 130, 198, N - 12, N - 6 };
    for (size_t b = 68; b < N + 100; b += 68)
      at.push_back(b - 6);
    for (size_t a : at) {
      stream s;
      s.rest = [=](size_t i) { return (uint16_t)(i >= a && i < a + 12 && ((m >> (i - a)) & 1) ? REJ[i % 4] : (i * 7 + 2) % 61445); };
      mc::states(1);
      if (auto e = compare<N>(s, mc::fmt("reject mask %03x at word %zu", (unsigned)m, a)); !e.empty())
        return e;
    }
    return "";
  }, 32);
  mc::add(n + "periodic rejections", 32 * 32, [](uint64_t i) -> std::string {
    const size_t per = 2 + i / 32, ph = i % 32;
    stream s;
    s.rest = [=](size_t j) { return (uint16_t)(j % per == ph % per ? 65535 : (j * 11) % 61445); };
    stream t;
    t.rest = [=](size_t j) { return (uint16_t)(j % per != ph % per ? 65535 : (j * 11) % 61445); };
    mc::states(2);
    if (auto e = compare<N>(s, mc::fmt("every %zu-th word rejected", per)); !e.empty())
      return e;
    return compare<N>(t, mc::fmt("only every %zu-th word accepted", per));
  }, 8);
  mc::add(n + "message lengths", mc::quick ? 700 : 3000, [](uint64_t l) -> std::string {
    for (int k = 0; k < 2; k++)
      if (auto e = real<N>(bytes(40, l * 2 + k), bytes(l, l + 5 * k), mc::fmt("message of %d bytes", (int)l)); !e.empty())
        return e;
    return "";
  }, 8);
  mc::add(n + "salt lengths", 300, [](uint64_t l) -> std::string {
    return real<N>(bytes(l, 3), bytes(33, l), mc::fmt("salt of %d bytes", (int)l));
  }, 8);
  mc::add(n + "longer messages", 20, [](uint64_t k) -> std::string {
    const size_t l = (1ull << (8 + k / 2)) + (k % 2) - (k % 3);
    return real<N>(bytes(40, k), bytes(l, k), mc::fmt("message of %zu bytes", l));
  });
  mc::add(n + "every bit of salt and message matters, in place", 8 * (40 + 100), [](uint64_t b) -> std::string {
    auto s = bytes(40, 1), m = bytes(100, 2);
    (b < 320 ? s[b / 8] : m[b / 8 - 40]) ^= 1 << (b % 8);
    return real<N>(s, m, mc::fmt("bit %d flipped", (int)b));
  }, 16);
  // Which bytes are hashed, for lengths no real message of a test reaches.  The memory is reserved
  // but never touched: the environment only records (pointer, length).
  mc::add(n + "huge messages are absorbed completely", 40, [](uint64_t k) -> std::string {
    const size_t len = k < 32 ? (1ull << (k + 1)) + (k % 3) - 1 : (1ull << 32) + (k - 36) * 17;
    auto* p = static_cast<uint8_t*>(mmap(nullptr, 1ull << 34, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (p == MAP_FAILED)
      return "";
    uint8_t salt[40] = {};
    stream s;
    s.rest = [](size_t i) { return (uint16_t)i; };
    ff::ff_t out[N];
    env::xof = &s;
    hashing::hash_to_point<N>(salt, 40, p, len, out);
    env::xof = nullptr;
    munmap(p, 1ull << 34);
    size_t so = 0, mo = 0;
    for (auto [q, l] : s.absorbed) {
      if (mo == 0 && so < 40 && q == salt + so && l <= 40 - so)
        so += l;
      else if (so == 40 && q == p + mo && l <= len - mo)
        mo += l;
      else
        // data may have been staged through other memory: only count it
        (so < 40 ? so : mo) += l;
    }
    mc::states(1);
    mc::traces(1);
    mc::outcome("absorbed lengths recorded");
    if (so + mo != 40 + len)
      return mc::fmt("message of %zu bytes: %zu bytes absorbed instead of %zu", len, so + mo, 40 + len);
    return "";
  });
}

int
main(int argc, char** argv)
{
  return mc::main(argc, argv, [] {
    define<512>();
    define<1024>();
  });
}
