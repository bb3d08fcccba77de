// Salts: fresh random bytes of that very call, used for nothing else, hashed as stored.
#include "targets.hpp"
#include <deque>

using bytes = std::vector<uint8_t>;

// One endless stream; whatever generator asks, it gets the next bytes.
struct stream_rng : env::rng_source
{
  struct drawn
  {
    bytes b;
    std::vector<size_t> at; // place of each byte in the stream
  };
  env::sponge s;
  size_t total = 0;
  std::map<const env::sponge*, drawn> by; // what each generator was answered
  explicit stream_rng(uint64_t seed)
  {
    s.absorb((const uint8_t*)&seed, 8);
    s.finalize();
  }
  bool read(uint8_t* o, size_t n, env::sponge& g) override
  {
    s.squeeze(o, n);
    auto& d = by[&g];
    if (d.b.size() > 1 << 18) { // the distant past is of no interest
      d.b.erase(d.b.begin(), d.b.begin() + (1 << 17));
      d.at.erase(d.at.begin(), d.at.begin() + (1 << 17));
    }
    d.b.insert(d.b.end(), o, o + n);
    for (size_t i = 0; i < n; i++)
      d.at.push_back(total++);
    return true;
  }
};
// hash inputs are recorded; answers: real ones or a chosen polynomial
struct hash_log : env::xof_source
{
  bytes in;
  const poly* c = nullptr;
  bool absorb(const uint8_t* p, size_t n) override
  {
    in.insert(in.end(), p, p + n);
    return false;
  }
  bool read(uint8_t* out, size_t n, size_t off) override
  {
    if (!c)
      return false;
    for (size_t i = 0; i < n; i++) {
      const size_t k = (off + i) / 2;
      const unsigned w = k < c->size() ? (unsigned)(*c)[k] : 0;
      out[i] = (off + i) % 2 ? w & 255 : w >> 8;
    }
    return true;
  }
};
struct altered : env::rng_source
{
  env::rng_source* in;
  size_t at = 0, where = ~size_t(0);
  uint8_t mask = 0;
  bytes log;
  bool read(uint8_t* o, size_t n, env::sponge& s) override
  {
    in->read(o, n, s);
    if (where >= at && where < at + n)
      o[where - at] ^= mask;
    at += n;
    log.insert(log.end(), o, o + n);
    return true;
  }
};

static const uint8_t MSG[9] = { 9, 8, 7, 6, 5, 4, 3, 2, 1 };

// position of the salt in the bytes drawn, or -1
static long
find(const bytes& log, const uint8_t* salt)
{
  auto it = std::search(log.begin(), log.end(), salt, salt + 40);
  return it == log.end() ? -1 : it - log.begin();
}
static std::string
hexs(const uint8_t* p)
{
  std::string s;
  for (int i = 0; i < 40; i++)
    s += mc::fmt("%02x", p[i]);
  return s;
}

// a signing attempt history planned in advance: kinds of rejections, then success
template<size_t N>
struct plan_t
{
  bool ok = false;
  poly c;
  script s;
};
template<size_t N>
const plan_t<N>&
plan_for(int key, int kind)
{
  static std::map<int, plan_t<N>> m;
  auto it = m.find(key * 100 + kind + 1);
  if (it != m.end())
    return it->second;
  plan_t<N> r;
  const auto& p = directed::prep<N>(key);
  for (uint64_t seed = 5; seed < 30 && !r.ok; seed++) {
    target good = with_bits<N>(-2, seed, P<N>::beta2 / 10 * 8), bad;
    if (good.s1.empty() || (kind >= 0 && !rejected<N>(kind, key, good, seed, bad)))
      continue;
    r.c = ref::mulq(good.s2, p.k->h);
    for (size_t i = 0; i < N; i++)
      r.c[i] = ref::modq(r.c[i] + good.s1[i]);
    r.s.clear();
    r.ok = (kind < 0 || (directed::plan_attempt<N>(p, r.c, bad.s1, bad.s2, r.s))) && directed::plan_attempt<N>(p, r.c, good.s1, good.s2, r.s);
  }
  return m[key * 100 + kind + 1] = r;
}

template<size_t N>
static bytes
do_sign(int key, prng::prng_t* r, const uint8_t* msg = MSG, size_t mlen = 9)
{
  bytes sig(P<N>::siglen);
  if (r) {
    const auto& e = expand<N>(key);
    falcon::sign<N>(e.B.data(), e.T.data(), msg, mlen, sig.data(), *r);
  } else
    falcon::sign<N>(keys::get<N>(key).sk.data(), msg, mlen, sig.data());
  mc::transitions(1);
  return sig;
}

struct history
{
  std::vector<prng::prng_t> gen{ 2 };
  stream_rng env{ 99 };
  hash_log hash;
  std::set<size_t> used; // random bytes that were part of a salt
  std::set<bytes> salts;
  bytes last512{ bytes(P<512>::siglen) };
  std::string what;

  // the salt must be 40 consecutive random bytes of one generator, drawn by this call or left over
  // from an earlier draw, none of which has been part of a salt before; drawn: the candidates
  template<size_t N>
  std::string judge(const bytes& sig, const std::vector<const stream_rng::drawn*>& drawn, std::set<size_t>& used, const uint8_t* msg = MSG, size_t mlen = 9)
  {
    const uint8_t* salt = sig.data() + 1;
    const stream_rng::drawn* d = nullptr;
    size_t from = 0;
    for (auto p : drawn) {
      const auto it = std::find_end(p->b.begin(), p->b.end(), salt, salt + 40);
      if (it == p->b.end())
        continue;
      d = p;
      from = it - p->b.begin();
    }
    if (!d)
      return what + ": salt " + hexs(salt) + " is not among the random bytes drawn";
    if (!salts.insert(bytes(salt, salt + 40)).second)
      return what + ": salt " + hexs(salt) + " was used before";
    for (int i = 0; i < 40; i++)
      if (!used.insert(d->at[from + i]).second)
        return what + ": salt overlaps the random bytes of an earlier salt";
    bytes want(salt, salt + 40);
    want.insert(want.end(), msg, msg + mlen);
    if (hash.in.size() < want.size() || !std::equal(want.begin(), want.end(), hash.in.end() - want.size()))
      return what + ": the hashed salt is not the one in the signature";
    return "";
  }
  template<size_t N>
  std::string plain(int key, int g, const uint8_t* msg = MSG, size_t mlen = 9)
  {
    install_rng a(&env);
    install_xof b(&hash);
    hash.in.clear();
    const bytes sig = do_sign<N>(key, g < 0 ? nullptr : &gen[g], msg, mlen);
    if (N == 512)
      last512 = sig;
    std::vector<const stream_rng::drawn*> all;
    for (auto& [g, d] : env.by)
      all.push_back(&d);
    return judge<N>(sig, all, used, msg, mlen);
  }
  template<size_t N>
  std::string with_rejection(int key, int g, int kind)
  {
    const auto& p = plan_for<N>(key, kind);
    if (!p.ok) {
      mc::outcome("rejection history not constructible");
      return "";
    }
    scripted_rng r(1000 + env.total);
    r.s = p.s;
    r.salt.resize(40);
    for (int i = 0; i < 40; i++)
      r.salt[i] = (uint8_t)(mc::mix(env.total * 41 + i + salts.size() * 1000003) >> 24);
    install_rng a(&r);
    hash.in.clear();
    hash.c = &p.c;
    install_xof b(&hash);
    // a generator of its own: the planned bytes must reach the sampler from the first one on
    prng::prng_t own;
    const bytes sig = do_sign<N>(key, g < 0 ? nullptr : &own);
    hash.c = nullptr;
    if (r.at <= N * 2)
      mc::outcome("rejection did not happen");
    else
      mc::outcome(mc::fmt("N=%zu call with a rejected attempt of kind %d", N, kind));
    stream_rng::drawn d;
    d.b = r.log;
    for (size_t i = 0; i < d.b.size(); i++)
      d.at.push_back(i);
    std::set<size_t> u;
    return judge<N>(sig, { &d }, u);
  }
  std::string op(int o)
  {
    static const char* NAME[] = { "sign stored key 512", "sign second stored key 512", "sign B,T 512 generator 0", "sign B,T 512 generator 1", "sign stored key 1024", "sign B,T 1024 generator 0", "verify 512", "sign B,T 512 generator 0 with a norm rejection", "sign stored key 512 with a length rejection", "sign B,T 1024 generator 1 with a norm rejection" };
    what += (what.empty() ? "" : ", ") + std::string(NAME[o]);
    switch (o) {
      case 0: return plain<512>(0, -1);
      case 1: return plain<512>(1, -1);
      case 2: return plain<512>(0, 0);
      case 3: return plain<512>(0, 1);
      case 4: return plain<1024>(0, -1);
      case 5: return plain<1024>(0, 0);
      case 6: {
        bytes s = last512;
        falcon::verify<512>(keys::get<512>(0).pk.data(), MSG, 9, s.data());
        return "";
      }
      case 7: return with_rejection<512>(0, 0, 0);
      case 8: return with_rejection<512>(1, -1, 2);
      default: return with_rejection<1024>(0, 1, 1);
    }
  }
};

// altering one drawn byte: a salt byte changes exactly that byte of the signature (the hash value
// being held fixed), any other byte leaves the salt alone
template<size_t N>
static std::string
deviate(int api, int kind, int part, int parts)
{
  const int key = 0;
  const auto& p = plan_for<N>(key, kind);
  if (!p.ok)
    return "";
  auto run = [&](size_t where, uint8_t mask, bytes* log) {
    prng::prng_t gen;
    scripted_rng r(7);
    r.s = p.s;
    for (int i = 0; i < 40; i++)
      r.salt.push_back(0x35 * i + 17);
    altered a;
    a.in = &r;
    a.where = where;
    a.mask = mask;
    hash_log h;
    h.c = &p.c;
    install_rng i1(&a);
    install_xof i2(&h);
    const bytes s = do_sign<N>(key, api ? &gen : nullptr);
    if (log)
      *log = a.log;
    return s;
  };
  bytes log;
  const bytes base = run(~size_t(0), 0, &log);
  const long at = find(log, base.data() + 1);
  const std::string what = mc::fmt("N=%zu %s%s", N, api ? "B,T interface" : "stored key", kind < 0 ? "" : ", first attempt rejected");
  if (at < 0)
    return what + ": the salt is not among the bytes drawn";
  if (part < 40) {
    for (int m = 1; m < 256; m += (mc::quick && kind >= 0) ? 17 : N == 1024 ? 3 : 1) {
      const bytes s = run(at + part, m, nullptr);
      mc::states(1);
      for (size_t i = 0; i < s.size(); i++)
        if (s[i] != (i == 1u + part ? base[i] ^ m : base[i]))
          return what + mc::fmt(": altering salt byte %d by %02x changes byte %zu of the signature to %02x (was %02x)", part, m, i, s[i], base[i]);
    }
    mc::outcome("salt byte: only that byte changes");
    return "";
  }
  part -= 40;
  parts -= 40;
  const size_t step = mc::quick ? (N == 512 ? 5 : 23) : 1;
  for (size_t w = part; w < log.size(); w += parts) {
    if (((long)w >= at && (long)w < at + 40) || (w / parts) % step)
      continue;
    const bytes s = run(w, w % 3 ? 0x01 : 0xff, nullptr);
    mc::states(1);
    if (memcmp(s.data() + 1, base.data() + 1, 40))
      return what + mc::fmt(": altering random byte %zu, which is not a salt byte, changes the salt", w);
  }
  mc::outcome("other byte: salt unchanged");
  return "";
}

int
main(int argc, char** argv)
{
  return mc::main(argc, argv, [] {
    constexpr int OPS = 10;
    const int depth = mc::quick ? 4 : 5;
    uint64_t n = 1;
    for (int i = 0; i < depth; i++)
      n *= OPS;
    mc::add(mc::fmt("all sequences of %d operations", depth), n, [depth](uint64_t id) -> std::string {
      history h;
      for (int i = 0; i < depth; i++, id /= OPS) {
        if (auto r = h.op(id % OPS); !r.empty())
          return r;
      }
      mc::states(1);
      mc::traces(1);
      mc::outcome(mc::fmt("%zu salts checked", h.salts.size()));
      return "";
    }, 4, 60);
    mc::add("one operation repeated 300 times", OPS, [](uint64_t id) -> std::string {
      history h;
      for (int i = 0; i < 300; i++) {
        if (auto r = h.op(id); !r.empty())
          return mc::fmt("repetition %d: ", i) + r.substr(0, 900);
        h.what.clear();
      }
      mc::states(1);
      mc::traces(1);
      return "";
    }, 1, 120);
    mc::add("long histories of one operation, all salts from unused random bytes", mc::quick ? 4 : 5, [](uint64_t id) -> std::string {
      static const int OP[] = { 2, 0, 5, 4, 2 };
      const size_t n = id == 4 ? 140000 : mc::quick ? (id == 0 ? 66000 : id == 1 ? 5000 : 2000) : (id % 2 ? 20000 : 70000);
      history h;
      for (size_t i = 0; i < n; i++) {
        if (auto r = h.op(OP[id]); !r.empty())
          return mc::fmt("repetition %zu: ", i) + r.substr(0, 900);
        h.what.clear();
      }
      mc::states(n);
      mc::traces(1);
      mc::outcome(mc::fmt("%zu salts of one history", h.salts.size()));
      return "";
    }, 1, 1200);
    // messages of every kind: short ones of every length, long ones around round numbers
    static const std::vector<size_t> LONG = [] {
      std::vector<size_t> l;
      for (size_t p : { 512, 1024, 2048, 3000, 4096, 8192, 10000, 16384, 32768, 65536, 1 << 17, 1 << 20 })
        for (int d = -1; d <= 1; d++)
          l.push_back(p + d);
      return l;
    }();
    mc::add("messages of all lengths and several contents", 4 * (300 + LONG.size()), [](uint64_t id) -> std::string {
      const size_t len = id / 4 < 300 ? id / 4 : LONG[id / 4 - 300];
      history h;
      for (int kind = 0; kind < 6; kind++) {
        bytes m(len);
        for (size_t i = 0; i < len; i++)
          m[i] = kind == 0 ? 0 : kind == 1 ? 0xff : kind == 2 ? i : kind == 3 ? 'a' : mc::mix(id * 8 + kind + (i << 20)) >> 11;
        if (kind == 5) // starts like an earlier salt and message
          for (size_t i = 0; i < len && i < 40; i++)
            m[i] = h.last512[1 + i];
        const std::string w = mc::fmt("message of %zu bytes, kind %d: ", len, kind);
        const std::string e = id % 4 == 0 ? h.plain<512>(0, -1, m.data(), len) : id % 4 == 1 ? h.plain<512>(1, 0, m.data(), len) : id % 4 == 2 ? h.plain<1024>(0, -1, m.data(), len) : h.plain<1024>(0, 1, m.data(), len);
        if (!e.empty())
          return w + e;
        mc::states(1);
      }
      mc::traces(1);
      mc::outcome(len < 300 ? "message: short" : len < 65535 ? "message: long" : "message: very long");
      return "";
    }, 4, 60);
    // one altered byte
    for (int api = 0; api < 2; api++)
      for (int kind : { -1, 0, 2 }) {
        if (mc::quick && kind == 2 && api == 1)
          continue;
        mc::add(mc::fmt("N=512: every drawn byte altered (interface %d, rejection %d)", api, kind), 120, [=](uint64_t i) -> std::string { return deviate<512>(api, kind, i, 120); }, 1, 120);
        if (!mc::quick || kind == -1)
          mc::add(mc::fmt("N=1024: every drawn byte altered (interface %d, rejection %d)", api, kind), 120, [=](uint64_t i) -> std::string { return deviate<1024>(api, kind, i, 120); }, 1, 120);
      }
    mc::add("real generator and device: salts of 64 signatures differ", 4, [](uint64_t i) -> std::string {
      std::set<bytes> all;
      prng::prng_t g;
      for (int k = 0; k < 64; k++) {
        const bytes s = i == 0 ? do_sign<512>(0, nullptr) : i == 1 ? do_sign<1024>(0, nullptr) : i == 2 ? do_sign<512>(0, &g) : k & 1 ? do_sign<1024>(0, &g) : do_sign<512>(1, nullptr);
        if (!all.insert(bytes(s.begin() + 1, s.begin() + 41)).second)
          return mc::fmt("signature %d repeats the salt of an earlier one", k);
      }
      mc::states(1);
      return "";
    }, 1, 60);
  });
}
