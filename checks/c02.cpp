// Signing: whatever the random bytes and the history of rejected attempts, what is returned verifies.
#include "targets.hpp"

// signs with the installed environment and judges the result; api 0: stored key, 1: matrix and tree
template<size_t N>
std::string
sign_and_judge(int key, int api, const uint8_t* msg, size_t mlen, const poly* c, const uint8_t* salt, const std::string& what, poly* s2_out = nullptr)
{
  constexpr size_t L = P<N>::siglen;
  uint8_t buf[L + 64];
  memset(buf, 0xd7, sizeof buf);
  const auto& k = keys::get<N>(key);
  if (api == 0) {
    if (!falcon::sign<N>(k.sk.data(), msg, mlen, buf + 32))
      return what + ": signing refused a valid secret key";
  } else {
    prng::prng_t rng;
    const auto& e = expand<N>(key);
    falcon::sign<N>(e.B.data(), e.T.data(), msg, mlen, buf + 32, rng);
  }
  mc::traces(1);
  const uint8_t* sig = buf + 32;
  for (int i = 0; i < 32; i++)
    if (buf[i] != 0xd7 || buf[32 + L + i] != 0xd7)
      return what + ": signing wrote outside of the signature";
  if (sig[0] != (0x30 | P<N>::lg))
    return what + mc::fmt(": signature header is %02x", sig[0]);
  if (salt && memcmp(salt, sig + 1, 40))
    return what + ": the signature does not carry the drawn salt";
  uint8_t s40[40];
  poly s2;
  if (!ref::decode_sig<N>(sig, s40, s2))
    return what + ": the signature does not decode";
  const poly h2p = c ? *c : ref::hash_to_point(N, sig + 1, 40, msg, mlen);
  const int64_t n2 = ref::norm2(h2p, s2, k.h);
  if (n2 > P<N>::beta2)
    return what + mc::fmt(": squared norm %lld exceeds %lld", (long long)n2, (long long)P<N>::beta2);
  if (!falcon::verify<N>(k.pk.data(), msg, mlen, buf + 32))
    return what + ": the library's own verification refuses the signature";
  if (s2_out)
    *s2_out = s2;
  return "";
}

template<size_t N>
std::string
run_script(int key, int api, const std::vector<target>& seq, const std::string& what, size_t rounds = 1)
{
  const auto& p = directed::prep<N>(key);
  // all targets lie in the coset of the first one
  poly c = ref::mulq(seq[0].s2, p.k->h);
  for (size_t i = 0; i < N; i++)
    c[i] = ref::modq(c[i] + seq[0].s1[i]);
  scripted_rng r(7 + key);
  for (int i = 0; i < 40; i++)
    r.salt.push_back(11 * i + key);
  for (auto& t : seq)
    if (!directed::plan_attempt<N>(p, c, t.s1, t.s2, r.s)) {
      mc::outcome("point not reachable by the sampler: skipped");
      return "";
    }
  if (rounds > 1) { // all but the last target, again and again
    r.head = r.s.size() / seq.size() * (seq.size() - 1);
    r.rounds = rounds;
    r.keep = false;
  }
  chosen_c x;
  x.c = c;
  install_rng ir(&r);
  install_xof ix(&x);
  poly s2;
  const uint8_t msg[5] = { 1, 2, 3, 4, 5 };
  if (auto e = sign_and_judge<N>(key, api, msg, 5, &c, r.salt.data(), what, &s2); !e.empty())
    return e;
  mc::transitions(r.at);
  std::string o = "returned an unscripted later attempt";
  for (size_t i = 0; i < seq.size(); i++)
    if (seq[i].s2 == s2) {
      o = mc::fmt("N=%zu returned attempt %zu: ", N, i + 1 + (i ? (seq.size() - 1) * (rounds - 1) : 0)) + seq[i].name;
      break;
    }
  mc::outcome(o);
  return "";
}

template<size_t N>
void
define_n()
{
  const std::string nm = mc::fmt("N=%zu: ", N);
  constexpr int64_t B = P<N>::beta2;
  constexpr int64_t TYP = B / 10 * 8;
  mc::add(nm + "one large coefficient in s2 at every position", N, [](uint64_t pos) -> std::string {
    static const int64_t V[] = { 127, 128, 511, 1023, 1024, 1151, 1152, 2047, 2048, 3000, 4095, 5200 };
    const int reps = mc::quick ? 3 : 12;
    for (int r = 0; r < reps; r++) {
      const int64_t v = V[mc::quick ? (pos + 4 * r) % 12 : r];
      target t = plain<N>(pos + 100, 0);
      for (auto& x : t.s2)
        x = x / 3;
      t.s2[pos] = r & 1 ? -v : v;
      if (!set_norm(t, std::max(TYP / 2, v * v + TYP / 10), pos))
        continue;
      t.name = "one large coefficient in s2";
      if (auto e = run_script<N>((pos + r) % 3, (pos + r) % 2, { t }, mc::fmt("s2[%d] = %lld", (int)pos, (long long)t.s2[pos])); !e.empty())
        return e;
      mc::states(1);
    }
    return "";
  });
  mc::add(nm + "squared norm bound-5..bound+5", 11 * (mc::quick ? 12 : 120), [](uint64_t id) -> std::string {
    const int d = (int)(id % 11) - 5;
    target t = plain<N>(id, B + d);
    if (t.s1.empty())
      return "";
    t.name = d > 0 ? "ABOVE the bound" : mc::fmt("norm bound%+d", d);
    mc::states(1);
    return run_script<N>(id % 3, id & 1, { t }, mc::fmt("first attempt has squared norm bound%+d", d));
  });
  mc::add(nm + "compressed form from 12 bits below to 12 bits above the limit", 25 * (mc::quick ? 6 : 60), [](uint64_t id) -> std::string {
    const int d = (int)(id % 25) - 12;
    target t = with_bits<N>(d, id, TYP);
    if (t.s1.empty())
      return "";
    mc::states(1);
    return run_script<N>(id % 3, id & 1, { t }, mc::fmt("first attempt compresses to limit%+d bits", d));
  });
  // histories: all sequences of up to 3 (thorough 4) failures, then a success of several kinds
  constexpr int K = 5;
  const int depth = mc::quick ? 3 : 4;
  uint64_t total = 0, pw = 1;
  for (int i = 0; i <= depth; i++, pw *= K)
    total += pw;
  mc::add(nm + "every history of rejected attempts", total * 3 * (mc::quick ? 4 : 12), [](uint64_t id) -> std::string {
    const int good = id % 3;
    id /= 3;
    const int rep = id % (mc::quick ? 4 : 12);
    id /= mc::quick ? 4 : 12;
    int len = 0;
    for (uint64_t pw = 1; id >= pw; pw *= K)
      id -= pw, len++;
    const int key = rep % 3;
    // the good one fixes the coset
    target ok = good == 0 ? plain<N>(rep + 31, TYP) : good == 1 ? with_bits<N>(0, rep + 57, TYP) : with_bits<N>(-1, rep + 91, B - B / 50);
    if (good == 0)
      ok = with_bits<N>(-3, rep + 13, TYP);
    if (ok.s1.empty())
      return "";
    std::vector<target> seq;
    std::string what = "history:";
    for (int i = 0; i < len; i++, id /= K) {
      const int kind = id % K;
      target bad;
      const bool have = rejected<N>(kind, key, ok, rep * 100 + i * 10 + kind, bad);
      if (!have) {
        mc::outcome("history: no such point in this coset: skipped");
        return "";
      }
      what += " [" + bad.name + "]";
      mc::outcome("history contains: " + bad.name);
      seq.push_back(bad);
    }
    seq.push_back(ok);
    mc::states(1);
    return run_script<N>(key, rep & 1, seq, what + " then " + ok.name);
  });
  // long histories: the same rejection(s) over and over
  static const size_t ROUNDS[] = { 17, 33, 65, 101, 129, 257, 513, 1001, 1025, 4097, 10001, 65537 };
  mc::add(nm + "long histories of rejected attempts", 3 * 12, [](uint64_t id) -> std::string {
    const size_t rounds = std::min<size_t>(ROUNDS[11 - id / 3], N == 1024 && mc::quick ? 10001 : 65537);
    const int key = id % 3, first = id % 3 == 0 ? 0 : id % 3 == 1 ? 3 : 1;
    target ok;
    for (uint64_t sd = id + 13; ok.s1.empty(); sd += 100)
      ok = with_bits<N>(-3, sd, TYP);
    std::vector<target> seq;
    for (int kind : { first, id % 3 == 2 ? 2 : -1 }) {
      target bad;
      if (kind >= 0) {
        if (!rejected<N>(kind, key, ok, id * 10 + kind, bad)) {
          mc::outcome("history: no such point in this coset: skipped");
          return "";
        }
        seq.push_back(bad);
      }
    }
    seq.push_back(ok);
    mc::states(rounds);
    return run_script<N>(key, id & 1, seq, mc::fmt("%zu times [", rounds) + seq[0].name + "] then " + ok.name, rounds);
  }, 1, 300);
  mc::add(nm + "real hash, pseudo random bytes, message lengths", mc::quick ? 420 : 6000, [](uint64_t id) -> std::string {
    std::vector<uint8_t> msg(id % 420);
    for (size_t i = 0; i < msg.size(); i++)
      msg[i] = mc::mix(id * 1000 + i);
    flat_rng f(id);
    f.keep = false;
    install_rng ir(&f);
    uint8_t salt[40];
    flat_rng g(id);
    env::sponge dummy;
    g.read(salt, 40, dummy);
    mc::states(1);
    mc::transitions(1);
    mc::outcome("real hash, pseudo random bytes");
    return sign_and_judge<N>(id % 3, id & 1, msg.data(), msg.size(), nullptr, salt, mc::fmt("stream %d, message of %zu bytes", (int)id, msg.size()));
  });
  // hash values of extreme shape: square waves of every frequency, single coefficients, constants
  mc::add(nm + "extreme hash values, pseudo random bytes", 4 * (P<N>::lg + 4) * (mc::quick ? 2 : 16), [](uint64_t id) -> std::string {
    const int shape = id % (P<N>::lg + 4), amp = id / (P<N>::lg + 4) % 4, rep = id / (P<N>::lg + 4) / 4;
    static const int V[] = { 12288, 6144, 6145, 1 };
    const int key = (shape + rep) % 3;
    poly c(N, 0);
    if (shape <= (int)P<N>::lg)
      for (size_t i = 0; i < N; i++)
        c[i] = i >> shape & 1 ? 0 : V[amp];
    else if (shape == (int)P<N>::lg + 1)
      c[mc::mix(id) % N] = V[amp];
    else // follows the signs of f, F: the largest possible centres
      for (size_t i = 0; i < N; i++) {
        const auto& k = keys::get<N>(key);
        c[i] = (shape == (int)P<N>::lg + 2 ? k.f : k.F)[(N - i) % N] * (i ? -1 : 1) > 0 ? V[amp] : 0;
      }
    flat_rng f(id);
    f.keep = false;
    chosen_c x;
    x.c = c;
    install_rng ir(&f);
    install_xof ix(&x);
    mc::states(1);
    mc::transitions(1);
    mc::outcome("extreme hash value");
    return sign_and_judge<N>(key, rep & 1, nullptr, 0, &c, nullptr, mc::fmt("hash value of shape %d, height %d", shape, V[amp]));
  });
  mc::add(nm + "long messages, real hash", 2 * 14, [](uint64_t id) -> std::string {
    static const size_t L[] = { 1000, 4095, 4096, 4097, 10007, 32768, 65535, 65536, 65537, 131072, 1 << 20, (1 << 20) + 1, (1 << 22) + 3, (1 << 24) + 1 };
    std::vector<uint8_t> msg(L[id / 2]);
    for (size_t i = 0; i < msg.size(); i++)
      msg[i] = mc::mix(id * 1000 + i);
    flat_rng f(id);
    f.keep = false;
    install_rng ir(&f);
    mc::states(1);
    mc::transitions(1);
    mc::outcome("long message");
    return sign_and_judge<N>(id % 3, id & 1, msg.data(), msg.size(), nullptr, nullptr, mc::fmt("message of %zu bytes", msg.size()));
  });
  mc::add(nm + "huge messages are hashed completely", 2 * 9, [](uint64_t id) -> std::string {
    static const size_t L[] = { (1ull << 31) - 1, 1ull << 31, (1ull << 31) + 7, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, (1ull << 33) + 3, 1 << 25, 1 };
    const size_t n = L[id / 2];
    void* m = mmap(nullptr, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED)
      return "";
    struct unmap
    {
      void* m;
      size_t n;
      ~unmap() { munmap(m, n); }
    } u{ m, n };
    flat_rng f(id);
    f.keep = false;
    chosen_c x;
    x.c = with_bits<N>(-3, 1, P<N>::beta2 / 2).s1;
    for (auto& v : x.c)
      v = ref::modq(v);
    install_rng ir(&f);
    install_xof ix(&x);
    mc::states(1);
    mc::transitions(1);
    mc::outcome("huge message");
    const std::string what = mc::fmt("message of %zu bytes", n);
    if (auto e = sign_and_judge<N>(id % 3, id & 1, (const uint8_t*)m, n, &x.c, nullptr, what); !e.empty())
      return e;
    if (x.absorbed != 2 * (n + 40)) // signing, then verification
      return what + mc::fmt(": %zu bytes were hashed by signing and verification together, expected %zu", x.absorbed, 2 * (n + 40));
    return "";
  });
  // one unusual sampler answer at every call of the first attempt
  mc::add(nm + "one extreme sampler answer at every sampler call", 2 * N, [](uint64_t call) -> std::string {
    const int key = call % 3;
    const auto& p = directed::prep<N>(key);
    target t = plain<N>(call + 5, TYP);
    if (t.s1.empty())
      return "";
    poly c = ref::mulq(t.s2, p.k->h);
    for (size_t i = 0; i < N; i++)
      c[i] = ref::modq(c[i] + t.s1[i]);
    script s;
    if (!directed::plan_attempt<N>(p, c, t.s1, t.s2, s) || s.size() != 2 * N)
      return "";
    for (int dev = 0; dev < (mc::quick ? 2 : 8); dev++) {
      scripted_rng r(call * 8 + dev);
      for (int i = 0; i < 40; i++)
        r.salt.push_back(i ^ dev);
      // the answers up to this call, one far off, then pseudo random
      r.s.assign(s.begin(), s.begin() + call + 1);
      const int far = dev < 2 ? 6 : dev + 3;
      for (int i = 0; i < 9; i++)
        r.s[call].base[i] = (uint8_t)(fs::rcdt()[std::min(far, 17)] >> (8 * i));
      r.s[call].sign ^= dev & 1;
      r.s[call].ties = 8;
      chosen_c x;
      x.c = c;
      install_rng ir(&r);
      install_xof ix(&x);
      mc::states(1);
      mc::transitions(call);
      mc::outcome("one extreme sampler answer");
      if (auto e = sign_and_judge<N>(key, dev & 1, nullptr, 0, &c, r.salt.data(), mc::fmt("extreme answer at call %d", (int)call)); !e.empty())
        return e;
    }
    return "";
  });
  // extreme hash values
  mc::add(nm + "extreme hash values", mc::quick ? 64 : 1024, [](uint64_t id) -> std::string {
    flat_rng f(id);
    f.keep = false;
    chosen_c x;
    x.c.assign(N, 0);
    for (size_t i = 0; i < N; i++)
      x.c[i] = id % 8 == 0 ? 0 : id % 8 == 1 ? 12288 : id % 8 == 2 ? 6144 : id % 8 == 3 ? (i & 1 ? 12288 : 0) : id % 8 == 4 ? (i == id % N ? 12288 : 0) : id % 8 == 5 ? 1 : (i < N / 2 ? 12288 : 0);
    if (id % 8 == 7)
      for (size_t i = 0; i < N; i++)
        x.c[i] = mc::mix(id + i) % 12289;
    install_rng ir(&f);
    install_xof ix(&x);
    mc::states(1);
    mc::transitions(1);
    mc::outcome("extreme hash value");
    return sign_and_judge<N>(id % 3, (id >> 1) & 1, nullptr, 0, &x.c, nullptr, mc::fmt("hash pattern %d", (int)id));
  });
  mc::add(nm + "freshly generated keys", mc::quick ? 8 : 48, [](uint64_t id) -> std::string {
    flat_rng f(id + 5000);
    f.keep = false;
    install_rng ir(&f);
    std::vector<uint8_t> pk(P<N>::pklen), sk(P<N>::sklen), sig(P<N>::siglen);
    falcon::keygen<N>(pk.data(), sk.data());
    for (int m = 0; m < 12; m++) {
      std::vector<uint8_t> msg(m * 13, m);
      if (!falcon::sign<N>(sk.data(), msg.data(), msg.size(), sig.data()))
        return mc::fmt("generated key %d: signing refused", (int)id);
      mc::transitions(1);
      mc::traces(1);
      if (!ref::verify<N>(pk.data(), msg.data(), msg.size(), sig.data()))
        return mc::fmt("generated key %d: signature %d does not verify", (int)id, m);
    }
    mc::states(1);
    mc::outcome("generated key: 12 signatures verify");
    return "";
  }, 1, 120);
}

#ifndef NO_MAIN
int
main(int argc, char** argv)
{
  return mc::main(argc, argv, [] {
#ifdef PART_512
    define_n<512>();
#else
    define_n<1024>();
#endif
  });
}
#endif
