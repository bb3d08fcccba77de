// Operations on buffers of exactly the advertised lengths, on both sides of which memory is inaccessible.
#include "targets.hpp"
#include "utils.hpp"

using bytes = std::vector<uint8_t>;

// n bytes with an inaccessible page right after (or before) them
struct guarded
{
  uint8_t* base;
  uint8_t* p;
  size_t total, n;
  guarded(size_t n_, bool end, int fill = 0xcc)
    : n(n_)
  {
    const size_t pg = 4096, in = (n + pg - 1) / pg * pg + (n ? 0 : pg);
    total = in + 2 * pg;
    base = (uint8_t*)mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    p = end ? base + pg + in - n : base + pg;
    slack = end ? base + pg : p + n;
    slack_n = in - n;
    memset(base + pg, fill, in);
    mprotect(base, pg, PROT_NONE);
    mprotect(base + pg + in, pg, PROT_NONE);
    fillv = fill;
  }
  ~guarded() { munmap(base, total); }
  guarded(const guarded&) = delete;
  void set(const bytes& b) { memcpy(p, b.data(), n); }
  bytes get() const { return bytes(p, p + n); }
  bool slack_ok() const
  {
    for (size_t i = 0; i < slack_n; i++)
      if (slack[i] != fillv)
        return false;
    return true;
  }
  uint8_t* slack;
  size_t slack_n;
  uint8_t fillv;
};

template<size_t N>
static std::string
lengths()
{
  const size_t a = falcon_utils::compute_pkey_len<N>(), b = falcon_utils::compute_skey_len<N>(), c = falcon_utils::compute_sig_len<N>();
  mc::states(3);
  mc::transitions(3);
  mc::traces(1);
  mc::outcome(mc::fmt("N=%zu: %zu/%zu/%zu", N, a, b, c));
  if (a != (N == 512 ? 897 : 1793) || b != (N == 512 ? 1281 : 2305) || c != (N == 512 ? 666 : 1280))
    return mc::fmt("N=%zu: lengths of public key, secret key, signature are %zu, %zu, %zu", N, a, b, c);
  return "";
}
// sign + verify with every buffer exactly sized; the bytes at both ends of each buffer matter
template<size_t N>
static std::string
use(int key, size_t mlen, int sides, int api)
{
  const auto& k = keys::get<N>(key);
  guarded pk(P<N>::pklen, sides & 1), sk(P<N>::sklen, sides & 2), msg(mlen, sides & 4), sig(P<N>::siglen, sides & 8);
  pk.set(k.pk);
  sk.set(k.sk);
  for (size_t i = 0; i < mlen; i++)
    msg.p[i] = (uint8_t)(i * 7 + key);
  flat_rng r(mlen * 16 + sides);
  r.keep = false;
  const std::string what = mc::fmt("N=%zu message length %zu, guard pages %x", N, mlen, sides);
  {
    install_rng in(&r);
    if (api == 0) {
      if (!falcon::sign<N>(sk.p, mlen ? msg.p : nullptr, mlen, sig.p))
        return what + ": signing refused";
    } else {
      const auto& e = expand<N>(key);
      prng::prng_t g;
      falcon::sign<N>(e.B.data(), e.T.data(), msg.p, mlen, sig.p, g);
    }
  }
  if (!falcon::verify<N>(pk.p, msg.p, mlen, sig.p))
    return what + ": the signature does not verify";
  mc::transitions(2);
  mc::states(1);
  mc::traces(1);
  if (!pk.slack_ok() || !sk.slack_ok() || !msg.slack_ok() || !sig.slack_ok())
    return what + ": memory next to a buffer was written";
  mc::outcome(mc::fmt("N=%zu: signed and verified", N));
  return "";
}
// all advertised bytes are written: two runs on different previous contents agree
template<size_t N>
static std::string
written(int key, int kind)
{
  bytes got[3][2];
  for (int v = 0; v < 2; v++) {
    guarded pk(P<N>::pklen, true, v ? 0xff : 0), sk(P<N>::sklen, true, v ? 0xff : 0), sig(P<N>::siglen, true, v ? 0xff : 0);
    flat_rng r(5 + key);
    r.keep = false;
    install_rng in(&r);
    const auto& k = keys::get<N>(key);
    if (kind == 0) {
      falcon::keygen<N>(pk.p, sk.p);
      got[0][v] = pk.get();
      got[1][v] = sk.get();
    } else {
      const uint8_t m[4] = { 1, 2, 3, 4 };
      falcon::sign<N>(k.sk.data(), m, 4, sig.p);
      got[2][v] = sig.get();
      std::vector<ff::ff_t> h(N);
      for (size_t i = 0; i < N; i++)
        h[i].v = (uint16_t)k.h[i];
      std::vector<int32_t> f(k.f.begin(), k.f.end()), g(k.g.begin(), k.g.end()), F(k.F.begin(), k.F.end());
      encoding::encode_pkey<N>(h.data(), pk.p);
      encoding::encode_skey<N>(f.data(), g.data(), F.data(), sk.p);
      got[0][v] = pk.get();
      got[1][v] = sk.get();
      if (got[0][v] != k.pk || got[1][v] != k.sk)
        return mc::fmt("N=%zu: encoded key differs from the reference", N);
    }
    mc::transitions(1);
  }
  mc::states(1);
  mc::traces(1);
  for (int b = 0; b < 3; b++)
    for (size_t i = 0; i < got[b][0].size(); i++)
      if (got[b][0][i] != got[b][1][i])
        return mc::fmt("N=%zu: byte %zu of the %s is not written", N, i, b == 0 ? "public key" : b == 1 ? "secret key" : "signature");
  mc::outcome(mc::fmt("N=%zu: every byte written by %s", N, kind ? "signing and encoding" : "key generation"));
  return "";
}
// every byte of a buffer is read: any alteration of any byte of a signature or key is noticed or changes the result
template<size_t N>
static void
define()
{
  const std::string nm = mc::fmt("N=%zu: ", N);
  mc::add(nm + "length helpers", 1, [](uint64_t) { return lengths<N>(); });
  mc::add(nm + "signing and verification, all message lengths, all sides of the guard pages", (mc::quick ? 140 : 700) * 16, [](uint64_t i) -> std::string {
    return use<N>(i % 3, i / 16, i % 16, i % 5 == 0);
  }, 4);
  mc::add(nm + "every advertised byte is written", 3 + 1, [](uint64_t i) -> std::string { return i < 3 ? written<N>(i, 1) : written<N>(0, 0); }, 1, 120);
}

int
main(int argc, char** argv)
{
  return mc::main(argc, argv, [] {
    define<512>();
    define<1024>();
  });
}
