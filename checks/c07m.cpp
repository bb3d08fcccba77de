// Uninitialised memory: runs in its own process, built with MemorySanitizer (any use of an
// uninitialised value ends the process).  No standard containers other than vector: the C++
// library is not instrumented.   c07m <family> <from> <count>
#include "keydata.hpp"
#include "ref.hpp"
#include <sanitizer/msan_interface.h>
#include "falcon.hpp"
#include <cstdio>
#include <cstdlib>
#include <unistd.h>

using bytes = std::vector<uint8_t>;
static uint64_t
mix(uint64_t x)
{
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
struct stop_here
{};
struct counter_rng : env::rng_source
{
  uint64_t seed, pos = 0, limit = ~0ull;
  int constant = -1;
  size_t prefix = 0;
  bool read(uint8_t* o, size_t n, env::sponge&) override
  {
    if (pos >= limit)
      throw stop_here{};
    for (size_t i = 0; i < n; i++, pos++)
      o[i] = constant >= 0 && pos < prefix ? constant : (uint8_t)(mix(seed * 1000003 + pos / 8) >> (8 * (pos % 8)));
    return true;
  }
};
template<typename T>
struct fresh // heap memory nobody has written
{
  T* p;
  size_t n;
  explicit fresh(size_t n_)
    : p((T*)malloc(n_ * sizeof(T) + 1)), n(n_)
  {
    __msan_allocated_memory(p, n_ * sizeof(T) + 1);
  }
  ~fresh() { free((void*)p); }
  operator T*() { return p; }
};
static void
fail(const char* what, size_t at)
{
  printf("%s: byte %zu was never written or depends on uninitialised memory\n", what, at);
  fflush(stdout);
  _exit(1);
}
static void
initialised(const char* what, const void* p, size_t n)
{
  const intptr_t at = __msan_test_shadow(p, n);
  if (at >= 0)
    fail(what, at);
}
template<size_t N>
struct K
{
  bytes pk, sk;
  std::vector<int32_t> f, g, F, G;
};
// only data without the (slow, instrumented) reference inversion: the public key comes from the code under test
template<size_t N>
static K<N>
key(int i)
{
  K<N> k;
  const short(*d)[N];
  if constexpr (N == 512)
    d = i == 0 ? keys::key_512_0 : i == 1 ? keys::key_512_197 : keys::key_512_1028;
  else
    d = i == 0 ? keys::key_1024_0 : i == 1 ? keys::key_1024_1 : keys::key_1024_2;
  k.f.assign(d[0], d[0] + N);
  k.g.assign(d[1], d[1] + N);
  k.F.assign(d[2], d[2] + N);
  k.G.assign(d[3], d[3] + N);
  fresh<ff::ff_t> h(N);
  keygen::compute_public_key<N>(k.f.data(), k.g.data(), h);
  initialised("public key polynomial", h, N * sizeof(ff::ff_t));
  fresh<uint8_t> pk(ref::params<N>::pklen), sk(ref::params<N>::sklen);
  encoding::encode_pkey<N>(h, pk);
  encoding::encode_skey<N>(k.f.data(), k.g.data(), k.F.data(), sk);
  initialised("encoded public key", pk, ref::params<N>::pklen);
  initialised("encoded secret key", sk, ref::params<N>::sklen);
  k.pk.assign(pk.p, pk.p + ref::params<N>::pklen);
  k.sk.assign(sk.p, sk.p + ref::params<N>::sklen);
  return k;
}
template<size_t N>
static void
run(int fam, uint64_t i)
{
  using P = ref::params<N>;
  counter_rng r;
  r.seed = i;
  env::rng = &r;
  K<N> k = key<N>(i % 3);
  const size_t mlen = (i * 37) % 300;
  bytes msg(mlen, (uint8_t)i);
  fresh<uint8_t> sig(P::siglen);
  switch (fam) {
    case 0: { // sign from bytes, verify; some constant random bytes
      if (i % 4 == 3) {
        r.constant = i % 256;
        r.prefix = 40 + i % 3000;
      }
      if (!falcon::sign<N>(k.sk.data(), msg.data(), mlen, sig.p)) {
        printf("secret key refused\n");
        _exit(1);
      }
      initialised("signature", sig, P::siglen);
      const bool ok = falcon::verify<N>(k.pk.data(), msg.data(), mlen, sig.p);
      initialised("verdict", &ok, sizeof ok);
      break;
    }
    case 1: { // recomputation, matrix, tree, signing with these
      fresh<int32_t> f(N), g(N), F(N), G(N);
      const bool d = decoding::decode_skey<N>(k.sk.data(), f, g, F);
      initialised("verdict", &d, sizeof d);
      initialised("f", f, 4 * N);
      initialised("g", g, 4 * N);
      initialised("F", F, 4 * N);
      falcon::recompute_G<N>(f, g, F, G);
      initialised("G", G, 4 * N);
      constexpr size_t TN = N * (P::lg + 1);
      fresh<fft::cmplx> B(4 * N), T(TN);
      falcon::compute_matrix_B<N>(f, g, F, G, B);
      initialised("matrix", B, 4 * N * sizeof(fft::cmplx));
      falcon::compute_falcon_tree<N>(B, T);
      initialised("tree", T, TN * sizeof(fft::cmplx));
      prng::prng_t rng;
      falcon::sign<N>(B, T, msg.data(), mlen, sig.p, rng);
      initialised("signature", sig, P::siglen);
      break;
    }
    case 2: { // hostile bytes: whatever happens, decisions and outputs must not depend on uninitialised memory
      bytes pk = k.pk, sk = k.sk, s(P::siglen);
      falcon::sign<N>(k.sk.data(), msg.data(), mlen, s.data());
      for (int t = 0; t < 24; t++) {
        const uint64_t h = mix(i * 100 + t);
        bytes a = pk, b = sk, c = s;
        const int v[] = { 0, 255, 128, 1 };
        switch (t % 8) {
          case 0: a[h % a.size()] = v[(h >> 32) % 4]; break;
          case 1: a.assign(a.size(), v[(h >> 32) % 4]); a[0] = P::lg; break;
          case 2: b[h % b.size()] = v[(h >> 32) % 4]; break;
          case 3: b.assign(b.size(), v[(h >> 32) % 4]); b[0] = 0x50 | P::lg; break;
          case 4: c[41 + h % (c.size() - 41)] ^= 1 << ((h >> 32) % 8); break;
          case 5: for (size_t j = 41 + h % (c.size() - 41); j < c.size(); j++) c[j] = v[(h >> 32) % 4]; break;
          case 6: c[0] = (uint8_t)h; a[0] = (uint8_t)(h >> 8); b[0] = (uint8_t)(h >> 16); break;
          case 7: for (size_t j = 41; j < c.size(); j++) c[j] = v[(h >> 32) % 4]; break;
        }
        fresh<ff::ff_t> H(N);
        fresh<int32_t> f(N), g(N), F(N), s2(N);
        fresh<uint8_t> salt(40);
        bool ok = decoding::decode_pkey<N>(a.data(), H);
        initialised("verdict", &ok, 1);
        initialised("decoded public key", H, N * sizeof(ff::ff_t));
        ok = decoding::decode_skey<N>(b.data(), f, g, F);
        initialised("verdict", &ok, 1);
        initialised("decoded f", f, 4 * N);
        initialised("decoded g", g, 4 * N);
        initialised("decoded F", F, 4 * N);
        ok = decoding::decompress_sig<N, P::siglen>(c.data(), s2);
        initialised("verdict", &ok, 1);
        initialised("decompressed signature", s2, 4 * N);
        ok = falcon::verify<N>(a.data(), msg.data(), mlen, c.data());
        initialised("verdict", &ok, 1);
        if (t % 8 == 2 || t % 8 == 3) {
          r.pos = 0;
          ok = falcon::sign<N>(b.data(), msg.data(), mlen, sig.p);
          initialised("verdict", &ok, 1);
          if (ok)
            initialised("signature", sig, P::siglen);
        }
      }
      break;
    }
    case 3: { // candidates of key generation up to the first that would be solved (GMP is not instrumented)
      fresh<int32_t> f(N), g(N);
      prng::prng_t rng;
      ntru_gen::gen_poly<P::lg>(f, rng);
      ntru_gen::gen_poly<P::lg>(g, rng);
      initialised("f", f, 4 * N);
      initialised("g", g, 4 * N);
      const bool inv = ntru_gen::is_poly_invertible<P::lg>(f);
      initialised("verdict", &inv, 1);
      const double n = ntru_gen::gram_schmidt_norm<P::lg>(f, g);
      initialised("norm", &n, sizeof n);
      break;
    }
    case 4: { // codec
      for (int t = 0; t < 16; t++) {
        fresh<int32_t> p(N), q(N);
        for (size_t j = 0; j < N; j++) {
          const int64_t m = (int64_t)(mix(i * 77 + t * 5000 + j) % 400) - 200;
          p[j] = (int32_t)(t < 8 ? m : m * 3 / 2);
        }
        p[(i * 16 + t) % N] = t & 1 ? 5000 : -2000;
        const bool ok = encoding::compress_sig<N, P::siglen>(p, sig.p);
        initialised("verdict", &ok, 1);
        initialised("compressed body", sig + 41, P::siglen - 41);
        const bool ok2 = decoding::decompress_sig<N, P::siglen>(sig, q);
        initialised("verdict", &ok2, 1);
        initialised("decompressed", q, 4 * N);
      }
      break;
    }
    case 5: { // byte array sampler
      for (size_t len = 0; len < 64; len++) {
        fresh<uint8_t> b(len + 1);
        for (size_t j = 0; j < len; j++)
          b[j] = i % 3 == 0 ? (uint8_t)mix(i * 100 + j) : i % 3 == 1 ? 0 : 255;
        const auto [z, used] = samplerz::samplerz(0.25 * (double)i, 1.5, P::sigma_min, b.p, len);
        initialised("sample", &z, sizeof z);
        initialised("used bytes", &used, sizeof used);
      }
      break;
    }
  }
  env::rng = nullptr;
}

int
main(int argc, char** argv)
{
  if (argc < 5)
    return 2;
  const int fam = atoi(argv[1]), n = atoi(argv[2]);
  const uint64_t a = strtoull(argv[3], nullptr, 10), c = strtoull(argv[4], nullptr, 10);
  for (uint64_t i = a; i < a + c; i++)
    n == 512 ? run<512>(fam, i) : run<1024>(fam, i);
  printf("ok\n");
  return 0;
}
