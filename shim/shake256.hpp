// Stand-in for itzmeanjan/sha3's shake256.hpp (the git submodule is empty in this sandbox).
//
// Same interface as the submodule offers to /repo/include (shake256<false>::hash/read,
// shake256<true>::absorb/finalize/read, shake256::rate in bits).  By default it computes real
// SHAKE256 (FIPS 202).  Every byte it returns is an *environment answer*: a harness can install
//   env::rng  - answers of a non-incremental instance (that is what prng_t draws from)
//   env::xof  - answers of an incremental instance (that is what message hashing draws from)
// so that the explorer owns all the nondeterminism of the library.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <vector>

#if defined(__clang__)
#define ENV_FAST __attribute__((no_sanitize("address", "undefined", "thread")))
#else
#define ENV_FAST
#endif

namespace env {

// Keccak-f[1600], written for clarity.
ENV_FAST inline void
keccak_f(uint64_t a[25])
{
  static const uint64_t RC[24] = {
    0x0000000000000001ull, 0x0000000000008082ull, 0x800000000000808aull, 0x8000000080008000ull,
    0x000000000000808bull, 0x0000000080000001ull, 0x8000000080008081ull, 0x8000000000008009ull,
    0x000000000000008aull, 0x0000000000000088ull, 0x0000000080008009ull, 0x000000008000000aull,
    0x000000008000808bull, 0x800000000000008bull, 0x8000000000008089ull, 0x8000000000008003ull,
    0x8000000000008002ull, 0x8000000000000080ull, 0x000000000000800aull, 0x800000008000000aull,
    0x8000000080008081ull, 0x8000000000008080ull, 0x0000000080000001ull, 0x8000000080008008ull
  };
  static const int ROT[24] = { 1,  3,  6,  10, 15, 21, 28, 36, 45, 55, 2,  14,
                               27, 41, 56, 8,  25, 43, 62, 18, 39, 61, 20, 44 };
  static const int PIL[24] = { 10, 7,  11, 17, 18, 3, 5,  16, 8,  21, 24, 4,
                               15, 23, 19, 13, 12, 2, 20, 14, 22, 9,  6,  1 };
  for (int r = 0; r < 24; r++) {
    uint64_t c[5];
    for (int i = 0; i < 5; i++)
      c[i] = a[i] ^ a[i + 5] ^ a[i + 10] ^ a[i + 15] ^ a[i + 20];
    for (int i = 0; i < 5; i++) {
      const uint64_t t = c[(i + 4) % 5] ^ ((c[(i + 1) % 5] << 1) | (c[(i + 1) % 5] >> 63));
      for (int j = 0; j < 25; j += 5)
        a[j + i] ^= t;
    }
    uint64_t t = a[1];
    for (int i = 0; i < 24; i++) {
      const int j = PIL[i];
      const uint64_t b = a[j];
      a[j] = (t << ROT[i]) | (t >> (64 - ROT[i]));
      t = b;
    }
    for (int j = 0; j < 25; j += 5) {
      uint64_t b[5];
      for (int i = 0; i < 5; i++)
        b[i] = a[j + i];
      for (int i = 0; i < 5; i++)
        a[j + i] = b[i] ^ (~b[(i + 1) % 5] & b[(i + 2) % 5]);
    }
    a[0] ^= RC[r];
  }
}

constexpr size_t RATE_BYTES = 136;

struct sponge
{
  uint64_t st[25]{};
  size_t pos = 0;
  bool squeezing = false;

  void xor_byte(size_t i, uint8_t b) { st[i / 8] ^= static_cast<uint64_t>(b) << (8 * (i % 8)); }
  void absorb(const uint8_t* p, size_t n)
  {
    for (size_t i = 0; i < n; i++) {
      xor_byte(pos++, p[i]);
      if (pos == RATE_BYTES) {
        keccak_f(st);
        pos = 0;
      }
    }
  }
  void finalize()
  {
    xor_byte(pos, 0x1f);
    xor_byte(RATE_BYTES - 1, 0x80);
    keccak_f(st);
    pos = 0;
    squeezing = true;
  }
  void squeeze(uint8_t* p, size_t n)
  {
    for (size_t i = 0; i < n; i++) {
      if (pos == RATE_BYTES) {
        keccak_f(st);
        pos = 0;
      }
      p[i] = static_cast<uint8_t>(st[pos / 8] >> (8 * (pos % 8)));
      pos++;
    }
  }
};

// Answers of pseudo random generator instances.
struct rng_source
{
  virtual ~rng_source() = default;
  virtual void seeded(const uint8_t*, size_t) {}              // a generator was created from this seed
  virtual bool read(uint8_t* out, size_t n, sponge& real) = 0; // false: answer with real SHAKE256
};

// Answers of the hash-to-point XOF.
struct xof_source
{
  virtual ~xof_source() = default;
  virtual bool absorb(const uint8_t*, size_t) { return false; } // true: do not compute the real hash
  virtual bool read(uint8_t* out, size_t n, size_t off) = 0;    // false: answer with real SHAKE256
};

inline thread_local rng_source* rng = nullptr;
inline thread_local xof_source* xof = nullptr;
// called at the start of every environment call: a scheduling point
inline thread_local void (*point)() = nullptr;

}

namespace shake256 {

constexpr size_t rate = 1088;

template<const bool incremental = false>
struct shake256
{
private:
  env::sponge sp;
  size_t off = 0;

public:
  inline shake256() = default;

  inline void hash(const uint8_t* const msg, const size_t mlen)
    requires(!incremental)
  {
    if (env::point)
      env::point();
    if (env::rng)
      env::rng->seeded(msg, mlen);
    sp.absorb(msg, mlen);
    sp.finalize();
  }

  inline void absorb(const uint8_t* const msg, const size_t mlen)
    requires(incremental)
  {
    if (env::point)
      env::point();
    if (sp.squeezing)
      return;
    if (env::xof && env::xof->absorb(msg, mlen))
      return;
    sp.absorb(msg, mlen);
  }

  inline void finalize()
    requires(incremental)
  {
    if (!sp.squeezing)
      sp.finalize();
  }

  inline void read(uint8_t* const out, const size_t n)
  {
    if (env::point)
      env::point();
    if (!sp.squeezing)
      return;
    if constexpr (incremental) {
      if (env::xof && env::xof->read(out, n, off)) {
        off += n;
        return;
      }
    } else {
      if (env::rng && env::rng->read(out, n, sp)) {
        off += n;
        return;
      }
    }
    sp.squeeze(out, n);
    off += n;
  }
};

}
