// Random bytes as an explicit, logged stream owned by the explorer.
#pragma once
#include "shake256.hpp"
#include <functional>
#include <vector>

// bytes = explicit prefix, then a fixed pseudo random tail; everything handed out is logged
struct flat_rng : env::rng_source
{
  std::vector<uint8_t> prefix;
  env::sponge tail;
  size_t pos = 0;
  bool keep = true;
  std::vector<uint8_t> log;
  std::vector<uint32_t> reads; // sizes
  size_t generators = 0;

  explicit flat_rng(uint64_t seed = 0)
  {
    tail.absorb(reinterpret_cast<const uint8_t*>(&seed), 8);
    tail.finalize();
  }
  void seeded(const uint8_t*, size_t) override { generators++; }
  bool read(uint8_t* o, size_t n, env::sponge&) override
  {
    for (size_t i = 0; i < n; i++, pos++) {
      uint8_t t;
      tail.squeeze(&t, 1); // the tail does not depend on the prefix
      o[i] = pos < prefix.size() ? prefix[pos] : t;
    }
    if (keep) {
      log.insert(log.end(), o, o + n);
      reads.push_back(n);
    }
    return true;
  }
};

struct install_rng
{
  env::rng_source* old;
  explicit install_rng(env::rng_source* r)
    : old(env::rng)
  {
    env::rng = r;
  }
  ~install_rng() { env::rng = old; }
};
struct install_xof
{
  env::xof_source* old;
  explicit install_xof(env::xof_source* r)
    : old(env::xof)
  {
    env::xof = r;
  }
  ~install_xof() { env::xof = old; }
};

// hash-to-point answers a polynomial chosen by the explorer
struct chosen_c : env::xof_source
{
  std::vector<int64_t> c;
  size_t absorbed = 0;
  std::vector<uint8_t> first; // the first absorbed bytes
  bool absorb(const uint8_t* p, size_t n) override
  {
    for (size_t i = 0; i < n && first.size() < 256; i++)
      first.push_back(p[i]);
    absorbed += n;
    return true;
  }
  bool read(uint8_t* out, size_t n, size_t off) override
  {
    for (size_t i = 0; i < n; i++) {
      const size_t k = (off + i) / 2;
      const unsigned w = k < c.size() ? (unsigned)c[k] : 0;
      out[i] = (off + i) % 2 ? w & 255 : w >> 8;
    }
    return true;
  }
};
