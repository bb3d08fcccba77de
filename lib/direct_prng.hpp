// The library's generator replaced by one that passes every read on, as it stands, to the random
// bytes the explorer supplies: what a consumer of random bytes does is then seen whatever buffering
// the library's own generator may do.  (That generator is explored by itself, see C19.)
#pragma once
#define prng_t library_prng_t
#include "prng.hpp"
#undef prng_t

namespace prng {

struct prng_t
{
private:
  shake256::shake256<false> state;

public:
  inline prng_t()
  {
    std::random_device rd;
    uint8_t seed[32];
    for (auto& x : seed)
      x = static_cast<uint8_t>(rd());
    state.hash(seed, sizeof(seed));
  }
  inline void read(uint8_t* const bytes, const size_t len) { state.read(bytes, len); }
};

}
