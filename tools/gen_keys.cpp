// Generates lib/keys.hpp: fixed key pairs (produced by the real key generation, verified by the
// reference) that the explorers use as starting points.  Not run by the checks.
#include "falcon.hpp"
#include "ref.hpp"
#include <cstdio>
struct det : env::rng_source
{
  env::sponge sp;
  det(uint32_t s) { sp.absorb((uint8_t*)&s, 4); sp.finalize(); }
  bool read(uint8_t* o, size_t n, env::sponge&) override { sp.squeeze(o, n); return true; }
};
template<size_t N>
static void
gen(uint32_t seed)
{
  det d(seed + N);
  env::rng = &d;
  int32_t v[4][N];
  prng::prng_t rng;
  ntru_gen::ntru_gen<N>(v[0], v[1], v[2], v[3], rng);
  ref::poly p[4];
  for (int k = 0; k < 4; k++)
    p[k].assign(v[k], v[k] + N);
  auto a = ref::mulz(p[0], p[3]), b = ref::mulz(p[1], p[2]);
  for (size_t i = 0; i < N; i++)
    if (a[i] - b[i] != (i ? 0 : 12289)) { fprintf(stderr, "not a solution\n"); exit(1); }
  int mx[4]{};
  printf("inline const short key_%zu_%u[4][%zu] = {\n", N, seed, N);
  for (int k = 0; k < 4; k++) {
    printf("{");
    for (size_t i = 0; i < N; i++) { printf("%d,", v[k][i]); mx[k] = std::max(mx[k], abs(v[k][i])); }
    printf("},\n");
  }
  printf("};\n");
  fprintf(stderr, "%zu/%u max %d %d %d %d\n", N, seed, mx[0], mx[1], mx[2], mx[3]);
}
int
main()
{
  puts("// generated by tools/gen_keys.cpp");
  puts("#pragma once\nnamespace keys {");
  for (uint32_t s : { 0, 197, 1028 }) gen<512>(s); // 197: |F| reaches 127, 1028: |G| exceeds 127
  for (uint32_t s : { 0, 1, 2 }) gen<1024>(s);
  puts("}");
}
