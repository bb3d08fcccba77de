// Public key codec: encode_pkey / decode_pkey against the reference bit packing.
#include "encoding.hpp"
#include "decoding.hpp"
#include "mc.hpp"
#include "ref.hpp"
using namespace std::string_literals;

template<size_t N>
struct box // output buffers with guards on both sides and stale contents
{
  uint8_t g0[64];
  uint8_t pk[ref::params<N>::pklen];
  uint8_t g1[64];
  ff::ff_t h0[16];
  ff::ff_t h[N];
  ff::ff_t h1[16];
  box(uint8_t fill)
  {
    memset(g0, 0xa5, 64);
    memset(pk, fill, sizeof pk);
    memset(g1, 0xa5, 64);
    for (auto& x : h0)
      x.v = 0x1111;
    for (auto& x : h1)
      x.v = 0x1111;
    for (auto& x : h)
      x.v = fill * 257;
  }
  bool guards() const
  {
    for (auto x : g0)
      if (x != 0xa5)
        return false;
    for (auto x : g1)
      if (x != 0xa5)
        return false;
    for (auto& x : h0)
      if (x.v != 0x1111)
        return false;
    for (auto& x : h1)
      if (x.v != 0x1111)
        return false;
    return true;
  }
};

template<size_t N>
std::string
roundtrip(const ref::poly& h)
{
  box<N> b(0xff);
  ff::ff_t in[N];
  for (size_t i = 0; i < N; i++)
    in[i].v = static_cast<uint16_t>(h[i]);
  encoding::encode_pkey<N>(in, b.pk);
  const auto want = ref::encode_pk<N>(h);
  mc::transitions(2);
  mc::traces(1);
  if (memcmp(want.data(), b.pk, want.size()))
    return "encoding differs from header + 14-bit little-endian packing";
  for (size_t i = 0; i < N; i++)
    if (in[i].v != h[i])
      return "encoding modified its input";
  const bool ok = decoding::decode_pkey<N>(b.pk, b.h);
  if (!ok)
    return "decoding refused the encoding of a valid polynomial";
  for (size_t i = 0; i < N; i++)
    if (b.h[i].v != h[i])
      return mc::fmt("coefficient %zu decodes to %d instead of %d", i, b.h[i].v, static_cast<int>(h[i]));
  if (!b.guards())
    return "write outside of the output buffers";
  return "";
}

template<size_t N>
std::string
decode_any(const uint8_t* pk, const std::string& what)
{
  box<N> b(0xff);
  memcpy(b.pk, pk, sizeof b.pk);
  ref::poly want;
  const bool w = ref::decode_pk<N>(pk, want);
  const bool ok = decoding::decode_pkey<N>(b.pk, b.h);
  mc::transitions(1);
  mc::traces(1);
  mc::outcome(w ? "accepted" : pk[0] != ref::params<N>::lg ? "refused: header" : "refused: coefficient >= q");
  if (ok != w)
    return what + (ok ? ": accepted, must be refused" : ": refused, must be accepted");
  for (size_t i = 0; i < N; i++)
    if (b.h[i].v != want[i])
      return what + mc::fmt(": coefficient %zu is %d, expected %d", i, b.h[i].v, static_cast<int>(want[i]));
  if (memcmp(b.pk, pk, sizeof b.pk))
    return what + ": input modified";
  if (!b.guards())
    return what + ": write outside of the output buffers";
  if (w) {
    uint8_t out[ref::params<N>::pklen];
    encoding::encode_pkey<N>(b.h, out);
    if (memcmp(out, pk, sizeof out))
      return what + ": accepted, but re-encoding gives different bytes";
  }
  return "";
}

// writes a raw 14-bit field
static void
put14(uint8_t* pk, size_t i, unsigned v)
{
  for (size_t b = 0; b < 14; b++) {
    const size_t p = 14 * i + b;
    uint8_t& x = pk[1 + p / 8];
    x = static_cast<uint8_t>((x & ~(1u << (p % 8))) | (((v >> b) & 1u) << (p % 8)));
  }
}

template<size_t N>
std::vector<uint8_t>
background(int kind)
{
  ref::poly h(N);
  for (size_t i = 0; i < N; i++)
    h[i] = kind == 0 ? 0 : kind == 1 ? 12288 : static_cast<int64_t>((i * 7919 + 13) % 12289);
  return ref::encode_pk<N>(h);
}

template<size_t N>
void
define()
{
  const std::string n = mc::fmt("%zu: ", N);
  // every (position, value) combination, next to differing neighbours
  mc::add(n + "every value at every position", 12289, [](uint64_t k) -> std::string {
    for (uint64_t step : { 0ull, 1ull, 6145ull, 4097ull, 12288ull }) {
      ref::poly h(N);
      for (size_t i = 0; i < N; i++)
        h[i] = static_cast<int64_t>((k + i * step) % 12289);
      mc::state(mc::hash(h.data(), 8 * N));
      if (auto e = roundtrip<N>(h); !e.empty())
        return e + mc::fmt(" (h[i] = %llu + %llu i mod q)", (unsigned long long)k, (unsigned long long)step);
    }
    if (k == 4242)
      mc::sample(mc::fmt("N=%zu h[i]=4242+step*i mod q for 5 steps: encode, compare bytes, decode, compare", N));
    return "";
  }, 64);
  mc::add(n + "single position among equal neighbours", N, [](uint64_t p) -> std::string {
    for (int bg : { 0, 12288 })
      for (int v = 0; v < 12289; v = v < 40 || v > 12240 ? v + 1 : v + (mc::quick ? 61 : 1)) {
        ref::poly h(N, bg);
        h[p] = v;
        mc::state(mc::hash(h.data(), 8 * N));
        if (auto e = roundtrip<N>(h); !e.empty())
          return e + mc::fmt(" (h[%llu]=%d, others %d)", (unsigned long long)p, v, bg);
      }
    return "";
  });
  mc::add(n + "one 14-bit field takes every value", N * 3, [](uint64_t i) -> std::string {
    const size_t p = i / 3;
    if (mc::quick && i % 3 < 2 && p >= 8 && p < N - 8)
      return "";
    auto pk = background<N>(i % 3);
    for (unsigned v = mc::quick ? 12200 : 0; v < 16384; v++) {
      put14(pk.data(), p, v);
      mc::states(1);
      if (auto e = decode_any<N>(pk.data(), mc::fmt("field %zu = %u", p, v)); !e.empty())
        return e;
    }
    return "";
  });
  mc::add(n + "two fields out of range", N, [](uint64_t p) -> std::string {
    auto pk = background<N>(2);
    put14(pk.data(), p, 12289 + p % 4095);
    for (size_t r = p + 1; r < N; r++) {
      auto k = pk;
      put14(k.data(), r, 12289 + p % 4095);
      mc::states(1);
      if (auto e = decode_any<N>(k.data(), mc::fmt("fields %d and %zu out of range", (int)p, r)); !e.empty())
        return e;
    }
    return "";
  });
  mc::add(n + "every header byte", 256 * 3, [](uint64_t i) -> std::string {
    auto pk = background<N>(i % 3);
    pk[0] = i / 3;
    mc::states(1);
    return decode_any<N>(pk.data(), mc::fmt("header %02x", (unsigned)(i / 3)));
  }, 16);
  mc::add(n + "every byte value at every offset", ref::params<N>::pklen * 3, [](uint64_t i) -> std::string {
    auto pk = background<N>(i % 3);
    for (int v = 0; v < 256; v++) {
      pk[i / 3] = v;
      mc::states(1);
      if (auto e = decode_any<N>(pk.data(), mc::fmt("byte %d = %02x", (int)(i / 3), v)); !e.empty())
        return e;
    }
    return "";
  }, 8);
  mc::add(n + "uniform byte strings", 256, [](uint64_t v) -> std::string {
    std::vector<uint8_t> pk(ref::params<N>::pklen, v);
    mc::states(2);
    if (auto e = decode_any<N>(pk.data(), mc::fmt("all bytes %02x", (unsigned)v)); !e.empty())
      return e;
    pk[0] = ref::params<N>::lg;
    return decode_any<N>(pk.data(), mc::fmt("header, then all bytes %02x", (unsigned)v));
  });
}

int
main(int argc, char** argv)
{
  return mc::main(argc, argv, [] {
    define<512>();
    define<1024>();
  });
}
