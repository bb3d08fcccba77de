// Arrays of exactly n elements, directly after or before an inaccessible page.
#pragma once
#include "mc.hpp"
#include <sys/mman.h>

template<class T>
struct gbuf
{
  uint8_t* base;
  T* p;
  size_t total, n, in;
  bool end;
  gbuf(size_t n_, bool end_)
    : n(n_)
    , end(end_)
  {
    const size_t pg = 4096, len = n * sizeof(T);
    in = (len + pg - 1) / pg * pg + (len ? 0 : pg);
    total = in + 2 * pg;
    base = (uint8_t*)mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    p = (T*)(end ? base + pg + in - len : base + pg);
    memset(base + pg, 0x5a, in);
    mprotect(base, pg, PROT_NONE);
    mprotect(base + pg + in, pg, PROT_NONE);
  }
  ~gbuf() { munmap(base, total); }
  gbuf(const gbuf&) = delete;
  void set(const T* v) { memcpy((void*)p, (const void*)v, n * sizeof(T)); }
  bool same(const T* v) const { return memcmp((const void*)p, (const void*)v, n * sizeof(T)) == 0; }
  bool slack_ok() const
  {
    const uint8_t* s = end ? base + 4096 : (const uint8_t*)(p + n);
    for (size_t i = 0; i < in - n * sizeof(T); i++)
      if (s[i] != 0x5a)
        return false;
    return true;
  }
};

// run f on three operands of the given sizes, for every placement; c are results (may be modified),
// the first `in` operands are inputs only
template<class T, class F>
std::string
between_pages(const char* name, std::array<std::vector<T>, 3> v, unsigned writable, F f)
{
  for (int side = 0; side < 8; side++) {
    gbuf<T> a(v[0].size(), side & 1), b(v[1].size(), side & 2), c(v[2].size(), side & 4);
    gbuf<T>* g[] = { &a, &b, &c };
    for (int i = 0; i < 3; i++)
      g[i]->set(v[i].data());
    f(a.p, b.p, c.p);
    mc::transitions(1);
    for (int i = 0; i < 3; i++) {
      if (!g[i]->slack_ok())
        return mc::fmt("%s of %zu elements: memory outside of operand %d is modified", name, v[0].size(), i);
      if (!(writable >> i & 1) && !g[i]->same(v[i].data()))
        return mc::fmt("%s of %zu elements: operand %d, an input, is modified", name, v[0].size(), i);
    }
  }
  mc::states(8);
  mc::outcome(mc::fmt("%s: nothing outside of the result is written", name));
  return "";
}
