// Z_q arithmetic: every operation on every operand pair, against integer arithmetic.
#include "ff.hpp"
#include "mc.hpp"
#include "ref.hpp"
#include <sstream>
using ff::ff_t;
static constexpr int Q = 12289;

static ff_t
E(int v)
{
  return ff_t{ static_cast<uint16_t>(v) };
}
#define CK(what, got, want)                                                                                            \
  if (static_cast<int>(got) != static_cast<int>(want))                                                                 \
  return mc::fmt("%s a=%d b=%d: got %d, expected %d", what, a, b, static_cast<int>(got), static_cast<int>(want))

int
main(int argc, char** argv)
{
  static std::vector<int> INV(Q, 0);
  for (int i = 1; i < Q; i++)
    INV[i] = static_cast<int>(ref::powq(i, Q - 2));
  return mc::main(argc, argv, [] {
    mc::add("construct+unary", 65536, [](uint64_t i) -> std::string {
      const int a = static_cast<int>(i), b = 0;
      const ff_t x{ static_cast<uint16_t>(a) };
      CK("ctor", x.v, a % Q);
      mc::states(1);
      mc::transitions(1);
      if (a < Q) {
        CK("neg", (-x).v, (Q - a) % Q);
        CK("inv", x.inv().v, INV[a]);
        if (a)
          CK("a*inv(a)", (x * x.inv()).v, 1);
        ff_t y = x;
        y += y;
        CK("a+=a", y.v, 2 * a % Q);
        y = x;
        y *= y;
        CK("a*=a", y.v, static_cast<int64_t>(a) * a % Q);
        mc::transitions(4);
        std::ostringstream os;
        mc::traces(4);
      } else
        mc::traces(1);
      mc::outcome(a == 0 ? "zero" : a < Q ? "canonical" : "reduced by constructor");
      return "";
    }, 512);
    mc::add("constants", 1, [](uint64_t) -> std::string {
      const int a = 0, b = 0;
      CK("zero", ff_t::zero().v, 0);
      CK("one", ff_t::one().v, 1);
      CK("default", ff_t{}.v, 0);
      CK("Q", ff::Q, Q);
      return "";
    });
    mc::add("all operand pairs", Q, [](uint64_t i) -> std::string {
      const int a = static_cast<int>(i);
      const ff_t x = E(a);
      uint64_t wrap = 0;
      for (int b = 0; b < Q; b++) {
        const ff_t y = E(b);
        const int s = (a + b) % Q, d = (a - b + Q) % Q, m = static_cast<int>(static_cast<int64_t>(a) * b % Q),
                  q = static_cast<int>(static_cast<int64_t>(a) * INV[b] % Q);
        CK("a+b", (x + y).v, s);
        CK("a-b", (x - y).v, d);
        CK("a*b", (x * y).v, m);
        CK("a/b", (x / y).v, q);
        ff_t t = x;
        t += y;
        CK("a+=b", t.v, s);
        t = x;
        t *= y;
        CK("a*=b", t.v, m);
        CK("a==b", (x == y), a == b);
        CK("a!=b", (x != y), a != b);
        CK("a<b", (x < y), a < b);
        CK("a<=b", (x <= y), a <= b);
        CK("a>b", (x > y), a > b);
        CK("a>=b", (x >= y), a >= b);
        CK("operand a changed", x.v, a);
        CK("operand b changed", y.v, b);
        wrap += a + b >= Q;
      }
      mc::states(Q);
      mc::transitions(12ull * Q);
      mc::traces(Q);
      mc::outcome("sum wraps", wrap);
      mc::outcome("sum does not wrap", Q - wrap);
      if (i % 4001 == 0)
        mc::sample(mc::fmt("a=%d with every b in [0,12289): + - * / += *= == != < <= > >=", a));
      return "";
    }, 16);
    mc::add("powers", Q, [](uint64_t i) -> std::string {
      const int a = static_cast<int>(i);
      std::vector<uint64_t> es;
      for (uint64_t e = 0; e < (mc::quick ? 64 : 2048); e++)
        es.push_back(e);
      for (int k = 1; k < 64; k++) {
        es.push_back((1ull << k) - 1);
        es.push_back(1ull << k);
        es.push_back((1ull << k) + 1);
      }
      for (uint64_t e : { Q - 2, Q - 1, Q, 2 * Q - 3, 2 * Q - 2, 2 * Q - 1, 4096, 6144, 65535, 65536 })
        es.push_back(e);
      es.push_back(~0ull);
      es.push_back(~0ull - 1);
      es.push_back(0xaaaaaaaaaaaaaaaaull);
      es.push_back(0x5555555555555555ull);
      for (uint64_t e : es) {
        const int got = (E(a) ^ e).v, want = static_cast<int>(ref::powq(a, e));
        if (got != want)
          return mc::fmt("%d ^ %llu: got %d, expected %d", a, static_cast<unsigned long long>(e), got, want);
      }
      mc::states(es.size());
      mc::transitions(es.size());
      mc::traces(es.size());
      mc::outcome("power", es.size());
      return "";
    }, 16);
    mc::add("shifts of canonical elements stay canonical", 16, [](uint64_t l) -> std::string {
      for (int a = 0; a < Q; a++) {
        if ((E(a) << l).v >= Q || (E(a) >> l).v >= Q)
          return mc::fmt("shift of %d by %d is not canonical", a, static_cast<int>(l));
        mc::states(1);
      }
      mc::transitions(2 * Q);
      mc::traces(Q);
      return "";
    });
    mc::add("random element", mc::quick ? 2000 : 20000, [](uint64_t) -> std::string {
      const int v = ff_t::random().v;
      return v < Q ? "" : mc::fmt("random() gave %d", v);
    }, 100);
  });
}
