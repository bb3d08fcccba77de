// The integer sampler: base sampler, exponential, Bernoulli trial and their composition, over
// every answer the random generator can give at each decision.
#include "flat.hpp"
#include "fsref.hpp"
#include "mc.hpp"
#include "prng.hpp"
#include "samplerz.hpp"

using fs::ld;
using fs::u128;

static prng::prng_t&
rng()
{
  static prng::prng_t r;
  return r;
}
static std::array<uint8_t, 9>
le(u128 u)
{
  std::array<uint8_t, 9> b;
  for (int i = 0; i < 9; i++)
    b[i] = (uint8_t)(u >> (8 * i));
  return b;
}
static std::string
hex(u128 u)
{
  return mc::fmt("%02x%016llx", (unsigned)(u >> 64), (unsigned long long)u);
}

// serves exactly the given bytes, counts how many were taken
struct given : env::rng_source
{
  const uint8_t* p = nullptr;
  size_t n = 0, pos = 0;
  bool over = false;
  size_t first_over = 0; // size of the first read that goes beyond the given bytes
  bool read(uint8_t* o, size_t k, env::sponge&) override
  {
    if (!over && pos + k > n) {
      over = true;
      first_over = k;
    }
    for (size_t i = 0; i < k; i++, pos++)
      o[i] = pos >= n ? (uint8_t)mc::mix(pos * 7919 + 1) : p[pos];
    return true;
  }
};

static std::string
check_base(u128 u)
{
  const int want = fs::base(u);
  auto b = le(u);
  given g;
  g.p = b.data();
  g.n = 9;
  const int a0 = samplerz::base_sampler(le(u));
  env::rng = &g;
  const int a1 = samplerz::base_sampler(rng());
  env::rng = nullptr;
  mc::transitions(2);
  mc::outcome(mc::fmt("base sample %d", want));
  if (a0 != want)
    return mc::fmt("base_sampler(array %s) = %d, expected %d", hex(u).c_str(), a0, want);
  if (a1 != want)
    return mc::fmt("base_sampler(rng %s) = %d, expected %d", hex(u).c_str(), a1, want);
  if (g.pos != 9)
    return mc::fmt("base_sampler(rng) drew %zu bytes, expected 9", g.pos);
  return "";
}

// exact fixed-point exponential of the specification
static uint64_t
approx_exp_ref(double x, double ccs)
{
  static const uint64_t C[] = { 0x00000004741183A3ull, 0x00000036548CFC06ull, 0x0000024FDCBF140Aull, 0x0000171D939DE045ull,
                                0x0000D00CF58F6F84ull, 0x000680681CF796E3ull, 0x002D82D8305B0FEAull, 0x011111110E066FD0ull,
                                0x0555555555070F00ull, 0x155555555581FF00ull, 0x400000000002B400ull, 0x7FFFFFFFFFFF4800ull,
                                0x8000000000000000ull };
  uint64_t y = C[0], z = (uint64_t)floorl(0x1p63L * (ld)x);
  for (int u = 1; u < 13; u++)
    y = C[u] - (uint64_t)(((u128)z * y) >> 63);
  z = (uint64_t)floorl(0x1p63L * (ld)ccs);
  return (uint64_t)(((u128)z * y) >> 63);
}

// The acceptance set of a Bernoulli trial as a function of up to 8 bytes: walk the 256-ary tree
// along the boundary.  trial(bytes, n) -> {accepted, consumed}; consumed > n means "wants more".
template<typename F>
std::string
walk(const F& trial, const fs::interval& t, const std::string& what, uint64_t* found = nullptr)
{
  uint8_t b[8];
  uint64_t z = 0;
  for (int i = 0; i < 8; i++) {
    int boundary = -1, lastacc = -1, firstrej = 256;
    for (int v = 0; v < 256; v++) {
      b[i] = v;
      const auto [acc, used] = trial(b, i + 1);
      if (used == (size_t)i + 1 && !(i == 7 && false)) {
        if (acc)
          lastacc = v;
        else if (firstrej == 256)
          firstrej = v;
        if (acc && firstrej < v)
          return what + mc::fmt(": byte %d: %d accepted although %d is rejected", i, v, firstrej);
      } else if (used > (size_t)i + 1) {
        if (boundary >= 0)
          return what + mc::fmt(": byte %d: both %d and %d ask for another byte", i, boundary, v);
        boundary = v;
        if (firstrej < v)
          return what + mc::fmt(": byte %d: %d undecided although %d is rejected", i, v, firstrej);
      } else
        return what + mc::fmt(": used %zu bytes at depth %d", used, i);
    }
    mc::transitions(256);
    if (i < 7) {
      if (boundary < 0)
        return what + mc::fmt(": no value of byte %d is undecided (%d accepted, %d rejected)", i, lastacc, firstrej);
      if (lastacc != boundary - 1 || (boundary < 255 && firstrej != boundary + 1))
        return what + mc::fmt(": byte %d: accepted up to %d, undecided %d, rejected from %d", i, lastacc, boundary, firstrej);
      b[i] = boundary;
      z = z << 8 | boundary;
    } else {
      if (boundary >= 0)
        return what + ": wants more than 8 bytes";
      if (firstrej != lastacc + 1)
        return what + mc::fmt(": last byte: accepted up to %d, rejected from %d", lastacc, firstrej);
      // U < z accepted: z = lastacc + 1 (z's last byte; lastacc = 255 cannot be told apart)
      z = (z << 8) + (lastacc + 1);
    }
  }
  mc::traces(1);
  mc::states(1);
  if (found)
    *found = z;
  if ((u128)z < t.lo || (u128)z > t.hi)
    return what + mc::fmt(": acceptance threshold %016llx, expected %016llx..%016llx", (unsigned long long)z, (unsigned long long)t.lo, (unsigned long long)t.hi);
  return "";
}

static std::string
check_ber(double x, double ccs)
{
  const auto t = fs::threshold(x, ccs);
  const std::string w = mc::fmt("ber_exp(x=%.17g, ccs=%.17g)", x, ccs);
  uint64_t z0 = 0, z1 = 0;
  if (auto r = walk([&](const uint8_t* b, size_t n) {
        uint8_t buf[9];
        memcpy(buf, b, n);
        memset(buf + n, 0x77, 9 - n);
        const auto [a, used] = samplerz::ber_exp(x, ccs, buf, 9);
        return std::make_pair((bool)a, std::min<size_t>(used, n + 1));
      }, t, w + " on bytes", &z0); !r.empty())
    return r;
  given g;
  env::rng = &g;
  auto r = walk([&](const uint8_t* b, size_t n) {
    g.p = b;
    g.n = n;
    g.pos = 0;
    const bool a = samplerz::ber_exp(x, ccs, rng());
    return std::make_pair(a, std::min<size_t>(g.pos, n + 1));
  }, t, w + " on the generator", &z1);
  env::rng = nullptr;
  if (!r.empty())
    return r;
  if (z0 != z1)
    return w + ": the two interfaces have different thresholds";
  const ld p = ccs * expl(-x);
  mc::outcome(p > 0.5 ? "threshold above 1/2" : p > 0.01 ? "threshold 0.01..0.5" : p > 1e-6 ? "threshold 1e-6..0.01" : p > 1e-18 ? "threshold 1e-18..1e-6" : "threshold 0");
  return "";
}

// --- full sampler ---------------------------------------------------------------------------------
static const double SMIN[2] = { 1.277833697, 1.298280334 };
static std::vector<double>
sigmas(double smin, int n)
{
  std::vector<double> r{ smin, 1.8205 };
  for (int i = 1; i < n; i++)
    r.push_back(smin + (1.8205 - smin) * i / n);
  return r;
}
static const std::vector<double>&
mus()
{
  static std::vector<double> m = [] {
    std::vector<double> r{ 0., -0., 0.5, -0.5, 0.25, 0.75, 1., -1., 2.5, -2.5, 0.1, -0.1, 0.9, -0.9, 0.4999999, 0.5000001, 1e-9, -1e-9, 1e-17, -1e-17, 0x1p-60,
                           1 - 0x1p-53, -0x1p-53, 100.3, -100.3, 1000.75, -1000.75, 6144.5, -6144.5, 12288.99, -12289.01, 30000.5, -30000.5, 65536.25, -65536.25, 1e6 + 0.125, -1e6 - 0.125, -91.90471153063714, 20.5, -8.322564895434937 };
    return r;
  }();
  return m;
}

struct run_result
{
  int32_t z;
  size_t used;
  bool over;
};
// generator interface: base bytes little-endian
static run_result
run_rng(double mu, double s, double smin, const std::vector<uint8_t>& bytes)
{
  given g;
  g.p = bytes.data();
  g.n = bytes.size();
  env::rng = &g;
  const int32_t z = samplerz::samplerz(mu, s, smin, rng());
  env::rng = nullptr;
  mc::transitions(1);
  return { z, g.pos, g.over };
}
// array interface: the same bytes with each attempt's base bytes reversed
static run_result
run_arr(double mu, double s, double smin, const std::vector<uint8_t>& bytes, const std::vector<size_t>& starts, size_t len)
{
  std::vector<uint8_t> b(bytes);
  for (auto a : starts)
    if (a + 9 <= b.size())
      std::reverse(b.begin() + a, b.begin() + a + 9);
  b.resize(len);
  const auto [z, used] = samplerz::samplerz(mu, s, smin, b.data(), len);
  mc::transitions(1);
  return { z, used, false };
}

// does an attempt begin with one read of (at least) 9 bytes?
static bool
nine_at_once()
{
  static const bool r = [] {
    given g;
    env::rng_source* old = env::rng;
    env::rng = &g;
    samplerz::samplerz(0.3, 1.5, SMIN[0], rng());
    env::rng = old;
    return g.first_over >= 9;
  }();
  return r;
}

// one attempt's bytes: base value, sign byte, number of tie bytes k then accept/reject
static void
attempt(std::vector<uint8_t>& out, double mu, double s, double smin, int z0, int sign, int ties, bool accept, bool& possible)
{
  u128 u = z0 < 18 ? fs::rcdt()[z0] : 0; // smallest u with base z0
  auto b = le(u);
  out.insert(out.end(), b.begin(), b.end());
  out.push_back(sign);
  const int bit = sign & 1;
  const ld d = (ld)mu - floorl(mu);
  const int z = bit + (2 * bit - 1) * z0;
  const ld x = (z - d) * (z - d) / (2 * (ld)s * s) - (ld)(z0 * z0) / (2 * fs::SIGMA_MAX * fs::SIGMA_MAX);
  const auto t = fs::threshold(x, (ld)smin / s);
  for (int i = 0; i <= ties; i++) {
    const int sh = 56 - 8 * i;
    const uint64_t lo = (uint64_t)t.lo >> sh, hi = (uint64_t)t.hi >> sh;
    if (lo != hi) {
      possible = false;
      return;
    }
    const int v = lo & 255;
    if (i < ties)
      out.push_back(v);
    else if (accept) {
      if (v == 0) {
        possible = false;
        return;
      }
      out.push_back(v - 1);
    } else {
      if (v == 255) {
        possible = false;
        return;
      }
      out.push_back(v + 1);
    }
  }
}

int
main(int argc, char** argv)
{
  return mc::main(argc, argv, [] {
    // --- base sampler
    mc::add("base sampler: around every table threshold", 18 * 2049 + 2, [](uint64_t i) -> std::string {
      const u128 M = ((u128)1 << 72) - 1;
      if (i >= 18 * 2049)
        return check_base(i & 1 ? M : 0);
      const int64_t d = (int64_t)(i % 2049) - 1024;
      mc::states(1);
      return check_base((fs::rcdt()[i / 2049] + (u128)(__int128)d) & M);
    }, 64);
    mc::add("base sampler: every table threshold with any one byte replaced", 18 * 9 * 256, [](uint64_t i) -> std::string {
      u128 u = fs::rcdt()[i / (9 * 256)];
      const int p = (i / 256) % 9;
      u &= ~((u128)255 << (8 * p));
      u |= (u128)(i % 256) << (8 * p);
      mc::states(2);
      if (auto r = check_base(u); !r.empty())
        return r;
      return check_base(u ^ 1);
    }, 64);
    mc::add("base sampler: any two bytes on a background of 00 / ff", 2 * 36 * 256, [](uint64_t i) -> std::string {
      int k = (i / 256) % 36, p = 0;
      while (k >= 8 - p)
        k -= 8 - p++;
      const int q = p + 1 + k;
      for (int v = 0; v < 256; v++) {
        u128 u = i / (256 * 36) ? ((u128)1 << 72) - 1 : 0;
        u &= ~((u128)255 << (8 * p)) & ~((u128)255 << (8 * q));
        u |= (u128)(i % 256) << (8 * p) | (u128)v << (8 * q);
        if (auto r = check_base(u); !r.empty())
          return r;
      }
      mc::states(256);
      return "";
    }, 8);
    // --- exponential
    mc::add("fixed-point exponential on a grid of x in [0, ln 2] and ccs", mc::quick ? 65537 : (1 << 22) + 1, [](uint64_t i) -> std::string {
      const double n = mc::quick ? 65536. : (double)(1 << 22);
      const double x = std::min(0.6931471805599453, 0.6931471805599453 * (double)i / n + (i % 3) * 0x1p-53);
      for (double ccs : { 1., 1.277833697 / 1.8205, 1.298280334 / 1.8205, 0.75, 0.875 + (double)(i % 1024) / 8192., 0x1.fffffffffffffp-1 }) {
        // only 2*y - 1 mod 2^64 matters: the value 2^63 (ccs = 1, x = 0) may come out as 0
        uint64_t got = samplerz::approx_exp(x, ccs);
        const uint64_t ex = approx_exp_ref(x, ccs);
        if (ex == 1ull << 63 && got == 0)
          got = ex;
        const ld real = 0x1p63L * ccs * expl(-(ld)x);
        mc::transitions(1);
        if ((got > ex ? got - ex : ex - got) > 2)
          return mc::fmt("approx_exp(%.17g, %.17g) = %llx, the specified polynomial gives %llx", x, ccs, (unsigned long long)got, (unsigned long long)ex);
        if (fabsl((ld)got - real) > real * 0x1p-44L + 4)
          return mc::fmt("approx_exp(%.17g, %.17g) = %llx is far from 2^63 ccs exp(-x)", x, ccs, (unsigned long long)got);
      }
      mc::states(6);
      return "";
    }, 256);
    // --- Bernoulli trial
    mc::add("Bernoulli trial: all byte decisions along the boundary, x around multiples of ln 2", 80 * 15, [](uint64_t i) -> std::string {
      const double base = (double)(i / 15) * 0.6931471805599453;
      const int d = (int)(i % 15) - 7;
      double x = base;
      for (int k = 0; k < abs(d) && k < 4; k++)
        x = std::nextafter(x, d < 0 ? 0. : 1e9);
      if (d == 5)
        x = base + 1e-9;
      if (d == 6)
        x = base + 0.3;
      if (d == 7)
        x = base + 0.6931471;
      if (d == -5)
        x = base - 1e-9;
      if (d == -6)
        x = base - 1e-13;
      if (d == -7)
        x = base + 0.01;
      if (x < 0)
        x = 0;
      for (double ccs : { 1., 1.277833697 / 1.8205, 0.9 })
        if (auto r = check_ber(x, ccs); !r.empty())
          return r;
      return "";
    }, 4);
    mc::add("Bernoulli trial: all byte decisions along the boundary, grid of x", mc::quick ? 1500 : 60000, [](uint64_t i) -> std::string {
      const double x = (double)i * (mc::quick ? 70. / 1500 : 120. / 60000);
      return check_ber(x, 0.7019 + (double)(i % 29) / 100.);
    }, 4);
    mc::add("Bernoulli trial: negligible x and rounding noise below zero", 16, [](uint64_t i) -> std::string {
      static const double X[] = { 0., -0., 1e-300, 1e-20, 1e-16, -1e-17, -1e-16, -2.2e-16, 0x1p-53, 0x1p-63, 0x1p-64, 0x1.8p-63, -0x1p-60, 1000., 1e5, 1e9 };
      for (double ccs : { 1., 0.99, 1.277833697 / 1.8205 })
        if (auto r = check_ber(X[i], ccs); !r.empty())
          return r;
      return "";
    });
    // --- one attempt: every base sample, sign, centre and width
    const int ns = mc::quick ? 4 : 12;
    for (int p = 0; p < 2; p++) {
      const auto sg = sigmas(SMIN[p], ns);
      mc::add(mc::fmt("sampler attempt: all byte decisions for every base sample, sign, centre and width (sigma_min %.9g)", SMIN[p]),
              mus().size() * sg.size() * 38, [sg, p](uint64_t i) -> std::string {
        const int z0 = (i / 2) % 19, bit = i % 2;
        const double s = sg[(i / 38) % sg.size()], mu = mus()[i / (38 * sg.size())], smin = SMIN[p];
        const int z = bit + (2 * bit - 1) * z0;
        const double fl = std::floor(mu);
        const ld d = (ld)(double)(mu - fl);
        const ld x = (z - d) * (z - d) / (2 * (ld)s * s) - (ld)(z0 * z0) / (2 * fs::SIGMA_MAX * fs::SIGMA_MAX);
        const auto t = fs::threshold(x, (ld)smin / s);
        const u128 u = z0 < 18 ? fs::rcdt()[z0] : 0;
        if (!nine_at_once())
          return ""; // a new attempt cannot be told from a tie byte: left to the other families
        const auto w = mc::fmt("samplerz(mu=%.17g, sigma'=%.10g) base %d sign %d", mu, s, z0, bit);
        std::string bad;
        std::vector<uint8_t> b(18 + 8 + 11);
        auto bb = le(u);
        given g;
        env::rng = &g;
        auto r = walk([&](const uint8_t* v, size_t n) {
          memcpy(b.data(), bb.data(), 9);
          b[9] = (uint8_t)((z0 * 2 + n * 64) & 0xfe) | bit; // only the lowest bit counts
          memcpy(b.data() + 10, v, n);
          g.p = b.data();
          g.n = 10 + n;
          g.pos = 0;
          g.over = false;
          const int32_t got = samplerz::samplerz(mu, s, smin, rng());
          const bool more = g.over;
          if (!more) { // accepted within the given bytes
            if (got != z + (int32_t)fl && bad.empty())
              bad = w + mc::fmt(": returned %d, expected %d", got, z + (int32_t)fl);
            return std::make_pair(true, g.pos - 10);
          }
          // rejected (a new attempt begins with 9 bytes) or undecided (one further byte is drawn)
          return std::make_pair(false, g.first_over >= 9 ? n : n + 1);
        }, t, w);
        env::rng = nullptr;
        if (!r.empty())
          return r;
        mc::outcome(x < 1 ? "x < 1" : x < 10 ? "x < 10" : x < 44 ? "x < 44" : "x >= 44");
        return bad;
      }, 4);
    }
    // --- sequences of attempts, both interfaces
    mc::add("sequences of up to 3 attempts: bases, signs, ties and verdicts", 2 * mus().size() * 3 * 64, [](uint64_t i) -> std::string {
      const int p = i % 2;
      const double mu = mus()[(i / 2) % mus().size()];
      const double s = sigmas(SMIN[p], 2)[(i / (2 * mus().size())) % 3];
      const uint64_t pat = i / (2 * mus().size() * 3);
      const int bases[] = { 0, 1, 2, 3, 5, 8, 12, 18 };
      for (int depth = 1; depth <= 3; depth++)
        for (uint64_t c = 0; c < (depth == 1 ? 8 : depth == 2 ? 64 : 128); c++) {
          std::vector<uint8_t> b;
          std::vector<size_t> starts;
          bool possible = true;
          uint64_t h = mc::mix(c + 1000 * pat);
          std::string what = mc::fmt("mu=%.17g sigma'=%.10g:", mu, s);
          for (int a = 0; a < depth; a++) {
            const bool last = a + 1 == depth;
            const int z0 = bases[(last ? c : pat + a * 3 + c) % 8];
            const int sign = (int)((pat >> (3 * a)) & 7) * 37 + (int)((c >> a) & 1);
            const int ties = (int)((pat >> 1) + c + a) % 6;
            starts.push_back(b.size());
            attempt(b, mu, s, SMIN[p], last ? std::min(z0, 5) : z0, sign, ties, last, possible);
            if (!possible)
              break;
            what += mc::fmt(" [base %d sign byte %d ties %d %s]", z0, sign, ties, last ? "accept" : "reject");
          }
          (void)h;
          if (!possible)
            continue;
          fs::source src{ b.data(), b.size() };
          const auto want = fs::samplerz(mu, s, SMIN[p], src);
          if (want.ambiguous || src.over)
            continue;
          const auto r0 = run_rng(mu, s, SMIN[p], b);
          if (r0.over || r0.z != want.z || r0.used != src.pos)
            return what + mc::fmt(" returned %d using %zu bytes, expected %lld using %zu", r0.z, r0.used, (long long)want.z, src.pos);
          for (size_t len : { b.size(), b.size() + 1, b.size() + 30 }) {
            const auto r1 = run_arr(mu, s, SMIN[p], b, starts, len);
            if (r1.z != want.z || r1.used != src.pos)
              return what + mc::fmt(" (array of %zu bytes) returned %d using %zu bytes, expected %lld using %zu", len, r1.z, r1.used, (long long)want.z, src.pos);
          }
          for (size_t len = 0; len < b.size(); len++) { // truncated: must not use more than it was given
            const auto r1 = run_arr(mu, s, SMIN[p], b, starts, len);
            if (r1.used > len)
              return what + mc::fmt(" (array truncated to %zu bytes) claims to have used %zu", len, r1.used);
          }
          mc::traces(2);
          mc::states(1);
          mc::outcome(mc::fmt("accepted at attempt %d", depth));
        }
      return "";
    }, 4);
    static const size_t RUNS[] = { 4, 7, 8, 15, 16, 31, 32, 63, 64, 65, 99, 100, 127, 128, 200, 255, 256, 257, 500, 511, 512, 1000, 1023, 1024, 2048, 4096, 10000, 32768, 65535, 65536, 65537, 100000 };
    mc::add("long runs of rejected attempts, then an accepted one", std::size(RUNS) * 2, [](uint64_t i) -> std::string {
      const size_t n = RUNS[i / 2];
      const int p = i % 2;
      const double mu = p ? -7.6 : 0.3;
      std::vector<uint8_t> b;
      for (size_t k = 0; k < n; k++) {
        b.insert(b.end(), 9, 0); // base 18: practically always rejected
        b.push_back((uint8_t)k);
        b.push_back(0xff);
      }
      bool ok = true;
      attempt(b, mu, 1.5, SMIN[p], 1, (int)i, 0, true, ok);
      std::vector<size_t> starts{ 11 * n };
      fs::source src{ b.data(), b.size() };
      const auto want = fs::samplerz(mu, 1.5, SMIN[p], src);
      if (!ok || want.ambiguous || src.over)
        return "";
      const auto r = run_rng(mu, 1.5, SMIN[p], b);
      const auto r1 = run_arr(mu, 1.5, SMIN[p], b, starts, b.size());
      mc::states(n);
      mc::traces(2);
      mc::outcome("accepted after a long run of rejections");
      if (r.over || r.z != want.z || r.used != src.pos || r1.z != want.z || r1.used != src.pos)
        return mc::fmt("mu=%g, %zu rejected attempts first: returned %d / %d using %zu / %zu bytes, expected %lld using %zu", mu, n, r.z, r1.z, r.used, r1.used, (long long)want.z, src.pos);
      return "";
    });
    mc::add("sampler: all 256 sign bytes", 256, [](uint64_t v) -> std::string {
      for (double mu : { 0.3, -7.6 })
        for (int z0 : { 0, 1, 4 }) {
          std::vector<uint8_t> b;
          bool ok = true;
          attempt(b, mu, 1.5, SMIN[0], z0, (int)v, 0, true, ok);
          fs::source src{ b.data(), b.size() };
          const auto want = fs::samplerz(mu, 1.5, SMIN[0], src);
          if (!ok || want.ambiguous)
            continue;
          const auto r = run_rng(mu, 1.5, SMIN[0], b);
          const auto r1 = run_arr(mu, 1.5, SMIN[0], b, { 0 }, b.size());
          mc::states(1);
          if (r.z != want.z || r1.z != want.z)
            return mc::fmt("mu=%g base %d sign byte %d: returned %d / %d, expected %lld", mu, z0, (int)v, r.z, r1.z, (long long)want.z);
        }
      return "";
    });
    mc::add("sampler: pseudo random byte streams", mc::quick ? 4000 : 200000, [](uint64_t i) -> std::string {
      const double mu = mus()[i % mus().size()] + (double)(i % 101) / 101.;
      const int p = i & 1;
      const auto sg = sigmas(SMIN[p], 8);
      const double s = sg[(i / 3) % sg.size()];
      for (int k = 0; k < 16; k++) {
        flat_rng f(i * 16 + k);
        env::rng = &f;
        const int32_t got = samplerz::samplerz(mu, s, SMIN[p], rng());
        env::rng = nullptr;
        fs::source src{ f.log.data(), f.log.size() };
        const auto want = fs::samplerz(mu, s, SMIN[p], src);
        mc::transitions(want.attempts);
        mc::traces(1);
        if (want.ambiguous)
          continue;
        if (src.over || got != want.z || src.pos != f.log.size())
          return mc::fmt("mu=%.17g sigma'=%.10g stream %d: returned %d after %zu bytes, expected %lld after %zu", mu, s, (int)(i * 16 + k), got, f.log.size(), (long long)want.z, src.pos);
      }
      mc::states(16);
      return "";
    }, 16);
  });
}
