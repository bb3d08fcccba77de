// Exhaustive bounded exploration: every family enumerates a finite, index-addressable space of
// executions of the real code; item i of a family is a deterministic function of i.
//
// Items are sharded over worker processes.  A worker publishes what it is doing in shared memory,
// so a crash, a sanitizer abort, an exception or a hang is attributed to one item.  Whatever fails
// is re-run alone in a fresh process first, then, if it passes alone, after replaying exactly the
// items that worker had executed before it; only what fails again is reported.
#pragma once
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace mc {

inline double
now()
{
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

inline std::string
fmt(const char* f, ...)
{
  char b[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}

struct family
{
  std::string name;
  uint64_t count;
  std::function<std::string(uint64_t)> run; // "" = property held on this execution
  uint64_t chunk = 1;
  double limit = 30; // seconds one item may take before it counts as a hang
};

constexpr int MAXW = 64, MAXF = 128, MAXCHUNKS = 1 << 18, NOUT = 512, NSAMP = 256;

struct chunk_t
{
  uint32_t fam;
  uint32_t n;
  uint64_t from;
};

struct slot
{
  std::atomic<int> fam;
  std::atomic<uint64_t> idx;
  std::atomic<uint64_t> started_us;
  std::atomic<int> failed;
  char msg[1024];
  std::atomic<uint32_t> nchunks;
  chunk_t chunks[MAXCHUNKS];
};

constexpr size_t SETBITS = 23;

struct shared
{
  std::atomic<uint64_t> next[MAXF];
  std::atomic<uint64_t> done[MAXF];
  std::atomic<uint64_t> transitions, states_direct, traces;
  std::atomic<uint64_t> states_hashed, set_full;
  std::atomic<int> stop;
  struct
  {
    std::atomic<int> used;
    char key[80];
    std::atomic<uint64_t> n;
  } out[NOUT];
  std::atomic<int> nsamp;
  char samp[NSAMP][400];
  slot w[MAXW];
  std::atomic<uint64_t> set[1ull << SETBITS];
};

inline shared* S = nullptr;
inline bool quick = true;
inline uint64_t seed = 1;
inline int cur_fam = -1;
// memory faults decide, not results: a wrong value is another property's concern
inline bool faults_only = false;
inline uint64_t stride = 1; // only every stride-th item of each family (a prime: the classes of structured indices rotate)


inline uint64_t
mix(uint64_t x)
{
  x ^= x >> 30;
  x *= 0xbf58476d1ce4e5b9ull;
  x ^= x >> 27;
  x *= 0x94d049bb133111ebull;
  x ^= x >> 31;
  return x;
}
inline uint64_t
hash(const void* p, size_t n, uint64_t h = 0x9e3779b97f4a7c15ull)
{
  auto b = static_cast<const uint8_t*>(p);
  size_t i = 0;
  for (; i + 8 <= n; i += 8) {
    uint64_t v;
    memcpy(&v, b + i, 8);
    h = mix(h ^ v) + 0x9e3779b97f4a7c15ull;
  }
  for (; i < n; i++)
    h = mix(h ^ b[i]) + 0x1234567;
  return mix(h ^ n);
}

// A canonical state of the reference model / of the implementation was reached.
inline void
state(uint64_t h)
{
  h = mix(h);
  if (!h)
    h = 1;
  uint64_t p = h & ((1ull << SETBITS) - 1);
  for (int t = 0; t < 256; t++) {
    uint64_t e = S->set[p].load(std::memory_order_relaxed);
    if (e == h)
      return;
    if (e == 0 && S->set[p].compare_exchange_strong(e, h)) {
      S->states_hashed++;
      return;
    }
    if (e == h)
      return;
    p = (p + 1) & ((1ull << SETBITS) - 1);
  }
  S->set_full++;
}
// n further states, distinct by construction of the enumeration
inline void
states(uint64_t n)
{
  S->states_direct += n;
}
inline void
transitions(uint64_t n = 1)
{
  S->transitions += n;
}
// n complete executions of the real code were compared with the reference
inline void
traces(uint64_t n = 1)
{
  S->traces += n;
}
// classes of observed outcomes, with how often each was seen
inline void
outcome(const std::string& k, uint64_t n = 1)
{
  uint64_t h = hash(k.data(), k.size());
  for (int t = 0; t < NOUT; t++) {
    auto& o = S->out[(h + t) % NOUT];
    int u = o.used.load();
    if (u == 0) {
      int z = 0;
      if (o.used.compare_exchange_strong(z, 1)) {
        snprintf(o.key, sizeof o.key, "%s", k.c_str());
        o.used.store(2);
        o.n += n;
        return;
      }
      u = z;
    }
    while (o.used.load() == 1)
      ;
    if (!strncmp(o.key, k.c_str(), sizeof(o.key) - 1)) {
      o.n += n;
      return;
    }
  }
}
inline void
sample(const std::string& s)
{
  int i = S->nsamp++;
  if (i < NSAMP)
    snprintf(S->samp[i], sizeof S->samp[i], "%s", s.c_str());
}

inline std::vector<family> fams;

// of a family with few items at least eight are executed
inline uint64_t
eff(const family& f)
{
  return std::max<uint64_t>(1, std::min(stride, f.count / 8));
}
inline bool
chosen(const family& f, uint64_t i)
{
  const uint64_t s = eff(f);
  return i % s == s / 2;
}

inline void
add(std::string name, uint64_t count, std::function<std::string(uint64_t)> f, uint64_t chunk = 1, double limit = 30)
{
  fams.push_back({ std::move(name), count, std::move(f), chunk, limit });
}

inline std::string
guarded(const family& f, uint64_t i)
{
  std::string r;
  try {
    r = f.run(i);
  } catch (const std::exception& e) {
    r = std::string("exception: ") + e.what();
  }
  if (faults_only && !r.empty()) {
    for (const char* k : { "outside of the ", "outside of an ", "wrote past", "writes past", " modified" })
      if (r.find(k) != std::string::npos)
        return r;
    outcome("wrong result: left to another property");
    return "";
  }
  return r;
}

inline std::string
jesc(const std::string& s)
{
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 32 || c > 126)
      o += fmt("\\u%04x", c);
    else
      o += c;
  }
  return o;
}

inline void
enter(slot& w, int f, uint64_t i)
{
  w.fam = -1; // not running: the watchdog must not pair the old start with the new item
  w.idx = i;
  w.started_us = static_cast<uint64_t>(now() * 1e6);
  w.fam = f;
}

inline void
worker(int id)
{
  slot& w = S->w[id];
  for (size_t f = 0; f < fams.size(); f++) {
    cur_fam = static_cast<int>(f);
    while (!S->stop) {
      const uint64_t a = S->next[f].fetch_add(fams[f].chunk);
      if (a >= fams[f].count)
        break;
      const uint64_t b = std::min(fams[f].count, a + fams[f].chunk);
      const uint32_t nc = w.nchunks;
      if (nc < MAXCHUNKS) {
        w.chunks[nc] = { static_cast<uint32_t>(f), static_cast<uint32_t>(b - a), a };
        w.nchunks = nc + 1;
      }
      for (uint64_t i = a; i < b && !S->stop; i++) {
        if (!chosen(fams[f], i))
          continue;
        enter(w, f, i);
        const std::string m = guarded(fams[f], i);
        if (!m.empty()) {
          snprintf(w.msg, sizeof w.msg, "%s", m.c_str());
          w.failed = 1;
          _exit(1);
        }
        S->done[f]++;
      }
    }
  }
  w.fam = -1;
  _exit(0);
}

struct verdict
{
  bool bad = false;
  std::string msg;
};

// Runs one or several items, in order, in a fresh process.
inline verdict
isolated(const std::vector<std::pair<int, uint64_t>>& items, double limit)
{
  slot& w = S->w[MAXW - 1];
  w.failed = 0;
  w.msg[0] = 0;
  w.fam = -1;
  fflush(nullptr);
  const pid_t p = fork();
  if (p == 0) {
    for (auto& [f, i] : items) {
      cur_fam = f;
      enter(w, f, i);
      const std::string m = guarded(fams[f], i);
      if (!m.empty()) {
        snprintf(w.msg, sizeof w.msg, "%s", m.c_str());
        w.failed = 1;
        _exit(1);
      }
    }
    _exit(0);
  }
  const double t0 = now();
  for (;;) {
    int st;
    if (waitpid(p, &st, WNOHANG) == p) {
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        return {};
      if (w.failed)
        return { true, w.msg };
      if (WIFSIGNALED(st))
        return { true, fmt("process died with signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))) };
      return { true, fmt("process ended with status %d (sanitizer report or abort, see stderr)", WEXITSTATUS(st)) };
    }
    if (now() - t0 > limit) {
      kill(p, SIGKILL);
      waitpid(p, &st, 0);
      return { true, fmt("execution did not terminate within %.0f s", limit) };
    }
    usleep(2000);
  }
}

inline void
write_file(const std::string& path, const std::string& s)
{
  FILE* f = fopen(path.c_str(), "w");
  if (f) {
    fwrite(s.data(), 1, s.size(), f);
    fclose(f);
  }
}

// --tier quick|thorough --workers n --seed n --out summary.json --part NAME
// --replay "fam:idx[,fam:idx...]"  --budget seconds  --stride k
inline int
main(int argc, char** argv, const std::function<void()>& define)
{
  std::string out, replay, only, skip;
  int W = 8;
  double budget = 1e9;
  for (int i = 1; i + 1 < argc; i += 2) {
    const std::string k = argv[i], v = argv[i + 1];
    if (k == "--tier")
      quick = v == "quick";
    else if (k == "--workers")
      W = atoi(v.c_str());
    else if (k == "--seed")
      seed = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--out")
      out = v;
    else if (k == "--replay")
      replay = v;
    else if (k == "--only")
      only = v;
    else if (k == "--skip")
      skip = v;
    else if (k == "--faults-only")
      faults_only = v == "1";
    else if (k == "--stride")
      stride = strtoull(v.c_str(), nullptr, 10);
    else if (k == "--budget")
      budget = atof(v.c_str());
  }
  S = static_cast<shared*>(
    mmap(nullptr, sizeof(shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (S == MAP_FAILED) {
    perror("mmap");
    return 3;
  }
  define();
  if (const char* e = getenv("MC_LIMIT_SCALE"))
    for (auto& f : fams)
      f.limit *= atof(e);
  if (!only.empty())
    fams.erase(std::remove_if(fams.begin(), fams.end(), [&](auto& f) { return f.name.find(only) == std::string::npos; }),
               fams.end());

  for (size_t a = 0; a < skip.size();) { // --skip a|b|c
    const size_t e = std::min(skip.find('|', a), skip.size());
    const std::string sub = skip.substr(a, e - a);
    fams.erase(std::remove_if(fams.begin(), fams.end(), [&](auto& f) { return f.name.find(sub) != std::string::npos; }), fams.end());
    a = e + 1;
  }

  auto fam_index = [&](const std::string& n) {
    for (size_t i = 0; i < fams.size(); i++)
      if (fams[i].name == n)
        return static_cast<int>(i);
    return -1;
  };

  if (!replay.empty()) {
    std::vector<std::pair<int, uint64_t>> items;
    double lim = 0;
    size_t p = 0;
    while (p < replay.size()) {
      size_t e = replay.find(',', p);
      if (e == std::string::npos)
        e = replay.size();
      const std::string it = replay.substr(p, e - p);
      const size_t c = it.rfind(':');
      const int f = fam_index(it.substr(0, c));
      if (f < 0) {
        fprintf(stderr, "unknown family in replay: %s\n", it.c_str());
        return 3;
      }
      uint64_t a, n = 1;
      const std::string r = it.substr(c + 1);
      a = strtoull(r.c_str(), nullptr, 10);
      const size_t plus = r.find('+');
      if (plus != std::string::npos)
        n = strtoull(r.c_str() + plus + 1, nullptr, 10);
      for (uint64_t i = 0; i < n; i++)
        if (plus == std::string::npos || chosen(fams[f], a + i))
          items.push_back({ f, a + i });
      lim += fams[f].limit * 3;
      p = e + 1;
    }
    const verdict v = isolated(items, std::min(lim, 600.));
    if (v.bad) {
      printf("REPLAY-FAIL %s\n", v.msg.c_str());
      return 1;
    }
    printf("REPLAY-PASS\n");
    return 0;
  }

  const double t0 = now();
  std::vector<pid_t> pid(W);
  fflush(nullptr);
  for (int i = 0; i < W; i++) {
    S->w[i].fam = -1;
    pid[i] = fork();
    if (pid[i] == 0)
      worker(i);
  }
  int alive = W, badw = -1;
  std::string bad_msg;
  bool hang = false, over = false;
  while (alive > 0 && badw < 0) {
    bool any = false;
    for (int i = 0; i < W && badw < 0; i++) {
      if (pid[i] <= 0)
        continue;
      int st;
      if (waitpid(pid[i], &st, WNOHANG) == pid[i]) {
        any = true;
        pid[i] = 0;
        alive--;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
          continue;
        badw = i;
        bad_msg = S->w[i].failed ? std::string(S->w[i].msg)
                  : WIFSIGNALED(st)
                    ? fmt("process died with signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)))
                    : fmt("process ended with status %d", WEXITSTATUS(st));
        break;
      }
      const int f = S->w[i].fam;
      const uint64_t since = S->w[i].started_us;
      if (f >= 0 && since && now() - since / 1e6 > fams[f].limit && S->w[i].started_us == since && S->w[i].fam == f) {
        if (faults_only) {
          kill(pid[i], SIGKILL);
          waitpid(pid[i], &st, 0);
          pid[i] = 0;
          alive--;
          over = any = true;
          outcome("did not terminate: left to another property");
          continue;
        }
        badw = i;
        hang = true;
        bad_msg = fmt("execution did not terminate within %.0f s", fams[f].limit);
        break;
      }
    }
    if (now() - t0 > budget) {
      over = true;
      S->stop = 1;
      budget = 1e9;
    }
    if (!any)
      usleep(2000);
  }
  const int bf = badw >= 0 ? S->w[badw].fam.load() : -1;
  const uint64_t bi = badw >= 0 ? S->w[badw].idx.load() : 0;
  for (int i = 0; i < W; i++)
    if (pid[i] > 0) {
      kill(pid[i], SIGKILL);
      int st;
      waitpid(pid[i], &st, 0);
    }

  // confirm
  std::string rep, status = "ok";
  if (badw >= 0 && bf >= 0) {
    const double lim = hang ? std::max(60., fams[bf].limit * 3) : fams[bf].limit * 3;
    // counters must not move while confirming
    const verdict v = isolated({ { bf, bi } }, lim);
    if (v.bad) {
      status = "violation";
      bad_msg = v.msg;
      rep = fmt("%s:%llu", fams[bf].name.c_str(), static_cast<unsigned long long>(bi));
    } else if (!hang) {
      // passes alone: it may depend on what the same process did before
      std::vector<std::pair<int, uint64_t>> items;
      const slot& w = S->w[badw];
      std::string r;
      bool end = false;
      for (uint32_t c = 0; c < w.nchunks && !end; c++) {
        uint64_t n = 0;
        for (uint32_t k = 0; k < w.chunks[c].n && !end; k++, n++) {
          if (!chosen(fams[w.chunks[c].fam], w.chunks[c].from + k))
            continue;
          items.push_back({ static_cast<int>(w.chunks[c].fam), w.chunks[c].from + k });
          end = static_cast<int>(w.chunks[c].fam) == bf && w.chunks[c].from + k == bi;
        }
        r += fmt("%s%s:%llu+%llu", c ? "," : "", fams[w.chunks[c].fam].name.c_str(),
                 static_cast<unsigned long long>(w.chunks[c].from), static_cast<unsigned long long>(n));
      }
      const verdict v2 = isolated(items, std::min(600., 60 + 2 * (now() - t0)));
      if (v2.bad) {
        status = "violation";
        bad_msg = v2.msg + " (only after the preceding executions of the same process)";
        rep = r;
      } else {
        status = "unconfirmed";
      }
    } else {
      status = "unconfirmed";
    }
  } else if (badw >= 0) {
    status = "unconfirmed";
  }

  std::string j = "{";
  j += fmt("\"status\":\"%s\",\"wall_s\":%.3f,\"truncated\":%s,", status.c_str(), now() - t0, over ? "true" : "false");
  j += "\"message\":\"" + jesc(bad_msg) + "\",\"replay\":\"" + jesc(rep) + "\",";
  j += fmt("\"family\":\"%s\",\"index\":%llu,", bf >= 0 ? fams[bf].name.c_str() : "", static_cast<unsigned long long>(bi));
  uint64_t total = 0;
  j += "\"families\":{";
  for (size_t f = 0; f < fams.size(); f++) {
    const uint64_t st = eff(fams[f]), nsel = (fams[f].count + st - 1 - st / 2) / st;
    j += fmt("%s\"%s%s\":{\"bound\":%llu,\"explored\":%llu}", f ? "," : "", jesc(fams[f].name).c_str(),
             nsel < fams[f].count ? fmt(" (every %llu.)", static_cast<unsigned long long>(st)).c_str() : "",
             static_cast<unsigned long long>(nsel), static_cast<unsigned long long>(S->done[f].load()));
    total += S->done[f];
  }
  j += fmt("},\"executions\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"set_full\":%llu,",
           static_cast<unsigned long long>(total),
           static_cast<unsigned long long>(S->states_hashed + S->states_direct),
           static_cast<unsigned long long>(S->transitions.load()), static_cast<unsigned long long>(S->traces.load()),
           static_cast<unsigned long long>(S->set_full.load()));
  j += "\"outcomes\":{";
  bool first = true;
  for (auto& o : S->out)
    if (o.used.load() == 2) {
      j += fmt("%s\"%s\":%llu", first ? "" : ",", jesc(o.key).c_str(), static_cast<unsigned long long>(o.n.load()));
      first = false;
    }
  j += "},\"samples\":[";
  for (int i = 0; i < std::min<int>(S->nsamp, 12); i++)
    j += std::string(i ? "," : "") + "\"" + jesc(S->samp[i]) + "\"";
  j += "]}\n";
  if (!out.empty())
    write_file(out, j);
  else
    fputs(j.c_str(), stdout);
  return status == "ok" ? 0 : status == "violation" ? 1 : 2;
}

} // namespace mc
