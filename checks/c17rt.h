// Controlled scheduler and happens-before monitor for C17 (the runtime behind the compiler's
// thread instrumentation; the real ThreadSanitizer runtime is not linked).
#pragma once
#include <cstddef>
#include <cstdint>

namespace rt {

constexpr int MAXT = 4, MAXPRE = 4, MAXCONF = 4096, MAXLOG = 1 << 20;

enum point_kind : uint8_t
{
  P_ENV = 0,  // call of the environment (random bytes, hash)
  P_SYNC = 1, // atomic, lock, guard of a static
  P_CONF = 2  // access to memory that is known to be shared and written
};

struct result
{
  int raced, deadlock, hung;
  char msg[600];
  uint32_t steps;     // scheduling points passed
  uint32_t nconf;     // granules accessed by two threads, one of them writing
  uint64_t conf[MAXCONF];
  uint64_t accesses, shared_accesses, syncs, switches;
  uint8_t log[MAXLOG]; // kind of each scheduling point
};

struct schedule
{
  int threads;
  int first;           // thread that starts
  int npre;
  uint32_t pre[MAXPRE]; // scheduling points (counted globally) at which the next thread takes over
  const uint64_t* conf; // granules whose accesses are scheduling points
  uint32_t nconf;
};

// runs body(t) in each thread under the schedule; one thread runs at a time
void run(const schedule& s, void (*body)(int), result* r);
void track(bool on); // the calling thread's accesses count from / until now
void point();        // environment call

} // namespace rt
