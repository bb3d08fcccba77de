#include "c17rt.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <random>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C"
{
  void* __libc_malloc(size_t);
  void __libc_free(void*);
  void* __libc_calloc(size_t, size_t);
  void* __libc_realloc(void*, size_t);
  void* __libc_memalign(size_t, size_t);
  size_t malloc_usable_size(void*);
}

namespace rt {

using u8 = uint8_t;
using u32 = uint32_t;
using u64 = uint64_t;
using uptr = uintptr_t;

struct thread
{
  int id;
  bool on, done, blocked;
  uptr lo, hi; // stack
  u32 vc[MAXT];
  u32 spins;
};
static thread_local thread* me = nullptr;
static thread TH[MAXT];
static int NT;
static int current; // futex
static result* R;
static schedule SCH;
static void (*BODY)(int);

static void
fwait(int* a, int v)
{
  syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0);
}
static void
fwake(int* a)
{
  syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1 << 20, nullptr, nullptr, 0);
}
static void
wait_turn()
{
  for (;;) {
    const int c = __atomic_load_n(&current, __ATOMIC_ACQUIRE);
    if (c == me->id)
      return;
    fwait(&current, c);
  }
}
static void
finish_now() // ends the process: a verdict is in R
{
  _exit(0);
}
static void
hand_to(int t)
{
  R->switches++;
  __atomic_store_n(&current, t, __ATOMIC_RELEASE);
  fwake(&current);
}
// next thread that can run, or -1
static int
next_of(int from)
{
  for (int i = 1; i <= NT; i++) {
    const int t = (from + i) % NT;
    if (t != from && !TH[t].done && !TH[t].blocked)
      return t;
  }
  return -1;
}
static void
preempt()
{
  const int t = next_of(me->id);
  if (t < 0)
    return;
  hand_to(t);
  wait_turn();
}
// the calling thread cannot go on: let another one run
static void
block()
{
  me->blocked = true;
  const int t = next_of(me->id);
  if (t < 0) {
    R->deadlock = 1;
    snprintf(R->msg, sizeof R->msg, "deadlock: every unfinished thread waits");
    finish_now();
  }
  hand_to(t);
  wait_turn();
  me->blocked = false;
}
static void
unblock_all()
{
  for (int i = 0; i < NT; i++)
    TH[i].blocked = false;
}
static void
step(point_kind k)
{
  const u32 s = R->steps++;
  if (s < MAXLOG)
    R->log[s] = k;
  for (int i = 0; i < SCH.npre; i++)
    if (SCH.pre[i] == s) {
      preempt();
      return;
    }
}

// --- happens-before ---------------------------------------------------------------------------------
struct entry
{
  u64 key; // granule + 1
  u32 w[MAXT], r[MAXT];
  u8 wm[MAXT], rm[MAXT];
  u64 pc;
};
constexpr u32 TB = 19;
static entry* TAB;
static u8* BLOOM; // 64-byte lines that have an entry
constexpr u32 BB = 22;

static u32
slot_of(u64 g)
{
  const u64 page = g >> 9;
  return (u32)((((page * 0x9e3779b97f4a7c15ull) >> 20 << 9) | (g & 511)) & ((1u << TB) - 1));
}
static entry*
find(u64 g, bool make)
{
  u32 p = slot_of(g);
  for (u32 t = 0; t < (1u << TB); t++) {
    entry& e = TAB[p];
    if (e.key == g + 1)
      return &e;
    if (!e.key) {
      if (!make)
        return nullptr;
      e.key = g + 1;
      BLOOM[(g >> 3) & ((1u << BB) - 1)] = 1;
      return &e;
    }
    p = (p + 512) & ((1u << TB) - 1);
    if (t % 64 == 63)
      p = (p + 1) & ((1u << TB) - 1);
  }
  return nullptr;
}
static void
forget(uptr a, size_t n)
{
  if (!TAB || !n)
    return;
  for (u64 l = a >> 6; l <= (a + n - 1) >> 6; l++)
    if (BLOOM[l & ((1u << BB) - 1)])
      for (u64 g = l << 3; g < (l << 3) + 8; g++)
        if (g >= (a >> 3) && g <= ((a + n - 1) >> 3))
          if (entry* e = find(g, false)) {
            memset(e->w, 0, sizeof e->w);
            memset(e->r, 0, sizeof e->r);
            memset(e->wm, 0, sizeof e->wm);
            memset(e->rm, 0, sizeof e->rm);
          }
}
static void
where(char* out, size_t n, uptr a)
{
  Dl_info i;
  if (dladdr((void*)a, &i) && i.dli_sname)
    snprintf(out, n, "%.120s+%lu", i.dli_sname, (unsigned long)(a - (uptr)i.dli_saddr));
  else if (dladdr((void*)a, &i) && i.dli_fbase)
    snprintf(out, n, "module offset 0x%lx", (unsigned long)(a - (uptr)i.dli_fbase));
  else
    snprintf(out, n, "heap or mapped memory");
}
static void
race(const char* what, uptr a, int other, uptr pc)
{
  if (R->raced)
    return;
  R->raced = 1;
  char w[200], p[200];
  where(w, sizeof w, a);
  where(p, sizeof p, pc);
  snprintf(R->msg, sizeof R->msg, "data race: %s by thread %d on %s, not ordered with an access of thread %d; in %s", what, me->id, w, other, p);
  finish_now();
}
static void
note_conflict(u64 g)
{
  for (u32 i = 0; i < R->nconf; i++)
    if (R->conf[i] == g)
      return;
  if (R->nconf < MAXCONF)
    R->conf[R->nconf++] = g;
}
static void
access1(u64 g, u8 mask, bool write, uptr pc)
{
  for (u32 i = 0; i < SCH.nconf; i++)
    if (SCH.conf[i] == g) {
      step(P_CONF);
      break;
    }
  entry* e = find(g, true);
  if (!e)
    return;
  const int t = me->id;
  for (int u = 0; u < NT; u++) {
    if (u == t)
      continue;
    if (e->wm[u] & mask) {
      note_conflict(g);
      if (e->w[u] > me->vc[u])
        race(write ? "write" : "read", g << 3, u, pc);
    }
    if (write && (e->rm[u] & mask)) {
      note_conflict(g);
      if (e->r[u] > me->vc[u])
        race("write", g << 3, u, pc);
    }
  }
  if (write) {
    if (e->w[t] != me->vc[t])
      e->wm[t] = 0;
    e->w[t] = me->vc[t];
    e->wm[t] |= mask;
  } else {
    if (e->r[t] != me->vc[t])
      e->rm[t] = 0;
    e->r[t] = me->vc[t];
    e->rm[t] |= mask;
  }
}
static void
access(uptr a, size_t n, bool write, uptr pc)
{
  if (!me || !me->on || !n)
    return;
  me->spins = 0;
  R->accesses++;
  if (a >= me->lo && a < me->hi)
    return;
  R->shared_accesses++;
  for (int u = 0; u < NT; u++)
    if (u != me->id && a >= TH[u].lo && a < TH[u].hi) {
      R->raced = 1;
      snprintf(R->msg, sizeof R->msg, "thread %d accesses the stack of thread %d", me->id, u);
      finish_now();
    }
  const uptr end = a + n;
  for (u64 g = a >> 3; (g << 3) < end; g++) {
    u8 m = 0xff;
    if ((g << 3) < a)
      m &= (u8)(0xff << (a & 7));
    if (((g + 1) << 3) > end)
      m &= (u8)(0xff >> (((g + 1) << 3) - end));
    access1(g, m, write, pc);
  }
}

// --- synchronisation --------------------------------------------------------------------------------
struct syncvar
{
  uptr a;
  u32 vc[MAXT];
};
static syncvar SV[4096];
static int NSV;
static syncvar*
sv(uptr a)
{
  for (int i = 0; i < NSV; i++)
    if (SV[i].a == a)
      return &SV[i];
  if (NSV == 4096)
    NSV = 0;
  SV[NSV].a = a;
  memset(SV[NSV].vc, 0, sizeof SV[NSV].vc);
  return &SV[NSV++];
}
static void
acquire(uptr a)
{
  syncvar* s = sv(a);
  for (int i = 0; i < MAXT; i++)
    if (s->vc[i] > me->vc[i])
      me->vc[i] = s->vc[i];
}
static void
release(uptr a)
{
  syncvar* s = sv(a);
  for (int i = 0; i < MAXT; i++)
    if (me->vc[i] > s->vc[i])
      s->vc[i] = me->vc[i];
  me->vc[me->id]++;
}
static void
sync_point()
{
  R->syncs++;
  // a loop that only reads an atomic waits for somebody else
  if (++me->spins > 200) {
    me->spins = 0;
    preempt();
  }
  step(P_SYNC);
}
void
atomic_before(uptr a, int mo, bool load, bool store)
{
  if (!me || !me->on)
    return;
  sync_point();
}
void
atomic_after(uptr a, int mo, bool load, bool store)
{
  if (!me || !me->on)
    return;
  // 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst
  if (load && (mo == 1 || mo == 2 || mo == 4 || mo == 5))
    acquire(a);
  if (store && (mo == 3 || mo == 4 || mo == 5))
    release(a);
}

static void*
thread_main(void* p)
{
  thread* t = static_cast<thread*>(p);
  me = t;
  wait_turn();
  BODY(t->id);
  t->on = false;
  t->done = true;
  unblock_all();
  int n = next_of(t->id);
  hand_to(n < 0 ? NT : n);
  me = nullptr;
  return nullptr;
}

void
run(const schedule& s, void (*body)(int), result* r)
{
  R = r;
  SCH = s;
  BODY = body;
  NT = s.threads;
  NSV = 0;
  if (!TAB) {
    TAB = (entry*)mmap(nullptr, sizeof(entry) << TB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    BLOOM = (u8*)mmap(nullptr, 1u << BB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  pthread_t th[MAXT];
  constexpr size_t SS = 256u << 20;
  current = -1;
  for (int i = 0; i < NT; i++) {
    TH[i] = {};
    TH[i].id = i;
    for (int k = 0; k < MAXT; k++)
      TH[i].vc[k] = k == i ? 1 : 0;
    uint8_t* st = (uint8_t*)mmap(nullptr, SS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    TH[i].lo = (uptr)st;
    TH[i].hi = (uptr)st + SS;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, st, SS);
    if (pthread_create(&th[i], &at, thread_main, &TH[i])) {
      perror("pthread_create");
      _exit(3);
    }
  }
  __atomic_store_n(&current, s.first, __ATOMIC_RELEASE);
  fwake(&current);
  for (int i = 0; i < NT; i++)
    pthread_join(th[i], nullptr);
}
void
track(bool on)
{
  if (me)
    me->on = on;
}
void
point()
{
  if (!me)
    return;
  const bool o = me->on;
  me->on = false;
  me->spins = 0;
  step(P_ENV);
  me->on = o;
}

struct pause
{
  bool o;
  pause()
    : o(me && me->on)
  {
    if (me)
      me->on = false;
  }
  ~pause()
  {
    if (me)
      me->on = o;
  }
};

} // namespace rt

using namespace rt;
#define PC ((uptr)__builtin_return_address(0))

extern "C"
{
  void __tsan_init() {}
  void __tsan_func_entry(void*) {}
  void __tsan_func_exit() {}
  void __tsan_ignore_thread_begin() {}
  void __tsan_ignore_thread_end() {}
#define RW(n)                                                                                                          \
  void __tsan_read##n(void* a) { access((uptr)a, n, false, PC); }                                                      \
  void __tsan_write##n(void* a) { access((uptr)a, n, true, PC); }                                                      \
  void __tsan_unaligned_read##n(void* a) { access((uptr)a, n, false, PC); }                                            \
  void __tsan_unaligned_write##n(void* a) { access((uptr)a, n, true, PC); }                                            \
  void __tsan_volatile_read##n(void* a) { access((uptr)a, n, false, PC); }                                             \
  void __tsan_volatile_write##n(void* a) { access((uptr)a, n, true, PC); }                                             \
  void __tsan_unaligned_volatile_read##n(void* a) { access((uptr)a, n, false, PC); }                                   \
  void __tsan_unaligned_volatile_write##n(void* a) { access((uptr)a, n, true, PC); }                                   \
  void __tsan_read_write##n(void* a) { access((uptr)a, n, true, PC); }                                                 \
  void __tsan_unaligned_read_write##n(void* a) { access((uptr)a, n, true, PC); }
  RW(1)
  RW(2) RW(4) RW(8) RW(16) void __tsan_vptr_read(void** a) { access((uptr)a, 8, false, PC); }
  void __tsan_vptr_update(void** a, void*) { access((uptr)a, 8, true, PC); }
  void __tsan_read_range(void* a, uptr n) { access((uptr)a, n, false, PC); }
  void __tsan_write_range(void* a, uptr n) { access((uptr)a, n, true, PC); }
  void* __tsan_memcpy(void* d, const void* s, uptr n)
  {
    access((uptr)s, n, false, PC);
    access((uptr)d, n, true, PC);
    return memcpy(d, s, n);
  }
  void* __tsan_memmove(void* d, const void* s, uptr n)
  {
    access((uptr)s, n, false, PC);
    access((uptr)d, n, true, PC);
    return memmove(d, s, n);
  }
  void* __tsan_memset(void* d, int v, uptr n)
  {
    access((uptr)d, n, true, PC);
    return memset(d, v, n);
  }
#define AT(b, T)                                                                                                       \
  T __tsan_atomic##b##_load(const volatile T* a, int mo)                                                               \
  {                                                                                                                    \
    atomic_before((uptr)a, mo, true, false);                                                                           \
    const T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                  \
    atomic_after((uptr)a, mo, true, false);                                                                            \
    return v;                                                                                                          \
  }                                                                                                                    \
  void __tsan_atomic##b##_store(volatile T* a, T v, int mo)                                                            \
  {                                                                                                                    \
    atomic_before((uptr)a, mo, false, true);                                                                           \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                          \
    atomic_after((uptr)a, mo, false, true);                                                                            \
  }                                                                                                                    \
  T __tsan_atomic##b##_exchange(volatile T* a, T v, int mo)                                                            \
  {                                                                                                                    \
    atomic_before((uptr)a, mo, true, true);                                                                            \
    const T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                           \
    atomic_after((uptr)a, mo, true, true);                                                                             \
    return r;                                                                                                          \
  }                                                                                                                    \
  AF(b, T, add)                                                                                                        \
  AF(b, T, sub) AF(b, T, and) AF(b, T, or) AF(b, T, xor) AF(b, T, nand) int __tsan_atomic##b##_compare_exchange_strong( \
    volatile T* a, T* c, T v, int mo, int fmo)                                                                         \
  {                                                                                                                    \
    atomic_before((uptr)a, mo, true, true);                                                                            \
    const int r = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                     \
    atomic_after((uptr)a, r ? mo : fmo, true, r);                                                                      \
    return r;                                                                                                          \
  }                                                                                                                    \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo)                              \
  {                                                                                                                    \
    return __tsan_atomic##b##_compare_exchange_strong(a, c, v, mo, fmo);                                               \
  }                                                                                                                    \
  T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo)                                  \
  {                                                                                                                    \
    __tsan_atomic##b##_compare_exchange_strong(a, &c, v, mo, fmo);                                                     \
    return c;                                                                                                          \
  }
#define AF(b, T, o)                                                                                                    \
  T __tsan_atomic##b##_fetch_##o(volatile T* a, T v, int mo)                                                           \
  {                                                                                                                    \
    atomic_before((uptr)a, mo, true, true);                                                                            \
    const T r = __atomic_fetch_##o(a, v, __ATOMIC_SEQ_CST);                                                            \
    atomic_after((uptr)a, mo, true, true);                                                                             \
    return r;                                                                                                          \
  }
  AT(8, u8)
  AT(16, uint16_t) AT(32, u32) AT(64, u64) void __tsan_atomic_thread_fence(int mo)
  {
    static char F;
    if (!me || !me->on)
      return;
    sync_point();
    if (mo >= 2 && mo != 3)
      acquire((uptr)&F);
    if (mo >= 3)
      release((uptr)&F);
  }
  void __tsan_atomic_signal_fence(int) {}

  // --- the C++ runtime and the C library ---
  int __cxa_guard_acquire(u64* g)
  {
    volatile u8* b = (volatile u8*)g;
    if (!me) {
      if (b[0])
        return 0;
      b[1] = 1;
      return 1;
    }
    if (me->on)
      sync_point();
    while (!b[0] && b[1])
      block();
    if (b[0]) {
      acquire((uptr)g);
      return 0;
    }
    b[1] = 1;
    return 1;
  }
  void __cxa_guard_release(u64* g)
  {
    volatile u8* b = (volatile u8*)g;
    b[0] = 1;
    b[1] = 0;
    if (me) {
      release((uptr)g);
      unblock_all();
    }
  }
  void __cxa_guard_abort(u64* g)
  {
    ((volatile u8*)g)[1] = 0;
    if (me)
      unblock_all();
  }
  static int (*real(const char* n))(void*)
  {
    return (int (*)(void*))dlsym(RTLD_NEXT, n);
  }
#define REAL(n) (([] { static int (*f)(void*) = real(n); return f; })())
  static int lock_with(void* m, int (*tr)(void*), int (*lk)(void*))
  {
    if (!me)
      return lk(m);
    if (me->on)
      sync_point();
    for (;;) {
      const int r = tr(m);
      if (r != EBUSY) {
        acquire((uptr)m);
        return r;
      }
      block();
    }
  }
  int pthread_mutex_trylock(pthread_mutex_t* m)
  {
    if (me && me->on)
      sync_point();
    const int r = REAL("pthread_mutex_trylock")(m);
    if (me && !r)
      acquire((uptr)m);
    return r;
  }
  int pthread_mutex_lock(pthread_mutex_t* m) { return lock_with(m, REAL("pthread_mutex_trylock"), REAL("pthread_mutex_lock")); }
  int pthread_mutex_unlock(pthread_mutex_t* m)
  {
    if (me) {
      release((uptr)m);
      unblock_all();
    }
    const int r = REAL("pthread_mutex_unlock")(m);
    if (me && me->on)
      step(P_SYNC);
    return r;
  }
  int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return lock_with(m, REAL("pthread_rwlock_tryrdlock"), REAL("pthread_rwlock_rdlock")); }
  int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return lock_with(m, REAL("pthread_rwlock_trywrlock"), REAL("pthread_rwlock_wrlock")); }
  int pthread_rwlock_unlock(pthread_rwlock_t* m)
  {
    if (me) {
      release((uptr)m);
      unblock_all();
    }
    return REAL("pthread_rwlock_unlock")(m);
  }
  int pthread_once(pthread_once_t* o, void (*f)())
  {
    // 0 not run, 1 running, 2 done (the C library's own representation differs, but nothing else looks at it here)
    volatile int* s = (volatile int*)o;
    if (me && me->on)
      sync_point();
    while (*s == 1) {
      if (!me)
        break;
      block();
    }
    if (*s == 0) {
      *s = 1;
      f();
      *s = 2;
      if (me) {
        release((uptr)o);
        unblock_all();
      }
    } else if (me)
      acquire((uptr)o);
    return 0;
  }
  int sched_yield()
  {
    if (me)
      preempt();
    return 0;
  }
  void free(void* p)
  {
    if (p && me)
      forget((uptr)p, malloc_usable_size(p));
    __libc_free(p);
  }
  void* realloc(void* p, size_t n)
  {
    if (p && me)
      forget((uptr)p, malloc_usable_size(p));
    return __libc_realloc(p, n);
  }
}

// the random device: an object with state of its own; what it returns does not matter here
std::random_device::result_type
std::random_device::_M_getval()
{
  access((uptr)this, sizeof(*this), true, PC);
  return 0x5a5a5a5a;
}
void
std::random_device::_M_init(const std::string&)
{
  access((uptr)this, sizeof(*this), true, PC);
}
void
std::random_device::_M_fini()
{
  access((uptr)this, sizeof(*this), true, PC);
}
