// pthread primitives, futex, clocks, files: all decided by the simulator.
#include "rt_int.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <poll.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <map>
#include <vector>

using namespace simi;
i64 simi::g_last_mono_read = 0;
u64 simi::g_mono_reads = 0;
using sim::fault; using sim::fault_draw;
#define SIMT (g_running && g_cur && !g_quiet)
#define WEAK_EXPORT __attribute__((visibility("default"), used))

static long raw6(long n, long a, long b, long c, long d, long e, long f)
{
  long ret;
  register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}
static i64 ts_ns(const timespec* t) { return (i64)t->tv_sec * 1000000000ll + t->tv_nsec; }
static i64 to_mono(clockid_t c, i64 abs)
{
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) return abs - (now_wall() - now_mono());
  return abs;
}
static i64 clampdl(i64 d) { return d < 0 ? 0 : d; }

// Mutex state lives in the object: word0 = owner id + 1, word1 = recursion count.
struct SimMutex { u32 owner1; u32 count; u32 rsv[2]; u32 kind; };
static_assert(sizeof(SimMutex) <= sizeof(pthread_mutex_t), "");
static SimMutex* sm(pthread_mutex_t* m) { return reinterpret_cast<SimMutex*>(m); }
static void mutex_check(SimMutex* m, const void* pc)
{
  if (heap_contains(m)) { int s = g_on; mem_access((u64)m, 4, true, true, (u64)pc); (void)s; }
}
static int mutex_lock_impl(pthread_mutex_t* mm, i64 deadline, bool tr)
{
  SimMutex* m = sm(mm);
  sched_point();
  RtGuard g;
  const u32 me = g_cur->id + 1;
  for (;;)
  {
    if (m->owner1 == 0) break;
    if (m->owner1 == me)
    {
      if ((m->kind & 3) == PTHREAD_MUTEX_RECURSIVE) { m->count++; return 0; }
      if (tr) return EBUSY;
      violation("self-deadlock", "thread %d locks a mutex it already holds", g_cur->id);
    }
    if (tr) return EBUSY;
    if (m->owner1 > kMaxThreads) violation("bad-mutex", "lock of a corrupted mutex");
    if (block_on(m, deadline)) return ETIMEDOUT;
  }
  m->owner1 = me; m->count = 1;
  hb_acquire_addr(m);
  return 0;
}
static void mutex_release(SimMutex* m)
{
  hb_release_addr(m);
  m->owner1 = 0; m->count = 0;
  wake_all(m);
}
extern "C" {
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
  int kind = 0; if (a) pthread_mutexattr_gettype(a, &kind);
  memset(m, 0, sizeof *m); sm(m)->kind = (u32)kind; return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
  if (SIMT && sm(m)->owner1) violation("destroy-locked-mutex", "mutex destroyed while locked");
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
  if (!SIMT) return 0;
  mutex_check(sm(m), __builtin_return_address(0));
  return mutex_lock_impl(m, -1, false);
}
int pthread_mutex_trylock(pthread_mutex_t* m) { return SIMT ? mutex_lock_impl(m, -1, true) : 0; }
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t)
{ return SIMT ? mutex_lock_impl(m, clampdl(to_mono(CLOCK_REALTIME, ts_ns(t))), false) : 0; }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t)
{ return SIMT ? mutex_lock_impl(m, clampdl(to_mono(c, ts_ns(t))), false) : 0; }
int pthread_mutex_unlock(pthread_mutex_t* mm)
{
  if (!SIMT) return 0;
  SimMutex* m = sm(mm);
  mutex_check(m, __builtin_return_address(0));
  {
    RtGuard g;
    if (m->owner1 != (u32)g_cur->id + 1)
      violation("bad-unlock", "thread %d unlocks a mutex held by %d", g_cur->id, (int)m->owner1 - 1);
    if (--m->count > 0) return 0;
    mutex_release(m);
  }
  sched_point();
  return 0;
}

// Condition variables.
struct SimCond { u32 magic; u32 seq; };
static const u32 kCondDead = 0xDEADC04D;
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
static void cond_check(pthread_cond_t* c, const void* pc)
{
  if (heap_contains(c)) mem_access((u64)c, 4, true, true, (u64)pc);
  if (reinterpret_cast<SimCond*>(c)->magic == kCondDead)
    violation("use-of-destroyed-cond", "condition variable used after destruction");
}
int pthread_cond_destroy(pthread_cond_t* c)
{
  if (!SIMT) return 0;
  RtGuard g;
  for (int i = 0; i < g_nthreads; i++)
    if (g_threads[i].st == St::BLOCK && g_threads[i].wait_obj == c)
      violation("destroy-waited-cond", "condition variable destroyed while thread %d waits on it", i);
  reinterpret_cast<SimCond*>(c)->magic = kCondDead;
  return 0;
}
static int cond_wait_impl(pthread_cond_t* c, pthread_mutex_t* mm, i64 deadline)
{
  SimMutex* m = sm(mm);
  bool to = false;
  {
    RtGuard g;
    if (m->owner1 != (u32)g_cur->id + 1)
      violation("cond-wait-unlocked", "waiting on a condition variable without holding the mutex");
    const u32 cnt = m->count;
    const bool spurious = fault(sim::F_SPURIOUS);
    mutex_release(m);
    if (spurious)
    {
      // returns without notification, after others had a chance to run
      to = block_on(c, now_mono() + 1 + (i64)fault_draw(sim::F_SPURIOUS, 4000));
      to = false;
    }
    else to = block_on(c, deadline);
    (void)cnt;
  }
  mutex_lock_impl(mm, -1, false);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
  if (!SIMT) return 0;
  cond_check(c, __builtin_return_address(0));
  return cond_wait_impl(c, m, -1);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t)
{
  if (!SIMT) return ETIMEDOUT;
  cond_check(c, __builtin_return_address(0));
  return cond_wait_impl(c, m, clampdl(to_mono(CLOCK_REALTIME, ts_ns(t))));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t)
{
  if (!SIMT) return ETIMEDOUT;
  cond_check(c, __builtin_return_address(0));
  return cond_wait_impl(c, m, clampdl(to_mono(k, ts_ns(t))));
}
int pthread_cond_signal(pthread_cond_t* c)
{
  if (!SIMT) return 0;
  cond_check(c, __builtin_return_address(0));
  sched_point();
  { RtGuard g; cond_check(c, __builtin_return_address(0)); wake_one(c); }
  sched_point();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
  if (!SIMT) return 0;
  cond_check(c, __builtin_return_address(0));
  sched_point();
  { RtGuard g; cond_check(c, __builtin_return_address(0)); wake_all(c); }
  sched_point();
  return 0;
}

// Reader-writer locks: word0 = writer id + 1, word1 = readers.
struct SimRw { u32 writer1; u32 readers; };
int pthread_rwlock_init(pthread_rwlock_t* r, const pthread_rwlockattr_t*) { memset(r, 0, sizeof *r); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }
static int rw_impl(pthread_rwlock_t* rr, bool wr, bool tr, i64 dl)
{
  SimRw* r = reinterpret_cast<SimRw*>(rr);
  sched_point();
  RtGuard g;
  while (r->writer1 || (wr && r->readers))
  {
    if (tr) return EBUSY;
    if (block_on(r, dl)) return ETIMEDOUT;
  }
  if (wr) r->writer1 = g_cur->id + 1; else r->readers++;
  hb_acquire_addr(r);
  if (wr) hb_acquire_addr(reinterpret_cast<char*>(r) + 1);   // readers' releases
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* r) { return SIMT ? rw_impl(r, false, false, -1) : 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* r) { return SIMT ? rw_impl(r, true, false, -1) : 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* r) { return SIMT ? rw_impl(r, false, true, -1) : 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* r) { return SIMT ? rw_impl(r, true, true, -1) : 0; }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* r, const timespec* t)
{ return SIMT ? rw_impl(r, false, false, clampdl(to_mono(CLOCK_REALTIME, ts_ns(t)))) : 0; }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* r, const timespec* t)
{ return SIMT ? rw_impl(r, true, false, clampdl(to_mono(CLOCK_REALTIME, ts_ns(t)))) : 0; }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* r, clockid_t c, const timespec* t)
{ return SIMT ? rw_impl(r, false, false, clampdl(to_mono(c, ts_ns(t)))) : 0; }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* r, clockid_t c, const timespec* t)
{ return SIMT ? rw_impl(r, true, false, clampdl(to_mono(c, ts_ns(t)))) : 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* rr)
{
  if (!SIMT) return 0;
  SimRw* r = reinterpret_cast<SimRw*>(rr);
  {
    RtGuard g;
    if (r->writer1 == (u32)g_cur->id + 1) { r->writer1 = 0; hb_release_addr(r); }
    else if (r->readers) { r->readers--; hb_release_addr(reinterpret_cast<char*>(r) + 1); }
    else violation("bad-unlock", "rwlock unlocked by a thread not holding it");
    wake_all(r);
  }
  sched_point();
  return 0;
}
int pthread_spin_init(pthread_spinlock_t* l, int) { *l = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int pthread_spin_lock(pthread_spinlock_t* l)
{
  if (!SIMT) return 0;
  for (;;)
  {
    sched_point();
    RtGuard g;
    if (*l == 0) { *l = 1; hb_acquire_addr(const_cast<const int*>(l)); return 0; }
    block_on(const_cast<const int*>(l));
  }
}
int pthread_spin_trylock(pthread_spinlock_t* l)
{
  if (!SIMT) return 0;
  sched_point();
  RtGuard g;
  if (*l) return EBUSY;
  *l = 1; hb_acquire_addr(const_cast<const int*>(l)); return 0;
}
int pthread_spin_unlock(pthread_spinlock_t* l)
{
  if (!SIMT) return 0;
  { RtGuard g; hb_release_addr(const_cast<const int*>(l)); *l = 0; wake_all(const_cast<const int*>(l)); }
  sched_point();
  return 0;
}
struct SimBar { u32 need, have, gen; };
int pthread_barrier_init(pthread_barrier_t* b, const pthread_barrierattr_t*, unsigned n)
{ SimBar* s = reinterpret_cast<SimBar*>(b); s->need = n; s->have = 0; s->gen = 0; return 0; }
int pthread_barrier_destroy(pthread_barrier_t*) { return 0; }
int pthread_barrier_wait(pthread_barrier_t* b)
{
  if (!SIMT) return 0;
  SimBar* s = reinterpret_cast<SimBar*>(b);
  sched_point();
  RtGuard g;
  hb_release_addr(s);
  const u32 gen = s->gen;
  if (++s->have == s->need) { s->have = 0; s->gen++; wake_all(s); hb_acquire_addr(s); return PTHREAD_BARRIER_SERIAL_THREAD; }
  while (s->gen == gen) block_on(s);
  hb_acquire_addr(s);
  return 0;
}
int sem_init(sem_t* q, int, unsigned v) { *reinterpret_cast<u32*>(q) = v; return 0; }
int sem_destroy(sem_t*) { return 0; }
static int sem_impl(sem_t* q, bool tr, i64 dl)
{
  u32* s = reinterpret_cast<u32*>(q);
  sched_point();
  RtGuard g;
  while (*s == 0)
  {
    if (tr) { errno = EAGAIN; return -1; }
    if (block_on(s, dl)) { errno = ETIMEDOUT; return -1; }
  }
  --*s; hb_acquire_addr(s); return 0;
}
int sem_wait(sem_t* q) { return SIMT ? sem_impl(q, false, -1) : 0; }
int sem_trywait(sem_t* q) { return SIMT ? sem_impl(q, true, -1) : 0; }
int sem_timedwait(sem_t* q, const timespec* t)
{ return SIMT ? sem_impl(q, false, clampdl(to_mono(CLOCK_REALTIME, ts_ns(t)))) : 0; }
int sem_post(sem_t* q)
{
  if (!SIMT) return 0;
  u32* s = reinterpret_cast<u32*>(q);
  { RtGuard g; hb_release_addr(s); ++*s; wake_all(s); }
  sched_point();
  return 0;
}

// once: word = 0 new, 1 running, 2 done
int pthread_once(pthread_once_t* o, void (*fn)())
{
  if (!SIMT) { if (*o == 0) { *o = 2; fn(); } return 0; }
  sched_point();
  const int on = g_on;
  {
    RtGuard g;
    while (*o == 1) block_on(o);
    if (*o == 2) { hb_acquire_addr(o); return 0; }
    *o = 1;
  }
  struct Reset
  {
    pthread_once_t* o; bool ok = false;
    ~Reset() { RtGuard g; if (ok) { *o = 2; hb_release_addr(o); } else *o = 0; wake_all(o); }
  } r{o};
  g_on = on;
  fn();
  r.ok = true;
  return 0;
}
int __cxa_guard_acquire(u64* gp)
{
  u8* b = reinterpret_cast<u8*>(gp);
  if (b[0]) { if (SIMT) { RtGuard g; hb_acquire_addr(b); } return 0; }
  if (!SIMT) { if (b[0]) return 0; b[1] = 1; return 1; }
  sched_point();
  RtGuard g;
  while (b[1]) { block_on(b); }
  if (b[0]) { hb_acquire_addr(b); return 0; }
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(u64* gp)
{
  u8* b = reinterpret_cast<u8*>(gp);
  b[0] = 1; b[1] = 0;
  if (SIMT) { RtGuard g; hb_release_addr(b); wake_all(b); }
}
void __cxa_guard_abort(u64* gp)
{
  u8* b = reinterpret_cast<u8*>(gp);
  b[1] = 0;
  if (SIMT) { RtGuard g; wake_all(b); }
}

// ---- threads -------------------------------------------------------------------------
static Thread* by_pthread(pthread_t p)
{
  for (int i = 0; i < g_nthreads; i++)
    if (g_threads[i].real == p) return &g_threads[i];
  return nullptr;
}
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
  if (!SIMT)
  {
    static auto real = reinterpret_cast<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>(real_sym("pthread_create"));
    return real(out, at, fn, arg);
  }
  sched_point();
  {
    RtGuard g;
    if (fault(sim::F_THREAD)) return EAGAIN;
    if (g_nthreads > kMaxThreads - 80) { if (!g_second_pass) sh->fired[sim::F_THREAD]++; g_thread_cap_hits++; sim::probe("simulated thread limit reached"); return EAGAIN; }
    Thread* t = thread_new(fn, arg, false);
    if (at)
    {
      int ds = 0;
      pthread_attr_getdetachstate(at, &ds);
      t->detached = ds == PTHREAD_CREATE_DETACHED;
    }
    thread_start_real(t);
    *out = t->real;
  }
  sched_point();
  return 0;
}
int pthread_join(pthread_t p, void** ret)
{
  if (!g_running)
  {
    static auto real = reinterpret_cast<int (*)(pthread_t, void**)>(real_sym("pthread_join"));
    return real(p, ret);
  }
  Thread* t = by_pthread(p);
  if (!t || t->joined || t->detached) { if (t) violation("bad-join", "join of a joined or detached thread"); return ESRCH; }
  sched_point();
  RtGuard g;
  while (t->st != St::DONE) block_on(t);
  hb_acquire_addr(t);
  t->joined = true;
  g_unsynced--;
  if (ret) *ret = t->ret;
  return 0;
}
int pthread_detach(pthread_t p)
{
  if (!g_running)
  {
    static auto real = reinterpret_cast<int (*)(pthread_t)>(real_sym("pthread_detach"));
    return real(p);
  }
  Thread* t = by_pthread(p);
  if (!t) return ESRCH;
  t->detached = true;
  return 0;
}
int __cxa_thread_atexit_impl(void (*fn)(void*), void* obj, void*)
{
  if (!g_running || !g_cur) return 0;   // controller never exits its threads
  Thread* t = g_cur;
  if (t->ndtors >= 64) harness_error("too many thread_local destructors");
  t->dtors[t->ndtors++] = DtorRec{fn, obj};
  return 0;
}
int sched_yield() { if (SIMT) yield_point(); return 0; }
static int sleep_until(i64 dl)
{
  RtGuard g;
  static char sleepers[kMaxThreads];
  if (dl <= now_mono()) { g_on = 0; return 0; }
  block_on(&sleepers[g_cur->id], dl);
  return 0;
}
int nanosleep(const timespec* r, timespec*)
{ if (SIMT) sleep_until(now_mono() + ts_ns(r)); return 0; }
int clock_nanosleep(clockid_t c, int fl, const timespec* r, timespec*)
{
  if (SIMT) sleep_until((fl & TIMER_ABSTIME) ? to_mono(c, ts_ns(r)) : now_mono() + ts_ns(r));
  return 0;
}
int usleep(useconds_t u) { if (SIMT) sleep_until(now_mono() + (i64)u * 1000); return 0; }
unsigned sleep(unsigned s) { if (SIMT) sleep_until(now_mono() + (i64)s * 1000000000ll); return 0; }
int get_nprocs() { return 8; }
int get_nprocs_conf() { return 8; }

long syscall(long n, ...)
{
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && SIMT)
  {
    const int op = (int)b & FUTEX_CMD_MASK;
    int* addr = reinterpret_cast<int*>(a);
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
    {
      sched_point();
      RtGuard g;
      if (*addr != (int)c) { errno = EAGAIN; return -1; }
      i64 dl = -1;
      if (d)
      {
        const i64 t = ts_ns(reinterpret_cast<timespec*>(d));
        if (op == FUTEX_WAIT) dl = now_mono() + t;
        else dl = to_mono((b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, t);
        dl = clampdl(dl);
      }
      if (fault(sim::F_SPURIOUS))
      {
        block_on(addr, now_mono() + 1 + (i64)fault_draw(sim::F_SPURIOUS, 4000));
        errno = EINTR; return -1;
      }
      if (block_on(addr, dl)) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
    {
      int k;
      { RtGuard g; k = wake_n(addr, (int)c); }
      sched_point();
      return k;
    }
  }
  const long r = raw6(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

// ---- clocks ------------------------------------------------------------------------------
static void clock_faults()
{
  if (fault(sim::F_TIMEJUMP))
  {
    static const i64 u[] = {1000, 1000000, 50000000, 1000000000, 30000000000ll};
    const u64 v = fault_draw(sim::F_TIMEJUMP, 500);
    advance(u[v % 5] * (i64)(1 + v / 5));
    g_wall_off -= 0;
  }
  if (fault(sim::F_WALLJUMP))
  {
    static const i64 u[] = {-1000000000ll, 1000000000ll, -3600000000000ll, 86400000000000ll, -400000000000000ll};
    g_wall_off += u[fault_draw(sim::F_WALLJUMP, 5)];
  }
}
int clock_gettime(clockid_t c, timespec* t)
{
  if (!g_running || !g_cur)
  {
    return (int)raw6(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0);
  }
  if (g_on) { sched_point(); RtGuard g; clock_faults(); }
  i64 v;
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) v = now_wall();
  else if (c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) v = (i64)g_steps * 20;  // stalls use no CPU
  else { v = now_mono(); g_last_mono_read = v; g_mono_reads++; }
  t->tv_sec = v / 1000000000ll; t->tv_nsec = v % 1000000000ll;
  return 0;
}
int gettimeofday(timeval* tv, void*)
{
  timespec t; clock_gettime(CLOCK_REALTIME, &t);
  tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0;
}
time_t time(time_t* o)
{
  timespec t; clock_gettime(CLOCK_REALTIME, &t);
  if (o) *o = t.tv_sec;
  return t.tv_sec;
}
clock_t clock() { return g_running ? (clock_t)(g_steps / 50) : 0; }
void __assert_fail(const char* ex, const char* file, unsigned line, const char* fn)
{
  if (!g_running) { fprintf(stderr, "assert %s %s:%u %s\n", ex, file, line, fn); abort(); }
  const char* b = strrchr(file, '/');
  violation_pc("assert", (u64)__builtin_return_address(0), 0, "assertion failed at %s: %s", b ? b + 1 : file, ex);
}
}

// ---- simulated disk ----------------------------------------------------------------------
namespace
{
struct WriteRec { size_t off, len; };
struct Inode
{
  std::vector<u8> live, durable;
  std::vector<WriteRec> dirty;   // writes not yet durable, in order
  bool exists_durable = false;
  bool meta_dirty = false;       // size/creation not durable
};
struct OpenFile { bool used = false; std::string path; size_t pos = 0; bool append = false, rd = false, wr = false; bool failed = false; };
struct DiskState
{
  std::map<std::string, Inode> files;
  OpenFile of[64];
  size_t capacity = ~0ull;
  bool dead = false, full = false;
};
DiskState* D = nullptr;
DiskState* disk() { if (!D) D = new DiskState(); return D; }
constexpr int kFdBase = 5000;
bool is_sim_path(const char* p) { return p && g_running && !strncmp(p, "/simdisk/", 9); }
OpenFile* of_of(int fd)
{
  if (fd < kFdBase || fd >= kFdBase + 64 || !D) return nullptr;
  OpenFile* f = &D->of[fd - kFdBase];
  return f->used ? f : nullptr;
}
int sim_open(const char* path, int flags)
{
  RtGuard g;
  DiskState* d = disk();
  auto it = d->files.find(path);
  const bool wr = (flags & O_ACCMODE) != O_RDONLY;
  if (d->dead) { errno = EIO; return -1; }
  if (fault(sim::F_OPEN))
  {
    static const int e[] = {EMFILE, EACCES, ENOSPC, EIO, ENFILE};
    errno = (wr && it == d->files.end()) ? e[fault_draw(sim::F_OPEN, 5)] : EACCES;
    return -1;
  }
  if (it == d->files.end())
  {
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    it = d->files.emplace(path, Inode()).first;
    it->second.meta_dirty = true;
  }
  else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  if ((flags & O_TRUNC) && wr)
  {
    it->second.live.clear();
    it->second.dirty.clear();
    it->second.meta_dirty = true;
  }
  for (int i = 0; i < 64; i++)
    if (!d->of[i].used)
    {
      OpenFile& f = d->of[i];
      f = OpenFile(); f.used = true; f.path = path;
      f.append = flags & O_APPEND; f.wr = wr; f.rd = (flags & O_ACCMODE) != O_WRONLY;
      sim::event("open", i, flags & O_ACCMODE);
      return kFdBase + i;
    }
  errno = EMFILE;
  return -1;
}
ssize_t sim_write(OpenFile* f, const void* buf, size_t n)
{
  RtGuard g;
  if (!f->wr) { errno = EBADF; return -1; }
  if (disk()->dead) return (ssize_t)n;      // what the program does now has no effect
  const size_t asked = n;
  if (n && fault(sim::F_CRASH))
  {
    disk()->dead = true; n = fault_draw(sim::F_CRASH, n + 1);
    Inode& in = disk()->files[f->path];
    if (f->append) f->pos = in.live.size();
    if (n)
    {
      if (f->pos + n > in.live.size()) in.live.resize(f->pos + n);
      memcpy(in.live.data() + f->pos, buf, n);
      in.dirty.push_back(WriteRec{f->pos, n});
    }
    sim::event("died", (i64)n);
    return (ssize_t)asked;
  }
  if (n && fault(sim::F_EINTR)) { errno = EINTR; return -1; }
  if (fault(sim::F_WRITEERR))
  {
    errno = fault_draw(sim::F_WRITEERR, 2) ? ENOSPC : EIO;
    return -1;
  }
  if (n > 1 && fault(sim::F_SHORTWRITE)) n = 1 + fault_draw(sim::F_SHORTWRITE, n - 1);
  Inode& in = disk()->files[f->path];
  if (f->append) f->pos = in.live.size();
  size_t used = 0;
  for (auto& x : disk()->files) used += x.second.live.size();
  if (f->pos + n > in.live.size())
  {
    const size_t grow = f->pos + n - in.live.size();
    if (used + grow > disk()->capacity)
    {
      const size_t room = disk()->capacity > used ? disk()->capacity - used : 0;
      disk()->full = true;
      if (room == 0) { errno = ENOSPC; return -1; }
      n -= grow - room;
      if ((ssize_t)n <= 0) { errno = ENOSPC; return -1; }
    }
  }
  if (f->pos + n > in.live.size()) in.live.resize(f->pos + n);
  memcpy(in.live.data() + f->pos, buf, n);
  in.dirty.push_back(WriteRec{f->pos, n});
  f->pos += n;
  sim::event("write", (i64)n, (i64)f->pos);
  return (ssize_t)n;
}
ssize_t sim_read(OpenFile* f, void* buf, size_t n)
{
  RtGuard g;
  if (!f->rd) { errno = EBADF; return -1; }
  if (n && fault(sim::F_EINTR)) { errno = EINTR; return -1; }
  if (fault(sim::F_READERR)) { errno = EIO; return -1; }
  Inode& in = disk()->files[f->path];
  const size_t have = f->pos < in.live.size() ? in.live.size() - f->pos : 0;
  if (n > have) n = have;
  if (n > 1 && fault(sim::F_SHORTREAD)) n = 1 + fault_draw(sim::F_SHORTREAD, n - 1);
  memcpy(buf, in.live.data() + f->pos, n);
  f->pos += n;
  sim::event("read", (i64)n, (i64)f->pos);
  return (ssize_t)n;
}
off64_t sim_seek(OpenFile* f, off64_t o, int wh)
{
  Inode& in = disk()->files[f->path];
  off64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off64_t)f->pos : (off64_t)in.live.size();
  if (b + o < 0) { errno = EINVAL; return -1; }
  f->pos = (size_t)(b + o);
  return (off64_t)f->pos;
}
void sync_inode(Inode& in)
{ in.durable = in.live; in.dirty.clear(); in.exists_durable = true; in.meta_dirty = false; }
int sim_close(OpenFile* f)
{
  RtGuard g;
  f->used = false;
  sim::event("close");
  if (f->wr && fault(sim::F_CLOSEERR)) { errno = EIO; return -1; }
  return 0;
}
void fill_stat(struct stat* st, const Inode& in)
{
  memset(st, 0, sizeof *st);
  st->st_mode = S_IFREG | 0644; st->st_size = (off_t)in.live.size(); st->st_blksize = 4096; st->st_nlink = 1;
}
struct Stream { int fd; FILE* fp; };
Stream g_streams[64];
ssize_t ck_read(void* c, char* b, size_t n) { OpenFile* f = of_of((int)(long)c); return f ? sim_read(f, b, n) : -1; }
ssize_t ck_write(void* c, const char* b, size_t n)
{ OpenFile* f = of_of((int)(long)c); if (!f) return 0; const ssize_t r = sim_write(f, b, n); return r < 0 ? 0 : r; }
int ck_seek(void* c, off64_t* o, int w)
{ OpenFile* f = of_of((int)(long)c); if (!f) return -1; const off64_t r = sim_seek(f, *o, w); if (r < 0) return -1; *o = r; return 0; }
int ck_close(void* c) { OpenFile* f = of_of((int)(long)c); return f ? sim_close(f) : -1; }
template <typename F> F rsym(const char* n) { return reinterpret_cast<F>(real_sym(n)); }
}  // namespace
namespace simi { void disk_reset() { delete D; D = nullptr; } }
namespace sim
{
void Disk::reset() { Quiet q; disk_reset(); }
bool Disk::exists(const std::string& p) { Quiet q; return disk()->files.count(p) > 0; }
std::vector<uint8_t> Disk::live(const std::string& p)
{ Quiet q; auto it = disk()->files.find(p); return it == disk()->files.end() ? std::vector<uint8_t>() : it->second.live; }
void Disk::put(const std::string& p, const std::vector<uint8_t>& d)
{ Quiet q; Inode& in = disk()->files[p]; in.live = d; sync_inode(in); }
void Disk::remove(const std::string& p) { Quiet q; disk()->files.erase(p); }
void Disk::sync_all() { Quiet q; for (auto& x : disk()->files) sync_inode(x.second); }
size_t Disk::open_handles() { size_t n = 0; if (D) for (auto& f : D->of) n += f.used; return n; }
void Disk::set_capacity(uint64_t c) { disk()->capacity = c; }
bool Disk::dead() { return D && D->dead; }
bool Disk::full() { return D && D->full; }
void Disk::crash()
{
  disk()->dead = false;
  // every unsynced sector of every unsynced write independently survives,
  // is lost, or is zero (allocated but never written); creation and size may
  // be lost as well.
  std::vector<std::string> paths;
  { Quiet q; for (auto& x : disk()->files) paths.push_back(x.first); }
  for (auto& p : paths)
  {
    Inode* in; { Quiet q; in = &disk()->files[p]; }
    if (in->dirty.empty() && !in->meta_dirty) { Quiet q; in->live = in->durable; continue; }
    const uint64_t mode = draw(6);
    Quiet q;
    std::vector<uint8_t> img = in->durable;
    const size_t full = in->live.size();
    bool torn = false;
    if (mode == 0) { if (!in->exists_durable) { disk()->files.erase(p); } else in->live = in->durable; probe("crash: all unsynced writes lost"); continue; }
    if (mode == 1) { in->durable = in->live; in->dirty.clear(); in->exists_durable = true; probe("crash: all unsynced writes survived"); continue; }
    if (mode == 2) { img.assign(in->live.begin(), in->live.begin() + (long)(draw(full + 1))); torn = true; }
    else if (mode == 3) { img.assign(full, 0); torn = true; probe("crash: size survived, data zero"); }
    else
    {
      const size_t sect = size_t(1) << (4 + draw(6));
      img = in->durable; img.resize(full, 0);
      for (size_t o = 0; o < full; o += sect)
        if (draw(3) != 0)
          for (size_t k = o; k < o + sect && k < full; k++) img[k] = in->live[k];
        else torn = true;
      if (mode == 5 && full) img.resize(draw(full + 1));
      probe("crash: sectors torn");
    }
    (void)torn;
    in->live = img; sync_inode(*in);
  }
  for (auto& f : disk()->of) f.used = false;
}
}  // namespace sim

extern "C" {
FILE* fopen64(const char* path, const char* mode);
FILE* fopen(const char* path, const char* mode)
{
  if (!is_sim_path(path))
  { static auto real = rsym<FILE* (*)(const char*, const char*)>("fopen"); return real(path, mode); }
  int fl = 0; const bool plus = strchr(mode, '+');
  if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
  else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
  else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
  RtGuard g;
  const int fd = sim_open(path, fl);
  if (fd < 0) return nullptr;
  cookie_io_functions_t io{ck_read, ck_write, ck_seek, ck_close};
  FILE* fp = fopencookie(reinterpret_cast<void*>((long)fd), mode, io);
  for (auto& s : g_streams) if (!s.fp) { s.fp = fp; s.fd = fd; break; }
  return fp;
}
FILE* fopen64(const char* path, const char* mode) { return fopen(path, mode); }
int fileno(FILE* fp)
{
  for (auto& s : g_streams) if (s.fp && s.fp == fp) return s.fd;
  static auto real = rsym<int (*)(FILE*)>("fileno"); return real(fp);
}
int fclose(FILE* fp)
{
  static auto real = rsym<int (*)(FILE*)>("fclose");
  for (auto& s : g_streams) if (s.fp && s.fp == fp) { s.fp = nullptr; break; }
  return real(fp);
}
static int open_common(const char* p, int fl, mode_t m)
{
  if (is_sim_path(p)) return sim_open(p, fl);
  const long r = raw6(SYS_openat, AT_FDCWD, (long)p, fl, m, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return (int)r;
}
int open(const char* p, int fl, ...)
{ va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, int); va_end(ap); return open_common(p, fl, m); }
int open64(const char* p, int fl, ...)
{ va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, int); va_end(ap); return open_common(p, fl, m); }
int creat(const char* p, mode_t m) { return open_common(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t write(int fd, const void* b, size_t n)
{
  if (OpenFile* f = of_of(fd)) return sim_write(f, b, n);
  const long r = raw6(SYS_write, fd, (long)b, (long)n, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return r;
}
ssize_t writev(int fd, const iovec* v, int c)
{
  if (OpenFile* f = of_of(fd))
  {
    ssize_t tot = 0;
    for (int i = 0; i < c; i++)
    {
      if (!v[i].iov_len) continue;
      const ssize_t r = sim_write(f, v[i].iov_base, v[i].iov_len);
      if (r < 0) return tot ? tot : -1;
      tot += r;
      if ((size_t)r < v[i].iov_len) break;
    }
    return tot;
  }
  const long r = raw6(SYS_writev, fd, (long)v, c, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return r;
}
ssize_t read(int fd, void* b, size_t n)
{
  if (OpenFile* f = of_of(fd)) return sim_read(f, b, n);
  const long r = raw6(SYS_read, fd, (long)b, (long)n, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return r;
}
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
ssize_t pread(int fd, void* b, size_t n, off_t o)
{
  if (OpenFile* f = of_of(fd)) { const size_t s = f->pos; f->pos = (size_t)o; const ssize_t r = sim_read(f, b, n); f->pos = s; return r; }
  const long r = raw6(SYS_pread64, fd, (long)b, (long)n, o, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return r;
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o)
{
  if (OpenFile* f = of_of(fd)) { const size_t s = f->pos; f->pos = (size_t)o; const ssize_t r = sim_write(f, b, n); f->pos = s; return r; }
  const long r = raw6(SYS_pwrite64, fd, (long)b, (long)n, o, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return r;
}
off_t lseek(int fd, off_t o, int w)
{
  if (OpenFile* f = of_of(fd)) return sim_seek(f, o, w);
  const long r = raw6(SYS_lseek, fd, o, w, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return r;
}
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int close(int fd)
{
  if (OpenFile* f = of_of(fd)) return sim_close(f);
  const long r = raw6(SYS_close, fd, 0, 0, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return 0;
}
int fsync(int fd)
{
  if (OpenFile* f = of_of(fd))
  {
    RtGuard g;
    if (fault(sim::F_WRITEERR)) { errno = EIO; return -1; }
    sync_inode(disk()->files[f->path]); return 0;
  }
  return 0;
}
int fdatasync(int fd) { return fsync(fd); }
int ftruncate(int fd, off_t n)
{
  if (OpenFile* f = of_of(fd)) { RtGuard g; Inode& in = disk()->files[f->path]; in.live.resize((size_t)n); in.meta_dirty = true; return 0; }
  const long r = raw6(SYS_ftruncate, fd, n, 0, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return 0;
}
int fstat(int fd, struct stat* st)
{
  if (OpenFile* f = of_of(fd)) { RtGuard g; fill_stat(st, disk()->files[f->path]); return 0; }
  const long r = raw6(SYS_fstat, fd, (long)st, 0, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return 0;
}
int fstat64(int fd, struct stat64* st) { return fstat(fd, reinterpret_cast<struct stat*>(st)); }
int stat(const char* p, struct stat* st)
{
  if (is_sim_path(p))
  {
    RtGuard g;
    auto it = disk()->files.find(p);
    if (it == disk()->files.end())
    { if (!strcmp(p, "/simdisk/")) { memset(st, 0, sizeof *st); st->st_mode = S_IFDIR | 0755; return 0; } errno = ENOENT; return -1; }
    fill_stat(st, it->second); return 0;
  }
  const long r = raw6(SYS_newfstatat, AT_FDCWD, (long)p, (long)st, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return 0;
}
int lstat(const char* p, struct stat* st)
{
  if (is_sim_path(p)) return stat(p, st);
  const long r = raw6(SYS_newfstatat, AT_FDCWD, (long)p, (long)st, AT_SYMLINK_NOFOLLOW, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return 0;
}
int access(const char* p, int m)
{
  if (is_sim_path(p)) { RtGuard g; if (disk()->files.count(p)) return 0; errno = ENOENT; return -1; }
  const long r = raw6(SYS_faccessat, AT_FDCWD, (long)p, m, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return 0;
}
int rename(const char* a, const char* b)
{
  if (is_sim_path(a) && is_sim_path(b))
  {
    RtGuard g;
    auto it = disk()->files.find(a);
    if (it == disk()->files.end()) { errno = ENOENT; return -1; }
    Inode in = it->second; disk()->files.erase(it); disk()->files[b] = in;
    return 0;
  }
  const long r = raw6(SYS_rename, (long)a, (long)b, 0, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return 0;
}
int unlink(const char* p)
{
  if (is_sim_path(p)) { RtGuard g; if (!disk()->files.erase(p)) { errno = ENOENT; return -1; } return 0; }
  const long r = raw6(SYS_unlink, (long)p, 0, 0, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return 0;
}
int remove(const char* p) { return unlink(p); }
int ioctl(int fd, unsigned long req, ...)
{
  va_list ap; va_start(ap, req); void* a = va_arg(ap, void*); va_end(ap);
  if (of_of(fd)) { errno = ENOTTY; return -1; }
  const long r = raw6(SYS_ioctl, fd, (long)req, (long)a, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return (int)r;
}
int poll(struct pollfd* p, nfds_t n, int t)
{
  if (n == 1 && of_of(p->fd)) { p->revents = p->events; return 1; }
  const long r = raw6(SYS_poll, (long)p, (long)n, t, 0, 0, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return (int)r;
}
}
