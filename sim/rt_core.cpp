// Scheduler, tapes, happens-before tracking, simulated heap, __tsan_* entry points.
#include "rt_int.hpp"
#include <errno.h>
#include <exception>
#include <new>
#include <typeinfo>
#include <cxxabi.h>
#include <dlfcn.h>
#include <limits.h>
#include <link.h>
#include <linux/futex.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);
extern "C" char __executable_start, etext, edata, end;

namespace sim
{
const char* const kFaultNames[F_COUNT] = {
  "alloc_failure", "thread_create_failure", "spurious_wakeup", "thread_stall",
  "monotonic_clock_leap", "wall_clock_jump", "callback_throws",
  "small_omp_team", "open_error", "short_write", "write_error", "read_error",
  "short_read", "eintr", "close_error", "crash", "torn_or_lost_write",
  "stored_byte_corruption", "unexpected_environment_reaction", "slow_callback"};
}

namespace simi
{
Thread g_threads[kMaxThreads];
u64 g_thread_cap_hits = 0;
int g_nthreads = 0;
Thread* g_cur = nullptr;
int g_on = 0, g_quiet = 0;
bool g_running = false;
u64 g_steps = 0;
int g_unsynced = 0;
u32 g_allowed = 0;
Shared* sh = nullptr;
RunCfg g_cfg;
u64* rW; u32 rnW; SEnt* rS; u32 rnS; FEnt* rF; u32 rnF;

static u64 g_next = ~0ull, g_strat_next = ~0ull, g_fair_base = 0;
static constexpr u64 kFair = 8000;
static u64 g_wait_seq = 0;
static i64 g_adv = 0;
i64 g_wall_off = 0;
static bool g_draining = false;
static u64 g_drain_limit = 0;
bool g_second_pass = false;
int g_throw_kind = 0;
static u64 g_hash = 0;
static Rng r_sched, r_work, r_fault;
static u32 r_wpos = 0;

static inline long raw_futex(int* uaddr, int op, int val)
{
  long ret;
  register long r10 __asm__("r10") = 0;
  __asm__ volatile("syscall" : "=a"(ret)
      : "a"(SYS_futex), "D"(uaddr), "S"(op), "d"(val), "r"(r10)
      : "rcx", "r11", "memory");
  return ret;
}
static inline long raw_syscall3(long n, long a, long b, long c)
{
  long ret;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c)
      : "rcx", "r11", "memory");
  return ret;
}
static void park(Thread* t)
{
  while (__atomic_load_n(&t->go, __ATOMIC_ACQUIRE) == 0)
    raw_futex(&t->go, FUTEX_WAIT_PRIVATE, 0);
  __atomic_store_n(&t->go, 0, __ATOMIC_RELAXED);
}
static void unpark(Thread* t)
{
  __atomic_store_n(&t->go, 1, __ATOMIC_RELEASE);
  raw_futex(&t->go, FUTEX_WAKE_PRIVATE, 1);
}

static inline u64 mixh(u64 h, u64 v)
{
  h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
  h *= 0xD6E8FEB86659FD93ull;
  return h ^ (h >> 32);
}

void trace(const char* fmt, ...)
{
  if (!g_cfg.trace || g_second_pass) return;
  char b[600];
  int n = snprintf(b, sizeof b, "[%llu t%d] ", (unsigned long long)g_steps,
                   g_cur ? g_cur->id : -1);
  va_list ap; va_start(ap, fmt);
  n += vsnprintf(b + n, sizeof b - n - 2, fmt, ap);
  va_end(ap);
  if (n > (int)sizeof b - 2) n = sizeof b - 2;
  b[n++] = '\n';
  raw_syscall3(SYS_write, 1, (long)b, n);
}

// ---- clock -------------------------------------------------------------------------
i64 now_mono() { return 1000000000000ll + (i64)g_steps * 20 + g_adv; }
i64 now_wall() { return 1700000000000000000ll + (i64)g_steps * 20 + g_adv + g_wall_off; }
void advance(i64 ns) { g_adv += ns; }

// ---- results ---------------------------------------------------------------------------
static void fill_result()
{
  sh->hash = g_hash; sh->steps = g_steps;
  sh->sim_ns = (i64)g_steps * 20 + g_adv;
  sh->threads = g_nthreads;
}
static void vviol(const char* cls, u64 a, u64 b, const char* fmt, va_list ap)
{
  g_on = 0;
  snprintf(sh->cls, sizeof sh->cls, "%s", cls);
  vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
  sh->npc = 0;
  if (a) sh->pc[sh->npc++] = a;
  if (b) sh->pc[sh->npc++] = b;
  for (const char* p = cls; *p; p++) g_hash = mixh(g_hash, (u8)*p);
  fill_result();
  trace("VIOLATION %s: %s", sh->cls, sh->msg);
  sh->status = 2;
  raw_syscall3(SYS_exit_group, 3, 0, 0);
  __builtin_unreachable();
}
void violation(const char* cls, const char* fmt, ...)
{ va_list ap; va_start(ap, fmt); vviol(cls, 0, 0, fmt, ap); __builtin_unreachable(); }
void violation_pc(const char* cls, u64 a, u64 b, const char* fmt, ...)
{ va_list ap; va_start(ap, fmt); vviol(cls, a, b, fmt, ap); __builtin_unreachable(); }
void harness_error(const char* fmt, ...)
{
  g_on = 0;
  va_list ap; va_start(ap, fmt);
  snprintf(sh->cls, sizeof sh->cls, "harness-error");
  vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
  va_end(ap);
  fill_result();
  sh->status = 3;
  raw_syscall3(SYS_exit_group, 4, 0, 0);
  __builtin_unreachable();
}

// ---- strategies ---------------------------------------------------------------------------
struct Strat
{
  int kind = 0;            // 0 NP, 1 RW, 2 PCT, 3 stall + RW, 4 round robin
  u64 mean = 1000;         // accesses between preemption decisions
  u32 psync = 0;           // /16 chance to decide at a sync point
  u64 cp[8]; int ncp = 0;  // PCT change points
  int victim = -1; u64 st_from = 0, st_to = 0; bool st_hit = false;
  u64 low = 1000000;
  u64 starve = 20000;      // a runnable thread is never left out for longer
} g_strat;

static void strat_setup()
{
  Strat& s = g_strat; s = Strat();
  static const u64 means[] = {3, 8, 20, 60, 200, 800, 3000, 20000};
  s.starve = 4000ull << r_sched.below(5);
  const u64 k = r_sched.below(100);
  s.psync = (u32)r_sched.below(17);
  s.mean = means[r_sched.below(8)];
  if (k < 15) { s.kind = 0; s.mean = ~0ull >> 8; }
  else if (k < 50) s.kind = 1;
  else if (k < 75)
  {
    s.kind = 2;
    s.ncp = (int)r_sched.below(5);
    const u64 len = 1ull << (6 + r_sched.below(12));
    for (int i = 0; i < s.ncp; i++) s.cp[i] = 1 + r_sched.below(len);
  }
  else if (k < 92)
  {
    s.kind = 3;
    s.victim = (int)r_sched.below(6);
    s.st_from = r_sched.below(1ull << (4 + r_sched.below(12)));
    s.st_to = s.st_from + (1ull << (6 + r_sched.below(13)));
    if (r_sched.below(3) == 0) s.st_to = ~0ull;   // until the starvation guard
  }
  else { s.kind = 4; }
  static const char* nm[] = {"nonpreemptive", "random-walk", "pct", "stall", "round-robin"};
  snprintf(sh->sched, sizeof sh->sched, "%s mean=%llu psync=%u", nm[s.kind],
           (unsigned long long)s.mean, s.psync);
}
static u64 strat_gap()
{
  Strat& s = g_strat;
  if (s.kind == 0) return ~0ull >> 4;
  if (s.kind == 2)
  {
    u64 best = ~0ull >> 4;
    for (int i = 0; i < s.ncp; i++)
      if (s.cp[i] > g_steps && s.cp[i] - g_steps < best) best = s.cp[i] - g_steps;
    return best;
  }
  return 1 + r_sched.below(2 * s.mean);
}

static int g_run_list[kMaxThreads];
static int g_nrun = 0;
static void promote_timed()
{
  const i64 now = now_mono();
  for (int i = 0; i < g_nthreads; i++)
  {
    Thread& t = g_threads[i];
    if (t.st == St::BLOCK && t.timed && t.deadline <= now)
    { t.st = St::RUN; t.timed_out = true; t.timed = false; t.wait_obj = nullptr; t.ready_at = g_steps; }
  }
}
static void collect()
{
  promote_timed();
  g_nrun = 0;
  for (int i = 0; i < g_nthreads; i++)
    if (g_threads[i].st == St::RUN) g_run_list[g_nrun++] = i;
}
static bool is_runnable(int id)
{ return id >= 0 && id < g_nthreads && g_threads[id].st == St::RUN; }
static int next_cyclic(int after)
{
  for (int i = 0; i < g_nrun; i++) if (g_run_list[i] > after) return g_run_list[i];
  return g_run_list[0];
}
// Strategy's pick among g_run_list. forced: current cannot continue.
static int strat_pick(int cur, bool forced, bool at_point)
{
  Strat& s = g_strat;
  switch (s.kind)
  {
    case 0:
      return forced ? g_run_list[r_sched.below(g_nrun)] : cur;
    case 2:
    {
      if (at_point && !forced)
        for (int i = 0; i < s.ncp; i++)
          if (s.cp[i] == g_steps) g_threads[cur].prio = --s.low;
      int b = g_run_list[0];
      for (int i = 1; i < g_nrun; i++)
        if (g_threads[g_run_list[i]].prio > g_threads[b].prio) b = g_run_list[i];
      return b;
    }
    case 3:
    {
      if (g_steps >= s.st_from && g_steps < s.st_to && g_nrun > 1)
      {
        int n = 0; int l[kMaxThreads];
        for (int i = 0; i < g_nrun; i++)
          if (g_run_list[i] != s.victim) l[n++] = g_run_list[i];
        if (n && n < g_nrun)
        {
          if (!s.st_hit) { s.st_hit = true; sh->fired[sim::F_STALL]++; }
          return l[r_sched.below(n)];
        }
      }
      return g_run_list[r_sched.below(g_nrun)];
    }
    case 4:
      return next_cyclic(cur);
    default:
      return g_run_list[r_sched.below(g_nrun)];
  }
}
// Fairness: a runnable thread is picked after at most `starve` steps.
static int starving(int cur)
{
  for (int i = 0; i < g_nrun; i++)
  {
    const int id = g_run_list[i];
    if (id != cur && g_steps - g_threads[id].ready_at > g_strat.starve)
    {
      if (g_strat.kind == 2) { g_threads[cur].prio = --g_strat.low; g_threads[id].prio = 3000000 + g_steps; }
      if (g_strat.kind == 3 && id == g_strat.victim) g_strat.victim = -1;
      return id;
    }
  }
  return -1;
}
static u64 lstep_now(Thread* t) { return t->lstep + (g_steps - t->resumed_at); }

static SEnt* replay_entry(Thread* t)
{
  // entries of rS are sorted per thread by lstep (stable)
  const u64 ls = lstep_now(t);
  while (t->s_cursor < rnS)
  {
    SEnt& e = rS[t->s_cursor];
    if (e.from != t->id || e.lstep < ls) { t->s_cursor++; continue; }
    return &e;
  }
  return nullptr;
}
static void rearm()
{
  u64 n = g_cfg.step_limit;
  if (g_fair_base + kFair < n) n = g_fair_base + kFair;
  if (g_draining && g_drain_limit < n) n = g_drain_limit;
  if (!g_cfg.replay) { if (g_strat_next < n) n = g_strat_next; }
  else
  {
    SEnt* e = replay_entry(g_cur);
    while (e && e->lstep <= lstep_now(g_cur)) { g_cur->s_cursor++; e = replay_entry(g_cur); }
    if (e)
    {
      const u64 at = g_steps + (e->lstep - lstep_now(g_cur));
      if (at < n) n = at;
    }
  }
  g_next = n;
}
static void wake_rearm()    // the set of runnable threads grew
{
  if (!g_cfg.replay && g_strat_next == ~0ull)
  {
    g_strat_next = g_steps + strat_gap();
    if (g_strat_next < g_next) g_next = g_strat_next;
  }
}
static void record_switch(Thread* self, int to)
{
  if (g_second_pass || g_cfg.replay) return;
  if (sh->nS < kMaxS)
  {
    SEnt& e = sh->S[sh->nS];
    e.from = (u16)self->id; e.to = (u16)to; e.pad = 0; e.lstep = lstep_now(self);
    sh->nS++;
  }
}
static void switch_to(Thread* self, int to, bool final)
{
  if (self->id == to) return;
  sh->switches++; trace("switch to t%d", to);
  g_hash = mixh(g_hash, (u64)to * 1000003 + lstep_now(self));
  self->lstep = lstep_now(self);
  self->ready_at = g_steps;
  Thread* n = &g_threads[to];
  n->resumed_at = g_steps;
  g_cur = n;
  g_fair_base = g_steps;
  rearm();
  unpark(n);
  if (!final) park(self);
}
static void check_limits()
{
  if (g_draining && g_steps >= g_drain_limit)
  {
    // give up waiting for stragglers
    g_threads[0].st = St::RUN;
  }
  if (g_steps >= g_cfg.step_limit)
    violation("hang", "no completion within %llu steps (step limit)",
              (unsigned long long)g_cfg.step_limit);
}
// Decision at a point where the current thread can continue.
static void decide(bool sync, bool prefer_switch)
{
  Thread* self = g_cur;
  if (g_steps >= g_cfg.step_limit) check_limits();
  if (g_draining && g_steps >= g_drain_limit) check_limits();
  collect();
  const bool fair_hit = g_steps >= g_fair_base + kFair;
  if (g_nrun <= 1)
  {
    g_strat_next = ~0ull;
    if (fair_hit) g_fair_base = g_steps;
    rearm();
    return;
  }
  const int def = (fair_hit || prefer_switch) ? next_cyclic(self->id) : self->id;
  int to = def;
  if (g_cfg.replay)
  {
    SEnt* e = replay_entry(self);
    if (e && e->lstep == lstep_now(self))
    {
      self->s_cursor++;
      if (is_runnable(e->to)) to = e->to;
    }
  }
  else
  {
    const bool strat_hit = g_steps >= g_strat_next;
    if (strat_hit || sync)
    {
      to = strat_pick(self->id, false, strat_hit);
      if (to == self->id && (fair_hit || prefer_switch)) to = def;
      if (strat_hit) g_strat_next = g_steps + strat_gap();
    }
    if (fair_hit && g_strat.kind == 2) self->prio = --g_strat.low;
    const int sv = starving(self->id);
    if (sv >= 0) to = sv;
    if (to != def) record_switch(self, to);
  }
  if (fair_hit) g_fair_base = g_steps;
  if (to == self->id) { rearm(); return; }
  switch_to(self, to, false);
}
static void expired()
{
  RtGuard g;
  decide(false, false);
}
void sched_point()
{
  if (!g_running || g_quiet || !g_cur) return;
  RtGuard g;
  ++g_steps;
  if (g_steps >= g_next) { decide(false, false); return; }
  if (!g_cfg.replay)
  {
    const Strat& s = g_strat;
    if (s.kind == 2 || s.kind == 4) decide(true, false);
    else if (s.kind != 0 && r_sched.below(16) < s.psync) decide(true, false);
  }
}
void yield_point()
{
  if (!g_running || g_quiet || !g_cur) return;
  RtGuard g;
  ++g_steps;
  decide(true, true);
}
static void sched_away(Thread* self, bool final)
{
  for (;;)
  {
    collect();
    if (g_nrun) break;
    if (g_draining) { g_threads[0].st = St::RUN; continue; }
    i64 best = LLONG_MAX;
    for (int i = 0; i < g_nthreads; i++)
      if (g_threads[i].st == St::BLOCK && g_threads[i].timed && g_threads[i].deadline < best)
        best = g_threads[i].deadline;
    if (best == LLONG_MAX)
    {
      char b[400]; int n = 0;
      for (int i = 0; i < g_nthreads && n < 350; i++)
        if (g_threads[i].st == St::BLOCK && !g_threads[i].omp_worker)
          n += snprintf(b + n, sizeof b - n, " t%d", i);
      violation("deadlock", "no thread can make progress; blocked:%s", b);
    }
    if (best > now_mono()) g_adv += best - now_mono();
  }
  if (g_steps >= g_cfg.step_limit || (g_draining && g_steps >= g_drain_limit))
  { check_limits(); collect(); }
  const int def = next_cyclic(self->id);
  int to = def;
  if (g_cfg.replay)
  {
    SEnt* e = replay_entry(self);
    if (e && e->lstep == lstep_now(self))
    { self->s_cursor++; if (is_runnable(e->to)) to = e->to; }
  }
  else
  {
    to = strat_pick(self->id, true, false);
    const int sv = starving(self->id);
    if (sv >= 0) to = sv;
    if (to != def) record_switch(self, to);
  }
  if (to == self->id) { g_fair_base = g_steps; rearm(); return; }
  switch_to(self, to, final);
}
bool block_on(const void* obj, i64 deadline)
{
  Thread* self = g_cur;
  RtGuard g;
  if (g_quiet) harness_error("blocking operation inside a Quiet scope");
  ++g_steps;
  if (deadline < 0 || deadline > now_mono()) ++self->blocks;
  self->st = St::BLOCK; self->wait_obj = obj; self->wait_seq = ++g_wait_seq;
  self->timed = deadline >= 0; self->deadline = deadline; self->timed_out = false;
  sched_away(self, false);
  return self->timed_out;
}
int wake_n(const void* obj, int n)
{
  int woken = 0;
  while (woken < n)
  {
    Thread* b = nullptr;
    for (int i = 0; i < g_nthreads; i++)
    {
      Thread& t = g_threads[i];
      if (t.st == St::BLOCK && t.wait_obj == obj && (!b || t.wait_seq < b->wait_seq)) b = &t;
    }
    if (!b) break;
    b->st = St::RUN; b->wait_obj = nullptr; b->timed = false; b->timed_out = false; b->ready_at = g_steps;
    woken++;
  }
  if (woken) wake_rearm();
  return woken;
}
void wake_one(const void* obj) { wake_n(obj, 1); }
void wake_all(const void* obj) { wake_n(obj, INT_MAX); }

// ---- threads ----------------------------------------------------------------------------------
static char g_altstacks[kMaxThreads][16384];
static void thread_main_exit(Thread* t)
{
  // still holding the baton, hooks off
  while (t->ndtors > 0)
  {
    DtorRec d = t->dtors[--t->ndtors];
    g_on = 1; d.fn(d.obj); g_on = 0;
  }
}
static void* tramp(void* p)
{
  Thread* t = static_cast<Thread*>(p);
  stack_t ss{}; ss.ss_sp = g_altstacks[t->id]; ss.ss_size = sizeof g_altstacks[0];
  sigaltstack(&ss, nullptr);
  park(t);
  g_on = 1;
  t->ret = t->fn(t->arg);
  g_on = 0;
  thread_main_exit(t);
  hb_release_addr(t);
  t->st = St::DONE;
  wake_all(t);
  ++g_steps;
  sched_away(t, true);
  return nullptr;
}
Thread* thread_new(void* (*fn)(void*), void* arg, bool is_omp)
{
  if (g_nthreads >= kMaxThreads) harness_error("too many simulated threads in one run");
  Thread* t = &g_threads[g_nthreads];
  t->id = g_nthreads;
  t->fn = fn; t->arg = arg; t->omp_worker = is_omp;
  t->st = St::BLOCK; t->wait_obj = t;
  if (g_cur)
  {
    hb_tick();
    t->vc.assign(g_cur->vc);
    t->allowed = g_cur->allowed;
    if (is_omp)
    {
      t->omp_icv_nthreads = g_cur->omp_icv_nthreads;
      t->omp_icv_dynamic = g_cur->omp_icv_dynamic;
    }
    else omp_thread_init(t);
  }
  if ((int)t->vc.n <= t->id)
  { for (u32 i = t->vc.n; (int)i <= t->id; i++) t->vc.c[i] = 0; t->vc.n = t->id + 1; }
  t->vc.c[t->id] = 1;
  t->prio = g_cfg.replay ? 0 : 2000000 + r_sched.below(1000000);
  return t;
}
int thread_start_real(Thread* t)
{
  static auto real_create = reinterpret_cast<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>(real_sym("pthread_create"));
  pthread_attr_t at; pthread_attr_init(&at);
  pthread_attr_setstack(&at, reinterpret_cast<void*>(kStackBase + stack_off(t->id)), stack_size(t->id));
  const int e = real_create(&t->real, &at, tramp, t);
  pthread_attr_destroy(&at);
  if (e) harness_error("real pthread_create failed: %d", e);
  g_nthreads++;
  t->st = St::RUN; t->wait_obj = nullptr;
  t->resumed_at = g_steps; t->ready_at = g_steps;
  if (t->id != 0) { g_unsynced++; if (g_cur) hb_tick(); }
  wake_rearm();
  return 0;
}

// ---- happens-before ---------------------------------------------------------------------------
struct SyncObj { u64 addr; VC vc; };
static constexpr u32 kSyncSlots = 1u << 16, kSyncMax = 1u << 14;
static u32 g_sync_tab[kSyncSlots];
static SyncObj* g_sync_pool;        // kSyncMax entries, demand paged
static u32 g_nsync = 1;
static bool g_race_off = false;
VC* sync_vc(const void* a)
{
  const u64 addr = reinterpret_cast<u64>(a);
  u64 h = (addr * 0x9E3779B97F4A7C15ull) >> 48;
  for (;; h = (h + 1) & (kSyncSlots - 1))
  {
    const u32 i = g_sync_tab[h];
    if (i == 0)
    {
      if (g_nsync >= kSyncMax) { g_race_off = true; return nullptr; }
      g_sync_tab[h] = g_nsync;
      g_sync_pool[g_nsync].addr = addr;
      g_sync_pool[g_nsync].vc.n = 0;
      return &g_sync_pool[g_nsync++].vc;
    }
    if (g_sync_pool[i].addr == addr) return &g_sync_pool[i].vc;
  }
}
void hb_tick() { if (g_cur) g_cur->vc.c[g_cur->id]++; }
void hb_acquire(const VC& v) { if (g_cur) g_cur->vc.join(v); }
void hb_release(VC& v, bool join)
{
  if (!g_cur) return;
  if (join) v.join(g_cur->vc); else v.assign(g_cur->vc);
  g_cur->vc.c[g_cur->id]++;
}

struct Slot { u32 clk; u32 pc; u16 tid1; u8 mask; u8 flags; u32 pad; };
struct Cell { Slot s[4]; };
static Cell *g_sh_heap, *g_sh_stack, *g_sh_glob;
static u8* g_heap_shadow;            // 1 byte per 8: 0 none, 1..8 prefix, 9 freed
static u64 g_glob_lo, g_glob_hi;

static inline Cell* cell_of(u64 a)
{
  if (a - kHeapBase < kHeapSize) return &g_sh_heap[(a - kHeapBase) >> 3];
  if (a - kStackBase < kStackTotal) return &g_sh_stack[(a - kStackBase) >> 3];
  if (a >= g_glob_lo && a < g_glob_hi) return &g_sh_glob[(a - g_glob_lo) >> 3];
  return nullptr;
}
static void race_report(u64 addr, const Slot& o, bool write, bool atomic, u64 pc)
{
  violation_pc("race", pc, o.pc,
      "data race on %s memory: %s%s by thread %d conflicts with earlier %s%s by thread %d",
      (addr - kHeapBase < kHeapSize) ? "heap" : (addr - kStackBase < kStackTotal) ? "stack" : "global",
      atomic ? "atomic " : "", write ? "write" : "read", g_cur->id,
      (o.flags & 2) ? "atomic " : "", (o.flags & 1) ? "write" : "read", o.tid1 - 1);
}
static inline void race_cell(Cell* c, u64 addr, u8 mask, bool write, bool atomic, u64 pc)
{
  Thread* self = g_cur;
  const u16 me = (u16)(self->id + 1);
  const u8 fl = (write ? 1 : 0) | (atomic ? 2 : 0);
  const u32 clk = self->vc.c[self->id];
  int store = -1, empty = -1, covered = -1;
  for (int i = 0; i < 4; i++)
  {
    Slot& s = c->s[i];
    if (s.tid1 == 0) { if (empty < 0) empty = i; continue; }
    if (s.tid1 == me)
    {
      if (s.mask == mask && s.clk == clk && (s.flags & 1) >= (fl & 1) && (s.flags & 2) <= (fl & 2)) return;
      if ((s.mask & ~mask) == 0 && (fl & 1) >= (s.flags & 1) && (fl & 2) <= (s.flags & 2)) store = i;
      continue;
    }
    const bool ordered = self->vc.get(s.tid1 - 1) >= s.clk;
    if (ordered)
    {
      if ((s.mask & ~mask) == 0 && (fl & 1) && !(fl & 2)) covered = i;
      continue;
    }
    if (!(s.mask & mask)) continue;
    if (!((s.flags | fl) & 1)) continue;
    if ((s.flags & fl) & 2) continue;
    race_report(addr, s, write, atomic, pc);
  }
  int at = store >= 0 ? store : empty >= 0 ? empty : covered >= 0 ? covered : (int)((g_steps ^ (g_steps >> 7)) & 3);
  Slot& s = c->s[at];
  s.clk = clk; s.pc = (u32)pc; s.tid1 = me; s.mask = mask; s.flags = fl;
}
static void heap_bad(u64 a, size_t size, bool write, u64 pc);
static inline void heap_check(u64 a, size_t size, bool write, u64 pc)
{
  const u64 o = a - kHeapBase;
  if (o >= kHeapSize) return;
  const u64 last = o + size - 1;
  const u8 v = g_heap_shadow[last >> 3];
  if (__builtin_expect(v == 0 || v > 8 || (last & 7) >= v, 0)) heap_bad(a, size, write, pc);
  if ((o >> 3) != (last >> 3))
  {
    const u8 w = g_heap_shadow[o >> 3];
    if (__builtin_expect(w == 0 || w > 8 || (o & 7) >= w, 0)) heap_bad(a, size, write, pc);
  }
}
static void race_range(u64 addr, size_t size, bool write, bool atomic, u64 pc)
{
  u64 a = addr; const u64 e = addr + size;
  while (a < e)
  {
    const u64 g = a & ~7ull;
    const u64 hi = e < g + 8 ? e : g + 8;
    Cell* c = cell_of(a);
    if (!c) return;
    const u8 mask = (u8)(((1u << (hi - a)) - 1) << (a - g));
    race_cell(c, a, mask, write, atomic, pc);
    a = hi;
  }
}
void mem_access(u64 addr, size_t size, bool write, bool atomic, u64 pc)
{
  if (size == 0) return;
  heap_check(addr, size, write, pc);
  if (addr - kHeapBase < kHeapSize && size > 16)
    for (u64 a = addr + 8; a + 8 < addr + size; a += 8)
    {
      const u8 v = g_heap_shadow[(a - kHeapBase) >> 3];
      if (v == 0 || v > 8) { heap_bad(addr, size, write, pc); }
    }
  if (g_unsynced > 0 && !g_race_off) race_range(addr, size, write, atomic, pc);
}
template <unsigned N>
static inline __attribute__((always_inline)) void acc(void* p, bool write, u64 pc)
{
  if (!g_on) return;
  const u64 a = reinterpret_cast<u64>(p);
  if (__builtin_expect(++g_steps >= g_next, 0)) expired();
  heap_check(a, N, write, pc);
  if (g_unsynced > 0 && !g_race_off)
  {
    if (N <= 8 && (a & 7) + N <= 8)
    {
      Cell* c = cell_of(a);
      if (c) race_cell(c, a, (u8)(((1u << N) - 1) << (a & 7)), write, false, pc);
    }
    else race_range(a, N, write, false, pc);
  }
}

// ---- heap -----------------------------------------------------------------------------------------
struct Hdr { u64 size; u32 magic; u32 fill; };   // 16 bytes in front of the block
static constexpr u32 kMagicLive = 0xA110C8ED, kMagicFree = 0xF4EE0000;
static u64 g_bump = kHeapBase + 64;
static u64 g_live_blocks = 0, g_live_bytes = 0;
static u64 g_text_lo, g_text_hi, g_z_lo, g_z_hi;
static constexpr u64 kLiveCap = 96ull << 20; static u64 kOneCap = 48ull << 20;
void heap_limit_one(u64 bytes) { kOneCap = bytes; }
bool heap_contains(const void* p) { return reinterpret_cast<u64>(p) - kHeapBase < kHeapSize; }
u64 heap_live_blocks() { return g_live_blocks; }
bool caller_in_exe(const void* pc)
{
  const u64 a = reinterpret_cast<u64>(pc);
  return (a >= g_text_lo && a < g_text_hi) || (a >= g_z_lo && a < g_z_hi);
}
static void* heap_alloc(size_t size, size_t align)
{
  if (size > kOneCap || g_live_bytes + size > kLiveCap) { sim::probe("sim memory limit hit"); trace("memory limit: request %zu live %llu", size, (unsigned long long)g_live_bytes); return nullptr; }
  if (align < 16) align = 16;
  u64 p = (g_bump + 16 + align - 1) & ~(align - 1);
  const u64 e = p + size;
  const u64 nb = ((e + 15) & ~15ull) + 16;
  if (nb > kHeapBase + kHeapSize) { sim::probe("sim heap arena exhausted"); return nullptr; }
  g_bump = nb;
  Hdr* h = reinterpret_cast<Hdr*>(p - 16);
  h->size = size; h->magic = kMagicLive;
  u64 o = (p - kHeapBase) >> 3;
  size_t full = size >> 3;
  memset(g_heap_shadow + o, 8, full);
  if (size & 7) g_heap_shadow[o + full] = (u8)(size & 7);
  memset(reinterpret_cast<void*>(p), 0xBE, size < 2048 ? size : 2048);
  g_live_blocks++; g_live_bytes += size;
  sh->allocs++;
  return reinterpret_cast<void*>(p);
}
static void heap_free(void* q, u64 pc)
{
  const u64 p = reinterpret_cast<u64>(q);
  Hdr* h = reinterpret_cast<Hdr*>(p - 16);
  if ((p & 15) || h->magic != kMagicLive)
  {
    if (!(p & 15) && h->magic == kMagicFree) violation_pc("double-free", pc, 0, "block freed twice");
    violation_pc("bad-free", pc, 0, "free of a pointer that is not an allocated block");
  }
  if (g_on && g_unsynced > 0 && !g_race_off && caller_in_exe(reinterpret_cast<void*>(pc)))
    race_range(p, h->size < 512 ? h->size : 512, true, false, pc);
  h->magic = kMagicFree;
  g_live_blocks--; g_live_bytes -= h->size;
  memset(g_heap_shadow + ((p - kHeapBase) >> 3), 9, (h->size + 7) >> 3);
}
static void heap_bad(u64 a, size_t size, bool write, u64 pc)
{
  // classify
  const char* what = "heap-out-of-bounds";
  for (u64 x = a; x < a + size; x++)
    if (g_heap_shadow[(x - kHeapBase) >> 3] == 9) { what = "heap-use-after-free"; break; }
  violation_pc(what, pc, 0, "%s of %zu bytes %s", write ? "write" : "read", size,
               what[5] == 'o' ? "outside any live block" : "in a freed block");
}
static bool alloc_faulted()
{
  if (!g_on || !g_cur) return false;
  if (!(allowed_faults() & sim::bit(sim::F_ALLOC))) return false;
  return sim::fault(sim::F_ALLOC);
}
void heap_init()
{
  const int fl = MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE;
  const int fl2 = MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE;
  auto m = [&](void* at, size_t n, int f) {
    void* p = mmap(at, n, PROT_READ | PROT_WRITE, f, -1, 0);
    if (p == MAP_FAILED) { fprintf(stderr, "sim: cannot map %zu bytes\n", n); _exit(2); }
    madvise(p, n, MADV_NOHUGEPAGE);
    return p;
  };
  m(reinterpret_cast<void*>(kHeapBase), kHeapSize, fl);
  m(reinterpret_cast<void*>(kStackBase), kStackTotal, fl);
  g_heap_shadow = static_cast<u8*>(m(nullptr, kHeapSize / 8 + 4096, fl2));
  g_sh_heap = static_cast<Cell*>(m(nullptr, kHeapSize * 8, fl2));
  g_sh_stack = static_cast<Cell*>(m(nullptr, kStackTotal * 8, fl2));
  g_glob_lo = reinterpret_cast<u64>(&etext) & ~7ull;
  g_glob_hi = reinterpret_cast<u64>(&end);
  g_sh_glob = static_cast<Cell*>(m(nullptr, (g_glob_hi - g_glob_lo + 16) * 8, fl2));
  g_sync_pool = static_cast<SyncObj*>(m(nullptr, sizeof(SyncObj) * kSyncMax, fl2));
  g_text_lo = reinterpret_cast<u64>(&__executable_start);
  g_text_hi = reinterpret_cast<u64>(&etext);
  dl_iterate_phdr([](dl_phdr_info* i, size_t, void*) {
    if (i->dlpi_name && strstr(i->dlpi_name, "libz.so"))
      for (int k = 0; k < i->dlpi_phnum; k++)
        if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X))
        { g_z_lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; g_z_hi = g_z_lo + i->dlpi_phdr[k].p_memsz; }
    return 0;
  }, nullptr);
}
void* real_sym(const char* name)
{
  void* p = dlsym(RTLD_NEXT, name);
  if (!p) { fprintf(stderr, "sim: no symbol %s\n", name); _exit(2); }
  return p;
}

// ---- crash handlers ------------------------------------------------------------------------------------
static void on_signal(int sig, siginfo_t* si, void* uc)
{
  const u64 pc = (u64)static_cast<ucontext_t*>(uc)->uc_mcontext.gregs[16];
  if (!g_running) { signal(sig, SIG_DFL); raise(sig); return; }
  const char* n = sig == SIGSEGV ? "crash-SIGSEGV" : sig == SIGBUS ? "crash-SIGBUS"
      : sig == SIGFPE ? "crash-SIGFPE" : sig == SIGILL ? "crash-SIGILL" : "abort";
  violation_pc(n, pc, 0, "signal %d, address %s", sig,
      (u64)si->si_addr < 65536 ? "near null" : "non-null");
}
static void on_terminate()
{
  if (!g_running) abort();
  char what[300] = "no exception";
  if (std::type_info* t = abi::__cxa_current_exception_type())
  {
    snprintf(what, sizeof what, "exception of type %s", t->name());
    try { throw; }
    catch (const std::exception& e)
    { size_t l = strlen(what); snprintf(what + l, sizeof what - l, ": %s", e.what()); }
    catch (...) {}
  }
  violation("terminate", "std::terminate called (%s)", what);
}
void runtime_init()
{
  heap_init();
  sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (sh == MAP_FAILED) { perror("mmap"); _exit(2); }
  struct sigaction sa{}; sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
  std::set_terminate(on_terminate);
}

// ---- run -------------------------------------------------------------------------------------------------
static void (*g_body)();
static void drain()
{
  // let other threads finish what they can
  RtGuard g;
  g_draining = true; g_drain_limit = g_steps + 60000;
  if (g_drain_limit > g_cfg.step_limit - 1) g_drain_limit = g_cfg.step_limit - 1;
  Thread* t = g_cur;
  bool any = false;
  for (int i = 1; i < g_nthreads; i++)
    if (g_threads[i].st == St::RUN || (g_threads[i].st == St::BLOCK && g_threads[i].timed)) any = true;
  if (any)
  {
    t->st = St::BLOCK; t->wait_obj = &g_draining; t->timed = false;
    ++g_steps;
    sched_away(t, false);
  }
  g_draining = false;
}
static u64 g_fault_n[sim::F_COUNT];
static i64 g_single[sim::F_COUNT];
static u64 g_rate[sim::F_COUNT];
static u64 g_last_val[sim::F_COUNT];
static u32 g_disabled;
static void reset_faults()
{
  for (int i = 0; i < sim::F_COUNT; i++)
  { g_fault_n[i] = 0; g_single[i] = -1; g_last_val[i] = 0; }
  g_allowed = 0; allowed_faults() = 0; g_disabled = 0;
}
static void choose_fault_rates()
{
  // swarm: each kind off, single-shot or at a random rate in this run
  static const u64 den[] = {3, 8, 25, 80, 300, 1500};
  for (int i = 0; i < sim::F_COUNT; i++)
  {
    const u64 k = r_fault.below(100);
    g_rate[i] = 0;
    if (k < 30) {}
    else if (k < 65) g_single[i] = (i64)r_fault.below(1ull << (1 + r_fault.below(i == sim::F_ALLOC ? 9 : 5)));
    else g_rate[i] = den[r_fault.below(6)];
  }
}
static u64 *g_tmpW; static FEnt* g_tmpF;
static void body() { simi::g_throw_kind = (int)sim::draw(8); g_body(); }
static void* main_thread(void*)
{
  body();
  drain();
  if (g_cfg.leak_check)
  {
    u64 live[4]; live[0] = g_live_blocks;
    // same workload again, from the recorded choices, default schedule
    RtGuard g;
    const bool was_replay = g_cfg.replay;
    if (!was_replay)
    {
      rnW = sh->nW; rnF = sh->nF; rnS = 0;
      g_tmpW = static_cast<u64*>(mmap(nullptr, (rnW + 1) * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
      g_tmpF = static_cast<FEnt*>(mmap(nullptr, (rnF + 1) * sizeof(FEnt), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
      memcpy(g_tmpW, sh->W, rnW * 8); memcpy(g_tmpF, sh->F, rnF * sizeof(FEnt));
      rW = g_tmpW; rF = g_tmpF;
    }
    else rnS = 0;
    g_cfg.replay = true; 
    const u64 steps1 = g_steps;
    bool grew = true;
    g_second_pass = true;
    for (int pass = 1; pass <= 3 && grew; pass++)
    {
      reset_faults(); r_wpos = 0; omp_reset(); disk_reset();
      g_cfg.step_limit = g_steps + 4 * steps1 + 2000000;
      rearm();
      g_on = 1; body(); g_on = 0;
      drain();
      live[pass] = g_live_blocks;
      grew = live[pass] > live[pass - 1];
    }
    g_second_pass = false;
    if (grew)
      violation("leak", "%llu heap block(s) leaked by each repetition of the workload",
                (unsigned long long)(live[3] - live[2]));
  }
  g_on = 0;
  fill_result();
  trace("end of run");
  sh->status = 1;
  raw_syscall3(SYS_exit_group, 0, 0, 0);
  return nullptr;
}
void run_body(void (*fn)())
{
  g_body = fn;
  g_hash = 0x1234;
  u64 x = g_cfg.seed;
  r_work.seed(x * 3 + 1); r_sched.seed(x * 5 + 2); r_fault.seed(x * 7 + 3);
  reset_faults();
  if (!g_cfg.replay) { choose_fault_rates(); strat_setup(); }
  omp_reset(); disk_reset();
  // make sure libc and libstdc++ know about threads
  g_strat_next = ~0ull; g_fair_base = 0; g_next = g_cfg.step_limit;
  Thread* t = thread_new(main_thread, nullptr, false);
  thread_start_real(t);
  g_running = true;
  g_cur = t;
  rearm();
  unpark(t);
  for (;;) raw_syscall3(SYS_pause, 0, 0, 0);
}
}  // namespace simi

// ---- public API ----------------------------------------------------------------------------------------------
namespace sim
{
using namespace simi;
uint64_t mix(uint64_t h, uint64_t v) { return mixh(h, v); }
int throw_kind() { return g_throw_kind; }
uint64_t draw(uint64_t n)
{
  if (n <= 1) return 0;
  u64 v;
  if (g_cfg.replay) v = r_wpos < rnW ? rW[r_wpos] % n : 0;
  else v = r_work.next() % n;
  if (!g_second_pass)
  {
    if (r_wpos < kMaxW) { sh->W[r_wpos] = v; sh->nW = r_wpos + 1; }
    else harness_error("workload tape full");
  }
  r_wpos++;
  return v;
}
int64_t range(int64_t lo, int64_t hi)
{ return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
bool chance(uint64_t num, uint64_t den) { return draw(den) >= den - num; }
double unit() { return (double)draw(1u << 20) / (double)(1u << 20); }

FaultScope::FaultScope(uint32_t m) : saved(allowed_faults()) { allowed_faults() = m & g_cfg.fault_mask; }
FaultScope::~FaultScope() { allowed_faults() = saved; }
void injected(Fault k) { if (g_second_pass) return; sh->points[k]++; sh->fired[k]++; g_hash = mixh(g_hash, (u64)k * 77 + 11); }
bool fault(Fault k)
{
  if (!g_running || g_quiet) return false;
  if (!(allowed_faults() & bit(k)) || (g_disabled & bit(k))) return false;
  const u64 n = g_fault_n[k]++;
  if (!g_second_pass) sh->points[k]++;
  bool fire = false; u64 val = 0;
  if (g_cfg.replay)
  {
    for (u32 i = 0; i < rnF; i++)
      if (rF[i].kind == (u32)k && rF[i].n == n) { fire = true; val = rF[i].val; break; }
  }
  else
  {
    if (g_single[k] >= 0) fire = (u64)g_single[k] == n;
    else if (g_rate[k]) fire = r_fault.below(g_rate[k]) == 0;
    if (fire) val = r_fault.next() >> 8;
    if (fire && sh->nF >= kMaxF) fire = false;
  }
  if (!fire) return false;
  g_last_val[k] = val;
  if (!g_second_pass)
  {
    if (sh->nF < kMaxF) sh->F[sh->nF++] = FEnt{(u32)k, 0, n, val};
    sh->fired[k]++;
    g_hash = mixh(g_hash, (u64)k * 77 + n * 1000 + 5);
    RtGuard g; trace("fault %s #%llu", kFaultNames[k], (unsigned long long)n);
  }
  return true;
}
uint64_t fault_draw(Fault k, uint64_t n) { return n ? g_last_val[k] % n : 0; }
uint64_t fired(Fault k)
{
  if (!g_second_pass) return sh->fired[k];
  u64 c = k == F_THREAD ? g_thread_cap_hits : 0;
  for (u32 i = 0; i < rnF; i++)
    if (rF[i].kind == (u32)k && rF[i].n < g_fault_n[k]) c++;
  return c;
}
void set_single_shot(Fault k, uint64_t n)
{ g_single[k] = (i64)n; g_fault_n[k] = g_fault_n[k]; }
void disable_fault(Fault k) { g_disabled |= bit(k); }
void fail(const char* cls, const char* fmt, ...)
{
  g_on = 0;
  char c[96]; snprintf(c, sizeof c, "oracle:%s", cls);
  char m[1200]; va_list ap; va_start(ap, fmt); vsnprintf(m, sizeof m, fmt, ap); va_end(ap);
  violation(c, "%s", m);
}
void event(const char* tag, int64_t a, int64_t b)
{
  if (!g_running || g_second_pass) return;
  const int s = g_on; g_on = 0;
  u64 h = 7; for (const char* p = tag; *p; p++) h = h * 131 + (u8)*p;
  g_hash = mixh(g_hash, h); g_hash = mixh(g_hash, (u64)a); g_hash = mixh(g_hash, (u64)b);
  trace("%s %lld %lld", tag, (long long)a, (long long)b);
  g_on = s;
}
void probe(const char* name)
{
  if (!sh || g_second_pass) return;
  for (u32 i = 0; i < sh->nprobes; i++)
    if (!strncmp(sh->probes[i].name, name, 55)) { sh->probes[i].count++; return; }
  if (sh->nprobes < kMaxProbes)
  {
    strncpy(sh->probes[sh->nprobes].name, name, 55);
    sh->probes[sh->nprobes].name[55] = 0;
    sh->probes[sh->nprobes++].count = 1;
  }
}
void state(uint64_t h)
{
  if (!sh || g_second_pass) return;
  if (!h) h = 1;
  if (sh->nstates > kStateSlots / 2) { sh->states_dropped++; return; }
  u64 i = (h * 0x9E3779B97F4A7C15ull) >> 44;
  for (;; i = (i + 1) & (kStateSlots - 1))
  {
    if (sh->states[i] == h) return;
    if (!sh->states[i]) { sh->states[i] = h; sh->nstates++; return; }
  }
}
void op() { if (!g_second_pass) sh->ops++; }
size_t live_threads()
{ size_t n = 0; for (int i = 0; i < g_nthreads; i++) if (g_threads[i].st != St::DONE && !g_threads[i].omp_worker) n++; return n; }
uint64_t heap_live() { return heap_live_blocks(); }
void limit_allocation(uint64_t bytes) { simi::heap_limit_one(bytes); }
bool replaying() { return g_cfg.replay; }
Quiet::Quiet() { g_quiet++; g_on = 0; }
Quiet::~Quiet() { if (--g_quiet == 0) g_on = g_running ? 1 : 0; }
void yield() { yield_point(); }
void advance_ns(int64_t ns) { simi::advance(ns); }
int64_t mono_ns() { return now_mono(); }
int64_t last_mono_read() { return simi::g_last_mono_read; }
uint64_t blocks() { return simi::g_cur ? simi::g_cur->blocks : 0; }
uint64_t mono_reads() { return simi::g_mono_reads; }
int64_t wall_ns() { return now_wall(); }
int current_thread() { return g_cur ? g_cur->id : -1; }

Client::Client() {}
Client::~Client() { if (impl) join(); }
namespace { struct CArg { void* p; void (*fn)(void*); }; }
static void* client_tramp(void* q)
{
  CArg a = *static_cast<CArg*>(q);
  __libc_free(q);
  a.fn(a.p);
  return nullptr;
}
void Client::start_impl(void* p, void (*fn)(void*))
{
  RtGuard g;
  CArg* a = static_cast<CArg*>(__libc_malloc(sizeof(CArg)));
  a->p = p; a->fn = fn;
  Thread* t = thread_new(client_tramp, a, false);
  t->omp_icv_nthreads = 0;  // set by omp on first use
  thread_start_real(t);
  impl = t;
  g_on = g.saved; sched_point(); g_on = 0;
}
void Client::join()
{
  Thread* t = static_cast<Thread*>(impl);
  if (!t) return;
  impl = nullptr;
  sched_point();
  RtGuard g;
  while (t->st != St::DONE) { block_on(t); }
  hb_acquire_addr(t);
  g_unsynced--;
  t->joined = true;
}
}  // namespace sim

// ---- malloc family ------------------------------------------------------------------------------------------
using namespace simi;
#define RA reinterpret_cast<u64>(__builtin_return_address(0))
#define IN_SIM (g_on && g_cur)
extern "C" {
void* malloc(size_t n)
{
  if (!IN_SIM || !caller_in_exe(__builtin_return_address(0))) return __libc_malloc(n);
  if (alloc_faulted()) { errno = ENOMEM; return nullptr; }
  void* p = heap_alloc(n, 16); if (!p) errno = ENOMEM; return p;
}
void* calloc(size_t a, size_t b)
{
  if (!IN_SIM || !caller_in_exe(__builtin_return_address(0))) return __libc_calloc(a, b);
  if (b && a > ~0ull / b) { errno = ENOMEM; return nullptr; }
  if (alloc_faulted()) { errno = ENOMEM; return nullptr; }
  void* p = heap_alloc(a * b, 16);
  if (p) memset(p, 0, a * b); else errno = ENOMEM;
  return p;
}
void free(void* p)
{
  if (!p) return;
  if (heap_contains(p)) heap_free(p, RA); else __libc_free(p);
}
void* realloc(void* p, size_t n)
{
  if (p && heap_contains(p))
  {
    Hdr* h = reinterpret_cast<Hdr*>(reinterpret_cast<u64>(p) - 16);
    if (n == 0) { heap_free(p, RA); return nullptr; }
    if (alloc_faulted()) { errno = ENOMEM; return nullptr; }
    void* q = heap_alloc(n, 16);
    if (!q) { errno = ENOMEM; return nullptr; }
    memcpy(q, p, h->size < n ? h->size : n);
    heap_free(p, RA);
    return q;
  }
  if (p || !IN_SIM || !caller_in_exe(__builtin_return_address(0))) return __libc_realloc(p, n);
  if (alloc_faulted()) { errno = ENOMEM; return nullptr; }
  return heap_alloc(n, 16);
}
void* memalign(size_t al, size_t n)
{
  if (!IN_SIM || !caller_in_exe(__builtin_return_address(0))) return __libc_memalign(al, n);
  if (alloc_faulted()) { errno = ENOMEM; return nullptr; }
  return heap_alloc(n, al);
}
void* aligned_alloc(size_t al, size_t n)
{
  if (!IN_SIM || !caller_in_exe(__builtin_return_address(0))) return __libc_memalign(al, n);
  if (alloc_faulted()) { errno = ENOMEM; return nullptr; }
  return heap_alloc(n, al);
}
int posix_memalign(void** o, size_t al, size_t n)
{
  if (!IN_SIM || !caller_in_exe(__builtin_return_address(0)))
  { *o = __libc_memalign(al, n); return *o ? 0 : ENOMEM; }
  if (alloc_faulted()) return ENOMEM;
  *o = heap_alloc(n, al); return *o ? 0 : ENOMEM;
}
}
static void* new_impl(size_t n, size_t al, bool nothrow)
{
  void* p;
  if (!IN_SIM) p = al > 16 ? __libc_memalign(al, n ? n : 1) : __libc_malloc(n ? n : 1);
  else p = alloc_faulted() ? nullptr : heap_alloc(n, al);
  if (!p && !nothrow) throw std::bad_alloc();
  return p;
}
static void del_impl(void* p, u64 pc)
{ if (!p) return; if (heap_contains(p)) heap_free(p, pc); else __libc_free(p); }
void* operator new(size_t n) { return new_impl(n, 16, false); }
void* operator new[](size_t n) { return new_impl(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return new_impl(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return new_impl(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return new_impl(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return new_impl(n, (size_t)a, false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return new_impl(n, (size_t)a, true); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return new_impl(n, (size_t)a, true); }
void operator delete(void* p) noexcept { del_impl(p, RA); }
void operator delete[](void* p) noexcept { del_impl(p, RA); }
void operator delete(void* p, size_t) noexcept { del_impl(p, RA); }
void operator delete[](void* p, size_t) noexcept { del_impl(p, RA); }
void operator delete(void* p, const std::nothrow_t&) noexcept { del_impl(p, RA); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { del_impl(p, RA); }
void operator delete(void* p, std::align_val_t) noexcept { del_impl(p, RA); }
void operator delete[](void* p, std::align_val_t) noexcept { del_impl(p, RA); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { del_impl(p, RA); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { del_impl(p, RA); }

// ---- compiler-inserted hooks ----------------------------------------------------------------------------------
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACC(N) \
  void __tsan_read##N(void* p) { acc<N>(p, false, RA); } \
  void __tsan_write##N(void* p) { acc<N>(p, true, RA); } \
  void __tsan_volatile_read##N(void* p) { acc<N>(p, false, RA); } \
  void __tsan_volatile_write##N(void* p) { acc<N>(p, true, RA); } \
  void __tsan_read##N##_pc(void* p, void*) { acc<N>(p, false, RA); } \
  void __tsan_write##N##_pc(void* p, void*) { acc<N>(p, true, RA); } \
  void __tsan_read_write##N(void* p) { acc<N>(p, true, RA); } \
  void __tsan_unaligned_read##N(void* p) { acc<N>(p, false, RA); } \
  void __tsan_unaligned_write##N(void* p) { acc<N>(p, true, RA); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, unsigned long n)
{ if (!g_on || !n) return; if (++g_steps >= g_next) expired(); mem_access((u64)p, n, false, false, RA); }
void __tsan_write_range(void* p, unsigned long n)
{ if (!g_on || !n) return; if (++g_steps >= g_next) expired(); mem_access((u64)p, n, true, false, RA); }
void __tsan_vptr_update(void** p, void* v)
{ if (!g_on) return; acc<8>(p, *p != v, RA); }
void __tsan_vptr_read(void** p) { if (!g_on) return; acc<8>(p, false, RA); }

// container annotations from libstdc++'s std::vector
void __sanitizer_annotate_contiguous_container(const void* beg, const void* end_, const void* omid, const void* nmid)
{
  if (!heap_contains(beg)) return;
  const u64 e = (u64)end_, m = (u64)nmid, o = (u64)omid;
  // [beg,nmid) addressable, [nmid,end) not; only what lies between the two marks changes
  const u64 from = (o < m ? o : m) & ~7ull, to = o < m ? m : o;
  for (u64 g = from; g < to && g < e; g += 8)
  {
    u8 v;
    if (g + 8 <= m) v = 8; else if (g >= m) v = 0; else v = (u8)(m - g);
    g_heap_shadow[(g - kHeapBase) >> 3] = v;
  }
}

// memory functions called from instrumented objects
void* memcpy(void*, const void*, size_t);
void* memmove(void*, const void*, size_t);
void* memset(void*, int, size_t);
int memcmp(const void*, const void*, size_t);
#define STEP() if (++g_steps >= g_next) expired()
void* sim_memcpy(void* d, const void* s, size_t n)
{
  if (g_on && n) { STEP(); mem_access((u64)s, n, false, false, RA); mem_access((u64)d, n, true, false, RA); }
  return memcpy(d, s, n);
}
void* sim_memmove(void* d, const void* s, size_t n)
{
  if (g_on && n) { STEP(); mem_access((u64)s, n, false, false, RA); mem_access((u64)d, n, true, false, RA); }
  return memmove(d, s, n);
}
void* sim_memset(void* d, int c, size_t n)
{
  if (g_on && n) { STEP(); mem_access((u64)d, n, true, false, RA); }
  return memset(d, c, n);
}
int sim_memcmp(const void* a, const void* b, size_t n)
{
  if (g_on && n) { STEP(); mem_access((u64)a, n, false, false, RA); mem_access((u64)b, n, false, false, RA); }
  return memcmp(a, b, n);
}
}

// ---- atomics ----------------------------------------------------------------------------------------------------
namespace
{
inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
inline void at_point(const volatile void* p, size_t n, bool write, u64 pc)
{
  // decision before the operation, then record the access
  sched_point();
  mem_access((u64)p, n, write, true, pc);
}
inline void at_load(const volatile void* p, int mo)
{
  if (g_nthreads < 2) return;
  VC* v = sync_vc(const_cast<const void*>(p)); if (!v) return;
  if (is_acq(mo)) hb_acquire(*v);
  else { Thread* t = g_cur; if (!t->has_acq) { t->has_acq = true; t->acq_pending.n = 0; } t->acq_pending.join(*v); }
}
inline void at_store(const volatile void* p, int mo, bool rmw)
{
  if (g_nthreads < 1) return;
  VC* v = sync_vc(const_cast<const void*>(p)); if (!v) return;
  Thread* t = g_cur;
  if (is_rel(mo)) hb_release(*v, rmw);
  else if (t->has_rel) { if (rmw) v->join(t->rel_fence); else v->assign(t->rel_fence); }
  else if (!rmw) v->n = 0;
}
}
extern "C" {
#define AT(N, T) \
T __tsan_atomic##N##_load(const volatile T* p, int mo) \
{ if (!g_on) return *p; at_point(p, sizeof(T), false, RA); RtGuard g; at_load(p, mo); return *p; } \
void __tsan_atomic##N##_store(volatile T* p, T v, int mo) \
{ if (!g_on) { *p = v; return; } at_point(p, sizeof(T), true, RA); RtGuard g; at_store(p, mo, false); *p = v; } \
T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) \
{ if (!g_on) { T o = *p; *p = v; return o; } at_point(p, sizeof(T), true, RA); RtGuard g; at_load(p, mo); at_store(p, mo, true); T o = *p; *p = v; return o; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) \
{ if (!g_on) { if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  at_point(p, sizeof(T), true, RA); RtGuard g; \
  if (*p == *e) { at_load(p, mo); at_store(p, mo, true); *p = v; return 1; } \
  at_load(p, fmo); *e = *p; return 0; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) \
{ return __tsan_atomic##N##_compare_exchange_strong(p, e, v, mo, fmo); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) \
{ __tsan_atomic##N##_compare_exchange_strong(p, &e, v, mo, fmo); return e; }
#define ATOP(N, T, NAME, EXPR) \
T __tsan_atomic##N##_fetch_##NAME(volatile T* p, T v, int mo) \
{ if (!g_on) { T o = *p; *p = (T)(EXPR); return o; } at_point(p, sizeof(T), true, RA); RtGuard g; at_load(p, mo); at_store(p, mo, true); T o = *p; *p = (T)(EXPR); return o; }
#define ATALL(N, T) AT(N, T) ATOP(N, T, add, o + v) ATOP(N, T, sub, o - v) ATOP(N, T, and, o & v) \
  ATOP(N, T, or, o | v) ATOP(N, T, xor, o ^ v) ATOP(N, T, nand, ~(o & v))
ATALL(8, u8) ATALL(16, u16) ATALL(32, u32) ATALL(64, u64) ATALL(128, unsigned __int128)
void __tsan_atomic_thread_fence(int mo)
{
  if (!g_on) return;
  sched_point();
  Thread* t = g_cur;
  if (is_acq(mo) && t->has_acq) hb_acquire(t->acq_pending);
  if (is_rel(mo)) { t->rel_fence.assign(t->vc); t->has_rel = true; hb_tick(); }
}
void __tsan_atomic_signal_fence(int) {}
void __tsan_acquire(void* p) { if (g_on) { RtGuard g; hb_acquire_addr(p); } }
void __tsan_release(void* p) { if (g_on) { RtGuard g; hb_release_addr(p); } }
}
