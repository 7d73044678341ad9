// OpenMP runtime under the simulator's scheduler (replaces libgomp).
#include "rt_int.hpp"
#include <stdarg.h>
#include <stdlib.h>
#include <deque>
#include <map>
#include <vector>

using namespace simi;
namespace simi
{
struct Ws
{
  u64 idx = 0;
  bool init = false;
  long next = 0, end = 0, incr = 1, chunk = 1;
  bool ull_ = false, up = true; unsigned long long unext = 0, uend = 0, uincr = 1, uchunk = 1;
  int kind = 0;                 // 0 dynamic, 1 guided, 2 static
  int sections = 0, next_section = 1;
  std::map<int, long> trip;     // static: per thread round
  long s_start = 0;
};
struct OmpTeam
{
  int n = 1, level = 0, active = 0, num_in_parent = 0;
  OmpTeam* parent = nullptr;
  void (*fn)(void*) = nullptr; void* data = nullptr;
  int remaining = 0;
  int bar_have = 0; u64 bar_gen = 0;
  std::deque<Ws> ws;
  u64 singles_taken = 0;
  void* copy_ptr = nullptr;
  Ws preset; bool has_preset = false;
};
struct PoolWorker { Thread* t; OmpTeam* job; int num; bool idle; };
static std::vector<PoolWorker*>* g_pool;
static sim::OmpEnv g_env;
void omp_reset()
{
  g_env = sim::OmpEnv();
  for (int i = 0; i < g_nthreads; i++) { g_threads[i].omp_icv_nthreads = 0; g_threads[i].omp_icv_dynamic = false; }
}
}
void simi::omp_thread_init(Thread* t) { t->omp_icv_nthreads = 0; t->omp_icv_dynamic = g_env.dynamic; }
namespace sim
{
void set_omp_env(const OmpEnv& e) { g_env = e; if (g_cur) { g_cur->omp_icv_nthreads = 0; g_cur->omp_icv_dynamic = e.dynamic; } }
OmpEnv random_omp_env()
{
  OmpEnv e;
  static const int nt[] = {8, 1, 2, 3, 4, 5, 16};
  e.nthreads = nt[draw(7)];
  static const int tl[] = {64, 64, 64, 1, 2, 3, 6};
  e.thread_limit = tl[draw(7)];
  e.dynamic = chance(1, 3);
  e.max_levels = chance(1, 6) ? 2 : 1;
  return e;
}
int omp_last_requested() { return g_cur ? g_cur->omp_last_req : 0; }
int omp_last_delivered() { return g_cur ? g_cur->omp_last_team : 0; }
int omp_nthreads_icv() { return g_cur && g_cur->omp_icv_nthreads ? g_cur->omp_icv_nthreads : g_env.nthreads; }
}
using sim::omp_nthreads_icv;

static OmpTeam* team() { return g_cur ? g_cur->team : nullptr; }
static void run_as(OmpTeam* t, int num, void (*fn)(void*), void* data)
{
  Thread* self = g_cur;
  OmpTeam* pt = self->team; const int pn = self->omp_num;
  const int icv = self->omp_icv_nthreads; const bool dyn = self->omp_icv_dynamic;
  const u64 ws = self->omp_ws, sg = self->omp_single;
  self->team = t; self->omp_num = num; self->omp_ws = 0; self->omp_single = 0;
  fn(data);
  self->team = pt; self->omp_num = pn; self->omp_icv_nthreads = icv; self->omp_icv_dynamic = dyn;
  self->omp_ws = ws; self->omp_single = sg;
}
static void* pool_main(void* p)
{
  PoolWorker* w = static_cast<PoolWorker*>(p);
  for (;;)
  {
    OmpTeam* t;
    {
      RtGuard g;
      while (!w->job) block_on(w);
      t = w->job;
      hb_acquire_addr(t);
    }
    run_as(t, w->num, t->fn, t->data);
    {
      RtGuard g;
      hb_release_addr(t);
      w->job = nullptr; w->idle = true;
      if (--t->remaining == 0) wake_all(&t->remaining);
    }
    // parked again at the top of the loop
  }
  return nullptr;
}
static int resolve(unsigned req)
{
  OmpTeam* t = team();
  const int active = t ? t->active : 0;
  if (active >= g_env.max_levels) { if (t) sim::probe("omp: nested region serialised"); return 1; }
  int n = req ? (int)req : omp_nthreads_icv();
  if (g_cur->omp_icv_dynamic && n > 1 && sim::fault(sim::F_SMALLTEAM))
    n = 1 + (int)sim::fault_draw(sim::F_SMALLTEAM, (u64)(n - 1));
  if (n > g_env.thread_limit) { n = g_env.thread_limit; sim::probe("omp: team capped by thread limit"); }
  return n < 1 ? 1 : n;
}
static void parallel_impl(void (*fn)(void*), void* data, unsigned req, const Ws* preset)
{
  if (!g_running || !g_cur || g_quiet)
  {
    fn(data); return;     // controller or quiet code: serial
  }
  sched_point();
  OmpTeam* t;
  bool serial;
  {
    RtGuard g;
    OmpTeam* p = team();
    t = new OmpTeam();
    t->n = resolve(req);
    g_cur->omp_last_req = req ? (int)req : omp_nthreads_icv(); g_cur->omp_last_team = t->n;
    t->parent = p; t->num_in_parent = g_cur->omp_num;
    t->level = (p ? p->level : 0) + 1;
    t->active = (p ? p->active : 0) + (t->n > 1 ? 1 : 0);
    t->fn = fn; t->data = data;
    if (preset) { t->preset = *preset; t->has_preset = true; }
    t->remaining = t->n - 1;
    serial = t->n == 1;
    sim::event("omp_parallel", (i64)req, t->n);
    if (!serial)
    {
      if (!g_pool) g_pool = new std::vector<PoolWorker*>();
      hb_release_addr(t);
      int num = 1;
      std::vector<PoolWorker*> use;
      for (auto* w : *g_pool) if (w->idle && num < t->n) { w->num = num++; use.push_back(w); }
      for (auto* w : use)
      {
        w->idle = false; w->job = t; 
        w->t->omp_icv_nthreads = g_cur->omp_icv_nthreads; w->t->omp_icv_dynamic = g_cur->omp_icv_dynamic;
        w->t->allowed = g_cur->allowed;
        g_unsynced++;
        wake_all(w);
      }
      while (num < t->n)
      {
        PoolWorker* w = new PoolWorker{nullptr, t, num++, false};
        g_pool->push_back(w);
        w->t = thread_new(pool_main, w, true);
        thread_start_real(w->t);
      }
    }
  }
  if (!serial) sched_point();
  run_as(t, 0, fn, data);
  {
    RtGuard g;
    if (!serial)
    {
      hb_release_addr(t);
      while (t->remaining > 0) block_on(&t->remaining);
      hb_acquire_addr(t);
      g_unsynced -= t->n - 1;
    }
    // sync objects are keyed by address: keep the team object (not reused)
    if (serial) delete t;
  }
}
static Ws* ws_get(bool* created)
{
  OmpTeam* t = team();
  const u64 k = g_cur->omp_ws;
  while (t->ws.size() <= k)
  {
    t->ws.emplace_back(); t->ws.back().idx = t->ws.size() - 1;
    if (t->ws.size() == 1 && t->has_preset) { t->ws.back() = t->preset; t->ws.back().init = true; }
  }
  Ws* w = &t->ws[k];
  *created = !w->init;
  w->init = true;
  return w;
}
static void ensure_team()
{
  if (!g_cur->team)
  {
    OmpTeam* t = new OmpTeam();
    t->n = 1; t->level = 0; t->active = 0;
    g_cur->team = t; g_cur->omp_num = 0; g_cur->omp_ws = 0; g_cur->omp_single = 0;
  }
}
static bool ws_next(Ws* w, long* s, long* e)
{
  OmpTeam* t = team();
  if (w->kind == 2)
  {
    // static with chunk: round robin by thread number
    const long chunk = w->chunk > 0 ? w->chunk : 0;
    const long total = w->incr > 0 ? (w->end - w->s_start + w->incr - 1) / w->incr : (w->s_start - w->end - w->incr - 1) / -w->incr;
    long& round = w->trip[g_cur->omp_num];
    long b, n;
    if (chunk == 0)
    {
      if (round > 0 || total <= 0) return false;
      const long q = total / t->n, r = total % t->n, me = g_cur->omp_num;
      n = q + (me < r ? 1 : 0); b = me * q + (me < r ? me : r);
      if (n <= 0) return false;
    }
    else
    {
      b = (round * t->n + g_cur->omp_num) * chunk;
      if (b >= total) return false;
      n = chunk < total - b ? chunk : total - b;
    }
    round++;
    *s = w->s_start + b * w->incr; *e = w->s_start + (b + n) * w->incr;
    return true;
  }
  const long left = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr : (w->next - w->end - w->incr - 1) / -w->incr;
  if (left <= 0) return false;
  long n = w->chunk < 1 ? 1 : w->chunk;
  if (w->kind == 1) { long q = (left + t->n - 1) / t->n; if (q > n) n = q; }
  if (n > left) n = left;
  *s = w->next; w->next += n * w->incr; *e = w->next;
  return true;
}
static bool ws_next_ull(Ws* w, unsigned long long* s, unsigned long long* e)
{
  // only upward unsigned loops
  if (w->unext >= w->uend) return false;
  unsigned long long left = (w->uend - w->unext + w->uincr - 1) / w->uincr;
  unsigned long long n = w->uchunk < 1 ? 1 : w->uchunk;
  if (w->kind == 1) { unsigned long long q = (left + team()->n - 1) / team()->n; if (q > n) n = q; }
  if (w->kind == 2) n = (left + team()->n - 1) / team()->n;   // schedule is ours to choose per chunk
  if (n > left) n = left;
  *s = w->unext; w->unext += n * w->uincr; *e = w->unext;
  return true;
}
static Ws make_ws(long s, long e, long i, long c, int kind)
{ Ws w; w.next = w.s_start = s; w.end = e; w.incr = i; w.chunk = c; w.kind = kind; w.init = true; return w; }
static bool loop_start(long s, long e, long i, long c, int kind, long* is, long* ie)
{
  sched_point();
  RtGuard g;
  ensure_team();
  bool created; Ws* w = ws_get(&created);
  if (created) { const u64 idx = w->idx; *w = make_ws(s, e, i, c, kind); w->idx = idx; }
  return ws_next(w, is, ie);
}
static bool loop_next(long* is, long* ie)
{
  sched_point();
  RtGuard g;
  bool created; Ws* w = ws_get(&created);
  return ws_next(w, is, ie);
}
static bool ull_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, int kind,
                      unsigned long long* is, unsigned long long* ie)
{
  sched_point();
  RtGuard g;
  ensure_team();
  if (!up) harness_error("downward unsigned OpenMP loop is not modelled");
  bool created; Ws* w = ws_get(&created);
  if (created) { w->ull_ = true; w->unext = s; w->uend = e; w->uincr = i; w->uchunk = c; w->kind = kind; }
  return ws_next_ull(w, is, ie);
}
static bool ull_next(unsigned long long* is, unsigned long long* ie)
{
  sched_point();
  RtGuard g;
  bool created; Ws* w = ws_get(&created);
  return ws_next_ull(w, is, ie);
}
static void barrier_impl()
{
  if (!g_running || !g_cur || g_quiet) return;
  sched_point();
  RtGuard g;
  OmpTeam* t = team();
  if (!t || t->n == 1) return;
  hb_release_addr(&t->bar_have);
  const u64 gen = t->bar_gen;
  if (++t->bar_have == t->n) { t->bar_have = 0; t->bar_gen++; wake_all(&t->bar_gen); }
  else while (t->bar_gen == gen) block_on(&t->bar_gen);
  hb_acquire_addr(&t->bar_have);
}
struct Lock { int owner; int count; };
static void lock_impl(Lock* l, bool nest)
{
  if (!g_running || !g_cur || g_quiet) return;
  sched_point();
  RtGuard g;
  if (nest && l->owner == g_cur->id + 1) { l->count++; return; }
  while (l->owner) { if (l->owner == g_cur->id + 1) violation("self-deadlock", "OpenMP lock already held"); block_on(l); }
  l->owner = g_cur->id + 1; l->count = 1;
  hb_acquire_addr(l);
}
static void unlock_impl(Lock* l)
{
  if (!g_running || !g_cur || g_quiet) return;
  {
    RtGuard g;
    if (--l->count > 0) return;
    hb_release_addr(l); l->owner = 0; wake_all(l);
  }
  sched_point();
}
static Lock g_crit, g_atomic;
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { parallel_impl(fn, d, n, nullptr); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* d, unsigned n, unsigned) { parallel_impl(fn, d, n, nullptr); return n; }
#define PLOOP(NAME, KIND) \
void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) \
{ Ws w; { RtGuard g; w = make_ws(s, e, i, c, KIND); } parallel_impl(fn, d, n, &w); }
PLOOP(static, 2) PLOOP(dynamic, 0) PLOOP(guided, 1) PLOOP(nonmonotonic_dynamic, 0) PLOOP(nonmonotonic_guided, 1)
#define PLOOPR(NAME) \
void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) \
{ Ws w; { RtGuard g; w = make_ws(s, e, i, 1, 0); } parallel_impl(fn, d, n, &w); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
#define LOOP(NAME, KIND) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* is, long* ie) { return loop_start(s, e, i, c, KIND, is, ie); } \
bool GOMP_loop_##NAME##_next(long* is, long* ie) { return loop_next(is, ie); } \
bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* is, unsigned long long* ie) { return ull_start(up, s, e, i, c, KIND, is, ie); } \
bool GOMP_loop_ull_##NAME##_next(unsigned long long* is, unsigned long long* ie) { return ull_next(is, ie); }
LOOP(static, 2) LOOP(dynamic, 0) LOOP(guided, 1) LOOP(nonmonotonic_dynamic, 0) LOOP(nonmonotonic_guided, 1)
#define LOOPR(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long* is, long* ie) { return loop_start(s, e, i, 1, 0, is, ie); } \
bool GOMP_loop_##NAME##_next(long* is, long* ie) { return loop_next(is, ie); } \
bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long* is, unsigned long long* ie) { return ull_start(up, s, e, i, 1, 0, is, ie); } \
bool GOMP_loop_ull_##NAME##_next(unsigned long long* is, unsigned long long* ie) { return ull_next(is, ie); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end_nowait() { if (g_cur) g_cur->omp_ws++; }
void GOMP_loop_end() { if (g_cur) g_cur->omp_ws++; barrier_impl(); }
void GOMP_barrier() { barrier_impl(); }
void GOMP_critical_start() { lock_impl(&g_crit, false); }
void GOMP_critical_end() { unlock_impl(&g_crit); }
static Lock* named(void** p) { if (!*p) { RtGuard g; *p = new Lock{0, 0}; } return static_cast<Lock*>(*p); }
void GOMP_critical_name_start(void** p) { lock_impl(named(p), false); }
void GOMP_critical_name_end(void** p) { unlock_impl(named(p)); }
void GOMP_atomic_start() { lock_impl(&g_atomic, false); }
void GOMP_atomic_end() { unlock_impl(&g_atomic); }
bool GOMP_single_start()
{
  if (!g_running || !g_cur || g_quiet) return true;
  sched_point();
  RtGuard g;
  ensure_team();
  OmpTeam* t = team();
  const u64 k = g_cur->omp_single++;
  if (t->singles_taken == k) { t->singles_taken++; return true; }
  return false;
}
void* GOMP_single_copy_start()
{
  if (!g_running || !g_cur) return nullptr;
  const bool first = GOMP_single_start();
  OmpTeam* t = team();
  if (first) return nullptr;
  barrier_impl();
  void* r = t->copy_ptr;
  barrier_impl();
  return r;
}
void GOMP_single_copy_end(void* d)
{ if (OmpTeam* t = team()) { t->copy_ptr = d; barrier_impl(); barrier_impl(); } }
unsigned GOMP_sections_start(unsigned n)
{
  sched_point();
  RtGuard g;
  ensure_team();
  bool c; Ws* w = ws_get(&c);
  if (c || !w->sections) w->sections = (int)n;
  return w->next_section <= w->sections ? (unsigned)w->next_section++ : 0;
}
unsigned GOMP_sections_next()
{
  sched_point();
  RtGuard g;
  bool c; Ws* w = ws_get(&c);
  return w->next_section <= w->sections ? (unsigned)w->next_section++ : 0;
}
void GOMP_sections_end() { if (g_cur) g_cur->omp_ws++; barrier_impl(); }
void GOMP_sections_end_nowait() { if (g_cur) g_cur->omp_ws++; }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned c, unsigned)
{ Ws w; w.sections = (int)c; w.init = true; parallel_impl(fn, d, n, &w); }
void GOMP_task(void (*fn)(void*), void* d, void (*cpy)(void*, void*), long sz, long al, bool, unsigned, void**, int, void*)
{
  if (!cpy) { fn(d); return; }
  char buf[4096];
  char* p = buf + ((al - (reinterpret_cast<u64>(buf) & (u64)(al - 1))) & (u64)(al - 1));
  if (sz + al > (long)sizeof buf) harness_error("OpenMP task argument too large");
  cpy(p, d);
  fn(p);
}
void GOMP_taskwait() {}
void GOMP_taskyield() { if (g_running && g_cur) yield_point(); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
void GOMP_ordered_start() { harness_error("ordered OpenMP loops are not modelled"); }
void GOMP_ordered_end() {}

int omp_get_thread_num() { return g_cur && g_cur->team ? g_cur->omp_num : 0; }
int omp_get_num_threads() { OmpTeam* t = team(); return t ? t->n : 1; }
int omp_get_max_threads() { return omp_nthreads_icv(); }
void omp_set_num_threads(int n) { if (g_cur) g_cur->omp_icv_nthreads = n < 1 ? 1 : n; }
int omp_in_parallel() { OmpTeam* t = team(); return t && t->active > 0; }
int omp_get_num_procs() { return 8; }
int omp_get_thread_limit() { return g_env.thread_limit; }
void omp_set_dynamic(int d) { if (g_cur) g_cur->omp_icv_dynamic = d != 0; }
int omp_get_dynamic() { return g_cur ? g_cur->omp_icv_dynamic : 0; }
void omp_set_nested(int n) { g_env.max_levels = n ? 8 : 1; }
int omp_get_nested() { return g_env.max_levels > 1; }
void omp_set_max_active_levels(int n) { if (n >= 0) g_env.max_levels = n; }
int omp_get_max_active_levels() { return g_env.max_levels; }
int omp_get_level() { OmpTeam* t = team(); return t ? t->level : 0; }
int omp_get_active_level() { OmpTeam* t = team(); return t ? t->active : 0; }
int omp_get_ancestor_thread_num(int l)
{
  OmpTeam* t = team(); int num = omp_get_thread_num();
  int lv = t ? t->level : 0;
  if (l < 0 || l > lv) return -1;
  while (lv > l) { num = t->num_in_parent; t = t->parent; lv--; }
  return l == 0 ? 0 : num;
}
int omp_get_team_size(int l)
{
  OmpTeam* t = team(); int lv = t ? t->level : 0;
  if (l < 0 || l > lv) return -1;
  while (lv > l) { t = t->parent; lv--; }
  return t && l > 0 ? t->n : 1;
}
double omp_get_wtime() { sched_point(); return (double)now_mono() * 1e-9; }
double omp_get_wtick() { return 1e-9; }
int omp_in_final() { return 0; }
void omp_set_schedule(int, int) {}
void omp_init_lock(void* l) { *static_cast<u32*>(l) = 0; }
static std::map<void*, Lock>& locks() { static std::map<void*, Lock> m; return m; }
static Lock* ol(void* l) { RtGuard g; return &locks()[l]; }
void omp_destroy_lock(void*) {}
void omp_set_lock(void* l) { lock_impl(ol(l), false); }
void omp_unset_lock(void* l) { unlock_impl(ol(l)); }
int omp_test_lock(void* l)
{ Lock* k = ol(l); sched_point(); RtGuard g; if (k->owner) return 0; k->owner = g_cur->id + 1; k->count = 1; hb_acquire_addr(k); return 1; }
void omp_init_nest_lock(void*) {}
void omp_destroy_nest_lock(void*) {}
void omp_set_nest_lock(void* l) { lock_impl(ol(l), true); }
void omp_unset_nest_lock(void* l) { unlock_impl(ol(l)); }
}
