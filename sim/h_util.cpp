// F01 copyable atomic, F02 scope guard, F03 OpenMP overrides, F04 future
// readiness, I01 seeded random streams.
#include "ctx.hpp"
#include <common_robotics_utilities/openmp_helpers.hpp>
#include <common_robotics_utilities/random_rotation_generator.hpp>
#include <common_robotics_utilities/simple_prngs.hpp>
#include <common_robotics_utilities/gaussian_distributions.hpp>
#include <common_robotics_utilities/utility.hpp>
#include <cmath>
#include <future>
#include <memory>
#include <set>

using namespace sim;
using namespace common_robotics_utilities;
using namespace ctx;
namespace oh = openmp_helpers;
using utility::CopyableMoveableAtomic;
using utility::OnScopeExit;

namespace
{
uint64_t h2(uint64_t a, uint64_t b) { return mix(mix(0x517e, a), b); }

// ===== F01 =====================================================================
constexpr int kRegs = 4;                 // 0..2 default order, 3 another order
enum OpKind { LOAD, STORE, ADD, SUB, COPY_ASSIGN, MOVE_ASSIGN, COPY_NEW, MOVE_NEW, SELF, OPS };
struct Op { OpKind k = LOAD; int r = 0, s = 0; int64_t v = 0; bool explicit_order = false; uint64_t inv = 0, resp = 0; int64_t got = 0; };

// Search for an order of all operations (assignments read their source and then
// write their target) that explains every result and the final values.
template <typename T>
struct Lin
{
  const std::vector<std::vector<Op>>& th; const T* fin; std::set<std::vector<int64_t>> seen; uint64_t visited = 0;
  struct S { T v[kRegs]; int pos[4]; bool half[4]; T held[4]; };
  bool go(const S& s)
  {
    visited++;
    std::vector<int64_t> key;
    for (T x : s.v) key.push_back((int64_t)x);
    for (size_t i = 0; i < th.size(); i++) { key.push_back(s.pos[i] * 2 + s.half[i]); key.push_back(s.half[i] ? (int64_t)s.held[i] : 0); }
    if (!seen.insert(key).second) return false;
    bool done = true; uint64_t first_resp = UINT64_MAX;
    for (size_t i = 0; i < th.size(); i++) if (s.pos[i] < (int)th[i].size()) { done = false; first_resp = std::min(first_resp, th[i][(size_t)s.pos[i]].resp); }
    if (done) { for (int r = 0; r < kRegs; r++) if (!(s.v[r] == fin[r])) return false; return true; }
    for (size_t i = 0; i < th.size(); i++)
    {
      if (s.pos[i] >= (int)th[i].size()) continue;
      const Op& o = th[i][(size_t)s.pos[i]];
      if (o.inv > first_resp) continue;
      S n = s; bool next = true;
      switch (o.k)
      {
        case LOAD: case COPY_NEW: case MOVE_NEW: if (!(s.v[o.s] == (T)o.got)) continue; break;
        case STORE: n.v[o.s] = (T)o.v; break;
        case ADD: if (!(s.v[o.s] == (T)o.got)) continue; n.v[o.s] = add(s.v[o.s], (T)o.v, true); break;
        case SUB: if (!(s.v[o.s] == (T)o.got)) continue; n.v[o.s] = add(s.v[o.s], (T)o.v, false); break;
        case COPY_ASSIGN: case MOVE_ASSIGN:
          if (!s.half[i]) { n.half[i] = true; n.held[i] = s.v[o.s]; next = false; }
          else { n.v[o.r] = s.held[i]; n.half[i] = false; }
          break;
        default: break;
      }
      if (next) n.pos[i]++;
      if (go(n)) return true;
    }
    return false;
  }
  static T add(T a, T b, bool plus)
  {
    if constexpr (std::is_same<T, bool>::value || std::is_floating_point<T>::value) return a;
    else { using U = typename std::make_unsigned<T>::type; return (T)(plus ? (U)((U)a + (U)b) : (U)((U)a - (U)b)); }
  }
};
template <typename T>
void atomic_history()
{
  constexpr bool arith = !std::is_same<T, bool>::value && !std::is_floating_point<T>::value;
  const size_t nt = 1 + draw(4), nops = 1 + draw(nt >= 3 ? 4 : 6);
  std::vector<std::vector<Op>> th(nt);
  const int regs = chance(1, 3) ? kRegs : 1 + (int)draw(2);
  for (auto& t : th) for (size_t i = 0; i < nops; i++)
  {
    Op o;
    o.k = (OpKind)draw(OPS); if (!arith && (o.k == ADD || o.k == SUB)) o.k = STORE;
    o.s = (int)draw((uint64_t)regs); o.r = (int)draw((uint64_t)regs);
    if ((o.k == COPY_ASSIGN || o.k == MOVE_ASSIGN) && o.r == o.s) o.k = SELF;
    o.v = chance(1, 4) ? (arith ? (int64_t)std::numeric_limits<T>::max() : 1000000) : range(-3, 100);
    if (std::is_same<T, bool>::value) o.v &= 1;
    o.explicit_order = chance(1, 4);
    t.push_back(o);
  }
  using A = CopyableMoveableAtomic<T>; using B = CopyableMoveableAtomic<T, std::memory_order_relaxed>;
  const int64_t init = chance(1, 2) ? 1 : (int64_t)(T)draw(200);
  A a[3] = {A((T)init), A(), A((T)1)}; B b((T)0);
  const uint32_t faults = kSched | bit(F_STALL);
  FaultScope fs(faults);
  uint64_t tick = 0;
  auto run = [&](size_t me)
  {
    for (Op& o : th[me])
    {
      { Quiet q; o.inv = ++tick; op(); }
      T got = T();
      const std::memory_order rd = o.explicit_order ? std::memory_order_acquire : std::memory_order_seq_cst;
      const std::memory_order wr = o.explicit_order ? std::memory_order_release : std::memory_order_seq_cst;
      const std::memory_order rw = o.explicit_order ? std::memory_order_acq_rel : std::memory_order_seq_cst;
      auto on = [&](int r, auto&& f) { if (r < 3) f(a[r]); else f(b); };
      switch (o.k)
      {
        case LOAD: on(o.s, [&](auto& x) { got = o.explicit_order ? x.load(rd) : x.load(); }); break;
        case STORE: on(o.s, [&](auto& x) { if (o.explicit_order) x.store((T)o.v, wr); else x.store((T)o.v); }); break;
        case ADD: if constexpr (arith) on(o.s, [&](auto& x) { got = o.explicit_order ? x.fetch_add((T)o.v, rw) : x.fetch_add((T)o.v); }); break;
        case SUB: if constexpr (arith) on(o.s, [&](auto& x) { got = o.explicit_order ? x.fetch_sub((T)o.v, rw) : x.fetch_sub((T)o.v); }); break;
        case COPY_ASSIGN: on(o.r, [&](auto& x) { on(o.s, [&](auto& y) { auto& z = x = static_cast<const std::remove_reference_t<decltype(y)>&>(y); if (&z != &x) fail("assign", "assignment returned another object"); }); }); break;
        case MOVE_ASSIGN: on(o.r, [&](auto& x) { on(o.s, [&](auto& y) { auto& z = x = std::move(y); if (&z != &x) fail("assign", "assignment returned another object"); }); }); break;
        case COPY_NEW:
          on(o.s, [&](auto& y) { const auto& cy = y; if (o.explicit_order) { A n(cy); got = n.load(); } else { B n(cy); got = n.load(); } }); break;
        case MOVE_NEW:
          on(o.s, [&](auto& y) { if (o.explicit_order) { A n(std::move(y)); got = n.load(); } else { B n(std::move(y)); got = n.load(); } }); break;
        case SELF:
          on(o.s, [&](auto& y) { auto& w = y; if (o.explicit_order) w = static_cast<const std::remove_reference_t<decltype(y)>&>(y); else w = std::move(y); }); break;
        default: break;
      }
      { Quiet q; o.got = (int64_t)got; o.resp = ++tick; event("op", o.k, o.got); }
    }
  };
  {
    Client c[4];
    for (size_t i = 1; i < nt; i++) c[i].start([&run, i]() { run(i); });
    run(0);
  }
  const T fin[kRegs] = {a[0].load(), a[1].load(), a[2].load(), b.load()};
  Quiet q;
  Lin<T> l{th, fin, {}, 0};
  typename Lin<T>::S s{}; s.v[0] = (T)init; s.v[1] = T(); s.v[2] = (T)1; s.v[3] = (T)0;
  for (int i = 0; i < 4; i++) { s.pos[i] = 0; s.half[i] = false; s.held[i] = T(); }
  if (!l.go(s))
  {
    static const char* names[] = {"load", "store", "add", "sub", "copy=", "move=", "copy", "move", "self="};
    std::string h; uint64_t shown = 0;
    for (size_t i = 0; i < th.size(); i++) for (auto& o : th[i]) if (shown++ < 24)
      h += " t" + std::to_string(i) + "[" + std::to_string(o.inv) + "," + std::to_string(o.resp) + "] " + names[o.k] + " r" + std::to_string(o.s) + (o.k == COPY_ASSIGN || o.k == MOVE_ASSIGN ? "->r" + std::to_string(o.r) : "") + " arg " + std::to_string(o.v) + " got " + std::to_string(o.got) + ";";
    fail("not-atomic", "no order of the operations explains their results:%s", h.c_str());
  }
  state(h2(l.visited, nt));
  if (nt > 1) probe("concurrent history explained");
}
// Data written before a default-order publication is visible to its reader.
void atomic_publication()
{
  struct Box { int64_t data[4]; std::vector<int> v; };
  const int how = (int)draw(5), see = (int)draw(6); const size_t readers = 1 + draw(3); const bool spin = chance(1, 2);
  FaultScope fs(kSched | bit(F_STALL));
  using A = CopyableMoveableAtomic<int64_t>;
  auto box = std::make_unique<Box>(); A flag(0); const A one(1);
  Client w, r[3];
  w.start([&]() {
    for (int i = 0; i < 4; i++) box->data[i] = 7 + i;
    box->v.assign(3, 9);
    switch (how)
    {
      case 0: flag.store(1); break;
      case 1: flag.fetch_add(1); break;
      case 2: flag.fetch_sub(-1); break;
      case 3: flag = one; break;
      default: { A local(1); flag = std::move(local); }
    }
  });
  for (size_t i = 0; i < readers; i++)
    r[i].start([&]() {
      for (int tries = 0; tries < (spin ? 400 : 3); tries++)
      {
        int64_t s;
        switch (see)
        {
          case 0: s = flag.load(); break;
          case 1: s = flag.fetch_add(0); break;
          case 2: s = flag.fetch_sub(0); break;
          case 3: { A c(flag); s = c.load(); break; }
          case 4: { A c(std::move(flag)); s = c.load(); break; }
          default: { A c; c = flag; s = c.load(); }
        }
        if (s == 1)
        {
          for (int k = 0; k < 4; k++) if (box->data[k] != 7 + k) fail("not-published", "data written before publication is missing");
          if (box->v.size() != 3) fail("not-published", "data written before publication is missing");
          { Quiet q; probe("publication observed"); op(); }
          return;
        }
        if (s != 0) fail("bad-value", "flag holds %lld, which was never stored", (long long)s);
        yield();
      }
    });
}
void run_f01()
{
  switch (draw(8))
  {
    case 0: case 1: atomic_publication(); break;
    case 2: atomic_history<int64_t>(); break;
    case 3: atomic_history<int32_t>(); break;
    case 4: atomic_history<uint8_t>(); break;
    case 5: atomic_history<bool>(); break;
    case 6: atomic_history<double>(); break;
    default: atomic_history<uint64_t>();
  }
}

// ===== F02 =====================================================================
struct GuardPlan { int action = 0, disable_at = -1, end = 0, inner = 0; bool heap = false, twice = false; };
struct GuardLog { std::vector<int> ran; int live = 0; };
struct Payload { std::shared_ptr<int> keep; int64_t pad[6]; };
struct GuardWorld
{
  std::vector<GuardPlan> p; GuardLog log; std::vector<int> want; int depth_seen = 0; uint64_t salt = 0; bool resources = false;
  void note(int i) { Quiet q; log.ran.push_back(i); event("action", i); }
  std::function<void()> action(size_t i)
  {
    const GuardPlan& g = p[i];
    GuardWorld* w = this; const int id = (int)i;
    switch (g.action)
    {
      case 1: { Payload pay; pay.keep = std::make_shared<int>(id); return [w, id, pay]() { w->note(id); if (*pay.keep != id) fail("bad-action", "the action's captured data changed"); }; }
      case 2: { auto v = std::vector<int>(5, id); return [w, id, v]() { for (int x : v) if (x != id) fail("bad-action", "the action's captured data changed"); w->note(id); }; }
      case 3: return std::bind([w](int k) { w->note(k); }, id);
      case 4: return [w, id]() { w->note(id); try { OnScopeExit nested([w, id]() { w->note(id + 100); }); } catch (const std::bad_alloc&) {} };
      default: return [w, id]() { w->note(id); };
    }
  }
  // Runs guard i and everything inside it; returns false if it ended early.
  void level(size_t i)
  {
    if (i >= p.size()) return;
    const GuardPlan& g = p[i];
    { Quiet q; op(); }
    if (g.action == 5 || g.action == 6)
    {
      bool refused = false;
      try
      {
        if (g.action == 5) { OnScopeExit e{std::function<void()>()}; (void)e; } else { OnScopeExit e{std::function<void()>(nullptr)}; (void)e; }
      }
      catch (const std::invalid_argument&) { refused = true; }
      catch (const std::bad_alloc&) { refused = true; }
      if (!refused) fail("empty-accepted", "a guard without an action was created");
      Quiet q; probe("empty action refused");
      level(i + 1);
      return;
    }
    if (g.heap)
    {
      std::unique_ptr<OnScopeExit> e = std::make_unique<OnScopeExit>(action(i));
      armed(i);
      body(i, *e);
      e.reset();
      after(i, g);
      return;
    }
    {
      const std::function<void()> f = action(i);
      OnScopeExit e(f);
      armed(i);
      if (g.twice) { OnScopeExit again(f); again.Disable(); if (again.IsEnabled()) fail("not-disabled", "a disarmed guard reports being armed"); }
      if (body(i, e)) return;
    }
    after(i, g);
  }
  void armed(size_t i) { Quiet q; if (std::count(log.ran.begin(), log.ran.end(), (int)i)) fail("too-early", "the action ran when the guard was created"); live.push_back((int)i); expect.push_back((int)i); }
  std::vector<int> live, expect;
  bool body(size_t i, OnScopeExit& e)
  {
    const GuardPlan& g = p[i];
    if (!e.IsEnabled()) fail("not-armed", "a new guard reports being disarmed");
    if (g.disable_at == 0) disarm(i, e);
    level(i + 1);
    if (g.disable_at == 1) disarm(i, e);
    if (g.disable_at == 2) { disarm(i, e); disarm(i, e); }
    bool on; { on = e.IsEnabled(); }
    Quiet q;
    if (on != (std::count(expect.begin(), expect.end(), (int)i) == 1)) fail("bad-state", "guard %zu reports being %s", i, on ? "armed" : "disarmed");
    if (std::count(log.ran.begin(), log.ran.end(), (int)i)) fail("too-early", "the action ran before the scope ended");
    if (g.end == 1) { probe("scope ended by exception"); throw_injected((int64_t)i); }
    return g.end == 2;
  }
  void disarm(size_t i, OnScopeExit& e)
  {
    e.Disable();
    if (e.IsEnabled()) fail("not-disabled", "a disarmed guard reports being armed");
    Quiet q; expect.erase(std::remove(expect.begin(), expect.end(), (int)i), expect.end()); probe("disarmed");
  }
  void after(size_t i, const GuardPlan&) { Quiet q; check_ran((int)i); }
  void check_ran(int i)
  {
    const long want_n = std::count(expect.begin(), expect.end(), i), n = std::count(log.ran.begin(), log.ran.end(), i);
    if (n != want_n) fail(n > want_n ? "ran-wrongly" : "not-run", "action %d ran %ld times, expected %ld", i, n, want_n);
  }
};
void run_f02()
{
  const size_t nt = chance(1, 3) ? 2 + draw(2) : 1;
  const bool alloc = nt == 1 && chance(1, 2);
  std::vector<GuardWorld> w(nt);
  for (auto& x : w)
  {
    const size_t n = 1 + draw(5);
    for (size_t i = 0; i < n; i++)
    {
      GuardPlan g; g.action = (int)draw(10); g.disable_at = (int)draw(6) - 3; g.end = chance(1, 2) ? 0 : (int)draw(3); g.heap = chance(1, 4); g.twice = chance(1, 5);
      x.p.push_back(g);
    }
  }
  const bool handover = chance(1, 5);
  std::vector<Client> c(nt);
  FaultScope fs(kSched | bit(F_STALL) | (alloc ? bit(F_ALLOC) : 0));
  auto run = [&](size_t i)
  {
    GuardWorld& x = w[i];
    EndCheck ec;
    const End e = attempt([&]() { x.level(0); });
    if (e == BAD_ALLOC && fired(F_ALLOC) == ec.a0) fail("wrong-exception", "bad_alloc without an allocation failure");
    if (e != RETURNED && e != INJECTED && e != BAD_ALLOC) fail("wrong-exception", "the scopes ended with an unexpected exception");
    Quiet q;
    // every armed guard ran exactly once, the innermost first
    for (int g = 0; g < (int)x.p.size(); g++) x.check_ran(g);
    std::vector<int> order; for (int g : x.log.ran) if (g < 100) order.push_back(g);
    std::vector<int> want(x.expect.rbegin(), x.expect.rend());
    if (order != want) fail("bad-order", "guard actions ran out of order");
    if (e == BAD_ALLOC) probe("guard not created for lack of memory");
  };
  for (size_t i = 1; i < nt; i++) c[i].start([&run, i]() { run(i); });
  run(0);
  for (size_t i = 1; i < nt; i++) c[i].join();
  if (handover && !alloc)
  {
    // a guard made here and ended on another thread
    int64_t n = 0; auto g = std::make_unique<OnScopeExit>([&n]() { n++; });
    { Client k; auto* gp = &g; k.start([gp]() { gp->reset(); }); }
    if (n != 1) fail("ran-wrongly", "action of a guard that ended on another thread ran %lld times", (long long)n);
    Quiet q; probe("ended on another thread");
  }
}

// ===== F03 =====================================================================
struct OmpNode { int n = 1; bool disable = false, heap = false, throws = false, user_sets = false, bad = false, in_region = false, region = false, nested = false, query = false, loop = false; std::vector<OmpNode> kids; };
OmpNode omp_node(int depth)
{
  OmpNode o;
  o.n = 1 + (int)draw(9); if (chance(1, 5)) o.n = 1 + (int)draw(70);
  o.disable = chance(1, 4); o.heap = chance(1, 4); o.throws = chance(1, 5); o.user_sets = chance(1, 8);
  if (chance(1, 6)) { o.bad = true; o.n = (int)range(-2, 0); if (chance(1, 4)) o.n = std::numeric_limits<int>::min(); }
  o.in_region = chance(1, 5); o.region = chance(2, 3); o.nested = chance(1, 10); o.query = chance(1, 2); o.loop = chance(1, 4);
  if (depth < 4) { const uint64_t k = draw(3); for (uint64_t i = 0; i < k; i++) o.kids.push_back(omp_node(depth + 1)); }
  return o;
}
void omp_expect(int want, const char* when)
{
#if defined(_OPENMP)
  const int have = omp_nthreads_icv();
  if (have != want) fail("wrong-setting", "%s the number of threads is set to %d, expected %d", when, have, want);
#else
  (void)want; (void)when;
#endif
}
void omp_queries(int want)
{
#if defined(_OPENMP)
  const int m = oh::GetMaxNumOmpThreads();
  if (m != want) fail("wrong-answer", "GetMaxNumOmpThreads is %d, the setting is %d", m, want);
  const int n = oh::GetNumOmpThreads();
  if (n != omp_last_delivered()) fail("wrong-answer", "GetNumOmpThreads is %d, a team of %d ran", n, omp_last_delivered());
  if (omp_last_requested() != want) fail("wrong-request", "parallel work asked for %d threads, the setting is %d", omp_last_requested(), want);
  if (n != want) { Quiet q; probe("delivered team differs from setting"); }
  if (oh::GetContextMaxNumOmpThreads() != want) fail("wrong-answer", "GetContextMaxNumOmpThreads is %d, the setting is %d", oh::GetContextMaxNumOmpThreads(), want);
  if (oh::GetContextNumOmpThreads() != 1 || oh::GetContextOmpThreadNum() != 0 || oh::IsOmpInParallel()) fail("wrong-answer", "queries outside a parallel region are wrong");
  if (!oh::IsOmpEnabledInBuild()) fail("wrong-answer", "OpenMP is said to be off");
  if (oh::GetOmpThreadLimit() < 1) fail("wrong-answer", "thread limit %d", oh::GetOmpThreadLimit());
#else
  if (oh::GetMaxNumOmpThreads() != 1 || oh::GetNumOmpThreads() != 1 || oh::GetContextMaxNumOmpThreads() != 1 || oh::GetContextNumOmpThreads() != 1 || oh::GetContextOmpThreadNum() != 0 || oh::IsOmpInParallel() || oh::GetOmpThreadLimit() != 1 || oh::IsOmpEnabledInBuild())
    fail("wrong-answer", "queries without OpenMP are wrong");
  (void)want;
#endif
}
#if defined(_OPENMP)
// regions nested in regions: what the library reports is what the runtime runs,
// and an override is refused exactly where some enclosing team is a real one
void omp_nested(int depth, int want, int n)
{
  #pragma omp parallel
  {
    const int me = oh::GetContextOmpThreadNum(), size = oh::GetContextNumOmpThreads(); const bool in = oh::IsOmpInParallel();
    if (me != omp_get_thread_num() || size != omp_get_num_threads() || size != omp_get_team_size(omp_get_level()) || me >= size) fail("wrong-answer", "nested: thread %d of %d reported, the runtime runs %d of %d", me, size, omp_get_thread_num(), omp_get_num_threads());
    if (in != (omp_get_active_level() > 0)) fail("wrong-answer", "nested: IsOmpInParallel is %d with %d enclosing teams of several threads", (int)in, omp_get_active_level());
    if (oh::GetContextMaxNumOmpThreads() != want) fail("wrong-answer", "nested: GetContextMaxNumOmpThreads is %d, the setting is %d", oh::GetContextMaxNumOmpThreads(), want);
    if ((n + me + depth) % 3 == 0)
    {
      bool made = false;
      const int mine = (n & 1) ? 1 + n % 7 : 1;
      try
      {
        std::unique_ptr<oh::ChangeOmpNumThreadsWrapper> w;
        if (n & 1) w = std::make_unique<oh::ChangeOmpNumThreadsWrapper>(mine); else w = std::make_unique<oh::DisableOmpWrapper>();
        made = true;
        omp_expect(mine, "inside an override in a team of one");
      }
      catch (const std::runtime_error&) {}
      if (made == in) fail(made ? "not-refused" : "refused", "an override was %s %d levels deep inside %d teams of several threads", made ? "created" : "refused", omp_get_level(), omp_get_active_level());
      omp_expect(want, "after an override tried in a nested region");
      Quiet q; probe(made ? "override in a team of one" : "override refused in nested region");
    }
    if (depth > 1 && (me == 0 || me == size - 1)) omp_nested(depth - 1, want, n);
  }
}
#endif
// a parallel region whose threads look at the queries; some try an override
void omp_region(int want, bool try_inside, int n)
{
#if defined(_OPENMP)
  int seen[512] = {0}; int size = 0, refused = 0, tried = 0; bool serial = false;
  #pragma omp parallel
  {
    const int me = oh::GetContextOmpThreadNum(), team = oh::GetContextNumOmpThreads(); const bool in = oh::IsOmpInParallel();
    const int max = oh::GetContextMaxNumOmpThreads();
    if (max != want) fail("wrong-answer", "GetContextMaxNumOmpThreads in a region is %d, the setting is %d", max, want);
    if (in != (team > 1)) fail("wrong-answer", "IsOmpInParallel is %d in a team of %d", (int)in, team);
    if (me < 0 || me >= team) fail("wrong-answer", "thread number %d in a team of %d", me, team);
    if (me < 512) seen[me]++;
    if (me == 0) { size = team; serial = !in; }
    bool made = false, no = false;
    if (try_inside && in)
    {
      try { if (n & 1) { oh::ChangeOmpNumThreadsWrapper w(n); made = true; } else { oh::DisableOmpWrapper w; made = true; } }
      catch (const std::exception&) { no = true; }
      if (made) fail("not-refused", "an override was created inside a parallel region");
      omp_expect(want, "after a refused override inside a region");
      Quiet q; tried++; refused += no; probe("override refused inside region");
    }
    if (me == team - 1 && h2(3, (uint64_t)n) % 3 == 0)
    {
      // queries nested in a region
      const int inner = oh::GetNumOmpThreads();
      if (inner != omp_last_delivered()) fail("wrong-answer", "nested GetNumOmpThreads is %d, a team of %d ran", inner, omp_last_delivered());
    }
  }
  (void)serial; (void)refused; (void)tried;
  for (int i = 0; i < size && i < 512; i++) if (seen[i] != 1) fail("wrong-answer", "thread number %d was reported %d times", i, seen[i]);
#else
  (void)want; (void)try_inside; (void)n;
#endif
}

void omp_tree(const OmpNode& o, int current)
{
  { Quiet q; op(); }
  if (o.bad)
  {
    bool refused = false;
    try { oh::ChangeOmpNumThreadsWrapper w(o.n); } catch (const std::exception&) { refused = true; }
    if (!refused) fail("not-refused", "an override with %d threads was created", o.n);
    omp_expect(current, "after a refused override");
    Quiet q; probe("bad count refused");
    return;
  }
  const int mine = o.disable ? 1 : o.n;
  auto inside = [&]()
  {
    omp_expect(mine, "inside an override");
    if (o.query) omp_queries(mine);
    if (o.region) omp_region(mine, o.in_region, o.n);
#if defined(_OPENMP)
    if (o.nested) omp_nested(2 + o.n % 2, mine, o.n);
#endif
    if (o.loop) cru::parallelism::StaticParallelForIndexLoop(DegreeOfParallelism::FromOmp(), 0, 5, [&](int32_t, int64_t) { yield(); }, ParallelForBackend::BEST_AVAILABLE);
    for (auto& k : o.kids)
    {
      try { omp_tree(k, mine); } catch (const Injected&) { Quiet q; probe("override ended by exception"); }
      omp_expect(mine, "after a nested override");
    }
#if defined(_OPENMP)
    if (o.user_sets) omp_set_num_threads(3);
#endif
    if (o.throws) throw_injected(1);
  };
  if (o.heap)
  {
    std::unique_ptr<oh::ChangeOmpNumThreadsWrapper> w;
    if (o.disable) w = std::make_unique<oh::DisableOmpWrapper>(); else w = std::make_unique<oh::ChangeOmpNumThreadsWrapper>(o.n);
    inside();
  }
  else if (o.disable) { oh::DisableOmpWrapper w; inside(); }
  else { oh::ChangeOmpNumThreadsWrapper w(o.n); inside(); }
}
void run_f03()
{
  set_omp_env(random_omp_env());
  std::vector<OmpNode> t; const size_t n = 1 + draw(3); for (size_t i = 0; i < n; i++) t.push_back(omp_node(1));
  const int first = chance(1, 3) ? 1 + (int)draw(6) : 0; const size_t threads = chance(1, 3) ? 2 : 1;
  const bool ask = chance(1, 2);
  FaultScope fs(kSched | bit(F_STALL));
  auto run = [&](size_t k)
  {
#if defined(_OPENMP)
    if (first) omp_set_num_threads(first + (int)k);
#endif
    const int before = omp_nthreads_icv();
    (void)k;
    for (auto& o : t)
    {
      try { omp_tree(o, before); } catch (const Injected&) { Quiet q; probe("override ended by exception"); }
      omp_expect(before, "after an override");
    }
    if (ask) omp_queries(before);
  };
  std::vector<Client> c(threads);
  for (size_t i = 1; i < threads; i++) c[i].start([&run, i]() { run(i); });
  run(0);
}

// ===== F04 =====================================================================
struct Obs { bool begun = false, done = false; };
template <typename T, typename G>
void poll(std::future<T>& f, Obs& o, int times, bool never, const G& pause, bool& ready)
{
  for (int i = 0; i < times; i++)
  {
    bool done_before; { Quiet q; done_before = o.done; op(); }
    const uint64_t b0 = blocks();
    const bool r = utility::IsFutureReady(f);
    Quiet q;
    if (blocks() != b0) fail("blocked", "checking a future waited for something");
    if (r && !o.begun) fail("lied-ready", "a future without a result was reported ready");
    if (!r && done_before) fail("lied-unready", "a future with a result was reported not ready");
    if (ready && !r) fail("lied-unready", "a future stopped being ready");
    if (r && never) fail("lied-ready", "a deferred future was reported ready without being run");
    if (r && !o.done) probe("seen ready while the producer is still inside");
    if (!r) probe("seen unready");
    ready = r;
    event("poll", r);
    pause(i);
  }
}
struct Big { std::vector<int> v; std::unique_ptr<int> p; };
template <typename T> T value_for(int);
template <> int value_for<int>(int k) { return k; }
template <> std::string value_for<std::string>(int k) { return std::string((size_t)(20 + k % 20), 'x'); }
template <> Big value_for<Big>(int k) { Big b; b.v.assign((size_t)(k % 20), k); b.p = std::make_unique<int>(k); return b; }
template <> void value_for<void>(int) {}
bool same(int a, int k) { return a == k; }
bool same(const std::string& a, int k) { return a == value_for<std::string>(k); }
bool same(const Big& a, int k) { return a.v.size() == (size_t)(k % 20) && a.p && *a.p == k; }
template <typename T>
void take(std::future<T>& f, int k, bool throws, bool broken, bool may_block, bool was_ready)
{
  const uint64_t b0 = blocks();
  bool threw = false, was_broken = false;
  try
  {
    if constexpr (std::is_void<T>::value) f.get();
    else { const T v = f.get(); if (!same(v, k)) fail("wrong-result", "the future holds another result"); }
  }
  catch (const Injected& e) { threw = true; if (e.tag != k) fail("wrong-result", "the future holds another exception"); }
  catch (const std::future_error& e) { was_broken = true; if (e.code() != std::future_errc::broken_promise) fail("wrong-result", "unexpected future error"); }
  if (threw != (throws && !broken) || was_broken != broken) fail("wrong-result", "the future ended the wrong way");
  Quiet q;
  if (was_ready && !may_block && blocks() != b0) fail("not-really-ready", "taking the result of a ready future had to wait");
  if (was_ready) probe("result taken when ready");
}
template <typename T>
void future_run()
{
  const int how = (int)draw(5); const bool throws = chance(1, 4), hostage = chance(1, 2), slow = chance(1, 2), broken = how == 0 && chance(1, 6);
  const int times = 1 + (int)draw(8), k = (int)draw(100); const bool until = chance(1, 2); const int64_t nap = chance(1, 3) ? (int64_t)draw(2000000000) : 0;
  FaultScope fs(kSchedAll);
  Obs o; bool ready = false;
  std::atomic<bool> go{!hostage}; std::mutex m; std::condition_variable cv;
  // the producer may wait for the consumer's checks to come back
  auto wait_go = [&]() { std::unique_lock<std::mutex> l(m); cv.wait(l, [&]() { return go.load(); }); };
  auto release = [&]() { { std::lock_guard<std::mutex> l(m); go.store(true); } cv.notify_all(); };
  auto pause = [&](int i) { (void)i; };
  auto body = [&]() -> T { wait_go(); if (slow) { advance_ns(1000000); yield(); } { Quiet q; o.begun = true; } if (throws) throw_injected(k); return value_for<T>(k); };
  std::future<T> f; Client c;
  if (how == 0)
  {
    auto pr = std::make_shared<std::promise<T>>(); f = pr->get_future();
    c.start([&, pr]() mutable {
      wait_go(); if (slow) advance_ns(500000);
      { Quiet q; o.begun = true; }
      if (broken) pr.reset();
      else if (throws) pr->set_exception(std::make_exception_ptr(Injected(k)));
      else if constexpr (std::is_void<T>::value) pr->set_value(); else pr->set_value(value_for<T>(k));
      { Quiet q; o.done = true; }
      if (slow) yield();
    });
    pr.reset();
  }
  else if (how == 1 || how == 2)
  {
    auto task = std::make_shared<std::packaged_task<T()>>(body); f = task->get_future();
    c.start([&o, task]() { (*task)(); Quiet q; o.done = true; });
  }
  else if (how == 3) f = std::async(std::launch::async, body);
  else f = std::async(std::launch::deferred, body);
  poll(f, o, times, how == 4, pause, ready);
  if (hostage) { Quiet q; probe("producer held back during the checks"); }
  if (hostage) release();
  // checks go on while the producer finishes
  const int more = until && how != 4 ? 400 : (int)(how == 4 ? 2 : 4);
  for (int i = 0; i < more && !(until && ready && i > 3); i++)
  {
    poll(f, o, 1, how == 4, pause, ready);
    if (nap) std::this_thread::sleep_for(std::chrono::nanoseconds(nap)); else yield();
  }
  if (how == 4) { Quiet q; if (o.begun) fail("ran-deferred", "checking a deferred future ran its function"); probe("deferred future"); }
  take(f, k, throws, broken, how >= 3, ready);
}
void run_f04()
{
  switch (draw(4)) { case 0: future_run<void>(); break; case 1: future_run<std::string>(); break; case 2: future_run<Big>(); break; default: future_run<int>(); }
}

// ===== I01 =====================================================================
enum StreamKind { DRAW, DRAWS, DISCARD, COPY, ASSIGN, RESEED, QUAT, EULER, RAW, DIST, STREAM_OPS };
struct SOp { StreamKind k = DRAW; uint64_t a = 0, b = 0; };
uint64_t draw_seed()
{
  switch (draw(6)) { case 0: return 0; case 1: return UINT64_MAX; case 2: return draw(4); case 3: return 0x9E3779B97F4A7C15ull * draw(8); case 4: return (uint64_t)0 - 0x9E3779B97F4A7C15ull * (1 + draw(3)); default: return draw(UINT64_MAX); }
}
// The published algorithms the generators name, written down independently.
struct RefSplitMix
{
  uint64_t x; explicit RefSplitMix(uint64_t s) : x(s) {}
  uint64_t operator()() { x += 0x9E3779B97F4A7C15ull; uint64_t r = x; r = (r ^ r >> 30) * 0xBF58476D1CE4E5B9ull; r = (r ^ r >> 27) * 0x94D049BB133111EBull; return r ^ r >> 31; }
};
struct RefXorShift128
{
  uint64_t s[2]; explicit RefXorShift128(uint64_t v) { RefSplitMix m(v); s[0] = m(); s[1] = m(); }
  uint64_t operator()()
  {
    uint64_t a = s[0]; const uint64_t b = s[1]; a ^= a << 23; const uint64_t n = a ^ b ^ (a >> 18) ^ (b >> 5);
    s[0] = b; s[1] = n; return n + b;
  }
};
struct RefXorShift1024
{
  std::deque<uint64_t> waiting; uint64_t last;   // oldest first; the value made last
  explicit RefXorShift1024(uint64_t v) { RefSplitMix m(v); last = m(); for (int k = 1; k < 16; k++) waiting.push_back(m()); waiting.push_back(last); }
  uint64_t operator()()
  {
    uint64_t b = waiting.front(); waiting.pop_front(); b ^= b << 31;
    last = b ^ last ^ (b >> 11) ^ (last >> 30); waiting.push_back(last); return last * 1181783497276652981ull;
  }
};
template <typename G> struct RefOf;
template <> struct RefOf<simple_prngs::SplitMix64PRNG> { using type = RefSplitMix; };
template <> struct RefOf<simple_prngs::XorShift128PlusPRNG> { using type = RefXorShift128; };
template <> struct RefOf<simple_prngs::XorShift1024StarPRNG> { using type = RefXorShift1024; };
void check_quat(const Eigen::Quaterniond& q) { const double n = q.coeffs().norm(); if (!(std::abs(n - 1.0) < 1e-9)) fail("bad-rotation", "quaternion of length %.17g", n); }
void check_euler(const Eigen::Vector3d& e)
{
  const double lim = M_PI + 1e-9;
  if (!(std::abs(e.x()) <= lim && std::abs(e.z()) <= lim && std::isfinite(e.y()) && std::abs(e.y()) <= 2 * lim)) fail("bad-rotation", "Euler angles %g %g %g", e.x(), e.y(), e.z());
}
template <typename G>
struct Stream
{
  // The reference: a generator made for this seed only ever drawn one by one.
  uint64_t seed; std::vector<uint64_t> val; G ref; uint64_t pos = 0;
  explicit Stream(uint64_t s) : seed(s), ref(s) {}
};
template <typename G>
void stream_history(const std::vector<SOp>& plan, uint64_t seed0, uint64_t me, const std::vector<std::vector<uint64_t>>& table, const std::vector<uint64_t>& seeds)
{
  // table[i][k]: value k of a fresh generator with seed i
  (void)me;
  size_t cur = (size_t)seed0; uint64_t pos = 0;
  G g(seeds[cur]);
  G other(seeds[0]); size_t ocur = 0; uint64_t opos = 0;
  random_rotation_generator::RandomRotationGenerator rot;
  const auto& T = table;
  auto expect = [&](uint64_t v, const char* how) {
    if (v != T[cur][pos]) fail("wrong-stream", "after %llu draws (%s) seed %llu gives %llx, a fresh generator %llx", (unsigned long long)pos, how, (unsigned long long)seeds[cur], (unsigned long long)v, (unsigned long long)T[cur][pos]);
    pos++;
  };
  // continues the same stream on a fresh generator, for derived quantities
  auto fresh = [&]() { G f(seeds[cur]); for (uint64_t i = 0; i < pos; i++) f(); return f; };
  const uint64_t limit = T[0].size() - 40;
  for (const SOp& o : plan)
  {
    { Quiet q; op(); }
    if (pos >= limit || opos >= limit) { g.seed(seeds[cur]); pos = 0; other.seed(seeds[ocur]); opos = 0; }
    switch (o.k)
    {
      case DRAW: expect(g(), "draw"); break;
      case DRAWS: for (uint64_t i = 0; i < o.a % 24; i++) { expect(g(), "draw"); if (o.b & 1) yield(); } break;
      case DISCARD: { const uint64_t n = std::min(o.a % 40, limit - pos); g.discard(n); pos += n; { Quiet q; probe(n ? "skipped ahead" : "skipped nothing"); } break; }
      case COPY: { G c(g); other = c; ocur = cur; opos = pos; const uint64_t p = pos; expect(c(), "copy"); pos = p; break; }
      case ASSIGN: std::swap(g, other); std::swap(cur, ocur); std::swap(pos, opos); break;
      case RESEED: cur = o.a % seeds.size(); if (pos) { Quiet q; probe("reseeded a used generator"); } pos = 0; g.seed(seeds[cur]); break;
      case QUAT: case RAW: case EULER:
      {
        G f = fresh(); const G before = f; random_rotation_generator::RandomRotationGenerator r2;
        if (o.k == EULER)
        {
          const Eigen::Vector3d a = rot.GetEulerAngles(g), b = r2.GetEulerAngles(f);
          if (a != b) fail("unequal-rotations", "equal streams give different Euler angles"); check_euler(a);
          if (o.b & 1) { G h = before; const std::vector<double> v = r2.GetRawEulerAngles(h); if (v.size() != 3 || v[0] != a.x() || v[1] != a.y() || v[2] != a.z()) fail("unequal-rotations", "raw Euler angles differ from the angles of the same stream"); }
        }
        else
        {
          const Eigen::Quaterniond a = rot.GetQuaternion(g), b = r2.GetQuaternion(f);
          if (a.coeffs() != b.coeffs()) fail("unequal-rotations", "equal streams give different quaternions"); check_quat(a);
          if (o.k == RAW) { G h = before; const std::vector<double> v = r2.GetRawQuaternion(h); if (v.size() != 4 || v[0] != a.x() || v[1] != a.y() || v[2] != a.z() || v[3] != a.w()) fail("unequal-rotations", "raw quaternion differs from the quaternion of the same stream"); }
        }
        // both consumed the same number of values
        const uint64_t v = g(); if (v != f()) fail("unequal-rotations", "rotations from equal streams used different numbers of values");
        uint64_t n = pos; while (n < T[cur].size() && T[cur][n] != v) n++;
        if (n == T[cur].size()) fail("wrong-stream", "the generator left its stream"); pos = n + 1;
        break;
      }
      default:
      {
        G f = fresh(); std::uniform_real_distribution<double> d(0.0, 1.0);
        for (int i = 0; i < 3; i++) { const double x = d(g), y = d(f); if (x != y || !(x >= 0 && x < 1)) fail("wrong-stream", "distribution over equal streams gives %g and %g", x, y); pos++; }
      }
    }
    if (pos < limit) { G c(g); const uint64_t p = pos; expect(c(), "look ahead"); pos = p; }
  }
}
template <typename G>
void stream_run()
{
  if (G::min() != 0 || G::max() != UINT64_MAX) fail("bad-limits", "the generator claims a narrower range than it has");
  const size_t nt = 1 + draw(3), ns = 1 + draw(4);
  std::vector<uint64_t> seeds, first; for (size_t i = 0; i < ns; i++) seeds.push_back(draw_seed());
  std::vector<std::vector<SOp>> plan(nt);
  for (auto& p : plan)
  {
    first.push_back(draw(ns));
    const size_t n = 2 + draw(12);
    for (size_t i = 0; i < n; i++) { SOp o; o.k = (StreamKind)draw(STREAM_OPS); o.a = draw(1000); o.b = draw(4); p.push_back(o); }
  }
  std::vector<std::vector<uint64_t>> table;
  { Quiet q; for (uint64_t s : seeds) { G g(s); std::vector<uint64_t> v; for (int i = 0; i < 260; i++) v.push_back(g());
    typename RefOf<G>::type r(s); for (int i = 0; i < 260; i++) if (r() != v[(size_t)i]) fail("wrong-algorithm", "value %d from seed %llu is not the one of the algorithm the generator names", i, (unsigned long long)s);
    table.push_back(v); } }
  FaultScope fs(kSched | bit(F_STALL));
  std::vector<Client> c(nt);
  for (size_t i = 1; i < nt; i++) c[i].start([&, i]() { stream_history<G>(plan[i], first[i], i, table, seeds); });
  stream_history<G>(plan[0], first[0], 0, table, seeds);
  if (nt > 1) { Quiet q; probe("generators on several threads"); }
}
// skipping far ahead, in one or several calls, equals drawing that many values
template <typename G>
void leap_run()
{
  const uint64_t seed = draw_seed(), used = chance(1, 2) ? draw(40) : 0;
  std::vector<uint64_t> leaps;
  for (uint64_t i = 0, n = 1 + draw(3); i < n; i++)
  {
    static const uint64_t at[] = {255, 1023, 4095, 32767, 65535, 131071, 200000};
    const uint64_t base = at[draw(7)];
    leaps.push_back(chance(1, 2) ? base - 2 + draw(8) : 1 + draw(base + 1));
  }
  const bool copied = chance(1, 3);
  Quiet q;
  typename RefOf<G>::type ref(seed); G g(seed);
  for (uint64_t i = 0; i < used; i++) { ref(); g(); }
  for (const uint64_t n : leaps)
  {
    for (uint64_t i = 0; i < n; i++) ref();
    if (copied) { G c(g); c.discard(n); g = c; } else g.discard(n);
    for (int i = 0; i < 20; i++)
      if (g() != ref()) fail("wrong-stream", "skipping %llu values does not lead where drawing them does (seed %llu)", (unsigned long long)n, (unsigned long long)seed);
    op(); event("leap", (int64_t)n); probe(n > 65535 ? "skipped more than 65535 values" : "skipped far ahead");
  }
}
// rotations from arbitrary unit streams, including both ends of the interval
void rotation_run()
{
  const uint64_t salt = draw(1u << 20), ends = draw(4); const int n = 1 + (int)draw(10);
  auto at = [&](uint64_t i) { const uint64_t h = h2(salt, i); if (ends && h % 5 < ends) return h % 2 ? 0.0 : std::nextafter(1.0, 0.0); return (double)(h >> 11) * 0x1p-53; };
  FaultScope fs(kSched);
  for (int i = 0; i < n; i++)
  {
    for (int k = 0; k < 2; k++)
    {
      uint64_t a = (uint64_t)i * 100, b = a;
      using R = random_rotation_generator::RandomRotationGenerator;
      std::function<double()> fa = [&]() { return at(a++); }, fb = [&]() { return at(b++); };
      if (k == 0) { const auto x = R::GenerateUniformRandomQuaternion(fa), y = R::GenerateUniformRandomQuaternion(fb); if (x.coeffs() != y.coeffs() || a != b) fail("unequal-rotations", "equal streams give different quaternions"); check_quat(x); }
      else { const auto x = R::GenerateUniformRandomEulerAngles(fa), y = R::GenerateUniformRandomEulerAngles(fb); if (x != y || a != b) fail("unequal-rotations", "equal streams give different Euler angles"); check_euler(x); }
    }
    Quiet q; op();
  }
}
// Rotations from a generator are spread uniformly over all rotations: the first
// and second moments of their matrices are those of the uniform distribution.
// By Hoeffding's inequality a correct generator fails with probability below 1e-12.
struct Moments { double one[9] = {0}, two[9][9] = {{0}}; };
__attribute__((no_sanitize("thread"), noinline)) void tally(Moments& m, const double* v, bool euler)
{
  double r[9];
  if (euler)
  {
    const double cx = cos(v[0]), sx = sin(v[0]), cy = cos(v[1]), sy = sin(v[1]), cz = cos(v[2]), sz = sin(v[2]);
    r[0] = cz * cy; r[1] = cz * sy * sx - sz * cx; r[2] = cz * sy * cx + sz * sx;
    r[3] = sz * cy; r[4] = sz * sy * sx + cz * cx; r[5] = sz * sy * cx - cz * sx;
    r[6] = -sy; r[7] = cy * sx; r[8] = cy * cx;
  }
  else
  {
    const double x = v[0], y = v[1], z = v[2], w = v[3];
    r[0] = 1 - 2 * (y * y + z * z); r[1] = 2 * (x * y - w * z); r[2] = 2 * (x * z + w * y);
    r[3] = 2 * (x * y + w * z); r[4] = 1 - 2 * (x * x + z * z); r[5] = 2 * (y * z - w * x);
    r[6] = 2 * (x * z - w * y); r[7] = 2 * (y * z + w * x); r[8] = 1 - 2 * (x * x + y * y);
  }
  for (int a = 0; a < 9; a++) { m.one[a] += r[a]; for (int b = a; b < 9; b++) m.two[a][b] += r[a] * r[b]; }
}
template <typename G>
void uniform_run()
{
  random_rotation_generator::RandomRotationGenerator rot; G g(draw(UINT64_MAX)); const uint64_t k = draw(4); const int n = 12000;
  Quiet q; Moments m;
  for (int i = 0; i < n; i++)
  {
    double v[4];
    if (k == 0) { const Eigen::Quaterniond r = rot.GetQuaternion(g); v[0] = r.x(); v[1] = r.y(); v[2] = r.z(); v[3] = r.w(); }
    else if (k == 1) { const std::vector<double> r = rot.GetRawQuaternion(g); for (size_t a = 0; a < 4; a++) v[a] = r[a]; }
    else if (k == 2) { const Eigen::Vector3d r = rot.GetEulerAngles(g); for (int a = 0; a < 3; a++) v[a] = r(a); }
    else { const std::vector<double> r = rot.GetRawEulerAngles(g); for (size_t a = 0; a < 3; a++) v[a] = r[a]; }
    tally(m, v, k > 1);
  }
  const double lim = std::sqrt(2.0 * std::log(2.0 * 54 / 1e-12) / n);
  for (int a = 0; a < 9; a++)
  {
    if (!(std::abs(m.one[a] / n) < lim)) fail("not-uniform", "entry %d of random rotation matrices averages %g over %d samples", a, m.one[a] / n, n);
    for (int b = a; b < 9; b++)
    {
      const double want = a == b ? 1.0 / 3 : 0.0;
      if (!(std::abs(m.two[a][b] / n - want) < lim)) fail("not-uniform", "entries %d and %d of random rotation matrices have the product %g instead of %g over %d samples", a, b, m.two[a][b] / n, want, n);
    }
  }
  op(); event("uniform", (int64_t)k); probe("distribution of rotations");
}
void run_i01()
{
  if (chance(1, 160))
  {
    switch (draw(3))
    {
      case 0: uniform_run<simple_prngs::SplitMix64PRNG>(); break;
      case 1: uniform_run<simple_prngs::XorShift128PlusPRNG>(); break;
      default: uniform_run<std::mt19937_64>();
    }
    return;
  }
  if (chance(1, 8))
  {
    switch (draw(3))
    {
      case 0: leap_run<simple_prngs::SplitMix64PRNG>(); break;
      case 1: leap_run<simple_prngs::XorShift128PlusPRNG>(); break;
      default: leap_run<simple_prngs::XorShift1024StarPRNG>();
    }
    return;
  }
  switch (draw(7))
  {
    case 0: case 1: stream_run<simple_prngs::SplitMix64PRNG>(); break;
    case 2: case 3: stream_run<simple_prngs::XorShift128PlusPRNG>(); break;
    case 4: case 5: stream_run<simple_prngs::XorShift1024StarPRNG>(); break;
    default: rotation_run();
  }
}
// ===== I04 =====================================================================
// A source of unit reals that is as awkward as [0, 1) allows.
struct UnitSource
{
  uint64_t salt = 0, used = 0; int ends = 0; bool slow = false, throws = false; double force = -1;
  double peek(uint64_t i) const
  {
    if (force >= 0) return force;
    const uint64_t h = h3(salt, i);
    if ((int)(h % 8) < ends)
      switch (h / 8 % 6) { case 0: return 0.0; case 1: return std::nextafter(1.0, 0.0); case 2: return std::numeric_limits<double>::denorm_min(); case 3: return 0.5; case 4: return std::nextafter(0.5, 0.0); default: return (double)(h % 7) / 7.0; }
    return (double)(h >> 11) * 0x1p-53;
  }
  double operator()() { if (slow) yield(); if (throws && fault(F_THROW)) throw_injected(4); return peek(used++); }
  static uint64_t h3(uint64_t a, uint64_t b) { return mix(mix(0x51de, a), b); }
};
template <typename I>
void choices(uint64_t salt, uint64_t rounds, int ends, bool slow, bool throws, uint32_t faults)
{
  using U = typename std::make_unsigned<I>::type;
  UnitSource src; src.salt = salt; src.ends = ends; src.slow = slow; src.throws = throws;
  const utility::UniformUnitRealFunction fn = std::ref(src);
  const I lo = std::numeric_limits<I>::min(), hi = std::numeric_limits<I>::max();
  auto value = [&](uint64_t k) -> I
  {
    const uint64_t h = UnitSource::h3(salt + 1, k);
    switch (h % 8)
    {
      case 0: return (I)(lo + (I)(h / 8 % 3)); case 1: return (I)(hi - (I)(h / 8 % 3)); case 2: return (I)(h / 8 % 3); case 3: return (I)(U)((U)0 - (U)(h / 8 % 3));
      case 4: return (I)(hi / 2 + (I)(h / 8 % 3)); case 5: return (I)(h >> (8 + h / 8 % 56)); default: return (I)(h >> 8);
    }
  };
  for (uint64_t r = 0; r < rounds; r++)
  {
    src.force = r % 5 == 3 ? 0.0 : r % 5 == 4 ? std::nextafter(1.0, 0.0) : -1;
    const uint64_t before = src.used; const double u = src.peek(before);
    const I a = value(2 * r), b = value(2 * r + 1);
    EndCheck ec; std::string msg; bool refused = false;
    if (r % 2)
    {
      I got = 0;
      End e; { FaultScope fs(faults); e = attempt([&]() { try { got = utility::GetUniformRandomIndex<I>(fn, a); } catch (const Injected&) { throw; } catch (const std::invalid_argument&) { refused = true; } }, &msg); }
      Quiet q; op(); ec.check(e, "choosing an index", msg); event("index", (int64_t)got, (int64_t)a);
      if (e != RETURNED) continue;
      if (refused != (a < 1)) fail("wrong-refusal", "choosing among %lld items was %s", (long long)a, refused ? "refused" : "accepted");
      if (refused) { probe("choice from nothing refused"); continue; }
      if (got < 0 || got >= a) fail("out-of-range", "chose index %llu of %llu with %.17g", (unsigned long long)got, (unsigned long long)a, u);
      // the item that the unit real falls on
      const long double at = (long double)u * (long double)a, slack = (long double)a * 0x1p-51L;
      if ((long double)got > at + slack || (long double)got + 1 < at - slack) fail("wrong-choice", "%.17g of %llu items chose item %llu", u, (unsigned long long)a, (unsigned long long)got);
    }
    else
    {
      I got = 0;
      End e; { FaultScope fs(faults); e = attempt([&]() { try { got = utility::GetUniformRandomInRange<I>(fn, a, b); } catch (const Injected&) { throw; } catch (const std::invalid_argument&) { refused = true; } }, &msg); }
      Quiet q; op(); ec.check(e, "choosing from a range", msg); event("range", (int64_t)got, (int64_t)a);
      if (e != RETURNED) continue;
      if (refused != (a > b)) fail("wrong-refusal", "choosing from [%lld, %lld] was %s", (long long)a, (long long)b, refused ? "refused" : "accepted");
      if (refused) { probe("inverted range refused"); continue; }
      if (got < a || got > b) fail("out-of-range", "chose %lld from [%lld, %lld] with %.17g", (long long)got, (long long)a, (long long)b, u);
      const long double n = (long double)b - (long double)a + 1, off = (long double)got - (long double)a, at = (long double)u * n, slack = n * 0x1p-51L;
      if (off > at + slack || off + 1 < at - slack) fail("wrong-choice", "%.17g of [%lld, %lld] chose %lld", u, (long long)a, (long long)b, (long long)got);
      if (n > (long double)hi) probe("range larger than its type");
    }
    Quiet q;
    if (src.used != before + 1) fail("wrong-draws", "one choice used %llu random numbers", (unsigned long long)(src.used - before));
  }
}
void run_i04()
{
  const size_t nt = 1 + draw(3);
  struct P { uint64_t type, salt, rounds; int ends; bool slow; };
  std::vector<P> plan; for (size_t i = 0; i < nt; i++) plan.push_back({draw(8), draw(1u << 24), 4 + draw(30), (int)draw(6), chance(1, 3)});
  const bool throws = nt == 1 && chance(1, 3);
  const uint32_t faults = kSched | bit(F_STALL) | (throws ? bit(F_THROW) : 0) | (nt == 1 && chance(1, 4) ? bit(F_ALLOC) : 0);
  auto go = [&](size_t i)
  {
    const P& p = plan[i];
    switch (p.type)
    {
      case 0: choices<int8_t>(p.salt, p.rounds, p.ends, p.slow, throws, faults); break;
      case 1: choices<uint8_t>(p.salt, p.rounds, p.ends, p.slow, throws, faults); break;
      case 2: choices<int16_t>(p.salt, p.rounds, p.ends, p.slow, throws, faults); break;
      case 3: choices<uint16_t>(p.salt, p.rounds, p.ends, p.slow, throws, faults); break;
      case 4: choices<int32_t>(p.salt, p.rounds, p.ends, p.slow, throws, faults); break;
      case 5: choices<uint32_t>(p.salt, p.rounds, p.ends, p.slow, throws, faults); break;
      case 6: choices<int64_t>(p.salt, p.rounds, p.ends, p.slow, throws, faults); break;
      default: choices<uint64_t>(p.salt, p.rounds, p.ends, p.slow, throws, faults);
    }
  };
  std::vector<Client> c(nt);
  for (size_t i = 1; i < nt; i++) c[i].start([&go, i]() { go(i); });
  go(0);
}

// ===== I05 =====================================================================
namespace gd = gaussian_distributions;
struct BudgetGen
{
  using result_type = uint64_t;
  simple_prngs::XorShift128PlusPRNG g; uint64_t left = 0, odd = 0, n = 0; bool slow = false;
  explicit BudgetGen(uint64_t seed) : g(seed) {}
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return UINT64_MAX; }
  uint64_t operator()()
  {
    if (left == 0) { Quiet q; fail("never-ends", "one sample used 100000 random numbers"); }
    left--; n++;
    if (slow && n % 4 == 0) yield();
    const uint64_t v = g();
    if (odd && v % 8 < odd) return v / 8 % 2 ? 0 : UINT64_MAX;
    return v;
  }
};
struct Trunc
{
  double mean = 0, sd = 1, lo = -1, hi = 1, a = -1, b = 1;     // a, b: standardised
  // probability below x inside the bounds, accurate in the tails
  double cdf(double x) const
  {
    const long double r2 = sqrtl(2.0L), z = ((long double)x - (long double)mean) / (long double)sd;
    auto q = [&](long double v) { return 0.5L * erfcl(v / r2); };        // above v
    if (a > 0) return (double)((q(a) - q(z)) / (q(a) - q(b)));
    return (double)((q(-z) - q(-(long double)a)) / (q(-(long double)b) - q(-(long double)a)));
  }
};
Trunc draw_trunc()
{
  Trunc t;
  const double inf = std::numeric_limits<double>::infinity();
  t.mean = chance(1, 3) ? 0.0 : ((double)draw(2001) - 1000) / (chance(1, 2) ? 100.0 : 3.0);
  t.sd = chance(1, 4) ? 1.0 : (double)(1 + draw(400)) / 40.0;
  const double near = (double)draw(chance(1, 2) ? 100 : 800) / 100.0;
  switch (draw(6))
  {
    case 0: t.a = -0.05 - near / 2; t.b = 0.05 + (double)draw(400) / 100; break;              // around the mean
    case 1: t.a = near + 0.001; t.b = t.a + (double)(1 + draw(100)) / 1000.0; break;          // narrow tail
    case 2: t.a = near + 0.001; t.b = t.a + (double)(1 + draw(1500)) / 100.0; break;          // wide tail
    case 3: t.a = near + 0.001; t.b = inf; break;
    case 4: t.a = -inf; t.b = (double)draw(500) / 100; break;
    default: t.a = 0; t.b = 0.2 + near; break;
  }
  if (chance(1, 2)) { const double x = t.a; t.a = -t.b; t.b = -x; }
  t.lo = t.mean + t.sd * t.a; t.hi = t.mean + t.sd * t.b;
  t.a = (t.lo - t.mean) / t.sd; t.b = (t.hi - t.mean) / t.sd;
  return t;
}
void check_sample(const Trunc& t, double x)
{
  const double slack = 1e-12 * (std::abs(t.mean) + t.sd * 30);
  if (!(x >= t.lo - slack && x <= t.hi + slack)) fail("out-of-bounds", "normal %g +- %g in [%.17g, %.17g] gave %.17g", t.mean, t.sd, t.lo, t.hi, x);
}
void trunc_samples(const Trunc& t, uint64_t seed, uint64_t odd, bool slow, int n, const std::vector<double>& expect)
{
  gd::TruncatedGaussianDistribution d(t.mean, t.sd, t.lo, t.hi); BudgetGen g(seed); g.odd = odd; g.slow = slow;
  for (int i = 0; i < n; i++)
  {
    g.left = 100000;
    if (i == n / 2) { gd::TruncatedGaussianDistribution c(d); d = c; }
    const double x = d(g);
    Quiet q; op(); event("sample", (int64_t)(x * 1e6)); check_sample(t, x);
    if (x != expect[(size_t)i]) fail("unequal-samples", "sample %d of equal streams: %.17g and %.17g", i, x, expect[(size_t)i]);
  }
}
void fit(const Trunc& t, uint64_t seed)
{
  Quiet q;
  const int n = 30000;
  gd::TruncatedGaussianDistribution d(t.mean, t.sd, t.lo, t.hi); BudgetGen g(seed);
  std::vector<double> u;
  for (int i = 0; i < n; i++) { g.left = 100000; const double x = d(g); check_sample(t, x); u.push_back(t.cdf(x)); }
  std::sort(u.begin(), u.end());
  double dev = 0; for (int i = 0; i < n; i++) dev = std::max(dev, std::max(std::abs(u[(size_t)i] - (double)i / n), std::abs(u[(size_t)i] - (double)(i + 1) / n)));
  // exceeded by chance in one of 10^13 cases
  if (!(dev * std::sqrt((double)n) < 3.9)) fail("wrong-distribution", "samples of normal %g +- %g in [%g, %g] deviate by %.4f from its distribution", t.mean, t.sd, t.lo, t.hi, dev);
  op(); event("fit", (int64_t)(dev * 1e9)); probe(t.a > 0 || t.b < 0 ? "fit of a tail" : "fit around the mean");
}
void multi_run()
{
  const int k = 1 + (int)draw(4), rank = chance(1, 3) ? (int)draw((uint64_t)k) : k;
  const uint64_t seed = draw(1u << 24);
  Eigen::MatrixXd m = Eigen::MatrixXd::Zero(k, k); Eigen::VectorXd mean(k), w(k);
  for (int i = 0; i < k; i++) { mean(i) = ((double)draw(200) - 100) / 10; w(i) = ((double)draw(21) - 10); for (int j = 0; j < rank; j++) m(i, j) = ((double)draw(41) - 20) / 8; }
  const Eigen::MatrixXd cov = m * m.transpose();
  const int bad = chance(1, 6) ? 1 + (int)draw(2) : 0;
  Quiet q;
  op();
  if (bad)
  {
    bool refused = false;
    try { Eigen::MatrixXd c = cov; Eigen::VectorXd v = mean; if (bad == 1) { v.conservativeResize(k + 1); v(k) = 0; } else c(0, 0) = std::numeric_limits<double>::quiet_NaN(); gd::MultivariteGaussianDistribution d(v, c); }
    catch (const std::exception&) { refused = true; }
    if (!refused) fail("bad-request-accepted", "a gaussian with %s was accepted", bad == 1 ? "a mean and covariance of different sizes" : "an undefined covariance");
    probe("impossible gaussian refused"); return;
  }
  gd::MultivariteGaussianDistribution d(mean, cov), e(mean, cov); BudgetGen g(seed), h(seed);
  const int n = 4000; double sum = 0, sq = 0; const double want = w.dot(cov * w), scale = std::max(1.0, w.squaredNorm()) * std::max(1.0, cov.cwiseAbs().maxCoeff());
  for (int i = 0; i < n; i++)
  {
    g.left = h.left = 100000;
    const Eigen::VectorXd x = d(g), y = i < 50 ? e(h) : x;
    if (x.rows() != k || x != y) fail("unequal-samples", "equal streams give different samples");
    const double v = w.dot(x - mean); sum += v; sq += v * v;
    if (want < 1e-9 * scale && !(std::abs(v) < 1e-3 * std::sqrt(scale))) fail("wrong-distribution", "a sample deviates by %g in a direction without variance", v);
  }
  if (want >= 1e-6 * scale)
  {
    const double mu = sum / n, var = sq / n;
    if (!(std::abs(mu) < 7.5 * std::sqrt(want / n))) fail("wrong-distribution", "the mean of %d samples is off by %g, standard deviation %g", n, mu, std::sqrt(want));
    if (!(std::abs(var / want - 1) < 0.25)) fail("wrong-distribution", "the variance of %d samples is %g instead of %g", n, var, want);
  }
  event("moments", (int64_t)(sq * 1000)); probe(rank < k ? "singular covariance" : "regular covariance");
}
void run_i05()
{
  const uint64_t what = draw(8);
  if (what == 0) { multi_run(); return; }
  if (what == 1) { const Trunc t = draw_trunc(); fit(t, draw(1u << 24)); return; }
  if (what == 2 && chance(1, 4))
  {
    const Trunc t = draw_trunc(); const int k = (int)draw(3); Quiet q; bool refused = false; const double nan = std::numeric_limits<double>::quiet_NaN();
    try { gd::TruncatedGaussianDistribution d(t.mean, t.sd, k == 0 ? t.hi : k == 1 ? nan : t.lo, k == 0 ? t.lo : k == 1 ? t.hi : nan); } catch (const std::invalid_argument&) { refused = true; }
    if (!refused) fail("bad-request-accepted", "a truncated gaussian with bounds of kind %d was accepted", k);
    op(); probe("impossible bounds refused"); return;
  }
  if (what == 3 && chance(1, 4))
  {
    // no spread: every value is the mean, which lies within the bounds
    const Trunc t = draw_trunc(); const uint64_t seed = draw(1u << 24), k = draw(3), odd = draw(3); const int n = 1 + (int)draw(6); Quiet q;
    const double mean = k == 0 ? t.mean : k == 1 ? 0.0 : -3.5, width = 0.1 + 2.0 * (double)(seed % 7);
    const double lo = odd == 0 ? -std::numeric_limits<double>::infinity() : mean - width, hi = odd == 1 ? std::numeric_limits<double>::infinity() : mean + width;
    gd::TruncatedGaussianDistribution d(mean, k == 2 ? -0.0 : 0.0, lo, hi); BudgetGen g(seed);
    for (int i = 0; i < n; i++) { g.left = 1000; const double v = d(g); if (v != mean) fail("out-of-bounds", "a gaussian without spread gives %.17g instead of its mean %.17g", v, mean); }
    op(); event("no spread"); probe("gaussian without spread"); return;
  }
  const size_t nt = 1 + draw(3);
  struct P { Trunc t; uint64_t seed, odd; bool slow; int n; std::vector<double> expect; };
  std::vector<P> plan(nt);
  for (auto& p : plan) { p.t = draw_trunc(); p.seed = draw(1u << 24); p.odd = chance(1, 3) ? 1 + draw(3) : 0; p.slow = chance(1, 2); p.n = 3 + (int)draw(12); }
  {
    Quiet q;
    for (auto& p : plan) { gd::TruncatedGaussianDistribution d(p.t.mean, p.t.sd, p.t.lo, p.t.hi); BudgetGen g(p.seed); g.odd = p.odd; for (int i = 0; i < p.n; i++) { g.left = 100000; p.expect.push_back(d(g)); } }
  }
  FaultScope fs(kSched | bit(F_STALL));
  std::vector<Client> c(nt);
  auto go = [&](size_t i) { const P& p = plan[i]; trunc_samples(p.t, p.seed, p.odd, p.slow, p.n, p.expect); };
  for (size_t i = 1; i < nt; i++) c[i].start([&go, i]() { go(i); });
  go(0);
}
}  // namespace

namespace sim
{
const Property kProperties[] = {
  {"F01", run_f01, 3000000, kSchedAll, true},
  {"F02", run_f02, 3000000, kSchedAll | bit(F_ALLOC), true},
  {"F03", run_f03, 6000000, kSchedAll, true},
  {"F04", run_f04, 3000000, kSchedAll, true},
  {"I01", run_i01, 6000000, kSchedAll, true},
  {"I04", run_i04, 3000000, kSchedAll | bit(F_ALLOC) | bit(F_THROW), true},
  {"I05", run_i05, 12000000, kSchedAll, true},
};
const size_t kNumProperties = sizeof kProperties / sizeof kProperties[0];
}
