// A01-A04: parallel for loops.
#include "rt.hpp"
#include <common_robotics_utilities/parallelism.hpp>
#include <memory>
#include <new>
#include <set>
#include <system_error>

using namespace sim;
using namespace common_robotics_utilities;
using parallelism::DegreeOfParallelism;
using parallelism::ParallelForBackend;
using parallelism::ThreadWorkRange;

namespace
{
struct Cfg
{
  int kind = 0;           // 0 static range, 1 dynamic range, 2 static index, 3 dynamic index
  ParallelForBackend backend = ParallelForBackend::ASYNC;
  int dop = 1;
  int64_t start = 0, size = 0;
  int work = 0;           // extra steps per index
  bool yields = false;
};
Cfg draw_cfg(int64_t max_size)
{
  Cfg c;
  c.kind = (int)draw(4);
  static const ParallelForBackend b[] = {ParallelForBackend::ASYNC, ParallelForBackend::OPENMP, ParallelForBackend::BEST_AVAILABLE};
  c.backend = b[draw(3)];
  c.dop = 1 + (int)draw(chance(1, 5) ? 12 : 5);
  switch (draw(5))
  {
    case 0: c.size = (int64_t)draw(4); break;
    case 1: c.size = std::max<int64_t>(0, c.dop + range(-1, 1)); break;
    case 2: c.size = std::max<int64_t>(0, 2 * c.dop + range(-1, 1)); break;
    default: c.size = (int64_t)draw((uint64_t)max_size + 1); break;
  }
  if (c.size > max_size) c.size = max_size;
  switch (draw(6))
  {
    case 0: case 1: c.start = 0; break;
    case 2: c.start = range(-50, 50); break;
    case 3: c.start = -c.size / 2; break;
    case 4: c.start = 1000000000000ll + range(-5, 5); break;
    default:
      c.start = chance(1, 2) ? INT64_MAX - c.size - (int64_t)draw(3) : INT64_MIN + 1 + (int64_t)draw(3);
      break;
  }
  c.work = (int)draw(4) * (int)draw(12);
  c.yields = chance(1, 3);
  return c;
}
// Long ranges or many workers; dynamic dispatch without OpenMP starts a thread
// for every index, so it gets less.
Cfg wide_cfg()
{
  Cfg c = draw_cfg(10);
  const int64_t top = c.kind == 1 || c.kind == 3 ? (c.backend == ParallelForBackend::OPENMP ? 1500 : 250) : 3000;
  c.dop = chance(1, 2) ? 1 + (int)draw(16) : 16 + (int)draw(60);
  c.size = chance(1, 3) ? 255 + (int64_t)draw(4) : (int64_t)draw((uint64_t)top + 1);
  if (c.size > top) c.size = top;
  if (c.start > INT64_MAX - c.size) c.start = INT64_MAX - c.size;
  c.work = 0; c.yields = false;
  probe("long range");
  return c;
}
template <typename PerIndex, typename RangeHook>
void run_loop(const Cfg& c, const PerIndex& body, const RangeHook& around)
{
  const DegreeOfParallelism dop(c.dop);
  const int64_t end = c.start + c.size;
  switch (c.kind)
  {
    case 0: case 1:
    {
      const auto f = [&](const ThreadWorkRange& r)
      {
        around(r.GetThreadNum(), [&]()
        { for (int64_t i = r.GetRangeStart(); i < r.GetRangeEnd(); i++) body(r.GetThreadNum(), i); });
      };
      if (c.kind == 0) parallelism::StaticParallelForRangeLoop(dop, c.start, end, f, c.backend);
      else parallelism::DynamicParallelForRangeLoop(dop, c.start, end, f, c.backend);
      break;
    }
    default:
    {
      const auto f = [&](const int32_t t, const int64_t i) { around(t, [&]() { body(t, i); }); };
      if (c.kind == 2) parallelism::StaticParallelForIndexLoop(dop, c.start, end, f, c.backend);
      else parallelism::DynamicParallelForIndexLoop(dop, c.start, end, f, c.backend);
    }
  }
}
void busy(const Cfg& c)
{
  volatile int x = 0;
  for (int i = 0; i < c.work; i++) x = x + 1;
  if (c.yields) yield();
}
const char* name(const Cfg& c)
{
  static char b[128];
  static const char* k[] = {"static-range", "dynamic-range", "static-index", "dynamic-index"};
  snprintf(b, sizeof b, "%s backend=%d dop=%d start=%lld size=%lld", k[c.kind], (int)c.backend, c.dop, (long long)c.start, (long long)c.size);
  return b;
}
int g_budget;   // simulated threads are limited per run
int64_t max_size_for_run() { return g_budget > 30 ? 30 : g_budget; }

// ---- A01 -----------------------------------------------------------------------------
void exactly_once(const Cfg& c, int depth)
{
  const size_t n = (size_t)c.size;
  std::vector<int> count(n, 0);
  std::vector<int64_t> value(n, -1);
  const auto plain = [](int32_t, auto&& f) { f(); };
  Cfg inner;
  bool nest = depth == 0 && c.size > 1 && c.size <= 4 && chance(1, 2) && g_budget > 60;
  if (nest) { inner = draw_cfg(6); g_budget -= (int)(c.size * 8); }
  run_loop(c, [&](int32_t, int64_t i)
  {
    if (i < c.start || i - c.start >= c.size)
    { fail("index-outside-range", "%s: body called for index %lld", name(c), (long long)i); }
    const size_t k = (size_t)(i - c.start);
    busy(c);
    count[k]++;                 // plain: two concurrent calls for one index are a race
    if (nest) { exactly_once(inner, 1); }
    value[k] = i * 3 + 1;       // must be visible to the caller
  }, plain);
  for (size_t k = 0; k < n; k++)
  {
    SIM_CHECK(count[k] == 1, "not-exactly-once", "%s: index %lld ran %d times", name(c), (long long)(c.start + (int64_t)k), count[k]);
    SIM_CHECK(value[k] == (int64_t)((uint64_t)(c.start + (int64_t)k) * 3 + 1), "effect-missing", "%s: result of index %lld missing", name(c), (long long)(c.start + (int64_t)k));
  }
  op();
}
void inverted()
{
  Cfg c = draw_cfg(10);
  const int64_t e = c.start - 1 - (int64_t)draw(5);
  if (e > c.start) return;
  bool threw = false, ran = false;
  const DegreeOfParallelism d(c.dop);
  try
  {
    const auto f = [&](const ThreadWorkRange&) { ran = true; };
    const auto g = [&](int32_t, int64_t) { ran = true; };
    switch (c.kind)
    {
      case 0: parallelism::StaticParallelForRangeLoop(d, c.start, e, f, c.backend); break;
      case 1: parallelism::DynamicParallelForRangeLoop(d, c.start, e, f, c.backend); break;
      case 2: parallelism::StaticParallelForIndexLoop(d, c.start, e, g, c.backend); break;
      default: parallelism::DynamicParallelForIndexLoop(d, c.start, e, g, c.backend);
    }
  }
  catch (const std::exception&) { threw = true; }
  SIM_CHECK(threw && !ran, "inverted-range-accepted", "%s: inverted range accepted", name(c));
  op();
}
void partition_math()
{
  // the static partition covers the range exactly once for any thread count
  const bool huge = chance(1, 4);
  const int64_t nt = 1 + (int64_t)draw(huge ? 300 : 20), sz = (int64_t)draw(huge ? 1ull << (6 + draw(56)) : 60), s = huge && chance(1, 3) ? INT64_MIN + 1 : range(-1000, 1000);
  int64_t at = s, mn = INT64_MAX, mx = -1;
  for (int64_t t = 0; t < nt; t++)
  {
    const auto r = parallelism::CalcStaticThreadRangeStartAndEnd(s, s + sz, nt, t);
    SIM_CHECK(r.first == at && r.second >= r.first, "bad-partition", "thread %lld of %lld gets [%lld,%lld) expected start %lld", (long long)t, (long long)nt, (long long)r.first, (long long)r.second, (long long)at);
    at = r.second;
    mn = std::min(mn, r.second - r.first); mx = std::max(mx, r.second - r.first);
  }
  SIM_CHECK(at == s + sz, "bad-partition", "partition ends at %lld, range ends at %lld", (long long)at, (long long)(s + sz));
  // requests that make no sense are refused
  auto refused = [](auto&& f) { try { f(); } catch (const std::invalid_argument&) { return true; } return false; };
  const int64_t off = 1 + (int64_t)draw(5);
  SIM_CHECK(s < INT64_MIN + 10 || refused([&]() { parallelism::CalcStaticThreadRangeStartAndEnd(s, s - off, nt, 0); }), "bad-request-accepted", "a part of an inverted range");
  SIM_CHECK(refused([&]() { parallelism::CalcStaticThreadRangeStartAndEnd(s, s + sz, 1 - off, 0); }), "bad-request-accepted", "a part for %lld threads", (long long)(1 - off));
  SIM_CHECK(refused([&]() { parallelism::CalcStaticThreadRangeStartAndEnd(s, s + sz, nt, nt - 1 + off); }), "bad-request-accepted", "the part of thread %lld of %lld", (long long)(nt - 1 + off), (long long)nt);
  SIM_CHECK(refused([&]() { parallelism::CalcStaticThreadRangeStartAndEnd(s, s + sz, nt, -off); }), "bad-request-accepted", "the part of thread %lld", (long long)-off);
  SIM_CHECK(refused([&]() { ThreadWorkRange(10, 10 - off, 0); }) && refused([&]() { ThreadWorkRange(1, 2, (int32_t)-off); }), "bad-request-accepted", "an impossible work range");
  SIM_CHECK(refused([&]() { DegreeOfParallelism((int32_t)(1 - off)); }), "bad-request-accepted", "%lld threads", (long long)(1 - off));
  const ThreadWorkRange w(s, s + sz, (int32_t)off);
  SIM_CHECK(w.GetRangeStart() == s && w.GetRangeEnd() == s + sz && w.GetThreadNum() == (int32_t)off, "bad-partition", "a work range changed");
  SIM_CHECK(DegreeOfParallelism((int32_t)off).GetNumThreads() == off && DegreeOfParallelism::None().GetNumThreads() == 1 && DegreeOfParallelism().GetNumThreads() == 1 && DegreeOfParallelism::FromOmp().GetNumThreads() >= 1, "bad-request-accepted", "an impossible number of threads");

}
// Ranges far too long to visit index by index: the pieces handed out tile them.
void vast_range()
{
  Cfg c = draw_cfg(10);
  const uint64_t size = draw(1ull << (20 + draw(43)));
  const bool low = chance(1, 3);
  c.size = (int64_t)size;
  c.start = low ? INT64_MIN + 1 + (int64_t)draw(3) : range(-1000000, 0);
  if (chance(1, 3) && !low) c.start = INT64_MAX - c.size - (int64_t)draw(3);
  if (c.start > 0 && c.start > INT64_MAX - c.size) c.start = INT64_MAX - c.size;
  c.kind = 0;
  std::vector<std::pair<int64_t, int64_t>> pieces; std::vector<int> who;
  const auto f = [&](const ThreadWorkRange& r)
  { Quiet q; pieces.push_back({r.GetRangeStart(), r.GetRangeEnd()}); who.push_back(r.GetThreadNum()); };
  parallelism::StaticParallelForRangeLoop(DegreeOfParallelism(c.dop), c.start, c.start + c.size, f, c.backend);
  Quiet q;
  std::sort(pieces.begin(), pieces.end());
  int64_t at = c.start;
  for (auto& p : pieces)
  {
    if (p.second == p.first) continue;
    if (p.first != at || p.second < p.first) fail("bad-partition", "%s: piece [%lld, %lld) where %lld should follow", name(c), (long long)p.first, (long long)p.second, (long long)at);
    at = p.second;
  }
  if (at != c.start + c.size) fail("bad-partition", "%s: pieces end at %lld", name(c), (long long)at);
  for (int w : who) if (w < 0 || w >= c.dop) fail("worker-number-range", "%s: worker number %d", name(c), w);
  probe("vast range"); op();
}
void run_a01()
{
  g_budget = 150;
  const OmpEnv e = random_omp_env();
  set_omp_env(e);
  FaultScope fs(bit(F_SPURIOUS) | bit(F_SMALLTEAM) | bit(F_TIMEJUMP));
  if (chance(1, 25)) { g_budget = 0; exactly_once(wide_cfg(), 1); return; }
  if (chance(1, 8)) inverted();
  if (chance(1, 8)) partition_math();
  if (chance(1, 12)) vast_range();
  const int clients = chance(1, 5) ? 2 : 1;
  if (clients == 1)
  {
    const int loops = 1 + (int)draw(3);
    for (int i = 0; i < loops; i++)
    {
      const Cfg c = draw_cfg(max_size_for_run());
      g_budget -= (int)c.size + c.dop;
      if (g_budget < 10) break;
      exactly_once(c, 0);
    }
  }
  else
  {
    Cfg a = draw_cfg(20), b = draw_cfg(20);
    Client ca, cb;
    g_budget = 40;
    ca.start([&]() { exactly_once(a, 1); });
    cb.start([&]() { exactly_once(b, 1); });
    ca.join(); cb.join();
    probe("two callers looping at once");
  }
}

// ---- A02 -----------------------------------------------------------------------------
void exclusive(const Cfg& c, int depth)
{
  std::vector<int> in_use((size_t)c.dop, 0), scratch((size_t)c.dop, 0);
  Cfg inner; const bool nest = depth == 0 && c.size > 1 && c.size <= 4 && chance(1, 3) && g_budget > 60;
  if (nest) { inner = draw_cfg(6); g_budget -= (int)c.size * 8; }
  int64_t total = 0; int overlap = 0, peak = 0;
  run_loop(c, [&](int32_t t, int64_t)
  {
    scratch[(size_t)t] += 1;      // plain per-worker storage: must be race free
    busy(c);
    if (nest) exclusive(inner, 1);
    scratch[(size_t)t] += 1;
  },
  [&](int32_t t, auto&& f)
  {
    {
      Quiet q;
      if (t < 0 || t >= c.dop) fail("worker-number-range", "%s: worker number %d", name(c), t);
      if (in_use[(size_t)t]) fail("worker-number-shared", "%s: two running invocations have worker number %d", name(c), t);
      in_use[(size_t)t] = 1;
      if (++overlap > peak) peak = overlap;
    }
    const int before = scratch[(size_t)t];
    f();
    {
      Quiet q;
      if (scratch[(size_t)t] < before) fail("scratch-lost", "per-worker value went backwards");
      in_use[(size_t)t] = 0; overlap--; total++;
    }
  });
  int sum = 0; for (int s : scratch) sum += s;
  SIM_CHECK(sum == 2 * c.size, "scratch-lost", "%s: per-worker counters sum to %d, expected %lld", name(c), sum, (long long)(2 * c.size));
  if (peak > 1) probe("invocations overlapped");
  state((uint64_t)peak * 1000 + (uint64_t)c.dop * 10 + (uint64_t)c.kind);
  op();
}
void run_a02()
{
  g_budget = 150;
  set_omp_env(random_omp_env());
  FaultScope fs(bit(F_SPURIOUS) | bit(F_SMALLTEAM) | bit(F_TIMEJUMP));
  if (chance(1, 25)) { g_budget = 0; exclusive(wide_cfg(), 1); return; }
  if (chance(1, 6))
  {
    Cfg a = draw_cfg(20), b = draw_cfg(20);
    g_budget = 40;
    Client ca, cb;
    ca.start([&]() { exclusive(a, 1); });
    cb.start([&]() { exclusive(b, 1); });
    return;
  }
  const int loops = 1 + (int)draw(3);
  for (int i = 0; i < loops; i++)
  {
    const Cfg c = draw_cfg(max_size_for_run());
    g_budget -= (int)c.size + c.dop;
    if (g_budget < 10) break;
    exclusive(c, 0);
  }
}

// ---- A03 -----------------------------------------------------------------------------
struct Ledger
{
  std::vector<int> started, finished;
  std::set<int64_t> thrown;
  int active = 0; bool over = false; int64_t bodies = 0;
};
struct Payload   // something the body owns: must be destroyed when it unwinds
{
  std::unique_ptr<int> p{new int(1)};
};
void failing(const Cfg& c, uint32_t mask)
{
  // the ledger outlives the call so that stragglers are seen
  std::shared_ptr<Ledger> L;
  { Quiet q; L.reset(new Ledger()); L->started.assign((size_t)c.size, 0); L->finished.assign((size_t)c.size, 0); }
  const uint64_t f_alloc = fired(F_ALLOC), f_thread = fired(F_THREAD);
  bool returned = false; int what = 0; int64_t tag = 0;
  const auto body = [L, c](int32_t, int64_t i)
  {
    bool do_throw;
    {
      Quiet q;
      if (L->over) fail("body-after-return", "%s: body for index %lld started after the call had ended", name(c), (long long)i);
      if (i < c.start || i - c.start >= c.size) fail("index-outside-range", "%s: index %lld", name(c), (long long)i);
      if (L->started[(size_t)(i - c.start)]++) fail("index-ran-twice", "%s: index %lld ran twice", name(c), (long long)i);
      L->active++; L->bodies++;
    }
    busy(c);
    do_throw = fault(F_THROW);
    {
      Quiet q;
      if (L->over) fail("body-after-return", "%s: body for index %lld still running after the call had ended", name(c), (long long)i);
      L->active--;
      if (do_throw) L->thrown.insert(i); else L->finished[(size_t)(i - c.start)] = 1;
    }
    if (do_throw) throw_injected(i);
  };
  {
    FaultScope fs(mask);
    try
    {
      run_loop(c, body, [](int32_t, auto&& f) { f(); });
      returned = true;
    }
    catch (const Injected& e) { what = 1; tag = e.tag; }
    catch (const std::bad_alloc&) { what = 2; }
    catch (const std::system_error&) { what = 3; }
    catch (const std::exception& e) { fail("wrong-exception", "%s: unexpected exception: %s", name(c), e.what()); }
    catch (...) { fail("wrong-exception", "%s: unexpected exception type", name(c)); }

  }
  Quiet q;
  L->over = true;
  if (L->active != 0) fail("body-still-running", "%s: %d bodies still running when the call ended", name(c), L->active);
  if (returned)
  {
    if (!L->thrown.empty()) fail("failure-swallowed", "%s: returned normally although a body threw", name(c));
    for (size_t i = 0; i < L->started.size(); i++)
      if (!L->finished[i]) fail("failure-swallowed", "%s: returned normally but index %zu was not executed", name(c), i);
    probe("loop completed");
  }
  else
  {
    if (what == 1 && !L->thrown.count(tag)) fail("wrong-exception", "%s: exception %lld was never thrown", name(c), (long long)tag);
    if (what == 2 && fired(F_ALLOC) == f_alloc) fail("wrong-exception", "%s: bad_alloc without allocation failure", name(c));
    if (what == 3 && fired(F_THREAD) == f_thread) fail("wrong-exception", "%s: system_error without thread failure", name(c));
    probe(what == 1 ? "loop ended by body exception" : what == 2 ? "loop ended by bad_alloc" : "loop ended by thread failure");
    if (L->thrown.size() > 1) probe("several bodies threw");
  }
  op();
}
void run_a03()
{
  g_budget = 150;
  set_omp_env(random_omp_env());
  const int loops = 1 + (int)draw(3);
  static const uint32_t masks[] = {
    bit(F_THROW), bit(F_THREAD), bit(F_ALLOC), bit(F_THROW) | bit(F_THREAD), bit(F_THROW) | bit(F_THREAD) | bit(F_ALLOC)};
  if (chance(1, 40)) { g_budget = 0; failing(wide_cfg(), masks[draw(5)] | bit(F_SPURIOUS) | bit(F_SMALLTEAM)); return; }
  for (int i = 0; i < loops; i++)
  {
    const Cfg c = draw_cfg(max_size_for_run());
    g_budget -= (int)c.size + c.dop;
    if (g_budget < 10) break;
    failing(c, masks[draw(5)] | bit(F_SPURIOUS) | bit(F_SMALLTEAM));
  }
}

// ---- A04 -----------------------------------------------------------------------------
void bounded(const Cfg& c, int depth)
{
  struct St { int active = 0, peak = 0; int64_t done = 0; } st;
  Cfg inner; const bool nest = depth == 0 && c.size > 1 && c.size <= 4 && chance(1, 2) && g_budget > 60;
  if (nest) { inner = draw_cfg(6); g_budget -= (int)c.size * 8; }
  const bool slow = chance(1, 4);
  const bool failing_bodies = depth == 0 && chance(1, 4);
  int64_t throw_at = failing_bodies && c.size ? (int64_t)draw((uint64_t)c.size) : -1;
  bool threw = false;
  try
  {
    run_loop(c, [&](int32_t, int64_t i)
    {
      busy(c);
      if (slow) { timespec ts{0, 1000 + (long)(i & 7) * 1000000}; nanosleep(&ts, nullptr); }
      if (nest) bounded(inner, 1);
      if (throw_at >= 0 && i - c.start == throw_at) throw_injected(i);
    },
    [&](int32_t, auto&& f)
    {
      struct Act
      {
        St& s; const Cfg& c;
        Act(St& a, const Cfg& b) : s(a), c(b)
        { Quiet q; if (++s.active > c.dop) fail("too-many-running", "%s: %d bodies running at once", name(c), s.active); if (s.active > s.peak) s.peak = s.active; }
        ~Act() { Quiet q; s.active--; s.done++; }
      } a(st, c);
      f();
    });
  }
  catch (const Injected&) { threw = true; }
  SIM_CHECK(threw == (throw_at >= 0), "wrong-end", "%s: exception expected %d seen %d", name(c), (int)(throw_at >= 0), (int)threw);
  if (st.peak == c.dop && c.dop > 1) probe("full parallelism reached");
  if (st.peak > 1) probe("bodies overlapped");
  op();
}
void run_a04()
{
  g_budget = 150;
  set_omp_env(random_omp_env());
  FaultScope fs(bit(F_SPURIOUS) | bit(F_SMALLTEAM) | bit(F_TIMEJUMP) | bit(F_WALLJUMP));
  if (chance(1, 25)) { g_budget = 0; bounded(wide_cfg(), 1); return; }
  if (chance(1, 4))
  {
    const int n = 2 + (int)draw(2);
    std::vector<Cfg> cs; for (int i = 0; i < n; i++) cs.push_back(draw_cfg(14));
    g_budget = 40;
    {
      Client k[4];
      for (int i = 0; i < n; i++) k[i].start([&cs, i]() { bounded(cs[(size_t)i], 1); });
    }
    probe("several callers looping at once");
    return;
  }
  const int loops = 1 + (int)draw(3);
  for (int i = 0; i < loops; i++)
  {
    const Cfg c = draw_cfg(max_size_for_run());
    g_budget -= (int)c.size + c.dop;
    if (g_budget < 10) break;
    bounded(c, 0);
  }
}
}  // namespace

namespace sim
{
constexpr uint32_t kSched = bit(F_SPURIOUS) | bit(F_STALL) | bit(F_TIMEJUMP) | bit(F_WALLJUMP) | bit(F_SMALLTEAM);
const Property kProperties[] = {
  {"A01", run_a01, 20000000, kSched, false},
  {"A02", run_a02, 20000000, kSched, false},
  {"A03", run_a03, 20000000, kSched | bit(F_THROW) | bit(F_THREAD) | bit(F_ALLOC), true},
  {"A04", run_a04, 20000000, kSched, false},
};
const size_t kNumProperties = sizeof kProperties / sizeof kProperties[0];
}
