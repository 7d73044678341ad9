// E01 task execution through unpredictable outcomes, E02 heuristic search.
#include "ctx.hpp"
#include <common_robotics_utilities/simple_task_planner.hpp>
#include <cmath>
#include <deque>
#include <list>
#include <limits>
#include <map>
#include <set>

using namespace sim;
using namespace common_robotics_utilities;
using namespace ctx;
namespace tp = simple_task_planner;

namespace
{
const double kInf = std::numeric_limits<double>::infinity();
uint64_t h2(uint64_t a, uint64_t b) { return mix(mix(0x7a5c, a), b); }

// States with equal keys are the same state; the tag tells copies apart.
struct T { int key = -1; int64_t tag = 0; std::vector<int32_t> load; };
struct Hash { uint64_t mod = 1000; size_t operator()(const T& t) const { return (size_t)(h2(11, (uint64_t)t.key) % mod); } };
struct Equal { bool strict = false; bool operator()(const T& a, const T& b) const { return a.key == b.key; } };
using Prim = tp::ActionPrimitiveInterface<T>;
using PrimPtr = tp::ActionPrimitiveSharedPtr<T>;
using Coll = tp::ActionPrimitiveCollection<T>;

// Callbacks may use the library themselves: what they compute is right and the
// surrounding computation is left alone.
void nested_task(); void nested_search();

struct Action { std::string name; std::vector<bool> cand; std::vector<std::vector<std::pair<int, double>>> out; };
struct Plan
{
  uint64_t seed = 0; int n = 5; std::vector<Action> actions; std::vector<bool> goal;
  std::vector<int> starts; int limit = -1; bool cb[3] = {true, true, true}, slow = false, throws = false, nested = false, mutate = false, single_start = false, wrapper = false, heavy = false;
  std::vector<double> h; int heuristic = 0; uint64_t hash_mod = 1000; uint32_t faults = 0; int chaos = 0;
  std::vector<size_t> first;       // registered at the beginning
};
std::vector<double> to_go(const Plan& p, const std::vector<size_t>& reg)
{
  std::vector<double> d((size_t)p.n, kInf);
  for (int i = 0; i < p.n; i++) if (p.goal[(size_t)i]) d[(size_t)i] = 0;
  for (bool more = true; more;)
  {
    more = false;
    for (size_t a : reg) for (int s = 0; s < p.n; s++)
    {
      if (!p.actions[a].cand[(size_t)s]) continue;
      for (auto& o : p.actions[a].out[(size_t)s])
        if (o.second + d[(size_t)o.first] < d[(size_t)s]) { d[(size_t)s] = o.second + d[(size_t)o.first]; more = true; }
    }
  }
  return d;
}
struct World
{
  const Plan& p; uint64_t me; Coll coll; std::vector<size_t> reg; std::vector<PrimPtr> prims; uint64_t calls = 0; int64_t tag = 0;
  // history
  std::vector<T> outcomes, trace; int executions = 0; bool complete = false, hopeless = false, stopped = false; int selected_key = -1; int64_t selected_tag = -1; int sel_calls = 0;
  World(const Plan& plan, int copy) : p(plan), me(h2(plan.seed, (uint64_t)copy)) {}
  uint64_t rnd(uint64_t n) { return h2(me, ++calls) % n; }
  T make(int key) { T t; t.key = key; t.tag = ++tag; if (p.heavy) t.load.assign(2, key); return t; }
  void pause() { if (p.slow) yield(); if (p.throws && fault(F_THROW)) throw_injected(2); if (p.nested && chance(1, 20)) { if (chance(1, 2)) nested_task(); else nested_search(); } }
  bool candidate(size_t a, const T& s) { pause(); Quiet q; if (s.key < 0 || s.key >= p.n) fail("bad-state", "an action was asked about a state nobody produced"); return p.actions[a].cand[(size_t)s.key]; }
  tp::OutcomesWithCosts<T> predict(size_t a, const T& s)
  {
    pause();
    tp::OutcomesWithCosts<T> r;
    for (auto& o : p.actions[a].out[(size_t)s.key]) { T t; t.key = o.first; r.emplace_back(t, o.second); }
    return r;
  }
  // What is the best that can be done from the current outcomes?
  void judge_choice(int key, const std::vector<double>& d)
  {
    double best = kInf; bool have = false;
    for (auto& o : outcomes) { best = std::min(best, d[(size_t)o.key]); have = have || o.key == key; }
    if (!have) fail("foreign-state", "state %d was selected, which is not a current outcome", key);
    if (d[(size_t)key] != best) fail("not-cheapest", "outcome %d with %g to go was selected, another needs %g", key, d[(size_t)key], best);
    if (best == kInf) fail("no-plan", "state %d was selected although nothing completes the task", key);
  }
  std::vector<T> execute(size_t a, const T& s)
  {
    {
      Quiet q;
      op();
      if (stopped) fail("ran-on", "an action was executed after the task was complete");
      if (p.limit >= 0 && executions >= p.limit) fail("limit", "more than %d executions", p.limit);
      const std::vector<double> d = to_go(p, reg);
      if (std::find(reg.begin(), reg.end(), a) == reg.end()) fail("unregistered", "unregistered action %s was executed", p.actions[a].name.c_str());
      if (!p.actions[a].cand[(size_t)s.key]) fail("not-candidate", "action %s was executed in state %d, where it is no candidate", p.actions[a].name.c_str(), s.key);
      if (sel_calls == 0) judge_choice(s.key, d);
      else if (selected_key != s.key || selected_tag != s.tag) fail("foreign-state", "an action was executed in state %d, selected was %d", s.key, selected_key);
      if (p.goal[(size_t)s.key]) fail("ran-on", "an action was executed in a state that completes the task");
      double via = kInf; for (auto& o : p.actions[a].out[(size_t)s.key]) via = std::min(via, o.second + d[(size_t)o.first]);
      if (via != d[(size_t)s.key]) fail("not-cheapest", "action %s begins a plan of cost %g, the cheapest costs %g", p.actions[a].name.c_str(), via, d[(size_t)s.key]);
      if (sel_calls == 0) { trace.push_back(s); }
      sel_calls = 0;
      executions++;
      event("execute", (int64_t)a, s.key);
    }
    pause();
    const bool odd = fault(F_WORLD);
    std::vector<T> r;
    {
      Quiet q;
      // what really happens
      const auto& predicted = p.actions[a].out[(size_t)s.key];
      const uint64_t n = odd ? rnd(4) : 1;
      for (uint64_t i = 0; i < n; i++)
        r.push_back(make(odd || predicted.empty() || (int)rnd(100) < p.chaos ? (int)rnd((uint64_t)p.n) : predicted[rnd(predicted.size())].first));
      if (odd && n > 1) probe("several outcomes");
      if (odd && n == 0) probe("no outcome");
      if (p.mutate && rnd(4) == 0) change(true);
      outcomes = r;
    }
    return r;
  }
  // registers or unregisters something
  void change(bool inside)
  {
    const uint64_t k = rnd(8);
    if (k < 4)
    {
      const size_t a = rnd(p.actions.size());
      const bool have = std::find(reg.begin(), reg.end(), a) != reg.end();
      bool threw = false;
      try { coll.RegisterPrimitive(prims[a]); } catch (const std::invalid_argument&) { threw = true; }
      if (threw != have) fail("register", threw ? "a new action was refused" : "two actions with one name were accepted");
      if (!have) reg.push_back(a);
    }
    else if (k < 6) { const size_t a = rnd(p.actions.size()); coll.UnregisterPrimitiveByName(p.actions[a].name); auto it = std::find(reg.begin(), reg.end(), a); if (it != reg.end()) { reg.erase(it); if (inside) probe("action unregistered while running"); } }
    else if (k == 6)
    {
      std::unordered_set<std::string> names; for (auto& a : p.actions) if (rnd(4) == 0) names.insert(a.name);
      coll.UnregisterPrimitivesByName(names);
      std::vector<size_t> keep; for (size_t a : reg) if (!names.count(p.actions[a].name)) keep.push_back(a); reg = keep;
    }
    else if (rnd(5) == 0) { coll.ClearPrimitives(); reg.clear(); }
    if (coll.Primitives().size() != reg.size()) fail("register", "%zu actions registered, expected %zu", coll.Primitives().size(), reg.size());
    for (size_t i = 0; i < reg.size(); i++) if (coll.Primitives()[i] != prims[reg[i]]) fail("register", "registered action %zu is another one", i);
  }
  void check_plan(const tp::TaskStateAstarResult<T>& r, int key)
  {
    const std::vector<double> d = to_go(p, reg);
    if (r.Path().empty() || r.Path().front().Outcome().key != key) fail("plan", "the reported plan does not begin at the selected state");
    if (r.PathCost() != d[(size_t)key]) fail("plan", "the reported plan costs %g, the cheapest %g", r.PathCost(), d[(size_t)key]);
    if (!p.goal[(size_t)r.Path().back().Outcome().key]) fail("plan", "the reported plan does not complete the task");
    double sum = 0;
    for (size_t i = 1; i < r.Path().size(); i++)
    {
      const int64_t a = r.Path()[i].PrimitiveIndex();
      if (a < 0 || a >= (int64_t)reg.size()) fail("plan", "the reported plan names action %lld of %zu", (long long)a, reg.size());
      const Action& act = p.actions[reg[(size_t)a]];
      const int from = r.Path()[i - 1].Outcome().key, to = r.Path()[i].Outcome().key;
      double c = kInf; for (auto& o : act.out[(size_t)from]) if (o.first == to) c = std::min(c, o.second);
      if (!act.cand[(size_t)from] || c == kInf) fail("plan", "the reported plan uses %s from %d to %d, which it cannot do", act.name.c_str(), from, to);
      sum += c;
    }
    if (sum != r.PathCost()) fail("plan", "the actions of the reported plan cost %g, it says %g", sum, r.PathCost());
  }
};
struct Direct : Prim
{
  World& w; size_t a;
  Direct(World& world, size_t i) : w(world), a(i) {}
  bool IsCandidate(const T& s) const override { return w.candidate(a, s); }
  tp::OutcomesWithCosts<T> GetOutcomes(const T& s) const override { return w.predict(a, s); }
  std::vector<T> Execute(const T& s) override { return w.execute(a, s); }
  const std::string& Name() const override { return w.p.actions[a].name; }
};
void one_task(const Plan& p, int copy)
{
  std::unique_ptr<World> own;
  {
    Quiet q;
    own.reset(new World(p, copy));
    World& w = *own;
    for (size_t a = 0; a < p.actions.size(); a++)
    {
      if (p.wrapper && a % 2)
        w.prims.push_back(std::make_shared<tp::ActionPrimitiveWrapper<T>>(
            [&w, a](const T& s) { return w.candidate(a, s); }, [&w, a](const T& s) { return w.predict(a, s); }, [&w, a](const T& s) { return w.execute(a, s); }, p.actions[a].name));
      else w.prims.push_back(std::make_shared<Direct>(w, a));
    }
    for (size_t a : p.first) { w.coll.RegisterPrimitive(w.prims[a]); w.reg.push_back(a); }
    if (p.mutate) for (int i = 0; i < 4; i++) w.change(false);
    for (int s : p.starts) w.outcomes.push_back(w.make(s));
  }
  World& w = *own;
  std::vector<T> got; std::string msg; const EndCheck ec; End end;
  {
    FaultScope fs(p.faults);
    end = attempt([&]()
    {
      const tp::TaskSequenceCompleteFunction<T> done = [&w](const T& t) { w.pause(); return (bool)w.p.goal[(size_t)t.key]; };
      tp::StateHeuristicFunction<T> h; if (p.heuristic) h = [&w](const T& t) { w.pause(); return w.p.h[(size_t)t.key]; };
      tp::PreExecutionCallbackFunction<T> pre; tp::PostExecutionCallbackFunction<T> post; tp::PostOutcomeCallbackFunction<T> sel;
      if (p.cb[0]) pre = [&w](const T& s, const PrimPtr& prim, const tp::TaskStateAstarResult<T>& plan)
      {
        w.pause(); Quiet q;
        if (!prim) fail("callback", "the pre-execution callback got no action");
        w.check_plan(plan, s.key);
        if (w.sel_calls && s.tag != w.selected_tag) fail("callback", "the pre-execution callback got another state than was selected");
        if (plan.Path().size() < 2 || w.coll.Primitives()[(size_t)plan.Path()[1].PrimitiveIndex()] != prim) fail("callback", "the action about to be executed is not the first of the plan");
      };
      if (p.cb[1]) post = [&w](const std::vector<T>& o)
      {
        w.pause(); Quiet q;
        bool same = o.size() == w.outcomes.size(); for (size_t i = 0; same && i < o.size(); i++) same = o[i].tag == w.outcomes[i].tag;
        if (!same) fail("callback", "the post-execution callback got other outcomes");
      };
      if (p.cb[2]) sel = [&w](const std::vector<T>& o, const int64_t i, const tp::TaskStateAstarResult<T>& plan)
      {
        {
          Quiet q;
          bool same = o.size() == w.outcomes.size(); for (size_t k = 0; same && k < o.size(); k++) same = o[k].tag == w.outcomes[k].tag;
          if (!same || i < 0 || i >= (int64_t)o.size()) fail("callback", "the outcome callback got other outcomes or index %lld of %zu", (long long)i, o.size());
          const T& s = o[(size_t)i];
          if (w.stopped) fail("ran-on", "another state was selected after the task was complete");
          w.judge_choice(s.key, to_go(w.p, w.reg)); w.check_plan(plan, s.key);
          w.sel_calls = 1; w.selected_key = s.key; w.selected_tag = s.tag; w.trace.push_back(s);
          if (w.p.goal[(size_t)s.key]) w.stopped = true;
        }
        w.pause();
      };
      Hash hash; hash.mod = p.hash_mod;
      std::vector<T> starts; { Quiet q; starts = w.outcomes; }
      std::vector<T> r;
      if (p.single_start) r = tp::PerformSingleTaskExecution<T, std::vector<T>, Hash, Equal>(w.coll, done, starts[0], p.limit, h, hash, Equal(), pre, post, sel);
      else r = tp::PerformSingleTaskExecution<T, std::vector<T>, Hash, Equal>(w.coll, done, starts, p.limit, h, hash, Equal(), pre, post, sel);
      Quiet q; got = r;
    }, &msg);
  }
  Quiet q;
  op();
  const std::vector<double> d = to_go(p, w.reg);
  double best = kInf; for (auto& o : w.outcomes) best = std::min(best, d[(size_t)o.key]);
  const bool limit = p.limit >= 0 && w.executions >= p.limit;
  if (end == STDEXC)
  {
    // only right if nothing could be done
    if (limit || w.stopped) fail("wrong-exception", "execution threw after it should have stopped: %s", msg.c_str());
    if (best != kInf) fail("wrong-exception", "execution threw although a plan of cost %g exists: %s", best, msg.c_str());
    probe("no plan reported");
  }
  else ec.check(end, "task execution", msg);
  if (end != RETURNED) { own.reset(); return; }
  // without the outcome callback the final selection is only seen here
  if (!p.cb[2] && !limit)
  {
    if (got.empty()) fail("trace", "execution ended without reporting a state");
    w.judge_choice(got.back().key, d);
    bool have = false; for (auto& o : w.outcomes) have = have || o.tag == got.back().tag;
    if (!have) fail("trace", "the last reported state is not a current outcome");
    w.trace.push_back(got.back());
  }
  if (got.size() != w.trace.size()) fail("trace", "%zu states reported, %zu selected", got.size(), w.trace.size());
  for (size_t i = 0; i < got.size(); i++) if (got[i].tag != w.trace[i].tag || got[i].key != w.trace[i].key) fail("trace", "reported state %zu is %d, selected was %d", i, got[i].key, w.trace[i].key);
  if (!limit)
  {
    if (got.empty() || !p.goal[(size_t)got.back().key]) fail("stopped-early", "execution stopped in a state that does not complete the task after %d of %d executions", w.executions, p.limit);
    probe("task completed");
  }
  else probe("execution limit reached");
  if (w.executions > 2) probe("several executions");
  if (fired(F_WORLD)) probe("unexpected outcome survived");
  state(h2(got.size(), h2((uint64_t)w.executions, w.reg.size())));
  own.reset();
}
void run_e01()
{
  Plan p;
  p.seed = draw(1u << 20); p.n = 2 + (int)draw(chance(1, 60) ? 150 : chance(1, 3) ? 20 : 9);
  // hundreds of actions, or of states to choose from
  const int big = chance(1, 120) ? 1 + (int)draw(2) : 0;
  if (big) { p.n = 3 + (int)draw(3); probe(big == 1 ? "large library of actions" : "many starting states"); }
  const size_t k = big == 1 ? 320 + draw(40) : 1 + draw(5);
  const uint64_t density = 2 + draw(6); const bool chain = chance(3, 5), coarse = chance(1, 2), free_moves = chance(1, 3), inf = chance(1, 10);
  for (size_t a = 0; a < k; a++)
  {
    Action act; act.name = std::string("action number ") + (char)('a' + (char)(a % 26)) + (a < 26 ? std::string() : std::to_string(a / 26)) + std::string(chance(1, 2) ? 20 : 0, 'x');
    for (int s = 0; s < p.n; s++)
    {
      act.cand.push_back(big == 1 ? chance(1, 40) || a >= k - 2 : chance(density, 8));
      std::vector<std::pair<int, double>> o; const uint64_t m = chance(1, 6) ? 0 : big == 1 ? 1 : 1 + draw(3);
      for (uint64_t i = 0; i < m; i++) o.push_back({chain && !chance(1, 5) ? std::min(p.n - 1, s + 1 + (int)draw(2)) : (int)draw((uint64_t)p.n), inf && chance(1, 4) ? kInf : free_moves && chance(1, 3) ? 0.0 : coarse ? 1.0 + (double)draw(2) : 0.25 * (double)(1 + draw(40))});
      act.out.push_back(o);
    }
    p.actions.push_back(act);
    if (chance(5, 6)) p.first.push_back(a);
  }
  const uint64_t goals = draw(12) == 0 ? 0 : 1 + draw(2);
  p.goal.assign((size_t)p.n, false); for (uint64_t i = 0; i < goals; i++) p.goal[chain ? (size_t)(p.n - 1) - draw(2) : draw((uint64_t)p.n)] = true;
  const uint64_t ns = big == 2 ? 265 + draw(40) : chance(1, 30) ? 0 : 1 + draw(3); for (uint64_t i = 0; i < ns; i++) p.starts.push_back(big == 2 && i + 1 + draw(12) < ns ? 0 : (int)draw(chain ? (uint64_t)p.n / 2 + 1 : (uint64_t)p.n));
  p.single_start = ns == 1 && chance(1, 2);
  p.limit = chance(1, 8) ? 0 : 1 + (int)draw(12);
  if (chance(1, 4)) p.limit = -1;
  if (big) p.limit = 1 + (int)draw(4);
  for (bool& b : p.cb) b = chance(2, 3);
  p.slow = chance(1, 6); p.throws = chance(1, 4); p.mutate = chance(1, 3); p.wrapper = chance(1, 2); p.heavy = chance(1, 3);
  p.chaos = p.limit < 0 ? 0 : (int)draw(40);
  p.heuristic = (int)draw(3); p.hash_mod = chance(1, 3) ? 1 : 1000;
  std::vector<size_t> all; for (size_t a = 0; a < k; a++) all.push_back(a);
  const std::vector<double> d = to_go(p, all);
  for (double v : d) p.h.push_back(v == kInf ? (chance(1, 2) ? kInf : (double)draw(20)) : p.heuristic == 1 ? v : v * (double)draw(5) / 4);
  p.faults = kSched | bit(F_WORLD) | (p.throws ? bit(F_THROW) : 0) | (chance(1, 6) ? bit(F_ALLOC) : 0);
  if (p.limit < 0)
  {
    // without a limit the world must let the task end: outcomes are the predicted ones, faults few
    p.limit = -1; p.faults &= ~bit(F_WORLD);
    for (auto& a : p.actions) for (auto& o : a.out) if (o.size() > 1) o.resize(1);
    const std::vector<double> d2 = to_go(p, all);
    for (size_t i = 0; i < d2.size(); i++) p.h[i] = d2[i] == kInf ? 0 : d2[i] * 0.5;
    // free moves could be repeated for ever
    for (auto& a : p.actions) for (auto& o : a.out) for (auto& x : o) if (x.second == 0) x.second = 1;
    p.mutate = false;
  }
  p.nested = !(p.faults & (bit(F_ALLOC) | bit(F_THROW))) && !big && chance(1, 4);
  if (p.nested) probe("callbacks use the library");
  // fault counts are per run, so only one caller may be hit by faults
  call(p.faults & (kRes | bit(F_THROW)) ? PLAIN : draw_kind(), 2, [&](int c) { one_task(p, c); });
}
void nested_task()
{
  const auto copy = [](int key) { T t; t.key = key; return t; };
  Coll coll;
  coll.RegisterPrimitive(std::make_shared<tp::ActionPrimitiveWrapper<T>>(
      [](const T& s) { return s.key < 2; }, [copy](const T& s) { tp::OutcomesWithCosts<T> r; r.emplace_back(copy(s.key + 1), 1.0); return r; },
      [copy](const T& s) { return std::vector<T>{copy(s.key + 1)}; }, "step"));
  const tp::TaskSequenceCompleteFunction<T> done = [](const T& t) { return t.key == 2; };
  const std::vector<T> r = tp::PerformSingleTaskExecution<T, std::vector<T>, Hash, Equal>(coll, done, std::vector<T>{copy(0)}, 5, {}, Hash(), Equal(), {}, {}, {});
  if (r.size() != 3 || r[0].key != 0 || r[1].key != 1 || r[2].key != 2) fail("nested-call", "a task of two steps executed inside a callback went through %zu states", r.size());
}
// ===== E02 =====================================================================
namespace as = simple_astar_search;
struct N { int key = -1; int64_t tag = 0; std::vector<int32_t> load; };
// What a default-constructed functor says is never right for these states.
struct NHash { uint64_t mod = 1000; bool given = false; size_t operator()(const N& t) const { return given ? (size_t)(h2(17, (uint64_t)t.key) % mod) : (size_t)h2(18, (uint64_t)t.tag); } };
struct NEqual { bool given = false; bool operator()(const N& a, const N& b) const { return a.key == b.key && (given || a.tag == b.tag); } };
struct Search
{
  uint64_t seed = 0; int n = 4, form = 0; std::vector<std::vector<std::pair<int, double>>> out;   // with repetitions
  std::vector<std::vector<bool>> bad;       // form 1, 2: motion a -> b is not possible
  std::vector<bool> goal; std::vector<std::pair<int, double>> starts; std::vector<double> h;
  bool limit = true, slow = false, throws = false, nested = false, heavy = false, use_default_limit = false; uint64_t hash_mod = 1000; uint32_t faults = 0;
};
void nested_search()
{
  const auto copy = [](int key) { N n; n.key = key; return n; };
  const std::function<bool(const N&)> goal = [](const N& n) { return n.key == 3; };
  // states 4 to 9 are reached at little cost and left unexpanded
  const std::function<double(const N&)> heur = [](const N& n) { return n.key > 3 ? 100.0 : 0.0; };
  const std::function<as::StatesWithCosts<N>(const N&)> children = [copy](const N& n) {
    as::StatesWithCosts<N> r; if (n.key == 0) for (int k = 4; k < 10; k++) r.emplace_back(copy(k), 0.0078125);
     if (n.key == 0) r.emplace_back(copy(2), 5.0); if (n.key < 3) r.emplace_back(copy(n.key + 1), 1.0); return r; };
  NHash hash; hash.given = true; NEqual eq; eq.given = true;
  as::StatesWithCosts<N> starts; starts.emplace_back(copy(0), 0.0);
  const auto r = as::PerformAstarSearch<N, std::vector<N>, NHash, NEqual>(starts, goal, children, heur, true, hash, eq);
  if (r.PathCost() != 3.0 || r.Path().size() != 4 || r.Path()[2].key != 2) fail("nested-call", "a search inside a callback found %zu states and cost %g instead of 4 and 3", r.Path().size(), r.PathCost());
}
template <typename C>
void one_search(const Search& p, int copy)
{
  int64_t tag = 1000 * (copy + 1); uint64_t expanded = 0;
  std::vector<bool> reached((size_t)p.n, false);
  auto pause = [&]() { if (p.slow) yield(); if (p.throws && fault(F_THROW)) throw_injected(3); if (p.nested && chance(1, 20)) nested_search(); };
  auto make = [&](int key) { N s; s.key = key; s.tag = ++tag; if (p.heavy) s.load.assign(3, key); return s; };
  auto sane = [&](const N& s) { if (s.key < 0 || s.key >= p.n || (p.heavy && (s.load.size() != 3 || s.load[2] != s.key))) { Quiet q; fail("bad-state", "a callback was given a state nobody produced"); } };
  const std::function<bool(const N&)> goal = [&](const N& s) { sane(s); pause(); return (bool)p.goal[(size_t)s.key]; };
  const std::function<double(const N&)> heur = [&](const N& s) { sane(s); pause(); return p.h[(size_t)s.key]; };
  auto edges = [&](const N& s) { sane(s); expanded++; event("expand", s.key); pause(); };
  const std::function<as::StatesWithCosts<N>(const N&)> children = [&](const N& s) {
    edges(s); as::StatesWithCosts<N> r; for (auto& e : p.out[(size_t)s.key]) r.emplace_back(make(e.first), e.second); if (fault(F_WORLD)) std::reverse(r.begin(), r.end()); return r; };
  const std::function<C(const N&)> next = [&](const N& s) { edges(s); C r; for (auto& e : p.out[(size_t)s.key]) r.push_back(make(e.first)); if (fault(F_WORLD)) std::reverse(r.begin(), r.end()); return r; };
  const std::function<bool(const N&, const N&)> valid = [&](const N& a, const N& b) { sane(a); sane(b); pause(); return !p.bad[(size_t)a.key][(size_t)b.key]; };
  auto cheapest = [&](int a, int b) { double c = kInf; for (auto& e : p.out[(size_t)a]) if (e.first == b) c = std::min(c, e.second); return c; };
  const std::function<double(const N&, const N&)> dist = [&](const N& a, const N& b) { sane(a); sane(b); pause(); Quiet q; const double c = cheapest(a.key, b.key); if (c == kInf) fail("bad-motion", "the cost of a motion %d to %d was asked, which is not a motion", a.key, b.key); if (p.bad[(size_t)a.key][(size_t)b.key]) { probe("distance of an impossible motion"); } return c; };
  NHash hash; hash.mod = p.hash_mod; hash.given = true; NEqual eq; eq.given = true;
  as::StatesWithCosts<N> starts; { Quiet q; for (auto& s : p.starts) starts.emplace_back(make(s.first), s.second); }
  as::AstarResult<N, C> result; EndCheck ec; End end; std::string msg; bool refused = false;
  {
    FaultScope fs(p.faults);
    end = attempt([&]() {
      try
      {
        if (p.form == 0) result = as::PerformAstarSearch<N, C, NHash, NEqual>(starts, goal, children, heur, p.limit, hash, eq);
        else if (p.form == 1) result = as::PerformAstarSearch<N, C, NHash, NEqual>(starts, goal, next, valid, dist, heur, p.limit, hash, eq);
        else
        {
          int g = -1; for (int i = 0; i < p.n; i++) if (p.goal[(size_t)i]) g = i;
          const N a = starts.at(0).State(), b = make(g);
          const std::function<double(const N&, const N&)> heur2 = [&](const N& s, const N& t) { sane(s); sane(t); if (t.key != g) { Quiet q; fail("bad-state", "the heuristic was asked for goal %d instead of %d", t.key, g); } return heur(s); };
          result = as::PerformAstarSearch<N, C, NHash, NEqual>(a, b, next, valid, dist, heur2, p.limit, hash, eq);
        }
      }
      catch (const Injected&) { throw; }
      catch (const std::invalid_argument&) { refused = true; }
    }, &msg);
  }
  Quiet q;
  op();
  ec.check(end, "searching", msg);
  if (end != RETURNED) return;
  if (p.starts.empty()) { if (!refused) fail("bad-request-accepted", "a search without start states returned"); probe("search without starts refused"); return; }
  if (refused) fail("wrong-exception", "a valid search was refused");
  // reference: shortest distances from the starts
  std::vector<double> d((size_t)p.n, kInf);
  double start_goal = kInf;
  for (auto& s : p.starts) { d[(size_t)s.first] = std::min(d[(size_t)s.first], s.second); if (p.goal[(size_t)s.first]) start_goal = std::min(start_goal, s.second); }
  for (bool more = true; more;)
  {
    more = false;
    for (int a = 0; a < p.n; a++) for (auto& e : p.out[(size_t)a])
      if (!p.bad[(size_t)a][(size_t)e.first] && d[(size_t)a] + e.second < d[(size_t)e.first]) { d[(size_t)e.first] = d[(size_t)a] + e.second; more = true; }
  }
  double best = kInf; for (int i = 0; i < p.n; i++) if (p.goal[(size_t)i]) best = std::min(best, d[(size_t)i]);
  std::vector<int> path; for (const N& s : result.Path()) path.push_back(s.key);
  event("result", (int64_t)path.size(), (int64_t)(result.PathCost() * 4));
  if (best == kInf)
  {
    if (!path.empty() || !std::isinf(result.PathCost())) fail("phantom-path", "a path of cost %g was returned although no goal can be reached", result.PathCost());
    probe("no path"); return;
  }
  if (path.empty()) fail("missed-path", "no path returned although one of cost %g exists", best);
  // a start that is a goal itself may be returned at once
  const bool at_once = path.size() == 1 && result.PathCost() == start_goal;
  if (result.PathCost() != best && !at_once) fail("not-cheapest", "a path of cost %g was returned, the cheapest costs %g", result.PathCost(), best);
  double c = kInf; for (auto& s : p.starts) if (s.first == path[0]) c = std::min(c, s.second);
  if (c == kInf) fail("bad-path", "the path begins at %d, which is no start", path[0]);
  for (size_t i = 1; i < path.size(); i++)
  {
    if (p.bad[(size_t)path[i - 1]][(size_t)path[i]]) fail("bad-path", "the path uses the impossible motion %d to %d", path[i - 1], path[i]);
    c += cheapest(path[i - 1], path[i]);
    if (c == kInf) fail("bad-path", "the path contains %d to %d, which is not a motion", path[i - 1], path[i]);
  }
  if (!p.goal[(size_t)path.back()]) fail("bad-path", "the path ends at %d, which is no goal", path.back());
  if (c != result.PathCost()) fail("wrong-cost", "the path costs %g, reported is %g", c, result.PathCost());
  probe(path.size() > 1 ? "path found" : "start is a goal");
  if (expanded > (uint64_t)std::count_if(d.begin(), d.end(), [](double x) { return x < kInf; })) probe("states expanded again");
}
void run_e02()
{
  set_omp_env(random_omp_env());
  Search p;
  p.seed = draw(1u << 20);
  p.form = (int)draw(3);
  p.n = chance(1, 12) ? 16 + (int)draw(30) : chance(1, 40) ? 100 + (int)draw(250) : 1 + (int)draw(11);
  p.out.resize((size_t)p.n); p.bad.assign((size_t)p.n, std::vector<bool>((size_t)p.n, false));
  const bool chain = chance(1, 3), free_moves = chance(1, 3);
  auto cost = [&]() { return free_moves && draw(3) == 0 ? 0.0 : chance(1, 2) ? (double)(1 + draw(4)) : (double)draw(40) / 4; };
  const uint64_t m = draw((uint64_t)p.n * (1 + draw(5)) + 1);
  if (chain) for (int i = 0; i + 1 < p.n; i++) { p.out[(size_t)i].emplace_back(i + 1, cost()); if (i + 2 < p.n) p.out[(size_t)i].emplace_back(i + 2, cost() * 2); }
  for (uint64_t i = 0; i < m; i++) { const uint64_t a = draw((uint64_t)p.n), b = draw((uint64_t)p.n); p.out[a].emplace_back((int)b, cost()); }
  // from the first state at once to all others, at a price that detours may beat
  const bool wide = p.n >= 100 && chance(1, 2);
  if (wide) { probe("wide search"); for (int i = 1; i < p.n; i++) p.out[0].emplace_back(i, 3.0 + (double)draw(40) / 4); for (int i = 1; i < p.n; i++) p.out[(size_t)i].emplace_back(1 + (int)draw((uint64_t)p.n - 1), (double)(1 + draw(12)) / 4); }
  if (p.form > 0 && chance(2, 3)) for (uint64_t i = 0; i < (uint64_t)p.n; i++) p.bad[draw((uint64_t)p.n)][draw((uint64_t)p.n)] = true;
  p.goal.assign((size_t)p.n, false);
  const uint64_t goals = p.form == 2 ? 1 : draw(12) == 0 ? 0 : 1 + draw(3);
  for (uint64_t i = 0; i < goals; i++) p.goal[chain ? (uint64_t)(p.n - 1) - draw((uint64_t)(p.n + 2) / 3) : draw((uint64_t)p.n)] = true;
  const uint64_t ns = p.form == 2 ? 1 : chance(1, 40) ? 0 : 1 + draw(4);
  const bool apart = chance(4, 5);      // starts that are no goals
  for (uint64_t i = 0; i < ns; i++)
  {
    int at = wide && i == 0 ? 0 : (int)draw(chain ? (uint64_t)p.n / 2 + 1 : (uint64_t)p.n);
    for (int k = 0; apart && k < p.n && p.goal[(size_t)at]; k++) at = (at + 1) % p.n;
    p.starts.emplace_back(at, p.form == 2 || chance(1, 2) ? 0.0 : (double)draw(48) / 4);
  }
  // never more than what is still to go, but otherwise anything
  std::vector<double> go((size_t)p.n, kInf); for (int i = 0; i < p.n; i++) if (p.goal[(size_t)i]) go[(size_t)i] = 0;
  for (bool more = true; more;)
  {
    more = false;
    for (int a = 0; a < p.n; a++) for (auto& e : p.out[(size_t)a])
      if (!p.bad[(size_t)a][(size_t)e.first] && e.second + go[(size_t)e.first] < go[(size_t)a]) { go[(size_t)a] = e.second + go[(size_t)e.first]; more = true; }
  }
  const uint64_t hk = draw(p.n > 60 ? 2 : 4);      // inconsistent heuristics can make large searches endless
  for (double v : go) p.h.push_back(v == kInf ? (chance(1, 2) ? kInf : (double)draw(20)) : hk == 0 ? 0 : hk == 1 ? v : hk == 2 ? v * (double)draw(2) : v * (double)draw(5) / 4);
  p.limit = chance(1, 2); p.slow = chance(1, 6); p.throws = chance(1, 4); p.heavy = chance(1, 2);
  p.hash_mod = chance(1, 3) ? (p.n > 60 ? 40 : 1 + draw(2)) : 1000;
  p.faults = kSched | bit(F_WORLD) | (p.throws ? bit(F_THROW) : 0) | (chance(1, 5) ? bit(F_ALLOC) : 0);
  p.nested = !(p.faults & (bit(F_ALLOC) | bit(F_THROW))) && p.n <= 60 && chance(1, 4);
  if (p.nested) probe("callbacks use the library");
  const uint64_t cont = draw(3);
  call(p.faults & (kRes | bit(F_THROW)) ? PLAIN : draw_kind(), 2, [&](int c) {
    switch (cont) { case 0: one_search<std::vector<N>>(p, c); break; case 1: one_search<std::deque<N>>(p, c); break; default: one_search<std::list<N>>(p, c); } });
}
}  // namespace

namespace sim
{
const Property kProperties[] = {
  {"E01", run_e01, 60000000, kSchedAll | bit(F_ALLOC) | bit(F_THROW) | bit(F_WORLD), true},
  {"E02", run_e02, 80000000, kSchedAll | bit(F_ALLOC) | bit(F_THROW) | bit(F_WORLD), true},
};
const size_t kNumProperties = sizeof kProperties / sizeof kProperties[0];
}
