// D01 tree planners, D02 planning timeouts, D03 path smoothing.
#include "ctx.hpp"
#include <common_robotics_utilities/path_processing.hpp>
#include <common_robotics_utilities/simple_prm_planner.hpp>
#include <common_robotics_utilities/simple_rrt_planner.hpp>
#include <cmath>
#include <limits>
#include <map>
#include <set>

using namespace sim;
using namespace common_robotics_utilities;
using namespace ctx;
namespace rrt = simple_rrt_planner;
namespace prm = simple_prm_planner;
namespace pp = path_processing;

namespace
{
const double kInf = std::numeric_limits<double>::infinity();
uint64_t h2(uint64_t a, uint64_t b) { return mix(mix(0x51ed, a), b); }
double h01(uint64_t h) { return (double)(h % 1000003) / 1000003.0; }

// ---- D01 ------------------------------------------------------------------------------
struct St { int64_t id = -1, mark = 0; double x = 0, y = 0; std::vector<int32_t> load; };
using Tree = rrt::SimpleRRTPlannerTree<St>;
using Act = rrt::BiRRTActiveTreeType;
using Smp = rrt::BiRRTSampleType;
constexpr int START = 0, GOAL = 1;
int ti(Act a) { return a == Act::START_TREE ? START : GOAL; }

struct Plan
{
  uint64_t seed = 0;
  bool bi = false, single = false, kin = false, connect = false, lib_nn = false, lib_choice = false, lib_goals = false, heavy = false;
  int init[2] = {1, 1}, iterations = 8, dop = 1;
  bool cb_added = true, cb_solution = true, mutate = false, extra = false, rewire = false;
  int p_empty = 30, p_hit = 10, p_bad = 0, branch = 3, p_block = 20;
  double step = 1.0;
  bool throws = false, slow = false, nested = false;
  uint32_t faults = 0;
};
struct Ev
{
  enum K { TERM, SELS, SAMPLE, TSAMP, NN, PROP, ADDED, EXTRA, CHECK, SOLVED, SELA } k;
  int64_t a = 0, b = 0, c = 0, d = 0;
  std::vector<std::pair<int64_t, int64_t>> list;   // propagated states: id, relative parent
};
struct Node { int64_t id = 0, mark = 0, parent = -1; std::vector<int64_t> kids; bool checked = true; };
using Forest = std::vector<Node>;

// Callbacks may use the library themselves: what they compute is right and the
// surrounding computation is left alone.
void nested_plan()
{
  const auto at = [](double x) { St s; s.x = x; return s; };
  const std::function<double(const St&, const St&)> dist = [](const St& a, const St& b) { return std::hypot(a.x - b.x, a.y - b.y); };
  const std::function<St(const St&, const St&, double)> interp = [at](const St& a, const St& b, const double f) { return at(a.x + (b.x - a.x) * f); };
  const std::function<bool(const St&, const St&)> edge = [](const St&, const St&) { return true; };
  Tree tree; tree.AddNode(at(0));
  const auto nn = rrt::MakeKinematicLinearRRTNearestNeighborsFunction<St, Tree>(dist, DegreeOfParallelism(1));
  const auto prop = rrt::MakeKinematicRRTConnectPropagationFunction<St>(dist, interp, edge, 2.0);
  const rrt::SamplingFunction<St> sampling = [at]() { return at(6); };
  const rrt::RRTCheckGoalReachedFunction<St> check = [](const St& s) { return s.x == 6; };
  const rrt::RRTTerminationCheckFunction term = [](const int64_t n) { return n > 50; };
  const auto r = rrt::RRTPlanSinglePath<St, Tree, St>(tree, sampling, nn, prop, {}, check, {}, term);
  bool ok = r.Path().size() == 4 && tree.Size() == 4;
  for (size_t i = 0; ok && i < 4; i++) ok = r.Path()[i].x == 2.0 * (double)i;
  if (chance(1, 2))
  {
    Tree a, b; a.AddNode(at(0)); b.AddNode(at(6));
    const auto bnn = rrt::MakeKinematicLinearBiRRTNearestNeighborsFunction<St, Tree>(dist, DegreeOfParallelism(1));
    const auto bprop = rrt::MakeKinematicBiRRTConnectPropagationFunction<St>(dist, interp, edge, 2.0);
    const rrt::BiRRTSelectSampleTypeFunction<St, Tree> type = [](const Tree&, const Tree&, const Act) { return Smp::TREE_SAMPLE; };
    const rrt::BiRRTTreeSamplingFunction<St, Tree> pick = [](const Tree&, const Act) { return (int64_t)0; };
    const rrt::BiRRTStatesConnectedFunction<St> conn = [](const St& x, const St& y, const Act) { return x.x == y.x; };
    const rrt::BiRRTSelectActiveTreeFunction<St, Tree> sel = [](const Tree&, const Tree&, const Act t) { return t; };
    const rrt::BiRRTTerminationCheckFunction stop = [](const int64_t m, const int64_t n) { return m + n > 50; };
    const auto q = rrt::BiRRTPlanSinglePath<St, Tree>(a, b, type, sampling, pick, bnn, bprop, {}, conn, {}, sel, stop).Path();
    ok = ok && q.size() == 5 && a.Size() == 4 && b.Size() == 1 && q[1].x == 2 && q[3].x == 6 && q[4].x == 6;
  }
  if (!ok) fail("nested-call", "a plan made inside a callback has %zu states in a tree of %lld", r.Path().size(), (long long)tree.Size());
}
// One planner call: its callbacks, what they reported, and the check of the result.
struct Run
{
  const Plan& p; uint64_t me; Tree t[2]; Forest m[2];
  std::vector<Ev> log; int64_t next_id = 0; uint64_t calls = 0; int64_t terms = 0; bool odd = false;
  std::set<std::pair<int64_t, int64_t>> accepted; std::set<int64_t> stopped_at;   // edges accepted; states from which an edge was rejected
  std::map<int64_t, int64_t> made_by_goals;
  Run(const Plan& plan, int copy) : p(plan), me(h2(plan.seed, (uint64_t)copy)) {}

  uint64_t rnd(uint64_t n) { return h2(me, ++calls) % n; }
  bool pct(int v) { return (int)rnd(100) < v; }
  St fresh()
  {
    St s; s.id = next_id++; s.x = h01(h2(me + 1, (uint64_t)s.id)) * 10; s.y = h01(h2(me + 2, (uint64_t)s.id)) * 10;
    if (p.heavy) s.load.assign(3, (int32_t)s.id);
    return s;
  }
  static double dist(const St& a, const St& b) { return std::hypot(a.x - b.x, a.y - b.y); }
  void pause() { if (p.slow) yield(); if (p.throws && fault(F_THROW)) throw_injected(1); if (p.nested && chance(1, 40)) nested_plan(); }
  void note(Ev e) { Quiet q; log.push_back(std::move(e)); }
  bool hit(int64_t id, int64_t mark) const { return (int)(h2(h2(me + 3, (uint64_t)id), (uint64_t)mark) % 100) < p.p_hit; }
  bool hit2(int64_t a, int64_t mark, int64_t b) const { return (int)(h2(h2(me + 4, (uint64_t)a * 1000 + (uint64_t)mark), (uint64_t)b) % 100) < p.p_hit; }
  bool edge(const St& a, const St& b) { pause(); Quiet q; const bool ok = (int)(h2(h2(me + 5, (uint64_t)a.id), (uint64_t)b.id) % 100) >= p.p_block; if (ok) accepted.insert({a.id, b.id}); else stopped_at.insert(a.id); return ok; }
  St between(const St& a, const St& b, double f) { pause(); St s; { Quiet q; s.id = next_id++; } s.x = a.x + (b.x - a.x) * f; s.y = a.y + (b.y - a.y) * f; return s; }
  double unit01() { Quiet q; const uint64_t v = rnd(12); return v == 0 ? 0.0 : v == 1 ? 1.0 - 0x1p-53 : h01(h2(me + 6, calls)); }

  bool term(int64_t a, int64_t b) { pause(); note({Ev::TERM, a, b, ++terms > p.iterations, 0, {}}); return terms > p.iterations; }
  int64_t nn(const Tree& tree, const St& target, int act, const std::function<int64_t()>& lib)
  {
    pause();
    int64_t idx;
    if (p.lib_nn) idx = lib();
    else { Quiet q; idx = (int64_t)rnd((uint64_t)tree.Size()); if (pct(p.p_bad)) { idx = rnd(2) ? -1 : tree.Size() + (int64_t)rnd(3); odd = true; } }
    Quiet q;
    if (p.lib_nn)
    {
      double best = kInf; for (int64_t i = 0; i < tree.Size(); i++) best = std::min(best, dist(tree.GetNodeImmutable(i).GetValueImmutable(), target));
      if (idx < 0 || idx >= tree.Size() || dist(tree.GetNodeImmutable(idx).GetValueImmutable(), target) != best)
        fail("nearest", "nearest-neighbour function gave node %lld, which is not a nearest of %lld", (long long)idx, (long long)tree.Size());
      probe("library nearest neighbour");
    }
    note({Ev::NN, tree.Size(), target.id, idx, act, {}});
    return idx;
  }
  // the supplied extend and connect steps go straight at the sample, as far as the edge check lets them
  void straight(const St& from, const St& to, const rrt::ForwardPropagation<St>& out)
  {
    const double total = dist(from, to), tol = 1e-7 * (1 + total);
    const size_t n = out.size();
    if (!p.connect && n > 1) fail("propagation-steps", "an extend step returned %zu states", n);
    for (size_t j = 0; j < n; j++)
    {
      const St& s = out[j].State();
      const double f = total > 0 ? std::min(1.0, (double)(j + 1) * p.step / total) : 1.0;
      if (out[j].RelativeParentIndex() != (int64_t)j - 1) fail("propagation-steps", "step %zu of a propagation hangs below %lld", j, (long long)out[j].RelativeParentIndex());
      if (std::hypot(s.x - (from.x + (to.x - from.x) * f), s.y - (from.y + (to.y - from.y) * f)) > tol) fail("propagation-steps", "step %zu of a propagation is not on the way to the sample at its step length", j);
    }
    const St& last = n ? out[n - 1].State() : from;
    const bool arrived = dist(last, to) <= tol && (n > 0 || p.connect);
    if (!arrived && !(n > 0 && !p.connect) && !stopped_at.count(last.id)) fail("propagation-steps", "propagation stopped after %zu states short of the sample although no edge was rejected there", n);
    if (n > 1) probe("propagation of several steps");
    if (n == 0 && total > 0) probe("propagation blocked at once");
  }
  rrt::ForwardPropagation<St> prop(const St& from, const St& to, int act, const std::function<rrt::ForwardPropagation<St>()>& lib)
  {
    pause();
    rrt::ForwardPropagation<St> out;
    const int64_t fid = from.id, tid = to.id;
    if (p.kin) { { Quiet q; stopped_at.clear(); } out = lib(); Quiet q; straight(from, to, out); }
    else
    {
      const size_t n = pct(p.p_empty) ? 0 : 1 + rnd((uint64_t)p.branch);
      for (size_t j = 0; j < n; j++)
      {
        int64_t rel = rnd(3) == 0 ? -1 : (int64_t)rnd(j + 1) - 1;
        if (pct(p.p_bad)) { Quiet q; rel = (int64_t)j + (int64_t)rnd(3); odd = true; }
        out.emplace_back(fresh(), rel);
      }
    }
    Quiet q;
    Ev e{Ev::PROP, fid, tid, act, 0, {}};
    for (size_t j = 0; j < out.size(); j++)
    {
      e.list.push_back({out[j].State().id, out[j].RelativeParentIndex()});
      if (p.kin)
      {
        const int64_t rel = out[j].RelativeParentIndex();
        if (rel >= (int64_t)j) fail("propagation", "propagation names a later state as parent");
        const St& par = rel < 0 ? from : out[(size_t)rel].State();
        if (!accepted.count({par.id, out[j].State().id})) fail("unverified-motion", "propagation returned a motion the edge check never accepted");
        if (dist(par, out[j].State()) > p.step * (1 + 1e-9)) fail("long-motion", "propagation step of %g with step size %g", dist(par, out[j].State()), p.step);
        probe("library propagation");
      }
    }
    note(std::move(e));
    return out;
  }
  void added(Tree& tree, int64_t idx, int act)
  {
    {
      Quiet q;
      if (&tree != &t[act]) fail("wrong-tree", "state-added callback got the other tree");
      if (idx < 0 || idx >= tree.Size()) fail("bad-index", "state-added callback got index %lld of %lld", (long long)idx, (long long)tree.Size());
      Ev e{Ev::ADDED, idx, tree.GetNodeImmutable(idx).GetValueImmutable().id, act, 0, {}};
      auto& node = tree.GetNodeMutable(idx);
      if (p.mutate && pct(50)) { node.GetValueMutable().mark = 1 + (int64_t)rnd(100); probe("callback changed a state"); }
      e.d = node.GetValueImmutable().mark;
      if (p.rewire && idx > 1 && pct(30))
      {
        const int64_t old = node.GetParentIndex(), now = (int64_t)rnd((uint64_t)idx);
        if (old >= 0) tree.GetNodeMutable(old).RemoveChildIndex(idx);
        node.SetParentIndex(now); tree.GetNodeMutable(now).AddChildIndex(idx);
        e.list.push_back({now, 0});
        probe("callback rewired a state");
      }
      log.push_back(e);
    }
    pause();
    if (p.extra && pct(25))
    {
      St s = fresh();
      const int64_t id = s.id, at = tree.AddNodeAndConnect(s, idx);
      note({Ev::EXTRA, at, id, act, idx, {}});
    }
  }
  void setup()
  {
    Quiet q;
    for (int k = 0; k < (p.bi ? 2 : 1); k++)
      for (int i = 0; i < p.init[k]; i++)
      {
        St s = fresh();
        Node n; n.id = s.id;
        if (i == 0 || rnd(p.init[k] > 100 ? 50 : 5) == 0) t[k].AddNode(s);
        else { n.parent = p.init[k] > 100 && me % 2 ? 0 : (int64_t)rnd((uint64_t)i); t[k].AddNodeAndConnect(s, n.parent); m[k][(size_t)n.parent].kids.push_back(i); }
        m[k].push_back(n);
      }
  }
  static void linked(const Tree& tree, const char* which)
  {
    const int64_t n = tree.Size();
    for (int64_t i = 0; i < n; i++)
    {
      const auto& node = tree.GetNodeImmutable(i);
      const int64_t par = node.GetParentIndex();
      if (par >= n || par == i) fail("linkage", "%s tree: node %lld of %lld has parent %lld", which, (long long)i, (long long)n, (long long)par);
      if (par >= 0)
      {
        const auto& kids = tree.GetNodeImmutable(par).GetChildIndices();
        if (std::count(kids.begin(), kids.end(), i) != 1) fail("linkage", "%s tree: node %lld is %d times among the children of its parent", which, (long long)i, (int)std::count(kids.begin(), kids.end(), i));
      }
      for (int64_t c : node.GetChildIndices())
        if (c < 0 || c >= n || tree.GetNodeImmutable(c).GetParentIndex() != i) fail("linkage", "%s tree: node %lld lists child %lld, which has another parent", which, (long long)i, (long long)c);
    }
    if (!Tree::CheckNodeLinkage(tree.GetNodesImmutable())) fail("linkage", "%s tree: linkage check rejects a planned tree", which);
  }
  static std::vector<std::pair<int64_t, int64_t>> chain(const Forest& f, int64_t i)
  {
    std::vector<std::pair<int64_t, int64_t>> r;
    for (size_t guard = 0; i >= 0 && guard <= f.size(); guard++) { r.push_back({f[(size_t)i].id, f[(size_t)i].mark}); i = f[(size_t)i].parent; }
    std::reverse(r.begin(), r.end());
    return r;
  }
  // the recorded history against what the planner was obliged to do with it
  void verify(bool returned, const rrt::PlannedPaths<St>& paths, const rrt::PlanningStatistics& stats)
  {
    linked(t[0], p.bi ? "start" : "planner");
    if (p.bi) linked(t[1], "goal");
    struct Pend { int64_t id, rel; };
    std::vector<Pend> pending; size_t done = 0; std::vector<int64_t> index_of; int act = START; int64_t nn_idx = 0, target = -1, target_idx = -1; bool tree_sample = false, sampled = false;
    std::vector<std::pair<int64_t, int64_t>> want, solved; bool stopped = false;
    double samples = 0, good = 0, bad = 0, iters[2] = {0, 0}, swaps = 0;
    auto append = [&](int k, int64_t id, int64_t par, bool planned)
    {
      Node n; n.id = id; n.parent = par; n.checked = planned;
      m[k].push_back(n);
      if (par >= 0) m[k][(size_t)par].kids.push_back((int64_t)m[k].size() - 1);
      return (int64_t)m[k].size() - 1;
    };
    auto settle = [&](int k, int64_t idx)
    {
      // the state at idx has its final value: does it solve the problem?
      const Node& n = m[k][(size_t)idx];
      if (!p.bi) { if (hit(n.id, n.mark)) want.push_back({idx, -1}); }
      else if (tree_sample && hit2(n.id, n.mark, target)) want.push_back(k == START ? std::make_pair(idx, target_idx) : std::make_pair(target_idx, idx));
    };
    auto flush = [&]() -> int64_t
    {
      const Pend& q = pending[done];
      if (q.rel >= (int64_t)done) return -1;
      const int64_t par = q.rel < 0 ? nn_idx : index_of[(size_t)q.rel];
      const int64_t idx = append(act, q.id, par, true);
      index_of.push_back(idx); done++;
      return idx;
    };
    auto flush_all = [&](const char* when)
    {
      if (p.cb_added && done < pending.size()) fail("callback-missed", "the state-added callback was not called for every propagated state (%s)", when);
      while (done < pending.size()) { const int64_t i = flush(); if (i < 0) return; settle(act, i); }
    };
    if (!p.bi) { for (size_t i = 0; i < m[0].size(); i++) settle(0, (int64_t)i); }
    else
      for (size_t i = 0; i < m[0].size(); i++) for (size_t j = 0; j < m[1].size(); j++)
        if (hit2(m[0][i].id, 0, m[1][j].id)) want.push_back({(int64_t)i, (int64_t)j});
    int64_t last_added = -1; bool loops = false;
    auto settle_last = [&]() { if (last_added >= 0) { settle(act, last_added); last_added = -1; } };
    for (const Ev& e : log)
    {
      if (stopped) fail("ran-on", "the planner went on after its termination check said stop");
      if (e.k != Ev::EXTRA && e.k != Ev::CHECK && e.k != Ev::SOLVED) settle_last();
      switch (e.k)
      {
        case Ev::TERM:
          flush_all("next termination check");
          loops = true;
          if (e.a != (int64_t)m[0].size() || (p.bi && e.b != (int64_t)m[1].size())) fail("termination-sizes", "termination check told %lld/%lld, trees hold %zu/%zu", (long long)e.a, (long long)e.b, m[0].size(), m[1].size());
          if (e.c) stopped = true;
          if (p.single && !want.empty()) probe("termination asked although solved");
          if (p.bi && !e.c) iters[act]++;
          break;
        case Ev::SELS:
          if (e.c != act || e.a != (int64_t)m[0].size() || e.b != (int64_t)m[1].size()) fail("active-tree", "sample-type choice told the wrong trees");
          if (p.single && !want.empty()) fail("ran-on", "single-path planning went on after a solution");
          tree_sample = e.d != 0; sampled = false; break;
        case Ev::SAMPLE:
          if (p.single && !want.empty()) fail("ran-on", "single-path planning went on after a solution");
          if (p.bi && tree_sample) fail("sample-type", "a state was sampled where a tree sample was chosen");
          target = e.a; sampled = true; samples++; break;
        case Ev::TSAMP:
          if (!tree_sample || e.a != (int64_t)m[1 - act].size() || e.c != act) fail("sample-type", "tree sampling asked for the wrong tree");
          target_idx = e.b; sampled = true; samples++;
          if (target_idx < 0 || target_idx >= (int64_t)m[1 - act].size()) break;
          target = m[1 - act][(size_t)target_idx].id; break;
        case Ev::NN:
          if (!sampled || e.b != target || e.d != act || e.a != (int64_t)m[act].size()) fail("nearest-arguments", "nearest neighbour asked for state %lld in a tree of %lld, sampled %lld, tree of %zu", (long long)e.b, (long long)e.a, (long long)target, m[act].size());
          nn_idx = e.c; break;
        case Ev::PROP:
          if (nn_idx < 0 || nn_idx >= (int64_t)m[act].size()) fail("bad-index-used", "planning went on from nearest neighbour %lld of %zu", (long long)nn_idx, m[act].size());
          if (e.a != m[act][(size_t)nn_idx].id || e.b != target || e.c != act) fail("propagation-arguments", "propagation from %lld to %lld, expected %lld to %lld", (long long)e.a, (long long)e.b, (long long)m[act][(size_t)nn_idx].id, (long long)target);
          pending.clear(); done = 0; index_of.clear(); sampled = false;
          for (auto& s : e.list) pending.push_back({s.first, s.second});
          (e.list.empty() ? bad : good)++;
          break;
        case Ev::ADDED:
        {
          if (done >= pending.size()) fail("callback-extra", "the state-added callback was called for a state not propagated");
          const int64_t idx = flush();
          if (idx < 0) fail("bad-index-used", "a state was added below a parent that does not exist yet");
          if (e.a != idx || e.b != m[act].back().id || e.c != act) fail("added-arguments", "state-added callback told index %lld state %lld, expected %lld state %lld", (long long)e.a, (long long)e.b, (long long)idx, (long long)m[act].back().id);
          m[act].back().mark = e.d;
          if (!e.list.empty())
          {
            auto& old = m[act][(size_t)m[act].back().parent].kids; old.erase(std::find(old.begin(), old.end(), idx));
            m[act].back().parent = e.list[0].first; m[act][(size_t)e.list[0].first].kids.push_back(idx);
          }
          last_added = idx;
          break;
        }
        case Ev::EXTRA: append(act, e.b, e.d, false); break;
        case Ev::CHECK: break;
        case Ev::SOLVED: solved.push_back({e.a, e.b}); break;
        case Ev::SELA:
          flush_all("tree choice");
          if (e.a != act) fail("active-tree", "tree choice told the wrong active tree");
          if (e.b != act) swaps++;
          act = (int)e.b; break;
      }
    }
    settle_last();
    if (returned)
    {
      flush_all("end");
      if (!stopped && !(p.single && !want.empty())) fail("gave-up", "the planner returned although its termination check never said stop");
      if (p.cb_solution && solved != want) fail("solution-callback", "the solution callback reported %zu solutions, expected %zu", solved.size(), want.size());
    }
    for (int k = 0; k < (p.bi ? 2 : 1); k++)
    {
      if (!returned && k == act)
        while (done < pending.size() && t[k].Size() > (int64_t)m[k].size()) if (flush() < 0) break;
      if (t[k].Size() != (int64_t)m[k].size()) fail("tree-size", "tree %d holds %lld states, propagated %zu", k, (long long)t[k].Size(), m[k].size());
      for (size_t i = 0; i < m[k].size(); i++)
      {
        const auto& n = t[k].GetNodeImmutable((int64_t)i);
        if (n.GetValueImmutable().id != m[k][i].id || n.GetParentIndex() != m[k][i].parent || (returned && n.GetValueImmutable().mark != m[k][i].mark))
          fail("wrong-node", "tree %d node %zu is state %lld below %lld, expected state %lld below %lld", k, i, (long long)n.GetValueImmutable().id, (long long)n.GetParentIndex(), (long long)m[k][i].id, (long long)m[k][i].parent);
        std::vector<int64_t> a = n.GetChildIndices(), b = m[k][i].kids; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        if (a != b) fail("linkage", "tree %d node %zu lists %zu children, expected %zu", k, i, a.size(), b.size());
      }
    }
    if (!returned) { probe("planner left by exception"); return; }
    const size_t expect = p.single ? std::min<size_t>(1, want.size()) : want.size();
    if (paths.size() != expect) fail("solutions", "%zu paths returned, %zu solutions reported", paths.size(), want.size());
    for (size_t i = 0; i < expect; i++)
    {
      auto ref = chain(m[0], want[i].first);
      if (p.bi) { auto back = chain(m[1], want[i].second); ref.insert(ref.end(), back.rbegin(), back.rend()); }
      bool same = ref.size() == paths[i].size();
      for (size_t j = 0; same && j < ref.size(); j++) same = paths[i][j].id == ref[j].first && paths[i][j].mark == ref[j].second;
      if (!same) fail("path", "solution %zu of %zu: path of %zu states differs from the %zu states from root to solution", i, expect, paths[i].size(), ref.size());
    }
    auto stat = [&](const char* name, double v)
    {
      auto it = stats.find(name);
      if (it == stats.end() || it->second != v) fail("statistics", "statistic %s is %g, expected %g", name, it == stats.end() ? -1.0 : it->second, v);
    };
    stat("total_samples", samples); stat("successful_samples", good); stat("failed_samples", bad); stat("solutions", (double)want.size());
    stat("total_states", (double)(m[0].size() + (p.bi ? m[1].size() : 0)));
    if (p.bi) { stat("start_tree_active_iterations", iters[0]); stat("goal_tree_active_iterations", iters[1]); stat("active_tree_swaps", swaps); }
    if (!want.empty()) probe(p.bi ? "bidirectional solution" : "solution");
    if (!loops && !want.empty()) probe("solved before planning");
    state(h2(m[0].size(), h2(m[1].size(), want.size())));
  }
};
// plans once and checks everything
void one_plan(const Plan& p, int copy)
{
  struct Boxed { Run r; Boxed(const Plan& p, int c) : r(p, c) {} };
  std::unique_ptr<Run> own; { Quiet q; own.reset(new Run(p, copy)); own->setup(); }
  Run& r = *own;
  rrt::PlannedPaths<St> paths; rrt::PlanningStatistics stats; std::string msg;
  const EndCheck ec; End end;
  {
    FaultScope fs(p.faults);
    end = attempt([&]()
    {
      const std::function<double(const St&, const St&)> dist = [](const St& a, const St& b) { return Run::dist(a, b); };
      const std::function<St(const St&, const St&, double)> interp = [&r](const St& a, const St& b, const double f) { return r.between(a, b, f); };
      const std::function<bool(const St&, const St&)> edge = [&r](const St& a, const St& b) { return r.edge(a, b); };
      const utility::UniformUnitRealFunction unit = [&r]() { return r.unit01(); };
      const DegreeOfParallelism dop(p.dop);
      rrt::SamplingFunction<St> raw = [&r]() { r.pause(); Quiet q; return r.fresh(); };
      if (p.lib_goals)
      {
        std::vector<St> goals; { Quiet q; const uint64_t n = 1 + r.rnd(3); for (uint64_t i = 0; i < n; i++) goals.push_back(r.fresh()); }
        raw = rrt::MakeStateAndGoalsSamplingFunction<St>(raw, goals, 0.3, unit);
      }
      if (!p.bi)
      {
        const auto lib_nn = rrt::MakeKinematicLinearRRTNearestNeighborsFunction<St, Tree>(dist, dop);
        const auto lib_prop = p.connect ? rrt::MakeKinematicRRTConnectPropagationFunction<St>(dist, interp, edge, p.step) : rrt::MakeKinematicRRTExtendPropagationFunction<St>(dist, interp, edge, p.step);
        const rrt::SamplingFunction<St> sampling = [&]() { St s = raw(); r.note({Ev::SAMPLE, s.id, 0, 0, 0, {}}); return s; };
        const rrt::RRTNearestNeighborFunction<St, Tree, St> nn = [&](const Tree& t, const St& s) { return r.nn(t, s, START, [&]() { return lib_nn(t, s); }); };
        const rrt::RRTForwardPropagationFunction<St, St> prop = [&](const St& a, const St& b) { return r.prop(a, b, START, [&]() { return lib_prop(a, b); }); };
        rrt::RRTStateAddedCallbackFunction<St, Tree> added; if (p.cb_added) added = [&](Tree& t, const int64_t i) { r.added(t, i, START); };
        const rrt::RRTCheckGoalReachedFunction<St> check = [&](const St& s) { r.pause(); r.note({Ev::CHECK, s.id, s.mark, 0, 0, {}}); return r.hit(s.id, s.mark); };
        rrt::RRTGoalReachedCallbackFunction<St, Tree> goal; if (p.cb_solution) goal = [&](Tree& t, const int64_t i) { if (&t != &r.t[0]) fail("wrong-tree", "goal callback got another tree"); r.note({Ev::SOLVED, i, -1, 0, 0, {}}); r.pause(); };
        const rrt::RRTTerminationCheckFunction term = [&](const int64_t n) { return r.term(n, 0); };
        if (p.single)
        {
          const auto res = rrt::RRTPlanSinglePath<St, Tree, St>(r.t[0], sampling, nn, prop, added, check, goal, term);
          Quiet q; if (!res.Path().empty()) paths.push_back(res.Path()); stats = res.Statistics();
        }
        else { const auto res = rrt::RRTPlanMultiPath<St, Tree, St>(r.t[0], sampling, nn, prop, added, check, goal, term); Quiet q; paths = res.Paths(); stats = res.Statistics(); }
      }
      else
      {
        const auto lib_nn = rrt::MakeKinematicLinearBiRRTNearestNeighborsFunction<St, Tree>(dist, dop);
        const auto lib_prop = p.connect ? rrt::MakeKinematicBiRRTConnectPropagationFunction<St>(dist, interp, edge, p.step) : rrt::MakeKinematicBiRRTExtendPropagationFunction<St>(dist, interp, edge, p.step);
        const auto lib_type = rrt::MakeUniformRandomBiRRTSelectSampleTypeFunction<St, Tree>(unit, 0.5);
        const auto lib_act = rrt::MakeUniformRandomBiRRTSelectActiveTreeFunction<St, Tree>(unit, 0.4);
        const auto lib_tree = rrt::MakeUniformRandomBiRRTTreeSamplingFunction<St, Tree>(unit);
        const rrt::BiRRTSelectSampleTypeFunction<St, Tree> type = [&](const Tree& a, const Tree& b, const Act act)
        {
          r.pause();
          if (&a != &r.t[0] || &b != &r.t[1]) fail("wrong-tree", "sample-type choice got swapped trees");
          const Smp s = p.lib_choice ? lib_type(a, b, act) : r.pct(60) ? Smp::TREE_SAMPLE : Smp::STATE_SAMPLE;
          r.note({Ev::SELS, a.Size(), b.Size(), ti(act), s == Smp::TREE_SAMPLE, {}});
          return s;
        };
        const rrt::SamplingFunction<St> sampling = [&]() { St s = raw(); r.note({Ev::SAMPLE, s.id, 0, 0, 0, {}}); return s; };
        const rrt::BiRRTTreeSamplingFunction<St, Tree> tree = [&](const Tree& t, const Act act)
        {
          r.pause();
          if (&t != &r.t[1 - ti(act)]) fail("wrong-tree", "tree sampling got the active tree");
          int64_t i = p.lib_choice ? lib_tree(t, act) : (int64_t)r.rnd((uint64_t)t.Size());
          if (p.lib_choice && (i < 0 || i >= t.Size())) fail("bad-index", "tree sampling function gave %lld of %lld", (long long)i, (long long)t.Size());
          if (r.pct(p.p_bad)) { i = r.rnd(2) ? -2 : t.Size(); r.odd = true; }
          r.note({Ev::TSAMP, t.Size(), i, ti(act), 0, {}});
          return i;
        };
        const rrt::BiRRTNearestNeighborFunction<St, Tree> nn = [&](const Tree& t, const St& s, const Act act)
        {
          if (&t != &r.t[ti(act)]) fail("wrong-tree", "nearest neighbour got the inactive tree");
          return r.nn(t, s, ti(act), [&]() { return lib_nn(t, s, act); });
        };
        const rrt::BiRRTPropagationFunction<St> prop = [&](const St& a, const St& b, const Act act) { return r.prop(a, b, ti(act), [&]() { return lib_prop(a, b, act); }); };
        rrt::BiRRTStateAddedCallbackFunction<St, Tree> added; if (p.cb_added) added = [&](Tree& t, const int64_t i, const Act act) { r.added(t, i, ti(act)); };
        const rrt::BiRRTStatesConnectedFunction<St> conn = [&](const St& a, const St& b, const Act) { r.pause(); r.note({Ev::CHECK, a.id, b.id, 0, 0, {}}); return r.hit2(a.id, a.mark, b.id); };
        rrt::BiRRTGoalBridgeCallbackFunction<St, Tree> bridge;
        if (p.cb_solution) bridge = [&](Tree& a, const int64_t i, Tree& b, const int64_t j, const Act)
        {
          if (&a != &r.t[0] || &b != &r.t[1]) fail("wrong-tree", "bridge callback got swapped trees");
          r.note({Ev::SOLVED, i, j, 0, 0, {}}); r.pause();
        };
        const rrt::BiRRTSelectActiveTreeFunction<St, Tree> select = [&](const Tree& a, const Tree& b, const Act act)
        {
          r.pause();
          if (&a != &r.t[0] || &b != &r.t[1]) fail("wrong-tree", "tree choice got swapped trees");
          const Act n = p.lib_choice ? lib_act(a, b, act) : r.pct(50) ? Act::START_TREE : Act::GOAL_TREE;
          r.note({Ev::SELA, ti(act), ti(n), 0, 0, {}});
          return n;
        };
        const rrt::BiRRTTerminationCheckFunction term = [&](const int64_t a, const int64_t b) { return r.term(a, b); };
        if (p.single)
        {
          const auto res = rrt::BiRRTPlanSinglePath<St, Tree>(r.t[0], r.t[1], type, sampling, tree, nn, prop, added, conn, bridge, select, term);
          Quiet q; if (!res.Path().empty()) paths.push_back(res.Path()); stats = res.Statistics();
        }
        else { const auto res = rrt::BiRRTPlanMultiPath<St, Tree>(r.t[0], r.t[1], type, sampling, tree, nn, prop, added, conn, bridge, select, term); Quiet q; paths = res.Paths(); stats = res.Statistics(); }
      }
    }, &msg);
  }
  Quiet q;
  op();
  if (r.odd)
  {
    // a callback named a state that does not exist
    if (end == RETURNED) fail("bad-index-used", "planning went on although a callback named a state that does not exist");
    probe("callback named a missing state");
    if (end != STDEXC) ec.check(end, "planning", msg);
  }
  else ec.check(end, p.bi ? "bidirectional planning" : "planning", msg);
  r.verify(end == RETURNED, paths, stats);
  own.reset();
}
// A history of operations on a tree itself, without a planner, against a model of it.
struct TreeOps
{
  Tree t; Forest m; int64_t next = 0; uint32_t faults = 0;
  St fresh() { Quiet q; St s; s.id = next++; s.x = (double)s.id; s.load.assign((size_t)(s.id % 5), (int32_t)s.id); return s; }
  static bool valid(const Forest& f)
  {
    const int64_t n = (int64_t)f.size();
    for (int64_t i = 0; i < n; i++)
    {
      if (f[(size_t)i].parent >= i) return false;
      if (f[(size_t)i].parent >= 0) { const auto& k = f[(size_t)f[(size_t)i].parent].kids; if (std::find(k.begin(), k.end(), i) == k.end()) return false; }
      for (int64_t c : f[(size_t)i].kids) if (c <= i || c >= n || f[(size_t)c].parent != i) return false;
    }
    return true;
  }
  static rrt::SimpleRRTPlannerStateVector<St> nodes(const Forest& f)
  {
    rrt::SimpleRRTPlannerStateVector<St> v;
    for (const auto& n : f) { St s; s.id = n.id; s.mark = n.mark; s.x = (double)n.id; s.load.assign((size_t)(n.id % 5), (int32_t)n.id); v.emplace_back(s, n.parent, n.kids); }
    return v;
  }
  static void same(const Tree& t, const Forest& m, const char* what)
  {
    Quiet q;
    if (t.Size() != (int64_t)m.size() || t.Empty() != m.empty() || t.GetNodesImmutable().size() != m.size()) fail("wrong-tree", "%s: %lld nodes, not %zu", what, (long long)t.Size(), m.size());
    for (size_t i = 0; i < m.size(); i++)
    {
      const auto& n = t.GetNodeImmutable((int64_t)i);
      const St& s = n.GetValueImmutable();
      if (s.id != m[i].id || s.mark != m[i].mark || s.load.size() != (size_t)(s.id % 5)) fail("wrong-tree", "%s: node %zu holds state %lld (mark %lld), not %lld (mark %lld)", what, i, (long long)s.id, (long long)s.mark, (long long)m[i].id, (long long)m[i].mark);
      if (n.GetParentIndex() != m[i].parent) fail("wrong-tree", "%s: node %zu has parent %lld, not %lld", what, i, (long long)n.GetParentIndex(), (long long)m[i].parent);
      if (n.GetChildIndices() != m[i].kids) fail("wrong-tree", "%s: node %zu has other children than it was given", what, i);
    }
    if (Tree::CheckNodeLinkage(t.GetNodesImmutable()) != valid(m)) fail("linkage", "%s: linkage check says %d of a tree of %zu nodes", what, !valid(m), m.size());
    bool out = false;
    try { t.GetNodeImmutable((int64_t)m.size()); } catch (const std::exception&) { out = true; }
    if (!out) fail("wrong-tree", "%s: node %zu of %zu can be read", what, m.size(), m.size());
  }
  // a copy with one random blemish
  Forest blemish()
  {
    Forest f = m;
    const size_t n = f.size();
    const size_t hits = n ? draw(3) : 0;
    for (size_t h = 0; h < hits; h++)
    {
      Node& d = f[draw(n)];
      switch (draw(6))
      {
        case 0: d.parent = range(-2, (int64_t)n + 1); break;
        case 1: d.kids.push_back(range(-1, (int64_t)n + 1)); break;
        case 2: if (!d.kids.empty()) d.kids.erase(d.kids.begin() + (long)draw(d.kids.size())); break;
        case 3: { Node& e = f[draw(n)]; std::swap(d.kids, e.kids); break; }
        case 4: { const size_t a = draw(n), b = draw(n); std::swap(f[a].parent, f[b].parent); break; }
        default: { const int64_t i = (int64_t)(&d - f.data()), to = range(-1, (int64_t)n - 1);   // a proper rewiring
          if (d.parent >= 0 && d.parent < (int64_t)n) { auto& k = f[(size_t)d.parent].kids; k.erase(std::remove(k.begin(), k.end(), i), k.end()); }
          d.parent = to; if (to >= 0) f[(size_t)to].kids.push_back(i); }
      }
    }
    return f;
  }
  void step()
  {
    const size_t n = m.size();
    std::string msg; End end; EndCheck ec;
    switch (draw(9))
    {
      case 0:
      {
        const St s = fresh(); int64_t at = -1;
        { FaultScope fs(faults); end = attempt([&]() { at = t.AddNode(s); }, &msg); }
        ec.check(end, "adding a node", msg);
        if (end == RETURNED) { if (at != (int64_t)n) fail("wrong-tree", "new node is number %lld of %zu", (long long)at, n + 1); Node d; d.id = s.id; m.push_back(d); }
        break;
      }
      case 1: case 2: case 3:
      {
        const bool bad = n == 0 || chance(1, 6);
        const St s = fresh(); const int64_t par = bad ? (chance(1, 2) ? -1 - (int64_t)draw(3) : (int64_t)n + 1 + (int64_t)draw(3)) : (int64_t)draw(n); int64_t at = -1;
        { FaultScope fs(faults); end = attempt([&]() { at = t.AddNodeAndConnect(s, par); }, &msg); }
        if (bad) { if (end == RETURNED) fail("bad-parent", "node added below node %lld of %zu", (long long)par, n); probe("missing parent refused"); }
        else
        {
          ec.check(end, "adding a connected node", msg);
          if (end == RETURNED) { if (at != (int64_t)n) fail("wrong-tree", "new node is number %lld of %zu", (long long)at, n + 1); Node d; d.id = s.id; d.parent = par; m.push_back(d); m[(size_t)par].kids.push_back(at); }
          else probe("adding a node failed");
        }
        break;
      }
      case 4:
      {
        if (n < 2) break;   // rewire a node below an earlier one, or cut it loose
        const int64_t i = 1 + (int64_t)draw(n - 1), to = range(-1, i - 1), was = m[(size_t)i].parent;
        if (was >= 0) { t.GetNodeMutable(was).RemoveChildIndex(i); auto& k = m[(size_t)was].kids; k.erase(std::remove(k.begin(), k.end(), i), k.end()); }
        t.GetNodeMutable(i).SetParentIndex(to); m[(size_t)i].parent = to;
        if (to >= 0) { t.GetNodeMutable(to).AddChildIndex(i); if (chance(1, 2)) t.GetNodeMutable(to).AddChildIndex(i); m[(size_t)to].kids.push_back(i); }
        if (to >= 0 && chance(1, 4)) t.GetNodeMutable(to).RemoveChildIndex((int64_t)n + 3);
        probe("node rewired by hand");
        break;
      }
      case 5: case 6:
      {
        const Forest f = blemish(); const bool ok = valid(f); bool got = false;
        if (draw(3) == 0)
        {
          const auto v = nodes(f);
          end = attempt([&]() { const Tree u(v); same(u, f, "a tree made of nodes"); }, &msg);
          if ((end == RETURNED) != ok || (end != RETURNED && end != STDEXC)) fail("linkage", "constructor %s nodes with %s linkage", end == RETURNED ? "accepts" : "refuses", ok ? "proper" : "broken");
        }
        else
        {
          const auto v = nodes(f);
          end = attempt([&]() { got = t.SetNodes(v); }, &msg);
          if (end != RETURNED) fail("exception", "setting nodes threw %s", msg.c_str());
          if (got != ok) fail("linkage", "SetNodes %s nodes with %s linkage", got ? "accepts" : "refuses", ok ? "proper" : "broken");
          if (got) m = f;
        }
        probe(ok ? "proper nodes accepted" : "broken nodes refused");
        break;
      }
      case 7:
        if (n && chance(1, 2)) { const size_t i = draw(n); t.GetNodeMutable((int64_t)i).GetValueMutable().mark++; m[i].mark++; }
        else if (n) { const size_t i = draw(n); if (m[i].kids.empty()) { t.GetNodesMutable().at(i).ClearChildIndicies(); } }
        break;
      default:
        if (chance(1, 3)) { t.Clear(); m.clear(); }
        else { Tree u(t); same(u, m, "a copied tree"); if (chance(1, 2)) { Tree w(7); w = std::move(u); same(w, m, "a moved tree"); } }
    }
    same(t, m, "after an operation");
  }
  static void propagated()
  {
    St s; s.id = 4; s.load.assign(4, 4);
    rrt::PropagatedState<St> p(s, 2);
    rrt::PropagatedState<St> q(St(s), -1);
    p.MutableState().mark = 9; p.SetRelativeParentIndex(-1); q.SetRelativeParentIndex(1);
    if (p.State().mark != 9 || p.State().id != 4 || p.RelativeParentIndex() != -1 || q.RelativeParentIndex() != 1 || q.State().load.size() != 4 || q.State().mark != 0) fail("wrong-tree", "a propagated state does not keep what was set");
  }
};
// Long trees: the path to any state leads all the way back, and a broken link
// anywhere is noticed.
void deep_tree()
{
  Forest f; rrt::SimpleRRTPlannerStateVector<St> v;
  const size_t n = 80 + draw(600);
  {
    Quiet q;
    for (size_t i = 0; i < n; i++)
    {
      Node d; d.id = (int64_t)i; d.parent = i == 0 ? -1 : chance(1, 60) ? (int64_t)draw(i) : (int64_t)i - 1;
      f.push_back(d); if (i) f[(size_t)d.parent].kids.push_back((int64_t)i);
    }
    v = TreeOps::nodes(f);
  }
  Tree t;
  if (chance(1, 2)) { if (!t.SetNodes(v)) fail("linkage", "SetNodes refuses %zu nodes with proper linkage", n); }
  else for (size_t i = 0; i < n; i++) { const int64_t at = i == 0 ? t.AddNode(v[i].GetValueImmutable()) : t.AddNodeAndConnect(v[i].GetValueImmutable(), f[i].parent); if (at != (int64_t)i) fail("wrong-tree", "node %zu got index %lld", i, (long long)at); }
  TreeOps::same(t, f, "a deep tree");
  std::vector<int64_t> ends{(int64_t)n - 1}; for (size_t k = draw(4); k > 0; k--) ends.push_back((int64_t)draw(n));
  const auto paths = rrt::ExtractSolutionPaths<St, Tree, std::vector<St>>(t, ends);
  op(); probe("deep tree");
  {
    Quiet q;
    if (paths.size() != ends.size()) fail("path", "%zu paths for %zu states", paths.size(), ends.size());
    for (size_t k = 0; k < ends.size(); k++)
    {
      std::vector<int64_t> want, got; for (int64_t a = ends[k]; a >= 0; a = f[(size_t)a].parent) want.push_back(a);
      std::reverse(want.begin(), want.end()); for (auto& x : paths[k]) got.push_back(x.id);
      if (want != got) fail("path", "the path to state %lld of a deep tree has %zu states, not %zu, or others", (long long)ends[k], got.size(), want.size());
    }
    // one link is broken
    const size_t i = 1 + draw(n - 1), par = (size_t)f[i].parent;
    switch (draw(4))
    {
      case 0: f[i].parent = i > 1 ? (int64_t)((par + 1 + draw(i - 1)) % i) : 7; break;
      case 1: { auto& k = f[par].kids; k.erase(std::find(k.begin(), k.end(), (int64_t)i)); break; }
      case 2: f[i].kids.push_back((int64_t)draw(n)); break;
      default: f[i].parent = -1;
    }
    v = TreeOps::nodes(f);
  }
  const bool ok = Tree::CheckNodeLinkage(v), want = TreeOps::valid(f);
  if (ok != want) fail("linkage", "linkage check says %d of a deep tree of %zu nodes", ok, n);
  if (!want) probe("broken link in a deep tree");
}
void run_d01()
{
  set_omp_env(random_omp_env());
  if (chance(1, 50)) { deep_tree(); return; }
  if (chance(1, 14))
  {
    TreeOps o; o.faults = chance(1, 2) ? bit(F_ALLOC) : 0;
    { Quiet q; TreeOps::propagated(); }
    const size_t steps = 4 + draw(30);
    for (size_t i = 0; i < steps; i++) { o.step(); op(); }
    return;
  }
  Plan p;
  p.seed = draw(1u << 20);
  p.bi = chance(1, 2); p.single = chance(1, 3);
  p.init[0] = 1 + (int)(chance(1, 2) ? 0 : draw(5)); p.init[1] = 1 + (int)(chance(1, 2) ? 0 : draw(5));
  p.iterations = (int)draw(chance(1, 60) ? 400 : chance(1, 4) ? 40 : 14);
  p.kin = chance(1, 3); p.connect = chance(1, 2); p.lib_nn = chance(1, 3); p.lib_choice = chance(1, 3); p.lib_goals = chance(1, 4);
  p.step = 0.3 + (double)draw(20) / 5; p.p_block = (int)draw(60); p.dop = draw_dop(4).GetNumThreads(); p.heavy = chance(1, 2);
  p.cb_added = chance(2, 3); p.cb_solution = chance(2, 3);
  p.mutate = chance(1, 3); p.extra = chance(1, 4); p.rewire = chance(1, 4);
  p.p_empty = (int)draw(70); p.p_hit = chance(1, 4) ? 0 : 1 + (int)draw(30); p.branch = 1 + (int)draw(5);
  p.p_bad = chance(1, 8) ? 3 : 0; p.slow = chance(1, 4); p.throws = chance(1, 4);
  p.faults = kSched | (p.throws ? bit(F_THROW) : 0) | (chance(1, 4) ? kRes : 0);
  p.nested = !(p.faults & (kRes | bit(F_THROW))) && chance(1, 4);
  if (p.nested) probe("callbacks use the library");
  if (chance(1, 60))
  {
    // trees of several hundred states
    p.iterations = 130 + (int)draw(120); p.p_empty = (int)draw(10); p.branch = 4; p.p_hit = chance(1, 2) ? 0 : 1; p.p_block = (int)draw(10); p.p_bad = 0;
    p.kin = p.kin && p.connect; p.throws = p.slow = p.single = false; p.faults = kSched; p.nested = false; p.init[0] = chance(1, 2) ? 280 : 1; p.dop = std::min(p.dop, 2);
    probe("large tree");
  }
  // fault counts are per run, so only one caller may be hit by faults
  call(p.faults & (kRes | bit(F_THROW)) ? PLAIN : draw_kind(), 2, [&](int c) { one_plan(p, c); });
}

// ---- D02 ------------------------------------------------------------------------------
struct TimeLog { int64_t first_lo = 0, first_hi = 0, last_lo = 0; bool started = false, stopped = false; uint64_t checks = 0; };
int64_t slow_ns(uint64_t v) { static const int64_t u[] = {0, 40, 1000, 1953125, 250000000, 3600000000000}; return u[v % 6] * (int64_t)(1 + v / 6 % 5); }
// the answer a started timeout must give when the clock reads between lo and hi
void judge(bool answer, double timeout, int64_t lo, int64_t hi, const char* what)
{
  const double ns = timeout * 1e9;
  if (answer && !((double)hi > ns)) fail("stopped-early", "%s: stopped after at most %lld ns with a timeout of %.17g s", what, (long long)hi, timeout);
  if (!answer && (double)lo > ns) fail("missed-timeout", "%s: not stopped after %lld ns with a timeout of %.17g s", what, (long long)lo, timeout);
}
template <typename F>
bool timed(TimeLog& l, double timeout, const char* what, bool exact, const F& f)
{
  if (l.stopped) fail("ran-on", "%s: checked again after it said stop", what);
  bool r; int64_t lo, hi;
  if (exact)
  {
    Quiet q;
    // land exactly on, just before or just after the deadline
    if (l.started && timeout < 1e6)
    {
      const int64_t at = l.first_lo + (int64_t)(timeout * 1e9) + range(-1, 1);
      if (l.first_lo == l.first_hi && at > mono_ns()) { advance_ns(at - mono_ns()); probe("check at the deadline"); }
    }
    lo = mono_ns(); r = f(); hi = mono_ns();
  }
  else
  {
    const uint64_t n = mono_reads(); lo = mono_ns(); r = f(); hi = mono_ns();
    if (mono_reads() == n + 1) lo = hi = last_mono_read();
  }
  l.checks++;
  if (!l.started) { l.started = true; l.first_lo = lo; l.first_hi = hi; if (r) fail("stopped-early", "%s: stopped at its first check", what); }
  else judge(r, timeout, lo - l.first_hi, hi - l.first_lo, what);
  l.last_lo = lo; l.stopped = r;
  event("check", (int64_t)r, lo - l.first_lo);
  return r;
}
double draw_timeout()
{
  switch (draw(5)) { case 0: return 1.0 / 512; case 1: return 1e-7; case 2: return (double)(1 + draw(2000)) / 512; case 3: return 7200; default: return 0.25 * (double)(1 + draw(16)); }
}
void check_time(const std::map<std::string, double>& stats, const char* key, const TimeLog& l, int64_t before, int64_t after, const char* what)
{
  auto it = stats.find(key);
  if (it == stats.end()) fail("no-time", "%s reports no %s", what, key);
  const double lo = (double)(l.last_lo - l.first_hi) * 1e-9, hi = (double)(after - before) * 1e-9, v = it->second;
  if (!(v >= lo - 1e-9 - lo * 1e-12) || !(v <= hi + 1e-9 + hi * 1e-12)) fail("wrong-time", "%s reports %s=%.12g s, but between %.12g and %.12g s elapsed", what, key, v, lo, hi);
}
void run_d02()
{
  set_omp_env(random_omp_env());
  const int kind = (int)draw(6);
  const double timeout = draw_timeout();
  const uint32_t faults = kSchedAll;
  const bool exact = chance(1, 3);
  auto pause = [&]() { const int64_t ns = slow_ns(draw(30)); if (ns) advance_ns(ns); yield(); };
  if (kind == 0)
  {
    static const double bad[] = {0.0, -0.0, -1.0, -1e-300, -kInf, std::nan("")};
    const double v = bad[draw(6)]; const int how = (int)draw(3);
    bool threw = false;
    try { if (how == 0) rrt::TimeoutCheckHelper h(v); else if (how == 1) rrt::MakeRRTTimeoutTerminationFunction(v); else rrt::MakeBiRRTTimeoutTerminationFunction(v); }
    catch (const std::exception&) { threw = true; }
    if (!threw) fail("bad-timeout", "a timeout of %g was accepted", v);
    probe("timeout rejected"); op(); return;
  }
  if (kind == 1)
  {
    // the helper on its own
    FaultScope fs(faults);
    rrt::TimeoutCheckHelper h(timeout); TimeLog l; bool done = false;
    for (int i = 0; i < 12; i++)
    {
      pause();
      const uint64_t what = draw(8);
      if (what == 0) { h.Reset(); l = TimeLog(); continue; }
      if (what == 1)
      {
        const uint64_t n = mono_reads(); l = TimeLog(); l.first_lo = mono_ns(); h.Start(); l.first_hi = mono_ns(); l.started = true;
        if (mono_reads() == n + 1) l.first_lo = l.first_hi = last_mono_read();
        continue;
      }
      if (what < 4)
      {
        if (l.started) { l.stopped = false; timed(l, timeout, "timeout helper", exact, [&]() { return h.Check(); }); }
        else { bool threw = false; try { h.Check(); } catch (const std::exception&) { threw = true; } if (!threw) fail("not-started", "a timeout that was never started gave an answer"); }
        continue;
      }
      l.stopped = false;
      timed(l, timeout, "timeout helper", exact, [&]() { return h.CheckOrStart(); });
      done = true;
    }
    if (done) probe("timeout helper"); op(); return;
  }
  TimeLog l; int64_t before, after;
  uint64_t cap = 4000, checks = 0;
  if (kind == 2 || kind == 3)
  {
    Tree t; { Quiet q; t.AddNode(St()); }
    const auto lib = rrt::MakeRRTTimeoutTerminationFunction(timeout);
    const rrt::RRTTerminationCheckFunction copy = lib;
    const rrt::RRTTerminationCheckFunction term = [&](const int64_t n) { if (++checks > cap) { advance_ns((int64_t)3600e9); } return timed(l, timeout, "planning", exact, [&]() { return copy(n); }); };
    const rrt::SamplingFunction<St> sampling = [&]() { if (l.stopped || !l.started) fail("ran-on", "planning sampled a state after the timeout"); pause(); return St(); };
    const rrt::RRTNearestNeighborFunction<St, Tree, St> nn = [&](const Tree&, const St&) { return (int64_t)0; };
    const rrt::RRTForwardPropagationFunction<St, St> prop = [&](const St&, const St& b) { rrt::ForwardPropagation<St> f; if (chance(1, 4)) f.emplace_back(b, -1); pause(); return f; };
    const rrt::RRTCheckGoalReachedFunction<St> check = [&](const St&) { pause(); return false; };
    std::map<std::string, double> stats;
    FaultScope fs(faults);
    before = mono_ns();
    if (kind == 2) stats = rrt::RRTPlanMultiPath<St, Tree, St>(t, sampling, nn, prop, {}, check, {}, term).Statistics();
    else stats = rrt::RRTPlanSinglePath<St, Tree, St>(t, sampling, nn, prop, {}, check, {}, term).Statistics();
    after = mono_ns();
    Quiet q; check_time(stats, "planning_time", l, before, after, "planning");
    probe("planner stopped by its timeout");
  }
  else if (kind == 4)
  {
    Tree a, b; { Quiet q; a.AddNode(St()); b.AddNode(St()); }
    const auto lib = rrt::MakeBiRRTTimeoutTerminationFunction(timeout);
    const bool single = chance(1, 2);
    const rrt::BiRRTTerminationCheckFunction term = [&](const int64_t n, const int64_t m) { if (++checks > cap) { advance_ns((int64_t)3600e9); } return timed(l, timeout, "bidirectional planning", exact, [&]() { return lib(n, m); }); };
    const rrt::SamplingFunction<St> sampling = [&]() { if (l.stopped || !l.started) fail("ran-on", "planning sampled a state after the timeout"); pause(); return St(); };
    const rrt::BiRRTSelectSampleTypeFunction<St, Tree> type = [&](const Tree&, const Tree&, const Act) { pause(); return chance(1, 2) ? Smp::TREE_SAMPLE : Smp::STATE_SAMPLE; };
    const rrt::BiRRTTreeSamplingFunction<St, Tree> ts = [&](const Tree&, const Act) { return (int64_t)0; };
    const rrt::BiRRTNearestNeighborFunction<St, Tree> nn = [&](const Tree&, const St&, const Act) { pause(); return (int64_t)0; };
    const rrt::BiRRTPropagationFunction<St> prop = [&](const St&, const St&, const Act) { return rrt::ForwardPropagation<St>(); };
    const rrt::BiRRTStatesConnectedFunction<St> conn = [&](const St&, const St&, const Act) { pause(); return false; };
    const rrt::BiRRTSelectActiveTreeFunction<St, Tree> sel = [&](const Tree&, const Tree&, const Act act) { return act; };
    std::map<std::string, double> stats;
    FaultScope fs(faults);
    before = mono_ns();
    if (single) stats = rrt::BiRRTPlanSinglePath<St, Tree>(a, b, type, sampling, ts, nn, prop, {}, conn, {}, sel, term).Statistics();
    else stats = rrt::BiRRTPlanMultiPath<St, Tree>(a, b, type, sampling, ts, nn, prop, {}, conn, {}, sel, term).Statistics();
    after = mono_ns();
    Quiet q; check_time(stats, "planning_time", l, before, after, "bidirectional planning");
    probe("planner stopped by its timeout");
  }
  else
  {
    using G = simple_graph::Graph<St>;
    G g; const int dop = draw_dop(3).GetNumThreads();
    const auto lib = rrt::MakeRRTTimeoutTerminationFunction(timeout);
    const std::function<bool(const int64_t)> term = [&](const int64_t n) { if (++checks > cap) { advance_ns((int64_t)3600e9); } return timed(l, timeout, "roadmap growing", exact, [&]() { return lib(n); }); };
    // few states, so that searching neighbours stays cheap
    const std::function<St(const int32_t)> sampling = [&](const int32_t) { if (l.stopped) fail("ran-on", "roadmap growing sampled a state after the timeout"); pause(); return St(); };
    const std::function<double(const St&, const St&)> dist = [](const St&, const St&) { return 1.0; };
    const std::function<bool(const int32_t, const St&, const St&)> eok = [](const int32_t, const St&, const St&) { return true; };
    const prm::LinearGraphKNNProvider<St, G> knn(dist, DegreeOfParallelism(1));
    std::map<std::string, double> stats;
    int64_t tries = 0;
    const std::function<bool(const int32_t, const St&)> some = [&](const int32_t, const St&) { pause(); return ++tries % 3 == 0; };
    FaultScope fs(faults);
    before = mono_ns();
    stats = prm::GrowRoadMap<St, G>(g, sampling, knn, dist, some, eok, term, 1, DegreeOfParallelism(dop), true, true);
    after = mono_ns();
    Quiet q; check_time(stats, "growing_time", l, before, after, "roadmap growing");
    probe("roadmap growing stopped by its timeout");
  }
  op();
}

// ---- D03 ------------------------------------------------------------------------------
struct C { int64_t id = -1; double x = 0, y = 0; bool operator==(const C& o) const { return id == o.id && x == o.x && y == o.y; } };
void nested_path();
struct Span { int64_t a, b; double f; };
struct Smooth
{
  uint64_t seed; int p_block; bool slow, throws, flaky;
  std::set<std::pair<int64_t, int64_t>> accepted; std::map<int64_t, Span> made; int64_t next_id = 0; uint64_t n = 0;
  bool clip = false; double cx = 0, cy = 0, cr = 0, cl = 0;   // short motions at a spot are invalid (longer ones step over it)
  uint64_t draws = 0, edges = 0, edges_ok = 0, edges_at = 0, ok_at = 0, failed = 0, worst = 0;
  bool nested = false;
  void pause() { if (slow) yield(); if (throws && fault(F_THROW)) throw_injected(1); if (nested && chance(1, 30)) nested_path(); }
  static double dist(const C& a, const C& b) { return std::hypot(a.x - b.x, a.y - b.y); }
  bool edge(const C& a, const C& b)
  {
    pause(); Quiet q;
    const uint64_t k = flaky ? h2(seed, ++n) : h2(h2(seed, (uint64_t)a.id), (uint64_t)b.id);
    bool ok = (int)(k % 100) >= p_block;
    if (clip && dist(a, b) < cl && std::min(std::hypot(a.x - cx, a.y - cy), std::hypot(b.x - cx, b.y - cy)) <= cr) { ok = false; probe("short motion at a spot rejected"); }
    edges++; edges_ok += ok;
    event(ok ? "free" : "blocked", a.id, b.id);
    if (flaky) injected(F_WORLD);
    if (ok) accepted.insert({a.id, b.id});
    return ok;
  }
  C between(const C& a, const C& b, double f)
  {
    pause(); Quiet q;
    if (!(f >= 0 && f <= 1)) fail("bad-ratio", "interpolation asked for ratio %g", f);
    if (f == 1.0) return b;
    C c; c.id = next_id++; c.x = a.x + (b.x - a.x) * f; c.y = a.y + (b.y - a.y) * f;
    made[c.id] = {a.id, b.id, f};
    return c;
  }
};
std::vector<C> draw_path(Smooth& w, size_t n)
{
  std::vector<C> p;
  for (size_t i = 0; i < n; i++)
  {
    C c; c.id = w.next_id++; c.x = (double)draw(40) / 4; c.y = (double)draw(40) / 4;
    if (i && chance(1, 8)) { c.x = p.back().x; c.y = p.back().y; }
    p.push_back(c);
  }
  return p;
}
void nested_path()
{
  const std::function<bool(const C&, const C&)> edge = [](const C&, const C&) { return true; };
  const std::function<double(const C&, const C&)> dist = [](const C& a, const C& b) { return std::hypot(a.x - b.x, a.y - b.y); };
  const std::function<C(const C&, const C&, const double)> interp = [](const C& a, const C& b, const double f) { C c; c.x = a.x + (b.x - a.x) * f; c.y = a.y + (b.y - a.y) * f; return c; };
  std::vector<C> path(3); path[1].x = 4; path[2].x = 4; path[2].y = 4;
  const auto r = pp::ResamplePath<C>(path, 2.0, dist, interp);
  uint64_t k = 0;
  const utility::UniformUnitRealFunction unit = [&k]() { return (double)(++k * 37 % 100) / 100.0; };
  const auto s = pp::ShortcutSmoothPath<C>(path, 60, 60, 60, 1.0, 0.0, false, edge, dist, interp, unit);
  if (r.size() != 5 || r[1].x != 2 || r[3].y != 2 || s.size() != 2 || dist(s.front(), path[0]) != 0 || dist(s.back(), path[2]) != 0)
    fail("nested-call", "a path of two segments resampled inside a callback has %zu states, and smoothed %zu", r.size(), s.size());
}
void run_d03()
{
  Smooth w{draw(1u << 20), (int)draw(90), chance(1, 5), chance(1, 6), chance(1, 4), {}, {}, 0};
  const std::function<bool(const C&, const C&)> edge = [&](const C& a, const C& b) { return w.edge(a, b); };
  const std::function<double(const C&, const C&)> dist = [&](const C& a, const C& b) { w.pause(); return Smooth::dist(a, b); };
  const std::function<C(const C&, const C&, const double)> interp = [&](const C& a, const C& b, const double f) { return w.between(a, b, f); };
  const size_t n = chance(1, 8) ? draw(3) : chance(1, 60) ? 60 + draw(300) : 3 + draw(20);
  const std::vector<C> path = draw_path(w, n), original = path;
  if (n && chance(1, 3))
  {
    w.p_block = chance(1, 2) ? 0 : (int)draw(4); w.flaky = false; w.clip = true;
    const C& c = path[draw(n)]; w.cx = c.x; w.cy = c.y;
    w.cr = chance(1, 2) ? 0.0 : 0.02 * (double)draw(30); w.cl = 0.05 * (double)(1 + draw(30));
  }
  const uint32_t faults = kSched | (w.throws ? bit(F_THROW) : 0) | (chance(1, 6) ? bit(F_ALLOC) : 0);
  w.nested = faults == kSched && n < 40 && chance(1, 4);
  if (w.nested) probe("callbacks use the library");
  std::vector<C> out; std::string msg;
  const EndCheck ec; End end;
  const int kind = (int)draw(4);
  if (kind == 3 && chance(1, 6))
  {
    double got = -1;
    w.flaky = false;
    { FaultScope fs(faults); end = attempt([&]() { got = pp::ComputePercentCollisionFree<C>(path, edge); }, &msg); }
    Quiet q; op(); ec.check(end, "the collision-free fraction", msg);
    if (end != RETURNED) return;
    size_t free = 0; for (size_t i = 1; i < n && w.accepted.count({path[i - 1].id, path[i].id}); i++) free++;
    const double want = n >= 2 ? (double)free / (double)(n - 1) : n == 0 ? 1.0 : w.edges_ok ? 1.0 : 0.0;
    if (got != want) fail("fraction", "collision-free fraction %g, expected %g", got, want);
    probe("collision-free fraction"); return;
  }
  if (kind == 3)
  {
    // resampling
    const double gap = chance(1, 10) ? -(double)draw(2) : 0.05 * (double)(1 + draw(60));
    { FaultScope fs(faults); end = attempt([&]() { auto r = pp::ResamplePath<C>(path, gap, dist, interp); Quiet q; out = r; }, &msg); }
    Quiet q; op();
    if (!(path == original)) fail("input-changed", "resampling changed its input");
    if (gap <= 0 && n > 1) { if (end == RETURNED) fail("bad-spacing", "resampling accepted spacing %g", gap); if (end != STDEXC) ec.check(end, "resampling", msg); probe("spacing rejected"); return; }
    ec.check(end, "resampling", msg);
    if (end != RETURNED) return;
    if (n == 0) { if (!out.empty()) fail("resample", "resampling made states from nothing"); return; }
    if (out.empty() || !(out.front() == path.front())) fail("resample-start", "the resampled path starts elsewhere");
    if (Smooth::dist(out.back(), path.back()) != 0) fail("resample-end", "the resampled path ends elsewhere");
    size_t at = 0;    // original state last met
    double last_f = 0;
    for (size_t i = 1; i < out.size(); i++)
    {
      if (Smooth::dist(out[i - 1], out[i]) > gap * (1 + 1e-9) + 1e-12) fail("resample-gap", "resampled states %g apart, asked for %g", Smooth::dist(out[i - 1], out[i]), gap);
      auto it = w.made.find(out[i].id);
      if (it == w.made.end())
      {
        // an original state: the next one, where states at the same place may be merged
        size_t k = at + 1;
        while (k < n && !(path[k] == out[i]) && Smooth::dist(path[k - 1], path[k]) == 0) k++;
        if (k >= n || !(path[k] == out[i])) fail("resample-order", "the resampled path does not keep the original states in order");
        at = k; last_f = 0;
      }
      else
      {
        const Span& s = it->second;
        size_t k = at;
        while (k + 1 < n && (path[k].id != s.a || path[k + 1].id != s.b) && Smooth::dist(path[k], path[k + 1]) == 0) k++;
        if (k + 1 >= n || path[k].id != s.a || path[k + 1].id != s.b) fail("resample-order", "an added state does not lie between the surrounding original states");
        if (!(s.f > last_f)) fail("resample-order", "added states are not in order");
        if (k != at) { at = k; last_f = 0; }
        last_f = s.f;
      }
    }
    while (at + 1 < n && Smooth::dist(path[at], path[at + 1]) == 0) at++;
    if (at + 1 != n) fail("resample-order", "the resampled path leaves out original states");
    probe("resampled"); state(h2(out.size(), n));
    return;
  }
  if (chance(1, 12))
  {
    // nothing is in the way and the draws keep varying: the path comes down to its two ends
    Quiet q; w.p_block = 0; w.flaky = w.clip = w.throws = false;
    const std::vector<C> p = draw_path(w, 3 + draw(10));
    const double fraction = chance(1, 2) ? 1.0 : 0.5; const uint64_t useed = draw(1u << 20); uint64_t k = 0;
    const utility::UniformUnitRealFunction unit = [&]() { return h01(mix(h2(useed, ++k), 5)); };
    std::vector<C> r = pp::ShortcutSmoothPath<C>(p, 1200, 1 + (uint32_t)draw(4), (uint32_t)draw(3), fraction, 0.0, chance(1, 2), edge, dist, interp, unit);
    op(); probe("free path smoothed");
    if (r.size() != 2 || !(r[0] == p.front()) || !(r[1] == p.back())) fail("no-progress", "1200 attempts on a path of %zu states without obstacles left %zu states", p.size(), r.size());
    return;
  }
  const uint32_t iters = (uint32_t)draw(chance(1, 40) ? 300 : 40), fails = chance(1, 4) ? (uint32_t)draw(3) : 1 + (uint32_t)draw(15), back = chance(1, 2) ? 0 : (uint32_t)draw(4);
  const double fraction = chance(1, 6) ? 2.0 * (double)draw(2) : 0.1 * (double)(1 + draw(10)), interval = chance(1, w.clip ? 5 : 2) ? 0.0 : chance(1, 40) ? 0.002 : (chance(1, 3) ? 0.02 : 0.2) * (double)(1 + draw(20));
  const bool fine = chance(1, 2);
  const uint64_t useed = draw(1u << 20); const uint64_t edgy = draw(4);
  bool over = false;
  auto close_attempt = [&]()
  {
    // edge checks since the last pair of draws belong to one attempt
    const uint64_t e = w.edges - w.edges_at, ok = w.edges_ok - w.ok_at;
    if (e > 0 && ok == 0) w.failed++;
    w.worst = std::max(w.worst, e);
    w.edges_at = w.edges; w.ok_at = w.edges_ok;
  };
  const utility::UniformUnitRealFunction unit = [&]()
  {
    w.pause(); Quiet q;
    if (w.draws % 2 == 0) { close_attempt(); if (w.failed >= fails) over = true; }
    w.draws++;
    const uint64_t k = h2(useed, w.draws);
    event("random", (int64_t)(k >> 40));
    if (edgy == 0 && k % 6 < 2) injected(F_WORLD);
    if (edgy == 0 && k % 6 == 0) return 0.0;
    if (edgy == 0 && k % 6 == 1) return 1.0 - 0x1p-53;
    return h01(mix(k, 3));
  };
  { FaultScope fs(faults); end = attempt([&]() { auto r = pp::ShortcutSmoothPath<C>(path, iters, fails, back, fraction, interval, fine, edge, dist, interp, unit); Quiet q; out = r; }, &msg); }
  Quiet q; op();
  if (!(path == original)) fail("input-changed", "smoothing changed its input");
  if (w.draws > 2ull * iters) fail("too-many-attempts", "%llu random draws for at most %u attempts", (unsigned long long)w.draws, iters);
  if (over) fail("too-many-failures", "smoothing went on after %u failed attempts", fails);
  close_attempt();
  if (interval == 0.0 && w.worst > (2ull << back) - 1) fail("too-many-attempts", "one attempt made %llu edge checks with %u backtracking steps", (unsigned long long)w.worst, back);
  if (n <= 2 && w.draws) fail("too-many-attempts", "smoothing tried to shorten a path of %zu states", n);
  ec.check(end, "smoothing", msg);
  if (end != RETURNED) return;
  if (n == 0) { if (!out.empty()) fail("endpoints", "smoothing made states from nothing"); return; }
  if (out.empty() || !(out.front() == path.front()) || !(out.back() == path.back())) fail("endpoints", "smoothing changed the first or last state");
  if (interval == 0.0 && out.size() > n) fail("grew", "smoothing without resampling made the path longer");
  std::set<std::pair<int64_t, int64_t>> orig;
  for (size_t i = 1; i < n; i++) orig.insert({path[i - 1].id, path[i].id});
  bool shortcut = false, resampled = false;
  for (size_t i = 1; i < out.size(); i++)
  {
    const C& a = out[i - 1]; const C& b = out[i];
    if (orig.count({a.id, b.id})) continue;
    shortcut = true;
    if (w.accepted.count({a.id, b.id})) continue;
    bool on = false;
    if (!fine && interval > 0)
    {
      auto ma = w.made.find(a.id), mb = w.made.find(b.id);
      auto inside = [&](int64_t s, int64_t e, double fa, double fb) { return w.accepted.count({s, e}) && fa < fb; };
      if (ma != w.made.end()) on = on || inside(ma->second.a, ma->second.b, ma->second.f, b.id == ma->second.b ? 1.0 : mb != w.made.end() && mb->second.a == ma->second.a && mb->second.b == ma->second.b ? mb->second.f : -1.0);
      if (mb != w.made.end() && mb->second.a == a.id) on = on || inside(a.id, mb->second.b, 0.0, mb->second.f);
      resampled = true;
    }
    if (!on) fail("unverified-motion", "the smoothed path contains a motion that was neither original nor accepted (%zu of %zu)", i, out.size());
  }
  if (shortcut) probe("shortcut taken");
  if (resampled) probe("resampled shortcut");
  state(h2(out.size(), h2(n, w.draws)));
}
}  // namespace

namespace sim
{
const Property kProperties[] = {
  {"D01", run_d01, 40000000, kSchedAll | kRes | bit(F_THROW), true},
  {"D02", run_d02, 12000000, kSchedAll, true},
  {"D03", run_d03, 40000000, kSchedAll | kRes | bit(F_THROW), true},
};
const size_t kNumProperties = sizeof kProperties / sizeof kProperties[0];
}
