// C01 roadmaps, C02 graph bookkeeping, C03 simultaneous queries.
#include "ctx.hpp"
#include <common_robotics_utilities/simple_prm_planner.hpp>
#include <cmath>
#include <limits>
#include <map>
#include <memory>

using namespace sim;
using namespace common_robotics_utilities;
using namespace ctx;
namespace sg = simple_graph;
namespace prm = simple_prm_planner;
namespace gs = simple_graph_search;

namespace
{
const double kInf = std::numeric_limits<double>::infinity();
uint64_t h2(uint64_t a, uint64_t b) { return mix(mix(0x9e37, a), b); }

// ---- the world roadmaps are built in ---------------------------------------------------
struct S
{
  int32_t x = -1, y = -1;
  uint64_t key() const { return ((uint64_t)(uint32_t)x << 32) | (uint32_t)y; }
  bool operator==(const S& o) const { return x == o.x && y == o.y; }
};
struct World
{
  uint64_t seed = 0;
  bool symmetric = true;
  int bad_states = 0, bad_edges = 0;    // percentages
  double factor = 1.0;                  // distances are this times the base distance
  uint64_t epoch = 0;                   // changes which edges are valid
  bool slow = false, throws = false, nested = false;
  int grid = 6;
  double px(const S& a) const { return a.x + (double)(h2(seed, a.key()) % 1000003) / 1000003.0; }
  double py(const S& a) const { return a.y + (double)(h2(seed + 1, a.key()) % 1000003) / 1000003.0; }
  double up(const S& a) const { return symmetric ? 0.0 : (double)(h2(seed + 2, a.key()) % 997) / 300.0; }
  double dist(const S& a, const S& b) const
  {
    return factor * (std::hypot(px(a) - px(b), py(a) - py(b)) + std::max(0.0, up(b) - up(a)));
  }
  bool state_ok(const S& a) const { return (int)(h2(seed + 3, a.key()) % 100) >= bad_states; }
  bool edge_ok(const S& a, const S& b) const
  {
    uint64_t k = symmetric ? h2(std::min(a.key(), b.key()), std::max(a.key(), b.key())) : h2(a.key(), b.key());
    return (int)(h2(k, seed + epoch * 77) % 100) >= bad_edges;
  }
  S at(uint64_t k) const { S s; s.x = (int32_t)(k % (uint64_t)grid); s.y = (int32_t)(k / (uint64_t)grid % (uint64_t)grid); return s; }
  uint64_t cells() const { return grid > 8 ? (uint64_t)grid * (uint64_t)grid : 64; }
  S sample(uint64_t n) const { return at(h2(seed + 9, n)); }
};
World draw_world()
{
  World w;
  w.seed = draw(1u << 20);
  w.symmetric = chance(1, 2);
  w.bad_states = chance(1, 2) ? 0 : (int)draw(60);
  w.bad_edges = chance(1, 3) ? 0 : (int)draw(70);
  w.slow = chance(1, 6); w.throws = chance(1, 5);
  w.grid = chance(1, 4) ? 3 : 7;
  return w;
}
struct Slot { int64_t uses = 0; int busy = 0; uint64_t samples = 0; };
// Callbacks may use the library themselves: what they compute is right and the
// surrounding computation is left alone.
void nested_roadmap();
// Callbacks over a world with per-worker storage that is not synchronised.
struct Hooks
{
  const World* w; int dop; std::vector<Slot> slots;
  uint64_t rejected = 0;                 // counted where sampling is serial
  bool count_rejected = false;
  std::function<S(const int32_t)> sampling;
  std::function<double(const S&, const S&)> distance;
  std::function<bool(const int32_t, const S&)> state_check;
  std::function<bool(const int32_t, const S&, const S&)> edge_check;
  Slot& slot(int32_t t)
  {
    if (t < 0 || t >= dop) fail("worker-number", "callback given worker number %d with parallelism %d", t, dop);
    return slots[(size_t)t];
  }
  struct Use
  {
    Slot& s;
    explicit Use(Slot& q) : s(q) { if (s.busy != 0) fail("worker-number-shared", "a callback runs with a worker number in use"); s.busy = 1; s.uses++; }
    ~Use() { s.busy = 0; }
  };
  void pause() const { if (w->slow) yield(); if (w->throws && fault(F_THROW)) throw_injected(1); if (w->nested && chance(1, 30)) nested_roadmap(); }
  Hooks(const World& world, int n) : w(&world), dop(n), slots((size_t)n)
  {
    sampling = [this](const int32_t t) { Slot& s = slot(t); Use u(s); pause(); return w->sample((s.samples++) * 64 + (uint64_t)t); };
    distance = [this](const S& a, const S& b) { pause(); return w->dist(a, b); };
    state_check = [this](const int32_t t, const S& a) { Use u(slot(t)); pause(); return w->state_ok(a); };
    edge_check = [this](const int32_t t, const S& a, const S& b) { Use u(slot(t)); pause(); return w->edge_ok(a, b); };
  }
};

// ---- reading graphs back ----------------------------------------------------------------
using Edges = std::map<std::pair<int64_t, int64_t>, double>;
struct Model { std::vector<S> v; Edges e; };
// Every edge must be recorded at both ends with one weight.
template <typename G>
void two_sided(const G& g, const char* when, const char* what)
{
  std::map<std::pair<int64_t, int64_t>, std::vector<std::pair<double, uint64_t>>> out, in;
  const int64_t n = g.Size();
  for (int64_t i = 0; i < n; i++)
  {
    for (auto& e : g.GetNodeImmutable(i).GetOutEdgesImmutable())
    {
      if (e.GetFromIndex() != i || e.GetToIndex() < 0 || e.GetToIndex() >= n || e.GetToIndex() == i)
        fail("bad-edge", "%s, %s: node %lld of %lld has out edge %lld->%lld", what, when, (long long)i, (long long)n, (long long)e.GetFromIndex(), (long long)e.GetToIndex());
      out[{i, e.GetToIndex()}].emplace_back(e.GetWeight(), e.GetScratchpad());
    }
    for (auto& e : g.GetNodeImmutable(i).GetInEdgesImmutable())
    {
      if (e.GetToIndex() != i || e.GetFromIndex() < 0 || e.GetFromIndex() >= n || e.GetFromIndex() == i)
        fail("bad-edge", "%s, %s: node %lld of %lld has in edge %lld->%lld", what, when, (long long)i, (long long)n, (long long)e.GetFromIndex(), (long long)e.GetToIndex());
      in[{e.GetFromIndex(), i}].emplace_back(e.GetWeight(), e.GetScratchpad());
    }
  }
  for (auto* m : {&out, &in}) for (auto& p : *m) std::sort(p.second.begin(), p.second.end());
  for (int side = 0; side < 2; side++)
    for (auto& p : side ? in : out)
    {
      auto& other = side ? out : in;
      auto it = other.find(p.first);
      if (it == other.end() || it->second != p.second)
        fail("one-sided-edge", "%s, %s: edge %lld->%lld is recorded %zu times (first weight %g) at its %s node and %zu times (first weight %g) at its %s node", what, when,
             (long long)p.first.first, (long long)p.first.second, p.second.size(), p.second[0].first, side ? "to" : "from",
             it == other.end() ? (size_t)0 : it->second.size(), it == other.end() ? 0.0 : it->second[0].first, side ? "from" : "to");
    }
  if (!g.CheckGraphLinkage()) fail("linkage-check", "%s, %s: CheckGraphLinkage() rejects a properly linked graph", what, when);
}
template <typename G>
Model read(const G& g)
{
  Model m;
  for (int64_t i = 0; i < g.Size(); i++)
  {
    m.v.push_back(g.GetNodeImmutable(i).GetValueImmutable());
    for (auto& e : g.GetNodeImmutable(i).GetOutEdgesImmutable()) m.e[{i, e.GetToIndex()}] = e.GetWeight();
  }
  return m;
}
// Which of `count` candidates are surely (must) or possibly (may) among the K nearest.
struct Choice { std::vector<char> must, may; bool ties = false; };
template <typename D>
Choice choose(size_t count, int64_t K, const D& d)
{
  Choice c; c.must.assign(count, 0); c.may.assign(count, 0);
  if ((int64_t)count <= K) { c.must.assign(count, 1); c.may.assign(count, 1); return c; }
  if (K <= 0) return c;
  std::vector<double> v(count);
  for (size_t i = 0; i < count; i++) v[i] = d(i);
  std::vector<double> s = v; std::sort(s.begin(), s.end());
  const double kth = s[(size_t)K - 1]; const bool tie = s[(size_t)K] == kth;
  for (size_t i = 0; i < count; i++) { c.must[i] = v[i] < kth || (!tie && v[i] == kth); c.may[i] = v[i] <= kth; }
  c.ties = tie;
  return c;
}
void check_edge(const World& w, const Model& m, size_t a, size_t b, bool must, bool may, const char* what)
{
  const auto it = m.e.find({(int64_t)a, (int64_t)b});
  const bool valid = w.edge_ok(m.v[a], m.v[b]);
  const double d = w.dist(m.v[a], m.v[b]);
  if (it == m.e.end())
  {
    if (valid && must) fail("edge-missing", "%s: no edge %zu->%zu although it is valid and joins nearest neighbours (distance %g)", what, a, b, d);
    return;
  }
  if (!valid) fail("invalid-edge", "%s: edge %zu->%zu was not accepted by the edge check", what, a, b);
  if (!may) fail("edge-not-nearest", "%s: edge %zu->%zu does not join nearest neighbours (distance %g)", what, a, b, d);
  if (it->second != d) fail("wrong-weight", "%s: edge %zu->%zu has weight %.17g, distance is %.17g", what, a, b, it->second, d);
}

// ---- C01 ------------------------------------------------------------------------------
using G = sg::Graph<S>;
using OV = sg::NonOwningGraphOverlay<S, G>;
using Knn = prm::GraphKNNProvider<S, G>;
void nested_roadmap()
{
  const auto at = [](int x) { S s; s.x = x; s.y = 0; return s; };
  const std::function<double(const S&, const S&)> dist = [](const S& a, const S& b) { return std::abs(a.x - b.x) * 0.125; };
  const std::function<bool(const int32_t, const S&, const S&)> ok = [](const int32_t, const S& a, const S& b) { return std::abs(a.x - b.x) < 15; };
  const prm::LinearGraphKNNProvider<S, G> linear(dist, DegreeOfParallelism(1)); const Knn& knn = linear;
  const DegreeOfParallelism one(1);
  G g;
  for (int x : {0, 10, 30, 20, -2}) prm::AddNodeToRoadmap<S, G, Knn>(at(x), prm::NNDistanceDirection::ROADMAP_TO_NEW_STATE, g, knn, dist, ok, 2, g.Size(), one, true, false);
  // the search leaves the node at -2 unexpanded
  const auto r = chance(1, 2) ? prm::LazyQueryPath<S, std::vector<S>, G, Knn>({at(1)}, {at(29)}, g, knn, dist, ok, 1, one, true, false, true, true)
                              : prm::QueryPath<S, std::vector<S>, G, Knn>({at(1)}, {at(29)}, g, knn, dist, ok, 1, one, true, false, true, true);
  const auto d = gs::PerformDijkstrasAlgorithm(g, 0);
  const auto p = gs::PerformAstarSearch<S, G>(g, std::vector<int64_t>{0}, std::vector<int64_t>{2}, dist, true);
  if (g.Size() != 5 || !(r.PathCost() == 4) || r.Path().size() != 6 || d.GetNodeDistance(2) != 3.75 || p.Path() != std::vector<int64_t>{0, 1, 3, 2})
    fail("nested-call", "a roadmap made inside a callback has %lld nodes, a path of cost %g through %zu states and node 2 at %g", (long long)g.Size(), r.PathCost(), r.Path().size(), d.GetNodeDistance(2));
}
using IAD = simple_knearest_neighbors::IndexAndDistance;
// A caller's own neighbour search: right, in an order of its own, or now and
// then naming a node it must not name.
struct CustomKnn final : Knn
{
  const World* w; bool reverse; int64_t bogus_at; uint64_t how; mutable int64_t calls = 0; mutable bool gave = false;
  CustomKnn(const World& world, bool rev, int64_t at, uint64_t h) : w(&world), reverse(rev), bogus_at(at), how(h) {}
  template <typename Gr> std::vector<IAD> find(const Gr& g, const S& q, int64_t K, prm::NNDistanceDirection dir, int64_t max) const
  {
    std::vector<IAD> r;
    if (w->slow) yield();
    Quiet quiet;
    for (int64_t i = 0; i < std::min(max, g.Size()); i++)
    {
      const S& v = g.GetNodeImmutable(i).GetValueImmutable();
      r.emplace_back(i, dir == prm::NNDistanceDirection::ROADMAP_TO_NEW_STATE ? w->dist(v, q) : w->dist(q, v));
    }
    std::sort(r.begin(), r.end(), [&](const IAD& a, const IAD& b) { return a.Distance() != b.Distance() ? a.Distance() < b.Distance() : reverse ? a.Index() > b.Index() : a.Index() < b.Index(); });
    if ((int64_t)r.size() > K) r.resize((size_t)std::max<int64_t>(0, K));
    if (reverse) std::reverse(r.begin(), r.end());
    if (calls++ == bogus_at)
    {
      const int64_t size = std::min(max, g.Size());
      static const int64_t odd[] = {-1, -2, INT64_MIN, INT64_MAX};
      const int64_t at = how % 8 < 4 ? odd[how % 4] : how % 8 == 4 ? size : how % 8 == 5 ? size + 1 : how % 8 == 6 ? g.Size() : size + (int64_t)(how >> 8) % 9;
      const IAD bad(at, how & 16 ? 0.0 : 1.0);
      if (r.empty() || (how & 32)) r.insert(r.begin() + (long)((how >> 6) % (r.size() + 1)), bad); else r[(how >> 6) % r.size()] = bad;
      gave = true; injected(F_WORLD);
    }
    return r;
  }
  std::vector<IAD> DoGetKNearestNeighbors(const G& g, const S& q, const int64_t K, const prm::NNDistanceDirection d, const int64_t max) const override { return find(g, q, K, d, max); }
  std::vector<IAD> DoGetKNearestNeighbors(const OV& g, const S& q, const int64_t K, const prm::NNDistanceDirection d, const int64_t max) const override { return find(g, q, K, d, max); }
};
struct AddReq { S state; bool to_roadmap, custom, reverse, direct; int64_t K, bogus; uint64_t how; int64_t max; };
struct Plan
{
  bool custom = false, reverse = false; int64_t bogus = -1; uint64_t how = 0; std::vector<AddReq> adds;
  World w; int64_t size, K; int dop, knn_dop; bool dups, par_sampling; int tries; uint32_t faults;
  int grow; bool overlay; int update; int update_dop; World w2; int copies;
};
void check_built(const Plan& p, const G& g)
{
  const Model m = read(g);
  if ((int64_t)m.v.size() != p.size) fail("wrong-size", "built a roadmap of %zu states instead of %lld", m.v.size(), (long long)p.size);
  const size_t n = m.v.size();
  std::vector<Choice> c;
  for (size_t i = 0; i < n; i++)
  {
    if (!p.w.state_ok(m.v[i])) fail("invalid-state", "roadmap state %zu was not accepted by the validity check", i);
    if (!p.dups) for (size_t j = 0; j < i; j++) if (m.v[i] == m.v[j]) fail("duplicate-state", "roadmap states %zu and %zu are equal", j, i);
    c.push_back(choose(n, p.K + 1, [&](size_t j) { return p.w.dist(m.v[j], m.v[i]); }));
  }
  for (size_t a = 0; a < n; a++) for (size_t b = 0; b < n; b++)
    if (a != b) check_edge(p.w, m, a, b, c[a].must[b] || c[b].must[a], c[a].may[b] || c[b].may[a], "building");
}
// states added one at a time, in either direction and below some index only
template <typename Graph>
void add_some(const Plan& p, Graph& g)
{
  for (const AddReq& a : p.adds)
  {
    Model before; { Quiet q; before = read(g); }
    const int64_t n = (int64_t)before.v.size(), max = a.max < -1 || a.max > 1 ? (a.max < 0 ? a.max + 1 : n + a.max - 1) : (a.how >> 20) % 3 ? n : (int64_t)((a.how >> 22) % (uint64_t)(n + 1));
    const auto dir = a.to_roadmap ? prm::NNDistanceDirection::NEW_STATE_TO_ROADMAP : prm::NNDistanceDirection::ROADMAP_TO_NEW_STATE;
    Hooks h(p.w, p.dop);
    const prm::LinearGraphKNNProvider<S, G> lin(h.distance, DegreeOfParallelism(p.knn_dop));
    const CustomKnn own(p.w, a.reverse, a.bogus, a.how);
    const Knn& knn = a.custom ? static_cast<const Knn&>(own) : lin;
    const bool impossible = !a.custom && (max < 0 || max > n || a.K < 0);
    int64_t at = -1; std::vector<IAD> near; EndCheck ec; End end; std::string msg;
    {
      FaultScope fs(p.faults);
      end = attempt([&]() {
        if (a.direct) near = knn.GetKNearestNeighbors(g, a.state, a.K, dir, max);
        else at = prm::AddNodeToRoadmap<S, Graph>(a.state, dir, g, knn, h.distance, h.edge_check, a.K, max, DegreeOfParallelism(p.dop), p.w.symmetric, p.dups);
      }, &msg);
    }
    Quiet q;
    op();
    const Model after = read(g);
    if (impossible || own.gave)
    {
      if (end == RETURNED) fail(own.gave ? "bad-neighbour-accepted" : "bad-request-accepted", "a neighbour search %s", own.gave ? "naming a node out of range was believed" : "below an impossible index was made");
      if (end == STDEXC) probe(own.gave ? "bad neighbours refused" : "impossible neighbour search refused");
      if (after.v.size() != before.v.size() || after.e != before.e) fail("changed-by-refusal", "a refused addition changed the roadmap");
      two_sided(g, "after a refused addition", "roadmap");
      continue;
    }
    two_sided(g, "after adding a state", "roadmap");
    ec.check(end, "adding a state to a roadmap", msg);
    if (end != RETURNED) return;
    const auto d = [&](size_t j) { return a.to_roadmap ? p.w.dist(a.state, before.v[j]) : p.w.dist(before.v[j], a.state); };
    const size_t lim = (size_t)std::max<int64_t>(0, std::min(max, n));
    const Choice c = choose(lim, a.K, d);
    if (a.direct)
    {
      std::vector<char> seen(lim, 0);
      if ((int64_t)near.size() != std::max<int64_t>(0, std::min(a.K, (int64_t)lim))) fail("wrong-neighbours", "%zu neighbours of %lld among %zu states", near.size(), (long long)a.K, lim);
      for (auto& x : near)
      {
        if (x.Index() < 0 || x.Index() >= (int64_t)lim || seen[(size_t)x.Index()]++ || !c.may[(size_t)x.Index()]) fail("wrong-neighbours", "state %lld is no nearest neighbour", (long long)x.Index());
        if (x.Distance() != d((size_t)x.Index())) fail("wrong-neighbours", "neighbour %lld is at %g instead of %g", (long long)x.Index(), x.Distance(), d((size_t)x.Index()));
      }
      if (after.v.size() != before.v.size() || after.e != before.e) fail("changed-by-search", "a neighbour search changed the roadmap");
      probe("neighbours of a roadmap");
      continue;
    }
    bool have = false; for (size_t j = 0; j < lim; j++) have = have || before.v[j] == a.state;
    if (have && !p.dups && a.K > 0)
    {
      if (at < 0 || at >= (int64_t)lim || !(before.v[(size_t)at] == a.state) || after.v.size() != before.v.size() || after.e != before.e) fail("duplicate-added", "adding a state there already gave node %lld", (long long)at);
      probe("duplicate state not added"); continue;
    }
    if (at != n || (int64_t)after.v.size() != n + 1 || !(after.v[(size_t)n] == a.state)) fail("wrong-state", "the state added is node %lld of %zu, expected node %lld", (long long)at, after.v.size(), (long long)n);
    for (size_t j = 0; j < (size_t)n; j++)
    {
      if (!(after.v[j] == before.v[j])) fail("changed-state", "adding changed state %zu", j);
      const bool must = j < lim && c.must[j], may = j < lim && c.may[j];
      check_edge(p.w, after, j, (size_t)n, must, may, "adding"); check_edge(p.w, after, (size_t)n, j, must, may, "adding");
    }
    size_t fresh = 0; for (auto& e : after.e) { if (e.first.first == n || e.first.second == n) { fresh++; continue; } auto it = before.e.find(e.first); if (it == before.e.end() || it->second != e.second) fail("changed-edge", "adding changed edge %lld->%lld", (long long)e.first.first, (long long)e.first.second); }
    if (after.e.size() != before.e.size() + fresh) fail("changed-edge", "adding a state removed edges");
    probe(a.to_roadmap ? "state added towards the roadmap" : "state added from the roadmap");
  }
}
template <typename Graph>
void grow_and_update(const Plan& p, Graph& g)
{
  add_some(p, g);
  const CustomKnn own(p.w, p.reverse, p.bogus, p.how);
  const prm::LinearGraphKNNProvider<S, G> lin([w = p.w](const S& a, const S& b) { return w.dist(a, b); }, DegreeOfParallelism(p.knn_dop));
  const Knn& knn = p.custom ? static_cast<const Knn&>(own) : lin;
  EndCheck ec; End end; std::string msg;
  if (p.grow > 0)
  {
    Model before; { Quiet q; before = read(g); }
    Hooks h(p.w, p.dop);
    int64_t asked = 0, samples = 0, ok_samples = 0;
    std::vector<S> drawn;
    h.sampling = [&](const int32_t t)
    {
      if (t != 0) fail("worker-number", "serial sampling with worker %d", t);
      h.pause(); samples++; S s = p.w.sample(1000 + (uint64_t)samples); { Quiet q; drawn.push_back(s); } return s;
    };
    const std::function<bool(const int64_t)> stop = [&](const int64_t size)
    {
      if (size != g.Size()) fail("termination-size", "termination check given size %lld, roadmap has %lld", (long long)size, (long long)g.Size());
      return asked++ >= p.grow;
    };
    std::map<std::string, double> stats;
    { FaultScope fs(p.faults); end = attempt([&]() { stats = prm::GrowRoadMap<S, Graph>(g, h.sampling, knn, h.distance, h.state_check, h.edge_check, stop, p.K, DegreeOfParallelism(p.dop), p.w.symmetric, p.dups); }, &msg); }
    Quiet q;
    op();
    two_sided(g, "after growing", "roadmap");
    if (own.gave)
    {
      if (end == RETURNED) fail("bad-neighbour-accepted", "growing believed a neighbour search naming a node out of range");
      probe("bad neighbours refused while growing"); return;
    }
    ec.check(end, "growing a roadmap", msg);
    const Model after = read(g);
    for (size_t i = 0; i < before.v.size(); i++) if (!(after.v[i] == before.v[i])) fail("changed-state", "growing changed state %zu", i);
    if (end == RETURNED)
    {
      // replay the samples
      std::vector<S> v = before.v; int64_t added = 0, dup = 0, bad = 0;
      for (auto& s : drawn)
      {
        if (!p.w.state_ok(s)) { bad++; continue; }
        bool have = false; for (auto& o : v) have = have || o == s;
        if (have && !p.dups && p.K > 0) { dup++; continue; }
        v.push_back(s); added++;
      }
      if (v.size() != after.v.size()) fail("wrong-size", "growing produced %zu states, expected %zu", after.v.size(), v.size());
      for (size_t i = 0; i < v.size(); i++) if (!(v[i] == after.v[i])) fail("wrong-state", "state %zu is not the accepted sample", i);
      (void)ok_samples;
      if (stats["total_samples"] != (double)samples || stats["failed_samples"] != (double)bad || stats["duplicate_samples"] != (double)dup || stats["successful_samples"] != (double)added)
        fail("wrong-statistics", "growing reported total %g failed %g duplicate %g successful %g, really %lld %lld %lld %lld", stats["total_samples"], stats["failed_samples"],
             stats["duplicate_samples"], stats["successful_samples"], (long long)samples, (long long)bad, (long long)dup, (long long)added);
      for (size_t i = before.v.size(); i < v.size(); i++)
      {
        const Choice c = choose(i, p.K, [&](size_t j) { return p.w.dist(v[j], v[i]); });
        for (size_t j = 0; j < i; j++) { check_edge(p.w, after, j, i, c.must[j], c.may[j], "growing"); check_edge(p.w, after, i, j, c.must[j], c.may[j], "growing"); }
      }
      for (auto& e : before.e) { auto it = after.e.find(e.first); if (it == after.e.end() || it->second != e.second) fail("changed-edge", "growing changed edge %lld->%lld", (long long)e.first.first, (long long)e.first.second); }
      for (auto& e : after.e)
        if (e.first.first < (int64_t)before.v.size() && e.first.second < (int64_t)before.v.size() && !before.e.count(e.first))
          fail("changed-edge", "growing added edge %lld->%lld between old states", (long long)e.first.first, (long long)e.first.second);
      probe("roadmap grown");
    }
    else return;
  }
  // Every update is judged against the world as it is then: edges that became
  // impossible earlier have to come back when the way is free again.
  for (int round = 0; round < p.update; round++)
  {
    World w2 = p.w2;
    if (round % 2) w2 = p.w; 
    if (round >= 2) { w2.epoch = 1 + round; w2.factor = p.w2.factor + round; }
    Hooks h(w2, p.update_dop);
    Model before; { Quiet q; before = read(g); }
    EndCheck ec2;
    { FaultScope fs(p.faults); end = attempt([&]() { prm::UpdateRoadMapEdges<S, Graph>(g, h.edge_check, h.distance, DegreeOfParallelism(p.update_dop)); }, &msg); }
    Quiet q;
    op();
    two_sided(g, "after updating edges", "roadmap");
    ec2.check(end, "updating roadmap edges", msg);
    if (end != RETURNED) return;
    const Model after = read(g);
    if (after.e.size() != before.e.size()) fail("changed-edge", "updating edges changed their number");
    for (auto& e : after.e)
    {
      const S& a = after.v[(size_t)e.first.first]; const S& b = after.v[(size_t)e.first.second];
      if (!before.e.count(e.first)) fail("changed-edge", "updating edges made edge %lld->%lld", (long long)e.first.first, (long long)e.first.second);
      const double want = w2.edge_ok(a, b) ? w2.dist(a, b) : kInf;
      if (e.second != want) fail("wrong-updated-weight", "updating with parallelism %d left edge %lld->%lld at %.17g instead of %.17g", p.update_dop, (long long)e.first.first, (long long)e.first.second, e.second, want);
    }
    for (size_t i = 0; i < before.v.size(); i++) if (!(after.v[i] == before.v[i])) fail("changed-state", "updating changed state %zu", i);
    probe("roadmap updated");
  }
}
void one_c01(const Plan& p)
{
  G g(p.size);
  {
    Hooks h(p.w, p.dop);
    std::vector<uint64_t> rej((size_t)p.dop, 0);
    const CustomKnn own(p.w, p.reverse, p.bogus, p.how); const prm::LinearGraphKNNProvider<S, G> lin(h.distance, DegreeOfParallelism(p.knn_dop));
    const Knn& knn = p.custom ? static_cast<const Knn&>(own) : lin;
    EndCheck ec; End end; std::string msg; bool refused = false;
    {
      FaultScope fs(p.faults);
      end = attempt([&]() {
        try { g = prm::BuildRoadMap<S, G>(p.size, h.sampling, knn, h.distance, h.state_check, h.edge_check, p.K, p.tries, DegreeOfParallelism(p.dop), p.par_sampling, p.w.symmetric, p.dups); }
        catch (const Injected&) { throw; }
        catch (const std::runtime_error& e)
        {
          if (dynamic_cast<const std::system_error*>(&e)) throw;
          refused = true; Quiet q; msg = e.what();
        }
      }, &msg);
    }
    Quiet q;
    op();
    if (own.gave)
    {
      if (end == RETURNED && !refused) fail("bad-neighbour-accepted", "building believed a neighbour search naming a node out of range");
      probe("bad neighbours refused while building"); return;
    }
    ec.check(end, "building a roadmap", msg);
    if (end != RETURNED) return;
    uint64_t samples = 0; for (auto& s : h.slots) samples += s.samples;
    if (refused)
    {
      if (p.K < 1 || p.tries < 1) { probe("bad roadmap request refused"); return; }
      // some state took all its tries: at least `tries` samples were rejected
      uint64_t bad = 0;
      for (size_t t = 0; t < h.slots.size(); t++)
      {
        std::vector<S> seen;
        for (uint64_t k = 0; k < h.slots[t].samples; k++)
        {
          const S s = p.w.sample(k * 64 + t);
          bool r = !p.w.state_ok(s);
          if (!p.dups && !r) { for (auto& o : seen) r = r || o == s; if (!r) seen.push_back(s); }
          bad += r;
        }
      }
      if (bad < (uint64_t)p.tries) fail("gave-up-early", "building gave up after %llu rejected samples although %d tries per state are allowed (%s)", (unsigned long long)bad, p.tries, msg.c_str());
      probe("roadmap sampling gave up");
      return;
    }
    if (p.K < 1 || p.tries < 1) fail("bad-request-accepted", "K=%lld tries=%d accepted", (long long)p.K, p.tries);
    two_sided(g, "after building", "roadmap");
    check_built(p, g);
    probe("roadmap built");
  }
  if (p.overlay)
  {
    Model base; { Quiet q; base = read(g); }
    const G& cg = g;
    OV ov(cg);
    grow_and_update(p, ov);
    Quiet q;
    const Model now = read(g);
    if (now.v.size() != base.v.size() || now.e != base.e) fail("base-changed", "working on an overlay changed the underlying roadmap");
    two_sided(g, "below an overlay", "roadmap");
    probe("overlay used");
  }
  else grow_and_update(p, g);
}
void run_c01()
{
  set_omp_env(random_omp_env());
  Plan p;
  p.w = draw_world(); const bool large = chance(1, 90);
  p.size = chance(1, 5) ? (int64_t)draw(3) : 2 + (int64_t)draw(12);
  p.K = chance(1, 20) ? 0 : chance(1, 25) ? ((int64_t)1 << (8 * (1 + draw(5)))) + (int64_t)draw(2) : 1 + (int64_t)draw(5);
  p.dop = draw_dop(6).GetNumThreads(); p.knn_dop = chance(1, 2) ? 1 : draw_dop(4).GetNumThreads();
  p.dups = chance(1, 2); p.par_sampling = chance(1, 2); p.tries = chance(1, 25) ? 0 : (int)draw(30) + 1;
  p.grow = chance(1, 3) ? 0 : (int)draw(10); p.overlay = chance(1, 2); p.update = chance(2, 3) ? 1 + (int)draw(3) : 0;
  p.update_dop = draw_dop(6).GetNumThreads();
  if (large)
  {
    p.w.grid = 40; p.w.slow = p.w.throws = false; p.w.bad_states = std::min(p.w.bad_states, 30);
    p.size = chance(1, 4) ? 250 + (int64_t)draw(60) : 40 + (int64_t)draw(100); p.K = 1 + (int64_t)draw(20); p.tries = 200; p.grow = (int)draw(40); p.update = 1; probe("large roadmap");
  }
  p.custom = chance(1, 4); p.reverse = chance(1, 2); if (p.custom && chance(1, 3)) { p.bogus = (int64_t)draw(20); p.how = draw(1u << 16); }
  for (size_t i = chance(1, 2) ? 0 : 1 + draw(4); i > 0; i--)
  {
    AddReq a; a.state = p.w.at(draw(p.w.cells())); a.to_roadmap = chance(1, 2); a.custom = chance(1, 3); a.reverse = chance(1, 2); a.direct = chance(1, 3);
    a.K = chance(1, 20) ? -(int64_t)draw(2) : 1 + (int64_t)draw(5); a.bogus = a.custom && chance(1, 3) ? 0 : -1; a.how = draw(1ull << 40); a.max = chance(1, 12) ? (chance(1, 2) ? -2 - (int64_t)draw(3) : 2 + (int64_t)draw(3)) : 0;
    p.adds.push_back(a);
  }
  p.w2 = p.w; if (chance(2, 3)) { p.w2.epoch = 1; p.w2.bad_edges = (int)draw(70); } if (chance(1, 3)) p.w2.factor = 2;
  p.faults = kSched | (p.w.throws ? bit(F_THROW) : 0) | (chance(1, 6) ? kRes : 0);
  p.w.nested = !large && !(p.faults & (kRes | bit(F_THROW))) && chance(1, 4);
  if (p.w.nested) probe("callbacks use the library");
  const Kind k = (p.faults & (kRes | bit(F_THROW))) || p.size > 9 || large ? PLAIN : draw_kind();
  call(k, k == PLAIN ? 1 : 2, [&](int) { one_c01(p); });
}

// ---- C02 ------------------------------------------------------------------------------
struct Val
{
  int64_t id = 0; std::vector<int64_t> pay;
  static uint64_t ser(const Val& v, std::vector<uint8_t>& b)
  {
    const uint64_t s = b.size();
    serialization::SerializeMemcpyable<int64_t>(v.id, b);
    serialization::SerializeMemcpyableVectorLike<int64_t>(v.pay, b);
    return b.size() - s;
  }
  static serialization::Deserialized<Val> des(const std::vector<uint8_t>& b, const uint64_t off)
  {
    Val v; uint64_t pos = off;
    const auto i = serialization::DeserializeMemcpyable<int64_t>(b, pos); v.id = i.Value(); pos += i.BytesRead();
    const auto p = serialization::DeserializeMemcpyableVectorLike<int64_t>(b, pos); v.pay = p.Value(); pos += p.BytesRead();
    return serialization::MakeDeserialized(v, pos - off);
  }
};
using VG = sg::Graph<Val>;
using VO = sg::NonOwningGraphOverlay<Val, VG>;
using VOO = sg::NonOwningGraphOverlay<Val, VO>;
using VOwn = sg::OwningGraphOverlay<Val, VG>;
using VOwn2 = sg::OwningGraphOverlay<Val, VOwn>;
struct RefGraph
{
  std::vector<int64_t> ids;
  std::vector<std::tuple<int64_t, int64_t, double, uint64_t>> e;    // in no particular order
  bool operator==(const RefGraph& o) const
  {
    auto a = e, b = o.e; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    return ids == o.ids && a == b;
  }
};
template <typename Gr> RefGraph extract(const Gr& g)
{
  RefGraph r;
  for (int64_t i = 0; i < g.Size(); i++)
  {
    const Val& v = g.GetNodeImmutable(i).GetValueImmutable();
    if (v.pay.size() != (size_t)(v.id % 4) || (!v.pay.empty() && v.pay.back() != v.id)) fail("garbled-value", "node %lld: value %lld has a wrong payload", (long long)i, (long long)v.id);
    r.ids.push_back(v.id);
    for (auto& e : g.GetNodeImmutable(i).GetOutEdgesImmutable()) r.e.emplace_back(e.GetFromIndex(), e.GetToIndex(), e.GetWeight(), e.GetScratchpad());
  }
  return r;
}
RefGraph pruned(const RefGraph& r, const std::unordered_set<int64_t>& cut)
{
  RefGraph o; std::vector<int64_t> to(r.ids.size(), -1);
  for (size_t i = 0; i < r.ids.size(); i++) if (!cut.count((int64_t)i)) { to[i] = (int64_t)o.ids.size(); o.ids.push_back(r.ids[i]); }
  for (auto& e : r.e) if (to[(size_t)std::get<0>(e)] >= 0 && to[(size_t)std::get<1>(e)] >= 0) o.e.emplace_back(to[(size_t)std::get<0>(e)], to[(size_t)std::get<1>(e)], std::get<2>(e), std::get<3>(e));
  return o;
}
Val make_val(int64_t id) { Val v; v.id = id; v.pay.assign((size_t)(id % 4), id); return v; }
struct C02
{
  uint32_t faults = 0; int64_t next_id = 1; double next_w = 1;
  template <typename F> End run(const char* what, bool may_refuse, const F& f)
  {
    EndCheck ec; std::string msg; End e;
    { FaultScope fs(faults); e = attempt(f, &msg); }
    Quiet q; op();
    if (e == STDEXC && may_refuse) return e;
    ec.check(e, what, msg);
    return e;
  }
  template <typename Gr> void agree(const Gr& g, const RefGraph& want, const char* when)
  {
    Quiet q;
    two_sided(g, when, "graph");
    const int64_t n = g.Size();
    if (g.IndexInRange(-1) || g.IndexInRange(n) || (n && (!g.IndexInRange(0) || !g.IndexInRange(n - 1)))) fail("index-range", "%s: IndexInRange() is wrong for a graph of %lld nodes", when, (long long)n);
    if (!(extract(g) == want)) fail("wrong-content", "%s: the graph does not hold what was put in it (%lld nodes, expected %zu)", when, (long long)g.Size(), want.ids.size());
  }
  // one mutation of a graph-like object, checked against its model
  template <typename Gr> void mutate(Gr& g, RefGraph& m)
  {
    const int64_t n = g.Size();
    switch (draw(10))
    {
      case 9:
      {
        // an existing edge is changed where it is recorded
        if (m.e.empty()) return;
        auto& k = m.e[(size_t)draw(m.e.size())]; const int64_t a = std::get<0>(k), b = std::get<1>(k); const double was = std::get<2>(k), w = chance(1, 2) ? next_w++ : was; const uint64_t pad = chance(1, 4) ? 0 : draw(UINT64_MAX);
        int hits = 0;
        const End e = run("changing an edge", false, [&]() {
          auto& out = g.GetNodeMutable(a).GetOutEdgesMutable(); auto& in = g.GetNodeMutable(b).GetInEdgesMutable();
          Quiet q;
          for (auto* list : {&out, &in}) for (auto& x : *list) if (x.GetFromIndex() == a && x.GetToIndex() == b && x.GetWeight() == was) { const sg::GraphEdge old = x; x.SetScratchpad(pad); x.SetWeight(w); hits++; if ((old == x) != (pad == old.GetScratchpad() && w == was)) fail("wrong-answer", "comparison of edges is wrong"); }
        });
        Quiet q;
        if (e == RETURNED) { if (hits != 2) fail("one-sided-edge", "edge %lld->%lld is recorded %d times", (long long)a, (long long)b, hits); std::get<2>(k) = w; std::get<3>(k) = pad; probe("edge changed"); }
        agree(g, m, e == RETURNED ? "after changing an edge" : "after changing an edge failed");
        return;
      }
      case 2:
      {
        // both directions of a pair recorded node by node
        if (n < 2) return;
        const int64_t a = (int64_t)draw((uint64_t)n), b = (a + 1 + (int64_t)draw((uint64_t)n - 1)) % n; const double w = next_w++; const uint64_t pad = chance(1, 2) ? draw(UINT64_MAX) : 0;
        {
          Quiet q; const sg::GraphEdge ab(a, b, w, pad), ba(b, a, w, pad);
          g.GetNodeMutable(a).AddEdgePair(ba, ab); g.GetNodeMutable(b).AddEdgePair(ab, ba);
          m.e.emplace_back(a, b, w, pad); m.e.emplace_back(b, a, w, pad);
        }
        agree(g, m, "after adding edge pairs");
        return;
      }
      case 0: case 1:
      {
        const bool alias = n > 0 && chance(1, 5); const int64_t from = alias ? (int64_t)draw((uint64_t)n) : 0;
        Val v; { Quiet q; v = make_val(next_id++); }
        int64_t idx = -1; const int form = (int)draw(2);
        const End e = run("adding a node", false, [&]() {
          if (alias) idx = g.AddNode(g.GetNodeImmutable(from).GetValueImmutable());
          else if (form) idx = g.AddNode(v);
          else idx = g.AddNode(sg::GraphNode<Val>(v));
        });
        Quiet q;
        if (e == RETURNED)
        {
          if (idx != n) fail("wrong-index", "new node got index %lld, expected %lld", (long long)idx, (long long)n);
          m.ids.push_back(alias ? m.ids[(size_t)from] : v.id);
        }
        agree(g, m, e == RETURNED ? "after adding a node" : "after adding a node failed");
        if (e != RETURNED) probe("adding a node failed");
        return;
      }
      default:
      {
        const bool odd = chance(1, 6);
        const int64_t a = odd ? range(-2, n + 1) : n ? (int64_t)draw((uint64_t)n) : 0, b = odd ? range(-2, n + 1) : n ? (int64_t)draw((uint64_t)n) : 0;
        const double w = next_w++; const bool both = chance(1, 3);
        const bool ok = a >= 0 && b >= 0 && a < n && b < n && a != b;
        const End e = run("adding an edge", !ok, [&]() { if (both) g.AddEdgesBetweenNodes(a, b, w); else g.AddEdgeBetweenNodes(a, b, w); });
        Quiet q;
        if (e == RETURNED)
        {
          if (!ok) fail("bad-edge-accepted", "edge %lld->%lld accepted in a graph of %lld nodes", (long long)a, (long long)b, (long long)n);
          m.e.emplace_back(a, b, w, 0); if (both) m.e.emplace_back(b, a, w, 0);
        }
        else if (e == BAD_ALLOC)
        {
          // either none of the edges, or for a pair also just one direction
          two_sided(g, "after adding an edge failed", "graph");
          const RefGraph now = extract(g);
          RefGraph one = m, other = m, all = m;
          one.e.emplace_back(a, b, w, 0); other.e.emplace_back(b, a, w, 0); all.e.emplace_back(a, b, w, 0); all.e.emplace_back(b, a, w, 0);
          if (now == m) {} else if (both && (now == one || now == other || now == all)) m = now; else if (!both && now == one) m = now;
          else fail("garbled-by-failure", "a failed attempt to add edge %lld->%lld changed something else", (long long)a, (long long)b);
          probe("adding an edge failed");
        }
        agree(g, m, e == RETURNED ? "after adding an edge" : "after adding an edge failed");
        return;
      }
    }
  }
  void serialise(VG& g, RefGraph& m)
  {
    std::vector<uint8_t> buf; const size_t pad = draw(5); bool back = false; uint64_t wrote = 0, read_n = 0; VG other;
    const bool in_place = chance(1, 2);
    { Quiet q; buf.assign(pad, 0xab); other.AddNode(make_val(3)); }
    const End e = run("serialising a graph", false, [&]() {
      wrote = VG::Serialize(g, buf, Val::ser);
      if (in_place) read_n = other.DeserializeSelf(buf, pad, Val::des);
      else { const auto d = VG::Deserialize(buf, pad, Val::des); other = d.Value(); read_n = d.BytesRead(); }
      back = true;
    });
    Quiet q;
    agree(g, m, "after serialising");
    if (e == RETURNED)
    {
      if (wrote != buf.size() - pad || read_n != wrote) fail("bytes-read", "serialised %llu bytes (buffer grew by %zu), read %llu", (unsigned long long)wrote, buf.size() - pad, (unsigned long long)read_n);
      agree(other, m, "after reading it back");
      if (chance(1, 2)) g = std::move(other);
      probe("graph serialised");
    }
    else { two_sided(other, "after reading back failed", "graph"); extract(other); }
    (void)back;
  }
  template <typename Gr> void prune(const Gr& g, const RefGraph& m, VG* replace, RefGraph* rm)
  {
    std::unordered_set<int64_t> cut; const int64_t n = g.Size();
    const uint64_t share = draw(5);
    for (int64_t i = 0; i < n; i++) if (chance(share, 5)) { Quiet q; cut.insert(i); }
    const DegreeOfParallelism dop = draw_dop(6);
    VG out; bool done = false; const bool copy = chance(1, 2);
    const Kind k = (faults & kRes) ? PLAIN : draw_kind();
    VG outs[2];
    call(k, k == PLAIN ? 1 : 2, [&](int who) {
      VG o; EndCheck ec; std::string msg;
      End e;
      { FaultScope fs(faults); e = attempt([&]() { if constexpr (std::is_same_v<Gr, VG>) { if (copy) { o = g.MakePrunedCopy(cut, dop); return; } } o = sg::PruneGraph<Gr, VG>(g, cut, dop); }, &msg); }
      Quiet q; op();
      ec.check(e, "pruning a graph", msg);
      if (e == RETURNED) { agree(o, pruned(m, cut), "after pruning"); if (who == 0) { out = std::move(o); done = true; } }
    });
    Quiet q;
    agree(g, m, "original after making a pruned copy");
    if (done) probe("graph pruned");
    if (done && replace && chance(1, 2)) { *rm = pruned(m, cut); *replace = std::move(out); }
  }
};
void run_c02()
{
  set_omp_env(random_omp_env());
  C02 c; c.faults = kSched | (chance(1, 2) ? kRes : 0);
  VG g; RefGraph m;
  { Quiet q; if (chance(1, 3)) g = VG((int64_t)draw(6)); }
  const bool large = chance(1, 80);
  if (large)
  {
    Quiet q; const int64_t n = 60 + (int64_t)draw(300), edges = n * (int64_t)(1 + draw(4));
    for (int64_t i = 0; i < n; i++) { const Val v = make_val(c.next_id++); g.AddNode(v); m.ids.push_back(v.id); }
    for (int64_t i = 0; i < edges; i++) { const int64_t a = (int64_t)draw((uint64_t)n), b = (int64_t)draw((uint64_t)n); if (a == b) continue; const double w = c.next_w++; g.AddEdgeBetweenNodes(a, b, w); m.e.emplace_back(a, b, w, 0); }
    probe("large graph");
  }
  const int ops = large ? 2 + (int)draw(4) : 3 + (int)draw(30);
  for (int i = 0; i < ops; i++)
  {
    switch (draw(13))
    {
      case 0: c.prune(g, m, &g, &m); break;
      case 1: c.serialise(g, m); break;
      case 2:
      {
        VG copy; const End e = c.run("copying a graph", false, [&]() { VG t(g); if (chance(1, 2)) copy = t; else copy = std::move(t); });
        if (e == RETURNED)
        {
          RefGraph cm = m; c.agree(copy, cm, "copy");
          c.mutate(copy, cm); c.agree(g, m, "original after changing a copy");
          if (chance(1, 3)) { Quiet q; g = copy; m = cm; }
        }
        c.agree(g, m, "original after copying");
        break;
      }
      case 3:
      {
        // layered overlays: changes stay in the layer they were made in
        VO* o1 = nullptr; RefGraph m1 = m;
        { Quiet q; o1 = new VO(static_cast<const VG&>(g)); }
        std::unique_ptr<VO> hold(o1);
        const int k = (int)draw(8);
        for (int j = 0; j < k; j++) c.mutate(*o1, m1);
        c.agree(g, m, "base graph below an overlay");
        if (chance(1, 2))
        {
          VOO o2(static_cast<const VO&>(*o1)); RefGraph m2 = m1;
          const int k2 = (int)draw(5);
          for (int j = 0; j < k2; j++) c.mutate(o2, m2);
          c.agree(*o1, m1, "middle overlay below an overlay"); c.agree(g, m, "base graph below two overlays");
          probe("two overlays");
        }
        if (chance(1, 3)) c.prune(*o1, m1, nullptr, nullptr);
        if (chance(1, 3))
        {
          // a copied overlay is independent of the overlay it was copied from
          std::unique_ptr<VO> o3; const End e = c.run("copying an overlay", false, [&]() { o3.reset(new VO(*o1)); });
          if (e == RETURNED) { RefGraph m3 = m1; c.agree(*o3, m3, "copied overlay"); c.mutate(*o3, m3); c.agree(*o1, m1, "overlay after changing its copy"); }
        }
        c.agree(g, m, "base graph below an overlay");
        probe("overlay used");
        break;
      }
      case 12:
      {
        // an owning overlay keeps the graph below alive when nobody else does
        std::shared_ptr<const VG> base; std::shared_ptr<const VOwn> mid; std::unique_ptr<VOwn2> top; std::unique_ptr<VOwn> hold; RefGraph m1 = m, m2;
        End e = c.run("making an owning overlay", false, [&]() { base = std::make_shared<const VG>(g); hold.reset(new VOwn(base)); });
        if (e != RETURNED) break;
        const VG* below = base.get();
        { Quiet q; if (chance(3, 4)) base.reset(); }
        const int k = (int)draw(7);
        for (int j = 0; j < k; j++) c.mutate(*hold, m1);
        c.agree(*hold, m1, "owning overlay");
        c.agree(*below, m, "base graph below an owning overlay");
        if (chance(1, 3)) c.prune(*hold, m1, nullptr, nullptr);
        m2 = m1;
        const bool move = chance(1, 2);
        e = c.run("stacking owning overlays", false, [&]() { mid = move ? std::make_shared<const VOwn>(std::move(*hold)) : std::make_shared<const VOwn>(*hold); top.reset(new VOwn2(mid)); });
        if (e == RETURNED)
        {
          { Quiet q; if (move) hold.reset(); }
          const VOwn* under = mid.get();
          { Quiet q; if (chance(3, 4)) mid.reset(); if (chance(1, 2)) base.reset(); }
          const int k2 = (int)draw(5);
          for (int j = 0; j < k2; j++) c.mutate(*top, m2);
          c.agree(*under, m1, "owning overlay below an owning overlay");
          c.agree(*top, m2, "owning overlay above an owning overlay");
          if (!move) { c.mutate(*hold, m1); c.agree(*top, m2, "owning overlay after changing the overlay below was copied from"); }
          if (chance(1, 3)) c.prune(*top, m2, nullptr, nullptr);
        }
        c.agree(g, m, "graph an owning overlay was made from");
        Quiet q;
        bool refused = false;
        try { VOwn none((std::shared_ptr<const VG>())); } catch (const std::invalid_argument&) { refused = true; }
        if (!refused) fail("null-base", "an overlay of no graph was accepted");
        probe("owning overlay used");
        break;
      }
      case 4:
      {
        const bool how = chance(1, 2);
        const End e = c.run("rebuilding a graph from its nodes", false, [&]() { if (how) g.ShrinkToFit(); else { VG t(g.GetNodesImmutable()); g = t; } });
        (void)e; c.agree(g, m, "after rebuilding");
        break;
      }
      case 5:
      {
        // badly linked nodes are refused and the graph keeps its content
        if (g.Size() < 2 || m.e.empty()) break;
        VG bad; const int64_t at = (int64_t)draw((uint64_t)g.Size()); const int what = (int)draw(4);
        { Quiet q; bad = g; auto& nd = bad.GetNodeMutable(at); const int64_t oth = (at + 1) % g.Size();
          // (at, oth) only counts as damage if it is not an edge already
          bool have = false, rev = false; for (auto& e : m.e) { have = have || (std::get<0>(e) == at && std::get<1>(e) == oth); rev = rev || (std::get<0>(e) == oth && std::get<1>(e) == at); }
          if (what == 0) { if (have) break; nd.AddOutEdge(sg::GraphEdge(at, oth, 1)); }
          else if (what == 1) { if (rev) break; nd.AddInEdge(sg::GraphEdge(oth, at, 1)); }
          else if (what == 2) nd.AddOutEdge(sg::GraphEdge(at, g.Size() + (int64_t)draw(3), 1));
          else nd.AddEdgePair(sg::GraphEdge(at, at, 1), sg::GraphEdge(at, at, 1)); }
        { Quiet q; if (bad.CheckGraphLinkage()) fail("linkage-check", "CheckGraphLinkage() accepts a badly linked graph (damage %d at node %lld)", what, (long long)at); }
        std::vector<uint8_t> buf; { Quiet q; VG::Serialize(bad, buf, Val::ser); }
        const bool by_bytes = chance(1, 2);
        const End e = c.run("loading a badly linked graph", true, [&]() { if (by_bytes) g.DeserializeSelf(buf, 0, Val::des); else g = VG(bad.GetNodesImmutable()); });
        if (e == RETURNED) fail("bad-linkage-accepted", "a badly linked graph was accepted (damage %d)", what);
        c.agree(g, m, "after refusing a badly linked graph");
        probe("bad linkage refused");
        break;
      }
      default: c.mutate(g, m); break;
    }
  }
}

// ---- C03 ------------------------------------------------------------------------------
struct Query
{
  int kind = 0; std::vector<S> starts, goals; std::vector<int64_t> si, gi; int64_t K = 1; int dop = 1, knn_dop = 1;
  bool dups = false, limit = true, overlay = true; std::vector<double> costs; bool zero_h = false; uint64_t custom = 9;
};
// shortest distance from any source over explicit edges
std::vector<double> shortest(size_t n, const Edges& e, const std::vector<std::pair<size_t, double>>& src, bool reversed)
{
  std::vector<double> d(n, kInf);
  for (auto& s : src) d[s.first] = std::min(d[s.first], s.second);
  for (size_t k = 0; k <= n; k++)
  {
    bool more = false;
    for (auto& p : e)
    {
      size_t a = (size_t)p.first.first, b = (size_t)p.first.second; if (reversed) std::swap(a, b);
      if (d[a] + p.second < d[b]) { d[b] = d[a] + p.second; more = true; }
    }
    if (!more) break;
  }
  return d;
}
bool near(double a, double b) { return a == b || std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a)); }
struct C03
{
  World w;              // what queries see
  G g; Model m; bool exact = true;
  uint32_t faults = 0;
};
// m plus the private start and goal states; exact=false if a tie leaves the connections open
struct Extended { Model m; std::vector<size_t> s, t; bool exact = true; };
size_t add_private(const World& w, Extended& x, const S& st, bool is_start, size_t candidates, int64_t K, bool dups)
{
  const auto d = [&](size_t j) { return is_start ? w.dist(st, x.m.v[j]) : w.dist(x.m.v[j], st); };
  if (!dups)
    for (size_t j = 0; j < candidates; j++)
      if (d(j) == 0.0) return j;     // the only state at distance zero (or one of several equal ones)
  const Choice c = choose(candidates, K, d);
  if (c.ties) x.exact = false;
  const size_t id = x.m.v.size(); x.m.v.push_back(st);
  for (size_t j = 0; j < candidates; j++)
    if (c.may[j])
    {
      if (w.edge_ok(x.m.v[j], st)) x.m.e[{(int64_t)j, (int64_t)id}] = w.dist(x.m.v[j], st);
      if (w.edge_ok(st, x.m.v[j])) x.m.e[{(int64_t)id, (int64_t)j}] = w.dist(st, x.m.v[j]);
    }
  return id;
}
void check_path(const Model& m, const std::vector<int64_t>& path, double cost, const std::vector<size_t>& from, const std::vector<size_t>& to,
                double best, const char* what, double start_cost = 0)
{
  if (path.empty())
  {
    if (best < kInf) fail("path-missed", "%s: reported no path although one of cost %g exists", what, best);
    if (!(cost == kInf)) fail("path-cost", "%s: no path but cost %g", what, cost);
    probe("no path"); return;
  }
  if (std::find(from.begin(), from.end(), (size_t)path.front()) == from.end()) fail("path-start", "%s: path starts at %lld, which is no start", what, (long long)path.front());
  if (std::find(to.begin(), to.end(), (size_t)path.back()) == to.end()) fail("path-goal", "%s: path ends at %lld, which is no goal", what, (long long)path.back());
  double sum = start_cost;
  for (size_t i = 1; i < path.size(); i++)
  {
    auto it = m.e.find({path[i - 1], path[i]});
    if (it == m.e.end() || it->second == kInf) fail("path-edge", "%s: path uses %lld->%lld, which is no valid edge", what, (long long)path[i - 1], (long long)path[i]);
    sum += it->second;
  }
  if (!near(sum, cost)) fail("path-cost", "%s: path cost reported as %.12g, its edges sum to %.12g", what, cost, sum);
  if (cost > best && !near(cost, best)) fail("not-shortest", "%s: path of cost %.12g although %.12g is possible", what, cost, best);
  if (cost < best && !near(cost, best)) fail("path-cost", "%s: path of cost %.12g cheaper than possible (%.12g)", what, cost, best);
  probe("path found");
}
void one_query(const C03& c, const Query& q)
{
  Hooks h(c.w, q.dop);
  EndCheck ec; End end; std::string msg; bool refused = false;
  gs::DijkstrasResult dj; gs::AstarIndexResult ai; simple_astar_search::AstarResult<S, std::vector<S>> as;
  const auto zero = [](const S&, const S&) { return 0.0; };
  const std::function<double(const S&, const S&)> heur = q.zero_h ? std::function<double(const S&, const S&)>(zero) : h.distance;
  {
    FaultScope fs(c.faults);
    end = attempt([&]() {
      try
      {
        switch (q.kind)
        {
          case 0: dj = gs::PerformDijkstrasAlgorithm(c.g, q.si[0]); break;
          case 1: ai = gs::PerformAstarSearch<S, G>(c.g, q.si, q.gi, heur, q.limit); break;
          case 2:
            ai = gs::PerformLazyAstarSearch<S, G>(c.g, q.si, q.gi, [&](const S& a, const S& b) { return h.edge_check(0, a, b); }, h.distance, heur, q.limit);
            break;
          case 3:
          {
            gs::IndexStatesWithCosts st;
            for (size_t i = 0; i < q.si.size(); i++) st.emplace_back(q.si[i], q.costs[i]);
            ai = gs::PerformLazyAstarSearch<G>(c.g, st, [&](const G&, const int64_t i) { return std::find(q.gi.begin(), q.gi.end(), i) != q.gi.end(); },
                [&](const G&, const sg::GraphEdge& e) { return e.GetWeight() < kInf; }, [&](const G&, const sg::GraphEdge& e) { return e.GetWeight(); },
                [&](const G&, const int64_t) { return 0.0; }, q.limit);
            break;
          }
          case 4: case 5:
          {
            const prm::LinearGraphKNNProvider<S, G> lin(h.distance, DegreeOfParallelism(q.knn_dop)); const CustomKnn own(c.w, q.custom & 1, -1, 0);
            const Knn& knn = q.custom < 2 ? static_cast<const Knn&>(own) : lin;
            if (q.kind == 4) as = prm::QueryPath<S, std::vector<S>, G>(q.starts, q.goals, c.g, knn, h.distance, h.edge_check, q.K, DegreeOfParallelism(q.dop), c.w.symmetric, q.dups, q.limit, q.overlay);
            else as = prm::LazyQueryPath<S, std::vector<S>, G>(q.starts, q.goals, c.g, knn, h.distance, h.edge_check, q.K, DegreeOfParallelism(q.dop), c.w.symmetric, q.dups, q.limit, q.overlay);
            break;
          }
        }
      }
      catch (const Injected&) { throw; }
      catch (const std::invalid_argument&) { refused = true; }
    }, &msg);
  }
  Quiet quiet;
  op();
  ec.check(end, "path query", msg);
  if (end != RETURNED) return;
  const size_t n = c.m.v.size();
  if (q.kind <= 3)
  {
    bool bad = q.si.empty();
    for (int64_t i : q.si) { bad = bad || i < 0 || i >= (int64_t)n; if (q.kind == 0) break; }
    if (q.kind != 0 && q.kind != 3) for (int64_t i : q.gi) bad = bad || i < 0 || i >= (int64_t)n;
    if (refused != bad) fail("bad-request", "search kind %d with %zu starts of a roadmap of %zu was %s", q.kind, q.si.size(), n, refused ? "refused" : "accepted");
    if (bad) { probe("bad query refused"); return; }
  }
  else if (refused) fail("good-request-refused", "roadmap query refused");
  switch (q.kind)
  {
    case 0:
    {
      const std::vector<double> d = shortest(n, c.m.e, {{(size_t)q.si[0], 0.0}}, true);
      if (dj.Size() != (int64_t)n) fail("tree-size", "shortest-path tree of %lld nodes for a roadmap of %zu", (long long)dj.Size(), n);
      for (size_t i = 0; i < n; i++)
      {
        const double got = dj.GetNodeDistance((int64_t)i); const int64_t prev = dj.GetPreviousIndex((int64_t)i);
        if (!near(got, d[i])) fail("tree-distance", "shortest-path tree of %lld: node %zu at %.12g, really %.12g", (long long)q.si[0], i, got, d[i]);
        if (d[i] == kInf) { if (prev != -1) fail("tree-link", "unreachable node %zu linked to %lld", i, (long long)prev); continue; }
        if ((int64_t)i == q.si[0]) { if (prev != (int64_t)i) fail("tree-link", "root linked to %lld", (long long)prev); continue; }
        const auto it = c.m.e.find({(int64_t)i, prev});
        if (it == c.m.e.end() || !near(it->second + d[(size_t)prev], d[i])) fail("tree-link", "node %zu linked to %lld, which is not the next node of a shortest path", i, (long long)prev);
      }
      probe("shortest-path tree");
      break;
    }
    case 1: case 2: case 3:
    {
      Model m = c.m;
      if (q.kind == 2)
        for (auto& e : m.e) { const S& a = m.v[(size_t)e.first.first]; const S& b = m.v[(size_t)e.first.second]; e.second = c.w.edge_ok(a, b) ? c.w.dist(a, b) : kInf; }
      std::vector<std::pair<size_t, double>> src; std::vector<size_t> from, to;
      for (size_t i = 0; i < q.si.size(); i++) { src.push_back({(size_t)q.si[i], q.kind == 3 ? q.costs[i] : 0.0}); from.push_back((size_t)q.si[i]); }
      for (int64_t i : q.gi) if (i >= 0 && i < (int64_t)n) to.push_back((size_t)i);
      const std::vector<double> d = shortest(n, m.e, src, false);
      double best = kInf; for (size_t t : to) best = std::min(best, d[t]);
      double sc = 0;
      if (q.kind == 3)
      {
        // a start that already meets the goal ends the search at once
        bool meets = false; for (size_t s : from) meets = meets || std::find(to.begin(), to.end(), s) != to.end();
        if (meets) break;
        if (!ai.Path().empty()) { sc = kInf; for (auto& s : src) if ((int64_t)s.first == ai.Path().front()) sc = std::min(sc, s.second); }
      }
      check_path(m, ai.Path(), ai.PathCost(), from, to, best, q.kind == 1 ? "A* on a roadmap" : q.kind == 2 ? "lazy A*" : "A* with start costs", sc);
      break;
    }
    default:
    {
      Extended x; x.m = c.m;
      const size_t pre = n;
      for (auto& s : q.starts) x.s.push_back(add_private(c.w, x, s, true, pre, q.K, q.dups));
      const size_t pre2 = x.m.v.size();
      for (auto& s : q.goals) x.t.push_back(add_private(c.w, x, s, false, pre2, q.K, q.dups));
      if (q.kind == 5)
        for (auto& e : x.m.e) { const S& a = x.m.v[(size_t)e.first.first]; const S& b = x.m.v[(size_t)e.first.second]; e.second = c.w.edge_ok(a, b) ? c.w.dist(a, b) : kInf; }
      std::vector<std::pair<size_t, double>> src; for (size_t s : x.s) src.push_back({s, 0.0});
      const std::vector<double> d = shortest(x.m.v.size(), x.m.e, src, false);
      double best = kInf; for (size_t t : x.t) best = std::min(best, d[t]);
      const char* what = q.kind == 4 ? "roadmap query" : "lazy roadmap query";
      const auto& path = as.Path();
      // equal states make connections ambiguous; otherwise states identify nodes
      bool unique = true;
      for (size_t i = 0; i < x.m.v.size(); i++) for (size_t j = 0; j < i; j++) unique = unique && !(x.m.v[i] == x.m.v[j]);
      if (!unique || !x.exact)
      {
        if (path.empty() != (as.PathCost() == kInf)) fail("path-cost", "%s: %zu states but cost %g", what, path.size(), as.PathCost());
        probe("ambiguous query"); break;
      }
      std::vector<int64_t> ids;
      for (auto& s : path)
      {
        int64_t k = -1; for (size_t i = 0; i < x.m.v.size(); i++) if (x.m.v[i] == s) k = (int64_t)i;
        if (k < 0) fail("path-state", "%s: path holds a state that is neither in the roadmap nor a start or goal", what);
        ids.push_back(k);
      }
      check_path(x.m, ids, as.PathCost(), x.s, x.t, best, what);
    }
  }
}
Query draw_query(const C03& c)
{
  Query q; const size_t n = c.m.v.size();
  q.kind = (int)draw(6);
  const size_t ns = 1 + draw(3), ng = draw(8) == 0 ? 0 : 1 + draw(3);
  for (size_t i = 0; i < ns; i++) { q.si.push_back(n && !chance(1, 25) ? (int64_t)draw(n) : range(-1, (int64_t)n)); q.costs.push_back((double)draw(8) / 2); }
  for (size_t i = 0; i < ng; i++) q.gi.push_back(n && !chance(1, 25) ? (int64_t)draw(n) : range(-1, (int64_t)n));
  if (q.kind == 3) for (size_t i = 0; i < ns; i++) if (q.si[i] < 0 || q.si[i] >= (int64_t)n) { q.kind = 1; }
  for (size_t i = 0; i < ns; i++) q.starts.push_back(c.w.at(draw(c.w.cells())));
  for (size_t i = 0; i < std::max<size_t>(1, ng); i++) q.goals.push_back(c.w.at(draw(c.w.cells())));
  q.K = chance(1, 30) ? ((int64_t)1 << (8 * (1 + draw(5)))) + (int64_t)draw(2) : 1 + (int64_t)draw(4); q.dop = draw_dop(4).GetNumThreads(); q.knn_dop = chance(1, 2) ? 1 : draw_dop(3).GetNumThreads();
  q.dups = chance(1, 4); q.limit = chance(1, 2); q.overlay = chance(2, 3); q.zero_h = chance(1, 4); q.custom = draw(8);
  return q;
}
void run_c03()
{
  set_omp_env(random_omp_env());
  C03 c; c.w = draw_world(); c.w.bad_states = 0;
  const bool throws = c.w.throws; c.w.throws = false;
  {
    // the shared roadmap is made first, without faults
    Quiet q;
    const bool large = chance(1, 40);
    const bool vast = large && chance(1, 4);
    if (large) { c.w.grid = vast ? 40 : 30; probe(vast ? "vast roadmap" : "large roadmap"); }
    const size_t n = vast ? 320 + draw(240) : large ? (chance(1, 4) ? 250 + draw(60) : 60 + draw(90)) : 1 + draw(16);
    const bool wiped = chance(1, 3);
    const uint64_t density = 1 + draw(5), per = large ? 12 * (uint64_t)n / 4 : 12;
    for (size_t i = 0, t = 0; i < n && t < (vast ? 1200 : 300); t++)
    {
      const S s = c.w.at(draw(c.w.cells())); bool have = false;
      for (int64_t j = 0; j < c.g.Size(); j++) have = have || c.g.GetNodeImmutable(j).GetValueImmutable() == s;
      if (!have) { c.g.AddNode(s); i++; }
    }
    const int64_t m = c.g.Size(); const bool heavy = chance(1, 3);
    if (vast)
      for (int64_t k = 0; k < 3 * m; k++)
      {
        // one long way through all of it, and some more
        const int64_t a = k < m ? k : (int64_t)draw((uint64_t)m), b = k < m ? (k + 1) % m : (int64_t)draw((uint64_t)m);
        bool have = a == b; for (auto& e : c.g.GetNodeImmutable(a).GetOutEdgesImmutable()) have = have || e.GetToIndex() == b;
        const double d = c.w.dist(c.g.GetNodeImmutable(a).GetValueImmutable(), c.g.GetNodeImmutable(b).GetValueImmutable());
        if (!have && (k < m || chance(density, 10))) c.g.AddEdgeBetweenNodes(a, b, heavy ? d * (double)(1 + draw(4)) : d);
      }
    else for (int64_t a = 0; a < m; a++) for (int64_t b = 0; b < m; b++)
      if (a != b && chance(density, per))
      {
        const S& x = c.g.GetNodeImmutable(a).GetValueImmutable(); const S& y = c.g.GetNodeImmutable(b).GetValueImmutable();
        if (wiped && chance(1, 4)) c.g.AddEdgeBetweenNodes(a, b, kInf);
        else c.g.AddEdgeBetweenNodes(a, b, c.w.dist(x, y) * (heavy ? 1.0 + (double)draw(4) : 1.0));
      }
    c.m = read(c.g);
  }
  c.w.throws = throws && chance(1, 2);
  c.faults = kSched | (c.w.throws ? bit(F_THROW) : 0) | (chance(1, 8) ? kRes : 0);
  c.w.nested = c.g.Size() < 100 && !(c.faults & (kRes | bit(F_THROW))) && chance(1, 4);
  if (c.w.nested) probe("callbacks use the library");
  const int callers = c.faults & (kRes | bit(F_THROW)) ? 1 : 1 + (int)draw(4);
  std::vector<std::vector<Query>> work((size_t)callers);
  for (auto& v : work) { const int k = 1 + (int)draw(3); for (int i = 0; i < k; i++) v.push_back(draw_query(c)); }
  const C03& shared = c;
  if (callers == 1) for (auto& q : work[0]) one_query(shared, q);
  else if (chance(1, 3))
    parallelism::StaticParallelForIndexLoop(DegreeOfParallelism(callers), 0, callers, [&](int32_t, int64_t i) { for (auto& q : work[(size_t)i]) one_query(shared, q); },
        chance(1, 2) ? ParallelForBackend::OPENMP : ParallelForBackend::ASYNC);
  else
  {
    Client cl[4];
    for (int i = 0; i < callers; i++) cl[i].start([&, i]() { for (auto& q : work[(size_t)i]) one_query(shared, q); });
    for (int i = 0; i < callers; i++) cl[i].join();
    probe("simultaneous queries");
  }
  Quiet q;
  const Model now = read(c.g);
  bool same = now.v.size() == c.m.v.size() && now.e == c.m.e;
  for (size_t i = 0; same && i < now.v.size(); i++) same = now.v[i] == c.m.v[i];
  if (!same) fail("roadmap-changed", "read-only queries changed the shared roadmap");
}
}  // namespace

namespace sim
{
const Property kProperties[] = {
  {"C01", run_c01, 40000000, kSchedAll | kRes | bit(F_THROW), true},
  {"C02", run_c02, 40000000, kSchedAll | kRes, true},
  {"C03", run_c03, 40000000, kSchedAll | kRes | bit(F_THROW), true},
};
const size_t kNumProperties = sizeof kProperties / sizeof kProperties[0];
}
