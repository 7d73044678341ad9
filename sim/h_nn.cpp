// B01 nearest neighbours, B02 Hausdorff distances and distance matrices.
#include "ctx.hpp"
#include <common_robotics_utilities/math.hpp>
#include <common_robotics_utilities/simple_hausdorff_distance.hpp>
#include <common_robotics_utilities/simple_knearest_neighbors.hpp>
#include <cmath>
#include <deque>
#include <limits>

using namespace sim;
using namespace common_robotics_utilities;
using namespace ctx;
namespace knn = simple_knearest_neighbors;

namespace
{
struct Item
{
  int64_t v = 0; int64_t id = 0;
};
// shared by both properties: how distances are computed and what they may do
struct Metric
{
  int kind = 0; double scale = 1;
  bool slow = false, throws = false;
  int nested = 0;                                      // >0: sometimes uses the library itself, with that many threads
  double pure(const Item& a, const Item& b) const { return scale * raw(a, b); }
  double raw(const Item& a, const Item& b) const
  {
    const double d = (double)std::llabs(a.v - b.v);
    switch (kind)
    {
      case 0: return d;
      case 1: return d * d * 0.125;
      case 2: return std::floor(d / 4);                // many ties
      case 3: return (double)(((uint64_t)(a.id * 2654435761u) ^ (uint64_t)(b.id * 40503u)) % 101) / 7.0;  // asymmetric
      case 4: return d > 40 ? std::numeric_limits<double>::infinity() : d;
      default: return 1.0;
    }
  }
  double operator()(const Item& a, const Item& b) const
  {
    if (slow) yield();
    if (throws && fault(F_THROW)) throw_injected(a.id);
    if (nested > 0 && (a.id * 7 + b.id * 3 + a.v) % 5 == 0) reenter(a, b);
    return pure(a, b);
  }
  void reenter(const Item& a, const Item& b) const;
};
std::vector<Item> draw_items(size_t n, int64_t base)
{
  std::vector<Item> v(n);
  const int spread = chance(1, 3) ? 5 : 120;
  if (n > 4000)      // very many items: one draw decides them all
  {
    uint64_t s = 1 + draw(1u << 30);
    for (size_t i = 0; i < n; i++) { s = s * 6364136223846793005ull + 1442695040888963407ull; v[i].v = (int64_t)((s >> 33) % 40000); v[i].id = base + (int64_t)i; }
  }
  else for (size_t i = 0; i < n; i++) { v[i].v = (int64_t)draw((uint64_t)spread); v[i].id = base + (int64_t)i; }
  // sorted or locally clustered: the closest items then sit next to each other
  const int shape = (int)draw(6);
  auto less = [](const Item& a, const Item& b) { return a.v < b.v; };
  if (shape == 1) std::sort(v.begin(), v.end(), less);
  else if (shape == 2) std::sort(v.rbegin(), v.rend(), less);
  else if (shape == 3 && n > 4)
  {
    std::sort(v.begin(), v.end(), less);
    std::rotate(v.begin(), v.begin() + (long)draw(n), v.end());
  }
  return v;
}
// A distance may itself be computed with the library: what it computes is right
// and leaves the surrounding computation alone.
void Metric::reenter(const Item& a, const Item& b) const
{
  namespace hd = simple_hausdorff_distance;
  Metric plain; plain.kind = 0;
  const std::function<double(const Item&, const Item&)> fn = std::cref(plain);
  std::vector<Item> s, t;
  { Quiet q; for (int64_t i = 0; i < 3; i++) { Item x; x.v = a.v + 7 * i; x.id = i; s.push_back(x); x.v = b.v + 5 * i * i; t.push_back(x); } }
  const DegreeOfParallelism dop(nested);
  const int what = (int)((a.id + b.id) % 3);
  double got = 0, want = 0;
  if (what == 0)
  {
    got = hd::ComputeDistance<Item, Item>(s, t, fn, dop);
    Quiet q;
    for (auto& x : s) { double mn = 1e18; for (auto& y : t) mn = std::min(mn, plain.pure(x, y)); want = std::max(want, mn); }
  }
  else if (what == 1)
  {
    const auto r = knn::GetKNearestNeighbors<Item, Item>(s, b, fn, 1, dop);
    Quiet q;
    want = 1e18; for (auto& x : s) want = std::min(want, plain.pure(x, b));
    got = r.size() == 1 ? r[0].Distance() : -1;
  }
  else
  {
    const Eigen::MatrixXd m = math::BuildPairwiseDistanceMatrix<Item, Item>(s, t, fn, dop);
    Quiet q;
    for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < 3; j++) { got += (double)(i * 3 + j + 1) * m((Eigen::Index)i, (Eigen::Index)j); want += (double)(i * 3 + j + 1) * plain.pure(s[i], t[j]); }
  }
  if (got != want) fail("nested-call", "a %s computed inside a distance function is %g instead of %g", what == 0 ? "Hausdorff distance" : what == 1 ? "nearest neighbour" : "distance matrix", got, want);
}
double draw_scale() { static const std::vector<double> k = {1e-3, 1e-9, 1e-150, 1e-300, 1e7, 1e12, 1e300, 0.25}; return chance(1, 2) ? 1.0 : pick(k); }
size_t draw_size(size_t max) { return chance(1, 4) ? draw(4) : chance(1, 12) ? draw(8 * max + 1) : draw(max + 1); }

// ---- B01 ------------------------------------------------------------------------------
template <typename C>
void one_query(const C& items, size_t lo, size_t hi, const Item& q, const Metric& m, int64_t K,
               const DegreeOfParallelism& dop, int api, uint32_t faults)
{
  std::vector<knn::IndexAndDistance> got;
  const std::function<double(const Item&, const Item&)> fn = std::cref(m);
  End end; EndCheck ec; std::string msg;
  bool refused = false;
  {
    FaultScope fs(faults);
    end = attempt([&]() {
      try
      {
        switch (api)
        {
          case 0: got = knn::GetKNearestNeighborsInRange<Item, Item, C>(items, lo, hi, q, fn, K, dop); break;
          case 1: got = knn::GetKNearestNeighborsInRangeParallel<Item, Item, C>(items, lo, hi, q, fn, K, dop); break;
          case 2: got = knn::GetKNearestNeighborsInRangeSerial<Item, Item, C>(items, lo, hi, q, fn, K); break;
          case 3: got = knn::GetKNearestNeighbors<Item, Item, C>(items, q, fn, K, dop); break;
          case 4: got = knn::GetKNearestNeighborsParallel<Item, Item, C>(items, q, fn, K, dop); break;
          default: got = knn::GetKNearestNeighborsSerial<Item, Item, C>(items, q, fn, K); break;
        }
      }
      catch (const Injected&) { throw; }
      catch (const std::invalid_argument&) { refused = true; }
    }, &msg);
  }
  Quiet quiet;
  if (api >= 3) { lo = 0; hi = items.size(); }
  const bool bad = hi < lo || hi > items.size() || K < 0;
  op();
  if (end != RETURNED) { ec.check(end, "nearest-neighbour search", msg); return; }
  if (refused != bad) fail(bad ? "bad-request-accepted" : "good-request-refused", "range [%zu,%zu) of %zu, K=%lld, api %d", lo, hi, items.size(), (long long)K, api);
  if (bad) { probe("bad request refused"); return; }
  ec.check(end, "nearest-neighbour search", msg);
  std::vector<double> want;
  for (size_t i = lo; i < hi; i++) want.push_back(m.pure(items[i], q));
  std::sort(want.begin(), want.end());
  const size_t expect = std::min<size_t>(want.size(), (size_t)std::min<int64_t>(K, 1 << 30));
  if (got.size() != expect) fail("wrong-count", "api %d dop %d range [%zu,%zu) K=%lld: %zu results instead of %zu", api, dop.GetNumThreads(), lo, hi, (long long)K, got.size(), expect);
  std::vector<double> have; std::vector<int64_t> idx;
  for (auto& g : got)
  {
    if (g.Index() < (int64_t)lo || g.Index() >= (int64_t)hi) fail("outside-range", "api %d dop %d: result index %lld outside [%zu,%zu)", api, dop.GetNumThreads(), (long long)g.Index(), lo, hi);
    if (g.Distance() != m.pure(items[(size_t)g.Index()], q)) fail("wrong-distance", "api %d: index %lld reported at %g, is at %g", api, (long long)g.Index(), g.Distance(), m.pure(items[(size_t)g.Index()], q));
    have.push_back(g.Distance()); idx.push_back(g.Index());
  }
  std::sort(idx.begin(), idx.end());
  for (size_t i = 1; i < idx.size(); i++) if (idx[i] == idx[i - 1]) fail("duplicate", "api %d dop %d: index %lld twice", api, dop.GetNumThreads(), (long long)idx[i]);
  if (K < (int64_t)(hi - lo))
    for (size_t i = 1; i < have.size(); i++) if (have[i] < have[i - 1]) fail("not-ordered", "api %d dop %d: distance %g after %g", api, dop.GetNumThreads(), have[i], have[i - 1]);
  std::sort(have.begin(), have.end());
  for (size_t i = 0; i < have.size(); i++)
    if (have[i] != want[i]) fail("not-nearest", "api %d dop %d range [%zu,%zu) K=%lld: result %zu at distance %g, nearest available %g", api, dop.GetNumThreads(), lo, hi, (long long)K, i, have[i], want[i]);
}
void run_b01()
{
  set_omp_env(random_omp_env());
  const bool vast = chance(1, 250);
  const size_t n = vast ? 65530 + draw(4000) : draw_size(60);
  if (vast) probe("more than 65536 items");
  const std::vector<Item> items = draw_items(n, 0);
  const std::deque<Item> ditems(items.begin(), items.end());
  Metric m; m.kind = (int)draw(6); m.scale = draw_scale(); m.slow = !vast && chance(1, 5); m.throws = !vast && chance(1, 4);
  if (n <= 16 && !m.throws && chance(1, 4)) { m.nested = 1 + (int)draw(3); probe("distance function uses the library"); }
  const uint32_t faults = kSched | (m.throws ? bit(F_THROW) : 0) | (!m.nested && chance(1, 5) ? kRes : 0);
  const int queries = vast ? 1 : 1 + (int)draw(3);
  for (int k = 0; k < queries; k++)
  {
    size_t lo = 0, hi = n;
    if (chance(1, 2)) { lo = draw(n + 1); hi = lo + draw(n - lo + 1); }
    if (chance(1, 25)) hi = n + 1 + draw(3);
    if (chance(1, 25)) { lo = hi + 1 + draw(2); }
    const size_t sz = hi >= lo ? hi - lo : 0;
    int64_t K;
    switch (draw(6))
    {
      case 0: K = (int64_t)draw(3); break;
      case 1: K = std::max<int64_t>(0, (int64_t)sz + range(-1, 1)); break;
      case 2: K = chance(1, 6) ? -1 : chance(1, 5) ? (chance(1, 2) ? std::numeric_limits<int64_t>::max() - (int64_t)draw(3) : ((int64_t)1 << (8 * (1 + draw(7)))) + (int64_t)draw(3)) : (int64_t)sz + (int64_t)draw(100); break;
      default: K = (int64_t)draw(sz + 1); break;
    }
    if (vast && chance(2, 3)) { lo = draw(60); hi = n; if (chance(2, 3)) K = chance(1, 2) ? (int64_t)draw(200) : 65536 + range(-2, 40); }
    Item q; q.v = (int64_t)draw(vast ? 40000 : 120); q.id = 1000;
    const DegreeOfParallelism dop = draw_dop(vast ? 4 : 9);
    const int api = chance(2, 3) ? (int)draw(2) : 2 + (int)draw(4);
    const bool deq = chance(1, 4);
    const Kind kind = (faults & kRes) || m.throws ? PLAIN : draw_kind();
    if (kind == IN_OMP_LOOP) probe("search inside an OpenMP region");
    if (kind == IN_ASYNC_LOOP) probe("search inside an async loop");
    if (kind == TWO_CALLERS) probe("concurrent searches");
    call(kind, kind == PLAIN ? 1 : 2 + (int)draw(2), [&](int) {
      if (deq) one_query(ditems, lo, hi, q, m, K, dop, api, faults);
      else one_query(items, lo, hi, q, m, K, dop, api, faults);
    });
    if (live_threads() > 200) break;
  }
}

// ---- B02 ------------------------------------------------------------------------------
double hausdorff(const std::vector<Item>& a, const std::vector<Item>& b, const Metric& m)
{
  double mx = 0;
  for (auto& x : a)
  {
    double mn = std::numeric_limits<double>::infinity();
    for (auto& y : b) mn = std::min(mn, m.pure(x, y));
    mx = std::max(mx, mn);
  }
  return mx;
}
void one_b02(const std::vector<Item>& a, const std::vector<Item>& b, const std::deque<Item>& da, const std::deque<Item>& db,
             const Metric& m, const DegreeOfParallelism& dop, int api, uint32_t faults)
{
  namespace hd = simple_hausdorff_distance;
  const std::function<double(const Item&, const Item&)> fn = std::cref(m);
  Metric sym = m; if (sym.kind == 3) sym.kind = 0;
  const std::function<double(const Item&, const Item&)> sfn = std::cref(sym);
  Eigen::MatrixXd given;
  if (api == 2 || api == 3)
  {
    given.resize((Eigen::Index)a.size(), (Eigen::Index)b.size());
    for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) given((Eigen::Index)i, (Eigen::Index)j) = m.pure(a[i], b[j]);
    if (api == 3) { const auto h = b.size() % 3; given.conservativeResize(given.rows() + (h == 1 ? 0 : a.size() % 2 && given.rows() > 1 ? -1 : 1), given.cols() + (h == 0 ? 0 : a.size() % 3 == 0 && given.cols() > 1 ? -1 : 1)); }
  }
  double got = -1; Eigen::MatrixXd mat; bool refused = false;
  End end; EndCheck ec; std::string msg;
  {
    FaultScope fs(faults);
    end = attempt([&]() {
      try
      {
        switch (api)
        {
          case 0: got = hd::ComputeDistance<Item, Item>(a, b, fn, dop); break;
          case 1: got = hd::ComputeDistance<Item, Item, std::deque<Item>, std::deque<Item>>(da, db, fn, dop); break;
          case 2: case 3: got = hd::ComputeDistance<Item, Item>(a, b, given, dop); break;
          case 4: mat = math::BuildPairwiseDistanceMatrix<Item>(a, sfn, dop); break;
          case 5: mat = math::BuildPairwiseDistanceMatrix<Item, Item>(a, b, fn, dop); break;
          default: mat = math::BuildPairwiseDistanceMatrix<Item, Item, std::deque<Item>, std::deque<Item>>(da, db, fn, dop); break;
        }
      }
      catch (const Injected&) { throw; }
      catch (const std::invalid_argument&) { refused = true; }
    }, &msg);
  }
  Quiet q;
  op();
  static const char* names[] = {"hausdorff(fn)", "hausdorff(fn, deque)", "hausdorff(matrix)", "hausdorff(wrong matrix)", "distance matrix", "two-set distance matrix", "two-set distance matrix (deque)"};
  if (end != RETURNED) { ec.check(end, names[api], msg); return; }
  const bool bad = (api <= 3 && (a.empty() || b.empty())) || api == 3;
  if (refused != bad) fail(bad ? "bad-request-accepted" : "good-request-refused", "%s sizes %zu %zu", names[api], a.size(), b.size());
  if (bad) return;
  ec.check(end, names[api], msg);
  if (api <= 2)
  {
    const double want = hausdorff(a, b, m);
    if (!(got == want)) fail("wrong-hausdorff", "%s dop %d sizes %zu x %zu: %g instead of %g", names[api], dop.GetNumThreads(), a.size(), b.size(), got, want);
    return;
  }
  const bool self = api == 4;
  const size_t R = a.size(), C = self ? a.size() : b.size();
  if ((size_t)mat.rows() != R || (size_t)mat.cols() != C) fail("wrong-shape", "%s is %ld x %ld instead of %zu x %zu", names[api], (long)mat.rows(), (long)mat.cols(), R, C);
  for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++)
  {
    const double want = self ? (i == j ? 0.0 : sym.pure(a[i], a[j])) : m.pure(a[i], b[j]);
    const double v = mat((Eigen::Index)i, (Eigen::Index)j);
    if (!(v == want)) fail("wrong-entry", "%s dop %d: entry (%zu,%zu) of %zu x %zu is %g instead of %g", names[api], dop.GetNumThreads(), i, j, R, C, v, want);
  }
}
void run_b02()
{
  set_omp_env(random_omp_env());
  const std::vector<Item> a = draw_items(chance(1, 50) ? 250 + draw(50) : draw_size(24), 0), b = draw_items(chance(1, 50) ? 250 + draw(50) : draw_size(24), 100);
  if (a.size() > 256 || b.size() > 256) probe("more than 256 items");
  const std::deque<Item> da(a.begin(), a.end()), db(b.begin(), b.end());
  Metric m; m.kind = (int)draw(6); m.scale = draw_scale(); m.slow = chance(1, 6); m.throws = chance(1, 4);
  if (a.size() * b.size() <= 120 && !m.throws && chance(1, 4)) { m.nested = 1 + (int)draw(3); probe("distance function uses the library"); }
  const uint32_t faults = kSched | (m.throws ? bit(F_THROW) : 0) | (!m.nested && chance(1, 5) ? kRes : 0);
  const int queries = 1 + (int)draw(3);
  for (int k = 0; k < queries; k++)
  {
    const DegreeOfParallelism dop = draw_dop(9);
    const int api = (int)draw(7);
    const bool swap = chance(1, 2);
    const Kind kind = (faults & kRes) || m.throws ? PLAIN : draw_kind();
    if (kind == IN_OMP_LOOP) probe("call inside an OpenMP region");
    if (kind == TWO_CALLERS) probe("concurrent calls");
    call(kind, kind == PLAIN ? 1 : 2, [&](int) {
      if (swap) one_b02(b, a, db, da, m, dop, api, faults);
      else one_b02(a, b, da, db, m, dop, api, faults);
    });
  }
}
}  // namespace

namespace sim
{
const Property kProperties[] = {
  {"B01", run_b01, 100000000, kSchedAll | kRes | bit(F_THROW), true},
  {"B02", run_b02, 15000000, kSchedAll | kRes | bit(F_THROW), true},
};
const size_t kNumProperties = sizeof kProperties / sizeof kProperties[0];
}
