// B03 hierarchical clustering, B04 k-means.
#include "ctx.hpp"
#include <common_robotics_utilities/simple_hierarchical_clustering.hpp>
#include <common_robotics_utilities/simple_kmeans_clustering.hpp>
#include <cmath>
#include <limits>
#include <set>

using namespace sim;
using namespace common_robotics_utilities;
using namespace ctx;
namespace hc = simple_hierarchical_clustering;
namespace km = simple_kmeans_clustering;

namespace
{
struct Pt { double x = 0, y = 0; int64_t id = -1; };

// ---- B03 ------------------------------------------------------------------------------
// Distances and means may be computed with the library itself: what they compute
// is right and the surrounding computation is left alone.
void nested_clusters(int dop)
{
  std::vector<Pt> v(4); const double xs[] = {0, 1, 100, 101.5};
  for (size_t i = 0; i < 4; i++) { v[i].x = xs[i]; v[i].id = (int64_t)i; }
  const std::function<double(const Pt&, const Pt&)> dist = [](const Pt& a, const Pt& b) { return std::fabs(a.x - b.x); };
  const auto r = hc::IndexCluster<Pt>(v, dist, 50.0, hc::ClusterStrategy::COMPLETE_LINK, DegreeOfParallelism(dop));
  bool ok = r.Clusters().size() == 2 && r.FinalClosestDistance() == 1.5;
  for (auto& c : r.Clusters()) ok = ok && c.size() == 2 && c[0] / 2 == c[1] / 2 && c[0] != c[1];
  if (!ok) fail("nested-call", "clustering inside a callback gives %zu clusters, last merge %g", r.Clusters().size(), r.FinalClosestDistance());
}
void nested_means(int dop)
{
  std::vector<Pt> v(4); const double xs[] = {0, 1, 100, 101.5};
  for (size_t i = 0; i < 4; i++) { v[i].x = xs[i]; v[i].id = (int64_t)i; }
  const std::function<double(const Pt&, const Pt&)> dist = [](const Pt& a, const Pt& b) { return std::fabs(a.x - b.x); };
  const std::function<Pt(const std::vector<Pt>&)> mean = [](const std::vector<Pt>& c) { Pt m; for (auto& p : c) m.x += p.x; m.x /= (double)c.size(); return m; };
  const std::vector<int32_t> l = km::Cluster<Pt>(v, dist, mean, 2, 7, false, DegreeOfParallelism(dop));
  if (l.size() != 4 || l[0] != l[1] || l[2] != l[3] || l[0] == l[2]) fail("nested-call", "k-means inside a callback labels %zu items wrongly", l.size());
}

struct HData
{
  std::vector<Pt> pts;
  std::vector<std::vector<double>> d;   // symmetric, zero diagonal
  bool ties = false, slow = false, throws = false; int nested = 0;
  double fn(const Pt& a, const Pt& b) const
  {
    if (slow) yield();
    if (throws && fault(F_THROW)) throw_injected(a.id);
    if (nested && chance(1, 10)) nested_clusters(nested);
    return d[(size_t)a.id][(size_t)b.id];
  }
};
using Partition = std::set<std::set<int64_t>>;
double linkage(const HData& h, const std::set<int64_t>& a, const std::set<int64_t>& b, bool complete)
{
  double mn = std::numeric_limits<double>::infinity(), mx = 0;
  for (int64_t i : a) for (int64_t j : b) { const double v = h.d[(size_t)i][(size_t)j]; mn = std::min(mn, v); mx = std::max(mx, v); }
  return complete ? mx : mn;
}
// textbook agglomeration; unique when no two linkage distances tie
Partition reference(const HData& h, double limit, bool complete, double* last)
{
  std::vector<std::set<int64_t>> c;
  for (size_t i = 0; i < h.pts.size(); i++) c.push_back({(int64_t)i});
  *last = 0;
  for (;;)
  {
    double best = std::numeric_limits<double>::infinity(); size_t bi = 0, bj = 0;
    for (size_t i = 0; i < c.size(); i++) for (size_t j = i + 1; j < c.size(); j++)
    {
      const double v = linkage(h, c[i], c[j], complete);
      if (v < best) { best = v; bi = i; bj = j; }
    }
    if (!(best < std::numeric_limits<double>::infinity()) || best > limit) break;
    *last = best;
    c[bi].insert(c[bj].begin(), c[bj].end());
    c.erase(c.begin() + (long)bj);
  }
  return Partition(c.begin(), c.end());
}
struct HResult { Partition p; double last = -1; bool ok = false; };
HResult one_b03(const HData& h, double limit, bool complete, const DegreeOfParallelism& dop, int api, uint32_t faults, uint64_t wrong = 0)
{
  const auto strategy = complete ? hc::ClusterStrategy::COMPLETE_LINK : hc::ClusterStrategy::SINGLE_LINK;
  const std::function<double(const Pt&, const Pt&)> fn = [&h](const Pt& a, const Pt& b) { return h.fn(a, b); };
  Eigen::MatrixXd m;
  const Eigen::Index n = (Eigen::Index)h.pts.size(); bool bad = h.pts.empty();
  if (api >= 2)
  {
    m.resize(n, n);
    for (Eigen::Index i = 0; i < n; i++) for (Eigen::Index j = 0; j < n; j++) m(i, j) = h.d[(size_t)i][(size_t)j];
    // a matrix that does not fit
    if (wrong & 3) { const long dr = (long)(wrong & 1) * ((wrong & 4) ? -1 : 1), dc = (long)(wrong >> 1 & 1) * ((wrong & 8) ? -1 : 1); const long rr = std::max(0l, (long)n + dr), cc = std::max(0l, (long)n + dc); m = Eigen::MatrixXd::Constant(rr, cc, 1.0); bad = rr == 0 || cc == 0 || rr != cc || (api == 3 && (n == 0 || rr != n)); }
  }
  hc::IndexClusteringResult ir; hc::ClusteringResult<Pt> er; bool refused = false;
  End end; EndCheck ec; std::string msg;
  {
    FaultScope fs(faults);
    end = attempt([&]() {
      try
      {
        switch (api)
        {
          case 0: ir = hc::IndexCluster<Pt>(h.pts, fn, limit, strategy, dop); break;
          case 1: er = hc::Cluster<Pt>(h.pts, fn, limit, strategy, dop); break;
          case 2: ir = hc::IndexClusterWithDistanceMatrix(m, limit, strategy, dop); break;
          default: er = hc::ClusterWithDistanceMatrix<Pt>(h.pts, m, limit, strategy, dop); break;
        }
      }
      catch (const Injected&) { throw; }
      catch (const std::invalid_argument&) { refused = true; }
    }, &msg);
  }
  Quiet q;
  op();
  HResult r;
  if (end != RETURNED) { ec.check(end, "hierarchical clustering", msg); return r; }
  if (refused != bad) fail(refused ? "good-request-refused" : "bad-request-accepted", "clustering of %zu items", h.pts.size());
  if (refused) { if (wrong) probe("wrong matrix refused"); return r; }
  ec.check(end, "hierarchical clustering", msg);
  if (api >= 2 && wrong && (m.rows() != n || m.cols() != n)) return r;      // another, square matrix
  const bool idx = api == 0 || api == 2;
  std::vector<int> seen(h.pts.size(), 0);
  const size_t nc = idx ? ir.Clusters().size() : er.Clusters().size();
  for (size_t k = 0; k < nc; k++)
  {
    std::set<int64_t> s;
    const size_t len = idx ? ir.Clusters()[k].size() : er.Clusters()[k].size();
    if (len == 0) fail("empty-cluster", "cluster %zu of %zu is empty", k, nc);
    for (size_t i = 0; i < len; i++)
    {
      const int64_t id = idx ? ir.Clusters()[k][i] : er.Clusters()[k][i].id;
      if (id < 0 || id >= n) fail("not-a-partition", "item %lld of %lld", (long long)id, (long long)n);
      if (seen[(size_t)id]++) fail("not-a-partition", "item %lld appears twice", (long long)id);
      s.insert(id);
    }
    r.p.insert(s);
  }
  for (Eigen::Index i = 0; i < n; i++) if (!seen[(size_t)i]) fail("not-a-partition", "item %ld is in no cluster", (long)i);
  r.last = idx ? ir.FinalClosestDistance() : er.FinalClosestDistance();
  r.ok = true;
  // stopped exactly when the closest remaining pair exceeds the limit
  std::vector<std::set<int64_t>> c(r.p.begin(), r.p.end());
  for (size_t i = 0; i < c.size(); i++) for (size_t j = i + 1; j < c.size(); j++)
    if (linkage(h, c[i], c[j], complete) <= limit)
      fail("stopped-early", "clusters at linkage distance %g remain, limit %g (dop %d)", linkage(h, c[i], c[j], complete), limit, dop.GetNumThreads());
  if (complete)
    for (auto& s : c) for (int64_t i : s) for (int64_t j : s)
      if (i != j && h.d[(size_t)i][(size_t)j] > limit) fail("limit-exceeded", "items %lld and %lld at %g in one cluster, limit %g", (long long)i, (long long)j, h.d[(size_t)i][(size_t)j], limit);
  double last = 0; const Partition want = reference(h, limit, complete, &last);
  // complete linkage never decreases, so the last merge made the widest cluster
  if (complete)
  {
    double widest = 0; for (auto& s : c) for (int64_t i : s) for (int64_t j : s) widest = std::max(widest, h.d[(size_t)i][(size_t)j]);
    if (!(r.last == widest)) fail("wrong-last-distance", "complete link, %zu items: last merge distance %g, widest cluster %g", h.pts.size(), r.last, widest);
  }
  if (!h.ties || !complete)   // single link: the partition is unique even with ties
  {
    if (r.p != want) fail("wrong-clusters", "%s link, %zu items, limit %g, dop %d: %zu clusters instead of %zu (or other members)", complete ? "complete" : "single", h.pts.size(), limit, dop.GetNumThreads(), r.p.size(), want.size());
    if (!(r.last == last)) fail("wrong-last-distance", "%s link, %zu items, limit %g, dop %d: last merge distance %g instead of %g", complete ? "complete" : "single", h.pts.size(), limit, dop.GetNumThreads(), r.last, last);
  }
  return r;
}
void run_b03()
{
  set_omp_env(random_omp_env());
  HData h;
  const bool vast = chance(1, 300);
  const size_t n = vast ? 262 + draw(25) : chance(1, 6) ? draw(3) : chance(1, 25) ? 12 + draw(20) : chance(1, 120) ? 40 + draw(40) : 1 + draw(11);
  h.pts.resize(n); h.d.assign(n, std::vector<double>(n, 0.0));
  h.ties = !vast && chance(1, 4);
  const bool euclid = vast || chance(1, 2);
  if (vast) probe("more than 256 items");
  {
    for (size_t i = 0; i < n; i++) { h.pts[i].id = (int64_t)i; h.pts[i].x = (double)draw(vast ? 3000 : 30); h.pts[i].y = (double)draw(vast ? 3000 : 30); }
    static const std::vector<double> kScale = {1e-3, 1e-9, 1e-200, 1e6, 1e12, 1e200}; const double scale = chance(1, 2) ? 1.0 : pick(kScale);
    std::vector<double> pool;
    for (size_t i = 0; i < n * n; i++) pool.push_back((double)(i + 1));
    for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++)
    {
      double v;
      if (h.ties) v = (double)draw(4);
      else if (euclid) v = std::hypot(h.pts[i].x - h.pts[j].x, h.pts[i].y - h.pts[j].y) + 1e-4 * (double)(i * n + j);
      else { const size_t k = draw(pool.size()); v = pool[k]; pool.erase(pool.begin() + (long)k); }
      v *= scale;
      h.d[i][j] = h.d[j][i] = v;
    }
    if (!h.ties)
    {
      std::set<double> u; bool dup = false;
      for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) dup |= !u.insert(h.d[i][j]).second;
      if (dup) h.ties = true;
    }
  }
  h.slow = !vast && chance(1, 6); h.throws = !vast && chance(1, 5);
  const uint32_t faults = kSched | (h.throws ? bit(F_THROW) : 0) | (chance(1, 5) ? kRes : 0);
  if (!vast && n < 40 && !(faults & (kRes | bit(F_THROW))) && chance(1, 4)) { h.nested = 1 + (int)draw(3); probe("distance function uses the library"); }
  const int rounds = vast ? 1 : 1 + (int)draw(2);
  for (int k = 0; k < rounds; k++)
  {
    double limit;
    switch (draw(5))
    {
      case 0: limit = std::numeric_limits<double>::infinity(); break;
      case 1: limit = chance(1, 3) ? -1.0 : 0.0; break;
      case 2: case 3: { if (n < 2) { limit = 1; break; } const size_t i = draw(n); size_t j = draw(n); limit = h.d[i][j]; break; }   // exactly on a distance
      default: limit = (double)draw(60); break;
    }
    if (vast)        // a limit that lets only the closest few merge
    {
      std::vector<double> all;
      for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) all.push_back(h.d[i][j]);
      std::sort(all.begin(), all.end());
      limit = all[draw(12)];
    }
    const bool complete = chance(1, 2);
    const Kind kind = (faults & kRes) || h.throws || vast ? PLAIN : draw_kind();
    const DegreeOfParallelism dop = draw_dop(8);
    const int api = (int)draw(4);
    HResult par[4];
    call(kind, kind == PLAIN ? 1 : 2, [&](int who) { HResult r = one_b03(h, limit, complete, dop, api, faults); Quiet q; par[who] = r; });
    if (chance(1, 12)) one_b03(h, limit, complete, dop, 2 + (int)draw(2), 0, 1 + draw(15));
    const HResult ser = one_b03(h, limit, complete, DegreeOfParallelism(1), (int)draw(4), 0);
    Quiet q;
    for (auto& r : par)
      if (r.ok && ser.ok && (r.p != ser.p || r.last != ser.last))
        fail("schedule-dependent", "%s link, %zu items, limit %g: dop %d gives %zu clusters, last %g; serial %zu, last %g", complete ? "complete" : "single", n, limit, dop.GetNumThreads(), r.p.size(), r.last, ser.p.size(), ser.last);
    if (h.ties) probe("tied distances");
    if (ser.ok && ser.p.size() < n && ser.p.size() > 1) probe("some but not all items merged");
  }
}

// ---- B04 ------------------------------------------------------------------------------
struct KCfg
{
  std::vector<Pt> data; std::vector<double> w;
  bool weighted = false, squared = false, slow = false, throws = false, prelim = false, logs = false; int nested = 0;
  int k = 0; int64_t seed = 0;
};
double pt_dist(const KCfg& c, const Pt& a, const Pt& b)
{
  const double dx = a.x - b.x, dy = a.y - b.y, s = dx * dx + dy * dy;
  return c.squared ? s : std::sqrt(s);
}
Pt pt_mean(const std::vector<Pt>& v, const std::vector<double>* w)
{
  Pt m; double t = 0;
  for (size_t i = 0; i < v.size(); i++) { const double k = w ? (*w)[i] : 1.0; m.x += k * v[i].x; m.y += k * v[i].y; t += k; }
  if (t == 0) { m.x = m.y = 1e7; return m; }   // an empty cluster attracts nothing
  m.x /= t; m.y /= t;
  return m;
}
struct KResult { bool ok = false, refused = false; std::vector<int32_t> labels; };
KResult one_b04(const KCfg& c, const DegreeOfParallelism& dop, uint32_t faults)
{
  const std::function<double(const Pt&, const Pt&)> dist = [&c](const Pt& a, const Pt& b)
  {
    if (c.slow) yield();
    if (c.throws && fault(F_THROW)) throw_injected(1);
    if (c.nested && chance(1, 40)) nested_means(c.nested);
    return pt_dist(c, a, b);
  };
  const std::function<Pt(const std::vector<Pt>&)> mean = [&c](const std::vector<Pt>& v)
  { if (c.throws && fault(F_THROW)) throw_injected(2); if (c.nested && chance(1, 6)) nested_means(c.nested); return pt_mean(v, nullptr); };
  const std::function<Pt(const std::vector<Pt>&, const std::vector<double>&)> wmean = [&c](const std::vector<Pt>& v, const std::vector<double>& w)
  {
    if (c.throws && fault(F_THROW)) throw_injected(3);
    if (v.size() != w.size()) fail("weights-mismatch", "%zu items averaged with %zu weights", v.size(), w.size());
    for (size_t i = 0; i < v.size(); i++)
      if (v[i].id >= 0 && w[i] != c.w[(size_t)v[i].id]) fail("weights-mismatch", "item %lld of weight %g averaged with weight %g", (long long)v[i].id, c.w[(size_t)v[i].id], w[i]);
    return pt_mean(v, &w);
  };
  const utility::LoggingFunction logger = [&c](const std::string&) { if (c.slow) yield(); if (c.throws && fault(F_THROW)) throw_injected(4); };
  KResult r;
  End end; EndCheck ec; std::string msg;
  {
    FaultScope fs(faults);
    end = attempt([&]() {
      if (c.weighted) r.labels = km::ClusterWeighted<Pt>(c.data, c.w, dist, wmean, c.k, c.seed, c.prelim, dop, c.logs ? logger : utility::LoggingFunction());
      else if (c.logs) r.labels = km::Cluster<Pt>(c.data, dist, mean, c.k, c.seed, c.prelim, dop, logger);
      else r.labels = km::Cluster<Pt>(c.data, dist, mean, c.k, c.seed, c.prelim, dop);
    }, &msg);
  }
  Quiet q;
  op();
  const bool bad = !c.data.empty() && (c.k <= 0 || (size_t)c.k > c.data.size());
  if (bad)
  {
    if (end == RETURNED) fail("bad-request-accepted", "%d clusters of %zu items", c.k, c.data.size());
    r.refused = true;
    probe("impossible request refused");
    return r;
  }
  if (end == STDEXC && c.data.empty()) { r.refused = true; return r; }
  ec.check(end, "k-means clustering", msg);
  if (end != RETURNED) return r;
  r.ok = true;
  const size_t n = c.data.size();
  if (r.labels.size() != n) fail("wrong-label-count", "%zu labels for %zu items", r.labels.size(), n);
  for (size_t i = 0; i < n; i++) if (r.labels[i] < 0 || r.labels[i] >= std::max(1, c.k)) fail("label-out-of-range", "label %d of %d", r.labels[i], c.k);
  // a fixed point: each item carries the label of its closest centre
  if (n == 0) return r;
  std::vector<Pt> centers;
  for (int k = 0; k < c.k; k++)
  {
    std::vector<Pt> v; std::vector<double> w;
    for (size_t i = 0; i < n; i++) if (r.labels[i] == k) { v.push_back(c.data[i]); w.push_back(c.w[i]); }
    centers.push_back(pt_mean(v, c.weighted ? &w : nullptr));
  }
  for (size_t i = 0; i < n; i++)
  {
    const double own = pt_dist(c, c.data[i], centers[(size_t)r.labels[i]]);
    for (int k = 0; k < c.k; k++)
      if (pt_dist(c, c.data[i], centers[(size_t)k]) < own - 1e-9 * (1 + own))
        fail("not-closest-centre", "item %zu has label %d at %g but centre %d is at %g (n=%zu k=%d dop=%d)", i, r.labels[i], own, k, pt_dist(c, c.data[i], centers[(size_t)k]), n, c.k, dop.GetNumThreads());
  }
  return r;
}
// The steps the loop is made of, which are public too.
void b04_steps()
{
  KCfg c;
  c.squared = chance(1, 2);
  const size_t n = draw(30);
  c.k = 1 + (int)draw(5);
  for (size_t i = 0; i < n; i++) { Pt p; p.x = (double)draw(50); p.y = (double)draw(50); p.id = (int64_t)i; c.data.push_back(p); c.w.push_back(1.0 + (double)draw(4)); }
  std::vector<Pt> centers((size_t)c.k);
  for (auto& p : centers) { p.x = (double)draw(50); p.y = (double)draw(50); }
  std::vector<int32_t> labels(n);
  for (auto& l : labels) l = (int32_t)draw((uint64_t)c.k);
  const DegreeOfParallelism dop = draw_dop(6);
  const uint32_t faults = kSched | (chance(1, 4) ? kRes : 0);
  const std::function<double(const Pt&, const Pt&)> dist = [&c](const Pt& a, const Pt& b) { return pt_dist(c, a, b); };
  const std::function<Pt(const std::vector<Pt>&, const std::vector<double>&)> wmean = [](const std::vector<Pt>& v, const std::vector<double>& w) { return pt_mean(v, &w); };
  {
    EndCheck ec; std::string msg; End end; std::vector<int32_t> got;
    { FaultScope fs(faults); end = attempt([&]() { got = km::PerformSingleClusteringIteration<Pt>(c.data, centers, dist, dop); }, &msg); }
    Quiet q; op();
    ec.check(end, "one k-means step", msg);
    if (end == RETURNED)
    {
      if (got.size() != n) fail("wrong-label-count", "one step gives %zu labels for %zu items", got.size(), n);
      for (size_t i = 0; i < n; i++)
      {
        if (got[i] < 0 || got[i] >= c.k) fail("label-out-of-range", "label %d of %d in one step", got[i], c.k);
        for (int k = 0; k < c.k; k++) if (pt_dist(c, c.data[i], centers[(size_t)k]) < pt_dist(c, c.data[i], centers[(size_t)got[i]])) fail("not-closest-centre", "one step gives item %zu label %d though centre %d is closer", i, got[i], k);
      }
      probe("single clustering step");
    }
  }
  {
    std::vector<int32_t> given = labels;
    const bool bad = chance(1, 5);
    if (bad) { if (chance(1, 2) || given.empty()) given.push_back(0); else given.pop_back(); }
    EndCheck ec; std::string msg; End end; std::vector<Pt> got;
    { FaultScope fs(faults); end = attempt([&]() { got = km::ComputeClusterCentersWeighted<Pt>(c.data, c.w, given, wmean, c.k, dop); }, &msg); }
    Quiet q; op();
    if (bad) { if (end == RETURNED) fail("bad-request-accepted", "%zu labels for %zu items accepted when computing centres", given.size(), n); }
    else
    {
      ec.check(end, "computing k-means centres", msg);
      if (end == RETURNED)
      {
        if (got.size() != (size_t)c.k) fail("wrong-centres", "%zu centres of %d", got.size(), c.k);
        for (int k = 0; k < c.k; k++)
        {
          std::vector<Pt> v; std::vector<double> w;
          for (size_t i = 0; i < n; i++) if (labels[i] == k) { v.push_back(c.data[i]); w.push_back(c.w[i]); }
          const Pt want = pt_mean(v, &w);
          if (std::fabs(want.x - got[(size_t)k].x) > 1e-9 * (1 + std::fabs(want.x)) || std::fabs(want.y - got[(size_t)k].y) > 1e-9 * (1 + std::fabs(want.y)))
            fail("wrong-centres", "centre %d is (%g, %g), not (%g, %g)", k, got[(size_t)k].x, got[(size_t)k].y, want.x, want.y);
        }
        probe("centres computed");
      }
    }
  }
  {
    std::vector<int32_t> other = labels;
    const int what = (int)draw(3);
    if (what == 1 && n) { int32_t& l = other[draw(n)]; l = l + 1; }
    if (what == 2) { if (chance(1, 2) || other.empty()) other.push_back(0); else other.pop_back(); }
    std::string msg; bool same = false;
    const End end = attempt([&]() { same = km::CheckForConvergence(labels, other); }, &msg);
    Quiet q; op();
    if (what == 2) { if (end != STDEXC) fail("bad-request-accepted", "label vectors of %zu and %zu items compared", labels.size(), other.size()); }
    else if (end != RETURNED || same != (labels == other)) fail("wrong-convergence", "equal label vectors: %d, reported %d", labels == other, same);
  }
}
void run_b04()
{
  set_omp_env(random_omp_env());
  if (chance(1, 12)) { b04_steps(); return; }
  KCfg c;
  c.prelim = chance(1, 3);
  size_t n = chance(1, 8) ? draw(4) : 2 + draw(20);
  c.k = 1 + (int)draw(5);
  if (c.prelim && chance(1, 2)) { c.k = 2; n = 73 + draw(10); probe("enough items for preliminary clustering"); }
  else if (chance(1, 6)) c.k = (int)n + (int)range(-1, 2);
  else if (chance(1, 12)) c.k = (int)range(-2, 0);
  const bool vast = chance(1, 250);
  const bool large = vast || chance(1, 60), twins = chance(1, 8);
  if (large) { n = 200 + draw(420); c.k = 2 + (int)draw(5); probe("many items"); }
  if (vast) { n = 270 + draw(40); c.k = 258 + (int)draw(12); probe("more than 256 clusters"); }
  std::set<std::pair<int, int>> used;
  while (c.data.size() < n)
  {
    Pt p; int x, y, tries = 0;
    do { x = (int)draw(large ? 4000 : 40); y = (int)draw(large ? 30 : 40); if (++tries > 30) { x = 1000 + (int)c.data.size(); y = 3; } } while (!used.insert({x, y}).second && !twins);
    p.x = x; p.y = y; p.id = (int64_t)c.data.size();
    c.data.push_back(p); c.w.push_back(1.0 + (double)draw(4));
  }
  c.weighted = chance(1, 2); c.squared = chance(1, 2);
  c.slow = n < 40 && chance(1, 6); c.throws = chance(1, 6);
  c.seed = range(-3, 1000); c.logs = chance(1, 5);
  if (twins) for (size_t i = 1; i < n; i++) if (chance(1, 4)) { c.data[i].x = c.data[i - 1].x; c.data[i].y = c.data[i - 1].y; probe("items that coincide"); }
  const uint32_t faults = kSched | (c.throws ? bit(F_THROW) : 0) | (chance(1, 6) ? kRes : 0);
  if (n <= 40 && !(faults & (kRes | bit(F_THROW))) && chance(1, 4)) { c.nested = 1 + (int)draw(3); probe("callbacks use the library"); }
  const Kind kind = (faults & kRes) || c.throws || n > 40 ? PLAIN : draw_kind();
  const DegreeOfParallelism dop = draw_dop(8);
  KResult par[4];
  call(kind, kind == PLAIN ? 1 : 2, [&](int who) { KResult r = one_b04(c, dop, faults); Quiet q; par[who] = r; });
  const bool was = c.throws; c.throws = false;
  const KResult ser = one_b04(c, DegreeOfParallelism(1), 0);
  c.throws = was;
  Quiet q;
  for (auto& r : par)
    if (r.ok && ser.ok && r.labels != ser.labels)
      fail("schedule-dependent", "k-means of %zu items into %d with seed %lld: dop %d labels differ from serial labels", n, c.k, (long long)c.seed, dop.GetNumThreads());
}
}  // namespace

namespace sim
{
const Property kProperties[] = {
  {"B03", run_b03, 40000000, kSchedAll | kRes | bit(F_THROW), true},
  {"B04", run_b04, 80000000, kSchedAll | kRes | bit(F_THROW), true},
};
const size_t kNumProperties = sizeof kProperties / sizeof kProperties[0];
}
