// I02 trajectory clones and query history, I03 reusable sequence aligner.
#include "ctx.hpp"
#include <common_robotics_utilities/simple_dtw.hpp>
#include <common_robotics_utilities/time_optimal_trajectory_parametrization.hpp>
#include <cmath>
#include <cstring>
#include <deque>
#include <limits>
#include <map>
#include <memory>

using namespace sim;
using namespace common_robotics_utilities;
using namespace ctx;
namespace tp = time_optimal_trajectory_parametrization;

namespace
{
// Allocations fail only inside the library calls.
template <typename F>
End tried(uint32_t faults, const F& f, std::string* msg) { FaultScope fs(faults); return attempt(f, msg); }

uint64_t h2(uint64_t a, uint64_t b) { return mix(mix(0x7a41, a), b); }
constexpr double kInf = std::numeric_limits<double>::infinity();

// ===== I02 =====================================================================
using Traj = tp::PositionVelocityTrajectoryInterface;
using TrajPtr = std::unique_ptr<Traj>;
struct Spec
{
  std::vector<Eigen::VectorXd> path; Eigen::VectorXd vel, acc; double dev = 0, dt = 0;
  TrajPtr make() const { return tp::ParametrizePathTOTP(path, vel, acc, dev, dt); }
};
Spec draw_spec()
{
  Spec s;
  const int dim = 1 + (int)draw(3), n = dim == 1 ? 2 : 2 + (int)draw(chance(1, 12) ? 18 : 3);
  Eigen::VectorXd p = Eigen::VectorXd::Zero(dim);
  for (int i = 0; i < dim; i++) p[i] = (double)range(-2, 2) * 0.05;
  s.path.push_back(p);
  int last_axis = -1;
  for (int k = 1; k < n; k++)
  {
    // the path never turns back on itself, so that it has a parametrisation
    int axis = (int)draw((uint64_t)dim); if (axis == last_axis && dim > 1) axis = (axis + 1) % dim;
    for (int i = 0; i < dim; i++) p[i] += i == axis ? 0.04 + 0.04 * unit() : (i == last_axis ? 0.0 : 0.01 * unit());
    last_axis = axis;
    s.path.push_back(p);
  }
  s.vel = Eigen::VectorXd::Zero(dim); s.acc = s.vel;
  for (int i = 0; i < dim; i++) { s.vel[i] = 0.2 + unit(); s.acc[i] = 0.2 + unit(); }
  s.dev = n == 2 ? (chance(1, 2) ? 0.0 : 0.01) : 0.004 + 0.02 * unit();
  s.dt = chance(1, 2) ? 0.02 : 0.05;
  return s;
}
struct Answer { bool threw = false; std::vector<double> v; };
bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
Answer read(const tp::PositionVelocityTimePoint& p, double t)
{
  Answer a;
  if (!same(p.Time(), t)) fail("wrong-time", "asked for time %.17g, answered for %.17g", t, p.Time());
  for (int i = 0; i < p.Position().size(); i++) a.v.push_back(p.Position()[i]);
  for (int i = 0; i < p.Velocity().size(); i++) a.v.push_back(p.Velocity()[i]);
  return a;
}
struct Query { double t = 0; Answer want; };
enum TKind { ASK, CLONE, DROP, DURATION, T_OPS };
struct TOp { TKind k = ASK; uint64_t a = 0, b = 0; };

void use(std::vector<TrajPtr>& mine, const std::vector<TOp>& ops, const std::vector<Query>& qs, double duration, int me, uint32_t faults)
{
  uint64_t trail = (uint64_t)me;
  for (const TOp& o : ops)
  {
    if (mine.empty()) return;
    const size_t at = o.a % mine.size();
    switch (o.k)
    {
      case ASK:
      {
        const Query& q = qs[o.b % qs.size()];
        EndCheck ec; std::string msg; Answer got;
        const End e = tried(faults, [&]() {
          const tp::PositionVelocityTimePoint p = mine[at]->GetPositionVelocityTimePoint(q.t);
          Quiet qq; got = read(p, q.t);
        }, &msg);
        Quiet qq; op(); event("ask", (int64_t)at, (int64_t)(o.b % qs.size())); trail = h2(trail, o.b % qs.size()); state(h2(trail, mine.size()));
        if (e == STDEXC) got.threw = true; else ec.check(e, "a query", msg);
        if (e == RETURNED || e == STDEXC)
        {
          if (got.threw != q.want.threw) fail("history-dependent", "caller %d, time %.17g: query %s, on a fresh trajectory it %s", me, q.t, got.threw ? "threw" : "answered", q.want.threw ? "throws" : "answers");
          if (got.v.size() != q.want.v.size()) fail("history-dependent", "caller %d, time %.17g: answer of another size", me, q.t);
          for (size_t i = 0; i < got.v.size(); i++) if (!same(got.v[i], q.want.v[i]))
            fail("history-dependent", "caller %d, time %.17g of %.17g: component %zu is %.17g, on a fresh trajectory it is %.17g", me, q.t, duration, i, got.v[i], q.want.v[i]);
        }
        else probe("query ran out of memory");
        break;
      }
      case CLONE:
      {
        if (mine.size() >= 4) break;
        EndCheck ec; std::string msg; TrajPtr c;
        const End e = tried(faults, [&]() { c = mine[at]->Clone(); }, &msg);
        Quiet qq; op(); event("clone", (int64_t)at, e);
        ec.check(e, "Clone", msg);
        if (e != RETURNED) { probe("clone ran out of memory"); break; }
        if (!c) fail("no-clone", "Clone returned nothing");
        if (o.b % 3 == 0) std::swap(mine[at], c);
        mine.push_back(std::move(c));
        break;
      }
      case DROP:
      {
        if (mine.size() < 2) break;
        TrajPtr gone;
        { Quiet qq; gone = std::move(mine[at]); mine.erase(mine.begin() + (long)at); op(); event("drop", (int64_t)at); probe("trajectory destroyed while clones live"); }
        gone.reset();
        break;
      }
      default:
      {
        const double d = mine[at]->Duration();
        Quiet qq; op();
        if (!same(d, duration)) fail("wrong-duration", "duration %.17g, original has %.17g", d, duration);
      }
    }
  }
}
// The answers are points of one continuous motion along the path: at the start
// of the path at time zero, at its end after the duration, and never further
// apart than the velocity limits allow (with a margin for the integration).
void check_motion(const Spec& spec, const std::vector<Query>& qs, double duration)
{
  const size_t dim = (size_t)spec.vel.size();
  std::vector<std::pair<double, const double*>> pts;
  std::vector<double> first(spec.path.front().data(), spec.path.front().data() + dim), last(spec.path.back().data(), spec.path.back().data() + dim);
  pts.push_back({0.0, first.data()}); pts.push_back({duration, last.data()});
  for (const Query& q : qs) if (!q.want.threw && q.t <= duration) pts.push_back({q.t, q.want.v.data()});
  for (const auto& a : pts) for (const auto& b : pts) if (a.first <= b.first)
    for (size_t i = 0; i < dim; i++)
      if (!(std::fabs(a.second[i] - b.second[i]) <= 2 * spec.vel[(long)i] * (b.first - a.first) + 2e-3))
        fail("not-continuous", "component %zu goes from %.17g at time %.17g to %.17g at time %.17g of %.17g", i, a.second[i], a.first, b.second[i], b.first, duration);
}
void run_i02()
{
  const Spec spec = draw_spec();
  const size_t nq = 2 + draw(6), nt = chance(1, 2) ? 1 : 2 + draw(2);
  std::vector<std::pair<uint64_t, double>> times;
  for (size_t i = 0; i < nq; i++) times.push_back({draw(18), unit()});
  auto plan = [&](size_t max) {
    std::vector<TOp> v; const size_t n = 1 + draw(max);
    for (size_t i = 0; i < n; i++) { TOp o; const uint64_t k = draw(8); o.k = k < 4 ? ASK : k == 4 || k == 5 ? CLONE : k == 6 ? DROP : DURATION; o.a = draw(4); o.b = draw(24); v.push_back(o); }
    return v;
  };
  const std::vector<TOp> before = plan(8);
  std::vector<std::vector<TOp>> th; std::vector<uint64_t> from;
  for (size_t i = 0; i < nt; i++) { th.push_back(plan(8)); from.push_back(draw(4)); }
  const bool drop_original = chance(1, 2);
  uint32_t faults = kSched;
  const uint32_t make_faults = chance(1, 6) ? faults | bit(F_ALLOC) : faults;
  if (chance(1, 2)) faults |= bit(F_ALLOC);

  // what a trajectory that was never used answers
  std::vector<Query> qs; double duration = 0;
  {
    Quiet q;
    TrajPtr ref;
    try { ref = spec.make(); } catch (const std::exception&) { probe("path without parametrisation"); return; }
    duration = ref->Duration();
    if (!(duration >= 0) || duration > 1e6) { probe("path without parametrisation"); return; }
    for (auto& [kind, u] : times)
    {
      Query x;
      switch (kind)
      {
        case 0: x.t = 0; break;
        case 1: x.t = duration; break;
        case 2: x.t = std::nextafter(duration, 0.0); break;
        case 3: x.t = duration * (1 + u); break;
        case 4: x.t = -u - 1e-9; break;
        case 5: x.t = u < 0.3 ? -0.0 : u < 0.6 ? kInf : u < 0.8 ? -kInf : std::numeric_limits<double>::quiet_NaN(); break;
        case 6: case 7: case 8:                   // near the end of an integration step
        {
          const double step = spec.dt * (double)(uint64_t)(u * std::min(200.0, duration / spec.dt));
          const uint64_t off = (uint64_t)(u * 1048576.0) % 5;
          x.t = std::max(0.0, step + (off == 0 ? 1e-4 : off == 1 ? -1e-4 : off == 2 ? 1e-7 : off == 3 ? -1e-9 : 0.0)); break;
        }
        case 9: case 10: case 11:                 // next to an earlier query
          if (!qs.empty()) { const double near = qs[(size_t)(u * (double)qs.size())].t; x.t = u < 0.25 ? std::nextafter(near, -1.0) : near + ((uint64_t)(u * 1048576.0) % 3 == 0 ? -1e-3 : (uint64_t)(u * 1048576.0) % 3 == 1 ? 1e-5 : spec.dt * (u - 0.5)); break; }
          [[fallthrough]];
        default: x.t = duration * u;
      }
      if (x.t < 0) x.want.threw = true;         // a time point rejects negative times
      else
      {
        const TrajPtr fresh = spec.make();
        try { x.want = read(fresh->GetPositionVelocityTimePoint(x.t), x.t); } catch (const std::exception&) { x.want = Answer(); x.want.threw = true; }
      }
      qs.push_back(x);
    }
  }
  { Quiet q; check_motion(spec, qs, duration); }
  FaultScope fs(faults & ~bit(F_ALLOC));
  std::vector<TrajPtr> mine;
  {
    EndCheck ec; std::string msg; TrajPtr t;
    const End e = tried(make_faults, [&]() { t = spec.make(); }, &msg);
    Quiet q; op(); ec.check(e, "ParametrizePathTOTP", msg);
    if (e != RETURNED) { probe("construction ran out of memory"); return; }
    mine.push_back(std::move(t));
  }
  use(mine, before, qs, duration, 0, faults);
  std::vector<std::vector<TrajPtr>> per(nt);
  for (size_t i = 1; i < nt; i++)
  {
    EndCheck ec; std::string msg; TrajPtr c;
    const End e = tried(faults, [&]() { c = mine[from[i] % mine.size()]->Clone(); }, &msg);
    Quiet q; ec.check(e, "Clone", msg);
    if (e == RETURNED) per[i].push_back(std::move(c));
  }
  if (drop_original && mine.size() > 1) { TrajPtr gone; { Quiet q; gone = std::move(mine[0]); mine.erase(mine.begin()); } gone.reset(); }
  { Quiet q; per[0] = std::move(mine); mine.clear(); }
  {
    std::vector<Client> c(nt);
    for (size_t i = 1; i < nt; i++) c[i].start([&, i]() { use(per[i], th[i], qs, duration, (int)i, faults); });
    if (drop_original && nt > 1) per[0].clear();      // the others go on without it
    use(per[0], th[0], qs, duration, 0, faults);
  }
  if (nt > 1) { Quiet q; probe("clones used by several threads"); }
  // whoever is left still answers everything
  std::vector<TOp> all;
  { Quiet q; for (size_t i = 0; i < qs.size(); i++) { TOp o; o.k = ASK; o.b = qs.size() - 1 - i; all.push_back(o); } }
  for (size_t i = 0; i < nt; i++) { for (auto& o : all) o.a = i; use(per[i], all, qs, duration, (int)i, faults); }
  Quiet q; state(h2(h2(before.size(), qs.size()), nt));
}

// ===== I03 =====================================================================
// The two sequences hold different types, so their roles cannot be confused.
struct A { int row = 0; };
struct B { int col = 0; };
struct Table
{
  int n = 0, m = 0; bool exact = true; std::vector<double> c;
  double at(int i, int j) const { return c[(size_t)(i * m + j)]; }
};
Table draw_table()
{
  Table t;
  const int top = chance(1, 12) ? 24 : chance(1, 60) ? 90 : 7;
  t.n = chance(1, 20) ? 0 : 1 + (int)draw((uint64_t)top); t.m = chance(1, 20) ? 0 : 1 + (int)draw((uint64_t)top);
  if (chance(1, 200)) { const bool first = chance(1, 2); (first ? t.n : t.m) = 120 + (int)draw(200); (first ? t.m : t.n) = 1 + (int)draw(8); probe("long sequence"); }
  const uint64_t style = draw(6);
  for (int i = 0; i < t.n * t.m; i++)
    switch (style)
    {
      case 0: t.c.push_back((double)draw(3)); break;                            // many ties
      case 1: t.c.push_back((double)draw(1000)); break;
      case 2: t.c.push_back(chance(1, 4) ? kInf : (double)draw(5)); break;       // forbidden pairs
      case 3: t.c.push_back((double)range(-5, 5)); break;
      case 4: t.c.push_back(1.0); break;
      default: t.c.push_back(unit() * (chance(1, 10) ? 1e6 : 1.0)); t.exact = false;
    }
  return t;
}
// cheapest way from (i, j) to the end, over every monotone alignment
double best(const Table& t, int i, int j, std::map<std::pair<int, int>, double>& memo)
{
  const auto key = std::make_pair(i, j);
  const auto f = memo.find(key); if (f != memo.end()) return f->second;
  double rest = kInf;
  if (i == t.n - 1 && j == t.m - 1) rest = 0;
  else
    for (int s = 1; s < 4; s++)
    {
      const int x = i + (s & 1), y = j + (s >> 1);
      if (x < t.n && y < t.m) { const double r = best(t, x, y, memo); if (r < rest) rest = r; }
    }
  return memo[key] = t.at(i, j) + rest;
}
template <typename CA, typename CB>
struct Aligners
{
  using E = simple_dtw::SimpleDTW<A, B, CA, CB>;
  struct Step { uint64_t k = 0; Table t; uint64_t who = 0; double want = 0; bool fresh = false, no_fn = false, throws = false; uint64_t throw_at = 0; };
  static void history(const std::vector<Step>& steps, const std::vector<std::pair<long, long>>& sizes, int me, uint32_t faults)
  {
    std::vector<std::unique_ptr<E>> es;
    for (auto& [r, c] : sizes)
    {
      std::unique_ptr<E> p; EndCheck ec; std::string msg;
      const End e = tried(faults, [&]() { p.reset(r < 0 ? new E() : new E((ssize_t)r, (ssize_t)c)); }, &msg);
      Quiet q; ec.check(e, "construction", msg);
      if (e == RETURNED) es.push_back(std::move(p));
    }
    for (const Step& s : steps)
    {
      if (es.empty()) return;
      E& e = *es[s.who % es.size()];
      if (s.k == 0)       // go on with a copy
      {
        std::unique_ptr<E> p; EndCheck ec; std::string msg;
        const End r = tried(faults, [&]() { p.reset(new E(e)); }, &msg);
        Quiet q; ec.check(r, "copy", msg); if (r == RETURNED) es[s.who % es.size()].swap(p);
        continue;
      }
      CA a; CB b;
      { Quiet q; for (int i = 0; i < s.t.n; i++) { A x; x.row = i; a.push_back(x); } for (int j = 0; j < s.t.m; j++) { B y; y.col = j; b.push_back(y); } }
      uint64_t calls = 0;
      std::function<double(const A&, const B&)> fn;
      if (!s.no_fn) { Quiet q; fn = [&](const A& x, const B& y) {
        { Quiet qq; if (x.row < 0 || x.row >= s.t.n || y.col < 0 || y.col >= s.t.m) fail("foreign-item", "the distance function got items that are not in the sequences"); }
        calls++;
        if (s.throws && (calls == s.throw_at || chance_at(calls, s.throw_at)) && fault(F_THROW)) throw_injected((int64_t)calls);
        return s.t.at(x.row, y.col); }; }
      EndCheck ec; std::string msg; double got = -1;
      const End r = tried(faults, [&]() { got = s.fresh ? simple_dtw::EvaluateWarpingCost<A, B, CA, CB>(a, b, fn) : e.EvaluateWarpingCost(a, b, fn); }, &msg);
      Quiet q; op(); event("evaluate", s.t.n * 100 + s.t.m, r);
      if (s.t.n == 0 || s.t.m == 0) { if (r != STDEXC && r != BAD_ALLOC) fail("empty-sequence", "an empty sequence was aligned with cost %.17g", got); probe("empty sequence rejected"); continue; }
      if (s.no_fn) { if (r == RETURNED) fail("empty-function", "an alignment was computed without a distance function"); probe("evaluation without a function"); continue; }
      ec.check(r, "EvaluateWarpingCost", msg);
      if (r != RETURNED) { probe("evaluation abandoned"); continue; }
      const double tol = s.t.exact || std::isinf(s.want) ? 0 : 1e-9 * (1 + std::fabs(s.want));
      if (!(got == s.want || std::fabs(got - s.want) <= tol)) fail("not-optimal", "caller %d: cost %.17g for %d x %d items, the cheapest alignment costs %.17g", me, got, s.t.n, s.t.m, s.want);
      state(h2(h2((uint64_t)s.t.n, (uint64_t)s.t.m), s.fresh));
    }
  }
  static bool chance_at(uint64_t calls, uint64_t at) { return at == 0 && calls % 3 == 0; }
  static void run()
  {
    const Kind kind = draw_kind(); const int copies = kind == PLAIN ? 1 : 2 + (int)draw(2);
    std::vector<std::vector<Step>> plans; std::vector<std::vector<std::pair<long, long>>> sizes;
    for (int i = 0; i < copies; i++)
    {
      std::vector<Step> v; const size_t n = 2 + draw(kind == PLAIN ? 10 : 4);
      for (size_t k = 0; k < n; k++)
      {
        Step s; s.k = draw(10); s.t = draw_table(); s.who = draw(2); s.fresh = chance(1, 8); s.no_fn = chance(1, 25);
        s.throws = chance(1, 4); s.throw_at = draw(12);
        if (s.t.n && s.t.m) { Quiet q; std::map<std::pair<int, int>, double> memo; s.want = best(s.t, 0, 0, memo); }
        v.push_back(s);
      }
      plans.push_back(v);
      std::vector<std::pair<long, long>> z; const size_t ne = 1 + draw(2);
      for (size_t k = 0; k < ne; k++) { if (chance(1, 2)) z.push_back({-1, -1}); else { const long r = (long)draw(6), c = (long)draw(6); z.push_back({r, c}); } }
      sizes.push_back(z);
    }
    uint32_t faults = kSched; if (chance(2, 3) && kind == PLAIN) faults |= bit(F_THROW); if (chance(1, 2) && kind == PLAIN) faults |= bit(F_ALLOC);
    FaultScope fs(kSched);
    call(kind, copies, [&](int i) { history(plans[(size_t)i], sizes[(size_t)i], i, faults); });
  }
};
void run_i03()
{
  if (chance(1, 2)) Aligners<std::vector<A>, std::vector<B>>::run();
  else Aligners<std::deque<A>, std::vector<B>>::run();
}
}  // namespace

namespace sim
{
const Property kProperties[] = {
  {"I02", run_i02, 40000000, kSched | bit(F_ALLOC), true},
  {"I03", run_i03, 20000000, kSched | bit(F_ALLOC) | bit(F_THROW), true},
};
const size_t kNumProperties = sizeof kProperties / sizeof kProperties[0];
}
