// H01 dense voxel grids, H02 sparse voxel grids, H03 sharing them between threads.
#include "ctx.hpp"
#include <common_robotics_utilities/dynamic_spatial_hashed_voxel_grid.hpp>
#include <common_robotics_utilities/serialization.hpp>
#include <common_robotics_utilities/voxel_grid.hpp>
#include <array>
#include <cmath>
#include <limits>
#include <map>
#include <memory>
#include <string>

using namespace sim;
using namespace common_robotics_utilities;
using namespace common_robotics_utilities::voxel_grid;
using namespace ctx;
namespace ser = common_robotics_utilities::serialization;

namespace
{
using Iso = Eigen::Isometry3d;
using V3 = Eigen::Vector3d;
using V4 = Eigen::Vector4d;
using Buf = std::vector<uint8_t>;
constexpr int kAny = -9;               // value that is not specified
uint32_t g_faults;
template <typename F> End attempt_op(const F& f, std::string* msg) { FaultScope fs(g_faults); return attempt(f, msg); }

using AlignedStore = std::vector<V4, Eigen::aligned_allocator<V4>>;   // a caller's own backing store
template <typename T> struct Val;
template <> struct Val<int32_t>
{
  static int32_t make(int id) { return id; } static int get(int32_t v) { return v; } static constexpr int kMax = 100000;
  static uint64_t write(const int32_t& v, Buf& b) { return ser::SerializeMemcpyable<int32_t>(v, b); }
  static ser::Deserialized<int32_t> read(const Buf& b, uint64_t o) { return ser::DeserializeMemcpyable<int32_t>(b, o); }
};
template <> struct Val<uint8_t>
{
  static uint8_t make(int id) { return (uint8_t)id; } static int get(uint8_t v) { return v; } static constexpr int kMax = 250;
  static uint64_t write(const uint8_t& v, Buf& b) { return ser::SerializeMemcpyable<uint8_t>(v, b); }
  static ser::Deserialized<uint8_t> read(const Buf& b, uint64_t o) { return ser::DeserializeMemcpyable<uint8_t>(b, o); }
};
template <> struct Val<V4>
{
  static V4 make(int id) { return V4(id, -id, 2.0 * id, 1.0); }
  static int get(const V4& v) { return v(1) == -v(0) && v(2) == 2.0 * v(0) ? (int)v(0) : -7; } static constexpr int kMax = 100000;
  static uint64_t write(const V4& v, Buf& b) { return ser::SerializeVector4d(v, b); }
  static ser::Deserialized<V4> read(const Buf& b, uint64_t o) { return ser::DeserializeVector4d(b, o); }
};
template <> struct Val<std::string>
{
  static std::string make(int id) { return std::string(24 + (size_t)(id % 11), 'v') + std::to_string(id); }
  static int get(const std::string& s)
  {
    const size_t p = s.find_first_not_of('v'); if (p == std::string::npos || p < 24) return -7;
    const int id = std::atoi(s.c_str() + p); return s == make(id) ? id : -7;
  }
  static constexpr int kMax = 100000;
  static uint64_t write(const std::string& v, Buf& b) { return ser::SerializeString<char>(v, b); }
  static ser::Deserialized<std::string> read(const Buf& b, uint64_t o) { return ser::DeserializeString<char>(b, o); }
};
template <typename T> int draw_id() { return 1 + (int)draw((uint64_t)Val<T>::kMax - 1); }

Iso draw_origin()
{
  Iso t = Iso::Identity();
  if (chance(3, 4)) t.translation() = V3((double)range(-40, 40) * 0.25, (double)range(-40, 40) * 0.3, (double)range(-40, 40) * 0.1);
  if (chance(1, 2))
  {
    const V3 axis = V3((double)range(-3, 3) + 0.1, (double)range(-3, 3), (double)range(-3, 3)).normalized();
    t.linear() = Eigen::AngleAxisd((double)range(-31, 31) * 0.1, axis).toRotationMatrix();
  }
  return t;
}
struct Dim { double c[3] = {0, 0, 0}; int64_t n[3] = {0, 0, 0}; int64_t total() const { return n[0] * n[1] * n[2]; } };
Dim draw_dim(int64_t most)
{
  static const std::vector<double> kCells = {1.0, 0.5, 0.25, 0.1, 0.3, 2.0, 0.07, 0.05, 1.1};
  Dim d; d.c[0] = d.c[1] = d.c[2] = pick(kCells); if (chance(1, 3)) { d.c[1] = pick(kCells); d.c[2] = pick(kCells); }
  for (auto& n : d.n) n = 1 + (int64_t)draw((uint64_t)most);
  if (chance(1, 200)) { for (auto& n : d.n) n = 1 + (int64_t)draw(2); d.n[draw(3)] = 60 + (int64_t)draw(240); }      // hundreds of cells
  return d;
}
GridSizes make_sizes(const Dim& d, uint64_t how)
{
  if (how == 0 && d.c[0] == d.c[1] && d.c[0] == d.c[2]) return GridSizes(d.c[0], d.n[0], d.n[1], d.n[2]);
  if (how == 1) return GridSizes(d.c[0], d.c[1], d.c[2], d.c[0] * ((double)d.n[0] - 0.4), d.c[1] * ((double)d.n[1] - 0.4), d.c[2] * ((double)d.n[2] - 0.4));
  return GridSizes(d.c[0], d.c[1], d.c[2], d.n[0], d.n[1], d.n[2]);
}
bool same_sizes(const GridSizes& s, const Dim& d)
{
  return s.NumXCells() == d.n[0] && s.NumYCells() == d.n[1] && s.NumZCells() == d.n[2] && s.CellXSize() == d.c[0] && s.CellYSize() == d.c[1] && s.CellZSize() == d.c[2] &&
         s.TotalCells() == d.total() && s.Valid() == (d.total() > 0) && s.NumCells()[1] == d.n[1] && s.CellSizes()[2] == d.c[2] &&
         std::abs(s.XSize() - d.c[0] * (double)d.n[0]) < 1e-9 && std::abs(s.Sizes()[1] - d.c[1] * (double)d.n[1]) < 1e-9 && std::abs(s.ZSize() - d.c[2] * (double)d.n[2]) < 1e-9;
}
bool same_iso(const Iso& a, const Iso& b) { return a.matrix() == b.matrix(); }
using I3 = std::array<int64_t, 3>;

// ---- vetoes ---------------------------------------------------------------------
struct Hooks
{
  int mode = 0;             // 0 allow, 1 veto some cells, 2 veto raw access, 3 veto everything
  int64_t salt = 0;
  std::vector<I3> cells; std::vector<V4> locs; int raw = 0; bool vetoed = false;
  void reset() { cells.clear(); locs.clear(); raw = 0; vetoed = false; }
  bool allows(const I3& i) const { return mode == 3 ? false : mode != 1 || (((i[0] + 2 * i[1] + 3 * i[2] + salt) % 4) + 4) % 4 != 0; }
  bool allows_raw() const { return mode < 2; }
  bool allows_loc(const V4& l) const { return mode == 3 ? false : mode != 1 || ((int64_t)std::floor(l(0) * 1.7 + l(1) + (double)salt) & 3) != 0; }
};
Hooks* g_hooks;

template <typename T>
class Watched : public VoxelGridBase<T>
{
public:
  using VoxelGridBase<T>::VoxelGridBase;
  int32_t tag = 0;
private:
  std::unique_ptr<VoxelGridBase<T>> DoClone() const override { return std::unique_ptr<VoxelGridBase<T>>(new Watched<T>(*this)); }
  uint64_t DerivedSerializeSelf(Buf& b, const ser::Serializer<T>&) const override { return ser::SerializeMemcpyable<int32_t>(tag, b); }
  uint64_t DerivedDeserializeSelf(const Buf& b, const uint64_t o, const ser::Deserializer<T>&) override
  {
    const auto d = ser::DeserializeMemcpyable<int32_t>(b, o); tag = d.Value(); return d.BytesRead();
  }
  bool OnMutableAccess(const int64_t x, const int64_t y, const int64_t z) override
  {
    Quiet q; const I3 i = {x, y, z}; g_hooks->cells.push_back(i); const bool r = g_hooks->allows(i); if (!r) g_hooks->vetoed = true; return r;
  }
  bool OnMutableRawAccess() override { Quiet q; g_hooks->raw++; const bool r = g_hooks->allows_raw(); if (!r) g_hooks->vetoed = true; return r; }
};
template <typename T>
class WatchedSparse : public DynamicSpatialHashedVoxelGridBase<T>
{
public:
  using DynamicSpatialHashedVoxelGridBase<T>::DynamicSpatialHashedVoxelGridBase;
  int32_t tag = 0;
private:
  using Base = DynamicSpatialHashedVoxelGridBase<T>;
  std::unique_ptr<Base> DoClone() const override { return std::unique_ptr<Base>(new WatchedSparse<T>(*this)); }
  uint64_t DerivedSerializeSelf(Buf& b, const ser::Serializer<T>&) const override { return ser::SerializeMemcpyable<int32_t>(tag, b); }
  uint64_t DerivedDeserializeSelf(const Buf& b, const uint64_t o, const ser::Deserializer<T>&) override
  {
    const auto d = ser::DeserializeMemcpyable<int32_t>(b, o); tag = d.Value(); return d.BytesRead();
  }
  bool OnMutableAccess(const V4& l) override { Quiet q; g_hooks->locs.push_back(l); const bool r = g_hooks->allows_loc(l); if (!r) g_hooks->vetoed = true; return r; }
  bool OnMutableRawAccess() override { Quiet q; g_hooks->raw++; return g_hooks->allows_raw(); }
};
template <typename G, typename = void> struct Tagged : std::false_type {};
template <typename G> struct Tagged<G, std::void_t<decltype(std::declval<G&>().tag)>> : std::true_type {};
template <typename G> constexpr bool has_tag = Tagged<G>::value;
template <typename G> int32_t tag_of(const G& g) { if constexpr (has_tag<G>) return g.tag; else { (void)g; return 0; } }
// Only the library's own final classes have the static (de)serialisers.
template <typename G, typename T> constexpr bool has_static_io = !has_tag<G>;

// ---- H01 dense ------------------------------------------------------------------
struct DModel { bool init = false; Iso t = Iso::Identity(); Dim d; int def = kAny, oob = kAny; std::vector<int> cells; int32_t tag = 0; };
I3 nth(const Dim& d, int64_t k) { return {k / (d.n[1] * d.n[2]), k / d.n[2] % d.n[1], k % d.n[2]}; }
int64_t place(const Dim& d, const I3& i) { return (i[0] * d.n[1] + i[1]) * d.n[2] + i[2]; }
bool inside(const Dim& d, const I3& i) { for (size_t a = 0; a < 3; a++) if (i[a] < 0 || i[a] >= d.n[a]) return false; return true; }
bool eq(int want, int got) { return want == kAny || want == got; }

template <typename T, typename G>
struct DenseRun
{
  using W = Val<T>;
  std::unique_ptr<G> g[2]; DModel m[2]; bool refill = false;
  ser::Serializer<T> ws = W::write; ser::Deserializer<T> rs = W::read;

  // Everything a reader can see; empty when it is what the model says.
  std::string differs(const G& x, const DModel& w)
  {
    char b[160];
    if (x.IsInitialized() != w.init) return "it is initialised or not";
    if (!same_sizes(x.GetGridSizes(), w.d) || x.GetTotalCells() != w.d.total() || x.GetNumXCells() != w.d.n[0] || x.GetNumYCells() != w.d.n[1] || x.GetNumZCells() != w.d.n[2]) return "its sizes";
    if (!same_iso(x.GetOriginTransform(), w.t)) return "its origin";
    if (!(x.GetOriginTransform() * x.GetInverseOriginTransform()).isApprox(Iso::Identity(), 1e-9)) return "its inverse origin";
    if (tag_of(x) != w.tag) return "its derived data";
    if (w.def != kAny && W::get(x.GetDefaultValue()) != w.def) return "its default value";
    if (w.oob != kAny && W::get(x.GetOOBValue()) != w.oob) return "its out-of-bounds value";
    if ((int64_t)x.GetImmutableRawData().size() != w.d.total()) return "the size of its data";
    for (int64_t k = 0; k < w.d.total(); k++)
    {
      const I3 i = nth(w.d, k); const GridIndex gi(i[0], i[1], i[2]);
      const auto r = x.GetIndexImmutable(gi), r2 = x.GetIndexImmutable(i[0], i[1], i[2]);
      if (!r || !r2 || r.Status() != AccessStatus::SUCCESS || r2.Status() != AccessStatus::SUCCESS) fail("inside-not-found", "cell (%ld, %ld, %ld) of the grid is not found", i[0], i[1], i[2]);
      const int64_t di = x.GridIndexToDataIndex(gi);
      if (&r.Value() != &r2.Value() || &r.Value() != &x.GetDataIndexImmutable(di) || x.GridIndexToDataIndex(i[0], i[1], i[2]) != di || x.DataIndexToGridIndex(di) != gi || &r.Value() != &x.GetImmutableRawData()[(size_t)di])
        fail("index-mismatch", "the ways to name cell (%ld, %ld, %ld) differ", i[0], i[1], i[2]);
      const V4 l = x.GridIndexToLocation(gi);
      if (x.LocationToGridIndex4d(l) != gi || x.LocationToGridIndex3d(l.head<3>()) != gi || x.LocationToGridIndex(l(0), l(1), l(2)) != gi) fail("index-mismatch", "the centre of cell (%ld, %ld, %ld) is in another cell", i[0], i[1], i[2]);
      const V4 want = w.t * V4(w.d.c[0] * ((double)i[0] + 0.5), w.d.c[1] * ((double)i[1] + 0.5), w.d.c[2] * ((double)i[2] + 0.5), 1.0);
      if ((l - want).norm() > 1e-9) fail("wrong-location", "the centre of cell (%ld, %ld, %ld) is elsewhere", i[0], i[1], i[2]);
      if (!x.IndexInBounds(gi) || !x.LocationInBounds4d(l) || !x.LocationInBounds3d(l.head<3>())) fail("inside-not-found", "cell (%ld, %ld, %ld) is said to be outside", i[0], i[1], i[2]);
      const int got = W::get(r.Value());
      if (w.cells[(size_t)k] != got) { snprintf(b, sizeof b, "cell (%ld, %ld, %ld), which is %d instead of %d", i[0], i[1], i[2], got, w.cells[(size_t)k]); return b; }
    }
    for (size_t a = 0; a < 3; a++) for (int64_t v : {(int64_t)-1, w.d.n[a], w.d.n[a] + 7, std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max()})
    {
      I3 i = {0, 0, 0}; i[a] = v;
      const auto r = x.GetIndexImmutable(i[0], i[1], i[2]); const auto r2 = x.GetIndexImmutable(GridIndex(i[0], i[1], i[2]));
      if (r || r2 || r.Status() != AccessStatus::OUT_OF_BOUNDS || r2.Status() != AccessStatus::OUT_OF_BOUNDS || x.IndexInBounds(i[0], i[1], i[2]) || x.IndexInBounds(GridIndex(i[0], i[1], i[2])))
        fail("outside-found", "cell (%ld, %ld, %ld) outside of the grid is found", i[0], i[1], i[2]);
    }
    return "";
  }
  static std::vector<int> filled(const Dim& d, int v) { return std::vector<int>((size_t)d.total(), v); }
  // Checks slot a after an operation: one of the candidates must describe it.
  void settle(size_t a, const std::vector<DModel>& cands, const char* what, bool failed)
  {
    Quiet q;
    std::string first;
    for (const DModel& c : cands) { const std::string d = differs(*g[a], c); if (d.empty()) { m[a] = c; return; } if (first.empty()) first = d; }
    fail(failed ? "garbled-by-failure" : "wrong-content", "after %s %s the grid differs in %s", failed ? "a failed" : "", what, first.c_str());
  }
  enum Want { DONE, REFUSED };   // REFUSED: must throw and change nothing
  template <typename F>
  End run(size_t a, const char* what, Want want, std::vector<DModel> done, std::vector<DModel> extra, const F& f)
  {
    const DModel old = m[a];
    g_hooks->reset(); EndCheck ec; std::string msg; const End e = attempt_op(f, &msg);
    Quiet q; op(); event(what, (int64_t)a, e);
    if (e == STDEXC && want == REFUSED) { settle(a, {old}, what, true); probe("operation refused"); return e; }
    ec.check(e, what, msg);
    if (e == RETURNED && want == REFUSED) fail("accepted", "%s was accepted although it must be refused", what);
    if (e == RETURNED) settle(a, done, what, false);
    else { extra.push_back(old); for (auto& d : done) extra.push_back(d); settle(a, extra, what, true); probe("operation failed for lack of memory"); }
    return e;
  }
  void check_hook(const I3& i, bool mutated, const char* what)
  {
    if constexpr (has_tag<G>)
    {
      Quiet q;
      for (auto& c : g_hooks->cells) if (c != i) fail("hook-misled", "%s of cell (%ld, %ld, %ld) announced cell (%ld, %ld, %ld)", what, i[0], i[1], i[2], c[0], c[1], c[2]);
      if (mutated && g_hooks->cells.empty()) fail("hook-skipped", "%s was not announced", what);
    }
  }
  void check_raw(bool mutated, const char* what)
  {
    if constexpr (has_tag<G>) { Quiet q; if (mutated && g_hooks->raw == 0) fail("hook-skipped", "%s was not announced", what); }
  }
  void check_unheard(const char* what) { Quiet q; if (!g_hooks->cells.empty() || g_hooks->raw) fail("hook-misled", "%s, which changes nothing, was announced as a change", what); }
  bool allowed(const I3& i) const { return !has_tag<G> || g_hooks->allows(i); }
  bool raw_allowed() const { return !has_tag<G> || g_hooks->allows_raw(); }
  I3 draw_cell(const DModel& w, bool may_be_outside)
  {
    I3 i = {0, 0, 0};
    if (w.d.total()) i = nth(w.d, (int64_t)draw((uint64_t)w.d.total()));
    if (!w.d.total() || (may_be_outside && chance(1, 6)))
    {
      const size_t a = draw(3);
      switch (draw(5)) { case 0: i[a] = -1; break; case 1: i[a] = w.d.n[a]; break; case 2: i[a] = w.d.n[a] + range(1, 50); break; case 3: i[a] = -range(2, 50); break; default: i[a] = chance(1, 2) ? -1 : w.d.n[a]; i[(a + 1) % 3] += chance(1, 2) ? 0 : -1000; }
    }
    return i;
  }
  V4 draw_location(const DModel& w, const I3& i)
  {
    V4 l(0, 0, 0, 1.0);
    const uint64_t near = draw(6);
    for (int a = 0; a < 3; a++) l(a) = (w.d.total() ? w.d.c[a] : 1.0) * ((double)i[(size_t)a] + (near == (uint64_t)a ? (chance(1, 2) ? 1e-7 : 1.0 - 1e-7) : 0.1 + 0.8 * unit()));
    return w.t * l;
  }
  static GridIndex gi(const I3& i) { return GridIndex(i[0], i[1], i[2]); }
  void set_op(size_t a)
  {
    const DModel w = m[a]; const I3 i = draw_cell(w, true); const bool in = inside(w.d, i);
    const uint64_t way = draw(5); const bool rvalue = chance(1, 3); const V4 l = draw_location(w, i);
    int id = draw_id<T>(); T v = W::make(id);
    const T* src = &v; const uint64_t alias = draw(6);
    if (alias == 0) { src = &g[a]->GetDefaultValue(); id = w.def; }
    else if (alias == 1 && w.d.total()) { const int64_t k = (int64_t)draw((uint64_t)w.d.total()); src = &g[a]->GetIndexImmutable(gi(nth(w.d, k))).Value(); id = w.cells[(size_t)k]; }
    const bool aliased = src != &v;
    if (aliased && id == kAny) return;
    const bool may = in && allowed(i); DModel n = w; if (may) n.cells[(size_t)place(w.d, i)] = id;
    AccessStatus st = AccessStatus::UNKNOWN; G& x = *g[a];
    const End e = run(a, "write", DONE, {n}, {}, [&]() {
      if (rvalue && !aliased) switch (way)
      {
        case 0: st = x.SetIndex(gi(i), std::move(v)); break;
        case 1: st = x.SetIndex(i[0], i[1], i[2], std::move(v)); break;
        case 2: st = x.SetLocation(l(0), l(1), l(2), std::move(v)); break;
        case 3: st = x.SetLocation3d(l.head<3>(), std::move(v)); break;
        default: st = x.SetLocation4d(l, std::move(v));
      }
      else switch (way)
      {
        case 0: st = x.SetIndex(gi(i), *src); break;
        case 1: st = x.SetIndex(i[0], i[1], i[2], *src); break;
        case 2: st = x.SetLocation(l(0), l(1), l(2), *src); break;
        case 3: st = x.SetLocation3d(l.head<3>(), *src); break;
        default: st = x.SetLocation4d(l, *src);
      }
    });
    Quiet q;
    const AccessStatus want = !in ? AccessStatus::OUT_OF_BOUNDS : may ? AccessStatus::SUCCESS : AccessStatus::MUTABLE_ACCESS_PROHIBITED;
    if (e == RETURNED && st != want) fail("wrong-status", "a write of cell (%ld, %ld, %ld) reports status %d instead of %d", i[0], i[1], i[2], (int)st, (int)want);
    if (in) check_hook(i, may && e == RETURNED, "write");
    probe(!in ? "write outside" : may ? aliased ? "write of one of the grid's own values" : "write" : "write vetoed");
  }
  void get_op(size_t a)
  {
    const DModel w = m[a]; const I3 i = draw_cell(w, true); const bool in = inside(w.d, i); const uint64_t way = draw(5); const V4 l = draw_location(w, i); const G& x = *g[a];
    const T* got = nullptr; AccessStatus st = AccessStatus::UNKNOWN; bool has = false;
    auto take = [&](GridQuery<const T> r) { GridQuery<const T> c(r), d; d = c; has = (bool)d && d.HasValue(); st = d.Status(); got = has ? &d.Value() : nullptr; };
    run(a, "read", DONE, {w}, {}, [&]() {
      switch (way)
      {
        case 0: take(x.GetIndexImmutable(gi(i))); break;
        case 1: take(x.GetIndexImmutable(i[0], i[1], i[2])); break;
        case 2: take(x.GetLocationImmutable(l(0), l(1), l(2))); break;
        case 3: take(x.GetLocationImmutable3d(l.head<3>())); break;
        default: take(x.GetLocationImmutable4d(l));
      }
    });
    Quiet q; check_unheard("read");
    if (has != in || st != (in ? AccessStatus::SUCCESS : AccessStatus::OUT_OF_BOUNDS)) fail("wrong-status", "a read of cell (%ld, %ld, %ld) reports status %d", i[0], i[1], i[2], (int)st);
    if (in && W::get(*got) != w.cells[(size_t)place(w.d, i)]) fail("wrong-content", "cell (%ld, %ld, %ld) reads %d, %d was written", i[0], i[1], i[2], W::get(*got), w.cells[(size_t)place(w.d, i)]);
  }
  void mutable_op(size_t a)
  {
    const DModel w = m[a]; const I3 i = draw_cell(w, true); const bool in = inside(w.d, i), may = in && allowed(i); const uint64_t way = draw(5); const V4 l = draw_location(w, i); G& x = *g[a];
    const int id = draw_id<T>(); T v = W::make(id); AccessStatus st = AccessStatus::UNKNOWN; bool has = false, same = true;
    DModel n = w; if (may) n.cells[(size_t)place(w.d, i)] = id;
    auto take = [&](GridQuery<T> r)
    {
      has = (bool)r; st = r.Status();
      if (has) { T* p = &r.Value(); { Quiet q; if (in) same = W::get(*p) == w.cells[(size_t)place(w.d, i)]; } std::swap(*p, v); }
    };
    const End e = run(a, "mutable access", DONE, {n}, {}, [&]() {
      switch (way)
      {
        case 0: take(x.GetIndexMutable(gi(i))); break;
        case 1: take(x.GetIndexMutable(i[0], i[1], i[2])); break;
        case 2: take(x.GetLocationMutable(l(0), l(1), l(2))); break;
        case 3: take(x.GetLocationMutable3d(l.head<3>())); break;
        default: take(x.GetLocationMutable4d(l));
      }
    });
    Quiet q;
    const AccessStatus want = !in ? AccessStatus::OUT_OF_BOUNDS : may ? AccessStatus::SUCCESS : AccessStatus::MUTABLE_ACCESS_PROHIBITED;
    if (e == RETURNED && (st != want || has != may)) fail("wrong-status", "mutable access to cell (%ld, %ld, %ld) reports status %d instead of %d", i[0], i[1], i[2], (int)st, (int)want);
    if (!same) fail("wrong-content", "mutable access to cell (%ld, %ld, %ld) gives another value", i[0], i[1], i[2]);
    if (in) check_hook(i, may, "mutable access");
    probe(may ? "mutable access" : in ? "mutable access vetoed" : "mutable access outside");
  }
  void data_op(size_t a)
  {
    const DModel w = m[a]; G& x = *g[a]; const int64_t total = w.d.total(); const uint64_t way = draw(4);
    const int64_t k = total && !chance(1, 5) ? (int64_t)draw((uint64_t)total) : chance(1, 2) ? total + (int64_t)draw(3) : -1 - (int64_t)draw(3);
    const bool in = k >= 0 && k < total, may = in && (way == 3 || raw_allowed()); const int id = draw_id<T>(); T v = W::make(id); int seen = -1;
    DModel n = w; if (may && way < 3) n.cells[(size_t)k] = id;
    const End e = run(a, "access by data index", may ? DONE : REFUSED, {n}, {}, [&]() {
      switch (way)
      {
        case 0: x.SetDataIndex(k, v); break;
        case 1: x.SetDataIndex(k, std::move(v)); break;
        case 2: std::swap(x.GetDataIndexMutable(k), v); break;
        default: { const T& r = static_cast<const G&>(x).GetDataIndexImmutable(k); Quiet q; seen = W::get(r); }
      }
    });
    if (way == 3 && in && seen != w.cells[(size_t)k]) fail("wrong-content", "data index %ld reads %d", k, seen);
    if (way < 3) check_raw(may && e == RETURNED, "access by data index"); else check_unheard("read");
  }
  void reset_op(size_t a)
  {
    const DModel w = m[a]; G& x = *g[a]; const uint64_t way = draw(3); int id = draw_id<T>(); T v = W::make(id); const T* src = &v;
    if (w.d.total() && chance(1, 3)) { const int64_t k = (int64_t)draw((uint64_t)w.d.total()); src = &static_cast<const G&>(x).GetDataIndexImmutable(k); id = w.cells[(size_t)k]; }
    DModel n = w, part = w;
    if (way == 0) { if (w.def == kAny && w.d.total()) return; n.cells = filled(w.d, w.def); }
    else { n.cells = filled(w.d, id); if (way == 2) { n.def = id; part.def = id; } }
    run(a, way == 0 ? "reset to the default" : way == 1 ? "reset to a value" : "reset to a new default", DONE, {n}, {part}, [&]() { if (way == 0) x.ResetWithDefault(); else if (way == 1) x.ResetWithNewValue(*src); else x.ResetWithNewDefault(*src); });
    probe("reset");
  }
  void init_op(size_t a)
  {
    const DModel w = m[a]; G& x = *g[a]; const Dim d = draw_dim(4); const uint64_t how = draw(3); int def = draw_id<T>(); const int oob = draw_id<T>(); const T vo = W::make(oob); T vd = W::make(def); const T* src = &vd;
    const bool bad = chance(1, 8), place_it = chance(1, 2); const Iso t = draw_origin(); DModel n = w; n.init = true; n.d = d; n.oob = oob;
    if (w.d.total() && chance(1, 4)) { src = &static_cast<const G&>(x).GetDataIndexImmutable(0); def = w.cells[0]; }
    n.def = def; n.cells = filled(d, def);
    if (place_it) n.t = t; else { n.t = Iso::Identity(); n.t.translation() = V3(-d.c[0] * (double)d.n[0] * 0.5, -d.c[1] * (double)d.n[1] * 0.5, -d.c[2] * (double)d.n[2] * 0.5); }
    const GridSizes sizes = bad ? GridSizes() : make_sizes(d, how);
    run(a, "initialisation", bad ? REFUSED : DONE, {n}, {}, [&]() { if (place_it) x.Initialize(t, sizes, *src, vo); else x.Initialize(sizes, *src, vo); });
    probe("initialised again");
  }
  void raw_op(size_t a)
  {
    const DModel w = m[a]; G& x = *g[a]; const uint64_t way = draw(3); DModel n = w; typename std::decay<decltype(x.GetImmutableRawData())>::type data; bool ok = raw_allowed();
    const size_t size = chance(1, 4) ? (size_t)draw((uint64_t)w.d.total() + 3) : (size_t)w.d.total();
    for (auto& c : n.cells) c = draw_id<T>();
    for (size_t k = 0; k < size; k++) data.push_back(W::make(k < n.cells.size() ? n.cells[k] : 1));
    if (way == 0) { if (size != (size_t)w.d.total()) ok = false; }
    if (way == 1) n = w;
    const End e = run(a, "raw access", ok ? DONE : REFUSED, {n}, {}, [&]() {
      if (way == 0) x.SetRawData(data);
      else if (way == 1) x.SetRawData(x.GetImmutableRawData());
      else { auto& r = x.GetMutableRawData(); Quiet q; for (size_t k = 0; k < n.cells.size(); k++) r[k] = W::make(n.cells[k]); }
    });
    check_raw(ok && e == RETURNED, "raw access"); probe("raw access");
  }
  void value_op(size_t a)
  {
    const DModel w = m[a]; G& x = *g[a]; const uint64_t way = draw(4); const int id = draw_id<T>(); const T v = W::make(id); DModel n = w; const Iso t = draw_origin();
    if (way == 0) n.def = id; else if (way == 1) n.oob = id; else if (way == 2) n.t = t; else n.tag = has_tag<G> ? id : 0;
    run(a, "setting a grid attribute", DONE, {n}, {}, [&]() { if (way == 0) x.SetDefaultValue(v); else if (way == 1) x.SetOOBValue(v); else if (way == 2) x.UpdateOriginTransform(t); else if constexpr (has_tag<G>) x.tag = id; });
  }
  void copy_op(size_t a)
  {
    const size_t b = 1 - a; const uint64_t way = draw(6); const DModel old = m[a], src = m[b];
    g_hooks->reset(); EndCheck ec; std::string msg; std::unique_ptr<G> made; bool moved = false;
    const End e = attempt_op([&]() {
      switch (way)
      {
        case 0: made = std::make_unique<G>(static_cast<const G&>(*g[b])); break;
        case 1: { auto c = static_cast<const G&>(*g[b]).Clone(); G* p = dynamic_cast<G*>(c.get()); if (!p) fail("wrong-type", "a clone has another type"); (void)c.release(); made.reset(p); break; }
        case 2: *g[a] = static_cast<const G&>(*g[b]); break;
        case 3: moved = true; made = std::make_unique<G>(std::move(*g[b])); break;
        case 4: moved = true; *g[a] = std::move(*g[b]); break;
        default: { const G& self = *g[a]; *g[a] = self; }
      }
    }, &msg);
    Quiet q; op(); event("copy", (int64_t)way, e); ec.check(e, "copy", msg);
    if (way == 5) { if (e == RETURNED) settle(a, {old}, "self-assignment", false); else mixture(a, old, old); return; }
    if (made) g[a] = std::move(made);
    if (e == RETURNED) { settle(a, {src}, way < 3 ? "copy" : "move", false); probe(way < 3 ? "copied" : "moved"); }
    else if (way == 2) { mixture(a, old, src); probe("copy-assignment failed"); }
    else if (way == 4) { mixture(a, old, src); probe("move-assignment failed"); }
    else settle(a, {old}, "copy", true);
    if (!moved) settle(b, {src}, "being copied", e != RETURNED);
    else refill = true;   // a moved-from grid is not specified
  }
  // After a failed copy-assignment the grid is usable and holds values of either.
  void mixture(size_t a, const DModel& old, const DModel& src)
  {
    const G& x = *g[a]; DModel now;
    now.init = x.IsInitialized(); now.t = x.GetOriginTransform();
    if (!same_iso(now.t, old.t) && !same_iso(now.t, src.t)) fail("garbled-by-failure", "after a failed assignment the grid has a new origin");
    const GridSizes& s = x.GetGridSizes(); now.d = same_sizes(s, old.d) ? old.d : src.d;
    if (!same_sizes(s, now.d) || now.init != (now.d.total() > 0)) fail("garbled-by-failure", "after a failed assignment the grid has other sizes");
    if ((int64_t)x.GetImmutableRawData().size() != now.d.total()) fail("garbled-by-failure", "after a failed assignment the grid's data has another size");
    now.def = W::get(x.GetDefaultValue()); now.oob = W::get(x.GetOOBValue()); now.tag = tag_of(x);
    if (!eq(old.def, now.def) && !eq(src.def, now.def)) fail("garbled-by-failure", "after a failed assignment the grid has a new default");
    if (!eq(old.oob, now.oob) && !eq(src.oob, now.oob)) fail("garbled-by-failure", "after a failed assignment the grid has a new out-of-bounds value");
    if (old.def == kAny || src.def == kAny) now.def = kAny;
    if (old.oob == kAny || src.oob == kAny) now.oob = kAny;
    for (int64_t k = 0; k < now.d.total(); k++)
    {
      const int v = W::get(x.GetImmutableRawData()[(size_t)k]); const bool o = (size_t)k < old.cells.size() && old.cells[(size_t)k] == v, n = (size_t)k < src.cells.size() && src.cells[(size_t)k] == v;
      if (!o && !n) fail("garbled-by-failure", "after a failed assignment a cell has value %d", v);
      now.cells.push_back(v);
    }
    settle(a, {now}, "assignment", true);
  }
  void serial_op(size_t a)
  {
    const size_t b = draw(2); const DModel src = m[b], old = m[a]; Buf buf((size_t)draw(5), 7); const uint64_t off = buf.size(); uint64_t wrote = 0, readn = 0;
    run(b, "serialising", DONE, {src}, {}, [&]() { if constexpr (has_static_io<G, T>) wrote = G::Serialize(*g[b], buf, ws); else wrote = g[b]->SerializeSelf(buf, ws); });
    if (wrote == 0) return;
    { Quiet q; if (buf.size() - off != wrote) fail("wrong-size", "serialising reports %lu bytes and wrote %lu", wrote, buf.size() - off); check_unheard("serialising"); }
    const bool cut = chance(1, 4); const uint64_t tail = draw(4);
    if (cut) { buf.resize(off + draw(wrote)); injected(F_CORRUPT); } else buf.resize(buf.size() + tail, 9);
    DModel part = src; part.tag = old.tag;
    if (has_static_io<G, T> && chance(1, 2))
    {
      if constexpr (has_static_io<G, T>)
      {
        std::unique_ptr<G> made; EndCheck ec; std::string msg;
        const End e = attempt_op([&]() { auto d = G::Deserialize(buf, off, rs); readn = d.BytesRead(); made = std::make_unique<G>(std::move(d.MutableValue())); }, &msg);
        Quiet q; op();
        if (cut) { if (e == STDEXC) { probe("cut data refused"); return; } if (e == RETURNED) fail("accepted", "cut data was deserialised"); }
        ec.check(e, "deserialising", msg);
        if (e != RETURNED) return;
        g[a] = std::move(made); settle(a, {src}, "deserialising", false);
      }
    }
    else if (cut)
    {
      // the derived class's data comes last and is read after the grid's own
      const DModel was = m[a]; std::string msg; EndCheck ec; const End e = attempt_op([&]() { g[a]->DeserializeSelf(buf, off, rs); }, &msg);
      Quiet q; op();
      if (e == RETURNED) fail("accepted", "cut data was deserialised");
      if (e != STDEXC) ec.check(e, "deserialising", msg);
      settle(a, has_tag<G> ? std::vector<DModel>{was, part} : std::vector<DModel>{was}, "deserialisation", true); probe("cut data refused"); return;
    }
    else if (run(a, "deserialising", DONE, {src}, {part}, [&]() { readn = g[a]->DeserializeSelf(buf, off, rs); }) != RETURNED) return;
    Quiet q; if (readn != wrote) fail("wrong-size", "deserialising read %lu bytes of %lu", readn, wrote);
    probe("round trip");
  }
  void start(size_t a)
  {
    for (;;)
    {
      if (chance(1, 8)) { Quiet q; g[a] = std::make_unique<G>(); m[a] = DModel(); break; }
      DModel n; n.init = true; n.d = draw_dim(4); n.def = draw_id<T>(); n.oob = draw_id<T>(); n.cells = filled(n.d, n.def); const uint64_t how = draw(3), way = draw(4); n.t = draw_origin();
      const GridSizes s = make_sizes(n.d, how); const T vd = W::make(n.def), vo = W::make(n.oob); const Iso t = n.t;
      EndCheck ec; std::string msg;
      const End e = attempt_op([&]() {
        if constexpr (!has_tag<G>) { if (way == 1) { g[a] = std::make_unique<G>(t, s, vd); return; } if (way == 2) { g[a] = std::make_unique<G>(s, vd); return; } }
        if (way == 3) g[a] = std::make_unique<G>(s, vd, vo); else g[a] = std::make_unique<G>(t, s, vd, vo);
      }, &msg);
      if (!has_tag<G> && (way == 1 || way == 2)) n.oob = n.def;
      if (way == 3 || (!has_tag<G> && way == 2)) { n.t = Iso::Identity(); n.t.translation() = V3(-n.d.c[0] * (double)n.d.n[0] * 0.5, -n.d.c[1] * (double)n.d.n[1] * 0.5, -n.d.c[2] * (double)n.d.n[2] * 0.5); }
      Quiet q; ec.check(e, "construction", msg);
      if (e == RETURNED) { settle(a, {n}, "construction", false); break; }
    }
  }
  void go()
  {
    start(0); start(1);
    const size_t n = 3 + draw(18);
    for (size_t i = 0; i < n; i++)
    {
      const size_t a = draw(2);
      if (has_tag<G> && chance(1, 5)) { g_hooks->mode = (int)draw(4); g_hooks->salt = (int64_t)draw(4); }
      switch (draw(14))
      {
        case 0: case 1: case 2: set_op(a); break;
        case 3: get_op(a); break;
        case 4: case 5: mutable_op(a); break;
        case 6: data_op(a); break;
        case 7: reset_op(a); break;
        case 8: init_op(a); break;
        case 9: raw_op(a); break;
        case 10: value_op(a); break;
        case 11: case 12: copy_op(a); break;
        default: serial_op(a);
      }
      if (refill) { refill = false; start(1 - a); }
      Quiet q; settle(1 - a, {m[1 - a]}, "an operation on another grid", false);
      state(mix(mix((uint64_t)m[0].d.total(), (uint64_t)m[1].d.total()), (uint64_t)g_hooks->mode));
    }
  }
};
void run_h01()
{
  Hooks h; g_hooks = &h; const bool faulty = chance(3, 4); g_faults = faulty ? bit(F_ALLOC) : 0;
  switch (draw(8))
  {
    case 7: { DenseRun<V4, VoxelGrid<V4, AlignedStore>> r; r.go(); break; }
    case 0: case 1: { DenseRun<std::string, VoxelGrid<std::string>> r; r.go(); break; }
    case 2: case 3: { DenseRun<std::string, Watched<std::string>> r; r.go(); break; }
    case 4: { DenseRun<int32_t, VoxelGrid<int32_t>> r; r.go(); break; }
    case 5: { DenseRun<uint8_t, Watched<uint8_t>> r; r.go(); break; }
    default: { DenseRun<V4, Watched<V4>> r; r.go(); }
  }
}

// ---- H02 sparse -----------------------------------------------------------------
struct Chunk { bool cell = false; std::vector<int> v; bool operator==(const Chunk& o) const { return cell == o.cell && v == o.v; } };
struct SModel { bool init = false; Iso t = Iso::Identity(); Dim d; int def = kAny; std::map<I3, Chunk> chunks; int32_t tag = 0; };
// A place in the grid's own frame: chunk, cell in the chunk.
struct Spot { I3 chunk, cell; };
int64_t floor_div(int64_t a, int64_t b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
Spot spot_of(const Dim& d, const I3& global) { Spot s; for (size_t a = 0; a < 3; a++) { s.chunk[a] = floor_div(global[a], d.n[a]); s.cell[a] = global[a] - s.chunk[a] * d.n[a]; } return s; }

template <typename T, typename G>
struct SparseRun
{
  using W = Val<T>;
  std::unique_ptr<G> g[2]; SModel m[2]; bool refill = false;
  ser::Serializer<T> ws = W::write; ser::Deserializer<T> rs = W::read;
  static V4 centre(const SModel& w, const I3& chunk, const I3& cell, double at = 0.5)
  {
    V4 l(0, 0, 0, 1.0); for (size_t a = 0; a < 3; a++) l((int)a) = w.d.c[a] * ((double)(chunk[a] * w.d.n[a] + cell[a]) + at); return l;
  }
  std::string differs(const G& x, const SModel& w)
  {
    char b[200];
    if (x.IsInitialized() != w.init) return "it is initialised or not";
    if (!same_sizes(x.GetChunkGridSizes(), w.d) || x.GetChunkNumCells()[0] != w.d.n[0] || x.GetCellSizes()[1] != w.d.c[1]) return "its sizes";
    if (!same_iso(x.GetOriginTransform(), w.t)) return "its origin";
    if (!(x.GetOriginTransform() * x.GetInverseOriginTransform()).isApprox(Iso::Identity(), 1e-9)) return "its inverse origin";
    if (tag_of(x) != w.tag) return "its derived data";
    if (w.def != kAny && W::get(x.GetDefaultValue()) != w.def) return "its default value";
    if (x.GetImmutableInternalChunks().size() != w.chunks.size()) { snprintf(b, sizeof b, "its chunks, which are %zu instead of %zu", x.GetImmutableInternalChunks().size(), w.chunks.size()); return b; }
    if (!w.init) return "";
    for (auto& c : w.chunks)
    {
      for (int64_t k = 0; k < w.d.total(); k++)
      {
        const I3 i = nth(w.d, k); const V4 l = w.t * centre(w, c.first, i, k & 1 ? 0.3 : 0.7);
        const auto r = k % 3 == 0 ? x.GetLocationImmutable4d(l) : k % 3 == 1 ? x.GetLocationImmutable3d(l.head<3>()) : x.GetLocationImmutable(l(0), l(1), l(2));
        snprintf(b, sizeof b, "cell (%ld, %ld, %ld) of chunk (%ld, %ld, %ld), ", i[0], i[1], i[2], c.first[0], c.first[1], c.first[2]);
        if (!r) return std::string(b) + "which is not found";
        if (r.FoundStatus() != (c.second.cell ? DSHVGFoundStatus::FOUND_IN_CELL : DSHVGFoundStatus::FOUND_IN_CHUNK)) return std::string(b) + "which is found at another level";
        const int want = c.second.v[c.second.cell ? (size_t)k : 0], got = W::get(r.Value());
        if (want != got) return std::string(b) + "which is " + std::to_string(got) + " instead of " + std::to_string(want);
      }
      for (size_t a = 0; a < 3; a++) for (int64_t s : {-1, 1})
      {
        I3 o = c.first; o[a] += s; if (w.chunks.count(o)) continue;
        if (x.GetLocationImmutable4d(w.t * centre(w, o, {0, 0, 0})).FoundStatus() != DSHVGFoundStatus::NOT_FOUND) return "a chunk that was never written but is found";
      }
    }
    // the chunks as a caller can enumerate them
    for (auto& kv : x.GetImmutableInternalChunks())
    {
      I3 at; for (size_t a = 0; a < 3; a++) at[a] = (int64_t)std::llround(kv.first.Base()((int)a) / (w.d.c[a] * (double)w.d.n[a]));
      const auto it = w.chunks.find(at); if (it == w.chunks.end()) return "an enumerated chunk that was never written";
      const Chunk& c = it->second;
      if (kv.second.FillStatus() != (c.cell ? DSHVGFillStatus::CELL_FILLED : DSHVGFillStatus::CHUNK_FILLED)) return "an enumerated chunk's fill status";
      for (int64_t k = 0; k < (c.cell ? w.d.total() : 1); k++)
      {
        const I3 i = nth(w.d, k); const auto r = kv.second.GetIndexImmutable(GridIndex(i[0], i[1], i[2]));
        if (!r || W::get(r.Value()) != c.v[(size_t)k]) return "an enumerated chunk's value";
        if (c.cell && (kv.second.GetCellLocationInGridFrame(GridIndex(i[0], i[1], i[2])) - centre(w, at, i)).norm() > 1e-9 * (1.0 + centre(w, at, i).norm())) return "an enumerated cell's location";
      }
    }
    return "";
  }
  void settle(size_t a, const std::vector<SModel>& cands, const char* what, bool failed)
  {
    Quiet q; std::string first;
    for (const SModel& c : cands) { const std::string d = differs(*g[a], c); if (d.empty()) { m[a] = c; return; } if (first.empty()) first = d; }
    fail(failed ? "garbled-by-failure" : "wrong-content", "after %s %s the grid differs in %s", failed ? "a failed" : "", what, first.c_str());
  }
  template <typename F>
  End run(size_t a, const char* what, bool refused, std::vector<SModel> done, std::vector<SModel> extra, const F& f)
  {
    const SModel old = m[a];
    g_hooks->reset(); EndCheck ec; std::string msg; const End e = attempt_op(f, &msg);
    Quiet q; op(); event(what, (int64_t)a, e);
    if (e == STDEXC && refused) { settle(a, {old}, what, true); probe("operation refused"); return e; }
    ec.check(e, what, msg);
    if (e == RETURNED && refused && !g_hooks->vetoed) fail("accepted", "%s was accepted although it must be refused", what);
    if (e == RETURNED) { if (g_hooks->vetoed) { done = {old}; } settle(a, done, what, false); }
    else { extra.push_back(old); for (auto& d : done) extra.push_back(d); settle(a, extra, what, true); probe("operation failed for lack of memory"); }
    return e;
  }
  void check_hook(const SModel& w, const V4& frame, bool mutated, const char* what)
  {
    if constexpr (has_tag<G>)
    {
      Quiet q; (void)w;
      for (auto& l : g_hooks->locs) if (!((l - frame).norm() <= 1e-9 * (1.0 + frame.norm()))) fail("hook-misled", "%s announced another location", what);
      if (mutated && g_hooks->locs.empty()) fail("hook-skipped", "%s was not announced", what);
    }
  }
  // Location drawn in the grid's frame; the cells it may belong to.
  struct Place { V4 frame = V4(0, 0, 0, 1), loc = V4(0, 0, 0, 1); std::vector<Spot> spots; bool finite = true; };
  Place draw_place(const SModel& w)
  {
    Place p; I3 global; int64_t lo = -3, hi = 3; bool far = false;
    for (size_t a = 0; a < 3; a++)
    {
      const int64_t n = w.d.n[a];
      global[a] = chance(2, 3) ? range(-n, n) : range(lo * n, hi * n);
      if (chance(1, 40)) { static const int64_t kFar[] = {300, 40000, 70000, 2200000, 3000000000ll, 5000000000ll}; global[a] += (chance(1, 2) ? 1 : -1) * kFar[draw(6)]; far = true; }
      p.frame((int)a) = w.d.c[a] * ((double)global[a] + 0.1 + 0.8 * unit());
    }
    if (!w.chunks.empty() && chance(1, 2))
    {
      auto it = w.chunks.begin(); std::advance(it, (long)draw(w.chunks.size())); const I3 i = nth(w.d, (int64_t)draw((uint64_t)w.d.total()));
      for (size_t a = 0; a < 3; a++) { global[a] = it->first[a] * w.d.n[a] + i[a]; far = far || std::abs(global[a]) > 1000; p.frame((int)a) = w.d.c[a] * ((double)global[a] + 0.1 + 0.8 * unit()); }
    }
    p.spots = {spot_of(w.d, global)};
    const uint64_t kind = draw(8);
    if (far) { probe("far away"); }
    else if (kind == 3) { const int a = (int)draw(3); p.frame(a) = w.d.c[(size_t)a] * ((double)global[(size_t)a] + (chance(1, 2) ? 1e-7 : 1.0 - 1e-7)); }
    else if (kind <= 1)
    {
      // on or next to the lower boundary of the cell along one axis
      int a = (int)draw(3); if (chance(1, 2)) a = w.d.n[0] >= w.d.n[1] && w.d.n[0] >= w.d.n[2] ? 0 : w.d.n[1] >= w.d.n[2] ? 1 : 2;
      if (chance(1, 3)) { global[(size_t)a] = w.d.n[(size_t)a] * range(0, 2); }
      double x = (double)global[(size_t)a] * w.d.c[(size_t)a]; const int64_t step = range(-2, 2);
      if (chance(1, 2)) global[(size_t)a] = floor_div(global[(size_t)a], w.d.n[(size_t)a]) * w.d.n[(size_t)a], x = (double)global[(size_t)a] * w.d.c[(size_t)a];
      for (int64_t s = 0; s < std::abs(step); s++) x = std::nextafter(x, step < 0 ? -1e9 : 1e9);
      p.frame(a) = x; I3 below = global; below[(size_t)a]--;
      p.spots = {spot_of(w.d, global), spot_of(w.d, below)};
    }
    else if (kind == 2 && chance(1, 3))
    {
      static const std::vector<double> kOdd = {std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()};
      p.frame((int)draw(3)) = pick(kOdd); p.finite = false;
    }
    p.loc = p.finite ? V4(w.t * p.frame) : p.frame;
    return p;
  }
  const T* found(size_t a, const V4& l) { auto r = static_cast<const G&>(*g[a]).GetLocationImmutable4d(l); return r ? &r.Value() : nullptr; }
  SModel with(const SModel& w, const Spot& s, bool cell, int id)
  {
    SModel n = w; Chunk& c = n.chunks[s.chunk];
    if (!cell) { c.cell = false; c.v = {id}; return n; }
    if (!c.cell) { const int base = c.v.empty() ? w.def : c.v[0]; c.cell = true; c.v.assign((size_t)w.d.total(), base); }
    c.v[(size_t)place(w.d, s.cell)] = id; return n;
  }
  SModel opened(const SModel& w, const Spot& s, bool cell)
  {
    SModel n = w; Chunk& c = n.chunks[s.chunk]; if (!cell) { if (c.v.empty()) { c.cell = false; c.v = {w.def}; } return n; }
    if (!c.cell) { const int base = c.v.empty() ? w.def : c.v[0]; c.cell = true; c.v.assign((size_t)w.d.total(), base); } return n;
  }
  void set_op(size_t a)
  {
    const SModel w = m[a]; G& x = *g[a];
    if (!w.init) { refused_uninit(a); return; }
    const Place p = draw_place(w); const bool cell = chance(2, 3), rvalue = chance(1, 3); const uint64_t way = draw(3); const V4& l = p.loc;
    const DSHVGSetType type = cell ? DSHVGSetType::SET_CELL : DSHVGSetType::SET_CHUNK;
    int id = draw_id<T>(); T v = W::make(id); const T* src = &v; const uint64_t alias = draw(6);
    if (alias == 0 && w.def != kAny) { src = &static_cast<const G&>(x).GetDefaultValue(); id = w.def; }
    else if (alias <= 2 && !w.chunks.empty())
    {
      auto it = w.chunks.find(p.spots[0].chunk); if (it == w.chunks.end() || chance(1, 3)) { it = w.chunks.begin(); std::advance(it, (long)draw(w.chunks.size())); }
      const I3 i = nth(w.d, (int64_t)draw((uint64_t)w.d.total())); Quiet q; src = found(a, w.t * centre(w, it->first, i)); if (!src) fail("lost-value", "a stored cell is not found"); id = W::get(*src);
    }
    const bool aliased = src != &v; std::vector<SModel> done, extra;
    for (auto& s : p.spots) { done.push_back(with(w, s, cell, id)); extra.push_back(opened(w, s, cell)); }
    DSHVGSetStatus st = DSHVGSetStatus::MUTABLE_ACCESS_PROHIBITED;
    const End e = run(a, cell ? "cell write" : "chunk write", !p.finite, done, extra, [&]() {
      if (rvalue && !aliased) st = way == 0 ? x.SetLocation(l(0), l(1), l(2), type, std::move(v)) : way == 1 ? x.SetLocation3d(l.head<3>(), type, std::move(v)) : x.SetLocation4d(l, type, std::move(v));
      else st = way == 0 ? x.SetLocation(l(0), l(1), l(2), type, *src) : way == 1 ? x.SetLocation3d(l.head<3>(), type, *src) : x.SetLocation4d(l, type, *src);
    });
    Quiet q;
    if (!p.finite) { probe("non-finite location"); return; }
    if (e == RETURNED)
    {
      const DSHVGSetStatus want = g_hooks->vetoed ? DSHVGSetStatus::MUTABLE_ACCESS_PROHIBITED : cell ? DSHVGSetStatus::SET_CELL : DSHVGSetStatus::SET_CHUNK;
      if (st != want) fail("wrong-status", "a write reports status %d instead of %d", (int)st, (int)want);
      if (!g_hooks->vetoed)
      {
        const T* r = found(a, l); if (!r || W::get(*r) != id) fail("lost-value", "a location does not read back what was just written to it");
        if (p.spots.size() > 1) probe("write at a cell boundary"); probe(aliased ? "write of one of the grid's own values" : cell ? "cell write" : "chunk write");
      }
      else probe("write vetoed");
    }
    check_hook(w, p.frame, e == RETURNED && !g_hooks->vetoed, "write");
  }
  void refused_uninit(size_t a)
  {
    const SModel w = m[a]; G& x = *g[a]; const T v = W::make(1); const uint64_t way = draw(3);
    g_hooks->reset(); EndCheck ec; std::string msg; DSHVGSetStatus st = DSHVGSetStatus::MUTABLE_ACCESS_PROHIBITED;
    const End e = attempt_op([&]() { if (way == 0) st = x.SetLocation(0.1, 0.2, 0.3, DSHVGSetType::SET_CELL, v); else if (way == 1) (void)x.GetLocationImmutable(0.1, 0.2, 0.3); else (void)x.GetLocationMutable(0.1, 0.2, 0.3); }, &msg);
    Quiet q; op();
    if (e == RETURNED && way == 0 && st != DSHVGSetStatus::MUTABLE_ACCESS_PROHIBITED) fail("accepted", "a grid without sizes was written");
    if (e != STDEXC) ec.check(e, "use of a grid without sizes", msg);
    settle(a, {w}, "use of a grid without sizes", true); probe("grid without sizes");
  }
  void get_op(size_t a)
  {
    const SModel w = m[a]; const G& x = *g[a]; if (!w.init) { refused_uninit(a); return; }
    const Place p = draw_place(w); const V4& l = p.loc; const uint64_t way = draw(3); bool has = false; DSHVGFoundStatus st = DSHVGFoundStatus::NOT_FOUND; int got = -1;
    auto take = [&](DynamicSpatialHashedGridQuery<const T> r) { DynamicSpatialHashedGridQuery<const T> c(r), d; d = c; has = d.HasValue() && (bool)d; st = d.FoundStatus(); if (has) { Quiet q; got = W::get(d.Value()); } };
    const End e = run(a, "read", !p.finite, {w}, {}, [&]() {
      take(way == 0 ? x.GetLocationImmutable(l(0), l(1), l(2)) : way == 1 ? x.GetLocationImmutable3d(l.head<3>()) : x.GetLocationImmutable4d(l));
      if (!p.finite) { if (has) fail("conjured-value", "a location that is not finite is found"); throw std::runtime_error("not found, as it should be"); }
    });
    Quiet q; if (!g_hooks->locs.empty() || g_hooks->raw) fail("hook-misled", "a read was announced as a change");
    if (e == RETURNED && p.finite) check_found(w, p, has, st, got, "read");
  }
  void check_found(const SModel& w, const Place& p, bool has, DSHVGFoundStatus st, int got, const char* what)
  {
    for (auto& s : p.spots)
    {
      const auto it = w.chunks.find(s.chunk);
      if (it == w.chunks.end()) { if (!has && st == DSHVGFoundStatus::NOT_FOUND) return; continue; }
      if (has && st == (it->second.cell ? DSHVGFoundStatus::FOUND_IN_CELL : DSHVGFoundStatus::FOUND_IN_CHUNK) && got == it->second.v[it->second.cell ? (size_t)place(w.d, s.cell) : 0]) return;
    }
    fail("wrong-content", "a %s gives status %d and value %d", what, (int)st, got);
  }
  void mutable_op(size_t a)
  {
    const SModel w = m[a]; G& x = *g[a]; if (!w.init) { refused_uninit(a); return; }
    Place p = draw_place(w); while (!p.finite) p = draw_place(w);
    const V4& l = p.loc; const uint64_t way = draw(3); const int id = draw_id<T>(); T v = W::make(id); bool has = false; DSHVGFoundStatus st = DSHVGFoundStatus::NOT_FOUND; int got = -1;
    std::vector<SModel> done;
    for (auto& s : p.spots) { const auto it = w.chunks.find(s.chunk); if (it == w.chunks.end()) done.push_back(w); else done.push_back(with(w, s, it->second.cell, id)); }
    auto take = [&](DynamicSpatialHashedGridQuery<T> r) { has = r.HasValue(); st = r.FoundStatus(); if (has) { T& t = r.Value(); { Quiet q; got = W::get(t); } std::swap(t, v); } };
    run(a, "mutable access", false, done, {}, [&]() { take(way == 0 ? x.GetLocationMutable(l(0), l(1), l(2)) : way == 1 ? x.GetLocationMutable3d(l.head<3>()) : x.GetLocationMutable4d(l)); });
    Quiet q;
    if (g_hooks->vetoed) { if (has || st != DSHVGFoundStatus::MUTABLE_ACCESS_PROHIBITED) fail("wrong-status", "vetoed mutable access reports status %d", (int)st); probe("mutable access vetoed"); }
    else { check_found(w, p, has, st, got, "mutable access"); probe(has ? "mutable access" : "mutable access to nothing"); }
    check_hook(w, p.frame, has, "mutable access");
  }
  // changes made to the chunks themselves
  void raw_op(size_t a)
  {
    const SModel w = m[a]; G& x = *g[a]; const uint64_t way = draw(6); const int id = draw_id<T>(); T v = W::make(id); const bool allowed = !has_tag<G> || g_hooks->allows_raw();
    SModel n = w; std::vector<SModel> extra; I3 at = {0, 0, 0}, cell = {0, 0, 0};
    if (!w.chunks.empty())
    {
      auto it = w.chunks.begin(); std::advance(it, (long)draw(w.chunks.size())); at = it->first; cell = nth(w.d, (int64_t)draw((uint64_t)w.d.total())); if (way == 1 && !it->second.cell) cell = {0, 0, 0}; const Spot s{at, cell};
      if (way == 0) n.chunks.erase(at);
      else if (way == 1 || way == 2) n = with(w, s, it->second.cell, id);
      else if (way == 3) { n = with(w, s, true, id); extra.push_back(opened(w, s, true)); }
      else if (way == 4) n = with(w, s, false, id);
      else n.chunks.clear();
    }
    const End e = run(a, "change of the internal chunks", !allowed, {n}, extra, [&]() {
      auto& chunks = x.GetMutableInternalChunks();
      auto it = chunks.begin();
      for (; it != chunks.end(); ++it)
      {
        bool here = true; for (size_t k = 0; k < 3; k++) here &= (int64_t)std::llround(it->first.Base()((int)k) / (w.d.c[k] * (double)w.d.n[k])) == at[k];
        if (here) break;
      }
      if (it == chunks.end()) { if (!w.chunks.empty()) fail("lost-value", "a chunk is missing from the enumerated chunks"); return; }
      switch (way)
      {
        case 0: chunks.erase(it); break;
        case 1: { auto r = it->second.GetIndexMutable(GridIndex(cell[0], cell[1], cell[2])); if (!r) fail("lost-value", "a cell of a chunk is not found"); std::swap(r.Value(), v); break; }
        case 2: { auto r = it->second.GetLocationMutable4d(centre(w, at, cell)); if (!r) fail("lost-value", "a cell of a chunk is not found"); std::swap(r.Value(), v); break; }
        case 3: if (it->second.SetCellLocation4d(centre(w, at, cell), v) != DSHVGSetStatus::SET_CELL) fail("wrong-status", "a cell write to a chunk reports another status"); break;
        case 4: if (it->second.SetChunkValue(std::move(v)) != DSHVGSetStatus::SET_CHUNK) fail("wrong-status", "a chunk write reports another status"); break;
        default: chunks.clear();
      }
    });
    Quiet q;
    if constexpr (has_tag<G>) if (g_hooks->raw != 1) fail("hook-skipped", "access to the internal chunks was announced %d times", g_hooks->raw);
    if (!g_hooks->locs.empty()) fail("hook-misled", "access to the internal chunks was announced as access to a cell");
    probe(!allowed ? "raw access vetoed" : e == RETURNED ? "raw access" : "raw access failed");
  }
  void value_op(size_t a)
  {
    const SModel w = m[a]; G& x = *g[a]; const uint64_t way = draw(3); const int id = draw_id<T>(); const T v = W::make(id); SModel n = w; const Iso t = draw_origin();
    if (way == 0) n.def = id; else if (way == 1) n.t = t; else n.tag = has_tag<G> ? id : 0;
    run(a, "setting a grid attribute", false, {n}, {}, [&]() { if (way == 0) x.SetDefaultValue(v); else if (way == 1) x.UpdateOriginTransform(t); else if constexpr (has_tag<G>) x.tag = id; });
  }
  void copy_op(size_t a)
  {
    const size_t b = 1 - a; const uint64_t way = draw(6); const SModel old = m[a], src = m[b];
    g_hooks->reset(); EndCheck ec; std::string msg; std::unique_ptr<G> made; bool moved = false;
    const End e = attempt_op([&]() {
      switch (way)
      {
        case 0: made = std::make_unique<G>(static_cast<const G&>(*g[b])); break;
        case 1: { auto c = static_cast<const G&>(*g[b]).Clone(); G* p = dynamic_cast<G*>(c.get()); if (!p) fail("wrong-type", "a clone has another type"); (void)c.release(); made.reset(p); break; }
        case 2: *g[a] = static_cast<const G&>(*g[b]); break;
        case 3: moved = true; made = std::make_unique<G>(std::move(*g[b])); break;
        case 4: moved = true; *g[a] = std::move(*g[b]); break;
        default: { const G& self = *g[a]; *g[a] = self; }
      }
    }, &msg);
    Quiet q; op(); event("copy", (int64_t)way, e); ec.check(e, "copy", msg);
    if (made) g[a] = std::move(made);
    if (way == 5) { settle(a, {old}, "self-assignment", e != RETURNED); return; }
    if (e == RETURNED) { settle(a, {src}, way < 3 ? "copy" : "move", false); probe(way < 3 ? "copied" : "moved"); }
    else { settle(a, {old, src}, "copy", true); probe(way == 2 ? "copy-assignment failed" : "copy failed"); }
    if (!moved) settle(b, {src}, "being copied", e != RETURNED);
    else refill = true;
  }
  void serial_op(size_t a)
  {
    const size_t b = draw(2); const SModel src = m[b], old = m[a]; Buf buf((size_t)draw(5), 7); const uint64_t off = buf.size(); uint64_t wrote = 0, readn = 0;
    run(b, "serialising", false, {src}, {}, [&]() { if constexpr (has_static_io<G, T>) wrote = G::Serialize(*g[b], buf, ws); else wrote = g[b]->SerializeSelf(buf, ws); });
    if (wrote == 0) return;
    { Quiet q; if (buf.size() - off != wrote) fail("wrong-size", "serialising reports %lu bytes and wrote %lu", wrote, buf.size() - off); }
    const bool cut = chance(1, 4); const uint64_t tail = draw(4); const bool fresh = has_static_io<G, T> && chance(1, 2);
    if (cut) { buf.resize(off + draw(wrote)); injected(F_CORRUPT); } else buf.resize(buf.size() + tail, 9);
    SModel part = src; part.tag = old.tag;
    std::unique_ptr<G> made; EndCheck ec; std::string msg;
    const End e = attempt_op([&]() {
      if constexpr (has_static_io<G, T>) if (fresh) { auto d = G::Deserialize(buf, off, rs); readn = d.BytesRead(); made = std::make_unique<G>(std::move(d.MutableValue())); return; }
      readn = g[a]->DeserializeSelf(buf, off, rs);
    }, &msg);
    Quiet q; op();
    if (cut && e == RETURNED) fail("accepted", "cut data was deserialised");
    if (!(cut && e == STDEXC)) ec.check(e, "deserialising", msg);
    if (e == RETURNED)
    {
      if (made) g[a] = std::move(made);
      settle(a, {src}, "deserialising", false); probe("round trip");
      if (readn != wrote) fail("wrong-size", "deserialising read %lu bytes of %lu", readn, wrote);
      return;
    }
    if (fresh) settle(a, {old}, "deserialisation", true);
    else settle(a, has_tag<G> ? std::vector<SModel>{old, part, src} : std::vector<SModel>{old, src}, "deserialisation", true);
    probe(cut ? "cut data refused" : "deserialising failed");
  }
  void start(size_t a)
  {
    for (;;)
    {
      if (chance(1, 10)) { Quiet q; g[a] = std::make_unique<G>(); m[a] = SModel(); break; }
      SModel n; n.init = true; n.d = draw_dim(3); if (chance(1, 4)) { for (auto& k : n.d.n) k = 1 + k / 3; n.d.n[draw(3)] = 2 + (int64_t)draw(22); }
      if (chance(1, 6))
      {
        // sizes where rounding matters at the upper end of a chunk
        static const std::vector<std::pair<double, int64_t>> kOdd = {{1.1, 7}, {0.07, 9}, {0.07, 13}, {0.1, 17}, {0.3, 19}, {0.05, 17}};
        const size_t ax = draw(3); const auto& o = pick(kOdd); for (auto& k : n.d.n) k = 1; n.d.n[ax] = o.second; n.d.c[0] = n.d.c[1] = n.d.c[2] = o.first;
      } n.def = draw_id<T>(); const uint64_t how = draw(3); n.t = draw_origin(); const bool placed = chance(2, 3); if (!placed) n.t = Iso::Identity();
      const GridSizes s = make_sizes(n.d, how); const T vd = W::make(n.def); const Iso t = n.t; const size_t expect = draw(20); EndCheck ec; std::string msg;
      const End e = attempt_op([&]() { if (placed) g[a] = std::make_unique<G>(t, s, vd, expect); else g[a] = std::make_unique<G>(s, vd, expect); }, &msg);
      Quiet q; ec.check(e, "construction", msg);
      if (e == RETURNED) { settle(a, {n}, "construction", false); break; }
    }
  }
  void go()
  {
    start(0); start(1);
    const size_t n = chance(1, 80) && m[0].d.total() + m[1].d.total() < 100 ? 60 + draw(150) : 3 + draw(18);
    for (size_t i = 0; i < n; i++)
    {
      const size_t a = chance(2, 3) ? 0 : 1;
      if (has_tag<G> && chance(1, 5)) { g_hooks->mode = chance(1, 3) ? 0 : (int)draw(4); g_hooks->salt = (int64_t)draw(4); }
      switch (draw(14))
      {
        case 13: raw_op(a); break;
        case 0: case 1: case 2: case 3: case 4: set_op(a); break;
        case 5: get_op(a); break;
        case 6: case 7: mutable_op(a); break;
        case 8: value_op(a); break;
        case 9: case 10: copy_op(a); break;
        default: serial_op(a);
      }
      if (refill) { refill = false; start(1 - a); }
      Quiet q; settle(1 - a, {m[1 - a]}, "an operation on another grid", false);
      state(mix(mix((uint64_t)m[0].chunks.size(), (uint64_t)m[1].chunks.size()), (uint64_t)m[0].d.total()));
    }
  }
};
// A chunk on its own.
template <typename T>
struct ChunkRun
{
  using W = Val<T>; using C = DynamicSpatialHashedVoxelGridChunk<T>;
  struct CModel { int fill = 0; std::vector<int> v; I3 at = {0, 0, 0}; Dim d; };   // 0 not filled, 1 whole, 2 cells
  C c[2]; CModel m[2]; ser::Serializer<T> ws = W::write; ser::Deserializer<T> rs = W::read;
  static V4 base(const CModel& w) { return V4(w.d.c[0] * (double)(w.at[0] * w.d.n[0]), w.d.c[1] * (double)(w.at[1] * w.d.n[1]), w.d.c[2] * (double)(w.at[2] * w.d.n[2]), 1.0); }
  static V4 loc(const CModel& w, const I3& i, double o) { V4 l = base(w); for (size_t a = 0; a < 3; a++) l((int)a) += w.d.c[a] * ((double)i[a] + o); return l; }
  std::string differs(const C& x, const CModel& w)
  {
    if (x.FillStatus() != (w.fill == 0 ? DSHVGFillStatus::NOT_FILLED : w.fill == 1 ? DSHVGFillStatus::CHUNK_FILLED : DSHVGFillStatus::CELL_FILLED)) return "its fill status";
    if (w.fill == 0) return "";
    for (int64_t k = 0; k < w.d.total(); k++)
    {
      const I3 i = nth(w.d, k); const auto r = x.GetLocationImmutable4d(loc(w, i, 0.4)); const int want = w.v[w.fill == 2 ? (size_t)k : 0];
      if (!r || W::get(r.Value()) != want) return "a value";
      if (w.fill == 2 || k == 0) { const auto r2 = x.GetIndexImmutable(GridIndex(i[0], i[1], i[2])); if (!r2 || &r2.Value() != &r.Value()) return "a value by index"; }
      if ((x.GetCellLocationInGridFrame(GridIndex(i[0], i[1], i[2])) - loc(w, i, 0.5)).norm() > 1e-9) return "a cell's location";
    }
    V4 mid = base(w); for (size_t a = 0; a < 3; a++) mid((int)a) += 0.5 * w.d.c[a] * (double)w.d.n[a];
    if ((x.GetChunkCenterInGridFrame() - mid).norm() > 1e-9) return "its centre";
    for (int64_t v : {(int64_t)-1, w.d.n[1]}) if (attempt([&]() { (void)x.GetIndexImmutable(GridIndex(0, v, 0)); }) != STDEXC) fail("outside-found", "a cell outside of a chunk is found");
    return "";
  }
  void settle(size_t a, const std::vector<CModel>& cands, const char* what, bool failed)
  {
    Quiet q; std::string first;
    for (auto& k : cands) { const std::string d = differs(c[a], k); if (d.empty()) { m[a] = k; return; } if (first.empty()) first = d; }
    fail(failed ? "garbled-by-failure" : "wrong-content", "after %s %s a chunk differs in %s", failed ? "a failed" : "", what, first.c_str());
  }
  void go()
  {
    m[0].d = m[1].d = Dim();
    const size_t n = 3 + draw(14);
    for (size_t j = 0; j < n; j++)
    {
      const size_t a = draw(2), b = 1 - a; const CModel w = m[a]; CModel nw = w; std::vector<CModel> extra; bool refuse = false, ignore = false; const uint64_t k = draw(8); const int id = draw_id<T>(); T v = W::make(id); const T* src = &v; int sid = id;
      const I3 i = w.fill ? nth(w.d, (int64_t)draw((uint64_t)w.d.total())) : I3{0, 0, 0}; const V4 l = loc(w, i, 0.1 + 0.8 * unit()); const bool rvalue = chance(1, 3), cell = chance(1, 2);
      if (w.fill && chance(1, 4)) { Quiet q; const I3 o = nth(w.d, (int64_t)draw((uint64_t)w.d.total())); src = &static_cast<const C&>(c[a]).GetLocationImmutable4d(loc(w, o, 0.5)).Value(); sid = W::get(*src); }
      CModel made; made.d = draw_dim(3); made.at = {range(-3, 3), range(-3, 3), range(-3, 3)}; made.fill = cell ? 2 : 1; made.v.assign(cell ? (size_t)made.d.total() : 1, id);
      const GridSizes gs = make_sizes(made.d, 2); Buf buf; uint64_t wrote = 0, readn = 0; const bool cut = chance(1, 4), fresh = chance(1, 2); const char* what = "operation";
      if (k == 5) { Quiet q; wrote = C::Serialize(c[b], buf, ws); if (cut) buf.resize((size_t)draw(wrote)); }
      if (k == 5 && cut) injected(F_CORRUPT);
      EndCheck ec; std::string msg;
      const End e = attempt_op([&]() {
        switch (k)
        {
          case 0: what = "construction"; { Quiet q; nw = made; } c[a] = C(ChunkRegion(base(made)), gs, cell ? DSHVGFillType::FILL_CELL : DSHVGFillType::FILL_CHUNK, v); break;
          case 1: case 2: what = "cell write"; if (w.fill == 0) refuse = true; else { if (w.fill == 1) { Quiet q; nw.v.assign((size_t)w.d.total(), w.v[0]); nw.fill = 2; extra.push_back(nw); } { Quiet q; nw.v[(size_t)place(w.d, i)] = sid; } }
            { const auto s = rvalue && src == &v ? c[a].SetCellLocation4d(l, std::move(v)) : c[a].SetCellLocation4d(l, *src); if (s != DSHVGSetStatus::SET_CELL) fail("wrong-status", "a cell write reports status %d", (int)s); } break;
          case 3: what = "chunk write"; if (w.fill == 0) refuse = true; { Quiet q; nw.fill = 1; nw.v = {sid}; }
            { const auto s = rvalue && src == &v ? c[a].SetChunkValue(std::move(v)) : c[a].SetChunkValue(*src); if (s != DSHVGSetStatus::SET_CHUNK) fail("wrong-status", "a chunk write reports status %d", (int)s); } break;
          case 4: what = "mutable access"; if (w.fill == 0) refuse = true; { auto r = c[a].GetLocationMutable4d(l); if (!r) fail("lost-value", "a cell of a chunk is not found"); { Quiet q; nw.v[w.fill == 2 ? (size_t)place(w.d, i) : 0] = id; } std::swap(r.Value(), v); } break;
          case 5: what = "deserialisation"; refuse = cut; { Quiet q; nw = m[b]; } if (fresh) { auto d = C::Deserialize(buf, 0, rs); readn = d.BytesRead(); c[a] = std::move(d.MutableValue()); } else readn = c[a].DeserializeSelf(buf, 0, rs); break;
          case 6: what = "copy"; { Quiet q; nw = m[b]; } { C t(static_cast<const C&>(c[b])); c[a] = std::move(t); } break;
          default: what = "read outside"; ignore = true; if (w.fill != 2) return; refuse = true; { V4 o = l; o(1) += (rvalue ? 1 : -1) * w.d.c[1] * (double)w.d.n[1]; if (cell) (void)static_cast<const C&>(c[a]).GetLocationImmutable4d(o); else (void)c[a].SetCellLocation4d(o, v); }
        }
      }, &msg);
      Quiet q; op(); event("chunk", (int64_t)k, e); (void)ignore;
      if (e == STDEXC && refuse) { settle(a, {w}, what, true); continue; }
      ec.check(e, what, msg);
      if (e == RETURNED && refuse) fail("accepted", "%s of a chunk was accepted although it must be refused", what);
      if (e == RETURNED) { if (k == 5 && readn != wrote) fail("wrong-size", "deserialising a chunk read %lu bytes of %lu", readn, wrote); settle(a, {nw}, what, false); }
      else { extra.push_back(w); extra.push_back(nw); settle(a, extra, what, true); probe("chunk operation failed for lack of memory"); }
      settle(b, {m[b]}, "an operation on another chunk", false); probe("chunk on its own");
    }
  }
};
// Maps with hundreds of chunks keep all of them, also through copies and data.
void many_chunks()
{
  using G = DynamicSpatialHashedVoxelGrid<int32_t>;
  const size_t n = 60 + draw(700); const int64_t nx = 1 + (int64_t)draw(3); const double size = chance(1, 2) ? 0.5 : 1.0;
  G g(GridSizes(size, nx, 1 + (int64_t)draw(2), 1), (int32_t)-1, draw(300));
  const auto dims = [&](const G& x) { const GridSizes z = x.GetChunkGridSizes(); return V3(z.XSize(), z.YSize(), z.ZSize()); };
  const V3 span = dims(g);
  std::map<I3, int32_t> want; std::vector<I3> names;
  const auto at = [&](const I3& c) { return V3(span(0) * (double)c[0] + size * 0.25, span(1) * (double)c[1] + size * 0.25, span(2) * (double)c[2] + size * 0.25); };
  const auto check = [&](const G& x, const char* what)
  {
    for (auto& [c, v] : want)
    {
      const V3 l = at(c); const auto r = x.GetLocationImmutable3d(l); const bool has = (bool)r; const int32_t got = has ? r.Value() : 0;
      Quiet q; if (!has || got != v) fail("wrong-content", "%s: cell of chunk (%lld, %lld, %lld) of %zu chunks reads %d, not %d", what, (long long)c[0], (long long)c[1], (long long)c[2], want.size(), has ? got : -999, v);
    }
    if (x.GetImmutableInternalChunks().size() != want.size()) fail("wrong-content", "%s: %zu chunks, not %zu", what, x.GetImmutableInternalChunks().size(), want.size());
    const V3 away = at({500, 3, 3}); if ((bool)x.GetLocationImmutable3d(away)) fail("wrong-content", "%s: a chunk nobody made", what);
  };
  for (size_t i = 0; i < n; i++)
  {
    const I3 c = {(int64_t)draw(21) - 10, (int64_t)draw(21) - 10, (int64_t)draw(9) - 4}; const V3 l = at(c);
    if (g.SetLocation3d(l, chance(1, 4) ? DSHVGSetType::SET_CHUNK : DSHVGSetType::SET_CELL, (int32_t)i) == DSHVGSetStatus::MUTABLE_ACCESS_PROHIBITED) fail("wrong-status", "a cell of a new chunk was not set");
    { Quiet q; want[c] = (int32_t)i; }
  }
  op(); probe("map of many chunks");
  check(g, "a map");
  const G copy(g); check(copy, "a copy");
  std::vector<uint8_t> buf; const uint64_t wrote = G::Serialize(g, buf, serialization::SerializeMemcpyable<int32_t>);
  const auto back = G::Deserialize(buf, 0, serialization::DeserializeMemcpyable<int32_t>);
  if (wrote != buf.size() || back.BytesRead() != wrote) fail("wrong-content", "%llu bytes written, %zu there, %llu read", (unsigned long long)wrote, buf.size(), (unsigned long long)back.BytesRead());
  check(back.Value(), "a decoded map");
}
void run_h02()
{
  if (chance(1, 60)) { many_chunks(); return; }
  Hooks h; g_hooks = &h; const bool faulty = chance(3, 4); g_faults = faulty ? bit(F_ALLOC) : 0;
  switch (draw(10))
  {
    case 9: { SparseRun<V4, DynamicSpatialHashedVoxelGrid<V4, AlignedStore>> r; r.go(); break; }
    case 7: { ChunkRun<std::string> r; r.go(); break; }
    case 8: { ChunkRun<int32_t> r; r.go(); break; }
    case 0: case 1: { SparseRun<std::string, DynamicSpatialHashedVoxelGrid<std::string>> r; r.go(); break; }
    case 2: case 3: { SparseRun<std::string, WatchedSparse<std::string>> r; r.go(); break; }
    case 4: { SparseRun<int32_t, DynamicSpatialHashedVoxelGrid<int32_t>> r; r.go(); break; }
    case 5: { SparseRun<uint8_t, WatchedSparse<uint8_t>> r; r.go(); break; }
    default: { SparseRun<V4, WatchedSparse<V4>> r; r.go(); }
  }
}

// ---- H03 sharing ------------------------------------------------------------------
// Each task owns some cells; no two tasks own the same one. Reads of cells nobody
// owns see the initial values; each task sees its own writes at once.
struct Act { int k; size_t cell; uint64_t way; int id; double at; };
template <typename T, bool sparse>
void shared_run(bool writers)
{
  using W = Val<T>; using DG = VoxelGrid<T>; using SG = DynamicSpatialHashedVoxelGrid<T>; using G = typename std::conditional<sparse, SG, DG>::type;
  const Dim d = draw_dim(sparse ? 3 : 4); const Iso t = draw_origin(); const size_t tasks = 2 + draw(sparse ? 2 : 3); const uint64_t kind = draw(3); const int threads = 2 + (int)draw(3);
  const uint32_t faults = chance(1, 3) ? kSchedAll : kSched;
  std::vector<I3> at; std::vector<I3> chunk; std::vector<int> init; std::vector<bool> whole;
  const T fill = W::make(1);
  std::unique_ptr<G> g;
  {
    if constexpr (sparse)
    {
      g = std::make_unique<G>(t, make_sizes(d, 2), fill, 8);
      SModel w; w.d = d;
      const size_t nc = 1 + draw(3);
      for (size_t c = 0; c < nc; c++)
      {
        const I3 ch = {(int64_t)c - 1, (int64_t)draw(3) - 1, -(int64_t)draw(2)}; const bool wh = c > 0 && chance(1, 4);
        for (int64_t k = 0; k < d.total(); k++)
        {
          const I3 i = nth(d, k); const int id = draw_id<T>();
          V4 l(0, 0, 0, 1); for (size_t a = 0; a < 3; a++) l((int)a) = d.c[a] * ((double)(ch[a] * d.n[a] + i[a]) + 0.5);
          if (wh && k) continue;
          g->SetLocation4d(t * l, wh ? DSHVGSetType::SET_CHUNK : DSHVGSetType::SET_CELL, W::make(id)); at.push_back(i); chunk.push_back(ch); init.push_back(id); whole.push_back(wh);
        }
      }
    }
    else
    {
      g = std::make_unique<G>(t, make_sizes(d, 2), fill);
      for (int64_t k = 0; k < d.total(); k++) { const I3 i = nth(d, k); const int id = draw_id<T>(); g->SetIndex(i[0], i[1], i[2], W::make(id)); at.push_back(i); chunk.push_back({0, 0, 0}); init.push_back(id); whole.push_back(false); }
    }
  }
  const size_t cells = at.size();
  std::vector<int> owner(cells, -1);
  if (writers) for (size_t c = 0; c < cells; c++) owner[c] = whole[c] ? -1 : (int)draw(tasks + 1) - 1;
  std::vector<std::vector<Act>> plan(tasks);
  for (size_t i = 0; i < tasks; i++)
  {
    const size_t n = 2 + draw(14);
    for (size_t j = 0; j < n; j++)
    {
      Act a; a.cell = draw(cells); a.k = owner[a.cell] == (int)i ? (int)draw(4) : 0; a.way = draw(5); a.id = draw_id<T>(); a.at = 0.1 + 0.8 * unit();
      if (!writers && chance(1, 4)) a.k = 10 + (int)draw(5);
      if (owner[a.cell] != -1 && owner[a.cell] != (int)i) continue;
      plan[i].push_back(a);
    }
  }
  std::vector<int> now = init;
  auto frame = [&](size_t c, double o) { V4 l(0, 0, 0, 1); for (size_t a = 0; a < 3; a++) l((int)a) = d.c[a] * ((double)(chunk[c][a] * d.n[a] + at[c][a]) + o); return V4(t * l); };
  auto check_copy = [&](const G& x)
  {
    Quiet q;
    for (size_t c = 0; c < cells; c++)
    {
      auto r = x.GetLocationImmutable4d(frame(c, 0.5)); if (!r || W::get(r.Value()) != init[c]) fail("wrong-content", "a copy made while others read the grid differs in cell %zu", c);
    }
  };
  auto task = [&](int who)
  {
    for (auto& a : plan[(size_t)who])
    {
      V4 l; GridIndex gi; T v; int64_t di = 0;
      { Quiet q; l = frame(a.cell, a.at); gi = GridIndex(at[a.cell][0], at[a.cell][1], at[a.cell][2]); v = W::make(a.id); if constexpr (!sparse) di = place(d, at[a.cell]); }
      const G& cx = *g; int got = -1; bool has = false; const V3 l3 = l.head<3>();
      auto saw = [&](const auto& r) { has = (bool)r; if (has) { const T copy(r.Value()); Quiet q; got = W::get(copy); } };
      if (a.k == 0)
      {
        if constexpr (sparse) { if (a.way % 3 == 0) saw(cx.GetLocationImmutable(l(0), l(1), l(2))); else if (a.way % 3 == 1) saw(cx.GetLocationImmutable3d(l3)); else saw(cx.GetLocationImmutable4d(l)); }
        else if (a.way == 0) saw(cx.GetIndexImmutable(gi)); else if (a.way == 1) saw(cx.GetLocationImmutable3d(l3)); else if (a.way == 2) saw(cx.GetLocationImmutable4d(l));
        else if (a.way == 3) { const T copy(cx.GetDataIndexImmutable(cx.GridIndexToDataIndex(gi))); Quiet q; has = true; got = W::get(copy); }
        else { const T copy(cx.GetImmutableRawData()[(size_t)di]); Quiet q; has = true; got = W::get(copy); }
        Quiet q; op(); if (!has || got != now[a.cell]) fail("wrong-content", "task %d reads %d from cell %zu, which holds %d", who, got, a.cell, now[a.cell]); probe("shared read");
      }
      else if (a.k < 10)
      {
        if constexpr (sparse)
        {
          if (a.k == 3) { auto r = g->GetLocationMutable4d(l); if (r) { r.Value() = v; has = true; } }
          else { const DSHVGSetStatus s = a.way % 3 == 0 ? g->SetLocation(l(0), l(1), l(2), DSHVGSetType::SET_CELL, v) : a.way % 3 == 1 ? g->SetLocation3d(l3, DSHVGSetType::SET_CELL, std::move(v)) : g->SetLocation4d(l, DSHVGSetType::SET_CELL, v); has = s == DSHVGSetStatus::SET_CELL; }
        }
        else if (a.k == 3) { if (a.way == 0) { g->GetDataIndexMutable(di) = v; has = true; } else { auto r = a.way == 1 ? g->GetLocationMutable3d(l3) : a.way == 2 ? g->GetLocationMutable4d(l) : g->GetIndexMutable(gi); if (r) { r.Value() = v; has = true; } } }
        else
        {
          if (a.way == 0) has = (a.k == 1 ? g->SetIndex(gi, v) : g->SetIndex(gi, std::move(v))) == AccessStatus::SUCCESS; else if (a.way == 1) has = g->SetLocation3d(l3, std::move(v)) == AccessStatus::SUCCESS; else if (a.way == 2) has = g->SetLocation4d(l, v) == AccessStatus::SUCCESS;
          else if (a.way == 3) { g->SetDataIndex(di, std::move(v)); has = true; } else has = g->SetIndex(gi.X(), gi.Y(), gi.Z(), std::move(v)) == AccessStatus::SUCCESS;
        }
        Quiet q; op(); if (!has) fail("wrong-status", "a write to a cell failed"); now[a.cell] = a.id; probe("write among other tasks");
      }
      else switch (a.k)
      {
        case 10: { G c(cx); check_copy(c); probe("shared copy"); op(); break; }
        case 11: { auto c = cx.Clone(); G* p = dynamic_cast<G*>(c.get()); if (p) check_copy(*p); op(); break; }
        case 12: { Buf b; cx.SerializeSelf(b, W::write); G c; c.DeserializeSelf(b, 0, W::read); check_copy(c); probe("shared serialisation"); op(); break; }
        case 13: { G c; c = cx; check_copy(c); op(); break; }
        default:
        {
          const T copy(cx.GetDefaultValue()); const Iso it = cx.GetOriginTransform() * cx.GetInverseOriginTransform(); const V3 cs = cx.GetCellSizes(); size_t n = 0;
          if constexpr (sparse) { for (auto& kv : cx.GetImmutableInternalChunks()) { if (kv.second.FillStatus() == DSHVGFillStatus::CELL_FILLED) { auto r = kv.second.GetIndexImmutable(GridIndex(0, 0, 0)); if (r) n++; } } }
          else { n = (size_t)cx.GetTotalCells(); if (!cx.LocationInBounds3d(l3) || cx.LocationToGridIndex3d(l3) != gi) fail("index-mismatch", "a location is in another cell"); }
          Quiet q; op(); if (W::get(copy) != 1 || !it.isApprox(Iso::Identity(), 1e-9) || cs[0] != d.c[0] || n == 0) fail("wrong-content", "grid attributes differ");
        }
      }
    }
  };
  {
    FaultScope fs(faults);
    if (kind == 0) { Client c[5]; for (size_t i = 0; i < tasks; i++) c[i].start([&, i]() { task((int)i); }); }
    else if (kind == 1) parallelism::DynamicParallelForIndexLoop(DegreeOfParallelism(threads), 0, (int64_t)tasks, [&](int32_t, int64_t i) { task((int)i); }, ParallelForBackend::ASYNC);
    else parallelism::StaticParallelForIndexLoop(DegreeOfParallelism(threads), 0, (int64_t)tasks, [&](int32_t, int64_t i) { task((int)i); }, ParallelForBackend::OPENMP);
  }
  Quiet q;
  for (size_t c = 0; c < cells; c++)
  {
    auto r = static_cast<const G&>(*g).GetLocationImmutable4d(frame(c, 0.5));
    if (!r || W::get(r.Value()) != now[c]) fail("wrong-content", "cell %zu holds %d after all tasks, %d was written", c, r ? W::get(r.Value()) : -1, now[c]);
  }
  probe(writers ? "disjoint writers" : "readers only");
  state(mix(mix(cells, tasks), kind));
}
void run_h03()
{
  Hooks h; g_hooks = &h;
  const bool writers = chance(2, 3);
  switch (draw(6))
  {
    case 0: shared_run<std::string, false>(writers); break;
    case 1: shared_run<std::string, true>(writers); break;
    case 2: shared_run<int32_t, false>(writers); break;
    case 3: shared_run<uint8_t, true>(writers); break;
    case 4: shared_run<uint8_t, false>(writers); break;
    default: shared_run<V4, true>(writers);
  }
}
}  // namespace

namespace sim
{
const Property kProperties[] = {
  {"H01", run_h01, 120000000, bit(F_ALLOC) | bit(F_CORRUPT), true},
  {"H02", run_h02, 120000000, bit(F_ALLOC) | bit(F_CORRUPT), true},
  {"H03", run_h03, 40000000, kSchedAll, true},
};
const size_t kNumProperties = sizeof kProperties / sizeof kProperties[0];
}
