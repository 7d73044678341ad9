// G01 optional and either-or values.
#include "ctx.hpp"
#include <common_robotics_utilities/maybe.hpp>
#include <cmath>
#include <map>
#include <memory>
#include <string>

// The either-or type is internal: if it is ever gone, only the public optional
// types are exercised.
namespace common_robotics_utilities
{
CRU_NAMESPACE_BEGIN
namespace internal { template <typename A, typename B> struct TaggedUnion; }
CRU_NAMESPACE_END
}

using namespace sim;
using namespace common_robotics_utilities;
using namespace ctx;

namespace
{
// Which objects exist: every construction and destruction is recorded.
struct Registry
{
  std::map<const void*, int> live; bool threads = false;
  void born(const void* p) { Quiet q; if (live.count(p)) fail("overwritten", "an object was constructed over a living one"); live[p] = 1; }
  void died(const void* p) { Quiet q; if (!live.erase(p)) fail("double-destroy", "an object was destroyed that does not exist"); }
  bool has(const void* p) const { Quiet q; return live.count(p) > 0; }
};
Registry* g_reg;
uint32_t g_faults;                     // active only around the operations
template <typename F> End attempt_op(const F& f) { FaultScope fs(g_faults); return attempt(f); }
void maybe_throw() { if (fault(F_THROW)) throw_injected(1); }
constexpr int kGone = -1;              // value of a moved-from object

// kind: 0 copy and move may throw, 1 only copies throw, 2 holds memory, 3 big and
// aligned, 4 has a constant member
template <int kind> struct Store { };
template <> struct Store<2> { std::vector<int> mem; };
template <> struct alignas(16) Store<3> { double pad[9] = {0}; };
template <> struct Store<4> { const int fixed = 4; };
template <int kind>
struct Obj
{
  Store<kind> s; int v;
  explicit Obj(int value) : v(value) { fill(); g_reg->born(this); }
  Obj(const Obj& o) : v(o.value()) { maybe_throw(); fill(); g_reg->born(this); }
  Obj(Obj&& o) noexcept(kind == 1) : v(o.value()) { if (kind != 1) maybe_throw(); take(o); o.v = kGone; g_reg->born(this); }
  Obj& operator=(const Obj& o) { value(); const int n = o.value(); maybe_throw(); if constexpr (kind == 2) s.mem = o.s.mem; v = n; return *this; }
  Obj& operator=(Obj&& o) noexcept(kind == 1) { value(); const int n = o.value(); if (kind != 1) maybe_throw(); if (this != &o) { take(o); o.v = kGone; } v = n; return *this; }
  ~Obj() { g_reg->died(this); v = -77; }
  int value() const
  {
    if (!g_reg->has(this)) fail("dead-object", "an object is used that does not exist");
    if (reinterpret_cast<uintptr_t>(this) % alignof(Obj)) fail("misaligned", "an object is not aligned");
    if constexpr (kind == 2) if (v != kGone && (s.mem.size() != 3 || s.mem[0] != v)) fail("bad-content", "an object lost its content");
    return v;
  }
  void set(int n) { value(); v = n; if constexpr (kind == 2) s.mem.assign(3, n); }
  void fill() { if constexpr (kind == 2) { if (v != kGone) s.mem.assign(3, v); } }
  void take(Obj& o) { (void)o; if constexpr (kind == 2) { s.mem = std::move(o.s.mem); o.s.mem.clear(); } }
};
template <typename T> struct Ops;
template <int k> struct Ops<Obj<k>> { static Obj<k> make(int v) { return Obj<k>(v); } static int get(const Obj<k>& o) { return o.value(); } static void set(Obj<k>& o, int n) { o.set(n); } static constexpr bool counted = true, loses = true; };
template <> struct Ops<int> { static int make(int v) { return v; } static int get(int v) { return v; } static void set(int& o, int n) { o = n; } static constexpr bool counted = false, loses = false; };
template <> struct Ops<std::string>
{
  static std::string make(int v) { return std::string(30, 'a') + std::to_string(v); }
  static int get(const std::string& s) { return s.size() > 30 ? std::stoi(s.substr(30)) : kGone; }
  static void set(std::string& s, int n) { s = make(n); } static constexpr bool counted = false, loses = true;
};
template <> struct Ops<std::vector<int>>
{
  static std::vector<int> make(int v) { return std::vector<int>(4, v); }
  static int get(const std::vector<int>& s) { return s.empty() ? kGone : s[0]; }
  static void set(std::vector<int>& s, int n) { s = make(n); } static constexpr bool counted = false, loses = true;
};
template <> struct Ops<Eigen::Vector4d>
{
  static Eigen::Vector4d make(int v) { return Eigen::Vector4d::Constant(v); }
  static int get(const Eigen::Vector4d& s) { return (int)s[0]; }
  static void set(Eigen::Vector4d& s, int n) { s.setConstant(n); } static constexpr bool counted = false, loses = false;
};

struct MOp { int k = 0; size_t a = 0, b = 0; int v = 0; };
constexpr size_t kSlots = 4;
std::vector<MOp> draw_ops(uint64_t kinds)
{
  std::vector<MOp> r; const size_t n = 2 + draw(20);
  for (size_t i = 0; i < n; i++) { MOp o; o.k = chance(1, 3) ? (int)(kinds / 3 + draw(kinds / 3)) : (int)draw(kinds); o.a = draw(kSlots); o.b = draw(kSlots); o.v = (int)draw(1000); r.push_back(o); }
  return r;
}
// What one slot may hold: nothing, or one of these values.
struct Expect { bool exists = false; std::vector<int> vals; bool none = false; bool any = false; };

template <typename T>
struct OptionalRun
{
  using M = OwningMaybe<T>; using V = typename std::remove_const<T>::type; using O = Ops<V>;
  std::unique_ptr<M> m[kSlots]; Expect x[kSlots]; std::vector<M, OwningMaybeAllocator<T>> vec; std::vector<Expect> xv;
  size_t engaged(const M& v) const { return v.HasValue() ? 1 : 0; }
  void check_one(const M& v, Expect& e, const char* what, size_t i)
  {
    const bool has = v.HasValue();
    if (has != (bool)v) fail("inconsistent", "HasValue and the bool conversion differ");
    if (!has)
    {
      if (!e.none) fail("lost-value", "%s %zu lost its value", what, i);
      bool threw = false; try { (void)v.Value(); } catch (const std::exception&) { threw = true; }
      if (!threw) fail("absent-read", "reading an absent value did not fail");
      bool threw2 = false; try { (void)const_cast<M&>(v).Value(); } catch (const std::exception&) { threw2 = true; }
      if (!threw2) fail("absent-read", "reading an absent value did not fail");
      e.any = false; e.vals.clear(); return;
    }
    const int got = O::get(v.Value());
    if (O::get(const_cast<M&>(v).Value()) != got) fail("inconsistent", "the two accessors differ");
    if (e.any) { e.any = false; e.none = false; e.vals = {got}; return; }
    if (std::find(e.vals.begin(), e.vals.end(), got) == e.vals.end())
    { if (e.vals.empty()) fail("conjured-value", "%s %zu has value %d, expected none", what, i, got); fail("wrong-value", "%s %zu has value %d, expected %d", what, i, got, e.vals[0]); }
    e.vals = {got}; e.none = false;
  }
  void check()
  {
    Quiet q;
    size_t n = 0;
    for (size_t i = 0; i < kSlots; i++)
    {
      if ((bool)m[i] != x[i].exists) fail("harness", "slot");
      if (m[i]) { check_one(*m[i], x[i], "slot", i); n += engaged(*m[i]); }
    }
    if (vec.size() != xv.size()) fail("harness", "vector");
    for (size_t i = 0; i < vec.size(); i++) { check_one(vec[i], xv[i], "element", i); n += engaged(vec[i]); }
    if (O::counted && g_reg->live.size() != n) fail(g_reg->live.size() > n ? "leaked-object" : "missing-object", "%zu objects exist, %zu values are held", g_reg->live.size(), n);
    state(h2(n, vec.size()));
  }
  static uint64_t h2(uint64_t a, uint64_t b) { return mix(mix(5, a), b); }
  static Expect known(int v) { Expect e; e.exists = true; e.vals = {v}; return e; }
  static Expect empty() { Expect e; e.exists = true; e.none = true; return e; }
  // after a failed operation: old content, new content or nothing
  void unsure(Expect& e, const Expect& n) { for (int v : n.vals) e.vals.push_back(v); e.none = true; }
  void moved(Expect& e) { if (!e.vals.empty() && O::loses) { e.vals = {kGone}; if (!O::counted) { e.any = true; e.none = false; } } }
  void step(const MOp& o)
  {
    M* a = m[o.a].get(); M* b = m[o.b].get(); Expect& xa = x[o.a]; Expect& xb = x[o.b];
    const Expect b0 = xb; int made = 0;
    // Runs an operation that changes slot a (and maybe moves out of b).
    auto run = [&](auto&& f, const Expect& after, bool b_moved, bool constructs)
    {
      EndCheck ec;
      const End e = attempt_op(f);
      ec.check(e, "operation on an optional");
      Quiet q;
      if (e == RETURNED)
      {
        if (o.a != o.b || !b_moved) xa = after; else if (O::loses) { xa.any = xa.none = true; }
        xa.exists = true; if (b_moved && o.a != o.b) moved(xb);
        return;
      }
      made = -1;
      probe("operation failed half way");
      if (constructs) { xa = Expect(); }
      else if (a) unsure(xa, after);
      if (b_moved && o.a != o.b) { for (int g : {kGone}) xb.vals.push_back(g); if (b0.vals.empty()) xb = b0; else xb.any = xb.any || !O::counted; }
    };
    switch (o.k)
    {
      case 0: m[o.a].reset(); { Quiet q; xa = Expect(); } break;
      case 1: m[o.a].reset(); { Quiet q; xa = Expect(); } run([&]() { m[o.a] = std::make_unique<M>(); }, empty(), false, true); break;
      case 2: m[o.a].reset(); { Quiet q; xa = Expect(); } run([&]() { const V v = O::make(o.v); m[o.a] = std::make_unique<M>(v); }, known(o.v), false, true); break;
      case 3: m[o.a].reset(); { Quiet q; xa = Expect(); } run([&]() { m[o.a] = std::make_unique<M>(O::make(o.v)); }, known(o.v), false, true); break;
      case 4: if (b && o.a != o.b) { m[o.a].reset(); { Quiet q; xa = Expect(); } run([&]() { m[o.a] = std::make_unique<M>(static_cast<const M&>(*b)); }, b0, false, true); } break;
      case 5: if (b && o.a != o.b) { m[o.a].reset(); { Quiet q; xa = Expect(); } run([&]() { m[o.a] = std::make_unique<M>(std::move(*b)); }, b0, true, true); } break;
      case 6: case 7: if (a && b) { run([&]() { M& r = (*a = static_cast<const M&>(*b)); if (&r != a) fail("assign", "assignment returned another object"); }, b0, false, false); if (o.a == o.b) { Quiet q; probe("self-assigned"); } } break;
      case 8: case 9:
        if (a && b && o.a != o.b) run([&]() { M& r = (*a = std::move(*b)); if (&r != a) fail("assign", "assignment returned another object"); }, b0, true, false);
        else if (a && o.a == o.b) { M& same = *a; run([&]() { *a = std::move(same); }, b0, false, false); Quiet q; probe("self-moved"); }
        break;
      case 10: if (a) { if constexpr (!std::is_const<T>::value) { run([&]() { *a = M(O::make(o.v)); }, known(o.v), false, false); } } break;
      case 11: if (a) run([&]() { a->Reset(); }, empty(), false, false); break;
      case 12:
        if constexpr (!std::is_const<T>::value) if (a && !xa.vals.empty())
        {
          EndCheck ec; const End e = attempt_op([&]() { if (a->HasValue()) O::set(a->Value(), o.v); }); ec.check(e, "changing the value");
          Quiet q; if (e == RETURNED) { xa.vals = {o.v}; xa.any = false; } else { xa.any = true; }
          if (e != RETURNED && O::counted) { EndCheck e2; (void)e2; Quiet q3; a->~M(); new (a) M(); xa = empty(); }
        }
        break;
      case 13: case 14: if (a)
      {
        EndCheck ec; const size_t n0 = vec.size();
        const Expect a0 = xa;
        const End e = attempt_op([&]() { if (o.k == 13) vec.push_back(*a); else vec.push_back(std::move(*a)); });
        ec.check(e, "growing a vector of optionals");
        Quiet q;
        if (vec.size() > n0) xv.push_back(a0);
        if (o.k == 14) { if (e == RETURNED) moved(xa); else { xa.vals.push_back(kGone); if (a0.vals.empty()) xa = a0; else if (!O::counted) xa.any = true; } }
        // a failing reallocation may have moved elements out
        if (e != RETURNED) for (auto& v : xv) if (!v.vals.empty()) { v.vals.push_back(kGone); if (!O::counted) v.any = true; }
      } break;
      case 15: if (!vec.empty()) { vec.pop_back(); Quiet q; xv.pop_back(); } break;
      case 16: if (a && !vec.empty())
      {
        const size_t k = o.b % vec.size(); const Expect v0 = xv[k], a0 = xa;
        EndCheck ec; const End e = attempt_op([&]() { std::swap(*a, vec[k]); }); ec.check(e, "swapping optionals");
        Quiet q;
        if (e == RETURNED) { std::swap(xa, xv[k]); }
        else { for (Expect* p : {&xa, &xv[k]}) { for (const Expect* s : {&v0, &a0}) for (int z : s->vals) p->vals.push_back(z); p->vals.push_back(kGone); p->none = true; if (!O::counted && !p->vals.empty()) p->any = true; } }
        probe("swapped");
      } break;
      default: if (!vec.empty() && a)
      {
        const size_t k = o.b % vec.size(); const Expect a0 = xa; Expect& e1 = xv[k];
        EndCheck ec; const End e = attempt_op([&]() { vec[k] = *a; }); ec.check(e, "assigning to an element");
        Quiet q; if (e == RETURNED) e1 = a0; else unsure(e1, a0);
      }
    }
    (void)made;
    { Quiet q; op(); event("maybe", o.k, (int64_t)g_reg->live.size()); }
    check();
  }
};
template <typename T>
void optional_history(uint32_t faults)
{
  const std::vector<MOp> plan = draw_ops(18);
  Registry reg; g_reg = &reg;
  {
    g_faults = faults;
    OptionalRun<T> r;
    for (size_t i = 0; i < kSlots; i++) { MOp o; o.k = 1 + (int)(i % 3); o.a = i; o.v = 2000 + (int)i; r.step(o); }
    for (auto& o : plan) r.step(o);
  }
  Quiet q;
  if (!reg.live.empty()) fail("leaked-object", "%zu objects were never destroyed", reg.live.size());
}

// Several threads copy one constant optional.
template <typename T>
void shared_copies(uint32_t faults)
{
  const int v = (int)draw(1000); const size_t nt = 2 + draw(2); const bool none = chance(1, 4); const int n = 1 + (int)draw(4);
  Registry reg; g_reg = &reg;
  {
    const OwningMaybe<T> m = none ? OwningMaybe<T>() : OwningMaybe<T>(Ops<T>::make(v));
    FaultScope fs(faults & ~(bit(F_THROW) | kRes));
    auto f = [&]() {
      for (int i = 0; i < n; i++)
      {
        OwningMaybe<T> c(m); OwningMaybe<T> d; d = m; OwningMaybe<T> e; e = std::move(c);
        for (const OwningMaybe<T>* p : {&d, &e})
        {
          if (p->HasValue() == none) fail("wrong-value", "a copy of a shared optional has another presence");
          if (!none && Ops<T>::get(p->Value()) != v) fail("wrong-value", "a copy of a shared optional has another value");
        }
        if (i & 1) d.Reset();
        yield();
      }
      Quiet q; op(); probe("copied from a shared optional");
    };
    Client c[3];
    for (size_t i = 0; i < nt; i++) c[i].start(f);
  }
  Quiet q;
  if (!reg.live.empty()) fail("leaked-object", "%zu objects were never destroyed", reg.live.size());
}

void move_only()
{
  const std::vector<MOp> plan = draw_ops(7);
  g_faults = bit(F_ALLOC);
  using M = OwningMaybe<std::unique_ptr<int>>;
  M m[kSlots]; int want[kSlots]; bool has[kSlots] = {false};
  for (auto& o : plan)
  {
    EndCheck ec;
    const End e = attempt_op([&]() {
      switch (o.k)
      {
        case 0: { auto p = std::make_unique<int>(o.v); m[o.a] = M(std::move(p)); Quiet q; has[o.a] = true; want[o.a] = o.v; break; }
        case 1: case 2: if (o.a != o.b) { const bool h = has[o.b]; const int w = want[o.b]; m[o.a] = std::move(m[o.b]); has[o.a] = h; want[o.a] = w; if (h) want[o.b] = kGone; } break;
        case 3: { M t(std::move(m[o.a])); m[o.a] = std::move(t); break; }
        case 4: m[o.a].Reset(); has[o.a] = false; break;
        case 5: { M& s = m[o.a]; m[o.a] = std::move(s); break; }
        default: std::swap(m[o.a], m[o.b]); if (o.a != o.b) { std::swap(has[o.a], has[o.b]); std::swap(want[o.a], want[o.b]); }
      }
    });
    ec.check(e, "operation on a move-only optional");
    Quiet q; op();
    for (size_t i = 0; i < kSlots; i++)
    {
      if (m[i].HasValue() != has[i]) fail("lost-value", "move-only optional %zu has the wrong presence", i);
      if (has[i] && (want[i] == kGone ? m[i].Value() != nullptr : (!m[i].Value() || *m[i].Value() != want[i]))) fail("wrong-value", "move-only optional %zu has another value", i);
    }
    probe("move-only");
  }
}

void referencing()
{
  const std::vector<MOp> plan = draw_ops(8);
  struct Odd { int v; };
  Odd items[3] = {{1}, {2}, {3}};
  using M = ReferencingMaybe<Odd>; M m[kSlots]; int at[kSlots] = {-1, -1, -1, -1};
  for (auto& o : plan)
  {
    const int k = o.v % 3;
    switch (o.k)
    {
      case 0: case 1: m[o.a] = M(items[k]); at[o.a] = k; break;
      case 2: m[o.a] = m[o.b]; at[o.a] = at[o.b]; break;
      case 3: { M t(m[o.b]); m[o.a] = std::move(t); at[o.a] = at[o.b]; break; }
      case 4: m[o.a].Reset(); at[o.a] = -1; break;
      case 5: if (m[o.a].HasValue()) m[o.a].Value().v += 10; else if (at[o.a] >= 0) fail("lost-value", "a reference was lost"); break;
      default: { M t(std::move(m[o.b])); m[o.a] = t; at[o.a] = at[o.b]; m[o.b] = t; }
    }
    op();
    for (size_t i = 0; i < kSlots; i++)
    {
      const M& c = m[i];
      if (c.HasValue() != (at[i] >= 0) || (bool)c != c.HasValue()) fail("wrong-presence", "reference %zu has the wrong presence", i);
      if (at[i] >= 0 && (std::addressof(c.Value()) != std::addressof(items[at[i]]) || std::addressof(m[i].Value()) != std::addressof(items[at[i]]))) fail("wrong-value", "reference %zu names another object", i);
      if (at[i] < 0) { int threw = 0; try { (void)c.Value(); } catch (const std::exception&) { threw++; } try { (void)m[i].Value(); } catch (const std::exception&) { threw++; } if (threw != 2) fail("absent-read", "reading an absent reference did not fail"); }
    }
    Quiet q; probe("referencing");
  }
}

// Either-or values, if the internal type still has this shape.
template <typename U, typename = void> struct Shape : std::false_type {};
template <typename U>
struct Shape<U, std::void_t<decltype(std::declval<U&>().value_a_), decltype(std::declval<U&>().value_b_), decltype(U::TYPE_A), decltype(U::TYPE_B), decltype(std::declval<U&>().type_)>> : std::true_type {};
template <typename U, typename A, typename B>
void either_history(uint32_t faults)
{
  const std::vector<MOp> plan = draw_ops(9);
  if constexpr (Shape<U>::value)
  {
    Registry reg; g_reg = &reg;
    struct X { int side = 0; std::vector<int> a, b; bool none = false; };   // possible contents
    {
      g_faults = faults;
      std::unique_ptr<U> m[kSlots]; X x[kSlots];
      for (auto& o : plan)
      {
        const X b0 = x[o.b]; bool assign = false, b_moved = false, created = false; X after;
        EndCheck ec;
        if (o.k <= 4) { if (o.k == 4 && o.a == o.b) continue; if (o.k == 4 && !m[o.b]) continue; m[o.a].reset(); x[o.a] = X(); }
        const End e = attempt_op([&]() {
          switch (o.k)
          {
            case 0: { const A v(o.v); after.a = {o.v}; created = true; m[o.a] = std::make_unique<U>(v); break; }
            case 1: after.a = {o.v}; created = true; m[o.a] = std::make_unique<U>(A(o.v)); break;
            case 2: { const B v(o.v); after.b = {o.v}; created = true; m[o.a] = std::make_unique<U>(v); break; }
            case 3: after.b = {o.v}; created = true; m[o.a] = std::make_unique<U>(B(o.v)); break;
            case 4: after = b0; created = true; if (o.v & 1) m[o.a] = std::make_unique<U>(static_cast<const U&>(*m[o.b])); else { b_moved = true; m[o.a] = std::make_unique<U>(std::move(*m[o.b])); } break;
            case 5: case 6: if (m[o.a] && m[o.b]) { assign = true; after = b0; *m[o.a] = static_cast<const U&>(*m[o.b]); } break;
            case 7: if (m[o.a] && m[o.b]) { assign = true; after = b0; b_moved = o.a != o.b; U& s = *m[o.b]; *m[o.a] = std::move(s); } break;
            default: m[o.a].reset(); x[o.a] = X();
          }
        });
        ec.check(e, "operation on an either-or value");
        Quiet q; op();
        if (e == RETURNED) { if (created || assign) x[o.a] = after; if (b_moved) { X& s = x[o.b]; if (!s.a.empty()) s.a = {kGone}; if (!s.b.empty()) s.b = {kGone}; } }
        else
        {
          probe("either-or operation failed half way");
          if (assign) { for (int v : after.a) x[o.a].a.push_back(v); for (int v : after.b) x[o.a].b.push_back(v); x[o.a].none = true; }
          if (b_moved) { X& s = x[o.b]; if (!s.a.empty()) s.a.push_back(kGone); if (!s.b.empty()) s.b.push_back(kGone); }
        }
        size_t n = 0;
        for (size_t i = 0; i < kSlots; i++) if (m[i])
        {
          const U& u = *m[i];
          if (u.type_ == U::TYPE_A) { const int v = u.value_a_.value(); n++; if (!std::count(x[i].a.begin(), x[i].a.end(), v)) fail("wrong-value", "either-or value %zu holds A(%d)", i, v); x[i].a = {v}; x[i].b.clear(); x[i].none = false; }
          else if (u.type_ == U::TYPE_B) { const int v = u.value_b_.value(); n++; if (!std::count(x[i].b.begin(), x[i].b.end(), v)) fail("wrong-value", "either-or value %zu holds B(%d)", i, v); x[i].b = {v}; x[i].a.clear(); x[i].none = false; }
          else if (!x[i].none) fail("lost-value", "either-or value %zu holds nothing", i);
          else { x[i].a.clear(); x[i].b.clear(); }
        }
        if (reg.live.size() != n) fail(reg.live.size() > n ? "leaked-object" : "missing-object", "%zu objects exist, %zu either-or values hold one", reg.live.size(), n);
        probe("either-or");
      }
    }
    Quiet q;
    if (!reg.live.empty()) fail("leaked-object", "%zu objects were never destroyed", reg.live.size());
  }
}
void run_g01()
{
  const bool faulty = chance(3, 4);
  const uint32_t f = kSched | (faulty ? bit(F_THROW) | bit(F_ALLOC) : 0);
  switch (draw(17))
  {
    case 0: optional_history<Obj<0>>(f); break;
    case 1: optional_history<Obj<1>>(f); break;
    case 2: case 3: optional_history<Obj<2>>(f); break;
    case 4: optional_history<Obj<3>>(f); break;
    case 5: optional_history<Obj<4>>(f); break;
    case 6: optional_history<const Obj<0>>(f); break;
    case 7: optional_history<int>(f); break;
    case 8: optional_history<std::string>(f); break;
    case 9: optional_history<std::vector<int>>(f); break;
    case 10: optional_history<Eigen::Vector4d>(f); break;
    case 11: shared_copies<Obj<2>>(f); break;
    case 12: shared_copies<std::string>(f); break;
    case 13: move_only(); break;
    case 14: referencing(); break;
    default: either_history<internal::TaggedUnion<Obj<0>, Obj<2>>, Obj<0>, Obj<2>>(f);
  }
}
}  // namespace

namespace sim
{
const Property kProperties[] = {
  {"G01", run_g01, 3000000, kSchedAll | bit(F_ALLOC) | bit(F_THROW), true},
};
const size_t kNumProperties = sizeof kProperties / sizeof kProperties[0];
}
