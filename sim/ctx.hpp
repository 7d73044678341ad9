// Contexts in which library calls are made: plainly, from several caller
// threads at once, or from inside a parallel loop of the library.
#pragma once
#include "rt.hpp"
#include <common_robotics_utilities/parallelism.hpp>
#include <algorithm>
#include <new>
#include <system_error>
#include <thread>

namespace ctx
{
namespace cru = common_robotics_utilities;
using cru::parallelism::DegreeOfParallelism;
using cru::parallelism::ParallelForBackend;
using sim::draw;
using sim::chance;

enum Kind { PLAIN, TWO_CALLERS, IN_OMP_LOOP, IN_ASYNC_LOOP };

// Calls f(copy) once per caller; f must be callable concurrently with itself
// and must not draw workload choices when the kind is not PLAIN.
template <typename F>
void call(Kind k, int copies, const F& f)
{
  if (k == PLAIN) { f(0); return; }
  if (k == TWO_CALLERS)
  {
    sim::Client c[3];
    for (int i = 0; i < copies && i < 3; i++) c[i].start([&f, i]() { f(i); });
    return;
  }
  const uint64_t refused = sim::fired(sim::F_THREAD);
  try
  {
    cru::parallelism::StaticParallelForIndexLoop(
        DegreeOfParallelism(copies), 0, copies, [&](int32_t, int64_t i) { f((int)i); },
        k == IN_OMP_LOOP ? ParallelForBackend::OPENMP : ParallelForBackend::ASYNC);
  }
  catch (const std::system_error&)
  {
    // the surrounding loop itself was refused a thread (the first caller used up the simulated ones)
    if (sim::fired(sim::F_THREAD) == refused) throw;
    sim::probe("surrounding loop refused");
  }
}
inline Kind draw_kind()
{
  switch (draw(8)) { case 5: return TWO_CALLERS; case 6: return IN_OMP_LOOP; case 7: return IN_ASYNC_LOOP; default: return PLAIN; }
}
inline DegreeOfParallelism draw_dop(int max = 8)
{
  if (max >= 6 && chance(1, 60)) return DegreeOfParallelism(17 + (int)draw(60));      // a large machine
  return DegreeOfParallelism(chance(1, 5) ? 1 : 1 + (int)draw((uint64_t)max));
}
constexpr uint32_t kSched = sim::bit(sim::F_SPURIOUS) | sim::bit(sim::F_SMALLTEAM) | sim::bit(sim::F_TIMEJUMP);
constexpr uint32_t kSchedAll = kSched | sim::bit(sim::F_STALL) | sim::bit(sim::F_WALLJUMP);
constexpr uint32_t kRes = sim::bit(sim::F_THREAD) | sim::bit(sim::F_ALLOC);

// How a call ended.
enum End { RETURNED, INJECTED, BAD_ALLOC, SYSTEM, STDEXC, OTHER };
template <typename F>
End attempt(const F& f, std::string* what = nullptr)
{
  try { f(); return RETURNED; }
  catch (const sim::Injected&) { return INJECTED; }
  catch (const std::bad_alloc&) { return BAD_ALLOC; }
  catch (const std::system_error&) { return SYSTEM; }
  catch (const std::exception& e) { if (what) { sim::Quiet q; *what = e.what(); } return STDEXC; }
  catch (...) { return OTHER; }
}
// Fails the run if the call ended in a way the injected faults do not justify.
struct EndCheck
{
  uint64_t t0 = sim::fired(sim::F_THROW), a0 = sim::fired(sim::F_ALLOC), h0 = sim::fired(sim::F_THREAD);
  bool faults() const { return sim::fired(sim::F_THROW) != t0 || sim::fired(sim::F_ALLOC) != a0 || sim::fired(sim::F_THREAD) != h0; }
  void check(End e, const char* what, const std::string& msg = "") const
  {
    switch (e)
    {
      case RETURNED: if (sim::fired(sim::F_THROW) != t0) sim::fail("failure-swallowed", "%s returned although a callback threw", what); break;
      case INJECTED: if (sim::fired(sim::F_THROW) == t0) sim::fail("wrong-exception", "%s threw an injected failure that never happened", what); sim::probe("call ended by callback exception"); break;
      case BAD_ALLOC: if (sim::fired(sim::F_ALLOC) == a0) sim::fail("wrong-exception", "%s threw bad_alloc without an allocation failure", what); sim::probe("call ended by bad_alloc"); break;
      case SYSTEM: if (sim::fired(sim::F_THREAD) == h0) sim::fail("wrong-exception", "%s threw system_error without a thread failure", what); sim::probe("call ended by thread failure"); break;
      case STDEXC: sim::fail("wrong-exception", "%s threw: %s", what, msg.c_str());
      default: sim::fail("wrong-exception", "%s threw an unknown exception", what);
    }
  }
};
}  // namespace ctx
