// Public interface of the simulation runtime (used by the harnesses).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <stdexcept>
#include <string>
#include <vector>

namespace sim
{
// ---- fault kinds -----------------------------------------------------------
enum Fault : int
{
  F_ALLOC = 0,       // operator new / malloc fails
  F_THREAD,          // pthread_create fails with EAGAIN
  F_SPURIOUS,        // condition variable wakes without notification
  F_STALL,           // a thread is not scheduled while others can run
  F_TIMEJUMP,        // monotonic clock leaps forward (stall / suspend)
  F_WALLJUMP,        // wall clock steps forwards or backwards
  F_THROW,           // a user callback throws
  F_SMALLTEAM,       // OpenMP delivers a smaller team than requested
  F_OPEN,            // open of a file fails
  F_SHORTWRITE,      // write accepts only part of the data
  F_WRITEERR,        // write fails (ENOSPC / EIO)
  F_READERR,         // read fails with EIO
  F_SHORTREAD,       // read returns less than asked
  F_EINTR,           // call interrupted
  F_CLOSEERR,        // close reports a delayed write error
  F_CRASH,           // crash of the simulated machine
  F_TORN,            // unsynced data partly lost / reordered by a crash
  F_CORRUPT,         // stored byte flipped / truncated
  F_WORLD,           // environment behaves in an unexpected way
  F_SLOW,            // environment callback takes very long
  F_COUNT
};
extern const char* const kFaultNames[F_COUNT];

// ---- workload choices (recorded on the W tape) -----------------------------
uint64_t draw(uint64_t n);                  // uniform in [0, n)
int64_t range(int64_t lo, int64_t hi);      // uniform in [lo, hi]
bool chance(uint64_t num, uint64_t den);
double unit();                              // [0, 1), 1/2^20 resolution
template <typename T>
const T& pick(const std::vector<T>& v) { return v[draw(v.size())]; }

// ---- faults -----------------------------------------------------------------
// Faults fire only while their kind is allowed by the innermost scope.
struct FaultScope
{
  explicit FaultScope(uint32_t allowed_mask);
  ~FaultScope();
  uint32_t saved;
};
constexpr uint32_t bit(Fault f) { return 1u << static_cast<uint32_t>(f); }
bool fault(Fault kind);                     // decide + record at a fault point
uint64_t fault_draw(Fault kind, uint64_t n);// value attached to last fired fault
uint64_t fired(Fault kind);                 // number of times fired in this run
void set_single_shot(Fault kind, uint64_t n); // fire exactly at the n-th point
void disable_fault(Fault kind);

// ---- oracles ----------------------------------------------------------------
[[noreturn]] void fail(const char* cls, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
void event(const char* tag, int64_t a = 0, int64_t b = 0);  // trace + run hash
void probe(const char* name);               // reach counter
void state(uint64_t h);                     // distinct-state measure
void op();                                  // one workload operation performed
size_t live_threads();                      // simulated threads not finished
uint64_t heap_live();                       // live simulated heap blocks
bool replaying();

#define SIM_CHECK(cond, cls, ...) \
  do { if (!(cond)) { ::sim::fail(cls, __VA_ARGS__); } } while (0)

// Code in a Quiet scope is not scheduled, instrumented or fault-injected.
struct Quiet
{
  Quiet();
  ~Quiet();
  Quiet(const Quiet&) = delete;
  Quiet& operator=(const Quiet&) = delete;
};

// ---- control ----------------------------------------------------------------
void yield();                               // explicit scheduling point
void advance_ns(int64_t ns);                // simulated work takes time
int64_t mono_ns();                          // simulated monotonic clock (no cost)
int64_t wall_ns();
int64_t last_mono_read();                   // what the monotonic clock last told the program
uint64_t mono_reads();                      // how often it was read
void limit_allocation(uint64_t bytes);      // a larger request fails (until the end of the run)
void injected(Fault f);                     // counts a fault that the workload itself applied
uint64_t blocks();                          // how often this thread had to wait
int current_thread();

// Spawn a simulated caller thread (thin wrapper over real pthread_create path,
// never failed by fault injection).
struct Client
{
  Client();
  ~Client();
  template <typename F> void start(F f)
  {
    F* own;
    { Quiet q; own = new F(static_cast<F&&>(f)); }
    start_impl(own, [](void* p) {
      F* fp = static_cast<F*>(p);
      struct D { F* q; ~D() { delete q; } } d{fp};
      (*fp)();
    });
  }
  void join();
  void start_impl(void* p, void (*fn)(void*));
  void* impl = nullptr;
};

// ---- OpenMP environment -------------------------------------------------------
struct OmpEnv { int nthreads = 8; int thread_limit = 64; bool dynamic = false;
                int max_levels = 1; };
void set_omp_env(const OmpEnv& e);
OmpEnv random_omp_env();                    // drawn from the W tape
int omp_nthreads_icv();                     // current setting for this thread
int omp_last_requested();                   // team size this thread asked for last
int omp_last_delivered();                   // and what it was given

// ---- simulated disk ------------------------------------------------------------
struct Disk
{
  static void reset();
  static bool exists(const std::string& path);
  static std::vector<uint8_t> live(const std::string& path);   // page cache view
  static void put(const std::string& path, const std::vector<uint8_t>& data);
  static void remove(const std::string& path);
  // crash: keep only what is durable plus a seed-chosen part of what is not.
  static void crash();
  static void sync_all();
  static size_t open_handles();
  static void set_capacity(uint64_t bytes);
  static bool dead();             // the machine died in a write; crash() restarts it
  static bool full();             // a write was cut short or refused for lack of room
};
constexpr const char* kDiskRoot = "/simdisk/";

// ---- properties ------------------------------------------------------------------
struct Property
{
  const char* id;
  void (*run)();
  uint64_t step_limit;        // accesses + sync points per run
  uint32_t fault_mask;        // kinds this property may inject
  bool leak_check;
};
extern const Property kProperties[];
extern const size_t kNumProperties;

// Exceptions thrown by injected callback failures: what a user's callback
// throws may or may not be a standard exception; each run uses one kind.
struct Injected
{
  explicit Injected(int64_t t) : tag(t) {}
  int64_t tag;
};
template <typename E>
struct InjectedAs : E, Injected
{
  explicit InjectedAs(int64_t t) : E("injected"), Injected(t) {}
};
int throw_kind();
template <typename E>
InjectedAs<E> make_injected(int64_t t) { Quiet q; return InjectedAs<E>(t); }
[[noreturn]] inline void throw_injected(int64_t t)
{
  switch (throw_kind())
  {
    case 4: throw make_injected<std::runtime_error>(t);
    case 5: throw make_injected<std::invalid_argument>(t);
    case 6: throw make_injected<std::out_of_range>(t);
    case 7: throw make_injected<std::range_error>(t);
    default: throw Injected(t);
  }
}
uint64_t mix(uint64_t h, uint64_t v);
}  // namespace sim
