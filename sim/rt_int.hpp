// Internals shared between the runtime's translation units.
#pragma once
#include "rt.hpp"
#include <pthread.h>
#include <string.h>

namespace simi
{
using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t;
using u64 = uint64_t; using i64 = int64_t;

constexpr int kMaxThreads = 1400;
constexpr size_t kStackSize = 512 * 1024;
constexpr u64 kHeapBase = 1ull << 40;
constexpr u64 kHeapSize = 1ull << 30;
constexpr u64 kStackBase = 1ull << 41;
constexpr int kBigStacks = 16;              // the first threads get larger stacks
constexpr size_t kBigStackSize = 4 << 20;
constexpr u64 kStackTotal = kStackSize * kMaxThreads + kBigStacks * kBigStackSize;
inline u64 stack_off(int id)
{
  return id < kBigStacks ? (u64)id * kBigStackSize
                         : kBigStacks * kBigStackSize + (u64)id * kStackSize;
}
inline size_t stack_size(int id) { return id < kBigStacks ? kBigStackSize : kStackSize; }
constexpr u64 kGlobSpan = 64ull << 20;      // non-PIE image lies below this

struct VC
{
  u32 n = 0;
  u32 c[kMaxThreads];
  void join(const VC& o)
  {
    for (u32 i = n; i < o.n; i++) c[i] = 0;
    if (o.n > n) n = o.n;
    for (u32 i = 0; i < o.n; i++) if (o.c[i] > c[i]) c[i] = o.c[i];
  }
  void assign(const VC& o)
  {
    n = o.n;
    for (u32 i = 0; i < n; i++) c[i] = o.c[i];
  }
  u32 get(u32 i) const { return i < n ? c[i] : 0; }
};

enum class St : u8 { RUN, BLOCK, DONE };

struct OmpTeam;
struct DtorRec { void (*fn)(void*); void* obj; };

struct Thread
{
  int id = 0;
  int go = 0;                 // futex word
  St st = St::RUN;
  bool timed = false, timed_out = false, joined = false, detached = false;
  bool omp_worker = false, nofault_create = false, real_joined = false;
  i64 deadline = 0;
  u64 wait_seq = 0;
  const void* wait_obj = nullptr;
  u64 lstep = 0;              // local step count up to last switch-in
  u64 resumed_at = 0;
  u64 prio = 0;
  u64 ready_at = 0;           // step at which it became runnable / was preempted
  pthread_t real{};
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  VC vc, acq_pending, rel_fence;
  bool has_acq = false, has_rel = false;
  u32 allowed = 0;            // faults this thread may meet (FaultScope; inherited)
  DtorRec dtors[64]; int ndtors = 0;
  // OpenMP
  OmpTeam* team = nullptr;
  int omp_num = 0;
  int omp_icv_nthreads = 0;
  bool omp_icv_dynamic = false;
  u64 omp_ws = 0, omp_single = 0;
  int omp_last_req = 0, omp_last_team = 0;
  u64 blocks = 0;             // times this thread really had to wait
  // replay cursor
  u32 s_cursor = 0;
};

extern Thread* g_cur;
extern Thread g_threads[kMaxThreads];
extern bool g_second_pass;
extern u64 g_thread_cap_hits;      // thread creations refused by the simulator's own limit
extern int g_nthreads;
extern int g_on;               // >0: hooks active
extern int g_quiet;
extern bool g_running;         // inside a simulated run
extern u64 g_steps;
extern int g_unsynced;
extern u32 g_allowed;          // faults allowed outside simulated threads

inline u32& allowed_faults() { return g_cur ? g_cur->allowed : g_allowed; }

// ---- tapes / shared result ----------------------------------------------------
struct SEnt { u16 from, to; u32 pad; u64 lstep; };
struct FEnt { u32 kind; u32 pad; u64 n; u64 val; };
constexpr u32 kMaxW = 1u << 18, kMaxS = 1u << 18, kMaxF = 1u << 14;
constexpr u32 kStateSlots = 1u << 20;
constexpr u32 kMaxProbes = 96;
struct Probe { char name[56]; u64 count; };
struct Shared
{
  volatile int status;        // 0 running, 1 ok, 2 violation, 3 harness error
  char cls[96]; char msg[1536]; char sched[64];
  u64 pc[4]; int npc;
  u64 hash, steps, switches, ops, threads, allocs;
  i64 sim_ns;
  u64 fired[sim::F_COUNT];    // this run
  u64 points[sim::F_COUNT];   // this run
  u32 nW, nS, nF;
  int wallkill;
  u64 W[kMaxW]; SEnt S[kMaxS]; FEnt F[kMaxF];
  // accumulated
  u32 nprobes; Probe probes[kMaxProbes];
  u64 nstates; u64 states_dropped; u64 states[kStateSlots];
};
extern Shared* sh;

struct RunCfg
{
  u64 seed = 0;
  bool replay = false;        // decisions come from tapes rW/rS/rF
  bool trace = false;
  u64 step_limit = 0;
  u32 fault_mask = 0;
  bool leak_check = false;
};
extern RunCfg g_cfg;
extern u64* rW; extern u32 rnW;
extern SEnt* rS; extern u32 rnS;
extern FEnt* rF; extern u32 rnF;

struct Rng
{
  u64 s[2];
  void seed(u64 x)
  {
    for (auto& v : s)
    {
      x += 0x9E3779B97F4A7C15ull; u64 z = x;
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
      z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
      v = z ^ (z >> 31);
    }
    if (!s[0] && !s[1]) s[0] = 1;
  }
  u64 next()
  {
    u64 a = s[0]; const u64 b = s[1]; const u64 r = a + b; s[0] = b;
    a ^= a << 23; s[1] = a ^ b ^ (a >> 18) ^ (b >> 5); return r;
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
};

// ---- scheduler -------------------------------------------------------------------
void runtime_init();                      // zygote, once
void run_body(void (*fn)());              // in the child: one simulated run
Thread* thread_new(void* (*fn)(void*), void* arg, bool is_omp);
int thread_start_real(Thread* t);         // 0 or errno
void sched_point();                       // may switch
void yield_point();                       // prefers to switch
// Block until woken or the deadline (simulated ns; <0: none). true if timed out
bool block_on(const void* obj, i64 deadline = -1);
void wake_one(const void* obj);
void wake_all(const void* obj);
int wake_n(const void* obj, int n);
[[noreturn]] void violation(const char* cls, const char* fmt, ...)
    __attribute__((format(printf, 2, 3)));
[[noreturn]] void violation_pc(const char* cls, u64 pc0, u64 pc1,
                               const char* fmt, ...)
    __attribute__((format(printf, 4, 5)));
[[noreturn]] void harness_error(const char* fmt, ...)
    __attribute__((format(printf, 1, 2)));
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
i64 now_mono();
i64 now_wall();
void advance(i64 ns);
extern i64 g_wall_off;
extern i64 g_last_mono_read;      // what the monotonic clock last told
extern u64 g_mono_reads;

// ---- happens-before ------------------------------------------------------------------
VC* sync_vc(const void* addr);            // VC attached to an address
void hb_acquire(const VC& v);
void hb_release(VC& v, bool join);
void hb_tick();
inline void hb_acquire_addr(const void* a) { if (VC* v = sync_vc(a)) hb_acquire(*v); }
inline void hb_release_addr(const void* a, bool join = true)
{ if (VC* v = sync_vc(a)) hb_release(*v, join); }
void mem_access(u64 addr, size_t size, bool write, bool atomic, u64 pc);

// ---- heap -----------------------------------------------------------------------
void heap_init();
bool heap_contains(const void* p);
u64 heap_live_blocks();
void heap_limit_one(u64 bytes);
bool caller_in_exe(const void* pc);

struct RtGuard   // runtime-internal section: allocations go to libc
{
  RtGuard() { saved = g_on; g_on = 0; }
  ~RtGuard() { g_on = saved; }
  int saved;
};
void* real_sym(const char* name);
void omp_reset();
void omp_thread_init(Thread* t);
void disk_reset();
}  // namespace simi
