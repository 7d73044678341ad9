// Worker: explores seeds, replays and minimises failing executions. Every
// simulated run happens in its own forked process.
#include "rt_int.hpp"
#include <errno.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

using namespace simi;
static double real_now()
{
  timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}
static const sim::Property* find_prop(const std::string& id)
{
  for (size_t i = 0; i < sim::kNumProperties; i++)
    if (id == sim::kProperties[i].id) return &sim::kProperties[i];
  fprintf(stderr, "unknown property %s\n", id.c_str());
  exit(2);
}
static u64 str_hash(const std::string& s) { u64 h = 1469598103934665603ull; for (char c : s) { h ^= (u8)c; h *= 1099511628211ull; } return h; }
static pid_t g_child = 0;
static volatile sig_atomic_t g_wall_hit = 0;
static int g_wall_limit = 30;
static volatile sig_atomic_t g_stop = 0;
static void on_term(int) { g_stop = 1; }
static double mem_available_gb()
{
  FILE* f = fopen("/proc/meminfo", "r");
  if (!f) return 99;
  char l[200]; double v = 99;
  while (fgets(l, sizeof l, f)) { long long kb; if (sscanf(l, "MemAvailable: %lld", &kb) == 1) { v = (double)kb / 1e6; break; } }
  fclose(f);
  return v;
}
static void on_alarm(int) { g_wall_hit = 1; if (g_child > 0) kill(g_child, SIGKILL); }

struct Tapes { std::vector<u64> W; std::vector<SEnt> S; std::vector<FEnt> F; };
enum Outcome { OK = 1, VIOL = 2, HERR = 3 };

static Outcome run_once(const sim::Property* p, u64 seed, const Tapes* t, bool tr)
{
  sh->status = 0; sh->cls[0] = 0; sh->msg[0] = 0; sh->sched[0] = 0; sh->npc = 0;
  sh->hash = sh->steps = sh->switches = sh->ops = sh->threads = sh->allocs = 0; sh->sim_ns = 0;
  memset(sh->fired, 0, sizeof sh->fired); memset(sh->points, 0, sizeof sh->points);
  sh->nW = sh->nS = sh->nF = 0; sh->wallkill = 0;
  fflush(stdout);
  g_wall_hit = 0;
  const pid_t c = fork();
  if (c < 0) { perror("fork"); exit(2); }
  if (c == 0)
  {
    // PR_FUTEX_HASH: use the global futex hash. The per-process one (Linux
    // 6.16+) delays the teardown of an exited process's memory by RCU and a
    // workqueue, which adds up to gigabytes over thousands of short runs.
    prctl(78, 1, 0, 0, 0);
    g_cfg = RunCfg();
    g_cfg.seed = seed; g_cfg.step_limit = p->step_limit; g_cfg.fault_mask = p->fault_mask;
    g_cfg.leak_check = p->leak_check && (seed & 3) == 0;
    g_cfg.trace = tr;
    if (t)
    {
      g_cfg.replay = true;
      rW = const_cast<u64*>(t->W.data()); rnW = (u32)t->W.size();
      rS = const_cast<SEnt*>(t->S.data()); rnS = (u32)t->S.size();
      rF = const_cast<FEnt*>(t->F.data()); rnF = (u32)t->F.size();
    }
    run_body(p->run);
    _exit(9);
  }
  g_child = c;
  alarm((unsigned)g_wall_limit);
  int st = 0;
  while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
  alarm(0);
  g_child = 0;
  if (sh->status == 0)
  {
    if (g_wall_hit) { snprintf(sh->cls, sizeof sh->cls, "hang-wall"); snprintf(sh->msg, sizeof sh->msg, "run did not finish within %d s of real time", g_wall_limit); sh->wallkill = 1; }
    else if (WIFSIGNALED(st)) { snprintf(sh->cls, sizeof sh->cls, "crash-signal-%d", WTERMSIG(st)); snprintf(sh->msg, sizeof sh->msg, "process killed by signal %d", WTERMSIG(st)); }
    else { snprintf(sh->cls, sizeof sh->cls, "unexpected-exit"); snprintf(sh->msg, sizeof sh->msg, "code under test ended the process (exit status %d)", WEXITSTATUS(st)); }
    sh->hash = str_hash(sh->cls);
    sh->status = 2;
  }
  return (Outcome)sh->status;
}
static Tapes grab()
{
  Tapes t;
  t.W.assign(sh->W, sh->W + sh->nW); t.S.assign(sh->S, sh->S + sh->nS); t.F.assign(sh->F, sh->F + sh->nF);
  return t;
}
static std::string esc(const std::string& s)
{ std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((u8)c < 32) o += ' '; else o += c; } return o; }
static std::string oneline(std::string s) { for (auto& c : s) if (c == '\n') c = ' '; return s; }
static void write_replay(const std::string& path, const std::string& prop, u64 seed, const Tapes& t)
{
  std::ofstream o(path);
  o << "sim-replay 1\nproperty " << prop << "\nseed " << seed << "\nclass " << sh->cls << "\nhash " << sh->hash << "\n";
  o << "# " << oneline(sh->msg) << "\n";
  o << "# steps " << sh->steps << " switches " << sh->switches << " schedule-strategy " << sh->sched << "\n";
  for (int i = 0; i < sh->npc; i++) { char b[40]; snprintf(b, sizeof b, "# pc 0x%llx\n", (unsigned long long)sh->pc[i]); o << b; }
  o << "W " << t.W.size(); for (u64 v : t.W) o << ' ' << v; o << "\n";
  for (auto& e : t.S) o << "S " << e.from << ' ' << e.to << ' ' << e.lstep << "\n";
  for (auto& e : t.F) o << "F " << e.kind << ' ' << e.n << ' ' << e.val << " # " << sim::kFaultNames[e.kind] << "\n";
  o << "end\n";
}
struct ReplayFile { std::string prop, cls; u64 seed = 0, hash = 0; Tapes t; };
static ReplayFile read_replay(const std::string& path)
{
  std::ifstream in(path);
  if (!in) { fprintf(stderr, "cannot read %s\n", path.c_str()); exit(2); }
  ReplayFile r; std::string line;
  while (std::getline(in, line))
  {
    const size_t c = line.find('#'); if (c != std::string::npos) line.resize(c);
    std::istringstream s(line); std::string k; s >> k;
    if (k == "property") s >> r.prop;
    else if (k == "seed") s >> r.seed;
    else if (k == "class") s >> r.cls;
    else if (k == "hash") s >> r.hash;
    else if (k == "W") { size_t n; s >> n; u64 v; while (n-- && (s >> v)) r.t.W.push_back(v); }
    else if (k == "S") { SEnt e{}; u64 a, b; s >> a >> b >> e.lstep; e.from = (u16)a; e.to = (u16)b; r.t.S.push_back(e); }
    else if (k == "F") { FEnt e{}; s >> e.kind >> e.n >> e.val; r.t.F.push_back(e); }
  }
  return r;
}

// ---- minimisation ---------------------------------------------------------------------
struct Minimiser
{
  const sim::Property* p; u64 seed; std::string cls; double deadline; u64 tries = 0;
  bool time_left() const { return real_now() < deadline; }
  bool fails(const Tapes& t)
  {
    if (!time_left()) return false;
    tries++;
    return run_once(p, seed, &t, false) == VIOL && cls == sh->cls;
  }
  template <typename V, typename Set> void ddmin(V& cur, Set set)
  {
    V empty;
    if (!cur.empty() && set(empty)) { cur = empty; return; }
    size_t chunk = (cur.size() + 1) / 2;
    while (chunk >= 1 && !cur.empty() && time_left())
    {
      bool any = false;
      for (size_t i = 0; i < cur.size() && time_left();)
      {
        V c(cur.begin(), cur.begin() + (long)i);
        const size_t e = std::min(cur.size(), i + chunk);
        c.insert(c.end(), cur.begin() + (long)e, cur.end());
        if (set(c)) { cur = c; any = true; } else i += chunk;
      }
      if (chunk == 1) { if (!any) break; }
      else chunk = (chunk + 1) / 2;
      if (chunk == 0) break;
    }
  }
  void run(Tapes& t)
  {
    for (int round = 0; round < 3 && time_left(); round++)
    {
      const size_t before = t.W.size() + t.S.size() + t.F.size();
      u64 wsum = 0; for (u64 v : t.W) wsum += v;
      ddmin(t.F, [&](const std::vector<FEnt>& f) { Tapes x = t; x.F = f; return fails(x); });
      ddmin(t.S, [&](const std::vector<SEnt>& s) { Tapes x = t; x.S = s; return fails(x); });
      // workload: shorten the tail, zero blocks, then shrink single values
      for (size_t cut = t.W.size(); cut > 0 && time_left(); cut /= 2)
        while (t.W.size() >= cut && !t.W.empty())
        {
          Tapes x = t; x.W.resize(t.W.size() - cut);
          if (!fails(x)) break;
          t = x;
        }
      for (size_t blk = std::max<size_t>(1, t.W.size() / 4); blk > 0 && time_left(); blk /= 2)
        for (size_t i = 0; i < t.W.size() && time_left(); i += blk)
        {
          Tapes x = t; bool nz = false;
          for (size_t k = i; k < std::min(t.W.size(), i + blk); k++) { nz |= x.W[k] != 0; x.W[k] = 0; }
          if (nz && fails(x)) t = x;
        }
      for (size_t i = 0; i < t.W.size() && time_left(); i++)
        while (t.W[i] > 0 && time_left())
        {
          Tapes x = t; x.W[i] /= 2;
          if (fails(x)) { t = x; continue; }
          x = t; x.W[i] -= 1;
          if (fails(x)) { t = x; continue; }
          break;
        }
      u64 wsum2 = 0; for (u64 v : t.W) wsum2 += v;
      if (before == t.W.size() + t.S.size() + t.F.size() && wsum == wsum2) break;
    }
  }
};

static std::string arg(int argc, char** argv, const char* name, const char* def)
{ for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], name)) return argv[i + 1]; return def; }

// a finding on record: "class|part of the message"
static bool is_known(const std::vector<std::string>& ign)
{
  for (auto& k : ign)
  {
    const size_t b = k.find('|');
    if (k.substr(0, b) == sh->cls && strstr(sh->msg, k.substr(b + 1).c_str())) return true;
  }
  return false;
}
static int explore(int argc, char** argv)
{
  const std::string pid = arg(argc, argv, "--property", "");
  const sim::Property* p = find_prop(pid);
  const u64 seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), nullptr, 0);
  const u64 start = strtoull(arg(argc, argv, "--start", "0").c_str(), nullptr, 0);
  const u64 stride = strtoull(arg(argc, argv, "--stride", "1").c_str(), nullptr, 0);
  const u64 max = strtoull(arg(argc, argv, "--max", "1000000000").c_str(), nullptr, 0);
  const double secs = atof(arg(argc, argv, "--seconds", "10").c_str());
  const u64 recheck = strtoull(arg(argc, argv, "--recheck", "97").c_str(), nullptr, 0);
  const std::string out = arg(argc, argv, "--out", "");
  const std::string viol = arg(argc, argv, "--viol", "");
  const std::string hashes = arg(argc, argv, "--hashes", "");
  const std::string log = arg(argc, argv, "--log", "");   // seed/hash log for determinism diffs
  std::vector<std::string> ignore; u64 known = 0;
  for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--ignore")) ignore.push_back(argv[i + 1]);
  std::string samples; int nsamples = 0;
  struct sigaction sa{}; sa.sa_handler = on_term; sigaction(SIGTERM, &sa, nullptr);
  FILE* lf = log.empty() ? nullptr : fopen(log.c_str(), "w");
  const double t0 = real_now();
  double longest = 0; u64 longest_seed = 0, most_steps = 0;
  u64 runs = 0, steps = 0, switches = 0, ops = 0, sim_ns = 0, multi = 0, faulty = 0, nontriv = 0, rechecks = 0, nondet = 0, threads = 0, allocs = 0;
  u64 fired[sim::F_COUNT] = {}, points[sim::F_COUNT] = {};
  std::vector<u64> hv;
  std::map<std::string, u64> strat;
  std::string vpath, vcls, vmsg; u64 vseed = 0;
  for (u64 idx = start; runs < max; idx += stride)
  {
    if (g_stop || real_now() - t0 > secs) break;
    if (((idx / stride) & 63) == 0)
      for (int k = 0; k < 50 && mem_available_gb() < 2.5; k++) usleep(100000);
    const u64 rs = sim::mix(sim::mix(seed, str_hash(pid)), idx + 1) >> 1;
    const double began = real_now();
    Outcome o = run_once(p, rs, nullptr, false);
    if (o == VIOL && sh->wallkill)
    {
      // a slow machine is no hang: only a run that also outlives a far longer limit counts
      const int limit = g_wall_limit; g_wall_limit = limit * 4;
      o = run_once(p, rs, nullptr, false);
      g_wall_limit = limit;
    }
    if (o == VIOL && !strcmp(sh->cls, "hang") && strstr(sh->msg, "(step limit)"))
    {
      // nor is a run that is merely long: only one that also exceeds a far larger budget counts
      sim::Property far = *p; far.step_limit *= 6;
      const int limit = g_wall_limit; g_wall_limit = limit * 6;
      o = run_once(&far, rs, nullptr, false);
      g_wall_limit = limit;
      if (o == VIOL && !strncmp(sh->cls, "hang", 4)) o = run_once(p, rs, nullptr, false);
    }
    if (real_now() - began > longest) { longest = real_now() - began; longest_seed = rs; }
    most_steps = std::max<u64>(most_steps, sh->steps);
    if (o == HERR)
    {
      printf("HARNESS-ERROR property=%s seed=%llu: %s\n", pid.c_str(), (unsigned long long)rs, sh->msg);
      return 2;
    }
    if (o == VIOL && is_known(ignore))
    {
      known++;
      continue;
    }
    if (o == VIOL)
    {
      vcls = sh->cls; vmsg = sh->msg; vseed = rs; vpath = viol;
      const u64 h = sh->hash;
      Tapes t = grab();
      // same seed again must give the same execution
      const Outcome o2 = run_once(p, rs, nullptr, false);
      if (o2 != VIOL || h != sh->hash || vcls != sh->cls)
      {
        printf("NONDETERMINISM property=%s seed=%llu: first %s, then %s %s\n", pid.c_str(), (unsigned long long)rs,
               vcls.c_str(), o2 == VIOL ? sh->cls : "no violation", sh->msg);
        return 2;
      }
      write_replay(viol, pid, rs, t);
      break;
    }
    runs++;
    steps += sh->steps; switches += sh->switches; ops += sh->ops; sim_ns += (u64)sh->sim_ns; threads += sh->threads; allocs += sh->allocs;
    bool ff = false;
    for (int i = 0; i < sim::F_COUNT; i++) { fired[i] += sh->fired[i]; points[i] += sh->points[i]; ff |= sh->fired[i] > 0; }
    multi += sh->threads > 1; faulty += ff;
    const bool nt = sh->ops > 0 && (sh->switches > 1 || ff);
    nontriv += nt;
    if (nt) hv.push_back(sh->hash);
    if (nt && nsamples < 2 && sh->nW < 400)
    {
      std::ostringstream q;
      q << (nsamples++ ? "," : "") << "{\"seed\":" << rs << ",\"strategy\":\"" << esc(sh->sched) << "\",\"threads\":" << sh->threads << ",\"steps\":" << sh->steps
        << ",\"switches\":" << sh->switches << ",\"operations\":" << sh->ops << ",\"workload\":[";
      for (u32 i = 0; i < sh->nW && i < 48; i++) q << (i ? "," : "") << sh->W[i];
      q << "],\"workload_len\":" << sh->nW << ",\"faults\":[";
      for (u32 i = 0; i < sh->nF && i < 12; i++) q << (i ? "," : "") << "\"" << sim::kFaultNames[sh->F[i].kind] << "@" << sh->F[i].n << "\"";
      q << "],\"hash\":" << sh->hash << "}";
      samples += q.str();
    }
    const char* sp = strchr(sh->sched, ' ');
    strat[std::string(sh->sched, sp ? (size_t)(sp - sh->sched) : strlen(sh->sched))]++;
    const u64 h = sh->hash;
    if (lf) fprintf(lf, "%llu %llu %llu %llu\n", (unsigned long long)rs, (unsigned long long)h, (unsigned long long)sh->steps, (unsigned long long)sh->ops);
    if (recheck && runs % recheck == 0)
    {
      // replaying the recorded tapes must give the identical execution
      Tapes t = grab();
      const u64 pr = sh->nprobes; (void)pr;
      const Outcome o2 = run_once(p, rs, (runs / recheck) % 2 ? &t : nullptr, false);
      rechecks++;
      if (o2 != OK || sh->hash != h)
      {
        nondet++;
        printf("DIVERGENCE property=%s seed=%llu (%s): hash %llx then %llx %s %s\n", pid.c_str(), (unsigned long long)rs,
               (runs / recheck) % 2 ? "tape" : "seed", (unsigned long long)h, (unsigned long long)sh->hash, sh->cls, sh->msg);
      }
    }
  }
  if (lf) fclose(lf);
  const double wall = real_now() - t0;
  std::sort(hv.begin(), hv.end());
  hv.erase(std::unique(hv.begin(), hv.end()), hv.end());
  if (!hashes.empty()) { FILE* f = fopen(hashes.c_str(), "wb"); fwrite(hv.data(), 8, hv.size(), f); fclose(f);
    std::string sf = hashes + ".states"; f = fopen(sf.c_str(), "wb");
    for (u32 i = 0; i < kStateSlots; i++) if (sh->states[i]) fwrite(&sh->states[i], 8, 1, f);
    fclose(f); }
  if (!out.empty())
  {
    std::ofstream o(out);
    o << "{\"property\":\"" << pid << "\",\"runs\":" << runs << ",\"steps\":" << steps << ",\"switches\":" << switches << ",\"ops\":" << ops
      << ",\"sim_ns\":" << sim_ns << ",\"multi\":" << multi << ",\"faulty\":" << faulty << ",\"nontrivial\":" << nontriv
      << ",\"threads\":" << threads << ",\"allocs\":" << allocs << ",\"rechecks\":" << rechecks << ",\"nondet\":" << nondet << ",\"distinct\":" << hv.size()
      << ",\"states\":" << sh->nstates << ",\"states_dropped\":" << sh->states_dropped << ",\"wall\":" << wall << ",\"longest\":" << longest << ",\"longest_seed\":" << longest_seed << ",\"most_steps\":" << most_steps << ",\"fired\":{";
    bool first = true;
    for (int i = 0; i < sim::F_COUNT; i++) if (points[i] || fired[i]) { o << (first ? "" : ",") << "\"" << sim::kFaultNames[i] << "\":[" << fired[i] << "," << points[i] << "]"; first = false; }
    o << "},\"probes\":{"; first = true;
    for (u32 i = 0; i < sh->nprobes; i++) { o << (first ? "" : ",") << "\"" << esc(sh->probes[i].name) << "\":" << sh->probes[i].count; first = false; }
    o << "},\"strategies\":{"; first = true;
    for (auto& s : strat) { o << (first ? "" : ",") << "\"" << s.first << "\":" << s.second; first = false; }
    o << "},\"samples\":[" << samples << "],\"known\":" << known << ",\"violation\":";
    if (vpath.empty()) o << "null";
    else o << "{\"path\":\"" << vpath << "\",\"class\":\"" << esc(vcls) << "\",\"msg\":\"" << esc(vmsg) << "\",\"seed\":" << vseed << "}";
    o << "}\n";
  }
  if (!vpath.empty()) { printf("FOUND property=%s class=%s seed=%llu: %s\n", pid.c_str(), vcls.c_str(), (unsigned long long)vseed, vmsg.c_str()); return 1; }
  return 0;
}

int main(int argc, char** argv)
{
  if (!getenv("SIM_NOASLR"))
  {
    setenv("SIM_NOASLR", "1", 1);
    personality(ADDR_NO_RANDOMIZE);
    execv("/proc/self/exe", argv);
    execv(argv[0], argv);
  }
  const int cpu = atoi(arg(argc, argv, "--cpu", "-1").c_str());
  {
    cpu_set_t have, one; CPU_ZERO(&have);
    sched_getaffinity(0, sizeof have, &have);
    int n = CPU_COUNT(&have), k = 0, want = n ? ((cpu < 0 ? (int)getpid() : cpu) % n) : 0;
    CPU_ZERO(&one);
    for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &have)) { if (k++ == want) { CPU_SET(i, &one); break; } }
    sched_setaffinity(0, sizeof one, &one);
  }
  g_wall_limit = atoi(arg(argc, argv, "--wall", "30").c_str());
  struct sigaction sa{}; sa.sa_handler = on_alarm; sigaction(SIGALRM, &sa, nullptr);
  runtime_init();
  const std::string mode = argc > 1 ? argv[1] : "";
  if (mode == "explore") return explore(argc, argv);
  if (mode == "list") { for (size_t i = 0; i < sim::kNumProperties; i++) puts(sim::kProperties[i].id); return 0; }
  if (mode == "replay")
  {
    ReplayFile r = read_replay(argv[2]);
    const Outcome o = run_once(find_prop(r.prop), r.seed, &r.t, arg(argc, argv, "--trace", "0") == "1");
    printf("RESULT status=%d class=%s hash=%llu expected-class=%s expected-hash=%llu\nMSG %s\n", (int)o, sh->cls[0] ? sh->cls : "-",
           (unsigned long long)sh->hash, r.cls.c_str(), (unsigned long long)r.hash, oneline(sh->msg).c_str());
    for (int i = 0; i < sh->npc; i++) printf("PC 0x%llx\n", (unsigned long long)sh->pc[i]);
    return o == OK ? 0 : o == VIOL ? 1 : 2;
  }
  if (mode == "seed")
  {
    const sim::Property* p = find_prop(arg(argc, argv, "--property", ""));
    const u64 s = strtoull(arg(argc, argv, "--runseed", "1").c_str(), nullptr, 0);
    const Outcome o = run_once(p, s, nullptr, arg(argc, argv, "--trace", "0") == "1");
    printf("RESULT status=%d class=%s hash=%llu steps=%llu ops=%llu threads=%llu switches=%llu sched=%s\nMSG %s\n", (int)o, sh->cls, (unsigned long long)sh->hash,
           (unsigned long long)sh->steps, (unsigned long long)sh->ops, (unsigned long long)sh->threads, (unsigned long long)sh->switches, sh->sched, sh->msg);
    for (int i = 0; i < sh->npc; i++) printf("PC 0x%llx\n", (unsigned long long)sh->pc[i]);
    return o == OK ? 0 : o == VIOL ? 1 : 2;
  }
  if (mode == "minimise")
  {
    ReplayFile r = read_replay(argv[2]);
    const sim::Property* p = find_prop(r.prop);
    Minimiser m{p, r.seed, r.cls, real_now() + atof(arg(argc, argv, "--seconds", "20").c_str())};
    const Tapes orig = r.t;
    if (run_once(p, r.seed, &r.t, false) != VIOL || r.cls != sh->cls)
    { printf("tape replay does not reproduce: %s %s\n", sh->cls, sh->msg); return 2; }
    if (r.cls != "hang-wall") m.run(r.t);
    if (run_once(p, r.seed, &r.t, false) != VIOL || r.cls != sh->cls) { printf("minimised tape does not reproduce\n"); return 2; }
    write_replay(argv[3], r.prop, r.seed, r.t);
    printf("MINIMISED tries=%llu W %zu->%zu S %zu->%zu F %zu->%zu\n", (unsigned long long)m.tries, orig.W.size(), r.t.W.size(),
           orig.S.size(), r.t.S.size(), orig.F.size(), r.t.F.size());
    return 0;
  }
  fprintf(stderr, "usage: explore|replay|minimise|seed|list\n");
  return 2;
}
