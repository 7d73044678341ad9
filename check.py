#!/usr/bin/env python3
"""Decide one property by deterministic simulation.

check.py PROPERTY            quick or thorough by VERIF_TIER (default quick)
check.py --replay FILE       re-execute a recorded failing run (exit 1 if it fails)
check.py --build             build every harness

Exit 0: the property held on every simulated run.  Exit 1: a violation that
replays exactly was found (VIOLATION line).  Exit 2: no answer.
"""
import array, fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
sys.path.insert(0, V)
from proptable import PROPS, HARNESS_REAL, STUBS, ASSUME  # noqa: E402


def build(targets):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["make", "-k", "-j%d" % JOBS, "B=" + B, "REPO=" + REPO] +
                           [os.path.join(B, t) for t in targets], cwd=V,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write("\n".join(r.stdout.splitlines()[-40:]) + "\n")
        print("ERROR: build failed")
        sys.exit(2)


def symbolise(binary, pcs):
    if not pcs:
        return []
    r = subprocess.run(["addr2line", "-Cfpsi", "-e", binary] + pcs, stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, text=True)
    return [l[:300] for l in r.stdout.splitlines()][:24]


def replay(binary, path, trace=False):
    r = subprocess.run([binary, "replay", path] + (["--trace", "1"] if trace else []),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if trace:
        sys.stdout.write(r.stdout)
    m = re.search(r"RESULT status=\d+ class=(\S+) hash=(\d+)", r.stdout)
    pcs = re.findall(r"^PC (0x[0-9a-f]+)", r.stdout, re.M)
    msg = re.search(r"^MSG (.*)$", r.stdout, re.M)
    return r.returncode, m.group(1) if m else "?", m.group(2) if m else "?", pcs, msg.group(1) if msg else ""


def known_findings(prop):
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) match="([^"]*)" (.*)$', line.strip())
            if m and m.group(1) == prop:
                out.append({"match": m.group(2), "what": m.group(3)})
    return out


def header(path, key):
    for line in open(path):
        if line.startswith(key + " "):
            return line.split()[1]
    return None


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--build":
        build(sorted({b for p in PROPS.values() for b in p["bins"]}))
        return 0
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        path = sys.argv[2]
        prop = header(path, "property")
        b = header(path, "harness") or PROPS[prop]["bins"][0]
        build([b])
        rc, cls, h, pcs, msg = replay(os.path.join(B, b), path, "--trace" in sys.argv)
        print("class=%s hash=%s (recorded class=%s hash=%s)\n%s" % (cls, h, header(path, "class"), header(path, "hash"), msg))
        for l in symbolise(os.path.join(B, b), pcs):
            print("  at", l)
        return rc
    prop = sys.argv[1]
    cfg = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    build(cfg["bins"])
    t_build = time.time() - t0
    secs = float(os.environ.get("VERIF_SECONDS", cfg.get(tier, 20 if tier == "quick" else 600)))
    known = known_findings(prop)
    work = os.path.join(B, "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(work)
    rdir = os.path.join(V, "replays")
    os.makedirs(rdir, exist_ok=True)
    procs = []
    nb = len(cfg["bins"])
    for i in range(JOBS):
        b = cfg["bins"][0] if nb == 1 or i < JOBS - JOBS // 4 else cfg["bins"][1 + i % (nb - 1)]
        cmd = [os.path.join(B, b), "explore", "--property", prop, "--seed", str(seed),
               "--start", str(i), "--stride", str(JOBS), "--seconds", str(secs),
               "--cpu", str(i), "--wall", "20", "--out", "%s/%d.json" % (work, i),
               "--viol", "%s/%d.viol" % (work, i), "--hashes", "%s/%d.h" % (work, i)]
        for k in known:
            cmd += ["--ignore", k["match"]]
        log = open("%s/%d.log" % (work, i), "w")
        procs.append((subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT), b, i))
    stopped = False
    while any(p.poll() is None for p, _, _ in procs):
        time.sleep(0.05)
        if not stopped and any(p.poll() == 1 for p, _, _ in procs):
            stopped = True
            for p, _, _ in procs:
                if p.poll() is None:
                    p.send_signal(signal.SIGTERM)
    t_explore = time.time() - t0 - t_build
    agg = dict(runs=0, steps=0, switches=0, ops=0, sim_ns=0, multi=0, faulty=0, nontrivial=0,
               threads=0, allocs=0, rechecks=0, nondet=0, known=0, states_dropped=0)
    fired, probes, strategies, samples, viols, errors = {}, {}, {}, [], [], []
    hashes, states = set(), set()
    for p, b, i in procs:
        log = open("%s/%d.log" % (work, i), errors="replace").read()
        try:
            o = json.load(open("%s/%d.json" % (work, i)))
        except Exception:
            errors.append("worker %d (%s) exit %s: %s" % (i, b, p.returncode, log[-600:].strip()))
            continue
        if "DIVERGENCE" in log:
            print("NOTE: " + [l for l in log.splitlines() if "DIVERGENCE" in l][0])
        for k in agg:
            agg[k] += o.get(k, 0)
        for k, (f, n) in o["fired"].items():
            a = fired.setdefault(k, {"injected": 0, "opportunities": 0})
            a["injected"] += f
            a["opportunities"] += n
        for k, n in o["probes"].items():
            probes[k] = probes.get(k, 0) + n
        for k, n in o["strategies"].items():
            strategies[k] = strategies.get(k, 0) + n
        for s in o["samples"][:1]:
            s["harness"] = b
            samples.append(s)
        for name, dst in ((".h", hashes), (".h.states", states)):
            f = "%s/%d%s" % (work, i, name)
            if os.path.exists(f):
                a = array.array("Q")
                a.frombytes(open(f, "rb").read())
                dst.update(a)
        if o.get("violation"):
            viols.append((o["violation"], b))
    status = 0
    reported = None
    for v, b in viols:
        binary = os.path.join(B, b)
        path = os.path.join(rdir, "%s-%d.replay" % (prop, v["seed"]))
        mini = os.path.join(work, "min")
        src = v["path"]
        r = subprocess.run([binary, "minimise", src, mini, "--seconds", "20" if tier == "quick" else "60"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode == 0:
            src = mini
        ok = False
        for cand in ([mini] if r.returncode == 0 else []) + [v["path"]]:
            want = (header(cand, "class"), header(cand, "hash"))
            res = [replay(binary, cand) for _ in range(2)]
            if all(x[0] == 1 and (x[1], x[2]) == want for x in res):
                text = open(cand).read().replace("property ", "harness %s\nproperty " % b, 1)
                open(path, "w").write(text)
                ok = True
                print("%s: %s\n  %s" % (prop, want[0], res[0][4]))
                for l in symbolise(binary, res[0][3]):
                    print("  at", l)
                print("  seed %d, %s; %s" % (v["seed"], b, r.stdout.strip().splitlines()[-1] if r.stdout.strip() else ""))
                print("  re-execute: python3 check.py --replay %s" % path)
                break
        if ok:
            reported = path
            status = 1
            break
        errors.append("violation of seed %d (%s: %s) did not replay: %s" % (v["seed"], v["class"], v["msg"], r.stdout[-300:]))
    wall = time.time() - t0
    hours = max(t_explore, 1e-9) / 3600.0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg["level"],
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": len(hashes),
            "rule": cfg["rule"] + "  One evaluation is one simulated run of a fresh process from one seed. Non-trivial: at least one "
                    "operation of the property was performed and either threads were interleaved or a fault fired. Distinct: different "
                    "hash over the context-switch sequence (thread, local step), the faults fired and the events observed.",
            "samples": samples[:6],
            "simulated_runs": agg["runs"], "non_trivial_runs": agg["nontrivial"],
            "runs_per_hour": int(agg["runs"] / hours), "seeds_per_hour": int(agg["runs"] / hours),
            "simulated_time_s": round(agg["sim_ns"] / 1e9, 3),
            "instrumented_steps": agg["steps"], "context_switches": agg["switches"],
            "operations": agg["ops"], "simulated_threads": agg["threads"], "allocations": agg["allocs"],
            "multi_threaded_runs": agg["multi"], "runs_with_faults": agg["faulty"],
            "fault_kinds": fired, "strategies": strategies, "reached": probes,
            "distinct_states": len(states),
            "determinism_rechecks": agg["rechecks"], "determinism_divergences": agg["nondet"],
            "known_findings_hit": agg["known"],
            "real_components": HARNESS_REAL[cfg["bins"][0][2:]],
            "stubbed_components": STUBS,
            "build_s": round(t_build, 1), "explore_s": round(t_explore, 1),
        },
        "assumptions": ASSUME + cfg.get("assume", []),
        "wall_s": round(wall, 2),
        "violations": 1 if status == 1 else 0,
    }
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    tmp = os.path.join(V, "evidence", "." + prop + ".tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(V, "evidence", prop + ".json"))
    shutil.rmtree(work, ignore_errors=True)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if agg["nondet"]:
        print("NOTE: %d of %d determinism rechecks diverged" % (agg["nondet"], agg["rechecks"]))
    print("%s %s: %d runs (%d distinct non-trivial), %d operations, %.1f simulated s, %.1f s wall" %
          (prop, tier, agg["runs"], len(hashes), agg["ops"], agg["sim_ns"] / 1e9, wall))
    if status == 1:
        print("VIOLATION property=%s replay=%s" % (prop, reported))
        return 1
    if errors:
        for e in errors:
            print("ERROR: " + e)
        return 2
    if agg["runs"] == 0 or agg["ops"] == 0 or not hashes:
        print("ERROR: nothing explored")
        return 2
    missing = [m for m in cfg.get("must_reach", []) if not probes.get(m)]
    if missing:
        print("NOTE: not reached in this run: " + ", ".join(missing))
    return 0


if __name__ == "__main__":
    sys.exit(main())
