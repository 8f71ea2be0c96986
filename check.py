#!/usr/bin/env python3
"""Runs the seeded simulation that decides one property: check.py <ID> [quick|thorough]
   replays one recorded run:                             check.py replay FILE [-v]
   builds everything:                                    check.py setup"""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import build
from plan import PLAN

WORKERS = 8

def load(path):
    st = {"fired": {}, "probe": {}, "sample": [], "violation": [], "inter": set(), "traces": set()}
    for l in open(path):
        l = l.rstrip("\n"); k, _, v = l.partition(" ")
        if k in ("fired", "probe"):
            n, c = v.rsplit(" ", 1); st[k][n] = int(c)
        elif k == "sample": st["sample"].append(v)
        elif k == "violation": st["violation"].append(v.split("\t"))
        elif k in ("inter", "traces"): st[k] = set(v.split())
        else: st[k] = float(v)
    return st

def workers(exe, sut, prop, first, count, secs, out, extra=(), maxv=1, n=WORKERS):
    """Splits `count` seeds from `first` over n processes; returns the merged results."""
    ps = []
    for w in range(n):
        c = count // n + (1 if w < count % n else 0)
        if not c: continue
        f = os.path.join(out, "w%d.txt" % w)
        if os.path.exists(f): os.remove(f)
        cmd = [exe, "run", "--prop", prop, "--sut", sut, "--from", str(first + w), "--stride", str(n), "--count", str(c),
               "--secs", str(secs), "--out", f, "--repdir", out, "--maxv", str(maxv)] + list(extra)
        ps.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(f + ".err", "w")), f))
    m = {"fired": {}, "probe": {}, "sample": [], "violation": [], "inter": set(), "traces": set()}
    errs, grace = [], None
    live = list(ps)
    hard = time.time() + secs + 120
    while live:
        for x in list(live):
            if x[0].poll() is None: continue
            live.remove(x)
            if x[0].returncode or not os.path.exists(x[1]):
                errs.append("worker ended with %s: %s" % (x[0].returncode, open(x[1] + ".err").read()[-500:])); continue
            st = load(x[1])
            for k, v in st.items():
                if k in ("fired", "probe"):
                    for a, b in v.items(): m[k][a] = m[k].get(a, 0) + b
                elif k in ("inter", "traces"): m[k] |= v
                elif k in ("sample", "violation"): m[k] += v
                else: m[k] = m.get(k, 0) + v
            if st["violation"] and grace is None: grace = time.time() + 5
        if (grace and time.time() > grace) or time.time() > hard:
            for x in live: x[0].kill()
            for x in live: x[0].wait()
            if not grace: errs.append("worker did not end in time")
            break
        time.sleep(0.02)
    return m, errs

def sim(exe, args, limit=240):
    try:
        r = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit, errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return -1, "time limit"

def confirm(exe, sut, raw, dest, limit):
    """Replays the recorded run in a fresh process, minimises it, replays the result in a fresh process."""
    rc, o = sim(exe, ["replay", raw, "--sut", sut])
    if rc != 1: return None, "the recorded run does not repeat: " + o.strip()[-300:]
    rc, o2 = sim(exe, ["shrink", raw, "--out", dest, "--sut", sut, "--limit", str(limit)])
    if rc == 0:
        rc, o3 = sim(exe, ["replay", dest, "--sut", sut])
        if rc == 1: return dest, o2.strip()
    return raw, "not minimised"

def main():
    if len(sys.argv) < 2: print(__doc__); return 64
    exe = build.build_sim()
    if sys.argv[1] == "setup":
        build.build_sut(exe); print("built"); return 0
    if sys.argv[1] == "replay":
        return subprocess.call([exe, "replay", sys.argv[2], "--sut", build.build_sut(exe)] + sys.argv[3:])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    print("property %s, tier %s, VERIF_SEED=%d" % (prop, tier, seed)); sys.stdout.flush()
    t0 = time.time()
    sut = build.build_sut(exe)
    count, secs = PLAN[prop][tier]
    first = (seed - 1) * 1000000000
    out = os.path.join(build.BUILD, "run-" + prop); os.makedirs(out, exist_ok=True)
    for f in os.listdir(out): os.remove(os.path.join(out, f))
    m, errs = workers(exe, sut, prop, first, count, secs, out)
    # repeatability: a sample of the seeds is executed twice and then replayed from its recorded decisions
    det, e2 = workers(exe, sut, prop, first, 64 if tier == "quick" else 640, 60, out, ["--twice"], maxv=1000) if not m["violation"] else ({}, [])
    errs += e2
    if det.get("nondeterministic"): errs.append("%d runs are not repeatable" % det["nondeterministic"])
    code = 0
    nviol = 0
    if prop == "C13":
        known_c13(exe, sut, first, out)
    if m["violation"]:
        def seedno(v): return int(v[0].rsplit("-", 1)[1].split(".")[0])
        reps = os.path.join(HERE, "replays"); os.makedirs(reps, exist_ok=True)
        best, why = None, []
        for v in sorted(m["violation"], key=seedno)[:8]:
            dest = os.path.join(reps, "%s-%d.replay" % (prop, seedno(v)))
            p, info = confirm(exe, sut, v[0], dest, 25 if tier == "quick" else 120)
            if not p: why.append(info); continue
            if p != dest: os.replace(p, dest)
            best = dest
            print("seed %d: %s: %s" % (seedno(v), v[1], v[2])); print(info)
            break
        if best:
            print("replay with: python3 %s replay %s" % (os.path.join(HERE, "check.py"), best))
            print("VIOLATION property=%s replay=%s" % (prop, best))
            code = 1; nviol = len(m["violation"])
        else: errs += why
    wall = time.time() - t0
    evidence(prop, tier, seed, m, det, wall, nviol)
    if m.get("runs"):
        print("%d runs, %d distinct, %.1f s simulated, %d undecided, %.1f s wall" % (m["runs"], len(m["traces"]), m["clock_us"] / 1e6, m["undecided"], wall))
    if errs:
        for e in errs: print("ERROR " + e)
        if not code: code = 2
    sys.stdout.flush()
    return code

def known_c13(exe, sut, first, out):
    """The recorded finding: a kill between two stores of one ring update (see known_findings.txt)."""
    lines = [l.strip() for l in open(os.path.join(HERE, "known_findings.txt")) if l.startswith("known: property=C13")]
    if not lines: return
    d = os.path.join(out, "known"); os.makedirs(d, exist_ok=True)
    m, _ = workers(exe, sut, "C13", 7000000, 400, 30, d, ["--set", "killdirty=2"])
    for f in os.listdir(d): os.remove(os.path.join(d, f))
    os.rmdir(d)
    if m["violation"]:
        print("KNOWN-FINDING: property=C13 " + lines[0].split(" ", 2)[2])

def evidence(prop, tier, seed, m, det, wall, nviol):
    secs = max(m.get("seconds", 0) / WORKERS, 1e-6)
    runs = int(m.get("runs", 0))
    faults = {k: v for k, v in sorted(m["fired"].items())}
    tool = prop in ("C19", "C20", "C21", "C22", "C25", "C26")
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(m["traces"]),
        "rule": "one case is one simulated run: a seed decides the configuration, the workload programs, every scheduling choice, delay and fault. "
                "It is non-trivial when several operations completed and the scheduler switched processes; distinct means a distinct hash over its whole event log (every system call, lock, store order, result).",
        "samples": m["sample"][:3],
        "distinct_interleavings": len(m["inter"]),
        "interleaving_measure": "distinct hashes over the positions (in executed memory accesses and system calls) at which the scheduler switched processes, among non-trivial runs",
        "runs_per_hour": round(runs / secs * 3600),
        "seeds_per_hour": round(runs / secs * 3600),
        "first_seed": (seed - 1) * 1000000000,
        "simulated_seconds": m.get("clock_us", 0) / 1e6,
        "operations": int(m.get("ops", 0)),
        "scheduler_switches": int(m.get("switches", 0)),
        "memory_accesses_and_calls": int(m.get("steps", 0)),
        "faults_injected": faults,
        "rare_conditions_reached": dict(sorted(m["probe"].items())),
        "undecided_histories": int(m.get("undecided", 0)),
        "history_search_nodes": int(m.get("searches", 0)),
        "repeatability_runs": int(det.get("runs", 0)) * 3 if det else 0,
        "real_code": ["lib/bw.c", "lib/ux.c", "lib/bw-tool.c"] if prop == "C27" else ["src/shr.c", "lib/bw.c", "lib/ux.c"] + (["util/shr-tool.c"] if tool else []),
        "stubs": ["kernel: files, mmap, record locks, AF_UNIX datagrams, epoll, eventfd-like descriptors, /proc, signals, processes, clock, disk"
                  + (", TCP, pipes, signalfd" if tool else ", select, signalfd, timers" if prop == "C27" else ""), "libc: malloc/calloc/free, memcpy family, stdio, opendir/readdir, getline"],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["the simulated kernel behaves like Linux on the calls the code makes", "memory accesses are sequentially consistent (every shared access happens under the ring lock)",
                          "sampling: a clean batch is evidence, not proof"],
          "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f: json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)

if __name__ == "__main__":
    try: sys.exit(main())
    except RuntimeError as e:
        print("ERROR %s" % e); sys.exit(2)
