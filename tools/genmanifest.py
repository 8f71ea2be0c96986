#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
NA = {
}
BASE = ("Seeded sampling of complete executions of the real code on a simulated kernel: every schedule, fault, kill point and segmentation decision comes from the seed. "
        "No violation in the sampled runs; not a proof. Trusts the simulated kernel's fidelity to Linux, the reference model, and that shared memory is sequentially consistent (the code accesses it under a lock). ")
NOTE = {
 "C13": "Kills between two stores of one ring update made under the lock are a known finding (known_findings.txt) and are explored separately from the deciding runs, which kill everywhere else.",
 "C17": "Power is lost only while no operation is in progress, with any subset of unsynced pages surviving.",
 "C26": "The mount namespace (mounts, stacking, path lookup, symbolic links, working directories) is simulated after Linux; nothing is mounted in the sandbox.",
 "C19": "TCP is a simulated byte stream with arbitrary segmentation, delay, reset and back-pressure.",
 "C20": "TCP is a simulated byte stream with arbitrary segmentation, delay, reset and back-pressure.",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i in NA: continue
    checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                   "technique": "deterministic simulation with fault injection (seeded search over schedules and faults, model-checked histories)".replace("model-checked histories", "histories compared with a reference model"),
                   "level": "exploration", "level_note": BASE + NOTE.get(i, "")})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: the seams are the C library boundary (symbols renamed with objcopy at build time) and compiler memory-access instrumentation. "
              "check.py replay FILE replays a recorded run exactly."}
with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "checks")
