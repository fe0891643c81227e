#!/usr/bin/env python3
"""Runs the quick check of each planted bug's property with the bug applied to /repo (and undoes it).
usage: hunt.py [--prop Cxx] [id ...]   results: work/hunt.json"""
import json, os, subprocess, sys, time
R = "/verif/work/hunt.json"
args = sys.argv[1:]
prop = None
if args[:1] == ["--prop"]:
    prop = args[1]; args = args[2:]
res = json.load(open(R)) if os.path.exists(R) else {}
for id in sorted(os.listdir("/verif/seeded")):
    d = f"/verif/seeded/{id}"
    if not os.path.isdir(d) or (args and id not in args):
        continue
    p = prop or json.load(open(d + "/meta.json"))["property"]
    assert subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout == ""
    a = subprocess.run(f"git -C /repo apply {d}/patch.diff", shell=True)
    if a.returncode:
        print(id, "DOES NOT APPLY"); continue
    t = time.time()
    try:
        r = subprocess.run(["./run", "check", p, "quick"], cwd="/verif", capture_output=True, text=True,
                           env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
    finally:
        subprocess.run("git -C /repo checkout -q -- .", shell=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    ok = r.returncode == 1 and any(f"property={p}" in l for l in v)
    res[f"{id}:{p}"] = {"caught": ok, "rc": r.returncode, "s": round(time.time() - t)}
    json.dump(res, open(R, "w"), indent=1, sort_keys=True)
    print(id, p, "caught" if ok else f"MISSED rc={r.returncode}", round(time.time() - t), "s", flush=True)
    if r.returncode not in (0, 1):
        print(r.stdout[-600:], r.stderr[-600:])
