#!/usr/bin/env python3
"""Runs the quick check of each planted bug's property on a scratch copy of /repo with the bug.
usage: runseeds.py [id ...]"""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
eng = os.environ.get("ENG", V + "/engine/bin/engine")
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
bad = []
for i in ids:
    d = V + "/seeded/" + i
    if not os.path.exists(d + "/meta.json"): continue
    prop = json.load(open(d + "/meta.json"))["property"]
    S = "/tmp/runseed." + i
    shutil.rmtree(S, ignore_errors=True)
    shutil.copytree("/repo", S, symlinks=True)
    subprocess.run(["git", "apply", d + "/patch.diff"], cwd=S, check=True)
    t = time.time()
    r = subprocess.run([eng, "check", prop, "--repo", S], capture_output=True, text=True, cwd=V)
    lines = [l for l in (r.stdout + r.stderr).splitlines() if "VIOLATION" in l or "INCONCL" in l or "violat" in l]
    print("%-28s %s rc=%d %4.0fs %s" % (i, prop, r.returncode, time.time() - t, (lines or [""])[0][:160]), flush=True)
    if r.returncode != 1: bad.append(i)
    import re
    f = V + "/tools/caught.json"
    c = json.load(open(f)) if os.path.exists(f) else {}
    h = re.search(r"replays/\w+/(\w+?)_\d+\.json", r.stdout + r.stderr)
    c[i] = prop + " " + (h.group(1) if h else "") if r.returncode == 1 else "missed"
    json.dump(c, open(f, "w"), indent=1, sort_keys=True)
    shutil.rmtree(S)
print("MISSED:", bad)
