#!/usr/bin/env python3
"""apply each seeded change to /repo, run its property's check (or all with --all), undo"""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
a = sys.argv[1:]
allp = "--all" in a
ids = [x for x in a if x[0] != "-"] or sorted(os.listdir(ROOT + "/seeded"))
for i in ids:
    d = ROOT + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    props = ["P%02d" % k for k in range(1, 25)] if allp else [prop]
    assert not subprocess.run("git -C /repo status --porcelain", shell=True, stdout=subprocess.PIPE).stdout.strip()
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    try:
        t = time.time()
        out = []
        for p in props:
            r = subprocess.run([ROOT + "/check", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode or "VIOLATION" in r.stdout:
                v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
                out.append("%s:%d:%d" % (p, r.returncode, len(v)))
        print(i, prop, "CAUGHT" if any(o.startswith(prop + ":1") for o in out) else "missed", out, "%.0fs" % (time.time() - t), flush=True)
    finally:
        subprocess.check_call("git -C /repo checkout -q -- .", shell=True)
