"""python3 tool/dev/delta.py DIR: items of a scratch copy against the reference"""
import sys, time; sys.path.insert(0, '/verif')
from vlib import facts, ref, delta
t = time.time()
R = ref.load(); C = facts.load(sys.argv[1]); t1 = time.time()
D = delta.compute(R, C)
print(D["stats"], "load %.1f delta %.1f" % (t1 - t, time.time() - t1), "gone", D["gone"][:5], "new", D["new"][:5], "errors", {k: v[:2] for k, v in D["errors"].items()})
seen = set()
for it in D["items"]:
    k = (it["file"], it["l"], it["verdict"])
    if k in seen: continue
    seen.add(k)
    print(it["verdict"], it["q"][:90], it["file"], it["l"], it["attrs"], it.get("why", ""))
    for p in (it["pieces"] + it["asserts"])[:4]:
        print("    ", p["ok"], p["kinds"], p["dk"])
        print("       -", (p["ref"] or "")[:200]); print("       +", (p["cur"] or "")[:200])
