"""The reference: the facts of the tree on which every instance was confirmed
(/verif/spec/ref.json.xz, written by tool/mkref.py).  It is the resolved program of
that tree; a later tree is judged against what those functions do, never against
how they are written (vlib/compare.py)."""
import json, lzma, os, sys
from . import facts as FX

PATH = os.path.join(FX.ROOT, "spec", "ref.json.xz")


def save(F, path=PATH):
    src = F.repo + "/"

    def fix(o):
        o = dict(o)
        if o.get("file", "").startswith(src):
            o["file"] = "/repo/" + o["file"][len(src):]
        return o
    d = {"fns": [fix({k: v for k, v in f.items() if not k.startswith("_")}) for f in F.fns.values()],
         "recs": [fix(r) for r in F.recs.values()],
         "gvars": [fix(g) for g in F.gvars.values()],
         "enums": [fix(e) for e in F.enums.values()],
         "protos": [fix(p) for p in F.protos.values()],
         "pats": sorted([q, F.rel(f), l] for q, f, l in F.pats),
         "types": F.types,
         "units": [[u[0], u[1], [e.replace(src, "") for e in u[2]]] for u in F.units]}
    s = json.dumps(d, sort_keys=True, separators=(",", ":")).encode()
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as fh:
        fh.write(lzma.compress(s, preset=9))


def load(path=PATH):
    sys.setrecursionlimit(30000)
    if not os.path.exists(path):
        raise FX.AnalysisError("no reference at " + path)
    d = json.loads(lzma.decompress(open(path, "rb").read()))
    F = FX.Facts()
    F.repo = "/repo"
    for f in d["fns"]:
        F.add_fn(f)
    for r in d["recs"]:
        F.recs[r["q"]] = r
    for g in d["gvars"]:
        F.gvars[(g["q"], g["file"], g["l"])] = g
    for e in d["enums"]:
        F.enums[e["q"]] = e
    for p in d["protos"]:
        F.protos[p["n"]] = p
    F.pats = set((q, "/repo/" + f, l) for q, f, l in d["pats"])
    F.types = d["types"]
    F.units = [tuple(u) for u in d["units"]]
    return F
