"""Runs the rules of one property, writes its evidence, decides the exit status.

exit 0  nothing the rules decide is violated (known findings are printed)
exit 1  VIOLATION lines, one per instance
exit 3  the analysis itself is broken (no compile, anchors gone): neither answer"""
import importlib, json, os, sys, time, traceback
from . import facts as FX
from . import ref as RF
from . import delta as DL

ROOT = FX.ROOT
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.json")


class Finding(object):
    """inst identifies the violated instance independently of line numbers"""

    def __init__(self, rule, inst, file, line, text, detail=None):
        self.rule, self.inst, self.file, self.line, self.text, self.detail = rule, inst, file, line, text, detail or {}

    def key(self):
        return self.rule + "|" + self.inst

    def show(self):
        return "%s:%s: [%s] %s: %s" % (self.file, self.line, self.rule, self.inst, self.text)


class Ctx(object):
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.C = FX.load()
        self.R = RF.load()
        self._D = None
        self._ndebug = None
        self.counts = {}
        self.notes = []
        self.undecided = []

    @property
    def D(self):
        if self._D is None:
            self._D = DL.compute(self.R, self.C)
        return self._D

    @property
    def ndebug(self):
        if self._ndebug is None:
            self._ndebug = FX.load(ndebug=True)
        return self._ndebug

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, least):
        if self.counts.get(name, 0) < least:
            raise FX.AnalysisError("rule instances vanished: %s = %d, expected at least %d" % (name, self.counts.get(name, 0), least))


def mode_b(ctx):
    """behaviour of every function in scope against the reference"""
    from rules import scope
    sc = scope.MODEB.get(ctx.prop)
    if sc is None:
        return []
    fscope, pscope, attrs = sc
    R, D = ctx.R, ctx.D
    out = []
    n = present = 0
    pats = set()
    for f in R.fns.values():
        rel = R.rel(f["file"])
        if not rel.startswith("src/"):
            continue
        it = {"q": f["q"], "n": f["n"], "file": rel, "cls": f.get("cls", ""), "l": f["l"], "pieces": [], "fk": f["fk"]}
        if fscope(it):
            n += 1
            pats.add((rel, f["l"]))
            if f["fk"] in ctx.C.fns or f["fk"].split("@")[0] in ctx.C.fns:
                present += 1
    ctx.count("functions_in_scope", n)
    ctx.count("function_patterns_in_scope", len(pats))
    ctx.count("functions_found_in_current_tree", present)
    if n == 0 or present < 0.5 * n:
        raise FX.AnalysisError("only %d of %d functions in the scope of %s were found in the current tree" % (present, n, ctx.prop))
    groups = {}
    for it in D["items"]:
        if fscope(it):
            groups.setdefault((it["file"], it["l"], it["n"]), []).append(it)
    for (f, l, nm), its in sorted(groups.items(), key=lambda x: str(x[0])):
        sure = [it for it in its if it["verdict"] == "different"]
        unsure = [it for it in its if it["verdict"] in ("partial", "unresolved", "unknown", "order")]
        hit = None
        if sure and len(sure) >= len(unsure):
            for it in sure:
                ps = [p for p in it["pieces"] if pscope(it, p)]
                if ps:
                    hit = (it, ps)
                    break
        if hit is None:
            for it in its:
                if it["verdict"] == "same":
                    ps = [p for p in it["asserts"] if p["ok"] and pscope(it, p) and ctx.prop == "P07"]
                    if ps:
                        hit = (it, ps)
                        break
                if it["verdict"] == "order" and ordered(ctx.prop, it):
                    ps = [p for p in it["pieces"] if p]
                    hit = (it, ps)
                    break
        if hit is not None:
            it, ps = hit
            p = ps[0]
            out.append(Finding("behaviour", it["q"], it["file"], it["cl"],
                               "%s (%s): was `%s` now `%s`" % (explain(p, it), "/".join(p["kinds"]), p["ref"] or "nothing", p["cur"] or "nothing"),
                               {"pieces": ps[:12], "function": it["q"], "reference_line": p["rl"], "current_line": p["cl"]}))
            continue
        at = [(it, a) for it in its for a in it["attrs"] if a[0] in attrs]
        if at and (not unsure or at[0][1][0] in ("virtual", "noexcept", "default", "narrow")):
            it, a = at[0]
            out.append(Finding("declaration", it["q"], it["file"], it["cl"], a[1], {"kind": a[0]}))
            continue
        if unsure:
            it = unsure[0]
            ctx.undecided.append("%s (%s:%s): %s" % (it["q"][:120], it["file"], it["cl"], it.get("why") or it["verdict"]))
    for q, f, l, u in D["gone"]:
        it = {"q": q, "n": q.rsplit("::", 1)[-1], "file": f, "cls": q.rsplit("::", 1)[0], "l": l, "pieces": [], "fk": ""}
        if fscope(it):
            ctx.undecided.append("%s (%s:%s): no longer present" % (q[:120], f, l))
    return out


def ordered(prop, it):
    """orders of effects that are observable"""
    ns = set(it.get("names", []))
    if prop == "P03":
        return any(n.startswith("pthread_") for n in ns)
    if prop == "P16":
        return any(n.startswith("MPI_") for n in ns)
    if prop == "P10":
        return any(n in ("delete", "fclose") or (n.startswith("H5") and n.endswith("close")) for n in ns)
    if prop == "P08":
        return any(n in ("out", "operator<<", "operator>>", "write", "read", "internalWrite", "internalRead", "overwrite") for n in ns) and it["verdict"] == "order"
    return False


def explain(p, it):
    if it["verdict"] == "order":
        return "effects happen in another order"
    if p["dk"] == ["lost"]:
        return "an effect is lost"
    if p["dk"] == ["added"]:
        return "an effect is added"
    w = []
    if "loops" in p["dk"]:
        w.append("range")
    if "guard" in p["dk"]:
        w.append("condition")
    if "value" in p["dk"]:
        w.append("value")
    return "different " + " and ".join(w or ["effect"])


def load_known():
    if not os.path.exists(KNOWN):
        return {"findings": [], "fixed": []}
    return json.load(open(KNOWN))


def main(prop, tier):
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    ev = os.path.join(EVID, prop + ".json")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        ctx = Ctx(prop, tier)
        found = []
        mod = None
        mp = os.path.join(ROOT, "rules", prop.lower() + ".py")
        rules = []
        if os.path.exists(mp):
            mod = importlib.import_module("rules." + prop.lower())
            for name, fn in mod.RULES:
                r = fn(ctx)
                rules.append({"rule": name, "text": " ".join((fn.__doc__ or "").split()), "findings": len(r)})
                found += r
        b = mode_b(ctx)
        found += b
    except FX.AnalysisError as e:
        print("ANALYSIS-BROKEN %s: %s" % (prop, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN %s" % prop)
        return 3
    known = {k["instance"]: k for k in load_known()["findings"] if k["property"] == prop}
    viol, kn, seen = [], [], set()
    for f in found:
        if f.key() in seen:
            continue
        seen.add(f.key())
        (kn if f.key() in known else viol).append(f)
    for f in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[f.key()]["what"]))
    rp = os.path.join(EVID, prop + ".violations.json")
    if viol:
        json.dump([{"rule": f.rule, "instance": f.inst, "file": f.file, "line": f.line, "text": f.text, "detail": f.detail} for f in viol],
                  open(rp, "w"), indent=1)
        for f in viol[:40]:
            print(f.show()[:1200])
    elif os.path.exists(rp):
        os.unlink(rp)
    st = ctx.D["stats"] if ctx._D else {}
    errs = sum(len(u[2]) for u in ctx.C.units)
    cov = {
        "explanation": (mod.ABOUT if mod is not None and hasattr(mod, "ABOUT") else "Behaviour of every function in scope, as guarded effects over canonical terms, against the confirmed reference."),
        "counts": dict(ctx.counts, units_analysed=len(ctx.C.units), functions_analysed=len(ctx.C.fns), unit_errors=errs,
                       known_findings=len(kn), undecided=len(ctx.undecided), **{"delta_" + k: v for k, v in st.items()}),
        "rules": rules + ([{"rule": "behaviour", "text": "every function in scope has the effects, conditions, ranges and values of the confirmed reference", "findings": len(b)}] if ctx._D else []),
        "reported": [f.show()[:600] for f in viol][:50],
        "undecided": ctx.undecided[:60],
        "notes": ctx.notes[:40],
    }
    E = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": round(time.time() - t0, 2),
         "violations": len(viol),
         "assumptions": ["functions are compared as instantiated by the library, its drivers and /verif/probes",
                         "a difference that the normal form cannot fully resolve is recorded as undecided, not reported"]}
    json.dump(E, open(ev, "w"), indent=1)
    if viol:
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("OK %s: %s" % (prop, ", ".join("%s=%s" % kv for kv in sorted(ctx.counts.items()))[:400]))
    return 0
