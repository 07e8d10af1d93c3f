"""Behavioural difference between the reference and the current tree, function by
function, as a list of items that the property rules select from.

An item is certain when every differing effect line is fully resolved (no value
the analysis merely names) and the difference is not one of order alone; anything
else is recorded as undecided and never reported as a violation."""
import hashlib, json, os
from . import facts as FX
from . import norm as NM
from . import compare as CP
from . import elem as EL
from . import terms as X
from . import ref as RF
from .terms import T

# effects whose relative order is observable
ORDERED = ("pthread_", "MPI_", "H5", "operator<<", "operator>>", "seekg", "open", "close", "std::getline", "getline",
           "write", "read", "send", "recv", "bcast", "erase", "push_back", "pop", "push", "swap", "std::cout", "rename", "dup2")


def names_in(*ts):
    out = set()
    for t in ts:
        if isinstance(t, T):
            for s in X.subterms(t):
                out.add(s.op)
                for a in s.args:
                    if isinstance(a, str) and len(a) < 80:
                        out.add(a)
    return out


def strs_in(*ts):
    out = set()
    for t in ts:
        if isinstance(t, T):
            for s in X.subterms(t):
                if s.op == "str":
                    out.add(str(s.args[0]))
    return out


def clip(s, n=420):
    s = s.replace("\n", " ")
    return s if len(s) <= n else s[:n] + "..."


def describe(p):
    ok, a, b, d = p
    kinds = sorted(set(x.kind for x in (a, b) if x is not None))
    ws = []
    if a is not None and b is not None:
        for x, y in d:
            ws += [x, y]
        dk = set()
        if tuple(a.loops) != tuple(b.loops):
            dk.add("loops")
        if a.guard is not b.guard:
            dk.add("guard")
        if tuple(a.pay) != tuple(b.pay):
            dk.add("value")
    else:
        ln = a if a is not None else b
        ws = list(ln.loops) + [ln.guard] + list(ln.pay)
        dk = {"lost" if b is None else "added"}
    nm = names_in(*ws)
    whole = set()
    for ln in (a, b):
        if ln is not None:
            whole |= names_in(*(list(ln.loops) + [ln.guard] + list(ln.pay)))
    return {"ok": bool(ok), "kinds": kinds, "dk": sorted(dk), "names": sorted(nm)[:200], "line": sorted(whole)[:300],
            "ref": clip(NM.show_line(a)) if a is not None else None,
            "cur": clip(NM.show_line(b)) if b is not None else None,
            "rl": a.l if a is not None else 0, "cl": b.l if b is not None else 0,
            "loopfree": not ((a and a.loops) or (b and b.loops))}


def noasserts(F, fn):
    """hash of a function without its assertions"""
    def go(o):
        if isinstance(o, dict):
            return {k: go(v) if isinstance(v, (dict, list)) else v for k, v in o.items()}
        return [go(x) if isinstance(x, (dict, list)) else x for x in o
                if not (isinstance(x, dict) and x.get("k") == "expr" and isasrt(x))]
    g = dict(fn)
    g["body"] = go(fn["body"])
    return FX.irhash(F, g)


def isasrt(x):
    e = x.get("e")
    d = 0
    while isinstance(e, dict) and d < 4:
        if e.get("k") == "cond":
            for y in FX.walk(e):
                if y.get("n") == "__assert_fail":
                    return True
            return False
        e = e.get("e") or e.get("a") if isinstance(e.get("e") or e.get("a"), dict) else None
        d += 1
    return False


def root_asserts(R, C):
    def f(fn):
        fk = fn["fk"]
        return not (fk in R.fns and fk in C.fns)
    return f


class Delta(object):
    def __init__(self, R, C, inscope=None):
        self.R, self.C = R, C
        self.cm = CP.Comparer(R, C)
        self.inscope = inscope or (lambda rel: rel.startswith("src/"))
        self.items = []
        self.stats = {"functions_reference": 0, "functions_current": 0, "identical_ir": 0, "compared": 0, "equal_normal_form": 0,
                      "different": 0, "undecided": 0, "gone": 0, "new": 0, "arms_asserts": 0}
        self.callers = None

    # ---------------------------------------------------------------- call graph (reference)
    def callers_of(self, fk):
        if self.callers is None:
            self.callers = {}
            for f in self.R.fns.values():
                seen = set()
                for x in FX.walk([f.get("inits"), f.get("body")]):
                    k = x.get("fk")
                    if k and k not in seen and x.get("k") in ("call", "ctor", "ref", "new", "lam"):
                        seen.add(k)
                        self.callers.setdefault(k, []).append(f["fk"])
        return self.callers.get(fk, [])

    def base(self, F, fk):
        f = F.fns.get(fk)
        if f is None and "@" in fk:
            f = F.fns.get(fk.split("@")[0])
        return f

    def errors(self):
        """units with compile errors that the reference does not have"""
        old = {u[0]: set(FX.errkey(e) for e in u[2]) for u in self.R.units}
        out = {}
        for u in self.C.units:
            e = [x for x in u[2] if FX.errkey(x) not in old.get(u[0], set())]
            if u[1] < 0 or e:
                out[u[0]] = e or ["not analysed"]
        for u in self.R.units:
            if u[0] not in set(c[0] for c in self.C.units):
                out[u[0]] = ["unit vanished"]
        return out

    # ---------------------------------------------------------------- one function
    def one(self, fr, fc, paired=None):
        R, C = self.R, self.C
        self.stats["compared"] += 1
        res = self.cm.compare(fr, fc)
        it = {"q": fr["q"], "fk": fr["fk"], "file": R.rel(fr["file"]), "l": fr["l"], "cl": fc["l"], "n": fr["n"],
              "cls": fr.get("cls", ""), "acc": fr.get("acc", ""), "unit": fr.get("unit", ""), "pn": [p.get("n", "") for p in fr.get("params") or []], "broken": bool(fr.get("broken") or fc.get("broken"))}
        it["attrs"] = self.attrs(fr, fc)
        if res.verdict == "same":
            it["verdict"] = "same"
            it["pieces"] = []
            self.stats["equal_normal_form"] += 1
        elif res.verdict == "unknown":
            it["verdict"] = "unknown"
            it["why"] = clip(res.why)
            it["pieces"] = []
        else:
            ex = CP.explain(res)
            it["pieces"] = [describe(p) for p in ex][:40]
            it["order"] = bool(res.order)
            if res.order:
                nm = set()
                for ln in res.ref + res.cur:
                    nm |= names_in(*ln.pay)
                    nm.add(ln.kind)
                it["verdict"] = "order"
                if any(p[0] for p in ex):
                    it["verdict"] = "different"
                    it["why"] = "elements appended in another order"
                it["names"] = sorted(nm)[:200]
            else:
                c = CP.certain(res)
                it["verdict"] = "different" if c == "all" else "partial" if c == "some" else "unresolved"
                if c != "all":
                    e = self.elementary(fr, fc)
                    if e:
                        it["verdict"] = "different"
                        it["why"] = "elementary edit: " + ", ".join(e)
        # assertions, compared on their own
        it["asserts"] = []
        if it["verdict"] in ("same", "order"):
            try:
                it["asserts"] = self.asserts(fr, fc)
                self.stats["arms_asserts"] += 1
            except (NM.Unsupported, X.Blowup, RecursionError):
                pass
        return it

    def elementary(self, fr, fc):
        """a few operators, literals or operands changed on the same skeleton, nothing it calls did"""
        for F, f in ((self.R, fr), (self.C, fc)):
            for x in FX.walk([f.get("inits"), f.get("body")]):
                k = x.get("fk")
                if k and (k in self.R.fns or k in self.C.fns):
                    if k not in self.R.fns or k not in self.C.fns or (k != f["fk"] and self.cm.changed(k)):
                        return None
        e = EL.elementary(self.R, fr, self.C, fc)
        return [x[0] for x in e] if e else None

    def asserts(self, fr, fc):
        if noasserts(self.R, fr) != noasserts(self.C, fc):
            return []           # the code around them was reworked as well: they may follow from it
        one = root_asserts(self.R, self.C)
        name, pol = self.cm.policies()[0]

        def a(F, fn):
            root = fn["fk"]
            N = NM.Norm(F, pol, 60000, asserts=lambda f: f["fk"] == root or one(f))
            return N.run(fn).lines
        la, lb = a(self.R, fr), a(self.C, fc)
        ma, mb = CP.match_locals(la, lb)
        la, lb = CP.rename(la, ma), CP.rename(lb, mb)
        ra, rb = CP.mdiff(la, lb, CP.lkey)
        if not ra and not rb:
            return []
        ra, rb = CP.tmatch(ra, rb)
        if any(x.kind != "assert" for x in ra + rb) or not ra:
            return []
        res = CP.Result("different", ra, rb, "asserts", False, (la, lb))
        out = []
        for p in CP.explain(res):
            d = describe(p)
            # an assertion that was added is not a difference; one that depends on a loop may be implied by it
            if p[1] is None:
                continue
            out.append(d)
        return out

    def attrs(self, fr, fc):
        out = []
        R, C = self.R, self.C
        if bool(fr.get("virt")) and not fc.get("virt"):
            ov = any(fr["fk"] in (g.get("ov") or []) for g in R.fns.values())
            if ov or fr.get("dtor"):
                out.append(["virtual", "no longer virtual, so a derived class's version is not called through the base"])
        if not fr.get("nothrow") and fc.get("nothrow"):
            th = any(x.get("k") == "throw" or x.get("n") == "err" for x in FX.walk(fc.get("body")))
            if th:
                out.append(["noexcept", "declared noexcept although it throws: the exception ends the program"])
        if bool(fr.get("static")) != bool(fc.get("static")) and False:
            pass
        for i, (p, q) in enumerate(zip(fr["params"], fc["params"])):
            if "def" in p and "def" in q:
                a, b = self.const(R, p["def"]), self.const(C, q["def"])
                if a is not None and b is not None and a != b:
                    out.append(["default", "default value of argument %d (%s) changed from %s to %s" % (i, p["n"], a, b)])
        ta, tb = R.ty(fr["ret"]), C.ty(fc["ret"])
        if narrower(ta, tb):
            out.append(["narrow", "return type narrowed from %s to %s" % (ta, tb)])
        for p, q in zip(fr["params"], fc["params"]):
            a, b = R.ty(p), C.ty(q)
            if narrower(a, b):
                out.append(["narrow", "argument %s narrowed from %s to %s" % (p["n"], a, b)])
        return out

    def const(self, F, e):
        try:
            N = NM.Norm(F, lambda f: False, 2000)
            fn = {"fk": "$", "q": "$", "n": "$", "params": [], "body": {"k": "seq", "b": [{"k": "ret", "e": e, "l": 0}], "l": 0, "el": 0},
                  "file": "/repo/src/x.h", "l": 0, "el": 0, "ret": e.get("t", -1)}
            ls = N.run(fn).lines
            return " ; ".join(NM.show_line(l) for l in ls)
        except Exception:
            return None

    # ---------------------------------------------------------------- all
    def run(self):
        R, C, st = self.R, self.C, self.stats
        todo, gone, new = [], [], []
        for fk, f in R.fns.items():
            rel = R.rel(f["file"])
            if not self.inscope(rel):
                continue
            st["functions_reference"] += 1
            g = self.base(C, fk)
            if g is None:
                gone.append(f)
                continue
            if fk in C.fns and not self.cm.changed(fk) and f.get("nothrow") == g.get("nothrow"):
                st["identical_ir"] += 1
                continue
            if fk not in C.fns and CP.irhash(R, f) == CP.irhash(C, g):
                st["identical_ir"] += 1
                continue
            if f.get("broken") or g.get("broken"):
                self.items.append({"q": f["q"], "fk": fk, "file": rel, "l": f["l"], "cl": g["l"], "n": f["n"], "cls": f.get("cls", ""),
                                   "acc": f.get("acc", ""), "verdict": "unknown", "why": "does not compile", "pieces": [], "attrs": [], "asserts": [], "broken": True})
                continue
            todo.append((f, g))
        for fk, f in C.fns.items():
            if self.inscope(C.rel(f["file"])):
                st["functions_current"] += 1
                if self.base(R, fk) is None:
                    new.append(f)
                elif fk not in R.fns and "@" in fk and not f.get("broken"):
                    todo.append((self.base(R, fk), f))
        # same name and arity, other parameter types
        pair = {}
        for f in gone:
            pair.setdefault((f["q"], len(f["params"])), [[], []])[0].append(f)
        for f in new:
            pair.setdefault((f["q"], len(f["params"])), [[], []])[1].append(f)
        for k, (a, b) in pair.items():
            if len(a) == 1 and len(b) == 1 and not a[0].get("broken") and not b[0].get("broken"):
                todo.append((a[0], b[0]))
                gone.remove(a[0])
                new.remove(b[0])
        st["gone"], st["new"] = len(gone), len(new)
        for fr, fc in todo:
            it = self.one(fr, fc)
            if it["verdict"] in ("different",) and fr.get("acc") in ("private", "protected") and not fr.get("virt"):
                why = self.absorbed(fr["fk"])
                if why:
                    it["verdict"] = "same"
                    it["why"] = why
                    it["pieces"] = []
            if it["verdict"] == "same" and not it["attrs"] and not it["asserts"]:
                continue
            if it["verdict"] == "different":
                st["different"] += 1
            elif it["verdict"] not in ("same",):
                st["undecided"] += 1
            self.items.append(it)
        self.gone, self.new = gone, new
        self.globals()
        self.fields()
        return self

    def absorbed(self, fk, depth=0):
        """a private helper may change its contract if every caller still behaves the same"""
        cs = [c for c in self.callers_of(fk) if c != fk]
        if not cs or depth > 2:
            return None
        for c in cs:
            f, g = self.R.fns.get(c), self.C.fns.get(c)
            if f is None or g is None:
                return None
            if self.cm.compare_through(f, g, fk).verdict != "same":
                return None
        return "all %d callers behave the same with the helper expanded" % len(cs)

    def globals(self):
        R, C = self.R, self.C
        cur, old = {}, {}
        for k in sorted(C.gvars):
            cur.setdefault((k[0], C.rel(k[1])), []).append(C.gvars[k])
        for k in sorted(R.gvars):
            if self.inscope(R.rel(k[1])):
                old.setdefault((k[0], R.rel(k[1])), []).append(R.gvars[k])
        self.nglob = 0
        pairs = []
        for k, l in old.items():
            self.nglob += len(l)
            m = cur.get(k, [])
            if len(m) == len(l):
                pairs += list(zip(l, m))
        for g, h in pairs:
            if "init" in g and "init" in h:
                a, b = self.const(R, g["init"]), self.const(C, h["init"])
                if a is not None and b is not None and a != b:
                    self.items.append(self.gitem(g, h, "initial value changed from %s to %s" % (clip(a, 150), clip(b, 150)), "value"))
            if narrower(R.ty(g), C.ty(h)):
                self.items.append(self.gitem(g, h, "type narrowed from %s to %s" % (R.ty(g), C.ty(h)), "narrow"))
            if not g.get("tls") and h.get("tls"):
                self.items.append(self.gitem(g, h, "is now one object per thread", "tls"))

    def gitem(self, g, h, text, kind):
        return {"q": g["q"], "fk": "gvar:" + g["q"], "file": self.R.rel(g["file"]), "l": g["l"], "cl": h["l"], "n": g["n"], "cls": g["q"].rsplit("::", 1)[0],
                "acc": "", "verdict": "same", "pieces": [], "attrs": [[kind, text]], "asserts": [], "broken": False, "gvar": True}

    def fields(self):
        R, C = self.R, self.C
        self.nrec = 0
        for q, r in R.recs.items():
            c = C.recs.get(q)
            if not self.inscope(R.rel(r["file"])):
                continue
            self.nrec += 1
            if c is None:
                continue
            cf = {f["n"]: f for f in c["fields"]}
            for f in r["fields"]:
                g = cf.get(f["n"])
                if g is not None and narrower(R.ty(f), C.ty(g)):
                    self.items.append({"q": q + "::" + f["n"], "fk": "field:" + q + "::" + f["n"], "file": R.rel(r["file"]), "l": f["l"], "cl": g["l"], "n": f["n"],
                                       "cls": q, "acc": "", "verdict": "same", "pieces": [], "asserts": [], "broken": False,
                                       "attrs": [["narrow", "member narrowed from %s to %s" % (R.ty(f), C.ty(g))]]})
            if r.get("dtorvirt") and not c.get("dtorvirt"):
                self.items.append({"q": q, "fk": "rec:" + q, "file": R.rel(r["file"]), "l": r["l"], "cl": c["l"], "n": r["n"], "cls": q, "acc": "",
                                   "verdict": "same", "pieces": [], "asserts": [], "broken": False,
                                   "attrs": [["virtual", "destructor no longer virtual: deleting through a base pointer skips the derived destructor"]]})


RANK = {"bool": (0, 1), "char": (1, 7), "signed char": (1, 7), "unsigned char": (0, 8), "short": (1, 15), "unsigned short": (0, 16),
        "int": (1, 31), "unsigned int": (0, 32), "long": (1, 63), "unsigned long": (0, 64), "long long": (1, 63), "unsigned long long": (0, 64)}
FR = {"float": 24, "double": 53, "long double": 64}


def narrower(a, b):
    """values of type a that type b cannot hold"""
    a, b = NM.strip(a), NM.strip(b)
    for w in ("std::vector<", "std::complex<"):
        while a.startswith(w) and b.startswith(w):
            a, b = a[len(w):].split(",")[0].rstrip("> "), b[len(w):].split(",")[0].rstrip("> ")
    if a == b:
        return False
    if a in FR and b in FR:
        return FR[b] < FR[a]
    if a in FR and b in RANK:
        return True
    if a in RANK and b in RANK:
        (sa, na), (sb, nb) = RANK[a], RANK[b]
        return nb < na and nb <= 32
    return False


def compute(R, C):
    """cached as JSON, keyed by both trees and the analysis itself"""
    h = hashlib.sha256()
    h.update(FX.tree_hash(C.repo).encode())
    for f in (RF.PATH, os.path.join(FX.ROOT, "vlib", "delta.py"), os.path.join(FX.ROOT, "vlib", "norm.py"),
              os.path.join(FX.ROOT, "vlib", "compare.py"), os.path.join(FX.ROOT, "vlib", "elem.py"), os.path.join(FX.ROOT, "vlib", "facts.py"), os.path.join(FX.ROOT, "vlib", "terms.py")):
        h.update(open(f, "rb").read())
    p = os.path.join(FX.CACHE, "delta-" + h.hexdigest()[:24] + ".json")
    if os.path.exists(p):
        try:
            return json.load(open(p))
        except Exception:
            pass
    D = Delta(R, C).run()
    d = {"items": D.items, "stats": D.stats, "errors": D.errors(),
         "gone": [[f["q"], R.rel(f["file"]), f["l"], f.get("unit", "")] for f in D.gone],
         "new": [[f["q"], C.rel(f["file"]), f["l"]] for f in D.new], "nglob": D.nglob, "nrec": D.nrec}
    try:
        os.makedirs(FX.CACHE, exist_ok=True)
        tmp = p + ".%d" % os.getpid()
        json.dump(d, open(tmp, "w"))
        os.replace(tmp, p)
    except OSError:
        pass
    return d
