"""P17: constructors initialise every field; locals are assigned before they are read."""
import re
from vlib import facts as FX
from vlib.flow import Flow, strip
from vlib.runner import Finding
from rules.common import src_fns, base, root, short

ABOUT = ("Absolute: every constructor of every class of the library gives each field of scalar or pointer type a value on every path (initialiser list, body, or a member function it "
         "calls), except the listed ones; every local of scalar or pointer type is assigned before it is read, by forward dataflow over the body. "
         "Relative: initial values are those of the confirmed reference.")
SCALAR = re.compile(r"^(const )?(unsigned |signed )?(bool|char|short|int|long|float|double|size_t|long long|unsigned|long double|unsigned long|long int)( int| long)*$")


def scalar(t):
    t = t.strip()
    return bool(SCALAR.match(t)) or t.endswith("*") or t.endswith("* const")


class Assigned(Flow):
    """definitely unassigned (U) and possibly unassigned (M) locals; fields likewise for constructors"""

    def join(self, a, b):
        r = {}
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            r[k] = x if x == y else "M" if "U" in (x, y) or "M" in (x, y) else None
            if r[k] is None:
                del r[k]
        return r

    def put(self, st, r):
        if r in st:
            st = dict(st)
            del st[r]
        return st

    def decl(self, v, st):
        if self.ctorof and isself(v.get("init")):
            for r in [r for r in st if r[0] == "m"]:
                st = self.put(st, r)
        if v.get("init") is None and not v.get("static") and scalar(self.F.ty(v)):
            st = dict(st)
            st[("v", v["id"])] = "U"
            self.names[("v", v["id"])] = v.get("n")
            self.seen += 1
        elif ("v", v["id"]) in st:
            st = self.put(st, ("v", v["id"]))
        return st

    def key(self, e):
        e = strip(e)
        if not isinstance(e, dict):
            return None
        if e.get("k") == "ref" and e.get("dk") in ("local", None):
            return ("v", e.get("id"))
        if e.get("k") == "mem":
            b = strip(e.get("b"))
            if isinstance(b, dict) and b.get("k") == "this":
                return ("m", e.get("n"))
        return None

    def pre(self, x, st):
        k = x.get("k")
        if k == "asg" and x.get("op") == "=":
            r = self.key(x["a"])
            if r is not None and r in st:
                st = self.expr(x["b"], st)
                return None if st is None else self.put(st, r)
        if k == "un" and x.get("op") == "&":
            r = self.key(x["a"])
            if r is not None and r in st:
                return self.put(st, r)
        if k == "sizeof":
            return st
        if k == "cast" and self.F.ty(x) == "void":
            return st
        if k in ("call", "ctor"):
            if self.ctorof and any(isself(a) and (x.get("pm") or [0] * 99)[i:i + 1] == [2] for i, a in enumerate(x.get("a", []))) or k == "call" and isself(x.get("o")) and not x.get("const"):
                for r in [r for r in st if r[0] == "m"]:
                    st = self.put(st, r)
            st = self.expr(x.get("o"), st) if x.get("o") else st
            pm = x.get("pm") or []
            for i, a in enumerate(x.get("a", [])):
                r = self.key(a)
                m = pm[i] if i < len(pm) else 0
                if r is not None and r in st and (m in (1, 2) or x.get("n") in ("operator>>",)):
                    if m != 1:
                        st = self.put(st, r)
                    continue
                st = self.expr(a, st)
                if st is None:
                    return None
            if k == "call" and self.ctorof and short(x.get("cls", "")) == self.ctorof:
                o = strip(x.get("o"))
                if isinstance(o, dict) and o.get("k") == "this":
                    ms = assigns(self.F, x.get("fk"), self.ctorof)
                    for m in ([r[1] for r in st if r[0] == "m"] if "*" in ms else ms):
                        st = self.put(st, ("m", m))
            st = self.node(x, st)
            return st
        return None

    def node(self, x, st):
        if x.get("k") == "lambda":
            for y in FX.walk(x.get("body")):
                if y.get("k") == "ref":
                    st = self.put(st, ("v", y.get("id")))
            return st
        r = None
        if x.get("k") == "ref":
            r = ("v", x.get("id"))
        elif x.get("k") == "mem":
            r = self.key(x)
        if r is not None and r in st and not (self.F.ty(x).endswith("]")):
            if st[r] == "U":
                self.bad.append((r, x.get("l")))
            elif r[0] == "v":
                self.may.append((r, x.get("l")))
            st = self.put(st, r)
        return st

    def init(self, i, st):
        st = self.expr(i.get("e"), st)
        if i.get("m") and st is not None and (i.get("w") or i.get("e") is not None):
            st = self.put(st, ("m", i["m"]))
        return st


def isself(a):
    a = strip(a)
    return isinstance(a, dict) and a.get("k") == "un" and a.get("op") == "*" and isinstance(strip(a.get("a")), dict) and strip(a["a"]).get("k") == "this"


def assigns(F, fk, cls, depth=0):
    """fields assigned, or handed out for writing, by a member function (any path)"""
    memo = F.__dict__.setdefault("_assigns", {})
    if fk in memo:
        return memo[fk]
    memo[fk] = set()
    f = F.fns.get(fk)
    out = set()
    if f is not None:
        for x in FX.walk(f["body"]):
            if x.get("k") in ("asg",):
                r = root(x["a"])
                if r and r[0] == "m":
                    out.add(r[1])
            if x.get("k") == "un" and x.get("op") == "&":
                r = root(x["a"])
                if r and r[0] == "m":
                    out.add(r[1])
            if x.get("k") == "call":
                for i, a in enumerate(x.get("a", [])):
                    if (x.get("pm") or [0] * 99)[i:i + 1] in ([2], [4]):
                        r = root(strip(a))
                        if r and r[0] == "m":
                            out.add(r[1])
                if isself(x.get("o")) and not x.get("const") or any(isself(a) and (x.get("pm") or [0] * 99)[i:i + 1] == [2] for i, a in enumerate(x.get("a", []))):
                    out.add("*")
                if x.get("fk") in F.fns and short(x.get("cls", "")) == cls:
                    out |= assigns(F, x["fk"], cls, depth + 1)
    memo[fk] = out
    return out


def locs(ctx):
    """no local of scalar or pointer type is read before it is assigned on any path that reaches the read"""
    F, out = ctx.C, []
    for rel, f in src_fns(F):
        fl = Assigned(F, f)
        fl.bad, fl.may, fl.names, fl.seen, fl.ctorof = [], [], {}, 0, None
        fl.run({})
        ctx.count("uninitialised_declarations", fl.seen)
        for r, l in fl.bad:
            out.append(Finding("read-before-assigned", "%s in %s" % (fl.names.get(r), short(f["q"])), rel, l, "%s is read before it is given a value" % fl.names.get(r)))
        for r, l in fl.may:
            out.append(Finding("read-before-assigned", "%s in %s" % (fl.names.get(r), short(f["q"])), rel, l, "%s is read here, and some path to here does not give it a value" % fl.names.get(r)))
    ctx.floor("uninitialised_declarations", 30)
    return out


def fields(ctx):
    """every constructor gives every scalar or pointer field a value"""
    F, out = ctx.C, []
    for rel, f in src_fns(F):
        q = f.get("cls", "")
        r = F.recs.get(q)
        if r is None or short(f["n"]) != short(q).rsplit("::", 1)[-1]:
            continue
        if any(i.get("deleg") for i in f.get("inits") or []) or f.get("defaulted"):
            continue
        if f["n"].startswith("operator"):
            continue
        ctx.count("constructors")
        fl = Assigned(F, f)
        fl.bad, fl.may, fl.names, fl.seen, fl.ctorof = [], [], {}, 0, short(q)
        st = {}
        for x in r.get("fields", []):
            if x.get("n") and scalar(F.ty(x)) and not x.get("static"):
                st[("m", x["n"])] = "U"
                fl.names[("m", x["n"])] = x["n"]
                ctx.count("fields_checked")
        if not st:
            continue
        ex = fl.run(st)
        left = {}
        for kind, n, s in ex:
            if kind in ("end", "ret"):
                for k, v in s.items():
                    if k[0] == "m":
                        left[k[1]] = "U" if left.get(k[1], "U") == "U" and v == "U" else "M"
        for m, v in sorted(left.items()):
            inst = "%s in %s(%s)" % (m, short(f["q"]), ", ".join(short(base(F.ty(p))) for p in f["params"]))
            if v == "U":
                out.append(Finding("field-uninitialised", inst, rel, f["l"], "no path of this constructor gives %s a value" % m))
            else:
                out.append(Finding("field-uninitialised", inst, rel, f["l"], "some path of this constructor gives %s no value" % m))
        for rr, l in fl.bad:
            if rr[0] == "m":
                out.append(Finding("field-read-early", "%s in %s" % (rr[1], short(f["q"])), rel, l, "%s is read before the constructor gives it a value" % rr[1]))
    ctx.floor("constructors", 150)
    ctx.floor("fields_checked", 200)
    return out


RULES = [("locals", locs), ("fields", fields)]
