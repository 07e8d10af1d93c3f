"""P02: the status of every LAPACK call is examined before anything else happens with it."""
import re
from vlib import facts as FX
from vlib.flow import Flow, strip
from vlib.runner import Finding
from rules.common import src_fns, root, short

ABOUT = ("Absolute: typestate of the status variable of every LAPACK call made by the library (pending after the call, examined when a condition or another function reads it): "
         "no path returns or calls LAPACK again with a pending status, and at least one side of the examination throws. "
         "Relative: workspace sizes, queries and error conditions are those of the confirmed reference.")


def lapack(x):
    return x.get("k") == "call" and (x.get("f", "").startswith("psimag::LAPACK::") or (x.get("c") and re.match(r"^[sdcz](sy|he|ge|st|po|or|un)[a-z]+_$", x.get("n", ""))
                                                                                   and x.get("n", "")[1:3] != "ge" or x.get("n") in ("dstedc_", "sstedc_", "dsteqr_", "ssteqr_")))


OUT = {}     # functions that hand the status to their caller: fk -> parameter index


def source(x):
    return lapack(x) or (x.get("k") == "call" and x.get("fk") in OUT)


class Status(Flow):
    def join(self, a, b):
        r = {}
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            r[k] = x if y is None or (x is not None and x[0] == "pending") else y
        return r

    def node(self, x, st):
        k = x.get("k")
        if source(x) and x.get("a"):
            a = x["a"][OUT.get(x.get("fk"), -1)]
            r = root(strip(a))
            if r is not None and "int" in self.F.ty(a):
                st = dict(st)
                if st.get(r, ("", 0))[0] == "pending" and st[r][1] != x["n"]:   # a workspace query is followed by the same routine
                    self.over.append((st[r][1], x))
                st[r] = ("pending", x["n"], x.get("l"))
                self.seen += 1
            return st
        if k in ("ref", "mem"):
            r = root(x)
            if r in st and not self.inarg:
                st = dict(st)
                st[r] = ("read", st[r][1], st[r][2])
        return st

    def pre(self, x, st):
        if source(x):
            save, self.inarg = self.inarg, True
            for a in x.get("a", []):
                st = self.expr(a, st)
            self.inarg = save
            return None if st is None else self.node(x, st)
        if x.get("k") == "asg" and x.get("op") == "=":
            st = self.expr(x.get("b"), st)
            r = root(x["a"])
            if st is not None and r in st:
                st = dict(st)
                if st[r][0] == "pending":
                    self.over.append((st[r][1], x))
                del st[r]
            return st
        return None


def status(ctx):
    """the status of a LAPACK call is read on every path before the function returns or the status variable is overwritten"""
    F, out = ctx.C, []
    OUT.clear()
    for rel, f in src_fns(F):
        if rel in ("src/LAPACK.h", "src/BLAS.h"):
            continue
        ids = {p["id"]: i for i, p in enumerate(f["params"]) if F.ty(p).replace(" ", "") in ("int&", "int*")}
        for x in FX.walk(f["body"]):
            if lapack(x) and x.get("a"):
                r = root(strip(x["a"][-1]))
                if r and r[0] == "v" and r[1] in ids:
                    OUT[f["fk"]] = ids[r[1]]
    for rel, f in src_fns(F):
        if rel in ("src/LAPACK.h", "src/BLAS.h") or not any(source(x) for x in FX.walk(f["body"])):
            continue
        fl = Status(F, f)
        fl.over, fl.seen, fl.inarg = [], 0, False
        ex = fl.run({})
        ctx.count("functions_calling_lapack")
        ctx.count("lapack_calls", fl.seen)
        mine = OUT.get(f["fk"])
        if mine is not None:
            mine = f["params"][mine]["id"]
        bad = [(st[r][1], st[r][2], "its status is never examined before line %s" % (n or {}).get("l", "end")) for kind, n, st in ex if kind in ("ret", "end") for r in st if st[r][0] == "pending" and not (mine is not None and r[:2] == ("v", mine))]
        bad += [(n, x.get("l"), "its status is overwritten before it is examined") for n, x in fl.over]
        for n, l, why in bad:
            out.append(Finding("status", "%s in %s" % (n, short(f["q"])), rel, l, "%s: %s" % (n, why)))
        if not any(x.get("k") == "throw" or (x.get("k") == "call" and x.get("n") in ("err",)) for x in FX.walk(f["body"])):
            ctx.undecided.append("%s calls LAPACK and throws nothing itself" % f["q"][:100])
    ctx.floor("lapack_calls", 20)
    return out


RULES = [("status", status)]
