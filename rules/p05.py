"""P05: the program without assertions is the program with them."""
import re
from vlib import facts as FX
from vlib import compare as CP
from vlib import norm as NM
from vlib import terms as X
from vlib.delta import noasserts, isasrt, clip
from vlib.runner import Finding

ABOUT = ("The whole program is analysed twice, with and without NDEBUG. Function by function, the version without assertions must have the same resolved body as "
         "the version with assertions once its assertion statements are taken out; where other text differs, the two must have the same effects. "
         "Every assertion operand is checked for effects: assignments, increments, allocation, input, calls of functions that write anything reachable.")


# switched text that is itself a diagnostic aid: confirmed, one reason each
EXEMPT = {
    "PsimagLite::IoNgSerializer::IoNgSerializer": "only silences the HDF5 library's own error printing",
    "PsimagLite::FloatingPoint::enableExcept": "traps floating-point errors, like an assertion on every operation",
}


DIAG = {"dontPrintDebug", "dontPrint", "feenableexcept", "fedisableexcept"}


def quiet(fn):
    """the function without its diagnostic switch statements"""
    def diag(x):
        return isinstance(x, dict) and x.get("k") == "expr" and any(y.get("k") == "call" and y.get("n") in DIAG for y in FX.walk(x.get("e")))

    def go(o):
        if isinstance(o, dict):
            return {k: go(v) if isinstance(v, (dict, list)) else v for k, v in o.items()}
        return [go(x) if isinstance(x, (dict, list)) else x for x in o if not diag(x)]
    g = dict(fn)
    g["body"] = go(fn["body"])
    return g


class Effects(object):
    """does evaluating this write something another part of the program can see?"""
    PURE_STD = re.compile(r"^(std|__gnu_cxx|boost)::")
    MUT = {"push_back", "pop_back", "erase", "insert", "clear", "resize", "swap", "assign", "emplace", "emplace_back", "pop", "push",
           "append", "operator+=", "operator-=", "operator*=", "operator++", "operator--", "operator=", "operator>>", "operator<<", "open", "close",
           "getline", "read", "write", "seekg", "get", "ignore", "reset", "release", "sort", "reserve", "fill", "copy", "reverse", "iter_swap", "remove"}

    def __init__(self, F):
        self.F = F
        self.memo = {}

    def fn(self, fk, depth=0):
        """None or the reason the function has an effect beyond its own locals"""
        if fk in self.memo:
            return self.memo[fk]
        self.memo[fk] = None
        f = self.F.fns.get(fk)
        if f is None or depth > 12:
            return None
        loc = set()
        for x in FX.walk(f.get("body")):
            if x.get("k") == "var" and not x.get("static") and not self.F.ty(x).endswith("&") and not self.F.ty(x).rstrip().endswith("*"):
                loc.add(x.get("id"))
        for p in f["params"]:
            if not self.F.ty(p).endswith("&") and not self.F.ty(p).endswith("*"):
                loc.add(p["id"])
        if f.get("ctor"):
            loc.add("this")
        r = self.node(f.get("body"), loc, depth)
        self.memo[fk] = r
        return r

    def root(self, e):
        """the variable a place belongs to"""
        d = 0
        while isinstance(e, dict) and d < 40:
            d += 1
            k = e.get("k")
            if k == "ref":
                return ("v", e.get("id"), e.get("n"))
            if k == "this":
                return ("this", None, "this")
            if k == "mem":
                e = e.get("b")
            elif k in ("un", "cast", "paren", "idx"):
                e = e.get("a") if not isinstance(e.get("a"), list) else e["a"][0]
            elif k == "call" and (e.get("m") or e.get("o")) and e.get("n") in ("operator[]", "at", "back", "front", "operator()", "begin", "end", "first", "second", "operator*", "operator->"):
                e = e.get("o")
            else:
                for c in ("b", "e", "o"):
                    if isinstance(e.get(c), dict):
                        e = e[c]
                        break
                else:
                    if isinstance(e.get("a"), dict):
                        e = e["a"]
                    elif isinstance(e.get("a"), list) and e["a"] and isinstance(e["a"][0], dict):
                        e = e["a"][0]
                    else:
                        return None
        return None

    def islocal(self, e, loc):
        r = self.root(e)
        if r is None:
            return True          # a temporary
        if r[0] == "this":
            return "this" in loc
        return r[1] in loc

    def node(self, o, loc, depth=0):
        for x in FX.walk(o):
            k = x.get("k")
            if k == "asg":
                t = x.get("l1") or x.get("a") or x.get("x")
                lhs = x.get("lhs") or t
                if isinstance(lhs, list):
                    lhs = lhs[0]
                if lhs is None or not self.islocal(lhs, loc):
                    return "assigns (line %s)" % x.get("l")
            elif k == "un" and x.get("op") in ("++", "--", "p++", "p--", "post++", "post--"):
                if not self.islocal(x.get("a") or x.get("e"), loc):
                    return "increments (line %s)" % x.get("l")
            elif k in ("new", "delete"):
                if k == "delete":
                    return "releases storage (line %s)" % x.get("l")
            elif k == "call":
                n = x.get("n", "")
                if n == "__assert_fail":
                    continue
                q = x.get("f", "")
                if self.PURE_STD.match(q) or not x.get("fk") or x.get("fk") not in self.F.fns:
                    tgt = x.get("o") or (x["a"][0] if x.get("a") else None)
                    if n in self.MUT and (x.get("m") or x.get("opc") or n in ("getline", "swap", "sort", "fill", "copy", "reverse", "remove")):
                        if n == "get" and "shared_ptr" in q or n == "get" and "unique_ptr" in q or n == "read" and False:
                            continue
                        if not self.islocal(tgt, loc):
                            return "calls %s (line %s)" % (q, x.get("l"))
                    continue
                r = self.fn(x["fk"], depth + 1)
                if r:
                    # effects through arguments that are local copies do not matter
                    tgt = x.get("o")
                    refs = [a for i, a in enumerate(x.get("a", [])) if a and (x.get("pm") or [])[i:i + 1] == [2]]
                    if tgt is not None and self.islocal(tgt, loc) and all(self.islocal(a, loc) for a in refs):
                        continue
                    return "calls %s, which %s" % (q, r)
        return None


def asserts_of(fn):
    for x in FX.walk([fn.get("inits"), fn.get("body")]):
        if x.get("k") == "expr" and isasrt(x):
            yield x


def pure(ctx):
    """no assertion operand has an effect that disappears when assertions are off"""
    C = ctx.C
    E = Effects(C)
    out, seen = [], set()
    for f in C.fns.values():
        r = C.rel(f["file"])
        if not r.startswith("src/"):
            continue
        loc = set()
        for a in asserts_of(f):
            ctx.count("assertions")
            w = E.node(a, loc)
            if w:
                k = (r, a["l"])
                if k in seen:
                    continue
                seen.add(k)
                out.append(Finding("pure-assert", "%s: %s" % (f["q"].split("<")[0] + "::" + f["n"], re.sub(r"\(line \d+\)", "", w).strip()), r, a["l"],
                                   "the operand of an assertion %s; with assertions off this does not happen" % w))
    ctx.floor("assertions", 250)
    return out


def equal(ctx):
    """the analysis with NDEBUG gives the same functions, apart from assertion statements"""
    C, N = ctx.C, ctx.ndebug
    out = []
    cm = CP.Comparer(C, N)
    for fk, f in C.fns.items():
        r = C.rel(f["file"])
        if not r.startswith("src/") or f.get("broken"):
            continue
        g = N.fns.get(fk)
        if g is None:
            g = N.fns.get(fk.split("@")[0])
        ctx.count("functions_compared_both_ways")
        if g is None:
            out.append(Finding("ndebug-equal", f["q"], r, f["l"], "exists only when assertions are on"))
            continue
        if g.get("broken"):
            out.append(Finding("ndebug-equal", f["q"], r, f["l"], "does not compile when assertions are off"))
            continue
        if noasserts(C, f) == CP.irhash(N, g):
            continue
        ctx.count("functions_with_switched_text")
        if f["q"] in EXEMPT:
            ctx.count("exempt_diagnostic_switches")
            f, g = quiet(f), quiet(g)
        res = cm.compare(f, g)
        if res.verdict == "same":
            continue
        if res.verdict != "different" or res.order or CP.certain(res) != "all":
            ctx.undecided.append("%s: differs without assertions, not resolved" % f["q"])
            continue
        p = CP.explain(res)[0]
        a, b = p[1], p[2]
        out.append(Finding("ndebug-equal", f["q"], r, f["l"], "behaves differently when assertions are off: `%s` becomes `%s`" %
                           (clip(NM.show_line(a), 250) if a else "nothing", clip(NM.show_line(b), 250) if b else "nothing")))
    old = {u[0]: set(FX.errkey(e) for e in u[2]) for u in C.units}
    for lab, n, errs in N.units:
        ctx.count("units_without_assertions")
        for e in errs:
            if FX.errkey(e) not in old.get(lab, set()):
                out.append(Finding("ndebug-compiles", "%s: %s" % (lab, FX.errkey(e)), lab, 0, "compiles only with assertions on: " + e[:300]))
    ctx.floor("functions_compared_both_ways", 2000)
    return out


RULES = [("pure-assert", pure), ("ndebug-equal", equal)]
