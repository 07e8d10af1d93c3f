"""P22: what a search did not find is not read."""
from vlib import facts as FX
from vlib.flow import Flow, strip
from vlib.runner import Finding
from rules.common import src_fns, short

ABOUT = ("Absolute: the iterator a search (find, find_if, lower_bound, upper_bound, search) returns is dereferenced or erased only on paths on which it "
         "was compared with the end of the range, by forward dataflow over the body. Relative: the reading of every form of input is that of the confirmed reference.")
SEARCH = {"find", "find_if", "find_if_not", "lower_bound", "upper_bound", "search", "adjacent_find", "find_first_of", "find_end"}


def search(F, e):
    e = strip(e)
    return isinstance(e, dict) and e.get("k") == "call" and e.get("n") in SEARCH and "iterator" in (F.ty(e) or "")


def ref(e):
    e = strip(e)
    while isinstance(e, dict) and e.get("k") in ("ctor", "construct") and len(e.get("a") or []) == 1:
        e = strip(e["a"][0])            # a copy of the iterator
    return e.get("id") if isinstance(e, dict) and e.get("k") == "ref" else None


class Found(Flow):
    """local iterators that hold an unchecked search result (U)"""

    def join(self, a, b):
        r = dict(a)
        r.update(b)
        return r

    def decl(self, v, st):
        st = dict(st)
        st.pop(v["id"], None)
        if search(self.F, v.get("init")):
            self.seen += 1
            self.names[v["id"]] = v.get("n")
            st[v["id"]] = "U"
        return st

    def pre(self, x, st):
        k = x.get("k")
        if k == "call" and x.get("op") == "=" or k == "asg" and x.get("op") == "=":
            a, b = (x.get("o"), (x.get("a") or [None])[0]) if k == "call" else (x.get("a"), x.get("b"))
            i = ref(a)
            if i is not None:
                st = self.expr(b, st)
                if st is None:
                    return None
                st = dict(st)
                st.pop(i, None)
                if search(self.F, b):
                    self.seen += 1
                    self.names[i] = strip(a).get("n")
                    st[i] = "U"
                return st
        if self.compares(x):
            # compared outside a condition (kept in a flag, passed on): taken as checked
            for e in self.sides(x):
                i = ref(e)
                if i in st:
                    st = dict(st)
                    del st[i]
                else:
                    st = self.expr(e, st)
            return st
        t = self.target(x)
        if t is not None:
            if search(self.F, t):
                self.bad.append((None, x.get("l")))
            elif ref(t) in st:
                self.bad.append((ref(t), x.get("l")))
        return None

    def sides(self, x):
        if x.get("k") == "bin":
            return [x.get("a"), x.get("b")]
        return ([x["o"]] if x.get("o") is not None else []) + list(x.get("a") or [])

    def compares(self, x):
        return (x.get("k") == "call" and x.get("op") in ("==", "!=", "<", ">", "-") or x.get("k") == "bin" and x.get("op") in ("==", "!=", "<", ">", "-")) \
            and len(self.sides(x)) == 2

    def target(self, x):
        """the iterator expression x reads through"""
        if x.get("k") == "call":
            if x.get("op") in ("*", "->") and x.get("o") is not None and not x.get("a"):
                return x["o"]
            if x.get("n") == "erase" and len(x.get("a") or []) == 1:
                a = strip(x["a"][0])
                if isinstance(a, dict) and "iterator" in (self.F.ty(a) or ""):
                    while isinstance(a, dict) and not search(self.F, a) and ref(a) is None and len(a.get("a") or []) == 1:
                        a = strip(a["a"][0])
                    return a
        if x.get("k") == "un" and x.get("op") == "*":
            return x.get("a")
        return None

    def branch(self, c, st, taken):
        c = strip(c)
        neg = False
        while isinstance(c, dict) and c.get("k") == "un" and c.get("op") == "!":
            c, neg = strip(c["a"]), not neg
        if isinstance(c, dict) and self.compares(c):
            op = c.get("op")
            for e in self.sides(c):
                i = ref(e)
                if i is None or i not in self.names:
                    continue
                st = dict(st)
                atend = (op == "==") == (taken != neg)
                if op in ("==", "!=") and atend and any(isinstance(strip(s), dict) and strip(s).get("n") in ("end", "cend", "rend") for s in self.sides(c)):
                    st[i] = "U"
                else:
                    st.pop(i, None)
        return st


def searchend(ctx):
    """the result of a search is dereferenced or erased only where it was compared with the end"""
    F, out = ctx.C, []
    for rel, f in src_fns(F):
        if not any(search(F, x) for x in FX.walk(f["body"]) if x.get("k") == "call"):
            continue
        ctx.count("searching_functions")
        fl = Found(F, f)
        fl.names, fl.seen, fl.bad = {}, 0, []
        fl.run({})
        for i, l in fl.bad:
            out.append(Finding("search-end", "%s in %s" % (fl.names.get(i, "result"), short(f["q"])), rel, l, "a search result is used without a comparison with the end of the range"))
    ctx.floor("searching_functions", 5)
    return out


RULES = [("search-end", searchend)]
