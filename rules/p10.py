"""P10: one owner per resource, one release per acquisition."""
import re
from vlib import facts as FX
from vlib.flow import Flow, strip
from vlib.runner import Finding
from rules.common import src_fns, base, root, short

ABOUT = ("Absolute: a class whose destructor releases one of its members is not copyable member by member (copy constructor and assignment are deleted, private, or written by hand); "
         "a class with a virtual function that is deleted through its base has a virtual destructor; typestate of every local raw pointer that receives `new`: "
         "on every path it is deleted exactly once or handed over, and never used or deleted after it was deleted; array and scalar forms of new and delete agree. "
         "Relative: acquisitions, releases and their conditions are those of the confirmed reference.")

RELCALL = re.compile(r"^(fclose|free|drop|closedir|gsl_\w+_free|H5\w*close|pthread_(attr|mutex)_destroy|dlclose)$")


def released(F, cls, fn, depth=0):
    """members of cls that fn, or a member function it calls, releases"""
    out = set()
    if fn is None or depth > 3:
        return out
    alias = {}
    for x in FX.walk(fn.get("body")):
        k = x.get("k")
        if k == "var" and x.get("init") is not None:
            r = root(strip(x["init"]))
            if r and r[0] == "m":
                alias[x["id"]] = r[1]
        e = None
        if k == "del":
            e = x.get("e")
        elif k == "call" and RELCALL.match(x.get("n", "")) and x.get("a"):
            e = x["a"][0]
        if e is not None:
            r = root(strip(e))
            if r and r[0] == "m":
                out.add(r[1])
            elif r and r[0] == "v" and r[1] in alias:
                out.add(alias[r[1]])
        if k == "call" and x.get("fk") in F.fns and short(x.get("cls", "")) == cls:
            o = strip(x.get("o"))
            if isinstance(o, dict) and o.get("k") == "this":
                out |= released(F, cls, F.fns[x["fk"]], depth + 1)
    return out


def owners(F):
    """short class name -> (members released by the destructor, record)"""
    res = {}
    for q, r in F.recs.items():
        rel = F.rel(r["file"])
        if not rel.startswith("src/"):
            continue
        c = short(q)
        for m in r.get("methods", []):
            if m.get("dtor"):
                fn = F.fns.get(m["fk"]) or next((F.fns[k] for k in F.fns if k.split("@")[0] == m["fk"]), None)
                s = released(F, c, fn)
                if s:
                    o = res.setdefault(c, [set(), r, rel])
                    o[0] |= s
    return res


def copyable(F, r, depth=0):
    """which of copy construction and copy assignment the class still has member by member"""
    out = []
    for what in ("ctor", "assign"):
        ok = False
        for m in r.get("methods", []):
            t = F.ty(m)
            if what == "ctor" and m.get("ctor") and m.get("copy") or what == "assign" and m.get("n") == "operator=" and m.get("copyasg"):
                if m.get("deleted") or m.get("acc") == "private" or not m.get("defaulted"):
                    ok = True
        for fl in r.get("fields", []):
            t = F.ty(fl)
            if re.match(r"^(const )?std::(basic_[io]?fstream|basic_[io]?stringstream|unique_ptr|mutex|atomic|thread)", t) and not t.rstrip().endswith(("&", "*")):
                ok = True
            if what == "assign" and (t.rstrip().endswith("&") or re.match(r"^const ", t) and not t.rstrip().endswith("*")):
                ok = True
            q = F.recs.get(base(t)) if not t.rstrip().endswith(("&", "*")) else None
            if q is not None and q is not r and what not in copyable(F, q, depth + 1) and depth < 4 and explicit(F, q, what):
                ok = True
        for b in r.get("bases", []):
            q = F.recs.get(b)
            if q is not None and depth < 4 and explicit(F, q, what):
                ok = True
        if not ok:
            out.append(what)
    return out


def explicit(F, r, what):
    return any((m.get("copy") if what == "ctor" else m.get("copyasg")) and (m.get("deleted") or m.get("acc") == "private") for m in r.get("methods", []))


JUDGED = {}


def owner(ctx):
    """a class whose destructor releases a member cannot be copied member by member"""
    F, out = ctx.C, []
    ref = owners(ctx.R)
    for c, (mem, r, rel) in sorted(owners(F).items()):
        ctx.count("owner_classes")
        bad = copyable(F, r)
        if bad:
            out.append(Finding("owner-copyable", c, rel, r["l"], "releases %s in its destructor, and its copy %s is the implicit one" % (", ".join(sorted(mem)), " and ".join(bad))))
    ctx.floor("owner_classes", 8)
    return out


class Local(Flow):
    """local raw pointers that received `new`: A allocated, D deleted, E handed over, N null"""

    def join(self, a, b):
        r = {}
        for k in set(a) | set(b):
            x, y = a.get(k, frozenset("U")), b.get(k, frozenset("U"))
            r[k] = x | y
        return r

    def isnew(self, e):
        e = strip(e)
        return isinstance(e, dict) and e.get("k") == "new"

    def setv(self, st, i, v):
        st = dict(st)
        st[i] = frozenset(v)
        return st

    def decl(self, v, st):
        if v["id"] in self.track:
            e = strip(v.get("init"))
            st = self.setv(st, v["id"], "A" if self.isnew(e) else "N" if e is None or (isinstance(e, dict) and (e.get("cv") == "0" or e.get("null") or e.get("v") == "0")) else "E")
        return st

    def pre(self, x, st):
        k = x.get("k")
        if k == "asg" and x.get("op") == "=":
            a = strip(x["a"])
            if isinstance(a, dict) and a.get("k") == "ref" and a.get("id") in self.track:
                st = self.expr(x["b"], st)
                if st is None:
                    return None
                e = strip(x["b"])
                if st.get(a["id"]) == frozenset("A"):
                    self.bad.append(("lost", a, x.get("l")))
                return self.setv(st, a["id"], "A" if self.isnew(e) else "N" if isinstance(e, dict) and (e.get("null") or e.get("v") == "0") else "E")
        if k == "del":
            e = strip(x["e"])
            if isinstance(e, dict) and e.get("k") == "ref" and e.get("id") in self.track:
                i = e["id"]
                if st.get(i) == frozenset("D"):
                    self.bad.append(("deleted twice", e, x.get("l")))
                if st.get(i) == frozenset("A") and self.track[i] is not None and bool(x.get("arr")) != self.track[i]:
                    self.bad.append(("released with the wrong form of delete", e, x.get("l")))
                return self.setv(st, i, "D")
        if k == "un" and x.get("op") == "*" or k == "mem" and x.get("arrow") or k == "sub":
            e = strip(x.get("a") if k == "un" else x.get("b"))
            if isinstance(e, dict) and e.get("k") == "ref" and e.get("id") in self.track:
                if st.get(e["id"]) == frozenset("D"):
                    self.bad.append(("used after it was deleted", e, x.get("l")))
                return self.expr(x["i"], st) if k == "sub" else st
        if k == "call" and x.get("arrow"):
            e = strip(x.get("o"))
            if isinstance(e, dict) and e.get("k") == "ref" and e.get("id") in self.track:
                if st.get(e["id"]) == frozenset("D"):
                    self.bad.append(("used after it was deleted", e, x.get("l")))
                return self.expr(x.get("a"), st)
        if k == "bin" and x.get("op") in ("==", "!=") or k == "un" and x.get("op") == "!":
            es = [strip(x.get("a")), strip(x.get("b"))]
            if any(isinstance(e, dict) and e.get("k") == "ref" and e.get("id") in self.track for e in es):
                return st
        return None

    def branch(self, c, st, taken):
        c = strip(c)
        neg = False
        while isinstance(c, dict) and c.get("k") == "un" and c.get("op") == "!":
            c, neg = strip(c["a"]), not neg
        i = None
        if isinstance(c, dict) and c.get("k") == "ref":
            i = c.get("id")
        elif isinstance(c, dict) and c.get("k") == "bin" and c.get("op") in ("==", "!="):
            for a, b in ((c["a"], c["b"]), (c["b"], c["a"])):
                a, b = strip(a), strip(b)
                if isinstance(a, dict) and a.get("k") == "ref" and isinstance(b, dict) and (b.get("null") or b.get("v") == "0"):
                    i = a.get("id")
                    neg = neg != (c["op"] == "==")
        if i in self.track and i in st:
            nn = taken != neg
            keep = st[i] - frozenset("N") if nn else frozenset("N")
            return self.setv(st, i, keep or st[i])
        return st

    def node(self, x, st):
        if x.get("k") == "ref" and x.get("id") in self.track:
            return self.setv(st, x["id"], "E")        # copied, returned or passed on
        return st


def locals_(ctx):
    """a local pointer that received `new` is deleted once, in the matching form, or handed over, before the function leaves normally; it is not used after delete"""
    F, out = ctx.C, []
    for rel, f in src_fns(F):
        news, kinds = set(), {}
        for x in FX.walk(f["body"]):
            tgt, e = None, None
            if x.get("k") == "var" and not x.get("static"):
                tgt, e = x["id"], strip(x.get("init"))
            elif x.get("k") == "asg" and x.get("op") == "=":
                a = strip(x["a"])
                if isinstance(a, dict) and a.get("k") == "ref" and a.get("dk") == "local":
                    tgt, e = a["id"], strip(x["b"])
            if tgt is not None and isinstance(e, dict) and e.get("k") == "new":
                news.add(tgt)
                kinds.setdefault(tgt, set()).add(bool(e.get("arr")))
        if not news:
            continue
        ctx.count("local_allocations", len(news))
        fl = Local(F, f)
        fl.track = {i: (list(kinds[i])[0] if len(kinds[i]) == 1 else None) for i in news}
        fl.bad = []
        names = {x["id"]: x.get("n") for x in FX.walk(f["body"]) if x.get("k") == "var" and x.get("id") in news}
        ex = fl.run({})
        for kind, n, st in ex:
            if kind in ("ret", "end"):
                for i, s in st.items():
                    if s == frozenset("A"):
                        fl.bad.append(("never released on a path", {"id": i}, (n or {}).get("l")))
        for why, e, l in fl.bad:
            out.append(Finding("local-pointer", "%s in %s: %s" % (names.get(e.get("id")), short(f["q"]), why), rel, l, why))
    ctx.floor("local_allocations", 15)
    return out


def virtuals(ctx):
    """an object deleted through a pointer to a class with virtual functions has a virtual destructor"""
    F, out = ctx.C, []
    for rel, f in src_fns(F):
        for x in FX.walk(f["body"]):
            if x.get("k") != "del":
                continue
            ctx.count("deletes")
            r = F.recs.get(base(F.ty(strip(x["e"]))))
            if r is None or r.get("dtorvirt"):
                continue
            poly = any(m.get("virt") for m in r.get("methods", []))
            if poly and any(base(F.types[b] if isinstance(b, int) else b) == next((q for q, rr in F.recs.items() if rr is r), None) for rr in F.recs.values() for b in rr.get("bases", [])):
                out.append(Finding("virtual-destructor", short(base(F.ty(strip(x["e"])))), rel, x.get("l"), "deleted through a base without a virtual destructor"))
    ctx.floor("deletes", 60)
    return out


RULES = [("owner", owner), ("local-pointer", locals_), ("virtual-destructor", virtuals)]
