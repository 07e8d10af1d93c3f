"""P03: threads are created, joined and given private records; mutexes are paired."""
import re
from vlib import facts as FX
from vlib.flow import Flow, strip
from vlib.runner import Finding
from rules.common import src_fns, root, short

ABOUT = ("Absolute: typestate over every function that creates threads (attributes initialised before creation; no return, release or resize of anything handed to a worker while workers run; "
         "every creation loop is matched by a join loop over the same range and the same identifiers); the record handed to a worker is the element of a container chosen by the loop "
         "variable, never one shared variable; every locked mutex is unlocked on every path; each mutex wrapper performs the operation it is named after. "
         "Relative: ranges, records and order of thread operations are those of the confirmed reference.")


def has(x, *names):
    return any(y.get("k") == "call" and y.get("n") in names for y in FX.walk(x))


def loopvar(s):
    """(variable id, start, operator, bound) of a counting loop"""
    if s.get("k") != "for" or not s.get("i") or not s.get("c"):
        return None
    v = None
    for x in FX.walk(s["i"]):
        if x.get("k") == "var":
            v = (x["id"], strip(x.get("init")))
        elif x.get("k") == "asg":
            r = root(x["a"])
            v = (r[1], strip(x["b"])) if r else None
    c = strip(s["c"])
    if v is None or not isinstance(c, dict) or c.get("k") != "bin":
        return None
    a, b = strip(c["a"]), strip(c["b"])
    if isinstance(a, dict) and a.get("k") == "ref" and a.get("id") == v[0]:
        return v[0], text(v[1]), c["op"], text(b)
    return None


def text(e):
    e = strip(e)
    if not isinstance(e, dict):
        return "?"
    k = e.get("k")
    if k == "int":
        return str(e.get("v"))
    if k in ("ref", "mem"):
        return "%s:%s" % (e.get("n"), e.get("id") if k == "ref" else "")
    if k == "bin":
        return "(%s%s%s)" % (text(e["a"]), e["op"], text(e["b"]))
    if k == "call":
        return "%s.%s(%s)" % (text(e.get("o")) if e.get("o") else "", e.get("n"), ",".join(text(a) for a in e.get("a", [])))
    return "?"


def indexvars(e):
    return {y.get("id") for y in FX.walk(e) if y.get("k") == "ref" and y.get("dk") in ("local", None, "param")}


class Threads(Flow):
    def join(self, a, b):
        return {"run": a.get("run", 0) or b.get("run", 0)}

    def node(self, x, st):
        k, n = x.get("k"), x.get("n")
        if k == "call" and (n == "pthread_create" or x.get("fk") in self.creators):
            return {"run": x.get("l") or 1}
        if k == "call" and (n == "pthread_join" or x.get("fk") in self.joiners):
            return {"run": 0}
        if st.get("run"):
            if k == "del":
                r = root(strip(x["e"]))
                if r and r[1] in self.handed:
                    self.bad.append(("released while workers may still use it", r[2], x.get("l")))
            if k == "call" and n in ("clear", "resize", "pop_back", "erase", "reserve", "push_back", "swap", "assign"):
                r = root(strip(x.get("o")))
                if r and r[1] in self.handed:
                    self.bad.append(("changed while workers may still use it", r[2], x.get("l")))
        return st

    def loop(self, s, st):
        o = Flow.loop(self, s, st)
        if o is not None and any(y.get("k") == "call" and (y.get("n") == "pthread_join" or y.get("fk") in self.joiners) for y in FX.walk(s.get("b"))):
            o = {"run": 0}
        return o


def created(ctx):
    """every function that starts workers joins them before it returns, and releases or resizes nothing they were given before that"""
    F, out = ctx.C, []
    fns = list(src_fns(F))
    calls = {}                                   # callee -> functions calling it
    for _, f in fns:
        for y in FX.walk(f["body"]):
            if y.get("k") == "call" and y.get("fk"):
                calls.setdefault(y["fk"], set()).add(f["fk"])
    joiners = {f["fk"] for _, f in fns if has(f["body"], "pthread_join") and not has(f["body"], "pthread_create")}
    creators = set()
    byfk = {f["fk"]: f for _, f in fns}

    def leaves_running(f):
        fl = Threads(F, f)
        fl.bad, fl.joiners, fl.creators, fl.handed = [], joiners, creators, set()
        return any(kind in ("ret", "end") and st.get("run") for kind, n, st in fl.run({"run": 0}))
    work = [f["fk"] for _, f in fns if has(f["body"], "pthread_create")]
    while work:                                  # a function that leaves its workers running to its callers is a creator itself
        k = work.pop()
        if k in creators or k not in byfk or not calls.get(k, set()) - {k}:
            continue
        if leaves_running(byfk[k]) and calls.get(k):
            creators.add(k)
            work += list(calls[k])
    for rel, f in fns:
        if f["fk"] in creators:
            continue                             # its callers answer for it
        if not (has(f["body"], "pthread_create") or any(y.get("k") == "call" and y.get("fk") in creators for y in FX.walk(f["body"]))):
            continue
        ctx.count("functions_starting_threads")
        fl = Threads(F, f)
        fl.bad, fl.joiners, fl.creators, fl.handed = [], joiners, creators, set()
        for y in FX.walk(f["body"]):
            if y.get("k") == "call" and (y.get("n") == "pthread_create" or y.get("fk") in creators):
                for a in y.get("a", []):
                    r = root(strip(a))
                    if r and r[0] in ("v", "m"):
                        fl.handed.add(r[1])
        ex = fl.run({"run": 0})
        for kind, n, st in ex:
            if kind in ("ret", "end") and st.get("run"):
                fl.bad.append(("returns with workers that were not joined", "", (n or {}).get("l")))
        for why, nm, l in fl.bad:
            out.append(Finding("join", "%s: %s%s" % (short(f["q"]), nm + " " if nm else "", why), rel, l, "%s %s" % (nm, why)))
    ctx.floor("functions_starting_threads", 3)
    return out


def ranges(ctx):
    """the join loop runs over the identifiers and the range of the creation loop; each worker's record is selected by the loop variable"""
    F, out = ctx.C, []
    for rel, f in src_fns(F):
        cr, jn = [], []

        def go(x, loops):
            if isinstance(x, list):
                for y in x:
                    go(y, loops)
                return
            if not isinstance(x, dict):
                return
            if x.get("k") == "call" and x.get("n") == "pthread_create":
                cr.append((x, loops))
            if x.get("k") == "call" and x.get("n") == "pthread_join":
                jn.append((x, loops))
            ll = loops + [x] if x.get("k") in ("for", "while", "do") else loops
            for v in x.values():
                if isinstance(v, (dict, list)):
                    go(v, ll)
        go(f["body"], [])
        for x, loops in cr:
            if not loops:
                continue
            lv = loopvar(loops[-1])
            if lv is None:
                ctx.undecided.append("%s: the creation loop is not a counting loop" % f["q"][:80])
                continue
            ctx.count("creation_loops")
            arg = strip(x["a"][3]) if len(x.get("a", [])) > 3 else None
            inloop = {y["id"] for y in FX.walk(loops[-1]) if y.get("k") == "var"}
            if isinstance(arg, dict) and arg.get("k") == "un" and arg.get("op") == "&":
                tgt = strip(arg["a"])
                if tgt.get("k") in ("ref", "mem"):
                    out.append(Finding("record", "%s: %s" % (short(f["q"]), tgt.get("n")), rel, x.get("l"), "every worker is handed the same record %s%s" % (tgt.get("n"), ", which dies with the iteration" if tgt.get("id") in inloop else "")))
                elif lv[0] not in indexvars(tgt) and not (indexvars(tgt) & inloop):
                    out.append(Finding("record", "%s: index" % short(f["q"]), rel, x.get("l"), "the record handed to a worker does not depend on the loop variable"))
            for y, jl in jn:
                if not jl:
                    out.append(Finding("join-range", short(f["q"]), rel, y.get("l"), "workers are created in a loop and one is joined"))
                    continue
                jv = loopvar(jl[-1])
                if jv is None:
                    continue
                r1, r2 = root(strip(x["a"][0])), root(strip(y["a"][0]))
                if r1 and r2 and r1[1] != r2[1]:
                    out.append(Finding("join-range", "%s: identifiers" % short(f["q"]), rel, y.get("l"), "joins %s, created %s" % (r2[2], r1[2])))
                if jv[0] not in indexvars(y["a"][0]):
                    out.append(Finding("join-range", "%s: index" % short(f["q"]), rel, y.get("l"), "the identifier joined does not depend on the loop variable"))
                if "?" not in "".join(lv[1:] + jv[1:]) and lv[2] in ("<", "!=") and jv[2] in ("<", "!=") and (lv[1], lv[3]) != (jv[1], jv[3]):
                    if all(re.match(r"^[\w:]*$", t) for t in (lv[1], lv[3], jv[1], jv[3])) and lv[3].rstrip(":0123456789") and jv[3].rstrip(":0123456789"):
                        out.append(Finding("join-range", "%s: range" % short(f["q"]), rel, y.get("l"), "created for [%s, %s), joined for [%s, %s)" % (lv[1], lv[3], jv[1], jv[3])))
    return out


LOCKS = {"pthread_mutex_lock", "mutexLock"}
UNLOCKS = {"pthread_mutex_unlock", "mutexUnlock"}
WRAP = {"mutexInit": "pthread_mutex_init", "mutexDestroy": "pthread_mutex_destroy", "mutexLock": "pthread_mutex_lock", "mutexUnlock": "pthread_mutex_unlock"}


class Locks(Flow):
    def join(self, a, b):
        return {k: "L" if a.get(k) == "L" and b.get(k) == "L" else "?" for k in set(a) | set(b)}

    def node(self, x, st):
        if x.get("k") == "call" and x.get("n") in LOCKS | UNLOCKS and x.get("a"):
            r = root(strip(x["a"][0]))
            if r:
                st = dict(st)
                if x["n"] in LOCKS:
                    self.seen += 1
                    if st.get(r) == "L":
                        self.bad.append(("locked twice", r[2], x.get("l")))
                    st[r] = "L"
                else:
                    if st.get(r) == "U":
                        self.bad.append(("unlocked twice", r[2], x.get("l")))
                    st[r] = "U"
        return st


def locks(ctx):
    """a locked mutex is unlocked on every path, and each wrapper performs the operation it is named after"""
    F, out = ctx.C, []
    for rel, f in src_fns(F):
        if f["n"] in WRAP and "Concurrency" in f["q"]:
            cs = {x["n"] for x in FX.walk(f["body"]) if x.get("k") == "call" and x.get("n", "").startswith("pthread_mutex_")}
            if cs:
                ctx.count("mutex_wrappers")
                if cs != {WRAP[f["n"]]}:
                    out.append(Finding("mutex-wrapper", short(f["q"]), rel, f["l"], "%s calls %s" % (f["n"], ", ".join(sorted(cs)))))
            continue
        if not has(f["body"], *LOCKS):
            continue
        fl = Locks(F, f)
        fl.bad, fl.seen = [], 0
        ex = fl.run({})
        ctx.count("lock_sites", fl.seen)
        if not has(f["body"], *UNLOCKS):
            continue            # hands the lock to its caller
        for kind, n, st in ex:
            for r, v in st.items():
                if v == "L" and kind in ("ret", "end", "throw"):
                    fl.bad.append(("still locked when the function leaves", r[2], (n or {}).get("l")))
        for why, nm, l in fl.bad:
            out.append(Finding("lock", "%s: %s %s" % (short(f["q"]), nm, why), rel, l, why))
    ctx.floor("mutex_wrappers", 2)
    return out


RULES = [("join", created), ("join-range", ranges), ("lock", locks)]
