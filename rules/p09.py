"""P09: whole-object operations mention every field."""
import re
from vlib import facts as FX
from vlib.flow import strip
from vlib.runner import Finding
from rules.common import src_fns, base, root, short

ABOUT = ("Absolute: for every class of the library, each hand-written copy constructor, assignment, swap and comparison treats every data member, directly, through a member "
         "function or accessor, or through its base, except the listed members. "
         "Relative: the values they copy, clear, resize or compare are those of the confirmed reference.")
OPS = ("operator=", "operator==", "operator!=", "swap", "serializeAll")


def fieldsof(F, r):
    return [x["n"] for x in r.get("fields", []) if x.get("n") and not x.get("static")]


def touched(F, fk, cls, memo, depth=0):
    """fields of cls a member function reads or writes, on any object of the class"""
    if fk in memo:
        return memo[fk]
    memo[fk] = set()
    f = F.fns.get(fk)
    out = set()
    if f is not None and depth < 8:
        whole = 0
        for x in FX.walk([f.get("inits"), f["body"]]):
            if x.get("m") and x.get("mt") is not None:
                out.add(x["m"])
            if x.get("k") in ("mem", "memfn") and short(x.get("cls", "")) == cls:
                out.add(x.get("n"))
            if x.get("k") in ("call", "ctor") and x.get("fk") in F.fns and short(x.get("cls", "")) == cls:
                out |= touched(F, x["fk"], cls, memo, depth + 1)
            elif x.get("k") == "call" and x.get("fk") in F.fns and not x.get("cls"):
                out |= touched(F, x["fk"], cls, memo, depth + 1)
            if x.get("k") == "call" and x.get("n") == "operator=" and short(x.get("cls", "")) == cls:
                out.add("*")
    memo[fk] = out
    return out


def coverage(F, ctx=None):
    """{(class, operation): (missing fields, file, line)}"""
    res, memo = {}, {}
    for rel, f in src_fns(F):
        cls = f.get("cls", "")
        r = F.recs.get(cls)
        op = f["n"]
        if f.get("defaulted"):
            continue
        if r is not None:
            c = short(cls)
            last = c.rsplit("::", 1)[-1]
            if op == short(last) or short(op) == last:
                ps = [base(F.ty(p)) for p in f["params"]]
                if len(ps) != 1 or short(ps[0]) != c or not F.ty(f["params"][0]).rstrip().endswith("&"):
                    continue
                op = "copy constructor" if ps[0] == cls else "converting constructor"
            elif op in ("operator=",):
                if len(f["params"]) != 1 or short(base(F.ty(f["params"][0]))) != c:
                    continue
            elif op in ("swap", "operator==", "operator!="):
                if len(f["params"]) != 1 or short(base(F.ty(f["params"][0]))) != c:
                    continue
            else:
                continue
        else:
            if op not in ("operator==", "operator!=", "swap") or len(f["params"]) != 2:
                continue
            a, b = (base(F.ty(p)) for p in f["params"])
            r = F.recs.get(a)
            if a != b or r is None or not F.rel(r["file"]).startswith("src/"):
                continue
            c = short(a)
        fs = set(fieldsof(F, r))
        if not fs:
            continue
        t = touched(F, f["fk"], c, memo)
        if ctx is not None:
            ctx.count("whole_object_operations")
        miss = set() if "*" in t else fs - t
        k = (c, op)
        o = res.setdefault(k, [set(), rel, f["l"], f["q"]])
        o[0] |= miss
    return res


def members(ctx):
    """copy constructors, assignments, swaps and comparisons treat every data member of their class"""
    F, out = ctx.C, []
    for (c, op), (miss, rel, l, q) in sorted(coverage(F, ctx).items()):
        for m in sorted(miss):
            if (c, op, m) in JUDGED:
                ctx.count("judged")
                continue
            out.append(Finding("member-missed", "%s of %s: %s" % (op, c, m), rel, l, "the %s of %s does not treat %s" % (op, c, m)))
    ctx.floor("whole_object_operations", 10)
    return out


JUDGED = {}
RULES = [("members", members)]
