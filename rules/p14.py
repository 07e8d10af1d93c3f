"""P14: one name, one meaning."""
import re
from vlib import facts as FX
from vlib.flow import strip
from vlib.runner import Finding
from rules.common import src_fns, root, short

ABOUT = ("Absolute: within one decision sequence no name is tested twice (the second test could never act); one and one arm of a switch per enumerator; no condition compares an "
         "expression with itself or has an assignment where a comparison belongs. Relative: the table of names and operations is that of the confirmed reference.")


def eqtest(c):
    """(subject, literal) of a test subject == "literal" """
    c = strip(c)
    if not isinstance(c, dict):
        return None
    ops = None
    if c.get("k") == "bin" and c.get("op") == "==":
        ops = [c["a"], c["b"]]
    elif c.get("k") == "call" and c.get("n") == "operator==":
        ops = ([c["o"]] if c.get("o") else []) + list(c.get("a", []))
    if not ops or len(ops) != 2:
        return None
    for a, b in (ops, ops[::-1]):
        a, b = strip(a), strip(b)
        while isinstance(b, dict) and b.get("k") == "ctor" and b.get("a"):
            b = strip(b["a"][0])
        if isinstance(b, dict) and b.get("k") == "str":
            r = root(a)
            if r:
                return r, b.get("v")
    return None


def leaves(s):
    for x in FX.walk(s):
        if x.get("k") in ("ret", "throw", "brk", "cnt"):
            return True
    return False


def chains(b):
    """sequences of (condition) such that a later one is reached only if the earlier ones failed"""
    if isinstance(b, dict) and b.get("k") == "seq":
        cur = []
        for s in b.get("b", []):
            if isinstance(s, dict) and s.get("k") == "if":
                x, got = s, []
                while isinstance(x, dict) and x.get("k") == "if":
                    got.append(x)
                    x = x.get("e")
                if all(ends(y.get("t")) for y in got) and x is None:
                    cur += got
                else:
                    yield cur + got
                    cur = []
            else:
                if any(y.get("k") in ("asg", "inc") for y in FX.walk(s)):
                    yield cur
                    cur = []
        yield cur


def ends(s):
    if not isinstance(s, dict):
        return False
    if s.get("k") == "seq":
        return bool(s.get("b")) and ends(s["b"][-1])
    if s.get("k") == "expr":
        e = strip(s.get("e"))
        return isinstance(e, dict) and e.get("k") == "throw"
    return s.get("k") in ("ret", "brk", "cnt")


def once(ctx):
    """no name is tested twice in one decision sequence"""
    F, out = ctx.C, []
    for rel, f in src_fns(F):
        for x in FX.walk(f["body"]):
            if x.get("k") != "seq":
                continue
            for ch in chains(x):
                seen = {}
                for y in ch:
                    t = eqtest(y["c"])
                    if t is None:
                        continue
                    ctx.count("name_tests")
                    if t in seen:
                        out.append(Finding("name-twice", "%s in %s" % (t[1], short(f["q"])), rel, y.get("l"), "%r was already tested at line %s, so this test never succeeds" % (t[1], seen[t])))
                    seen[t] = y.get("l")
    ctx.floor("name_tests", 40)
    return out


def selfcmp(ctx):
    """no comparison has the same operand on both sides"""
    F, out = ctx.C, []
    for rel, f in src_fns(F):
        for x in FX.walk([f.get("inits"), f["body"]]):
            if x.get("k") == "bin" and x.get("op") in ("==", "!=", "<", ">", "<=", ">=", "&&", "||") or x.get("k") == "call" and x.get("n") in ("operator==", "operator!=", "operator<"):
                a, b = (x["a"], x["b"]) if x["k"] == "bin" else (([x["o"]] if x.get("o") else []) + list(x.get("a", [])) + [None, None])[:2]
                ctx.count("comparisons")
                if a is not None and b is not None and sig(a) == sig(b) and not any(y.get("k") in ("int", "flt", "str") and y is strip(a) for y in FX.walk(a)) and not any(y.get("k") in ("call", "inc", "asg") and y.get("n") not in ("size", "operator[]", "operator()") for y in FX.walk(a)):
                    if "double" in F.ty(strip(a)) or "float" in F.ty(strip(a)):
                        continue        # the test for not-a-number
                    out.append(Finding("self-comparison", short(f["q"]), rel, x.get("l"), "both sides of this comparison are the same expression"))
    return out


def sig(x):
    x = strip(x)
    if isinstance(x, list):
        return tuple(sig(y) for y in x)
    if isinstance(x, dict):
        return tuple((k, sig(v)) for k, v in sorted(x.items()) if k not in ("l", "t", "f", "fk", "pm", "cv", "const"))
    return x


RULES = [("name-twice", once), ("self-comparison", selfcmp)]
