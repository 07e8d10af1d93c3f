"""helpers shared by the absolute rules"""
import re
from vlib import facts as FX
from vlib.flow import strip


def src_fns(F, *pats):
    rx = re.compile("^src/(?:" + "|".join(pats or (".*",)) + ")$")
    for f in F.fns.values():
        rel = F.rel(f["file"])
        if rel.startswith("src/") and rx.match(rel) and f.get("body") is not None:
            yield rel, f


def base(t):
    """element type behind references, pointers and const"""
    t = t.strip()
    while True:
        u = re.sub(r"\s*(const|volatile)\s*$", "", t)
        u = re.sub(r"^(const|volatile)\s+", "", u).strip()
        if u and u[-1] in "&*":
            u = u[:-1].strip()
        if u == t:
            return t
        t = u


def short(q):
    """qualified name without template arguments"""
    out, d = [], 0
    for i, c in enumerate(q):
        if c == "<" and not q[:i].endswith("operator") and not q[:i].endswith("operator<"):
            d += 1
        elif c == ">" and d:
            d -= 1
        elif not d:
            out.append(c)
    return "".join(out)


def pointee(x):
    """the object whose address argument x is, if it is written as an address"""
    x = strip(x)
    if isinstance(x, dict) and x.get("k") == "un" and x.get("op") == "&":
        return strip(x["a"])
    return None


def root(x):
    """the variable an lvalue expression belongs to"""
    while isinstance(x, dict):
        k = x.get("k")
        if k == "ref":
            return ("v", x.get("id"), x.get("n")) if x.get("dk") != "global" else ("g", x.get("q") or x.get("n"), x.get("n"))
        if k == "this":
            return ("this", 0, "this")
        if k == "mem":
            b = strip(x.get("b"))
            if isinstance(b, dict) and b.get("k") == "this":
                return ("m", x.get("n"), x.get("n"))
            x = b
        elif k == "sub":
            x = x.get("b")
        elif k == "cast":
            x = x.get("e")
        elif k == "un" and x.get("op") in ("*", "&"):
            x = x.get("a")
        elif k == "call" and x.get("n") in ("operator[]", "operator()", "operator*", "operator->", "front", "back", "at", "begin", "data", "c_str", "end"):
            x = x.get("o") or (x["a"][0] if x.get("a") else None)
        else:
            return None
    return None
