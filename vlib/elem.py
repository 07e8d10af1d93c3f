"""Elementary edits: is the difference between two versions of a function confined to a few
operators, literals, operands or a dropped statement, on an otherwise identical skeleton?

Used only where the normal forms of the two versions differ but not every differing value is
resolved.  Two versions that are a re-arrangement of each other (a helper extracted, a loop
rewritten, statements moved) differ in their skeleton; a single operator or operand that
changed, and whose change the normal form shows, is a change of meaning."""
import difflib, hashlib
from . import facts as FX

IGN = set(FX.SKIP) | {"t", "at", "et", "ret", "mt", "cv", "cc", "pm", "fk", "f", "cls"}
MEM = ("mem", "memfn")
LEAF = {"ref", "int", "flt", "str", "chr", "bool", "this", "mem", "null"}
FIRST = {"i": 0, "v": 1, "ref": 1}       # what declares a variable comes before what uses it
CONST = {"int", "flt", "str", "chr", "bool"}
EXPR = {"bin", "un", "call", "sub", "cond"}
CMP = {"<", "<=", ">", ">=", "==", "!="}
CONDOPS = {frozenset(("!=", "<")), frozenset(("!=", ">")), frozenset(("==", ">=")), frozenset(("==", "<="))}


FUN = {"conj", "fabs", "abs", "sqrt"}      # functions of one argument whose loss changes the value


class Structural(Exception):
    pass


class Diff(object):
    def __init__(self, F, G):
        self.F, self.G = F, G
        self.m = {}
        self.inv = {}
        self.out = []
        self.ifs = []
        self.pa, self.pb = set(), set()      # parameters that keep the value they were given

    def hid(self, o, side):
        """hash with the other side's numbering where it is known"""
        h = []
        num = {}          # variables of its own: numbered in order of appearance

        def go(x):
            if isinstance(x, dict):
                h.append("{")
                mem = x.get("k") in MEM
                for k in sorted(x):
                    if k in IGN and not isinstance(x[k], (dict, list)) or k == "n" and "id" in x and not mem or k == "id" and mem:
                        continue
                    v = x[k]
                    if k == "id" and "q" in x:
                        continue        # a global has a name of its own
                    if k == "id":
                        if side == 0:
                            v = self.m[v] if v in self.m else num.setdefault(v, "?%d" % len(num))
                        elif v not in self.inv:
                            v = num.setdefault(v, "?%d" % len(num))
                    h.append(k)
                    go(v)
                h.append("}")
            elif isinstance(x, list):
                h.append("[")
                for y in x:
                    go(y)
                h.append("]")
            else:
                h.append(repr(x))
        go(o)
        return hashlib.md5("".join(h).encode()).hexdigest()

    def same(self, a, b):
        return self.hid(a, 0) == self.hid(b, 1)

    def add(self, kind, a, b):
        self.out.append((kind, a, b))
        if len(self.out) > 3:
            raise Structural()

    def name(self, d):
        return d.get("n") if isinstance(d, dict) else None

    def go(self, a, b):
        if a is None and b is None:
            return
        if isinstance(a, dict) and isinstance(b, dict):
            return self.node(a, b)
        if isinstance(a, list) and isinstance(b, list):
            return self.lst(a, b)
        if a != b:
            if isinstance(a, dict) and b is None or isinstance(b, dict) and a is None:
                self.add("del" if b is None else "add", a, b)
                return
            raise Structural()

    def node(self, a, b):
        ka, kb = a.get("k"), b.get("k")
        if self.fun(a) and self.same(a["a"][0], b):
            return self.add("unfun", a, b)
        if self.fun(b) and self.same(a, b["a"][0]):
            return self.add("fun", a, b)
        if ka != kb:
            for k, v in a.items():
                if isinstance(v, dict) and self.same(v, b):
                    return self.add("strip", a, b)
            for k, v in b.items():
                if isinstance(v, dict) and self.same(a, v):
                    return self.add("wrap", a, b)
            if {ka, kb} == {"while", "if"}:
                c = a if ka == "if" else b
                if not c.get("e") and self.same(a.get("c"), b.get("c")) and self.same(a.get("t" if ka == "if" else "b"), b.get("t" if kb == "if" else "b")):
                    return self.add("whileif", a, b)
            if {ka, kb} == {"brk", "cnt"}:
                return self.add("jump", a, b)
            if ka in LEAF and kb in LEAF:
                return self.add("leaf", a, b)
            if (ka in CONST) != (kb in CONST) and ka in EXPR | CONST and kb in EXPR | CONST \
                    and any(x.get("k") in ("ref", "mem", "this") for x in FX.walk(b if ka in CONST else a)):
                return self.add("leaf", a, b)
            if ka == "ref" and kb in EXPR and a.get("id") in self.pa and self.m[a["id"]] not in {x.get("id") for x in FX.walk(b)}:
                return self.add("leaf", a, b)
            if kb == "ref" and ka in EXPR and b.get("id") in self.pb and self.inv[b["id"]] not in {x.get("id") for x in FX.walk(a)}:
                return self.add("leaf", a, b)
            if ka in EXPR and kb in EXPR and self.unrelated(a, b):
                return self.add("leaf", a, b)
            raise Structural()
        if "id" in a and "id" in b and ka == "ref":
            x = self.m.get(a["id"])
            if x is None and b["id"] not in self.inv:
                self.m[a["id"]] = b["id"]
                self.inv[b["id"]] = a["id"]
            elif x != b["id"]:
                self.add("leaf", a, b)
            return
        if ka == "ref" and "q" in a and "q" in b:
            if a["q"] != b["q"]:
                self.add("leaf", a, b)
            return
        if ka == "ref" and ("id" in a) != ("id" in b):
            return self.add("leaf", a, b)
        if "id" in a and "id" in b and ka not in MEM:
            self.m[a["id"]] = b["id"]
            self.inv[b["id"]] = a["id"]
        if ka == "call" and a.get("opc") and b.get("opc") and a.get("f") != b.get("f") and a.get("op") in CMP and b.get("op") in CMP \
                and str(a.get("f")).startswith("std::operator") and str(b.get("f")).startswith("std::operator") and len(a.get("a", ())) == len(b.get("a", ())) == 2:
            for x, y in zip(a["a"], b["a"]):
                self.go(x, y)
            return self.add("op", a, b)
        # an operand dropped from, or added to, a chain of the same operator
        if ka == "bin":
            if a.get("op") != b.get("op") or not (self.same(a["a"], b["a"]) or self.same(a["b"], b["b"])):
                for k in ("a", "b"):
                    if self.same(a[k], b):
                        return self.add("strip", a, b)
                    if self.same(a, b[k]):
                        return self.add("wrap", a, b)
        if ka == "if" and not self.same(a.get("c"), b.get("c")):
            for k, v in a.items():
                if isinstance(v, dict) and self.same(v, b):
                    return self.add("strip", a, b)
        keys = set(a) | set(b)
        for k in sorted(keys, key=lambda k: (FIRST.get(k, 5), k)):
            if k in ("k", "id"):
                continue
            x, y = a.get(k), b.get(k)
            if k in IGN and not isinstance(x, (dict, list)) and not isinstance(y, (dict, list)):
                continue
            if k == "n" and "id" in a and ka not in MEM:
                continue
            if isinstance(x, (dict, list)) or isinstance(y, (dict, list)):
                if x in (None, []) and y in (None, []):
                    continue
                if ka == "if" and k == "t":
                    if isinstance(y, dict) and y.get("k") == "seq" and isinstance(x, dict) and x.get("k") != "seq":
                        x = {"k": "seq", "b": [x]}
                    elif isinstance(x, dict) and x.get("k") == "seq" and isinstance(y, dict) and y.get("k") != "seq":
                        y = {"k": "seq", "b": [y]}
                    self.ifs.append(a)
                    self.go(x, y)
                    self.ifs.pop()
                    continue
                self.go(x, y)
            elif x != y:
                if k == "op" and ka in ("bin", "asg", "inc", "un"):
                    self.add("op", a, b)
                elif k == "v" and ka in ("int", "flt", "str", "chr", "bool"):
                    try:
                        if float(x) == float(y):
                            continue
                    except (TypeError, ValueError):
                        pass
                    self.add("literal", a, b)
                elif k == "n" and ka in ("mem", "ref"):
                    self.add("leaf", a, b)
                else:
                    raise Structural()

    def fun(self, a):
        return a.get("k") == "call" and a.get("n") in FUN and not a.get("o") and len(a.get("a") or ()) == 1 and isinstance(a["a"][0], dict)

    def names(self, a, side):
        """what an expression speaks of; None when it uses a local variable (which may hold anything)"""
        out = set()
        for x in FX.walk(a):
            k = x.get("k")
            if k == "ref":
                if "id" in x:
                    if x["id"] not in (self.pa if side == 0 else self.pb):
                        return None
                    out.add(("p", self.m.get(x["id"]) if side == 0 else x["id"]))
                else:
                    out.add(("g", x.get("q")))
            elif k in MEM:
                out.add(("m", x.get("n")))
            elif k == "call":
                out.add(("m", x.get("n")))
            elif k == "lambda":
                return None
        return out

    def unrelated(self, a, b):
        x, y = self.names(a, 0), self.names(b, 1)
        return bool(x) and bool(y) and not x & y

    def first(self, a):
        """the block remembers the last element that satisfies an inequality: leaving the loop there keeps the first instead"""
        c = self.ifs[-1].get("c") if self.ifs else None
        if not isinstance(c, dict) or not any(x.get("op") in ("<", ">", "<=", ">=") for x in FX.walk(c)) or any(x.get("op") in ("==", "!=") for x in FX.walk(c)):
            return False
        last = a[-1] if a else None
        e = last.get("e") if isinstance(last, dict) and last.get("k") == "expr" else last
        return isinstance(e, dict) and e.get("k") == "asg" and e.get("op") == "=" and isinstance(e.get("b"), dict) and e["b"].get("k") not in CONST

    def lst(self, a, b):
        if len(a) == len(b):
            for x, y in zip(a, b):
                self.go(x, y)
            return
        ha, hb = [self.hid(x, 0) for x in a], [self.hid(x, 1) for x in b]
        for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, ha, hb, autojunk=False).get_opcodes():
            if tag == "equal":
                for x, y in zip(a[i1:i2], b[j1:j2]):
                    self.go(x, y)
            elif tag == "replace" and i2 - i1 == j2 - j1:
                for x, y in zip(a[i1:i2], b[j1:j2]):
                    self.go(x, y)
            elif tag == "delete":
                for x in a[i1:i2]:
                    self.add("del", x, None)
            elif tag == "insert" and j2 - j1 == 1 and b[j1].get("k") == "brk" and i1 == len(a) and self.first(a):
                self.add("first", None, b[j1])
            else:
                raise Structural()


def inloopcond(root, node):
    for x in FX.walk(root):
        if x.get("k") in ("for", "while", "do") and isinstance(x.get("c"), dict):
            for y in FX.walk(x["c"]):
                if y is node:
                    return True
    return False


def fixed(fn):
    """the parameters of fn that nothing in it assigns or hands out by address"""
    ids = {p["id"] for p in fn.get("params") or [] if "id" in p}
    for x in FX.walk([fn.get("inits"), fn.get("body")]):
        k = x.get("k")
        t = x.get("a") if k in ("asg", "inc") or k == "un" and x.get("op") in ("&", "++", "--") else None
        if isinstance(t, dict) and t.get("k") == "ref":
            ids.discard(t.get("id"))
    return ids


def elementary(F, f, G, g):
    """the list of elementary edits, or None if the versions differ in structure"""
    d = Diff(F, G)
    try:
        for x, y in zip(f.get("params") or [], g.get("params") or []):
            if "id" in x and "id" in y:
                d.m[x["id"]] = y["id"]
                d.inv[y["id"]] = x["id"]
        if len(f.get("params") or []) != len(g.get("params") or []):
            return None
        d.pa, d.pb = fixed(f), fixed(g)
        d.go(f.get("inits") or [], g.get("inits") or [])
        d.go(f.get("body"), g.get("body"))
    except Structural:
        return None
    out = []
    if len(d.out) > 1 and any(kind in ("fun", "unfun") for kind, a, b in d.out):
        return None         # conj moved from one factor to another, say
    for kind, a, b in d.out:
        if kind == "op" and a.get("k") == "bin" and frozenset((a.get("op"), b.get("op"))) in CONDOPS and inloopcond(f.get("body"), a):
            return None
        if kind == "op" and a.get("k") == "call" and frozenset((a.get("op"), b.get("op"))) in CONDOPS and inloopcond(f.get("body"), a):
            return None
        if kind in ("add",):
            return None
        if kind == "del" and isinstance(a, dict) and a.get("k") in ("decl", "null"):
            return None
        if kind in ("strip", "wrap"):
            w = a if kind == "strip" else b
            if w.get("k") not in ("bin", "un", "if"):
                return None
        if kind == "leaf" and (a.get("k") in ("int", "flt") and b.get("k") in ("int", "flt")):
            try:
                if float(a.get("v")) == float(b.get("v")):
                    continue
            except (TypeError, ValueError):
                pass
        out.append((kind, a, b))
    return out or None
