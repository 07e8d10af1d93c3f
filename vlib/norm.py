"""Gated value numbering of one function: turns a resolved function body into a
multiset of guarded effect lines over canonical terms (vlib/terms.py).

No path is enumerated and nothing is executed: branches are merged into decision
diagrams, loops are summarised once (induction variables, sums, searches), and
every effect (store, call, throw, return) becomes one line
      [loops] guard : effect
so that renaming, copy propagation, extraction of helpers, reordering of
independent statements, inverted branches, early exits, and rewritten loops all
lead to the same lines."""
import re
from fractions import Fraction
from decimal import Decimal
from . import facts as FX
from . import terms as X
from .terms import mk, ite, AND, OR, NOT, lift, num, atom, T, Blowup, rebuild


FORTRAN = re.compile(r"[sdczi][a-z0-9]+_$")


class Unsupported(Exception):
    pass


MATH = {"sqrt", "fabs", "abs", "exp", "log", "log10", "sin", "cos", "tan", "acos", "asin", "atan", "atan2", "pow",
        "gsl_strerror", "strerror", "gsl_multimin_test_size", "gsl_sf_gamma", "gsl_sf_expint", "floor", "ceil", "real", "imag", "conj", "norm", "arg", "strlen", "strcmp", "isdigit", "isalpha", "isspace",
        "atoi", "atof", "toupper", "tolower", "fmod", "isnan", "isinf", "round", "lround", "cosh", "sinh", "tanh",
        "log2", "cbrt", "hypot", "min", "max", "lgamma", "tgamma", "polar", "labs", "llabs", "isalnum", "isfinite",
        "stoi", "stod", "stol", "isblank", "ispunct", "isupper", "islower", "strncmp", "proj", "to_string"}
INTS = {"int", "unsigned int", "long", "unsigned long", "short", "unsigned short", "char", "unsigned char",
        "signed char", "long long", "unsigned long long", "bool", "__int128", "unsigned __int128"}
UNS = {"unsigned int", "unsigned long", "unsigned short", "unsigned char", "unsigned long long", "bool"}
FLTS = {"float", "double", "long double"}
VALCLS = ("std::complex<", "std::basic_string<", "__gnu_cxx::__normal_iterator<", "std::_Rb_tree_iterator<",
          "std::_Rb_tree_const_iterator<", "std::_Bit_reference", "std::fpos<", "std::_Bit_iterator")


def strip(t):
    t = t.strip()
    while True:
        if t.endswith("&"):
            t = t[:-1].rstrip()
        elif t.endswith(" const"):
            t = t[:-6]
        elif t.endswith("*const"):
            t = t[:-5]
        elif t.startswith("const ") and not t.endswith("*"):
            t = t[6:]
        elif t.startswith("volatile "):
            t = t[9:]
        else:
            return t


class Line(object):
    __slots__ = ("loops", "guard", "kind", "pay", "seq", "l", "file", "fnq", "v")

    def __init__(self, guard, kind, pay, seq, l, file, fnq):
        self.loops = []
        self.v = None
        self.guard, self.kind, self.pay, self.seq, self.l, self.file, self.fnq = guard, kind, pay, seq, l, file, fnq


class State(object):
    __slots__ = ("env", "mem", "ver", "opq", "pc", "thrown", "stc", "callc", "summ", "verl")

    def __init__(self):
        self.env, self.mem, self.ver, self.opq, self.stc, self.callc = {}, {}, {}, {}, {}, {}
        self.summ, self.verl = {}, {}
        self.pc = X.TRUE
        self.thrown = X.FALSE

    def copy(self):
        s = State()
        s.env, s.mem, s.ver, s.opq = dict(self.env), dict(self.mem), dict(self.ver), dict(self.opq)
        s.stc, s.callc, s.verl = dict(self.stc), dict(self.callc), dict(self.verl)
        s.summ = self.summ
        s.pc, s.thrown = self.pc, self.thrown
        return s

    def assign(self, o):
        for a in self.__slots__:
            setattr(self, a, getattr(o, a))


class Frame(object):
    __slots__ = ("fn", "uid", "bind", "this", "rets", "retref", "loops", "top")


class LoopF(object):
    __slots__ = ("conts", "brks", "switch")

    def __init__(self, switch=False):
        self.conts, self.brks, self.switch = [], [], switch


class NF(object):
    __slots__ = ("lines", "objs", "note", "fn")


def maxmerge(a, b):
    r = dict(a)
    for k, v in b.items():
        if r.get(k, 0) < v:
            r[k] = v
    return r


def minmerge(a, b):
    return {k: min(v, b[k]) for k, v in a.items() if k in b}


class Norm(object):
    """policy: function(fn) -> bool, inline this callee"""

    def __init__(self, F, policy, budget=60000, asserts=None):
        self.F = F
        self.asserts = asserts      # function(fn) -> bool: record the assertions of fn
        self.policy = policy
        self.budget = budget
        self.n = 0
        self.uid = 0
        self.lines = []
        self.intvals = set()
        self.lbase = [0]
        self.objn = 0
        self.stack = []
        self.lams = {}
        self.depth = 0        # loop depth
        self.objtypes = {}
        self.effcache = {}
        self.left = set()     # functions with a body whose calls were left as they are

    # ------------------------------------------------------------ types
    def ty(self, e):
        return self.F.ty(e)

    def kind(self, t):
        """scalar | ptr | val | cls"""
        s = strip(t)
        if s.endswith("*") or s.endswith("nullptr_t") or "(*)" in s:
            return "ptr"
        if s in INTS or s in FLTS:
            return "scalar"
        if s in self.F.enums:
            return "scalar"
        if s.endswith("]"):
            return "cls"
        for p in VALCLS:
            if s.startswith(p):
                return "val"
        if s.startswith("std::") or s in self.F.recs or "<" in s:
            return "cls"
        if s.startswith("(unnamed") or s.startswith("enum "):
            return "scalar"
        last = s.split("::")[-1]
        if "enum" in last.lower() or "Enum" in s:
            return "scalar"
        return "cls"

    def isint(self, t):
        s = strip(t)
        return s in INTS or s in self.F.enums or (self.kind(t) == "scalar" and s not in FLTS)

    # ------------------------------------------------------------ classes of locations
    def cls(self, l):
        o = l.op
        if o == "field":
            b = self.cls(l.args[0])
            if b and b[-1] == "[]":
                return b
            return b + (l.args[1],)
        if o == "at":
            p = l.args[0]
            if p.op == "base":
                b = self.cls(p.args[0])
                return b if b and b[-1] == "[]" else b + ("[]",)
            if p.op == "addr":
                return self.cls(p.args[0])
            return ("M", p.key, "[]")
        if o == "key":
            b = self.cls(l.args[0])
            return b if b and b[-1] == "[]" else b + ("[]",)
        if o == "this":
            return ("t",)
        if o == "param":
            return ("p", str(l.args[0]))
        if o == "obj":
            return ("o", l.key)
        if o == "glob":
            return ("g", str(l.args[0]))
        if o == "ite":
            return ("x", l.key)
        return ("v", l.key)

    def related(self, a, b):
        n = min(len(a), len(b))
        return a[:n] == b[:n]

    def version(self, st, loc):
        k = self.cls(loc)
        v = 0
        for c, n in st.ver.items():
            if self.related(c, k):
                v += n
        if k and k[-1] in ("[]",):
            # stores to other elements leave this one as it is
            for l, n in st.verl.items():
                if self.related(self.cls(l), k) and self.distinct(l, loc):
                    v -= n
        return v

    def opqver(self, st, k):
        v = 0
        for c, n in st.opq.items():
            if self.related(c, k):
                v += n
        return v

    def invalidate(self, st, k, loc=None):
        dead = []
        for l in st.mem:
            if self.related(self.cls(l), k):
                if loc is not None and l is not loc and self.distinct(l, loc):
                    continue
                dead.append(l)
        for l in dead:
            del st.mem[l]

    def distinct(self, a, b):
        """certainly different cells"""
        while a.op == "field" and b.op == "field":
            if a.args[0] is b.args[0] and a.args[1] != b.args[1]:
                return True
            a, b = a.args[0], b.args[0]
        if a.op == "at" and b.op == "at" and a.args[0] is b.args[0]:
            d = X._add(a.args[1], X._mul(num(-1), b.args[1]))
            return d.op == "num" and d.args[0] != 0
        return False

    def bump(self, st, loc, opaque=True):
        for l in X.leaves(loc):
            if l.op == "var":
                continue
            k = self.cls(l)
            st.ver[k] = st.ver.get(k, 0) + 1
            if opaque:
                st.opq[k] = st.opq.get(k, 0) + 1
                self.invalidate(st, k)

    # ------------------------------------------------------------ reading and writing
    def read(self, st, loc, t=None):
        def f(l):
            if l.op == "var":
                v = st.env.get(l)
                if v is None:
                    v = mk("uninit", l.args[-1])
                return v
            if l.op == "tmp":
                return l.args[0]
            v = st.mem.get(l)
            if v is None:
                v = self.fieldval(st, l)
            if v is None:
                v = mk("rd", l, self.version(st, l))
            return v
        v = lift(f, loc)
        return self.typed(v, t)

    def fieldval(self, st, l):
        if l.op == "field":
            b = l.args[0]
            if b.op == "tmp":
                v = b.args[0]
                if v.op == "ite":
                    return lift(lambda x: self.fieldval(st, mk("field", mk("tmp", x), l.args[1])) or
                                mk("fieldv", x, l.args[1]), v)
                if v.op == "rd":
                    return mk("rd", mk("field", v.args[0], l.args[1]), v.args[1])
                if v.op == "pair" and l.args[1] in ("first", "second"):
                    return v.args[0 if l.args[1] == "first" else 1]
                return mk("fieldv", v, l.args[1])
            if b.op == "var":
                return mk("fieldv", st.env.get(b, mk("uninit", b.args[-1])), l.args[1])
            v = st.mem.get(b)
            if v is not None and v.op == "pair" and l.args[1] in ("first", "second"):
                return v.args[0 if l.args[1] == "first" else 1]
        if l.op == "at" and l.args[0].op == "base" and l.args[0].args[0].op == "var":
            v = st.env.get(l.args[0].args[0])
            if v is not None and v.op in ("rd", "cat", "str", "call", "substr") and not st.ver.get(self.cls(l), 0) and not self.opqver(st, self.cls(l)):
                if v.op == "rd":
                    return mk("rd", mk("at", mk("base", v.args[0]), l.args[1]), v.args[1])
                return rebuild("elt", (v, l.args[1]))
        if l.op == "at" and l.args[0].op == "base" and l.args[0].args[0].op == "tmp":
            v = l.args[0].args[0].args[0]
            if v.op == "rd":
                return mk("rd", mk("at", mk("base", v.args[0]), l.args[1]), v.args[1])
            return rebuild("elt", (v, l.args[1]))
        return None

    def typed(self, v, t):
        if t is None:
            return v
        s = strip(t)
        if s == "bool":
            return X.boolval(v) if any(l.op != "num" for l in X.leaves(v)) else v
        if s.endswith("*"):
            def f(l):
                if l.op in ("num", "addr", "base", "ptr", "str", "fn", "lam"):
                    return l
                if l.op == "poly":
                    if any(X.isptr(q) for m, c in l.args[0] for q in m):
                        return l
                return mk("ptr", l)
            return lift(f, v)
        return v

    def emit(self, st, kind, pay, seq, e, guard=None):
        if st.pc is X.FALSE:
            return None
        g = st.pc if guard is None else AND(st.pc, guard)
        if g is X.FALSE:
            return None
        fn = self.frames[-1].fn
        ln = Line(g, kind, tuple(pay), seq, e.get("l", 0) if isinstance(e, dict) else 0, fn["file"], fn["q"])
        self.lines.append(ln)
        return ln

    def store(self, st, loc, val, e, t=None):
        for c, l in X.split(loc):
            if l.op == "var":
                old = st.env.get(l)
                st.env[l] = val if c is X.TRUE or old is None else ite(c, val, old)
                continue
            if l.op == "tmp":
                continue
            if l.op == "at" and l.args[1] is X.ZERO and l.args[0].op == "base" and val.op != "ite":
                w = l.args[0].args[0]
                h = st.mem.get(w)
                if h is not None and (h.op == "str" and len(h.args[0]) == 1 or h.op == "chr"):
                    self.store(st, w, mk("str", chr(int(val.args[0]))) if val.op == "num" and 0 < val.args[0] < 256 else mk("chr", val), e, t)
                    continue
            k = self.cls(l)
            sk = ("s", l.key)
            oldv = self.unread(st, l) if c is not X.TRUE else None
            have = st.mem.get(l)
            if have is None:
                have = self.unread(st, l)
            if have.op != "ite" and (val.op == "ite" or val is have and have.op == "rd") and have in X.leaves(val):
                c2 = AND(c, NOT(X.cond_of(val, have)))       # writes what is there already
                if AND(st.pc, c2) is X.FALSE:
                    continue
            else:
                c2 = c
            dead = self.deadstore(st, l, k, st.pc if c2 is X.TRUE else AND(st.pc, c2))
            n = st.stc.get(sk, 0) - (1 if dead else 0)
            ln = self.emit(st, "store", (l, val), (n, self.opqver(st, k)), e, c2)
            if ln is not None:
                ln.v = self.version(st, l)
            st.stc[sk] = n + 1
            if not dead:
                v0 = self.version(st, l)
                st.ver[k] = st.ver.get(k, 0) + 1
                if k and k[-1] == "[]":
                    st.verl[l] = st.verl.get(l, 0) + 1
                for (sl, sv), h in list(st.summ.items()):
                    # writing just past the filled range leaves it as it is
                    if sv == v0 and self.cls(sl) == k:
                        ii = mk("i", h[2])
                        if X.subst(sl, lambda t: h[0] if t is ii else None) is l:
                            st.summ = dict(st.summ)
                            st.summ[(sl, self.version(st, l))] = h
            self.invalidate(st, k, l)
            if c is X.TRUE:
                st.mem[l] = val
            else:
                old = st.mem.get(l)
                if old is None:
                    old = oldv
                st.mem[l] = ite(c, val, old)

    def deadstore(self, st, l, k, g):
        """drop the last store to l when nothing can see it before this one"""
        def seen(t):
            return X.contains(t, lambda x: x.op == "rd" and self.related(self.cls(x.args[0]), k))
        for idx in range(len(self.lines) - 1, self.lbase[-1] - 1, -1):
            o = self.lines[idx]
            if o.kind == "dead":
                continue
            if o.kind == "store" and o.pay[0] is l and not o.loops:
                part = o.guard is not g        # overwritten in some of the cases only
                if g is X.FALSE or part and (AND(g, NOT(o.guard)) is not X.FALSE or seen(g)):
                    return False
                old = lambda x: x.op == "rd" and self.related(self.cls(x.args[0]), k) and x.args[1] == self.version(st, x.args[0])
                for v in list(st.env.values()) + list(st.mem.values()):
                    if isinstance(v, T) and X.contains(v, old):
                        return False
                for fr in self.frames:
                    for pc, v, _ in fr.rets:
                        if isinstance(v, T) and X.contains(v, old) or X.contains(pc, old):
                            return False
                if part:
                    o.guard = AND(o.guard, NOT(g))
                else:
                    o.kind, o.pay = "dead", ()
                return True
            if o.kind not in ("store", "out", "assert", "new"):
                return False
            if any(isinstance(x, T) and seen(x) for x in list(o.loops) + [o.guard] + list(o.pay)):
                return False
            if o.kind == "store" and self.related(self.cls(o.pay[0]) if o.pay[0].op != "ite" else ("x",), k) and o.pay[0].op == "ite":
                return False
        return False

    # ------------------------------------------------------------ binding
    def var(self, fr, d):
        return mk("var", fr.uid, d.get("id", 0), d.get("n", ""))

    def newobj(self, t, name):
        self.objn += 1
        o = mk("obj", self.objn, t, name)
        return o

    def lookup(self, e):
        for fr in reversed(self.frames):
            l = fr.bind.get(e["id"])
            if l is not None:
                return l
            if not fr.fn.get("lambda_frame"):
                break
        return None

    # ------------------------------------------------------------ evaluation
    def tick(self):
        self.n += 1
        if self.n > self.budget:
            raise Blowup("evaluation budget")

    def lv(self, st, e):
        """location of an lvalue expression, else a tmp holding its value"""
        r = self.any(st, e)
        return r[1] if r[0] == "l" else self.tmp(r[1])

    def tmp(self, v):
        return lift(lambda x: mk("tmp", x), v) if v.op == "ite" else mk("tmp", v)

    def ev(self, st, e):
        r = self.any(st, e)
        if r[0] == "l":
            if self.ty(e).endswith("]"):
                return self.base(r[1])           # an array used as a value is a pointer to its first element
            return self.read(st, r[1], self.ty(e))
        return r[1]

    def cond(self, st, e):
        v = self.ev(st, e)
        return X.tobool(v)

    def V(self, v):
        return ("v", v)

    def L(self, l):
        return ("l", l)

    def addr(self, l):
        def f(x):
            if x.op == "at":
                return X._add(x.args[0], x.args[1])
            return mk("addr", x)
        return lift(f, l)

    def base(self, l):
        def f(x):
            if x.op == "tmp" and x.args[0].op == "rd":
                x = x.args[0].args[0]
            return mk("base", x)
        return lift(f, l)

    def deref(self, p):
        return X.at_loc(p, num(0))

    def any(self, st, e):
        self.tick()
        if e is None:
            return self.V(mk("none"))
        k = e["k"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression " + k)
        return m(st, e)

    def e_int(self, st, e):
        return self.V(num(int(e["v"])))

    def e_flt(self, st, e):
        try:
            return self.V(num(Fraction(Decimal(e["v"]))))
        except Exception:
            return self.V(mk("flt", e["v"]))

    def e_str(self, st, e):
        return self.V(mk("str", e.get("v", "")))

    def e_zero(self, st, e):
        return self.V(num(0))

    def e_sizeof(self, st, e):
        if "cv" in e:
            return self.V(num(int(e["cv"])))
        return self.V(mk("sizeof", self.F.types[e["at"]]))

    def e_typeid(self, st, e):
        return self.V(mk("typeid", self.F.types[e["at"]] if "at" in e else ""))

    def e_this(self, st, e):
        return self.V(self.addr(self.frames[-1].this))

    def e_ref(self, st, e):
        dk = e["dk"]
        if dk == "enum" or ("cv" in e and dk not in ("param",)):
            return self.V(num(int(e["cv"])))
        if dk == "func":
            return self.V(mk("fn", e.get("f") or e.get("n")))
        l = self.lookup(e)
        if l is not None:
            return self.L(l)
        if dk in ("global", "slocal"):
            return self.L(mk("glob", e.get("q") or e["n"]))
        # captured variable or structured binding without a known frame
        return self.L(mk("glob", "?" + e["n"]))

    def e_mem(self, st, e):
        b = e["b"]
        if b["k"] == "this":
            return self.L(lift(lambda x: mk("field", x, e["n"]), self.frames[-1].this))
        if e.get("arrow"):
            bl = self.deref(self.ev(st, b))
        else:
            bl = self.lv(st, b)
        return self.L(rebuild("field", (bl, e["n"])))

    def e_memfn(self, st, e):
        return self.V(mk("fn", e.get("f") or e.get("n")))

    def arith(self, st, op, a, b, ta, tb, tr):
        ii = self.isint(ta) and self.isint(tb)
        if op == "+":
            return X.add(a, b)
        if op == "-":
            return X.sub(a, b)
        if op == "*":
            return X.mul(a, b)
        if op == "/":
            return X.idiv(a, b) if ii else X.fdiv(a, b)
        if op == "%":
            return X.imod(a, b)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            un = ii and (strip(ta) in UNS or strip(tb) in UNS)
            isint = ii or self.kind(ta) == "ptr" or "iterator" in ta
            if op == "==":
                return X.eq(a, b)
            if op == "!=":
                return NOT(X.eq(a, b))
            if op == "<":
                return X.lt(a, b, isint, un)
            if op == ">":
                return X.lt(b, a, isint, un)
            if op == "<=":
                return NOT(X.lt(b, a, isint, un))
            return NOT(X.lt(a, b, isint, un))
        if op == "<<":
            def f(x, y):
                if y.op == "num" and 0 <= y.args[0] < 64:
                    return X._mul(x, num(2 ** int(y.args[0])))
                if x is X.ONE:
                    return mk("pow2", y)
                return X._mul(x, mk("pow2", y))
            return lift(f, a, b)
        if op == ">>":
            def f(x, y):
                if y.op == "num" and 0 <= y.args[0] < 64:
                    return X.idiv(x, num(2 ** int(y.args[0])))
                return X.idiv(x, mk("pow2", y))
            return lift(f, a, b)
        if op in ("&", "|", "^"):
            def f(x, y):
                if x.op == "num" and y.op == "num" and x.args[0].denominator == 1 and x.args[0] >= 0 and y.args[0] >= 0:
                    p, q = int(x.args[0]), int(y.args[0])
                    return num(p & q if op == "&" else p | q if op == "|" else p ^ q)
                fs = []
                for z in (x, y):
                    if z.op == "bit" + op:
                        fs.extend(z.args)
                    else:
                        fs.append(z)
                fs.sort(key=lambda z: z.key)
                return mk("bit" + op, *fs)
            if self.isboolish(ta) and self.isboolish(tb):
                A, B = X.tobool(a), X.tobool(b)
                if op == "&":
                    return AND(A, B)
                if op == "|":
                    return OR(A, B)
                return ite(A, NOT(B), B)
            return lift(f, a, b)
        raise Unsupported("operator " + op)

    def isboolish(self, t):
        return strip(t) == "bool"

    def e_bin(self, st, e):
        op = e["op"]
        if "cv" in e:
            return self.V(num(int(e["cv"])))
        if op in ("&&", "||"):
            a = self.cond(st, e["a"])
            c = a if op == "&&" else NOT(a)
            if c is X.FALSE:
                return self.V(a)
            pc0, n0 = st.pc, len(self.lines)
            st2 = st.copy()
            st2.pc = AND(st.pc, c)
            b = self.cond(st2, e["b"])
            other = st.copy()
            other.pc = AND(pc0, NOT(c))
            self.merge(st, c, st2, other)
            st.pc = pc0 if st2.pc is not X.FALSE else other.pc
            return self.V(AND(a, b) if op == "&&" else OR(a, b))
        if op == ",":
            self.any(st, e["a"])
            return self.any(st, e["b"])
        a = self.ev(st, e["a"])
        b = self.ev(st, e["b"])
        return self.V(self.arith(st, op, a, b, self.ty(e["a"]), self.ty(e["b"]), self.ty(e)))

    def conv(self, v, tdst, tsrc):
        """implicit conversion on assignment"""
        if self.isint(tdst) and strip(tsrc) in FLTS:
            if strip(tdst) == "bool":
                return X.tobool(v)
            return lift(lambda x: x if x.op == "num" and x.args[0].denominator == 1 else
                        num(int(x.args[0])) if x.op == "num" else x if x in self.intvals else mk("trunc", x), v)
        if strip(tdst) == "bool" and strip(tsrc) != "bool":
            return X.tobool(v)
        return v

    def e_asg(self, st, e):
        op = e["op"]
        b = self.ev(st, e["b"])
        l = self.lv(st, e["a"])
        ta = self.ty(e["a"])
        if op == "=":
            b = self.conv(b, ta, self.ty(e["b"]))
            self.store(st, l, b, e)
            return self.L(l)
        old = self.read(st, l, ta)
        v = self.arith(st, op[:-1], old, b, ta, self.ty(e["b"]), ta)
        if self.isint(ta) and strip(self.ty(e["b"])) in FLTS:
            v = self.conv(v, ta, "double")
        self.store(st, l, v, e)
        return self.L(l)

    def e_inc(self, st, e):
        l = self.lv(st, e["a"])
        old = self.read(st, l, self.ty(e["a"]))
        v = X.add(old, num(1 if e["op"] == "++" else -1))
        self.store(st, l, v, e)
        return self.V(old) if e.get("post") else self.L(l)

    def e_un(self, st, e):
        op = e["op"]
        if "cv" in e and op != "*":
            return self.V(num(int(e["cv"])))
        if op == "*":
            return self.L(self.deref(self.ev(st, e["a"])))
        if op == "&":
            if e["a"]["k"] in ("memfn",) or (e["a"]["k"] == "ref" and e["a"].get("dk") == "func"):
                return self.any(st, e["a"])
            return self.V(self.addr(self.lv(st, e["a"])))
        a = self.ev(st, e["a"])
        if op == "!":
            return self.V(NOT(X.tobool(a)))
        if op == "-":
            return self.V(X.neg(a))
        if op in ("+", "__extension__"):
            return self.V(a)
        if op == "__real":
            return self.V(rebuild("call", ("real", a)))
        if op == "__imag":
            return self.V(rebuild("call", ("imag", a)))
        if op == "~":
            return self.V(rebuild("bitnot", (a,)))
        raise Unsupported("unary " + op)

    def e_sub(self, st, e):
        bt = strip(self.ty(e["b"]))
        i = self.ev(st, e["i"])
        if bt.endswith("]"):
            b = self.base(self.lv(st, e["b"]))
        else:
            b = self.ev(st, e["b"])
            if bt.endswith("*"):
                pass
            elif strip(self.ty(e["i"])).endswith("*"):
                b, i = i, b
        return self.L(X.at_loc(b, i))

    def is_assert(self, e):
        if e.get("k") != "cond":
            return False
        for x in FX.walk(e["b"]):
            if x.get("k") == "call" and x.get("n") == "__assert_fail":
                return True
        return False

    def e_cond(self, st, e):
        if self.is_assert(e):
            if self.asserts and self.asserts(self.frames[-1].fn):
                s1 = st.copy()
                n0 = len(self.lines)
                self.lbase.append(n0)
                c = self.cond(s1, e["c"])
                self.lbase.pop()
                del self.lines[n0:]
                self.emit(st, "assert", (), (), e, NOT(c))
            return self.V(mk("none"))
        c = self.cond(st, e["c"])
        if c is X.TRUE:
            return self.any(st, e["a"])
        if c is X.FALSE:
            return self.any(st, e["b"])
        pc0 = st.pc
        s1, s2 = st.copy(), st.copy()
        s1.pc = AND(pc0, c)
        s2.pc = AND(pc0, NOT(c))
        a = self.any(s1, e["a"])
        b = self.any(s2, e["b"])
        if a[0] != b[0]:
            ra = a[1] if a[0] == "v" else self.read(s1, a[1], self.ty(e["a"]))
            rb = b[1] if b[0] == "v" else self.read(s2, b[1], self.ty(e["b"]))
            a, b = ("v", ra), ("v", rb)
        self.merge(st, c, s1, s2)
        if a[0] == "v" and strip(self.ty(e)) in FLTS:
            for arm, w in ((e["a"], a[1]), (e["b"], b[1])):
                if self.isint(self.ty(arm)):
                    self.intvals.update(X.leaves(w))      # an integer whatever type it takes
        if a[0] == "v":
            return self.V(self.selmin(ite(c, a[1], b[1])))
        return self.L(ite(c, a[1], b[1]))

    def selmin(self, v):
        if v.op == "ite" and v.args[0].op == "lt":
            x, y = v.args[0].args
            h, l = v.args[1], v.args[2]
            if h.op != "ite" and l.op != "ite" and not (h.op == "num" and l.op == "num"):
                if h is x and l is y:
                    return mk("min", *sorted((x, y), key=lambda t: t.key))
                if h is y and l is x:
                    return mk("max", *sorted((x, y), key=lambda t: t.key))
                d = X.sub(h, x)
                if d.op == "num" and d is X.sub(l, y):
                    return X.add(mk("min", *sorted((x, y), key=lambda t: t.key)), d)
                d = X.sub(h, y)
                if d.op == "num" and d is X.sub(l, x):
                    return X.add(mk("max", *sorted((x, y), key=lambda t: t.key)), d)
        return v

    def e_cast(self, st, e):
        if "cv" in e:
            return self.V(num(int(e["cv"])))
        t = self.ty(e)
        if strip(t) == "void":
            self.any(st, e["e"])
            return self.V(mk("none"))
        src = self.ty(e["e"])
        r = self.any(st, e["e"])
        if r[0] == "l" and self.kind(t) in ("cls",) or t.endswith("&"):
            return r
        v = r[1] if r[0] == "v" else self.base(r[1]) if src.endswith("]") else self.read(st, r[1], src)
        if strip(t) == "bool" and strip(src) != "bool":
            return self.V(X.tobool(v))
        if e.get("cc") in ("CXXDynamicCastExpr",):
            return self.V(self.typed(rebuild("dyncast", (strip(t), v)), t))
        v = self.conv(v, t, src)
        return self.V(self.typed(v, t))

    def e_ilist(self, st, e):
        vs = [self.ev(st, a) for a in e["a"]]
        if len(vs) == 1 and self.kind(self.ty(e)) in ("scalar", "ptr"):
            return self.V(vs[0])
        return self.V(rebuild("ilist", tuple(vs)))

    def e_plist(self, st, e):
        vs = [self.ev(st, a) for a in e["a"]]
        return self.V(vs[0] if len(vs) == 1 else rebuild("ilist", tuple(vs)))

    def e_stmtexpr(self, st, e):
        b = e["b"]
        body = b["b"] if isinstance(b.get("b"), list) else [b]
        for x in body[:-1]:
            self.ex(st, x)
        if not body:
            return self.V(mk("none"))
        if body[-1].get("k") == "expr":
            return self.any(st, body[-1]["e"])
        self.ex(st, body[-1])
        return self.V(mk("none"))

    def e_other(self, st, e):
        if "cv" in e:
            return self.V(num(int(e["cv"])))
        if e.get("cc") in ("ExprWithCleanups", "SubstNonTypeTemplateParmExpr", "ConstantExpr", "CXXBindTemporaryExpr",
                           "MaterializeTemporaryExpr") and len(e["a"]) == 1:
            return self.any(st, e["a"][0])
        if e.get("cc") == "CXXStdInitializerListExpr" and len(e["a"]) == 1:
            return self.any(st, e["a"][0])
        if e.get("cc") == "RecoveryExpr":
            raise Unsupported("unresolved expression")
        if e.get("cc") != "SourceLocExpr":
            raise Unsupported("expression " + e.get("cc", ""))
        vs = [self.ev(st, a) for a in e.get("a", [])]
        return self.V(rebuild("other:" + e.get("cc", ""), tuple(vs)))

    def e_throw(self, st, e):
        if "e" in e:
            t = strip(self.F.types[e["et"]]) if "et" in e else ""
            # evaluated for effects only; the message is not part of the contract
            n0 = len(self.lines)
            s2 = st.copy()
            self.lbase.append(n0)
            try:
                self.any(s2, e["e"])
            except Unsupported:
                pass
            self.lbase.pop()
            del self.lines[n0:]
        else:
            t = "rethrow"
        self.do_throw(st, t, e)
        return self.V(mk("none"))

    def do_throw(self, st, t, e):
        pre = tuple(sorted("/".join(c) for c in st.ver if c[0] in ("t", "p", "g")))
        pay = (mk("str", t),)
        if getattr(self, "intry", 0):
            pay += (mk("str", "in a try block"),)
        self.emit(st, "throw", pay, pre, e)
        st.thrown = OR(st.thrown, st.pc)
        st.pc = X.FALSE

    def e_new(self, st, e):
        args = []
        if "sz" in e:
            args.append(self.ev(st, e["sz"]))
        at = self.F.types[e["at"]]
        o = self.newobj(at + ("[]" if e.get("arr") else ""), "new")
        ini = e.get("init")
        if ini is not None:
            if ini["k"] == "ctor":
                vals = self.args(st, ini)[0]
                args += vals
            else:
                args.append(self.ev(st, ini))
        self.emit(st, "new", [o, mk("str", at)] + args, 0, e)
        return self.V(mk("addr", o) if not e.get("arr") else mk("base", o))

    def e_del(self, st, e):
        p = self.ev(st, e["e"])
        n = st.callc.get(("del", p.key), 0)
        st.callc[("del", p.key)] = n + 1
        nz = lift(lambda x: X.FALSE if x is num(0) else X.TRUE if x.op in ("addr", "base") or x.op == "rd" and False else NOT(X.eq(x, num(0))), p)
        self.emit(st, "delete", [p], (n,), e, nz)
        self.bump(st, mk("glob", "heap"))
        return self.V(mk("none"))

    def e_lambda(self, st, e):
        # canonical content: the lambda's own lines with symbolic parameters
        fr = Frame()
        self.uid += 1
        fr.fn = {"q": "lambda", "file": self.frames[-1].fn["file"], "fk": e.get("fk", "lam"), "lambda_frame": True}
        fr.uid, fr.bind, fr.this, fr.rets, fr.retref, fr.loops, fr.top = self.uid, {}, self.frames[-1].this, [], False, [], False
        depth = getattr(self, "lamdepth", 0)
        for i, p in enumerate(e.get("params", [])):
            fr.bind[p["id"]] = mk("lp", depth, i)
        n0 = len(self.lines)
        s2 = st.copy()
        s2.pc = X.TRUE
        parts = []
        self.frames.append(fr)
        self.lamdepth = depth + 1
        self.lbase.append(n0)
        try:
            if e.get("body"):
                self.ex(s2, e["body"])
                for pc, v, _ in fr.rets:
                    parts.append(mk("lret", pc, v))
        finally:
            self.frames.pop()
            self.lamdepth = depth
            self.lbase.pop()
        for ln in self.lines[n0:]:
            if ln.kind == "dead":
                continue
            parts.append(mk("ll", tuple(ln.loops), ln.guard, ln.kind, ln.pay))
        del self.lines[n0:]
        parts.sort(key=lambda t: t.key)
        lam = mk("lam", *parts)
        self.lams[lam] = (e, list(self.frames))
        return self.V(lam)

    # ------------------------------------------------------------ calls
    def args(self, st, e, params=None):
        """evaluate the arguments of a call: (values for the record, [(code, loc or value, type)])"""
        vals, acts = [], []
        pm = e.get("pm") or []
        for i, a in enumerate(e.get("a", [])):
            if a is None:
                continue
            code = pm[i] if i < len(pm) else 0
            t = self.ty(a)
            if a.get("k") == "ctor" and a.get("tmp") and a.get("n") == "allocator":
                continue
            if code == 2:
                l = self.lv(st, a)
                vals.append(self.addr(l) if not (l.op == "tmp") else l.args[0])
                acts.append((code, l, t))
            elif code == 1 and self.kind(t) == "cls":
                r = self.any(st, a)
                if r[0] == "l":
                    vals.append(self.read(st, r[1], t))
                    acts.append((code, r[1], t))
                else:
                    vals.append(r[1])
                    acts.append((code, self.tmp(r[1]), t))
            else:
                v = self.ev(st, a)
                vals.append(v)
                acts.append((code, v, t))
        return vals, acts

    def e_ctor(self, st, e):
        c = e.get("cls", "")
        a = e.get("a", [])
        if e.get("tmp") and len(a) == 0:
            pass
        if c.startswith("std::complex<"):
            vs = [self.ev(st, x) for x in a]
            return self.V(self.complex(vs))
        if c.startswith("std::basic_string<"):
            vs = [self.ev(st, x) for x in a if x and x.get("n") != "allocator"]
            if not vs:
                return self.V(mk("str", ""))
            if len(vs) == 1:
                return self.V(vs[0])
            if len(vs) == 2 and vs[0] is X.ONE:
                return self.V(self.ch(vs[1], a[1]))
            return self.V(rebuild("call", ("string",) + tuple(vs)))
        if c.startswith("__gnu_cxx::__normal_iterator<") and len(a) == 1:
            return self.V(self.ev(st, a[0]))
        if c.startswith("std::pair<") and len(a) == 2:
            vs = [self.ev(st, x) for x in a]
            return self.V(rebuild("pair", tuple(vs)))
        fn = self.F.fns.get(e.get("fk"))
        vals, acts = self.args(st, e)
        v = rebuild("call", ("ctor " + c,) + tuple(vals))
        for code, l, t in acts:
            if code == 2:
                self.bump(st, l)
        return self.V(v)

    def complex(self, vs):
        vs = [v for v in vs]
        if not vs:
            return num(0)
        if len(vs) == 1:
            return vs[0]
        return X.add(vs[0], X.mul(vs[1], mk("I")))

    def pure_ext(self, e):
        n = e.get("n", "")
        f = e.get("f", "")
        if n in MATH or n.startswith("__builtin_") and n not in ("__builtin_memset", "__builtin_memcpy"):
            return True
        if e.get("const"):
            return True
        if e.get("cls"):
            return bool(e.get("static"))
        pm = e.get("pm") or []
        if any(p in (2, 4) for p in pm):
            return False
        if f in ("std::srand", "std::remove", "std::rename", "std::system", "std::signal", "std::setlocale", "std::atexit",
                 "std::set_terminate", "std::perror", "std::set_new_handler"):
            return False
        return f.startswith("std::") or f.startswith("boost::") or f.startswith("PsimagLite::") or e.get("opc")

    def pure(self, e, fn):
        """no effect but its result"""
        pm = e.get("pm") or []
        if any(p in (2, 4) for p in pm):
            return False
        if fn is None:
            return self.pure_ext(e)
        if fn.get("cls") and not fn.get("const") and not fn.get("static") and not fn.get("ctor"):
            return False
        return not self.has_effects(fn)

    def has_effects(self, fn, depth=0):
        k = fn["fk"]
        c = self.effcache.get(k)
        if c is not None:
            return c
        self.effcache[k] = False
        r = False
        for x in FX.walk(fn.get("body")):
            kk = x.get("k")
            if kk == "call":
                g = self.F.fns.get(x.get("fk"))
                o = x.get("o")
                while isinstance(o, dict) and o.get("k") in ("mem", "sub"):
                    o = o.get("b")
                if g is not None and g.get("cls") and not g.get("const") and not g.get("static") \
                        and isinstance(o, dict) and o.get("k") == "ref" and o.get("dk") in ("global", "slocal"):
                    r = True
                elif g is not None:
                    if not g.get("cls") or g.get("const") or g.get("static"):
                        if self.has_effects(g, depth + 1):
                            r = True
                elif x.get("f") and not x.get("cls") and not self.pure_ext(x):
                    n = x.get("n", "")
                    if n not in ("__assert_fail", "swap", "operator<<", "operator>>", "sort", "reverse", "fill", "copy", "operator+=", "operator-=", "operator*="):
                        r = True
            elif kk in ("asg", "inc"):
                b = x["a"]
                while isinstance(b, dict) and b.get("k") in ("mem", "sub"):
                    b = b["b"]
                if b.get("k") == "ref" and b.get("dk") in ("global", "slocal"):
                    r = True
                if b.get("k") == "this" and fn.get("const"):
                    r = True
            if r:
                break
        self.effcache[k] = r
        return r

    def fname(self, e):
        f = e.get("f") or e.get("n") or "?"
        if f in ("std::abs", "fabs", "abs", "std::fabs"):
            return "abs"
        if f.startswith("std::") and "<" not in f and f.count("::") == 1:
            return f[5:]
        return f

    def e_call(self, st, e):
        n = e.get("n", "")
        if n == "__assert_fail":
            return self.V(mk("none"))
        if "fe" in e:
            return self.call_value(st, e)
        if e.get("cls") or "o" in e:
            r = self.model_member(st, e)
        else:
            r = self.model_free(st, e)
        if r is not None:
            return r
        fn = self.F.fns.get(e.get("fk"))
        if fn is not None and fn.get("lambda"):
            r = self.try_lambda(st, e)
            if r is not None:
                return r
        if e.get("nr") or n == "err" and e.get("f") == "PsimagLite::err":
            self.do_throw(st, "std::runtime_error" if n == "err" else "noreturn " + n, e)
            return self.V(mk("none"))
        if n in ("ttos", "typeToString") and len(e.get("a", [])) == 1:
            a = self.ev(st, e["a"][0])
            return self.V(mk("call", "typeToString", a))
        if fn is not None and not fn.get("broken") and fn.get("body") and fn["fk"] not in self.stack \
                and len(self.stack) < 14 and not fn.get("virt_dispatch") and self.policy(fn) \
                and not (fn.get("virt") and e.get("m") and not e.get("qual")):
            return self.inline(st, e, fn)
        if fn is not None:
            self.left.add(fn["fk"])
        return self.opaque(st, e, fn)

    def call_value(self, st, e):
        f = self.ev(st, e["fe"])
        lam = self.lams.get(f)
        if lam is not None:
            return self.inline_lambda(st, e, lam)
        vals, acts = self.args(st, e)
        n = st.callc.get(f.key, 0)
        st.callc[f.key] = n + 1
        self.emit(st, "call", [mk("str", "*"), f] + vals, (n,), e)
        self.mutate_args(st, acts, f)
        return self.V(self.typed(rebuild("res", ("*", f, n) + tuple(vals)), self.ty(e)))

    def try_lambda(self, st, e):
        f = self.ev(st, e["o"])
        lam = self.lams.get(f)
        if lam is None:
            return None
        return self.inline_lambda(st, e, lam)

    def inline_lambda(self, st, e, lam):
        le, frames = lam
        fn = {"q": "lambda", "file": self.frames[-1].fn["file"], "fk": le.get("fk", "lam"), "params": le.get("params", []),
              "body": le.get("body"), "lambda_frame": True, "ret": e.get("t")}
        if fn["fk"] in self.stack:
            raise Unsupported("recursive lambda")
        saved = self.frames
        # parameters are evaluated in the caller, the body in the defining frame
        return self.inline(st, e, fn, this=frames[-1].this, deff=frames)

    def inline(self, st, e, fn, this=None, deff=None):
        fr = Frame()
        self.uid += 1
        fr.fn, fr.uid, fr.bind, fr.rets, fr.loops, fr.top = fn, self.uid, {}, [], [], False
        rt = self.F.types[fn["ret"]] if isinstance(fn.get("ret"), int) and fn["ret"] >= 0 else ""
        fr.retref = rt.endswith("&")
        if this is not None:
            fr.this = this
        elif "o" in e:
            if e.get("arrow") and e["o"]["k"] != "this":
                fr.this = self.deref(self.ev(st, e["o"]))
            elif e["o"]["k"] == "this":
                fr.this = self.frames[-1].this
            else:
                l = self.lv(st, e["o"])
                if strip(self.ty(e["o"])).endswith("*"):
                    l = self.deref(self.read(st, l, self.ty(e["o"])))
                fr.this = l
        else:
            fr.this = mk("this")
        self.bind_params(st, fr, fn, e)
        if deff is not None:
            self.frames_saved = None
        frames0 = self.frames
        self.frames = (list(deff) if deff is not None else self.frames) + [fr]
        self.stack.append(fn["fk"])
        pc0 = st.pc
        try:
            self.ex(st, fn["body"])
        finally:
            self.stack.pop()
            self.frames = frames0
        return self.finish_inline(st, fr, e, rt, pc0)

    def finish_inline(self, st, fr, e, rt, pc0):
        val = None
        end_pc = st.pc
        for pc, v, s in reversed(fr.rets):
            if v is not None:
                val = v if val is None else ite(pc, v, val)
        for pc, v, s in fr.rets:
            if st.pc is X.FALSE:
                thrown = st.thrown
                st.assign(s.copy())
                st.thrown = thrown
                st.pc = pc
            else:
                p = OR(st.pc, pc)
                other = st.copy()
                s2 = s.copy()
                s2.thrown = X.FALSE
                self.merge(st, pc, s2, other)
                st.pc = p
        if st.pc is not X.FALSE:
            st.pc = OR(st.pc, st.thrown) if st.thrown is not X.FALSE else st.pc
            st.thrown = X.FALSE
        if val is None:
            return self.V(mk("none"))
        if fr.retref:
            return self.L(val)
        return self.V(self.selmin(val))

    def bind_params(self, st, fr, fn, e):
        al = [a for a in e.get("a", [])]
        for i, p in enumerate(fn.get("params", [])):
            t = self.ty(p)
            a = al[i] if i < len(al) else None
            if a is None:
                raise Unsupported("missing argument")
            at = self.ty(a)
            if t.endswith("&"):
                fr.bind[p["id"]] = self.lv(st, a)
            elif self.kind(t) == "cls":
                v = self.ev(st, a)
                if self.lams.get(v) is not None or not self.mutated(fn, p["id"]):
                    fr.bind[p["id"]] = self.tmp(v)
                else:
                    o = self.newobj(strip(t), p["n"])
                    fr.bind[p["id"]] = o
                    self.emit(st, "init", [o, v], 0, a)
            else:
                v = self.conv(self.ev(st, a), t, at)
                l = mk("var", fr.uid, p["id"], p["n"])
                st.env[l] = self.typed(v, t)
                fr.bind[p["id"]] = l

    def opaque(self, st, e, fn):
        name = self.fname(e)
        mut = False
        objv, objl = None, None
        static = e.get("static")
        if "o" in e and not static:
            o = e["o"]
            if o["k"] == "this":
                objl = self.frames[-1].this
            elif strip(self.ty(o)).endswith("*") and e.get("arrow"):
                objl = self.deref(self.ev(st, o))
            else:
                objl = self.lv(st, o)
            mut = not e.get("const")
        vals, acts = self.args(st, e)
        rt = self.ty(e)
        pure = self.pure(e, fn) and strip(rt) != "void"
        t0 = strip(rt)
        head = []
        if objl is not None:
            if objl.op == "tmp":
                head = [objl.args[0]]
            elif mut and objl.op != "var":
                head = [self.addr(objl)]
            else:
                head = [self.read(st, objl)]
        if name.endswith("::operator=") and len(vals) == 1 and objl is not None:
            for c, l in X.split(objl):
                if l.op == "var":
                    old = st.env.get(l)
                    st.env[l] = vals[0] if old is None else ite(c, vals[0], old)
                    continue
                k = self.cls(l)
                self.emit(st, "asg", [l, vals[0]], (self.opqver(st, k),), e, c)
                self.bump(st, l)
                if c is X.TRUE and vals[0].op in ("pair",):
                    st.mem[l] = vals[0]
            return self.L(objl)
        if pure:
            call = rebuild("call", (name,) + tuple(head) + tuple(vals))
            if e.get("t") is not None and rt.endswith("&") and False:
                pass
            return self.V(self.typed(call, rt))
        # an effect
        seq = []
        if objl is not None and mut:
            for l in X.leaves(objl):
                if l.op not in ("var", "tmp"):
                    seq.append(self.opqver(st, self.cls(l)))
        if objl is None and not any(c in (2, 4) for c, _, _ in acts):
            k = ("ext",)
            n = st.opq.get(k, 0)
            st.opq[k] = n + 1
            seq.append(n)
        # values of mutable arguments at the call
        full = []

        def byref(x):
            if x.op == "addr" and x.args[0].op == "var":
                v = st.env.get(x.args[0])
                return mk("byref", mk("num", 0) if v is None else (v if v.op != "uninit" else mk("uninit", "")))
            return x
        for (c, l, t), v in zip(acts, vals):
            if c == 2 and l.op == "var":
                v = st.env.get(l, v)
                full.append(v if v.op != "uninit" else mk("uninit", ""))
            elif v.op == "addr":
                full.append(lift(byref, v))
            else:
                full.append(v)
        if full and FORTRAN.match(name) and full[-1].op == "byref":
            full[-1] = mk("byref", mk("uninit", ""))     # INFO is only written
        ck = ("call", name) + tuple(x.key for x in head + full)
        n = st.callc.get(ck, 0)
        st.callc[ck] = n + 1
        for c, l, t in acts:
            if c == 2:
                for x in X.leaves(l):
                    if x.op not in ("var", "tmp"):
                        seq.append(self.opqver(st, self.cls(x)))
        self.emit(st, "call", [mk("str", name)] + head + full, tuple(seq), e)
        res = rebuild("res", (name, n) + tuple(head) + tuple(full))
        if objl is not None and mut:
            for c, l in X.split(objl):
                if l.op == "var":
                    st.env[l] = ite(c, rebuild("mut", (name, n) + tuple(head) + tuple(full)), st.env.get(l, head[0]))
                else:
                    self.bump(st, l)
        self.mutate_args(st, acts, res)
        if rt.endswith("&") and self.kind(rt) == "cls" or rt.endswith("&") and mut:
            return self.L(lift(lambda x: mk("refof", x), res))
        return self.V(self.typed(res, rt))

    def mutate_args(self, st, acts, res):
        fortran = FORTRAN.match(str(res.args[0])) if res.op == "res" else None
        for i, (c, l, t) in enumerate(acts):
            if fortran and i + 1 != len(acts) and l.op == "addr" and l.args[0].op == "var":
                continue        # scalar operands of a Fortran routine are inputs, only INFO is written
            if c == 2:
                for g, x in X.split(l):
                    if x.op == "var":
                        st.env[x] = ite(g, self.typed(rebuild("out", (i, res)), t), st.env.get(x, mk("uninit", x.args[-1])))
                    elif x.op != "tmp":
                        self.bump(st, x)
            elif c == 4:
                for p in X.leaves(l):
                    if p.op == "addr" and p.args[0].op == "var":
                        st.env[p.args[0]] = rebuild("out", (i, res))
                    elif p.op not in ("num", "fn", "lam"):
                        self.bump(st, self.deref(p))

    # ---- models of library members
    def model_member(self, st, e):
        c = e.get("cls", "")
        n = e.get("n", "")
        if c.startswith("std::vector<") or c.startswith("std::array<"):
            return self.m_vector(st, e, c, n)
        if c.startswith("__gnu_cxx::__normal_iterator<") or c.startswith("std::_Bit_iterator"):
            return self.m_iter(st, e, n)
        if c.startswith("std::complex<"):
            return self.m_complex(st, e, n)
        if c.startswith("std::basic_string<"):
            return self.m_string(st, e, n)
        if c.startswith("std::_Bit_reference"):
            l = self.lv(st, e["o"])
            if n == "operator=":
                self.store(st, l, self.ev(st, e["a"][0]), e)
                return self.L(l)
            if n == "operator bool":
                return self.V(self.read(st, l, "bool"))
            return None
        if c.startswith("std::basic_ostream<") or c.startswith("std::basic_ios<") or c.startswith("std::ios_base"):
            return self.m_stream(st, e, n)
        if c.startswith("std::map<") and n in ("operator[]", "at"):
            l = self.lv(st, e["o"])
            k = self.ev(st, e["a"][0])
            return self.L(rebuild("key", (l, k)))
        if c.startswith("std::pair<") and n == "operator=":
            l = self.lv(st, e["o"])
            v = self.ev(st, e["a"][0])
            for nm, ix in (("first", 0), ("second", 1)):
                fv = v.args[ix] if v.op == "pair" else self.read(st, mk("field", mk("tmp", v), nm))
                self.store(st, rebuild("field", (l, nm)), fv, e)
            return self.L(l)
        if (c.startswith("std::shared_ptr<") or c.startswith("std::unique_ptr<") or c.startswith("std::__shared_ptr")):
            if n in ("operator->", "get"):
                return self.V(rebuild("ptr", (self.ev(st, e["o"]),)))
            if n == "operator*":
                return self.L(self.deref(rebuild("ptr", (self.ev(st, e["o"]),))))
        return None

    def sizeloc(self, l):
        return rebuild("field", (l, "#size"))

    def vsize(self, st, l):
        if l.op == "tmp":
            v = l.args[0]
            if v.op == "rd":
                return mk("rd", mk("field", v.args[0], "#size"), v.args[1])
            return mk("fieldv", v, "#size")
        return self.read(st, self.sizeloc(l))

    def objloc(self, st, e):
        o = e["o"]
        if o["k"] == "this":
            return self.frames[-1].this
        if e.get("arrow") and strip(self.ty(o)).endswith("*"):
            return self.deref(self.ev(st, o))
        return self.lv(st, o)

    def m_vector(self, st, e, c, n):
        a = [x for x in e.get("a", []) if x is not None and x.get("n") != "allocator"]
        if n in ("size", "length"):
            l = self.objloc(st, e)
            return self.V(lift(lambda x: self.vsize(st, x), l))
        if n == "empty":
            l = self.objloc(st, e)
            return self.V(X.eq(lift(lambda x: self.vsize(st, x), l), num(0)))
        if n in ("operator[]", "at"):
            l = self.objloc(st, e)
            i = self.ev(st, a[0])
            return self.L(X.at_loc(self.base(l), i))
        if n in ("begin", "cbegin", "data"):
            return self.V(self.base(self.objloc(st, e)))
        if n in ("end", "cend"):
            l = self.objloc(st, e)
            return self.V(X.add(self.base(l), lift(lambda x: self.vsize(st, x), l)))
        if n == "front":
            return self.L(X.at_loc(self.base(self.objloc(st, e)), num(0)))
        if n == "back":
            l = self.objloc(st, e)
            return self.L(X.at_loc(self.base(l), X.sub(lift(lambda x: self.vsize(st, x), l), num(1))))
        if n == "reserve":
            for x in a:
                self.ev(st, x)
            return self.V(mk("none"))
        if n in ("resize", "clear", "push_back", "emplace_back", "pop_back", "assign"):
            l = self.objloc(st, e)
            vals = [self.ev(st, x) for x in a]
            if n == "emplace_back" and not self.same_elem(e, a):
                vals = [mk("emplaced", *vals)]
            for g, x in X.split(l):
                if x.op in ("var", "tmp"):
                    return None
                k = self.cls(x)
                size = self.read(st, self.sizeloc(x))
                nm = {"emplace_back": "push_back"}.get(n, n)
                vv = vals
                if nm == "clear":
                    nm, vv = "resize", [num(0)]
                if nm == "resize" and len(vv) == 2 and vv[1] is X.ZERO:
                    vv = vv[:1]
                self.emit(st, "call", [mk("str", "vector." + nm), mk("addr", x)] + vv, (self.opqver(st, k),), e, g)
                self.bump(st, x)
                if g is X.TRUE:
                    if nm in ("resize", "assign") and vv:
                        st.mem[self.sizeloc(x)] = vv[0]
                    elif nm == "push_back":
                        st.mem[self.sizeloc(x)] = X.add(size, num(1))
                    elif nm == "pop_back":
                        st.mem[self.sizeloc(x)] = X.sub(size, num(1))
            return self.V(mk("none"))
        if n == "swap" and len(a) == 1:
            l1, l2 = self.objloc(st, e), self.lv(st, a[0])
            self.do_swap(st, l1, l2, e)
            return self.V(mk("none"))
        return None

    def same_elem(self, e, a):
        """emplace_back(x) with x of the element type: push_back(x)"""
        if len(a) != 1:
            return False

        def plain(x):
            t = re.sub(r"^const |\s*&+$|\s*const$", "", (self.F.ty(x) or "").strip())
            return t.strip()
        m = re.search(r"(?:vector|deque|list)<(.*)", plain(e.get("o") or {}))
        t = plain(a[0])
        if not m or not t:
            return False
        el = m.group(1)
        return el.startswith(t + ",") or el.startswith(t + ">") or bool(re.match(r"(double|float|int|unsigned|long|bool|char)\b[^<]*$", t))

    def do_swap(self, st, l1, l2, e):
        s = sorted((l1, l2), key=lambda t: t.key)
        self.emit(st, "swap", s, (sum(self.opqver(st, self.cls(l)) for l in s),), e)
        for l in s:
            self.bump(st, l)

    def m_iter(self, st, e, n):
        a = e.get("a", [])
        if n == "operator*":
            return self.L(self.deref(self.ev(st, e["o"])))
        if n == "operator->":
            return self.V(self.ev(st, e["o"]))
        if n in ("operator++", "operator--"):
            l = self.lv(st, e["o"])
            old = self.read(st, l)
            self.store(st, l, X.add(old, num(1 if n.endswith("++") else -1)), e)
            return self.V(old) if a else self.L(l)
        if n in ("operator+", "operator-"):
            return self.V((X.add if n[-1] == "+" else X.sub)(self.ev(st, e["o"]), self.ev(st, a[0])))
        if n in ("operator+=", "operator-="):
            l = self.lv(st, e["o"])
            v = self.ev(st, a[0])
            self.store(st, l, (X.add if n[8] == "+" else X.sub)(self.read(st, l), v), e)
            return self.L(l)
        if n == "operator[]":
            return self.L(X.at_loc(self.ev(st, e["o"]), self.ev(st, a[0])))
        if n == "operator=":
            l = self.lv(st, e["o"])
            self.store(st, l, self.ev(st, a[0]), e)
            return self.L(l)
        if n == "base":
            return self.V(self.ev(st, e["o"]))
        return None

    def m_complex(self, st, e, n):
        a = e.get("a", [])
        if n in ("real", "imag") and not a:
            return self.V(rebuild("call", (n, self.ev(st, e["o"]))))
        if n in ("operator=", "operator+=", "operator-=", "operator*=", "operator/="):
            v = self.ev(st, a[0])
            l = self.lv(st, e["o"])
            op = n[8:-1]
            if op:
                old = self.read(st, l)
                v = {"+": X.add, "-": X.sub, "*": X.mul, "/": X.fdiv}[op](old, v)
            self.store(st, l, v, e)
            return self.L(l)
        return None

    def cat(self, *vs):
        def f(*xs):
            out = []
            for x in xs:
                if x.op == "cat":
                    out.extend(x.args)
                else:
                    out.append(x)
            res = []
            for x in out:
                if x.op == "str" and res and res[-1].op == "str":
                    res[-1] = mk("str", res[-1].args[0] + x.args[0])
                elif x.op == "str" and x.args[0] == "":
                    continue
                else:
                    res.append(x)
            if not res:
                return mk("str", "")
            return res[0] if len(res) == 1 else mk("cat", *res)
        return lift(f, *vs)

    def m_string(self, st, e, n):
        a = [x for x in e.get("a", []) if x is not None and x.get("n") != "allocator"]
        if n in ("size", "length"):
            v = self.ev(st, e["o"])
            return self.V(lift(lambda x: num(len(x.args[0])) if x.op == "str" else mk("call", "strsize", x), v))
        if n == "empty":
            v = self.ev(st, e["o"])
            return self.V(X.eq(rebuild("call", ("strsize", v)), num(0)))
        if n in ("c_str", "data"):
            return self.V(self.ev(st, e["o"]))
        if n == "operator=":
            v = self.ev(st, a[0])
            l = self.lv(st, e["o"])
            self.store(st, l, v, e)
            return self.L(l)
        if n in ("operator+=", "append", "push_back") and len(a) == 1:
            v = self.ev(st, a[0])
            l = self.lv(st, e["o"])
            self.store(st, l, self.cat(self.read(st, l), self.ch(v, a[0])), e)
            return self.L(l)
        if n == "clear":
            self.store(st, self.lv(st, e["o"]), mk("str", ""), e)
            return self.V(mk("none"))
        if n == "assign" and len(a) == 1:
            l = self.lv(st, e["o"])
            self.store(st, l, self.ch(self.ev(st, a[0]), a[0]), e)
            return self.L(l)
        if n in ("operator[]", "at", "back", "front") and len(a) == (n in ("operator[]", "at")):
            l = self.lv(st, e["o"])
            if n == "back":
                i = X.sub(rebuild("call", ("strsize", self.read(st, l))), num(1))
            else:
                i = num(0) if n == "front" else self.ev(st, a[0])
            return self.L(X.at_loc(self.base(l), i))
        if n in ("begin", "cbegin"):
            return self.V(self.base(self.objloc(st, e)))
        if n in ("end", "cend"):
            l = self.objloc(st, e)
            return self.V(X.add(self.base(l), rebuild("call", ("strsize", self.read(st, l)))))
        if (n == "rfind" or n.startswith("find")) and a:
            vs = [self.ev(st, x) for x in [e["o"]] + a]
            vs[1] = self.ch(vs[1], a[0])
            return self.V(rebuild("call", (n,) + tuple(vs)))
        return None

    def ch(self, v, a):
        if strip(self.ty(a)) == "char":
            return lift(lambda x: mk("str", chr(int(x.args[0]))) if x.op == "num" and 0 < x.args[0] < 256 else mk("chr", x), v)
        return v

    def m_stream(self, st, e, n):
        a = e.get("a", [])
        if n == "operator<<":
            o = self.lv(st, e["o"])
            if a and a[0].get("k") == "ref" and a[0].get("dk") == "func":
                v = mk("str", "\n" if a[0].get("n") == "endl" else "<%s>" % a[0].get("n"))
            else:
                v = self.ev(st, a[0])
            self.out(st, o, v, e)
            return self.L(o)
        if n in ("operator bool", "operator!", "fail", "bad", "good", "eof") and "o" in e:
            o = self.lv(st, e["o"])
            b = atom(mk("B", mk("call", "good", self.read(st, o))))
            eof = atom(mk("B", mk("call", "eof", self.read(st, o))))
            if n in ("good", "eof"):
                return self.V(eof if n == "eof" else AND(b, NOT(eof)))
            if n == "bad":
                # a bad stream is not good
                return self.V(AND(NOT(b), atom(mk("B", mk("call", "bad", self.read(st, o))))))
            return self.V(b if n == "operator bool" else NOT(b))
        return None

    def out(self, st, o, v, e):
        for g, l in X.split(o):
            if l.op == "glob" and l.args[0] in ("std::cerr", "std::cout", "std::clog"):
                continue
            if l.op in ("tmp",):
                continue
            k = self.cls(l)
            self.emit(st, "out", [l, v], (self.opqver(st, k),), e, g)
            self.bump(st, l)

    # ---- models of free functions
    def model_free(self, st, e):
        f = e.get("f", "")
        n = e.get("n", "")
        a = [x for x in e.get("a", []) if x is not None]
        if e.get("opc") and f.startswith(("std::operator", "__gnu_cxx::operator")):
            return self.m_operator(st, e, n[8:], a)
        if f in ("std::real", "std::imag", "std::conj", "std::norm", "std::abs", "std::arg") or \
                (n in MATH and (f == n or f == "std::" + n)):
            if f in ("std::min", "std::max") and len(a) == 2:
                x, y = self.ev(st, a[0]), self.ev(st, a[1])

                def mm(p, q):
                    if p is q:
                        return p
                    if p.op == "num" and q.op == "num":
                        return num((min if n == "min" else max)(p.args[0], q.args[0]))
                    if uns and (p.op == "num" or q.op == "num"):
                        c, w = (p, q) if p.op == "num" else (q, p)
                        if c.args[0] == 0:
                            return w if n == "max" else c
                        if c.args[0] == 1 and w.op not in ("min", "max"):
                            # of the whole numbers from zero on, only zero is below one
                            return ite(X.eq0(w), c, w) if n == "max" else ite(X.eq0(w), num(0), c)
                    return mk(n, *sorted((p, q), key=lambda t: t.key))
                uns = strip(self.ty(a[0])) in UNS
                return self.V(lift(mm, x, y))
            vs = [self.ev(st, x) for x in a]
            isreal = a and (strip(self.ty(a[0])) in FLTS or self.isint(self.ty(a[0])))
            if n in ("real", "conj") and isreal and len(vs) == 1:
                return self.V(vs[0])
            if n == "imag" and isreal and len(vs) == 1:
                return self.V(num(0))
            if n == "norm" and isreal and len(vs) == 1:
                return self.V(X.mul(vs[0], vs[0]))
            nm = "abs" if n in ("fabs", "abs") else n
            if nm == "conj":
                def cj(x):
                    if x.op == "num":
                        return x
                    if x.op == "call" and x.args[0] == "conj":
                        return x.args[1]
                    return mk("call", "conj", x)
                return self.V(lift(cj, vs[0]))
            if nm == "pow" and len(vs) == 2 and vs[1].op == "num" and vs[1].args[0] in (2, 3):
                return self.V(X.mul(vs[0], vs[0]) if vs[1].args[0] == 2 else X.mul(vs[0], X.mul(vs[0], vs[0])))
            r = rebuild("call", (nm,) + tuple(vs))
            return self.V(self.typed(r, self.ty(e)))
        if f in ("std::move", "std::forward", "std::addressof", "std::as_const") and len(a) == 1:
            r = self.any(st, a[0])
            if f == "std::addressof":
                return self.V(self.addr(r[1]))
            return r
        if f == "std::make_pair" and len(a) == 2:
            return self.V(rebuild("pair", (self.ev(st, a[0]), self.ev(st, a[1]))))
        if f == "std::swap" and len(a) == 2:
            l1, l2 = self.lv(st, a[0]), self.lv(st, a[1])
            t = self.ty(a[0])
            if self.kind(t) == "cls" and l1.op != "var":
                self.do_swap(st, l1, l2, e)
            else:
                v1, v2 = self.read(st, l1, t), self.read(st, l2, t)
                self.store(st, l1, v2, e)
                self.store(st, l2, v1, e)
            return self.V(mk("none"))
        if f in ("std::begin", "std::end", "std::size") and len(a) == 1:
            l = self.lv(st, a[0])
            if strip(self.ty(a[0])).startswith("std::vector<"):
                sz = lift(lambda x: self.vsize(st, x), l)
                return self.V(self.base(l) if n == "begin" else X.add(self.base(l), sz) if n == "end" else sz)
            return None
        if f in ("std::next", "std::prev") and 1 <= len(a) <= 2 and "iterator" in self.ty(a[0]):
            d = self.ev(st, a[1]) if len(a) == 2 else num(1)
            return self.V((X.add if n == "next" else X.sub)(self.ev(st, a[0]), d))
        if f == "std::distance" and len(a) == 2 and "__normal_iterator" in self.ty(a[0]):
            return self.V(X.sub(self.ev(st, a[1]), self.ev(st, a[0])))
        if f == "std::fill" and len(a) == 3:
            b, en, v = self.ev(st, a[0]), self.ev(st, a[1]), self.ev(st, a[2])
            self.bulk(st, X.sub(en, b), lambda i: (X.at_loc(b, i), v), e)
            return self.V(mk("none"))
        if f == "std::fill_n" and len(a) == 3:
            b, cn, v = self.ev(st, a[0]), self.ev(st, a[1]), self.ev(st, a[2])
            self.bulk(st, cn, lambda i: (X.at_loc(b, i), v), e)
            return self.V(mk("none"))
        if f == "std::copy" and len(a) == 3 and "__normal_iterator" in self.ty(a[0]) and "__normal_iterator" in self.ty(a[2]):
            b, en, d = self.ev(st, a[0]), self.ev(st, a[1]), self.ev(st, a[2])
            self.bulk(st, X.sub(en, b), lambda i: (X.at_loc(d, i), self.read(st, X.at_loc(b, i))), e)
            return self.V(mk("none"))
        if f == "std::accumulate" and len(a) == 3:
            b, en, v = self.ev(st, a[0]), self.ev(st, a[1]), self.ev(st, a[2])
            i = mk("i", self.depth)
            el = self.read(st, X.at_loc(b, i))
            return self.V(X.add(v, self.mksum(mk("loop", X.sub(en, b), X.FALSE), el)))
        if f == "std::inner_product" and len(a) == 4:
            b, en, c, v = [self.ev(st, x) for x in a]
            i = mk("i", self.depth)
            el = X.mul(self.read(st, X.at_loc(b, i)), self.read(st, X.at_loc(c, i)))
            return self.V(X.add(v, self.mksum(mk("loop", X.sub(en, b), X.FALSE), el)))
        return None

    def bulk(self, st, count, gen, e):
        """a whole loop of stores"""
        i = mk("i", self.depth)
        l, v = gen(i)
        n0 = len(self.lines)
        pc = st.pc
        st.pc = X.TRUE
        self.bump(st, l, False)
        self.lbase.append(n0)
        self.store(st, l, v, e)
        self.lbase.pop()
        self.invalidate(st, self.cls(l))
        st.pc = pc
        d = mk("loop", count, X.FALSE)
        for ln in self.lines[n0:]:
            ln.loops.insert(0, d)
            ln.guard = AND(pc, ln.guard)

    def m_operator(self, st, e, op, a):
        t0 = strip(self.ty(a[0])) if a else ""
        if op == "<<" and len(a) == 2 and ("ostream" in t0 or "stringstream" in t0 or "ofstream" in t0 or "iostream" in t0):
            o = self.lv(st, a[0])
            v = self.ev(st, a[1])
            self.out(st, o, self.ch(v, a[1]), e)
            return self.L(o)
        t1 = strip(self.ty(a[1])) if len(a) > 1 else ""
        if len(a) == 2:
            cx = t0.startswith("std::complex<") or t1.startswith("std::complex<")
            it = "iterator" in t0
            sg = t0.startswith("std::basic_string<") or t1.startswith("std::basic_string<")
            if cx and op in ("+", "-", "*", "/", "==", "!="):
                x, y = self.ev(st, a[0]), self.ev(st, a[1])
                return self.V({"+": X.add, "-": X.sub, "*": X.mul, "/": X.fdiv, "==": X.eq,
                               "!=": lambda p, q: NOT(X.eq(p, q))}[op](x, y))
            if sg and op == "+":
                x, y = self.ev(st, a[0]), self.ev(st, a[1])
                return self.V(self.cat(self.ch(x, a[0]), self.ch(y, a[1])))
            if sg and op in ("==", "!="):
                x, y = self.ev(st, a[0]), self.ev(st, a[1])
                for p, q in ((x, y), (y, x)):
                    if p.op == "str" and p.args[0] == "":
                        b = X.eq(rebuild("call", ("strsize", q)), num(0))
                        return self.V(b if op == "==" else NOT(b))
                b = X.eq(x, y, False)
                return self.V(b if op == "==" else NOT(b))
            if it and ("__normal_iterator" in t0) and op in ("==", "!=", "<", ">", "<=", ">=", "-"):
                x, y = self.ev(st, a[0]), self.ev(st, a[1])
                return self.V(self.arith(st, op, x, y, "long", "long", ""))
            if it and op in ("==", "!="):
                x, y = self.ev(st, a[0]), self.ev(st, a[1])
                b = X.eq(x, y, False)
                return self.V(b if op == "==" else NOT(b))
            if op in ("==", "!=", "<", ">", "<=", ">=") and (op in ("==", "!=") or strip(self.ty(e)) == "bool"):
                x, y = self.ev(st, a[0]), self.ev(st, a[1])
                if op in ("==", "!="):
                    b = X.eq(x, y, False)
                    return self.V(b if op == "==" else NOT(b))
                if op in (">", "<="):
                    x, y = y, x
                b = lift(lambda p, q: atom(mk("ltv", p, q)), x, y)
                return self.V(b if op in ("<", ">") else NOT(b))
        if len(a) == 1 and t0.startswith("std::complex<"):
            x = self.ev(st, a[0])
            return self.V(X.neg(x) if op == "-" else x)
        return None

    # ------------------------------------------------------------ statements
    def mergeable(self, v):
        return v.op not in ("pair",)

    def unread(self, st, l):
        v = self.fieldval(st, l)
        return mk("rd", l, self.version(st, l)) if v is None else v

    def merge(self, st, c, a, b):
        """st := a where c else b  (pc handled by the caller afterwards)"""
        if a.pc is X.FALSE and b.pc is not X.FALSE:
            src = b
            env, mem = dict(b.env), dict(b.mem)
        elif b.pc is X.FALSE and a.pc is not X.FALSE:
            env, mem = dict(a.env), dict(a.mem)
        else:
            env = {}
            for k, v in a.env.items():
                w = b.env.get(k)
                env[k] = v if (w is None or w is v) else ite(c, v, w)
            for k, w in b.env.items():
                if k not in env:
                    env[k] = w
            mem = {}
            for k, v in a.mem.items():
                w = b.mem.get(k)
                if w is v:
                    mem[k] = v
                elif w is not None:
                    mem[k] = ite(c, v, w)
                elif self.mergeable(v):
                    mem[k] = ite(c, v, self.unread(b, k))
            for k, w in b.mem.items():
                if k not in a.mem and self.mergeable(w):
                    mem[k] = ite(c, self.unread(a, k), w)
        st.env, st.mem = env, mem
        if a.pc is X.FALSE and b.pc is not X.FALSE:
            st.ver, st.opq, st.stc, st.callc, st.verl = b.ver, b.opq, b.stc, b.callc, b.verl
        elif b.pc is X.FALSE and a.pc is not X.FALSE:
            st.ver, st.opq, st.stc, st.callc, st.verl = a.ver, a.opq, a.stc, a.callc, a.verl
        else:
            st.ver, st.opq = maxmerge(a.ver, b.ver), maxmerge(a.opq, b.opq)
            st.stc, st.callc = maxmerge(a.stc, b.stc), maxmerge(a.callc, b.callc)
            st.verl = minmerge(a.verl, b.verl)
        if a.summ is b.summ:
            st.summ = a.summ
        elif a.pc is X.FALSE:
            st.summ = b.summ
        elif b.pc is X.FALSE:
            st.summ = a.summ
        else:
            st.summ = {k: v for k, v in a.summ.items() if b.summ.get(k) == v}
        st.thrown = OR(a.thrown, b.thrown)
        st.pc = OR(a.pc, b.pc)
        if st.pc is not X.FALSE and st.thrown is not X.FALSE:
            st.pc = OR(st.pc, st.thrown)
            st.thrown = X.FALSE

    def ex(self, st, s):
        if s is None or st.pc is X.FALSE:
            return
        self.tick()
        m = getattr(self, "s_" + s["k"], None)
        if m is None:
            raise Unsupported("statement " + s["k"])
        m(st, s)

    def s_nop(self, st, s):
        pass

    def s_seq(self, st, s):
        for x in s["b"]:
            self.ex(st, x)

    def s_expr(self, st, s):
        e = s["e"]
        r = self.any(st, e)
        # a call whose result is dropped is still a statement of the program
        if r[0] == "v" and e["k"] == "call" and r[1].op == "call" and not e.get("opc"):
            fn = self.F.fns.get(e.get("fk"))
            if fn is None or self.may_throw(fn):
                self.emit(st, "call", [mk("str", "drop"), r[1]], (), e)

    def may_throw(self, fn):
        for x in FX.walk(fn.get("body")):
            if x.get("k") == "throw" or (x.get("k") == "call" and (x.get("nr") or x.get("n") == "err")):
                return True
        return False

    def s_label(self, st, s):
        raise Unsupported("label")

    def s_sother(self, st, s):
        raise Unsupported("statement " + s.get("cc", ""))

    def s_omp(self, st, s):
        n = st.callc.get("omp", 0)
        st.callc["omp"] = n + 1
        self.emit(st, "call", [mk("str", "#pragma omp " + s["d"])], (n,), s)
        if s.get("b"):
            self.ex(st, s["b"])

    def s_decl(self, st, s):
        for d in s["d"]:
            self.declare(st, d)

    def declare(self, st, d):
        fr = self.frames[-1]
        t = self.ty(d)
        if d.get("static"):
            l = mk("glob", "static " + fr.fn["q"] + "::" + d["n"])
            fr.bind[d["id"]] = l
            if "init" in d and not t.startswith("const"):
                v = self.ev(st, d["init"])
                self.emit(st, "sinit", [l, v], 0, d)
            elif "init" in d and self.kind(t) in ("scalar", "val"):
                fr.bind[d["id"]] = self.tmp(self.ev(st, d["init"]))
            return
        if d.get("binds"):
            l = self.lv(st, d["init"]) if "init" in d else mk("glob", "?")
            for i, b in enumerate(d["binds"]):
                fr.bind[b["id"]] = rebuild("field", (l, ("first", "second")[i] if i < 2 else "#%d" % i))
            return
        if t.endswith("&"):
            fr.bind[d["id"]] = self.lv(st, d["init"])
            return
        k = self.kind(t)
        ini = d.get("init")
        if k in ("scalar", "ptr", "val"):
            l = self.var(fr, d)
            fr.bind[d["id"]] = l
            if ini is None or (ini["k"] == "ctor" and not ini.get("a") and k != "val"):
                st.env.pop(l, None)
                return
            v = self.ev(st, ini)
            st.env[l] = self.typed(self.conv(v, t, self.ty(ini)), t)
            return
        # class object
        root = fr.fn
        if ini is None:
            o = self.newobj(strip(t), d["n"])
            fr.bind[d["id"]] = o
            return
        if ini["k"] == "lambda" or (ini["k"] == "ctor" and len(ini.get("a", [])) == 1 and ini["a"][0] and ini["a"][0].get("k") == "lambda"):
            fr.bind[d["id"]] = self.tmp(self.ev(st, ini))
            return
        r = self.any(st, ini)
        v = r[1] if r[0] == "v" else self.read(st, r[1], t)
        if not self.mutated(root, d["id"]) and not strip(t).endswith("]") and not strip(t).startswith("std::basic_o"):
            fr.bind[d["id"]] = self.tmp(v)
            return
        o = self.newobj(strip(t), d["n"])
        fr.bind[d["id"]] = o
        if strip(t).startswith("std::vector<") and v.op == "call" and str(v.args[0]).startswith("ctor std::vector"):
            vs = list(v.args[1:])
            if not vs:
                st.mem[self.sizeloc(o)] = num(0)
                return
            if vs[0].op != "rd" or strip(self.ty(ini["a"][0])) in INTS:
                st.mem[self.sizeloc(o)] = vs[0]
                # value-initialised elements
                if len(vs) == 2 and vs[1] is X.ZERO:
                    vs = vs[:1]
                v = mk("call", v.args[0], *vs)
        if strip(t).startswith("std::vector<") and v.op == "rd":
            st.mem[self.sizeloc(o)] = self.vsize(st, mk("tmp", v))
        if v.op == "pair":
            st.mem[o] = v
        if v.op == "call" and str(v.args[0]).startswith("ctor ") and len(v.args) == 1:
            self.emit(st, "init", [o, v], 0, d)
            return
        self.emit(st, "init", [o, v], 0, d)
        if v.op == "call" and ini["k"] == "ctor":
            self.ctor_fields(st, o, ini, v)

    def ctor_fields(self, st, o, ini, v):
        """scalar members a known constructor sets directly from its parameters"""
        fn = self.F.fns.get(ini.get("fk"))
        if not fn or not fn.get("inits"):
            return
        pid = {p["id"]: i for i, p in enumerate(fn["params"])}
        written = set()
        for x in FX.walk(fn.get("body")):
            if x.get("k") in ("asg", "inc"):
                b = x["a"]
                if b.get("k") == "mem":
                    written.add(b["n"])
        vals = v.args[1:]
        if len(vals) != len(fn["params"]):
            return
        for i in fn["inits"]:
            e = i.get("e")
            if i.get("m") and e and e.get("k") == "ref" and e.get("id") in pid and i["m"] not in written \
                    and self.kind(self.F.types[i["mt"]]) == "scalar":
                st.mem[mk("field", o, i["m"])] = vals[pid[e["id"]]]

    _READERS = {"operator[]", "operator()", "at", "begin", "end", "front", "back", "size"}

    def mutated(self, fn, vid):
        """may the local object be changed (syntactic)"""
        c = fn.setdefault("_mut", {})
        if vid in c:
            return c[vid]
        roots = set()

        def root(e):
            while isinstance(e, dict):
                k = e.get("k")
                if k == "ref":
                    return e.get("id")
                if k == "mem":
                    e = e["b"]
                elif k == "sub":
                    e = e["b"]
                elif k == "call" and "o" in e:
                    e = e["o"]
                elif k == "cast":
                    e = e["e"]
                elif k == "cond":
                    roots.add(root(e["a"]))
                    e = e["b"]
                elif k == "un" and e["op"] in ("*", "&"):
                    e = e["a"]
                elif k in ("asg", "inc"):
                    e = e["a"]
                else:
                    return None
            return None

        def reader(e, ctx):
            """ctx True: the result may be written"""
            pass

        # every non-const use
        parents = []

        def scan(e):
            if isinstance(e, list):
                for x in e:
                    scan(x)
                return
            if not isinstance(e, dict):
                return
            k = e.get("k")
            if k in ("asg", "inc"):
                roots.add(root(e["a"]))
            elif k == "un" and e["op"] == "&":
                roots.add(root(e["a"]))
            elif k == "call":
                if "o" in e and not e.get("const") and not e.get("static") and e.get("n") not in self._READERS:
                    roots.add(root(e["o"]))
                elif "o" in e and e.get("n") in ("begin", "end") and not e.get("const"):
                    roots.add(root(e["o"]))
                elif "o" in e and e.get("n") == "operator()" and not e.get("const"):
                    fn2 = self.F.fns.get(e.get("fk"))
                    if fn2 is None or not self.F.types[fn2["ret"]].endswith("&"):
                        roots.add(root(e["o"]))
                for p, a in zip(e.get("pm") or [], e.get("a", [])):
                    if p in (2, 4):
                        roots.add(root(a))
            elif k == "ctor":
                for p, a in zip(e.get("pm") or [], e.get("a", [])):
                    if p in (2, 4):
                        roots.add(root(a))
            elif k == "var" and "init" in e:
                t = self.ty(e)
                if t.endswith("&") and not t.startswith("const"):
                    roots.add(root(e["init"]))
                elif t.endswith("*"):
                    roots.add(root(e["init"]))
            elif k == "rfor":
                t = self.ty(e["v"])
                if t.endswith("&") and not t.startswith("const"):
                    roots.add(root(e["r"]))
            elif k == "lambda":
                for cp in e.get("caps", []):
                    if cp.get("ref"):
                        roots.add(cp.get("id"))
            elif k == "ret" and fn.get("ret") is not None and isinstance(fn.get("ret"), int) and fn["ret"] >= 0 and \
                    self.F.types[fn["ret"]].endswith("&"):
                roots.add(root(e.get("e")))
            for v in e.values():
                if isinstance(v, (dict, list)):
                    scan(v)
        if "_roots" not in fn:
            scan(fn.get("body"))
            fn["_roots"] = roots
        r = vid in fn["_roots"]
        c[vid] = r
        return r

    def s_if(self, st, s):
        if s.get("init"):
            self.ex(st, s["init"])
        if s.get("cvd"):
            self.declare(st, s["cvd"])
        if self.is_assert_stmt(s):
            return
        c = self.cond(st, s["c"])
        c = X.constrain(c, st.pc)
        if c is X.TRUE:
            self.ex(st, s["t"])
            return
        if c is X.FALSE:
            self.ex(st, s.get("e"))
            return
        pc0 = st.pc
        a, b = st.copy(), st.copy()
        a.pc, b.pc = AND(pc0, c), AND(pc0, NOT(c))
        a.thrown = b.thrown = X.FALSE
        if a.pc is X.FALSE or b.pc is X.FALSE:
            live = b if a.pc is X.FALSE else a
            self.ex(live, s.get("e") if live is b else s["t"])
            th = st.thrown
            st.assign(live)
            st.thrown = OR(th, live.thrown)
            return
        self.ex(a, s["t"])
        self.ex(b, s.get("e"))
        th = st.thrown
        self.merge(st, c, a, b)
        if th is not X.FALSE:
            st.thrown = OR(st.thrown, th)

    def is_assert_stmt(self, s):
        return False

    def s_ret(self, st, s):
        fr = self.frames[-1]
        v = None
        if s.get("e") is not None:
            if fr.retref:
                v = self.lv(st, s["e"])
            else:
                v = self.ev(st, s["e"])
                rt = fr.fn.get("ret")
                if isinstance(rt, int) and rt >= 0:
                    v = self.conv(v, self.F.types[rt], self.ty(s["e"]))
                if v.op == "none":
                    v = None
        if st.pc is X.FALSE:
            return
        fr.rets.append([st.pc, v, st.copy()])
        fr.rets[-1][2].thrown = X.FALSE
        if fr.top:
            self.toprets.append((st.pc, s.get("l", 0)))
        st.pc = X.FALSE

    def s_brk(self, st, s):
        self.frames[-1].loops[-1].brks.append((st.pc, st.copy()))
        st.pc = X.FALSE

    def s_cnt(self, st, s):
        for lf in reversed(self.frames[-1].loops):
            if not lf.switch:
                lf.conts.append((st.pc, st.copy()))
                break
        st.pc = X.FALSE

    def s_switch(self, st, s):
        v = self.ev(st, s["c"])
        fr = self.frames[-1]
        lf = LoopF(True)
        fr.loops.append(lf)
        body = s["b"]["b"] if s["b"]["k"] == "seq" else [s["b"]]
        flat = []
        for x in body:
            labs = []
            while x is not None and x.get("k") in ("case", "default"):
                labs.append(x)
                x = x["b"]
            flat.append((labs, x))
        allc = X.FALSE
        for labs, x in flat:
            for l in labs:
                if l["k"] == "case":
                    allc = OR(allc, X.eq(v, self.ev(st, l["v"])))
        pc0 = st.pc
        cur = st.copy()
        cur.pc = X.FALSE
        skip = st.copy()
        hasdef = False
        for labs, x in flat:
            for l in labs:
                if l["k"] == "case":
                    g = X.eq(v, self.ev(st, l["v"]))
                else:
                    g = NOT(allc)
                    hasdef = True
                ent = st.copy()
                ent.pc = AND(pc0, g)
                if ent.pc is X.FALSE:
                    continue
                if cur.pc is X.FALSE:
                    th = cur.thrown
                    cur = ent
                    cur.thrown = OR(th, X.FALSE)
                else:
                    m = st.copy()
                    self.merge(m, g, ent, cur)
                    cur = m
            if x is not None and cur.pc is not X.FALSE:
                self.ex(cur, x)
        fr.loops.pop()
        res = None
        outs = [(pc, sx) for pc, sx in lf.brks]
        if cur.pc is not X.FALSE:
            outs.append((cur.pc, cur))
        if not hasdef:
            sk = st.copy()
            sk.pc = AND(pc0, NOT(allc))
            if sk.pc is not X.FALSE:
                outs.append((sk.pc, sk))
        th = cur.thrown
        if not outs:
            st.assign(cur)
            st.pc = X.FALSE
            st.thrown = OR(th, st.thrown)
            return
        res = outs[0][1].copy()
        res.pc = outs[0][0]
        for pc, sx in outs[1:]:
            m = res.copy()
            s2 = sx.copy()
            s2.pc = pc
            s2.thrown = X.FALSE
            old = res.copy()
            self.merge(m, pc, s2, old)
            res = m
        st.assign(res)
        st.thrown = OR(st.thrown, th)
        if st.thrown is not X.FALSE:
            st.pc = OR(st.pc, st.thrown)
            st.thrown = X.FALSE

    def s_case(self, st, s):
        raise Unsupported("nested case")

    s_default = s_case

    def s_try(self, st, s):
        pre = st.copy()
        self.ntry = getattr(self, "ntry", 0)
        self.intry = getattr(self, "intry", 0) + 1
        try:
            self.ex(st, s["b"])
        finally:
            self.intry -= 1
        for h in s["h"]:
            self.ntry += 1
            t = strip(self.ty(h["v"])) if h.get("v") else "..."
            c = atom(mk("exc", self.ntry, t))
            hs = pre.copy()
            hs.pc = AND(pre.pc, c)
            hs.thrown = X.FALSE
            hs.ver, hs.opq = maxmerge(hs.ver, st.ver), maxmerge(hs.opq, st.opq)
            hs.verl = minmerge(hs.verl, st.verl)
            # what the block left alone keeps its value
            hs.mem = {l: v for l, v in pre.mem.items() if st.mem.get(l) is v and pre.ver.get(self.cls(l), 0) == hs.ver.get(self.cls(l), 0)}
            if h.get("v"):
                self.frames[-1].bind[h["v"]["id"]] = mk("obj", -1, t, "exception")
            self.ex(hs, h["b"])
            ok = st.copy()
            if hs.pc is X.FALSE:
                continue
            # keep the normal state reachable under the opposite atom
            if ok.pc is not X.FALSE:
                ok.pc = AND(ok.pc, NOT(c)) if False else ok.pc
            self.merge(st, c, hs, ok)

    def s_while(self, st, s):
        def pre(q):
            if s.get("cvd"):
                self.declare(q, s["cvd"])
            return self.cond(q, s["c"])
        self.loop(st, pre, s["b"], None, None, s)

    def s_do(self, st, s):
        self.loop(st, None, s["b"], None, lambda q: self.cond(q, s["c"]), s)

    def s_for(self, st, s):
        if s.get("i"):
            self.ex(st, s["i"])
        pre = (lambda q: self.cond(q, s["c"])) if s.get("c") else None
        self.loop(st, pre, s["b"], s.get("s"), None, s, always=not s.get("c"))

    def s_rfor(self, st, s):
        rt = strip(self.ty(s["r"]))
        r = self.any(st, s["r"])
        cont = r[1] if r[0] == "l" else self.tmp(r[1])
        d = s["v"]
        fr = self.frames[-1]
        idx = mk("var", fr.uid, "rf%d" % s.get("l", 0), "k%d" % self.depth)
        st.env[idx] = num(0)
        isvec = rt.startswith("std::vector<") or rt.startswith("std::array<") or rt.startswith("std::basic_string<")
        if isvec:
            size = lift(lambda x: self.vsize(st, x), cont) if not rt.startswith("std::basic_s") else rebuild("call", ("strsize", self.read(st, cont)))
        else:
            m = re.search(r"\[(\d+)\]$", rt)
            size = num(int(m.group(1))) if m else mk("call", "rangesize", self.read(st, cont))

        def pre(q):
            return X.lt(q.env[idx], size, True, True)

        def bindv(q):
            el = X.at_loc(self.base(cont), q.env[idx]) if (isvec or "[" in rt[-6:]) else rebuild("elem", (cont, q.env[idx]))
            t = self.ty(d)
            if d.get("binds"):
                for i, b in enumerate(d["binds"]):
                    fr.bind[b["id"]] = rebuild("field", (el, ("first", "second")[i] if i < 2 else "#%d" % i))
            elif t.endswith("&"):
                fr.bind[d["id"]] = el
            elif self.kind(t) == "cls":
                fr.bind[d["id"]] = self.tmp(self.read(q, el, t))
            else:
                l = self.var(fr, d)
                fr.bind[d["id"]] = l
                q.env[l] = self.read(q, el, t)

        def inc(q):
            q.env[idx] = X.add(q.env[idx], num(1))
        self.loop(st, pre, s["b"], inc, None, s, bindv)

    # ------------------------------------------------------------ loops
    def mksum(self, desc, E):
        d = self.depth
        i = mk("i", d)
        cnt, brk = desc.args
        if E is X.ZERO:
            return X.ZERO
        if E.op == "ite" and brk is X.FALSE:
            # a choice that is the same in every round is made once
            for t in X.atoms(E):
                if not X.contains(t, lambda u: u is i or u.op in ("phi", "mu", "psum", "rdl", "self", "lp")):
                    c = X.atom(t)
                    return X.ite(c, self.mksum(desc, X.constrain(E, c)), self.mksum(desc, X.constrain(E, NOT(c))))
        # a term that does not vary
        if not X.contains(E, lambda t: t is i or t.op in ("phi", "mu", "psum", "rdl")) and brk is X.FALSE and cnt.op != "inf" \
                and not X.contains(cnt, lambda t: t is i) and E.op == "num":
            return X.mul(cnt, E)
        if E.op == "ite" and brk is X.FALSE and cnt.op != "inf":
            # counting the hits and counting the misses are the same thing
            lv = X.split(E)
            if 2 <= len(lv) <= 4 and all(v.op == "num" for _, v in lv):
                vals = sorted(set(v.args[0] for _, v in lv))
                if len(vals) == 2:
                    c = X.FALSE
                    for g, v in lv:
                        if v.args[0] == vals[1]:
                            c = OR(c, g)
                    lo, hi = num(vals[0]), num(vals[1])
                    z = c
                    while z.op == "ite":
                        z = z.args[2]         # no atom holds
                    if z is X.TRUE:
                        c, lo, hi = NOT(c), hi, lo
                    one = self.bound("sum", desc, X.ite(c, num(1), X.ZERO))
                    return X.add(X.mul(cnt, lo), X.mul(X.add(hi, X.mul(num(-1), lo)), one))
        return self.bound("sum", desc, E)

    def bound(self, op, desc, *body):
        """build a binder over the loop index of the current depth"""
        i = mk("i", self.depth)
        lev = 0
        for t in body + (desc,):
            for s in X.subterms(t):
                if s.op == "ib":
                    lev = max(lev, s.args[0] + 1)
        ib = mk("ib", lev)
        f = lambda t: ib if t is i else None
        memo = {}
        return mk(op, X.subst(desc, f, memo), *[X.subst(t, f, memo) for t in body])

    def run_iter(self, st, pre, body, inc, post, bindv, cell):
        fr = self.frames[-1]
        lf = LoopF()
        fr.loops.append(lf)
        c = X.TRUE
        try:
            if pre is not None:
                c = pre(st)
            if bindv is not None:
                bindv(st)
            st.pc = X.TRUE
            self.ex(st, body)
            # throw inside the body does not end the loop for the others
            if st.pc is not X.FALSE and st.thrown is not X.FALSE:
                st.pc = OR(st.pc, st.thrown)
            th = st.thrown
            st.thrown = X.FALSE
            for pc, s2 in lf.conts:
                s2.thrown = X.FALSE
                s2.pc = pc
                if st.pc is X.FALSE:
                    st.assign(s2.copy())
                else:
                    old = st.copy()
                    self.merge(st, pc, s2, old)
            if inc is not None and st.pc is not X.FALSE:
                if callable(inc):
                    inc(st)
                else:
                    self.any(st, inc)
            pc_post = X.TRUE
            if post is not None and st.pc is not X.FALSE:
                pc_post = post(st)
            if st.pc is X.FALSE and th is not X.FALSE and not lf.brks:
                cell["throws"] = True
        finally:
            fr.loops.pop()
        return c, pc_post, lf

    def loop(self, st, pre, body, inc, post, node, bindv=None, always=False):
        fr = self.frames[-1]
        entry = st.copy()
        outer = st.pc
        # ---- pass 1: what does an iteration change
        self.uid += 1
        lid = self.uid
        dry = entry.copy()
        dry.pc = X.TRUE
        dry.thrown = X.FALSE
        dry.mem = {}
        for k in list(dry.env):
            dry.env[k] = self.phi(lid, k, entry.env[k])
        n0, r0, t0 = len(self.lines), len(fr.rets), len(self.toprets)
        o0 = self.objn
        d0 = dict(dry.env)
        v0, q0 = dict(dry.ver), dict(dry.opq)
        self.depth += 1
        self.depth -= 1
        saved_depth = self.depth
        binds0 = dict(fr.bind)
        self.depth = saved_depth + 1
        self.lbase.append(n0)
        try:
            c, pp, lf = self.run_iter(dry, pre, body, inc, post, bindv, {})
        finally:
            self.depth = saved_depth
            self.lbase.pop()
        changed = set()
        vers, opqs = set(), set()
        ends = [dry] + [s for _, s in lf.brks] + [s for _, _, s in fr.rets[r0:]]
        for s in ends:
            for k in d0:
                if s.env.get(k) is not d0[k]:
                    changed.add(k)
            for k, v in s.ver.items():
                if v != v0.get(k, 0):
                    vers.add(k)
            for k, v in s.opq.items():
                if v != q0.get(k, 0):
                    opqs.add(k)
        del self.lines[n0:]
        del fr.rets[r0:]
        del self.toprets[t0:]
        self.objn = o0
        fr.bind = dict(binds0)
        if bindv is None and ((dry.pc is X.FALSE and not lf.conts) or (post is not None and pp is X.FALSE)):
            self.depth = saved_depth
            return self.once(st, pre, body, post)
        # ---- pass 2
        it = entry.copy()
        it.pc = X.TRUE
        it.thrown = X.FALSE
        phis = {}
        for k in changed:
            p = self.phi(lid, k, entry.env[k])
            phis[k] = p
            it.env[k] = p
        for k in vers:
            it.ver[k] = it.ver.get(k, 0) + 1
            self.invalidate(it, k)
        for k in opqs:
            it.opq[k] = it.opq.get(k, 0) + 1
        cell = {}
        head = State()
        head.ver, head.opq = dict(it.ver), dict(it.opq)
        self.depth = saved_depth + 1
        self.lbase.append(n0)
        try:
            c, pp, lf = self.run_iter(it, pre, body, inc, post, bindv, cell)
        finally:
            self.depth = saved_depth
            self.lbase.pop()
        self.solve(st, entry, outer, it, phis, c, pp, lf, n0, r0, t0, vers, post is not None, always, head, opqs)

    def once(self, st, pre, body, post):
        """a loop no path of which reaches a second iteration is straight-line code"""
        fr = self.frames[-1]
        pc0 = st.pc
        c = X.constrain(pre(st), st.pc) if pre is not None else X.TRUE
        outs = []
        a = st.copy()
        a.pc = AND(pc0, c)
        a.thrown = X.FALSE
        lf = LoopF()
        if a.pc is not X.FALSE:
            fr.loops.append(lf)
            try:
                self.ex(a, body)
            finally:
                fr.loops.pop()
        outs += [(pc, s) for pc, s in lf.brks + lf.conts]
        if a.pc is not X.FALSE:
            outs.append((a.pc, a))
        th = OR(st.thrown, a.thrown)
        sk = st.copy()
        sk.pc = AND(pc0, NOT(c))
        if sk.pc is not X.FALSE:
            outs.append((sk.pc, sk))
        if not outs:
            st.assign(a)
            st.pc = X.FALSE
            st.thrown = th
            return
        res = outs[0][1].copy()
        res.pc = outs[0][0]
        res.thrown = X.FALSE
        for pc, sx in outs[1:]:
            m = res.copy()
            s2 = sx.copy()
            s2.pc = pc
            s2.thrown = X.FALSE
            old = res.copy()
            self.merge(m, pc, s2, old)
            res = m
        st.assign(res)
        st.thrown = th
        if st.pc is not X.FALSE and st.thrown is not X.FALSE:
            st.pc = OR(st.pc, st.thrown)
            st.thrown = X.FALSE

    def phi(self, lid, k, v):
        """placeholder for the value of k at the start of an iteration"""
        base = mk("phi", lid, k)
        leaf = X.leaves(v)[0]
        if leaf.op in ("addr", "base", "ptr") or (leaf.op == "poly" and any(X.isptr(q) for m, cc in leaf.args[0] for q in m)):
            return mk("ptr", base)
        return base

    def solve(self, st, entry, outer, it, phis, c, pp, lf, n0, r0, t0, vers, post, always, head=None, opqs=()):
        fr = self.frames[-1]
        d = self.depth
        i = mk("i", d)
        isphi = {}
        for k, p in phis.items():
            isphi[p] = k
        upd = {k: it.env.get(k, phis[k]) for k in phis} if it.pc is not X.FALSE else {k: phis[k] for k in phis}
        upd = {k: X.constrain(v, it.pc) for k, v in upd.items()}
        brk = X.FALSE
        for pc, s in lf.brks:
            brk = OR(brk, pc)
        for pc, v, s in fr.rets[r0:]:
            brk = OR(brk, pc)
        repl = {}

        def sub1(t):
            return repl.get(t)

        def S(t):
            if not repl or t is None:
                return t
            return X.subst(t, lambda x: repl.get(x))

        def hasphi(t, only=None):
            return X.contains(t, lambda x: x in isphi and (only is None or x is only))

        def varies(t):
            return X.contains(t, lambda x: x in isphi or x is i or
                              (x.op == "rd" and self.in_vers(x.args[0], vers)) or x.op in ("psum",))
        def iterdep(t):
            """varies, once the recurrences have been written out"""
            if varies(t) or hasphi(t):
                return True
            rs = set(x for x in repl.values() if X.contains(x, lambda u: u.op == "mu"))
            if rs and X.contains(t, lambda x: x in rs):
                return True
            todo2, seen2 = [t], set()
            while todo2:
                x = todo2.pop()
                if not isinstance(x, T) or x in seen2:
                    continue
                seen2.add(x)
                if x.op == "mu":
                    return True
                if x.op not in ("exitval", "first", "any", "sum", "lam", "muend"):
                    todo2.extend(x.args)
            return False
        # a running maximum never falls below where it started
        for k in list(upd):
            e, u = entry.env[k], upd[k]
            p = phis[k]
            if X.isnum(e) and u.op == "ite":
                for op, keep in (("max", lambda y: y.args[0] > e.args[0]), ("min", lambda y: y.args[0] < e.args[0])):
                    ls = [l for l in X.leaves(u) if l is not p]
                    if ls and all(l.op == op and any(y is p for y in l.args) for l in ls):
                        rp = {}
                        for l in ls:
                            ys = [y for y in l.args if not X.isnum(y) or keep(y)]
                            if len(ys) < len(l.args):
                                rp[l] = p if len(ys) == 1 else mk(op, *ys)
                        if rp:
                            upd[k] = X.subst(u, rp.get)
        # inductions
        todo = dict(upd)
        progress = True
        step = {}
        while progress:
            progress = False
            for k in sorted(todo, key=lambda z: z.key):
                u = S(todo[k])
                p = phis[k]
                try:
                    df = X.sub(u, p)
                    if varies(df):
                        continue
                    at = X.add(entry.env[k], X.mul(df, i))
                except Blowup:
                    continue
                step[k] = df
                repl[p] = at
                del todo[k]
                progress = True
        # accumulators
        others_use = {}
        sums = {}
        progress = True
        while progress:
            progress = False
            for k in sorted(todo, key=lambda z: z.key):
                p = phis[k]
                u = S(todo[k])
                try:
                    df = X.sub(u, p)
                except Blowup:
                    continue
                if hasphi(df):
                    continue
                sums[k] = df
                repl[p] = X.add(entry.env[k], self.bound_run("psum", df))
                del todo[k]
                progress = True
        # concatenations, flags, and everything else: canonical recurrences
        flags = {}
        for k in sorted(todo, key=lambda z: z.key):
            p = phis[k]
            u = S(todo[k])
            # never read in the loop and only set to values not depending on itself
            if u.op == "ite" and any(l is p for l in X.leaves(u)):
                cnd = NOT(X.cond_of(u, p))
                vals = [l for l in X.leaves(u) if l is not p]
                if len(vals) == 1 and not varies(vals[0]) and not hasphi(cnd):
                    flags[k] = (cnd, vals[0])
        mus = {}
        if todo:
            rec = {phis[k]: mk("rec", entry.env[k]) for k in todo}
            # what each of them becomes in a round, for those it depends on
            upds = {k: X.subst(S(todo[k]), lambda x: rec.get(x)) for k in todo}
            deps = {}
            for k in todo:
                u = S(todo[k])
                deps[k] = [o for o in todo if o is not k and X.contains(u, lambda t: t is phis[o])]
            for k in todo:
                u = X.subst(S(todo[k]), lambda x: rec.get(x))
                selfp = phis[k]
                u2 = X.subst(S(todo[k]), lambda x: mk("self") if x is selfp else rec.get(x))
                clo, q = [], list(deps[k])
                while q:
                    o = q.pop()
                    if o is not k and o not in clo:
                        clo.append(o)
                        q += deps[o]
                sys_ = sorted((mk("upd", entry.env[o], upds[o]) for o in clo), key=lambda t: t.key)
                mus[k] = self.bound_run("mu", u2, entry.env[k], *sys_)
            for k in todo:
                p = phis[k]
                m = mus[k]
                if p.op == "ptr":
                    m = mk("ptr", m)
                repl[p] = m
        # trip count
        cc = S(c)
        ppc = S(pp)
        brk = S(brk)
        count, rest = mk("inf"), X.TRUE
        if always:
            rest = X.TRUE
        elif post:
            rest = X.TRUE
            # a post-tested loop: leaves when the condition fails
            brk2 = NOT(ppc)
        else:
            count, rest = self.trip(cc, i)
        if post:
            desc0 = mk("loop", mk("inf"), OR(brk, mk("ite", mk("post", brk2), X.TRUE, X.FALSE)))
        else:
            b = OR(brk, NOT(rest)) if rest is not X.TRUE else brk
            desc0 = mk("loop", count, b)
        # ---- rewrite the lines of this loop
        new = self.lines[n0:]
        for ln in new:
            g = S(ln.guard)
            if rest is not X.TRUE:
                g = AND(rest, g)
            ln.guard = AND(outer, g)
            ln.pay = tuple(S(x) for x in ln.pay)
            ln.loops = [S(x) for x in ln.loops]
            ln.loops.insert(0, desc0)
        own = self.owncells(new, vers, opqs, entry, head, i) if brk is X.FALSE and head is not None else {}
        if own:
            def mine(t):
                return own.get(t) if t.op == "rd" else None
            for ln in new:
                ln.guard = X.subst(ln.guard, mine)
                ln.pay = tuple(X.subst(x, mine) if isinstance(x, T) else x for x in ln.pay)
            for tab in (sums, repl, mus):
                for k in tab:
                    tab[k] = X.subst(tab[k], mine)
        if entry.summ and brk is X.FALSE:
            # a cell an earlier loop over the same range filled
            def fwd(t):
                if t.op == "rd":
                    h = entry.summ.get((t.args[0], t.args[1]))
                    if h is not None and h[0] is count and h[2] == d:
                        return h[1]
                return None
            for ln in new:
                ln.pay = tuple(X.subst(x, fwd) if isinstance(x, T) else x for x in ln.pay)
            if any(h[0] is count and h[2] == d for h in entry.summ.values()):
                for tab in (sums, repl, mus):
                    for k in tab:
                        tab[k] = X.subst(tab[k], fwd)
        # ---- state after the loop
        simple = desc0.args[1] is X.FALSE and count.op != "inf"
        res = entry.copy()
        res.ver, res.opq = it.ver, it.opq
        res.stc, res.callc = it.stc, it.callc
        if it.pc is X.FALSE and (lf.brks or fr.rets[r0:]):
            src = [s for _, s in lf.brks] + [s for _, _, s in fr.rets[r0:]]
            for s in src:
                res.ver, res.opq = maxmerge(res.ver, s.ver), maxmerge(res.opq, s.opq)
                res.stc, res.callc = maxmerge(res.stc, s.stc), maxmerge(res.callc, s.callc)
        for k in vers:
            self.invalidate(res, k)
        anyb = None
        rets = fr.rets[r0:]
        brks = lf.brks
        finals = {}
        for k in phis:
            p = phis[k]
            e0 = entry.env[k]
            if k in step:
                fin = X.add(e0, X.mul(step[k], count)) if count.op != "inf" else None
            elif k in sums:
                fin = X.add(e0, self.mksum(mk("loop", count, X.FALSE), sums[k])) if count.op != "inf" else None
            elif k in flags and count.op != "inf":
                cnd, v = flags[k]
                fin = ite(self.mkany(desc0, cnd), v, e0)
            elif not iterdep(S(upd[k])) and upd[k].op != "ite" and count.op != "inf":
                fin = ite(X.eq(count, num(0)), e0, upd[k])
            else:
                fin = None
            if simple and fin is not None:
                finals[k] = fin
                continue
            # value at a break
            vb = None
            for pc, s in brks:
                x = S(s.env.get(k, p))
                vb = x if vb is None else ite(S(pc), x, vb)
            normal_end = not (count.op == "inf" and rest is X.TRUE and not post)
            if vb is not None and not iterdep(vb):
                cb = self.mkany(desc0, S(self.orall([pc for pc, _ in brks])))
                other = fin if fin is not None else self.bound("exitval", desc0, S(p))
                finals[k] = ite(cb, vb, other) if normal_end else vb
                continue
            cur = S(p) if not post else S(upd[k])
            if vb is not None:
                cur = rebuild("two", (vb, cur))
            finals[k] = self.bound("exitval", desc0, cur)
        for k, v in finals.items():
            res.env[k] = v
        # returns taken inside the loop leave the function
        if rets:
            cr = X.FALSE
            val = None
            for pc, v, s in reversed(rets):
                pcs = S(pc)
                if rest is not X.TRUE:
                    pcs = AND(rest, pcs)
                cr = OR(cr, pcs)
                if v is not None:
                    vv = S(v)
                    val = vv if val is None else ite(pcs, vv, val)
            if val is not None:
                val = X.constrain(val, cr)
            A = self.mkany(desc0, cr)
            if val is not None and iterdep(val):
                val = self.bound("first", desc0, cr, val)
            del fr.rets[r0:]
            s2 = res.copy()
            s2.pc = AND(outer, A)
            s2.thrown = X.FALSE
            ln = self.toprets[t0][1] if fr.top and len(self.toprets) > t0 else 0
            if fr.top:
                del self.toprets[t0:]
                self.toprets.append((s2.pc, ln))
            fr.rets.append([s2.pc, val, s2])
            res.pc = AND(outer, NOT(A))
            if count.op == "inf" and not brks and rest is X.TRUE and not post:
                res.pc = X.FALSE
        else:
            res.pc = outer
            if count.op == "inf" and not brks and rest is X.TRUE and not post:
                res.pc = X.FALSE
        res.thrown = entry.thrown
        if simple and all(ln.kind in ("store", "assert", "dead") for ln in new):
            byk = {}
            for ln in new:
                if ln.kind == "store":
                    byk.setdefault(self.cls(ln.pay[0]) if ln.pay[0].op != "ite" else None, []).append(ln)
            for k, l in byk.items():
                if k is None or len(l) != 1 or len(l[0].loops) != 1 or l[0].guard is not outer or any(self.related(k, o) for o in byk if o is not None and o != k):
                    continue
                loc, v = l[0].pay
                if not X.contains(loc, lambda t: t is i) or X.contains(v, lambda t: t.op == "rd" and t.args[0] is not loc and self.related(self.cls(t.args[0]), k) and t.args[1] > self.version(entry, t.args[0])):
                    continue
                if res.summ is entry.summ:
                    res.summ = dict(entry.summ)
                res.summ[(loc, self.version(res, loc))] = (count, v, d)
        self.premem, self.prever = entry.mem, entry.ver
        self.promote(res, n0, desc0, i, simple)
        st.assign(res)

    def owncells(self, new, vers, opqs, entry, head, i):
        """a loop that writes, of some array, only the cell of its own round: before that
        the cell holds what it held when the loop started"""
        own = {}
        if any(ln.kind not in ("store", "assert", "dead") for ln in new):
            return own
        locs = {}
        for ln in new:
            if ln.kind == "store":
                l = ln.pay[0]
                locs.setdefault(self.cls(l) if l.op != "ite" else None, set()).add(l)
        if None in locs:
            return own
        for k, ls in locs.items():
            if len(ls) != 1 or k not in vers:
                continue
            if any(o != k and self.related(o, k) for o in vers) or any(self.related(o, k) for o in opqs):
                continue
            l = next(iter(ls))
            if not self.injective(l, i):
                continue
            own[mk("rd", l, self.version(head, l))] = mk("rd", l, self.version(entry, l))
        return own

    def injective(self, l, i):
        """different rounds, different cells"""
        nxt = X.add(i, num(1))
        while l is not None:
            if l.op == "at" and isinstance(l.args[1], T) and X.contains(l.args[1], lambda t: t is i):
                try:
                    d = X.sub(X.subst(l.args[1], lambda t: nxt if t is i else None), l.args[1])
                except Blowup:
                    return False
                if d.op == "num" and d is not num(0):
                    return True
            l = l.args[0] if l.args and isinstance(l.args[0], T) and l.op in ("at", "field", "base") else None
        return False

    def orall(self, l):
        r = X.FALSE
        for x in l:
            r = OR(r, x)
        return r

    def bound_run(self, op, *body):
        i = mk("i", self.depth)
        return mk(op, *body)

    def mkany(self, desc, c):
        if c is X.FALSE:
            return X.FALSE
        cnt, brk = desc.args
        if not X.contains(c, lambda t: t.op in ("psum", "mu")):
            # leaving at the first hit does not change whether there is one
            if brk is c or AND(brk, c) is brk or True:
                b2 = X.constrain(brk, NOT(c)) if c is not X.TRUE else X.FALSE
                if b2.op == "ite" and AND(brk, NOT(c)) is X.FALSE:
                    b2 = X.FALSE
                if b2 is X.TRUE and AND(brk, NOT(c)) is X.FALSE:
                    b2 = X.FALSE
                brk = b2
        return atom(self.bound("any", mk("loop", cnt, brk), c))

    def in_vers(self, loc, vers):
        k = self.cls(loc)
        return any(self.related(c, k) for c in vers)

    def trip(self, c, i):
        """(count, remaining condition) of a loop tested before each iteration"""
        if c is X.FALSE:
            return num(0), X.TRUE
        c = self.nonneg(c, i)
        inv = []
        seen, stk = set(), [c]
        while stk:
            x = stk.pop()
            if x.id in seen or x.op != "ite":
                continue
            seen.add(x.id)
            if not X.contains(x.args[0], lambda t: t is i) and x.args[0] not in inv:
                inv.append(x.args[0])
            stk += [x.args[1], x.args[2]]
        inv.sort(key=lambda t: t.key)
        if len(inv) <= 5:
            r = self.trip_inv(c, i, inv)
            if r is not None:
                return r
        r = self.trip1(c, i)
        return r if r is not None else (mk("inf"), c)

    def trip_inv(self, c, i, inv):
        """case split on the loop-invariant part of the test"""
        if c is X.FALSE:
            return num(0), X.TRUE
        if not inv:
            return self.trip1(c, i)
        a = inv[0]
        hi, lo = X.restrict(c, a, 1), X.restrict(c, a, 0)
        if hi is lo:
            return self.trip_inv(c, i, inv[1:])
        h = self.trip_inv(hi, i, inv[1:])
        l = self.trip_inv(lo, i, inv[1:])
        if h is None or l is None:
            return None
        at = atom(a)
        return ite(at, h[0], l[0]), ite(at, h[1], l[1])

    def nonneg(self, c, i):
        """atoms decided by i >= 0"""
        memo = {}

        def val(a):
            if a.op == "lt":
                d = X._add(a.args[1], X._mul(num(-1), a.args[0]))
                co, r = self.linear(d, i)
                if co is not None and r.op == "num":
                    if co > 0 and r.args[0] > 0:
                        return 1
                    if co < 0 and r.args[0] <= 0:
                        return 0
            elif a.op == "eq0":
                co, r = self.linear(a.args[0], i)
                if co is not None and r.op == "num":
                    q = -r.args[0] / co
                    if q < 0 or q.denominator != 1:
                        return 0
            return None

        def go(x):
            if x.op != "ite":
                return x
            r = memo.get(x.id)
            if r is None:
                v = val(x.args[0])
                r = go(x.args[1]) if v == 1 else go(x.args[2]) if v == 0 else ite(atom(x.args[0]), go(x.args[1]), go(x.args[2]))
                memo[x.id] = r
            return r
        return go(c)

    def trip1(self, c, i):
        # find an atom that bounds the index
        if c is X.FALSE:
            return num(0), X.TRUE
        best = None
        seen, stk = set(), [c]
        while stk:
            x = stk.pop()
            if x.id in seen or x.op != "ite":
                continue
            seen.add(x.id)
            a = x.args[0]
            for pol in (1, 0):
                if self.implied(c, a, pol):
                    n = self.bound_of(a, pol, i)
                    if n is not None and (best is None or n.key < best[0].key):
                        best = (n, a, pol)
            stk.append(x.args[1])
            stk.append(x.args[2])
        if best is None:
            return None
        n, a, pol = best
        at = atom(a)
        rest = X.constrain(c, at if pol else NOT(at))
        # i < a and i < b: i < min(a, b)
        if a.op == "lt" and pol and rest.op == "ite":
            b = rest.args[0]
            if b.op == "lt" and self.implied(rest, b, 1) and b.args[0] is a.args[0] is i:
                n2 = self.bound_of(b, 1, i)
                if n2 is not None:
                    return lift(lambda x, y: mk("min", x, y), n, n2), X.constrain(rest, atom(b))
        return n, rest

    def implied(self, c, a, pol):
        at = atom(a)
        return AND(c, NOT(at) if pol else at) is X.FALSE

    def bound_of(self, a, pol, i):
        """number of leading index values for which the atom has this polarity"""
        if a.op == "lt":
            x, y = a.args
            d = X._add(y, X._mul(num(-1), x))     # x < y  ==  0 < d
            co, r = self.linear(d, i)
            if co is None:
                return None
            if pol and co < 0:
                return self.ceil(r, -co)          # 0 < r - |co| i
            if not pol and co > 0:
                # not (0 < r + co i): r + co*i <= 0  ==  i < (-r)/co + 1/...
                return self.ceil(X._add(X._mul(num(-1), r), num(1)), co)
            return None
        if a.op == "eq0" and not pol:
            co, r = self.linear(a.args[0], i)
            if co is None:
                return None
            # co*i + r != 0 : stops when i = -r/co
            q = X._mul(num(Fraction(-1) / co), r)
            if abs(co) == 1:
                return q
            return None
        return None

    def ceil(self, r, co):
        if co == 1:
            return r
        if r.op == "num":
            import math
            return num(math.ceil(r.args[0] / co))
        return mk("cdiv", r, num(co))

    def linear(self, d, i):
        co = Fraction(0)
        p = dict(X._poly(d))
        for m, c in list(p.items()):
            if i in m:
                if m == (i,):
                    co = c
                    del p[m]
                else:
                    return None, None
            elif any(X.contains(f, lambda t: t is i) for f in m):
                return None, None
        if co == 0:
            return None, None
        return co, X._unpoly(p)

    def promote(self, st, n0, desc, i, simple):
        """a cell that every iteration only adds to becomes one store of the sum"""
        if not simple:
            return
        cand = {}
        d = self.depth
        for idx in range(n0, len(self.lines)):
            ln = self.lines[idx]
            if ln.kind != "store" or len(ln.loops) != 1:
                continue
            l, v = ln.pay
            if l.op == "ite" or X.contains(l, lambda t: t is i or t.op in ("psum", "mu")):
                continue
            cand.setdefault(l, []).append(idx)
        for l, idxs in cand.items():
            if len(idxs) != 1:
                continue
            ln = self.lines[idxs[0]]
            v = ln.pay[1]
            k = self.cls(l)
            own = [x for x in X.subterms(v) if x.op == "rd" and x.args[0] is l]
            if len(own) != 1:
                continue
            own = own[0]
            try:
                E = X.sub(v, own)
            except Blowup:
                continue
            rdk = lambda t: t.op == "rd" and self.related(self.cls(t.args[0]), k)
            if X.contains(E, rdk) or X.contains(ln.guard, rdk) or X.contains(l, rdk):
                continue
            bad = False
            for j in range(n0, len(self.lines)):
                if j == idxs[0]:
                    continue
                o = self.lines[j]
                if any(X.contains(x, rdk) for x in o.pay) or X.contains(o.guard, rdk) or any(X.contains(x, rdk) for x in o.loops):
                    bad = True
                    break
                if o.kind == "store" and self.related(self.cls(o.pay[0]) if o.pay[0].op != "ite" else ("x",), k):
                    bad = True
                    break
                if o.kind in ("call", "asg", "swap", "init", "delete") and any(
                        X.contains(x, lambda t: t.op in ("addr", "base") and t.args[0].op != "var" and self.related(self.cls(t.args[0]), k)) for x in o.pay):
                    bad = True
                    break
                if o.kind in ("asg", "swap") and any(x.op != "ite" and self.related(self.cls(x), k) for x in o.pay if x.op in ("field", "obj", "param", "this", "at")):
                    bad = True
                    break
            if bad:
                continue
            pc = st.pc
            # drop the outer guard from the summand's guard
            g = X.constrain(ln.guard, pc) if pc is not X.TRUE else ln.guard
            total = self.mksum(desc, ite(g, E, X.ZERO))
            del self.lines[idxs[0]]
            vk = None
            # value before the loop
            entryv = st.mem.get(l)
            pre = self.entry_value(st, l, own)
            dead = False
            if l in self.premem:
                sv = st.ver.get(k, 0)
                st.ver[k] = self.prever.get(k, 0)
                dead = self.deadstore(st, l, k, pc)
                st.ver[k] = sv - (1 if dead else 0)
            st.ver[k] = max(0, st.ver.get(k, 0) - 1)
            st.verl = {x: n for x, n in st.verl.items() if not self.related(self.cls(x), k)}
            nl = Line(pc, "store", (l, X.add(pre, total)), ln.seq, ln.l, ln.file, ln.fnq)
            self.lines.append(nl)
            sk = ("s", l.key)
            nl.seq = (max(0, ln.seq[0] - (1 if dead else 0)), ln.seq[1])
            if dead:
                st.stc[sk] = max(0, st.stc.get(sk, 0) - 1)
            self.invalidate(st, k, l)
            st.mem[l] = nl.pay[1]
            # cancel the loop-entry version bump
            return self.promote(st, n0, desc, i, simple)

    def entry_value(self, st, l, own):
        ev = self.premem.get(l)
        if ev is not None:
            return ev
        return mk("rd", l, max(0, own.args[1] - 1))

    # ------------------------------------------------------------ whole functions
    def run(self, fn):
        X._memo_ite.clear()
        self.frames = []
        self.toprets = []
        fr = Frame()
        fr.fn, fr.uid, fr.bind, fr.rets, fr.loops, fr.top = fn, 0, {}, [], [], True
        rt = self.F.types[fn["ret"]] if isinstance(fn.get("ret"), int) and fn["ret"] >= 0 else ""
        fr.retref = rt.endswith("&")
        fr.this = mk("this")
        st = State()
        for j, p in enumerate(fn.get("params", [])):
            t = self.ty(p)
            base = mk("param", j, p["n"] if False else "p%d" % j)
            if t.endswith("&") or self.kind(t) == "cls":
                fr.bind[p["id"]] = base
            else:
                l = mk("var", 0, p["id"], p["n"])
                st.env[l] = self.typed(base, t)
                fr.bind[p["id"]] = l
        self.frames = [fr]
        self.stack = [fn["fk"]]
        for ini in fn.get("inits", []):
            self.ctor_init(st, ini)
        self.ex(st, self.nonull(fn.get("body")) if fn.get("dtor") else fn.get("body"))
        void = strip(rt) == "void" or fn.get("ctor") or fn.get("dtor")
        if not void:
            for j, (pc, v, s) in enumerate(fr.rets):
                if v is None:
                    continue
                ln = Line(pc, "ret", (v,), 0, self.toprets[j][1] if j < len(self.toprets) else 0, fn["file"], fn["q"])
                self.lines.append(ln)
        self.deadnulls()
        nf = NF()
        nf.fn = fn
        nf.lines = finalize(self)
        return nf

    def nonull(self, b):
        """a destructor without the statements that clear a pointer: nothing reads it again"""
        if isinstance(b, list):
            return [self.nonull(x) for x in b]
        if not isinstance(b, dict):
            return b
        e = b.get("e") if b.get("k") == "expr" else b
        if isinstance(e, dict) and e.get("k") == "asg" and e.get("op") == "=" and isinstance(e.get("a"), dict) and isinstance(e.get("b"), dict):
            v = e["b"]
            while v.get("k") in ("cast", "paren") and isinstance(v.get("e") or v.get("a"), dict):
                v = v.get("e") or v.get("a")
            if (v.get("k") == "null" or v.get("k") == "int" and str(v.get("v")) == "0") and self.ty(e["a"]).rstrip(" &").endswith("*"):
                return {"k": "seq", "b": [], "l": e.get("l", 0)}
        if b.get("k") not in ("seq", "if", "for", "while", "do", "rfor"):
            return b
        return {k: self.nonull(v) if isinstance(v, (dict, list)) and k in ("b", "t", "e") else v for k, v in b.items()}

    def deadnulls(self):
        """zeroing cells of a local array that is only deleted afterwards"""
        def root(l):
            while l.op in ("at", "field", "base") and isinstance(l.args[0], T):
                l = l.args[0]
            return l
        gone = set()
        for ln in reversed(self.lines):
            if ln.kind == "delete" and ln.pay[0].op in ("base", "addr"):
                gone.add(root(ln.pay[0]))
                continue
            if ln.kind == "store" and ln.pay[1] is num(0) and ln.pay[0].op != "ite" and root(ln.pay[0]) in gone:
                ln.kind, ln.pay = "dead", ()
                continue
            if ln.kind == "dead":
                continue
            if gone:
                for t in list(ln.loops) + [ln.guard] + list(ln.pay):
                    if isinstance(t, T):
                        gone -= set(x for x in X.subterms(t) if x in gone)
            if not gone and ln.kind not in ("delete",):
                pass

    def ctor_init(self, st, ini):
        e = ini.get("e")
        this = self.frames[-1].this
        if ini.get("m"):
            l = mk("field", this, ini["m"])
            t = self.F.types[ini["mt"]]
            if e is None:
                return
            if t.endswith("&"):
                b = self.lv(st, e)
                self.emit(st, "store", (l, self.addr(b)), (0, 0), e if e.get("l") else ini)
                return
            if self.kind(t) == "cls":
                if e["k"] == "ctor" and not [a for a in e.get("a", []) if a and a.get("n") != "allocator"] and not ini.get("w"):
                    return
                v = self.ev(st, e)
                if v.op == "call" and str(v.args[0]).startswith("ctor ") and len(v.args) == 1:
                    return
                vs = v
                if v.op == "call" and str(v.args[0]).startswith("ctor std::vector"):
                    a = list(v.args[1:])
                    if a and (a[0].op != "rd" or strip(self.ty([x for x in e["a"] if x][0])) in INTS):
                        st.mem[self.sizeloc(l)] = a[0]
                        if len(a) == 2 and a[1] is X.ZERO:
                            vs = mk("call", v.args[0], a[0])
                self.emit(st, "init", [l, vs], 0, ini)
                return
            v = self.ev(st, e)
            v = self.typed(self.conv(v, t, self.ty(e)), t)
            self.emit(st, "store", (l, v), (0, 0), ini)
            st.mem[l] = v
            return
        if e is None:
            return
        if ini.get("base") or ini.get("deleg"):
            v = self.ev(st, e)
            if v.op == "call" and len(v.args) == 1 and not ini.get("deleg"):
                return
            self.emit(st, "initbase", [mk("str", ini.get("base", "this")), v], 0, ini)


# ---------------------------------------------------------------- finishing
DROPOBJ = ("basic_ostringstream", "OstringStream", "basic_stringstream<char")


def kind_merges(k):
    return k in ("throw", "assert")       # throwing twice is throwing once


def streams(t, seen=None):
    out = set()
    todo = [t]
    seen = set()
    while todo:
        x = todo.pop()
        if not isinstance(x, X.T) or id(x) in seen:
            continue
        seen.add(id(x))
        if x.op == "obj":
            if any(d in str(x.args[1]) for d in DROPOBJ):
                out.add(x)
            continue
        todo.extend(x.args)
    return out


def finalize(N):
    out = {}
    readback = set()      # string streams whose text is used again
    for ln in N.lines:
        if ln.kind not in ("out", "init", "dead") and ln.guard is not X.FALSE:
            for p in list(ln.pay) + [ln.guard]:
                readback |= streams(p)
    for ln in N.lines:
        g = ln.guard
        if g is X.FALSE or ln.kind == "dead":
            continue
        if ln.kind in ("out",):
            l = ln.pay[0]
            r = l
            while r.op in ("field",):
                r = r.args[0]
            if r.op == "obj" and r not in readback and any(d in str(r.args[1]) for d in DROPOBJ):
                continue
        if ln.kind == "init" and ln.pay[0].op == "obj" and any(d in str(ln.pay[0].args[1]) for d in DROPOBJ):
            continue
        pl = rebuild("pl", ln.pay)
        pl = X.constrain(pl, g)
        for c, leaf in X.split(pl):
            gg = AND(g, c)
            if gg is X.FALSE:
                continue
            if ln.kind == "store" and leaf.args[1].op == "rd" and leaf.args[1].args[0] is leaf.args[0] and leaf.args[1].args[1] == ln.v:
                continue      # x = x
            if ln.kind == "store" and leaf.args[1].op in ("min", "max"):
                # x = min(x, y)  is  if (y < x) x = y
                x, y = leaf.args[1].args
                if y.op == "rd" and y.args[0] is leaf.args[0]:
                    x, y = y, x
                if x.op == "rd" and x.args[0] is leaf.args[0]:
                    gg = AND(gg, X.lt(y, x) if leaf.args[1].op == "min" else X.lt(x, y))
                    leaf = rebuild("pl", (leaf.args[0], y) + tuple(leaf.args[2:]))
            loops = tuple(ln.loops)
            k = (loops, ln.kind, leaf, ln.seq)
            if kind_merges(ln.kind) and k in out:
                o = out[k][0]
                o[0] = OR(o[0], gg)
            else:
                for o in out.setdefault(k, []):
                    if AND(o[0], gg) is X.FALSE:
                        o[0] = OR(o[0], gg)
                        break
                else:
                    out[k].append([gg, ln])
    res = []
    for (loops, kind, leaf, seq), lst in out.items():
        for g, ln in lst:
            x = Line(g, kind, leaf.args, seq, ln.l, ln.file, ln.fnq)
            x.loops = list(loops)
            res.append(x)
    return res


def show_line(ln):
    s = ""
    for j, d in enumerate(ln.loops):
        s += "for %s<%s%s: " % ("ijklmnpq"[j] if j < 8 else "i%d" % j, X.show(d.args[0]), "" if d.args[1] is X.FALSE else " until " + X.show(d.args[1]))
    if ln.guard is not X.TRUE:
        s += "if %s: " % X.show(ln.guard)
    p = ln.pay
    if ln.kind == "store":
        s += "%s = %s" % (X.show(p[0]), X.show(p[1]))
    elif ln.kind == "ret":
        s += "return %s" % X.show(p[0])
    else:
        s += "%s(%s)" % (ln.kind, ", ".join(X.show(x) for x in p))
    return s
