"""Hash-consed canonical terms: values, locations and guards of the normal form.

A value is a multi-terminal decision diagram: `ite` nodes over boolean atoms,
ordered by the atoms' keys, with ite-free leaf terms.  Guards are the same with
leaves 1 and 0.  Arithmetic is kept as polynomials over opaque factors."""
import hashlib
from fractions import Fraction


class Blowup(Exception):
    pass


class T(object):
    __slots__ = ("op", "args", "key", "id", "ops")

    def __repr__(self):
        return show(self)


_tab = {}
_cnt = [0]


def reset():
    _tab.clear()
    _memo_ite.clear()
    _memo_app.clear()
    global ZERO, ONE, FALSE, TRUE
    ZERO = mk("num", Fraction(0))
    ONE = mk("num", Fraction(1))
    FALSE, TRUE = ZERO, ONE


def _keyof(a):
    if isinstance(a, T):
        return a.key
    if isinstance(a, tuple):
        return "(" + ",".join(_keyof(x) for x in a) + ")"
    return str(a)


def mk(op, *args):
    k = (op,) + args
    t = _tab.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    t.id = len(_tab)
    h = hashlib.md5((op + "|" + "|".join(_keyof(a) for a in args)).encode()).hexdigest()[:16]
    t.key = h
    t.ops = None
    _tab[k] = t
    return t


_memo_ite = {}
_memo_app = {}
ZERO = mk("num", Fraction(0))
ONE = mk("num", Fraction(1))
FALSE, TRUE = ZERO, ONE


def num(v):
    return mk("num", Fraction(v))


def isnum(t):
    return t.op == "num"


# ---------------------------------------------------------------- decision diagrams
def ite(c, a, b):
    """c: boolean diagram"""
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    k = (c.id, a.id, b.id)
    r = _memo_ite.get(k)
    if r is not None:
        return r
    if c.op != "ite":
        # a bare leaf used as condition
        c = tobool(c)
        if c.op != "ite":
            return a if c is TRUE else b
    top = c.args[0]
    for x in (a, b):
        if x.op == "ite" and x.args[0].key < top.key:
            top = x.args[0]
    hi = ite(cof(c, top, 1), cof(a, top, 1), cof(b, top, 1))
    lo = ite(cof(c, top, 0), cof(a, top, 0), cof(b, top, 0))
    r = hi if hi is lo else minmax(top, hi, lo)
    if len(_memo_ite) > 400000:
        raise Blowup("decision diagram too large")
    _memo_ite[k] = r
    return r


def minmax(top, hi, lo):
    """x < y ? x : y  is min(x, y)"""
    if top.op == "lt" and hi.op != "ite" and lo.op != "ite" and not (hi.op == "num" and lo.op == "num"):
        x, y = top.args
        if hi is x and lo is y:
            return mk("min", *sorted((x, y), key=lambda t: t.key))
        if hi is y and lo is x:
            return mk("max", *sorted((x, y), key=lambda t: t.key))
    return mk("ite", top, hi, lo)


def restrict(x, a, v):
    """cofactor on an atom anywhere in the diagram"""
    memo = {}

    def go(x):
        if x.op != "ite":
            return x
        r = memo.get(x.id)
        if r is None:
            if x.args[0] is a:
                r = x.args[1] if v else x.args[2]
            elif x.args[0].key > a.key:
                r = x
            else:
                r = ite(atom(x.args[0]), go(x.args[1]), go(x.args[2]))
            memo[x.id] = r
        return r
    return go(x)


def cof(x, atom, v):
    if x.op == "ite" and x.args[0] is atom:
        return x.args[1] if v else x.args[2]
    return x


def AND(a, b):
    return ite(a, b, FALSE)


def OR(a, b):
    return ite(a, TRUE, b)


def NOT(a):
    return ite(a, FALSE, TRUE)


def atom(t):
    return mk("ite", t, TRUE, FALSE)


def leaves(x, limit=64):
    out, seen, st = [], set(), [x]
    while st:
        y = st.pop()
        if y.id in seen:
            continue
        seen.add(y.id)
        if y.op == "ite":
            st.append(y.args[1])
            st.append(y.args[2])
        else:
            out.append(y)
    return out


def nsize(x):
    seen, st = set(), [x]
    while st:
        y = st.pop()
        if y.id in seen:
            continue
        seen.add(y.id)
        if y.op == "ite":
            st.append(y.args[1])
            st.append(y.args[2])
    return len(seen)


def cond_of(x, leaf):
    """boolean diagram: x equals leaf"""
    memo = {}

    def go(y):
        if y.id in memo:
            return memo[y.id]
        if y.op == "ite":
            r = ite(atom(y.args[0]), go(y.args[1]), go(y.args[2]))
        else:
            r = TRUE if y is leaf else FALSE
        memo[y.id] = r
        return r
    return go(x)


def split(x):
    """[(condition, leaf)]"""
    if x.op != "ite":
        return [(TRUE, x)]
    return [(cond_of(x, l), l) for l in sorted(leaves(x), key=lambda t: t.key)]


def constrain(x, g):
    """simplify x under guard g (Coudert-Madre restrict)"""
    if g is TRUE or x.op != "ite":
        return x
    if g is FALSE:
        return x
    memo = {}

    def go(x, g):
        if g is TRUE or x.op != "ite" or g is FALSE:
            return x
        k = (x.id, g.id)
        if k in memo:
            return memo[k]
        gt = g.args[0]
        xt = x.args[0]
        if gt.key < xt.key:
            r = go(x, OR(g.args[1], g.args[2]))
        else:
            gh, gl = (cof(g, xt, 1), cof(g, xt, 0))
            if gh is FALSE:
                r = go(x.args[2], gl)
            elif gl is FALSE:
                r = go(x.args[1], gh)
            else:
                h = go(x.args[1], gh)
                l = go(x.args[2], gl)
                r = h if h is l else ite(atom(xt), h, l)
        memo[k] = r
        return r
    return go(x, g)


def lift(fn, *vals):
    """apply fn to the leaves of several diagrams"""
    if all(v.op != "ite" for v in vals):
        return fn(*vals)
    memo = {}
    cnt = [0]

    def go(vs):
        k = tuple(v.id for v in vs)
        r = memo.get(k)
        if r is not None:
            return r
        top = None
        for v in vs:
            if v.op == "ite" and (top is None or v.args[0].key < top.key):
                top = v.args[0]
        if top is None:
            r = fn(*vs)
        else:
            cnt[0] += 1
            if cnt[0] > 600:
                raise Blowup("value diagram too large")
            r = ite(atom(top), go(tuple(cof(v, top, 1) for v in vs)), go(tuple(cof(v, top, 0) for v in vs)))
        memo[k] = r
        return r
    return go(tuple(vals))


def tobool(x):
    """truth of a value"""
    def leafb(l):
        if l.op == "num":
            return FALSE if l.args[0] == 0 else TRUE
        if l.op == "str" or l.op == "addr":
            return TRUE
        return NOT(eq0(l))
    return lift(leafb, x)


def boolval(t):
    """value of a boolean-typed opaque term"""
    return lift(lambda l: l if l.op == "num" else atom(mk("B", l)), t)


# ---------------------------------------------------------------- polynomials
def _poly(t):
    if t.op == "num":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        return {m: c for m, c in t.args[0]}
    return {(t,): Fraction(1)}


def _unpoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return num(c)
        if len(m) == 1 and c == 1:
            return m[0]
    if len(d) > 40:
        raise Blowup("polynomial too large")
    # x - y (x div y)  is  x mod y
    for m, c in d.items():
        q = [f for f in m if f.op == "idiv"]
        if len(q) == 1 and len(q[0].args) == 2:
            x, y = q[0].args
            k = -c
            rest = list(m)
            rest.remove(q[0])
            if y.op == "num":
                k = k / y.args[0]
            elif y in rest:
                rest.remove(y)
            else:
                continue
            px = _poly(x)
            if len(px) == 1 and y.op != "poly":
                (mx, cx), = px.items()
                t = tuple(sorted(list(mx) + rest, key=lambda f: f.key))
                if cx == 1 and d.get(t) == k:
                    e = dict(d)
                    del e[m], e[t]
                    mm = tuple(sorted(rest + [mk("imod", x, y)], key=lambda f: f.key))
                    e[mm] = e.get(mm, 0) + k
                    return _unpoly(e)
    items = sorted(d.items(), key=lambda mc: (len(mc[0]), tuple(f.key for f in mc[0])))
    return mk("poly", tuple(items))


def _add(a, b):
    p = dict(_poly(a))
    for m, c in _poly(b).items():
        p[m] = p.get(m, 0) + c
    return _unpoly(p)


def _mul(a, b):
    if a is ZERO or b is ZERO:
        return ZERO
    p = {}
    pa, pb = _poly(a), _poly(b)
    if len(pa) * len(pb) > 60:
        raise Blowup("polynomial too large")
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            fs = list(m1 + m2)
            # x * inv(x) = 1
            invs = [f for f in fs if f.op == "inv"]
            for f in invs:
                if f.args[0] in fs and f in fs:
                    fs.remove(f)
                    fs.remove(f.args[0])
            m = tuple(sorted(fs, key=lambda f: f.key))
            p[m] = p.get(m, 0) + c1 * c2
    return _unpoly(p)


def add(a, b):
    return lift(_add, a, b)


def mul(a, b):
    return lift(_mul, a, b)


def neg(a):
    return lift(lambda x: _mul(num(-1), x), a)


def sub(a, b):
    return add(a, neg(b))


def inv(a):
    def f(x):
        if x.op == "num" and x.args[0] != 0:
            return num(1 / x.args[0])
        p = _poly(x)
        if len(p) == 1:
            (m, c), = p.items()
            r = num(1 / c)
            for q in m:
                r = _mul(r, q.args[0] if q.op == "inv" else mk("inv", q))
            return r
        return mk("inv", x)
    return lift(f, a)


def fdiv(a, b):
    return mul(a, inv(b))


def idiv(a, b):
    def f(x, y):
        if y is ONE:
            return x
        if x.op == "num" and y.op == "num" and y.args[0] != 0:
            q = abs(x.args[0]) // abs(y.args[0])
            return num(q if (x.args[0] >= 0) == (y.args[0] > 0) else -q)
        if x is ZERO:
            return ZERO
        if x is y:
            return ONE
        if x.op == "poly":
            # (x - x mod y) div y  is  x div y
            p = _poly(x)
            for m, c in p.items():
                if len(m) == 1 and c == -1 and m[0].op == "imod" and m[0].args[1] is y:
                    r = _unpoly({q: k for q, k in p.items() if q != m})
                    if r is m[0].args[0]:
                        return mk("idiv", r, y)
        return mk("idiv", x, y)
    return lift(f, a, b)


def imod(a, b):
    def f(x, y):
        if y is ONE:
            return ZERO
        if x.op == "num" and y.op == "num" and y.args[0] != 0:
            v = abs(x.args[0]) % abs(y.args[0])
            return num(v if x.args[0] >= 0 else -v)
        if x is ZERO or x is y:
            return ZERO
        return mk("imod", x, y)
    return lift(f, a, b)


def constpart(t):
    return _poly(t).get((), Fraction(0))


# ---------------------------------------------------------------- comparisons
_PTR = ("addr", "base", "fnref")


def atoms(t):
    """what the cases of a choice are told by, in order"""
    seen, st, out = set(), [t], []
    while st:
        y = st.pop()
        if isinstance(y, T) and y.op == "ite" and y.id not in seen:
            seen.add(y.id)
            if y.args[0] not in out:
                out.append(y.args[0])
            st += [y.args[2], y.args[1]]
    return sorted(out, key=lambda u: u.key)


def hits(p):
    """(loop, condition) when the polynomial is a count of rounds: those in which the
    condition holds, or all of them but those; up to sign"""
    ss = [(m[0], c) for m, c in p.items() if len(m) == 1 and m[0].op == "sum"]
    if len(ss) != 1:
        return None
    S, c = ss[0]
    desc, body = S.args
    if desc.op != "loop" or desc.args[1] is not FALSE or not isinstance(body, T) or body.op != "ite" or desc.args[0].op in ("inf", "ite"):
        return None
    lv = split(body)
    if len(lv) > 6 or any(v is not ZERO and v is not ONE for _, v in lv):
        return None
    cond = FALSE
    for g, v in lv:
        if v is ONE:
            cond = OR(cond, g)
    rest = {m: k for m, k in p.items() if m != (S,)}
    if not rest:
        return desc, cond
    if _unpoly({m: -k / c for m, k in rest.items()}) is desc.args[0]:
        return desc, NOT(cond)
    return None


def _residue(p):
    """x + k mod n equal to r (constants n, k, r): one form, x mod n equal to r - k"""
    ms = [m for m in p if m]
    if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0].op != "imod":
        return None
    x, n = ms[0][0].args
    if n.op != "num" or n.args[0] <= 2 or n.args[0] != int(n.args[0]):
        return None
    n = int(n.args[0])
    r = -p.get((), 0) / p[ms[0]]
    if r != int(r) or not 0 <= r < n:
        return None
    q = dict(_poly(x))
    k = q.pop((), 0)
    if k != int(k) or not q or any(c != int(c) for c in q.values()):
        return None
    r = int(r - k) % n
    y = mk("imod", _unpoly(q), num(n))
    return atom(mk("eq0", _unpoly({(y,): 1, (): -r}) if r else y))


def eq0(x):
    """boolean diagram: leaf x is zero (numeric or null)"""
    if x.op == "num":
        return TRUE if x.args[0] == 0 else FALSE
    if x.op in _PTR:
        return FALSE
    p = _poly(x)
    r = _residue(p)
    if r is not None:
        return r
    if any(len(m) == 1 and m[0].op == "sum" for m in p):
        h = hits(p)
        if h is not None:
            return NOT(atom(mk("any", *h)))
    if len(p) == 1:
        (m, c), = p.items()
        if len(m) == 1:
            if m[0].op == "inv":
                return FALSE
            if m[0].op == "imod" and m[0].args[1].op == "num" and m[0].args[1].args[0] == 2:
                # even: the lowest bit is clear
                return atom(mk("eq0", mk("bit&", *sorted((ONE, m[0].args[0]), key=lambda t: t.key))))
            return atom(mk("eq0", m[0]))
    items = sorted(p.items(), key=lambda mc: (len(mc[0]), tuple(f.key for f in mc[0])))
    lead = [c for m, c in items if m][0]
    return atom(mk("eq0", _unpoly({m: c / lead for m, c in p.items()})))


def eq(a, b, arith=True):
    def f(x, y):
        if x is y:
            return TRUE
        if arith:
            return eq0(_add(x, _mul(num(-1), y)))
        if x.op == "str" and y.op == "str":
            return FALSE
        if x.key > y.key:
            x, y = y, x
        return atom(mk("eqv", x, y))
    return lift(f, a, b)


WHOLE = set()


def whole(d):
    """(compared as whole numbers somewhere)"""
    q = {m: c for m, c in _poly(d).items() if m}
    if len(q) <= 4:
        WHOLE.update(m[0] for m in q if len(m) == 1)


def lt(a, b, isint=False, unsigned=False):
    def f(x, y):
        if x is y:
            return FALSE
        if isint and (x.op in ("max", "min") or y.op in ("max", "min")):
            if x.op in ("max", "min") and len(x.args) == 2:
                return (AND if x.op == "max" else OR)(f(x.args[0], y), f(x.args[1], y))
            if y.op in ("max", "min") and len(y.args) == 2:
                return (AND if y.op == "min" else OR)(f(x, y.args[0]), f(x, y.args[1]))
        if x is ZERO or y is ONE:
            w = y if x is ZERO else x
            w = _poly(w) if w.op in ("sum", "poly") else {}
            if any(k > 0 and len(m) == 1 and m[0].op == "sum" or k < 0 and len(m) == 1 and m[0].op == "sum" and len(w) > 1 for m, k in w.items()):
                h = hits(w)
                ks = [k for m, k in w.items() if len(m) == 1 and m[0].op == "sum"]
                if h is not None and len(ks) == 1 and (ks[0] == 1 and len(w) == 1 or ks[0] == -1 and len(w) > 1):
                    r = atom(mk("any", *h))
                    return r if x is ZERO else NOT(r)
        d = _add(y, _mul(num(-1), x))
        if d.op == "num" and not unsigned:
            return TRUE if d.args[0] > 0 else FALSE
        if x.op == "num" and y.op == "num":
            return TRUE if x.args[0] < y.args[0] else FALSE
        if d.op == "num" and unsigned:
            return TRUE if d.args[0] > 0 else FALSE
        cx, cy = constpart(x), constpart(y)
        if isint:
            whole(d)
            m = min(cx, cy)
            if m > 0 and x.op != "num" and y.op != "num":
                x = _add(x, num(-m))
                y = _add(y, num(-m))
                cx -= m
                cy -= m
            if not unsigned:
                # move negative constants to the other side
                if cx < 0 and x.op != "num":
                    y = _add(y, num(-cx))
                    x = _add(x, num(-cx))
                    cy -= cx
                    cx = Fraction(0)
                if cy < 0 and y.op != "num":
                    x = _add(x, num(-cy))
                    y = _add(y, num(-cy))
                    cx -= cy
                    cy = Fraction(0)
            if unsigned and x.op == "num" and x.args[0] == 0:
                return NOT(eq0(y))
            if unsigned and y.op == "num" and y.args[0] == 1:
                return eq0(x)
            if unsigned and y.op == "num" and y.args[0] == 0:
                return FALSE
            if y.op == "num" and x.op != "num":
                # x < c  ==  not (c-1 < x)
                return NOT(atom(mk("lt", num(y.args[0] - 1), x)))
            if x.op != "num" and y.op != "num" and cy == 1 and cx == 0:
                return NOT(atom(mk("lt", _add(y, num(-1)), x)))
        return atom(mk("lt", x, y))
    return lift(f, a, b)


# ---------------------------------------------------------------- generic rebuild
def subst(t, fn, memo=None):
    """rebuild t bottom-up, fn(T) -> T or None for replacement before descending"""
    if memo is None:
        memo = {}

    def arg(a):
        if isinstance(a, T):
            return go(a)
        if isinstance(a, tuple):
            return tuple(arg(x) for x in a)
        return a

    def go(t):
        r = memo.get(t.id)
        if r is not None:
            return r
        r = fn(t)
        if r is None:
            r = rebuild(t.op, tuple(arg(a) for a in t.args), t)
        memo[t.id] = r
        return r
    return go(t)


NPOS = 18446744073709551615


def tail(s, a, n):
    """the length argument of substr; npos when it reaches the end"""
    z = mk("call", "strsize", s)
    return num(NPOS) if n is z or n is sub(z, a) else n


def rebuild(op, args, old=None):
    if old is not None and args == old.args:
        return old
    if op == "num":
        return mk(op, *args)
    if op == "poly":
        r = ZERO
        for m, c in args[0]:
            x = num(c)
            for f in m:
                x = mul(x, f)
            r = add(r, x)
        return r
    if op == "ite":
        a = args[0]
        c = a if a.op == "ite" or a.op == "num" else atom(a)
        return ite(c, args[1], args[2])
    if op == "eq0":
        return lift(eq0, args[0])
    if op == "inv":
        return inv(args[0])
    if op == "idiv":
        return idiv(*args)
    if op == "imod":
        return imod(*args)
    if op == "lt":
        return lift(lambda x, y: (FALSE if x is y else (lt(x, y) if (x.op == "num" and y.op == "num") else atom(mk("lt", x, y)))), *args)
    if op == "eqv":
        return eq(args[0], args[1], False)
    if op == "B":
        return boolval(args[0])
    if op == "at":
        return at_loc(args[0], args[1])
    if op == "field":
        return lift(lambda x: mk("field", x, args[1]), args[0])
    if op == "two" and args[0] is args[1]:
        return args[0]
    if op in ("bit&", "bit|", "bit^"):
        args = tuple(sorted(args, key=lambda t: t.key))
        if old is not None and args == old.args:
            return old
    if op == "call" and len(args) == 4 and str(args[0]).endswith("::substr") and "basic_string" in args[0] and all(isinstance(a, T) and a.op != "ite" for a in args[1:]):
        if args[3] is ZERO:
            return mk("str", "")
        args = (args[0], args[1], args[2], tail(*args[1:]))
    if op == "cat":
        res = []
        for x in args:
            if x.op == "str" and x.args[0] == "":
                continue
            if x.op == "str" and res and res[-1].op == "str":
                res[-1] = mk("str", res[-1].args[0] + x.args[0])
            else:
                res.append(x)
        if not res:
            return mk("str", "")
        if len(res) == 1:
            return res[0]
        args = tuple(res)
    if op in ("min", "max") and len(args) == 2:
        if args[0] is args[1]:
            return args[0]
        args = tuple(sorted(args, key=lambda t: t.key))
        if old is not None and args == old.args:
            return old
    # lift over ite arguments in direct positions
    if any(isinstance(a, T) and a.op == "ite" for a in args) and op not in ("sum", "any", "mu", "muend", "first", "lam", "exitval", "last", "loop"):
        pos = [i for i, a in enumerate(args) if isinstance(a, T)]

        def f(*vs):
            l = list(args)
            for i, v in zip(pos, vs):
                l[i] = v
            return mk(op, *l)
        return lift(f, *[args[i] for i in pos])
    return mk(op, *args)


def at_loc(base, idx):
    """element idx after pointer value base (lifts)"""
    def f(b, i):
        p = _poly(b)
        ptr = [m for m in p if len(m) == 1 and p[m] == 1 and isptr(m[0])]
        if len(ptr) == 1:
            rest = dict(p)
            del rest[ptr[0]]
            a = ptr[0][0]
            i = _add(i, _unpoly(rest))
        else:
            a = b
        if a.op == "addr":
            l = a.args[0]
            if i is ZERO:
                return l
            if l.op == "at":
                return mk("at", l.args[0], _add(l.args[1], i))
        return mk("at", a, i)
    return lift(f, base, idx)


def isptr(t):
    if t.op in ("addr", "base"):
        return True
    return t.op in ("ptr",)


def contains(t, pred):
    seen, st = set(), [t]
    while st:
        y = st.pop()
        if isinstance(y, tuple):
            st.extend(y)
            continue
        if not isinstance(y, T) or y.id in seen:
            continue
        seen.add(y.id)
        if pred(y):
            return True
        st.extend(y.args)
    return False


def subterms(t):
    seen, st = set(), [t]
    while st:
        y = st.pop()
        if isinstance(y, tuple):
            st.extend(y)
            continue
        if not isinstance(y, T) or y.id in seen:
            continue
        seen.add(y.id)
        yield y
        st.extend(y.args)


# ---------------------------------------------------------------- display
def show(t, d=0):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if d > 12:
        return "…"
    s = lambda x: show(x, d + 1)
    o, a = t.op, t.args
    if o == "num":
        return str(a[0])
    if o == "str":
        return repr(a[0])
    if o == "poly":
        out = []
        for m, c in a[0]:
            f = "*".join(s(x) for x in m)
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(f)
            elif c == -1:
                out.append("-" + f)
            else:
                out.append("%s*%s" % (c, f))
        return "(" + " + ".join(out).replace("+ -", "- ") + ")"
    if o == "ite":
        if a[1] is TRUE and a[2] is FALSE:
            return s(a[0])
        if a[1] is FALSE and a[2] is TRUE:
            return "!" + s(a[0])
        return "[%s ? %s : %s]" % (s(a[0]), s(a[1]), s(a[2]))
    if o == "lt":
        return "%s < %s" % (s(a[0]), s(a[1]))
    if o == "eq0":
        return "(%s == 0)" % s(a[0])
    if o == "eqv":
        return "(%s == %s)" % (s(a[0]), s(a[1]))
    if o == "B":
        return s(a[0])
    if o == "rd":
        return s(a[0]) + ("" if a[1] in (0, "0") else "'%s" % (a[1],))
    if o == "field":
        return s(a[0]) + "." + a[1]
    if o == "at":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "base":
        return s(a[0])
    if o == "ptr":
        return s(a[0])
    if o == "this":
        return "this"
    if o == "param":
        return str(a[1])
    if o == "obj":
        return str(a[-1])
    if o == "i":
        return "ijklmnpq"[a[0]] if a[0] < 8 else "i%d" % a[0]
    if o == "inv":
        return "1/" + s(a[0])
    if o == "idiv":
        return "(%s div %s)" % (s(a[0]), s(a[1]))
    if o == "imod":
        return "(%s mod %s)" % (s(a[0]), s(a[1]))
    if o == "call":
        return "%s(%s)" % (str(a[0]).split("::")[-1] if "<" not in str(a[0]) else str(a[0]).split(">::")[-1], ", ".join(s(x) for x in a[1:]))
    if o == "sum":
        return "SUM{%s}(%s)" % (s(a[0]), s(a[1]))
    return "%s(%s)" % (o, ", ".join(s(x) for x in a))
