"""Equivalence of two versions of one function by normal form (vlib/norm.py), and
the localisation of a difference.

Verdicts: same (equal normal forms under at least one inlining policy),
different (a localised semantic difference: which effect, under which guard),
unknown (the forms differ, but through constructs the normal form does not
summarise, so nothing is claimed)."""
import itertools
import hashlib
from . import facts as FX
from . import norm as NM
from . import terms as X
from .terms import mk, T

irhash = FX.irhash


def nsize(fn):
    c = fn.get("_sz")
    if c is None:
        c = fn["_sz"] = sum(1 for _ in FX.walk(fn.get("body")))
    return c


def loopfree(fn):
    c = fn.get("_lf")
    if c is None:
        c = fn["_lf"] = not any(x.get("k") in ("for", "while", "do", "rfor", "try", "goto") for x in FX.walk(fn.get("body")))
    return c


def small(fn):
    b = fn.get("body")
    return bool(b) and b["k"] == "seq" and loopfree(fn) and nsize(fn) <= 60 and not stub(fn)


def stub(fn):
    """empty in this configuration, not in others: the call itself is what matters"""
    return (not fn["body"].get("b") and not fn.get("inits") and not fn.get("ctor") and not fn.get("dtor")) or fn["q"].startswith("PsimagLite::MPI::")


# ---------------------------------------------------------------- canonical locals
def local_terms(lines):
    out = {}
    for ln in lines:
        for t in list(ln.loops) + [ln.guard] + list(ln.pay):
            for s in X.subterms(t):
                if s.op == "obj" or (s.op == "var"):
                    out[s] = 1
    return list(out)


def typ(o):
    return str(o.args[1]) if o.op == "obj" else "var"


def nameof(o):
    return str(o.args[-1])


def labels(lines, objs):
    lab = {o: typ(o) for o in objs}
    ment = {}
    for i, ln in enumerate(lines):
        s = set()
        for t in list(ln.loops) + [ln.guard] + list(ln.pay):
            s.update(x for x in X.subterms(t) if x.op in ("obj", "var"))
        ment[i] = s
    for it in range(3):
        if len(set(lab.values())) == len(objs):
            pass
        keys = {}
        for i, ln in enumerate(lines):
            if not ment[i]:
                continue
            for o in ment[i]:
                m = {}

                def f(t, o=o):
                    if t.op in ("obj", "var"):
                        return mk("L", "@" if t is o else lab[t])
                    return None
                # the guard is left out: it is compared, not used to identify
                k = ln.kind + "|" + "|".join(X.subst(p, f, m).key for p in ln.pay) + "|" + "|".join(X.subst(p, f, m).key for p in ln.loops)
                keys.setdefault(o, []).append(k)
        new = {}
        for o in objs:
            new[o] = hashlib.md5((typ(o) + "".join(sorted(keys.get(o, [])))).encode()).hexdigest()[:12]
        lab = new
        if len(set(lab.values())) == len(objs):
            break
    return lab


def match_locals(la, lb):
    """renaming maps for both line lists to common local names"""
    oa, ob = local_terms(la), local_terms(lb)
    if not oa and not ob:
        return {}, {}
    A, B = labels(la, oa), labels(lb, ob)
    ma, mb = {}, {}
    ga, gb = {}, {}
    for o in oa:
        ga.setdefault(A[o], []).append(o)
    for o in ob:
        gb.setdefault(B[o], []).append(o)
    ra, rb = [], []
    c = 0

    def pair(x, y):
        nonlocal c
        t = mk("obj", 1000 + c, typ(x), nameof(x))
        c += 1
        ma[x] = t
        mb[y] = t
    for k in ga:
        xs = sorted(ga[k], key=lambda o: (nameof(o), o.args[0]))
        ys = sorted(gb.get(k, []), key=lambda o: (nameof(o), o.args[0]))
        for x, y in zip(xs, ys):
            pair(x, y)
        ra += xs[len(ys):]
        rb += ys[len(xs):]
    for k in gb:
        if k not in ga:
            rb += gb[k]
    for same in (lambda x, y: typ(x) == typ(y) and nameof(x) == nameof(y), lambda x, y: typ(x) == typ(y)):
        for x in sorted(ra, key=lambda o: str(o.args)):
            if x in ma:
                continue
            for y in sorted(rb, key=lambda o: str(o.args)):
                if y not in mb and same(x, y):
                    pair(x, y)
                    break
    for x in ra:
        if x not in ma:
            ma[x] = mk("obj", 2000 + len(ma), typ(x), nameof(x))
    for y in rb:
        if y not in mb:
            mb[y] = mk("obj", 3000 + len(mb), typ(y), nameof(y))
    return ma, mb


def rename(lines, m):
    if not m:
        return lines
    memo = {}

    def f(t):
        return m.get(t) if t.op in ("obj", "var") else None
    out = []
    for ln in lines:
        x = NM.Line(X.subst(ln.guard, f, memo), ln.kind, tuple(X.subst(p, f, memo) for p in ln.pay), ln.seq, ln.l, ln.file, ln.fnq)
        x.loops = [X.subst(d, f, memo) for d in ln.loops]
        out.append(x)
    return out


def lkey(ln):
    return (tuple(ln.loops), ln.guard, ln.kind, tuple(ln.pay))


def seqkey(ln):
    if ln.kind in ("out", "call", "new", "delete", "store", "asg", "swap"):
        return ln.seq
    return ()


def mdiff(a, b, key):
    c = {}
    for ln in b:
        c.setdefault(key(ln), []).append(ln)
    ra = []
    for ln in a:
        l = c.get(key(ln))
        if l:
            l.pop()
        else:
            ra.append(ln)
    rb = [x for l in c.values() for x in l]
    return ra, rb


# ---------------------------------------------------------------- equality modulo arithmetic
def linkey(p):
    """direction and offset of a polynomial: p == s * (v + k)"""
    d = X._poly(p)
    k = d.pop((), 0)
    if not d:
        return None
    items = sorted(d.items(), key=lambda mc: (len(mc[0]), tuple(f.key for f in mc[0])))
    s = items[0][1]
    return tuple((m, c / s) for m, c in items), s, k / s


def atoms_of(*ts):
    out = {}
    for t in ts:
        seen, st = set(), [t]
        while st:
            y = st.pop()
            if isinstance(y, T) and y.op == "ite" and y.id not in seen:
                seen.add(y.id)
                out[y.args[0]] = 1
                st += [y.args[1], y.args[2]]
    return list(out)


def counted(f):
    """the number of elements of something, or of rounds made"""
    if f.op == "rd":
        return f.args[0].op == "field" and f.args[0].args[1] == "#size"
    return (f.op == "fieldv" and f.args[1] == "#size") or (f.op == "call" and f.args[0] == "strsize") or f.op == "i"


def integral(v):
    """(takes whole values only, never negative)"""
    w = all(c == int(c) and all(counted(f) or f in X.WHOLE for f in m) for m, c in v)
    return w, w and all(c > 0 and all(counted(f) for f in m) for m, c in v)


def axioms(atoms):
    """what arithmetic says about comparisons of the same quantity"""
    groups, strs = {}, {}
    for a in atoms:
        if a.op == "lt":
            r = linkey(X._add(a.args[1], X._mul(X.num(-1), a.args[0])))
            if r:
                v, s, k = r                      # 0 < s (v + k)
                groups.setdefault(v, []).append((a, "gt" if s > 0 else "lt", -k))
        elif a.op == "eq0":
            r = linkey(a.args[0])
            if r:
                v, s, k = r
                groups.setdefault(v, []).append((a, "eq", -k))
        elif a.op == "eqv":
            x, y = a.args
            if x.op == "str":
                x, y = y, x
            if y.op == "str" and x.op != "str":
                strs.setdefault(x, []).append(a)
    ax = X.TRUE
    for v, l in groups.items():
        if len(l) < 2 or len(l) > 24:
            continue
        ks = sorted(set(k for _, _, k in l))
        whole, low = integral(v)
        if whole and all(k == int(k) for k in ks):
            pts = sorted(set(p for k in ks for p in (k - 1, k, k + 1) if not low or p >= 0))
        else:
            pts = [ks[0] - 1]
            for i, k in enumerate(ks):
                pts.append(k)
                pts.append((k + ks[i + 1]) / 2 if i + 1 < len(ks) else k + 1)
        r = X.FALSE
        for p in pts:
            g = X.TRUE
            for a, o, k in l:
                val = p > k if o == "gt" else p < k if o == "lt" else p == k
                g = X.AND(g, X.atom(a) if val else X.NOT(X.atom(a)))
            r = X.OR(r, g)
        ax = X.AND(ax, r)
    for x, l in strs.items():
        if 2 <= len(l) <= 24:
            r = X.TRUE
            for a in l:
                r = X.AND(r, X.NOT(X.atom(a)))
            for a in l:
                g = X.atom(a)
                for b in l:
                    if b is not a:
                        g = X.AND(g, X.NOT(X.atom(b)))
                r = X.OR(r, g)
            ax = X.AND(ax, r)
    return ax


def teq(a, b, g=None, depth=0):
    """equal wherever the guard g and arithmetic allow"""
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(teq(x, y, g, depth) for x, y in zip(a, b))
    if not isinstance(a, T) or not isinstance(b, T):
        return a == b
    if depth > 20:
        return False
    if a.op == "ite" or b.op == "ite":
        if X.nsize(a) + X.nsize(b) > 300:
            return False
        g = g if g is not None else X.TRUE
        ax = X.AND(g, axioms(atoms_of(a, b, g)))
        la, lb = X.split(a), X.split(b)
        if len(la) * len(lb) > 64:
            return False
        for ca, x in la:
            for cb, y in lb:
                if x is y:
                    continue
                both = X.AND(X.AND(ca, cb), ax)
                if both is X.FALSE:
                    continue
                if x.op == "ite" or y.op == "ite" or not teq(x, y, None, depth + 1):
                    return False
        return True
    if a.op != b.op or len(a.args) != len(b.args):
        return False
    if a.op in ("poly",):
        pa, pb = list(a.args[0]), list(b.args[0])
        if len(pa) != len(pb):
            return False
        ra = [x for x in pa if x not in pb]
        rb = [x for x in pb if x not in pa]
        if len(ra) > 6:
            return False
        for m, c in ra:
            for q in rb:
                if q[1] == c and len(q[0]) == len(m) and multieq(m, q[0], depth):
                    rb.remove(q)
                    break
            else:
                return False
        return not rb
    if a.op in ("min", "max"):
        return multieq(a.args, b.args, depth)
    return all(teq(x, y, None, depth + 1) for x, y in zip(a.args, b.args))


def multieq(xs, ys, depth):
    ys = list(ys)
    for x in xs:
        for y in ys:
            if teq(x, y, None, depth + 1):
                ys.remove(y)
                break
        else:
            return False
    return True


def shape(ln):
    return (ln.kind, len(ln.pay), len(ln.loops), ln.pay[0].op if ln.pay and ln.kind != "ret" else "")


def tmatch(ra, rb):
    """drop the pairs that are equal modulo arithmetic; several lines of one side may
    make up one line of the other (same effect under complementary guards)"""
    def group(ls):
        out = []
        for ln in ls:
            for g in out:
                if shape(g[0]) == shape(ln) and seqkey(g[0]) == seqkey(ln) and teq(tuple(g[0].loops), tuple(ln.loops)) and \
                        teq(tuple(g[0].pay), tuple(ln.pay), X.AND(g[0].guard, ln.guard) if ln.kind == "ret" else None) and \
                        X.AND(X.AND(g[1], ln.guard), axioms(atoms_of(g[1], ln.guard))) is X.FALSE:
                    g[1] = X.OR(g[1], ln.guard)
                    g[2].append(ln)
                    break
            else:
                out.append([ln, ln.guard, [ln]])
        return out
    ga, gb = group(ra), group(rb)
    restA, usedB = [], set()
    for a in ga:
        for j, b in enumerate(gb):
            if j in usedB or shape(a[0]) != shape(b[0]):
                continue
            if not teq(tuple(a[0].loops), tuple(b[0].loops)):
                continue
            if not teq(a[1], b[1]):
                continue
            ax = X.AND(a[1], b[1])
            if all(teq(x, y, ax) for x, y in zip(a[0].pay, b[0].pay)):
                usedB.add(j)
                break
        else:
            restA.append(a)
    restB = [b for j, b in enumerate(gb) if j not in usedB]
    # lines whose guard arithmetic refutes
    def dead(g):
        return X.AND(g[1], axioms(atoms_of(g[1]))) is X.FALSE
    return [l for g in restA if not dead(g) for l in g[2]], [l for g in restB if not dead(g) for l in g[2]]


def equalities(lines):
    """quantities a common guard (a throw, or an assertion) makes equal: [poly == 0]"""
    out = []
    for ln in lines:
        if ln.kind not in ("throw", "assert") or ln.loops or len(ln.pay) > 1:
            continue
        ng = X.NOT(ln.guard)
        for a in atoms_of(ln.guard):
            if a.op == "eq0" and X.AND(ng, X.NOT(X.atom(a))) is X.FALSE and a.args[0] not in out:
                out.append(a.args[0])
    return out


def eqsubst(eqs):
    """replacements x -> term, one quantity of each equality"""
    rep = {}

    def f(t):
        return rep.get(t)
    for p in eqs[:8]:
        p = X.subst(p, f)
        d = X._poly(p)
        best = None
        for m, c in d.items():
            if len(m) == 1 and abs(c) == 1 and m[0].op in ("rd", "var", "fieldv", "call", "res", "param", "p", "obj") or \
                    len(m) == 1 and abs(c) == 1 and m[0].op not in ("num", "poly", "ite", "ib", "self"):
                if best is None or m[0].key > best[0].key:
                    best = (m[0], c)
        if best is None:
            continue
        x, c = best
        rest = dict(d)
        del rest[(x,)]
        y = X._mul(X.num(-1 if c > 0 else 1), X._unpoly(rest))
        if x in set(X.subterms(y)):
            continue
        one = {x: y}
        rep = {k: X.subst(v, one.get) for k, v in rep.items()}
        rep[x] = y
    return rep


def apply_eq(lines, rep):
    out = []
    memo = {}
    for ln in lines:
        if ln.kind in ("throw", "assert"):
            out.append(ln)
            continue
        x = NM.Line(X.subst(ln.guard, rep.get, memo), ln.kind, tuple(X.subst(p, rep.get, memo) for p in ln.pay), ln.seq, ln.l, ln.file, ln.fnq)
        x.loops = [X.subst(d, rep.get, memo) for d in ln.loops]
        out.append(x)
    return out


def oddeven(ln):
    """halves of a number known to be odd, or even"""
    ats = [a for a in atoms_of(ln.guard, *[p for p in ln.pay if isinstance(p, T)])
           if a.op == "eq0" and a.args[0].op == "bit&" and any(X.isnum(y) and y.args[0] == 1 for y in a.args[0].args[:2])]
    if not ats:
        return None
    a = ats[0]
    x = [y for y in a.args[0].args[:2] if not (X.isnum(y) and y.args[0] == 1)]
    if len(x) != 1:
        return None
    x = x[0]
    out = []
    for odd, g in ((1, X.NOT(X.atom(a))), (0, X.atom(a))):
        def f(t):
            if t.op == "idiv" and X.isnum(t.args[1]) and t.args[1].args[0] == 2:
                d = X.sub(t.args[0], x)
                if X.isnum(d) and d.args[0] == int(d.args[0]):
                    return X.add(mk("idiv", x, t.args[1]), X.num((int(d.args[0]) + odd) // 2))
        gg = X.AND(ln.guard, g)
        if gg is X.FALSE:
            continue
        n = reline(ln, list(ln.loops), gg, tuple(X.subst(X.constrain(p, gg) if isinstance(p, T) else p, f) if isinstance(p, T) else p for p in ln.pay))
        out.append(n)
    return out


def parity(lines):
    out = []
    for ln in lines:
        o = oddeven(ln)
        out += o if o else [ln]
    return out


# ---------------------------------------------------------------- arithmetic inside terms
def deep(t, memo):
    """the case distinctions inside a term, simplified by what arithmetic says"""
    if not isinstance(t, T):
        return tuple(deep(x, memo) for x in t) if isinstance(t, tuple) else t
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.op == "ite":
        mine = {}

        def go(x):
            if x.op != "ite":
                return deep(x, memo)
            y = mine.get(x.id)
            if y is None:
                c = deep(x.args[0], memo)
                y = X.ite(c if c.op in ("ite", "num") else X.atom(c), go(x.args[1]), go(x.args[2]))
                mine[x.id] = y
            return y
        r = go(t)
        if r.op == "ite" and X.nsize(r) <= 120:
            ats = atoms_of(r)
            if len(ats) <= 14:
                ax = axioms(ats)
                if ax is not X.TRUE:
                    r = X.constrain(r, ax)
    else:
        r = X.rebuild(t.op, tuple(deep(a, memo) for a in t.args), t)
    memo[t.id] = r
    return r


def deepen(lines):
    memo, out = {}, []
    for ln in lines:
        g = deep(ln.guard, memo)
        if g is not X.FALSE:
            out.append(reline(ln, [deep(d, memo) for d in ln.loops], g, [deep(p, memo) for p in ln.pay]))
    return out


# ---------------------------------------------------------------- what a throw leaves reachable
def beyond(all_, lines):
    """lines with the guards under which they are really reached: no throw of an
    enclosing straight line came before"""
    thr, out = X.FALSE, {}
    want = {id(l) for l in lines}
    for ln in all_:
        if id(ln) in want:
            g = X.AND(ln.guard, X.NOT(thr)) if thr is not X.FALSE else ln.guard
            if g is X.FALSE:
                out[id(ln)] = None
            else:
                out[id(ln)] = reline(ln, ln.loops, g, [X.constrain(x, g) if isinstance(x, T) and g is not X.TRUE else x for x in ln.pay])
        if ln.kind == "throw" and not ln.loops and len(ln.pay) == 1:
            thr = X.OR(thr, ln.guard)
    return [out.get(id(l), l) for l in lines if out.get(id(l), l) is not None]


# ---------------------------------------------------------------- one iteration more or less
def reline(ln, loops, guard, pay):
    n = NM.Line(guard, ln.kind, tuple(pay), ln.seq, ln.l, ln.file, ln.fnq)
    n.loops = list(loops)
    return n


def peel(lines):
    """a loop that leaves out its last round is one round shorter; a line that repeats
    the loop's effect for the round after the last (or before the first) is part of it"""
    out = []
    for ln in lines:
        loops, g = list(ln.loops), ln.guard
        pcs = guard_cases(ln)
        for loops, g in pcs:
            changed = True
            while changed:
                changed = False
                for d, lp in enumerate(loops):
                    if lp.op != "loop" or lp.args[0].op in ("inf", "ite"):
                        continue
                    i = mk("i", d)
                    last = X.eq(X.add(i, X.num(1)), lp.args[0])
                    if last.op == "ite" and g.op == "ite" and X.AND(g, last) is X.FALSE:
                        g2 = X.constrain(g, X.NOT(last))
                        loops[d] = mk("loop", X.sub(lp.args[0], X.num(1)), lp.args[1])
                        g, changed = g2, True
            out.append(reline(ln, loops, g, [X.constrain(x, g) if isinstance(x, T) and g is not X.TRUE else x for x in ln.pay]))
    progress = True
    while progress:
        progress = False
        for a in out:
            if not a.loops or a.loops[-1].op != "loop" or a.loops[-1].args[0].op in ("inf", "ite") or a.loops[-1].args[1] is not X.FALSE:
                continue
            d = len(a.loops) - 1
            i = mk("i", d)
            cnt = a.loops[-1].args[0]
            if X.contains(a.guard, lambda t: t is i):
                continue
            for b in out:
                if b is a or b.kind != a.kind or len(b.loops) != d or tuple(b.loops) != tuple(a.loops[:-1]) or b.guard is not a.guard or len(a.pay) != len(b.pay):
                    continue

                def at(v, x):
                    return X.subst(x, lambda t: v if t is i else None) if isinstance(x, T) else x
                if not any(isinstance(x, T) and X.contains(x, lambda t: t is i) for x in a.pay):
                    continue
                if all(at(cnt, x) is y or teq(at(cnt, x), y) for x, y in zip(a.pay, b.pay)):
                    new = reline(a, a.loops[:-1] + [mk("loop", X.add(cnt, X.num(1)), X.FALSE)], a.guard, a.pay)
                elif all(at(X.num(-1), x) is y or teq(at(X.num(-1), x), y) for x, y in zip(a.pay, b.pay)):
                    new = reline(a, a.loops[:-1] + [mk("loop", X.add(cnt, X.num(1)), X.FALSE)], a.guard,
                                 [at(X.sub(i, X.num(1)), x) for x in a.pay])
                else:
                    continue
                out = [x for x in out if x is not a and x is not b] + [new]
                progress = True
                break
            if progress:
                break
    return out


def triangle(ln):
    """i < m, j < n - i with m >= n: the same pairs taken by their sum k = i + j < n, then i < k + 1"""
    if len(ln.loops) != 2 or any(lp.op != "loop" or lp.args[1] is not X.FALSE for lp in ln.loops):
        return ln
    i, j = mk("i", 0), mk("i", 1)
    n = X._add(ln.loops[1].args[0], i)
    d = X._add(ln.loops[0].args[0], X._mul(X.num(-1), n))
    if X.contains(n, lambda t: t.op == "i") or X.contains(ln.loops[0], lambda t: t.op == "i") or d.op != "num" or d.args[0] < 0:
        return ln
    k = mk("i", 99)
    g = lambda t: X.subst(X.subst(X.subst(t, lambda u: k if u is i else None), lambda u: X._add(i, X._mul(X.num(-1), j)) if u is j else None), lambda u: j if u is k else None) if isinstance(t, T) else t
    return reline(ln, [mk("loop", n, X.FALSE), mk("loop", X._add(i, X.num(1)), X.FALSE)], g(ln.guard), [g(x) for x in ln.pay])


def inter(lines):
    """stores in a nest, each round in a cell of its own, in a fixed order and direction of the loops"""
    out = []
    for ln in lines:
        n = len(ln.loops)
        loc = ln.pay[0] if ln.pay else None
        idx = [mk("i", d) for d in range(n)]
        if not (1 <= n <= 3) or ln.kind != "store" or any(lp.op != "loop" or lp.args[1] is not X.FALSE for lp in ln.loops) or \
                not isinstance(loc, T) or any(not X.contains(loc, lambda t, i=i: t is i) for i in idx) or \
                any(isinstance(p, T) and X.contains(p, lambda t: t.op == "rd" and t.args[0] is not loc and loc.op == "at" and t.args[0].op == "at" and t.args[0].args[0] is loc.args[0]) for p in list(ln.pay[1:]) + [ln.guard]):
            out.append(ln)
            continue
        if any(X.contains(lp, lambda t: t.op == "i") for lp in ln.loops):
            out.append(triangle(ln))
            continue
        best = None
        for perm in itertools.permutations(range(n)):
            for rev in itertools.product((0, 1), repeat=n):
                # the loop at depth perm[d] moves to depth d, and may run backwards
                m = {}
                for d in range(n):
                    m[idx[perm[d]]] = X._add(ln.loops[perm[d]].args[0], X._mul(X.num(-1), X._add(idx[d], X.num(1)))) if rev[d] else idx[d]
                f = lambda t: m.get(t)
                g = lambda t: X.subst(t, f) if isinstance(t, T) else t
                c = reline(ln, [ln.loops[perm[d]] for d in range(n)], g(ln.guard), [g(x) for x in ln.pay])
                k = (tuple(l.key for l in c.loops), c.guard.key, tuple(x.key if isinstance(x, T) else str(x) for x in c.pay))
                if best is None or k < best[0]:
                    best = (k, c)
        out.append(best[1])
    return out


def entailed(lines):
    """loop headers without the choices that the guard has made already"""
    out = []
    for ln in lines:
        if not ln.loops or ln.guard is X.TRUE:
            out.append(ln)
            continue
        lit = {}
        for t in atoms_of(ln.guard):
            if X.contains(t, lambda u: u.op in ("i", "lp", "phi", "mu", "res")):
                continue
            if X.AND(ln.guard, X.NOT(X.atom(t))) is X.FALSE:
                lit[t] = True
            elif X.AND(ln.guard, X.atom(t)) is X.FALSE:
                lit[t] = False
        if not lit:
            out.append(ln)
            continue
        g = X.TRUE
        for t, v in lit.items():
            g = X.AND(g, X.atom(t) if v else X.NOT(X.atom(t)))
        loops = []
        for lp in ln.loops:
            a = tuple(X.constrain(x, g) if isinstance(x, T) else x for x in lp.args)
            loops.append(lp if a == lp.args else mk(lp.op, *a))
        out.append(reline(ln, loops, ln.guard, ln.pay))
    return out


def hasmm(t):
    return isinstance(t, T) and X.contains(t, lambda u: u.op in ("min", "max") and len(u.args) == 2)


def spread(lines, flip):
    """min and max as the choice they stand for"""
    out = []
    for ln in lines:
        todo = [(ln.guard, tuple(ln.pay))]
        for _ in range(3):
            pair = None
            for g, pay in todo:
                for t in [g] + [p for p in pay if isinstance(p, T)]:
                    for u in X.subterms(t):
                        if u.op in ("min", "max") and len(u.args) == 2 and (pair is None or (u.args[0].key, u.args[1].key) < pair[0]):
                            pair = ((u.args[0].key, u.args[1].key), u.args)
            if pair is None:
                break
            x, y = pair[1]
            c = X.lt(y, x) if flip else X.lt(x, y)
            lo, hi = (y, x) if flip else (x, y)

            def choose(t, small, large):
                return X.subst(t, lambda u: (small if u.op == "min" else large) if u.op in ("min", "max") and u.args == (x, y) else None) if isinstance(t, T) else t
            new = []
            for g, pay in todo:
                for cc, sm, la in ((c, lo, hi), (X.NOT(c), hi, lo)):
                    g2 = X.AND(choose(g, sm, la), cc)
                    if g2 is not X.FALSE:
                        new.append((g2, tuple(choose(p, sm, la) for p in pay)))
            todo = new
        groups = {}
        for g, pay in todo:
            pl = X.constrain(X.rebuild("pl", pay), g)
            for c, leaf in X.split(pl):
                g2 = X.AND(g, c)
                if g2 is not X.FALSE:
                    groups[leaf] = X.OR(groups.get(leaf, X.FALSE), g2)
        for leaf, g in groups.items():
            out.append(reline(ln, ln.loops, g, leaf.args))
    return out


def unspecial(lines):
    """a case that is told apart by [q == k] and then does what the general case does for q = k is no case of its own"""
    out = list(lines)
    again = True
    while again and len(out) <= 24:
        again = False
        for a in out:
            if a.guard.op != "ite":
                continue
            for b in out:
                if b is a or b.kind != a.kind or len(a.pay) != len(b.pay) or tuple(a.loops) != tuple(b.loops) or seqkey(a) != seqkey(b):
                    continue
                if X.AND(a.guard, b.guard) is not X.FALSE:
                    continue
                for t in atoms_of(a.guard):
                    if t.op != "eq0" or X.AND(a.guard, X.NOT(X.atom(t))) is not X.FALSE:
                        continue
                    rep = eqsubst([t.args[0]])
                    if not rep:
                        continue
                    # b under [q == k] must be what a does, under exactly a's guard
                    free = restrict(b.guard, t)
                    if free is None or X.AND(free, X.atom(t)) is not a.guard and X.AND(X.subst(free, rep.get), X.atom(t)) is not X.AND(X.subst(a.guard, rep.get), X.atom(t)):
                        continue
                    if all((X.subst(y, rep.get) is X.subst(x, rep.get) or teq(X.subst(y, rep.get), X.subst(x, rep.get))) if isinstance(x, T) else x == y
                           for x, y in zip(a.pay, b.pay)):
                        out = [l for l in out if l is not a and l is not b] + [reline(b, b.loops, free, b.pay)]
                        again = True
                        break
                if again:
                    break
            if again:
                break
    return out


def restrict(g, t):
    """the guard without its part [not t], or None if it does not have one"""
    if X.AND(g, X.atom(t)) is not X.FALSE:
        return None
    free = X.constrain(g, X.NOT(X.atom(t)))
    return free if X.AND(free, X.NOT(X.atom(t))) is g and t not in atoms_of(free) else None


def guard_cases(ln):
    """(loops, guard) with the case splits of the trip counts made part of the guard"""
    out = [(list(ln.loops), ln.guard)]
    for d in range(len(ln.loops)):
        new = []
        for loops, g in out:
            lp = loops[d]
            if lp.op == "loop" and lp.args[0].op == "ite":
                cnt = X.constrain(lp.args[0], g)
                cs = X.split(cnt) if cnt.op == "ite" else [(X.TRUE, cnt)]
                if len(cs) > 4:
                    new.append((loops, g))
                    continue
                for c, v in cs:
                    g2 = X.AND(g, c)
                    if g2 is not X.FALSE:
                        l2 = list(loops)
                        l2[d] = mk("loop", v, lp.args[1])
                        new.append((l2, g2))
            else:
                new.append((loops, g))
        out = new
    return out


class Result(object):
    __slots__ = ("verdict", "ref", "cur", "why", "order", "all")

    def __init__(self, verdict, ref=(), cur=(), why="", order=False, all=((), ())):
        self.verdict, self.ref, self.cur, self.why, self.order = verdict, list(ref), list(cur), why, order
        self.all = all


class Comparer(object):
    def __init__(self, R, C):
        """R: reference facts, C: current facts"""
        self.R, self.C = R, C
        self.hr, self.hc = {}, {}
        self.cache = {}
        self.eff = {}

    def h(self, F, memo, fk):
        if fk not in memo:
            memo[fk] = irhash(F, F.fns[fk])
        return memo[fk]

    def changed(self, fk):
        return self.h(self.R, self.hr, fk) != self.h(self.C, self.hc, fk)

    def policies(self):
        R, C = self.R, self.C

        def p1(fn):
            b = fn.get("body")
            if not b or b["k"] != "seq":
                return False
            fk = fn["fk"]
            r = R.fns.get(fk)
            if r is None or fk not in C.fns:
                return True          # only one side has it: an extracted or dissolved helper
            return small(r)

        def p2(fn):
            """also the helpers whose own body changed"""
            fk = fn["fk"]
            b = fn.get("body")
            if not b or b["k"] != "seq":
                return False
            r = R.fns.get(fk)
            if r is None or fk not in C.fns:
                return True
            return small(r) or (self.changed(fk) and nsize(fn) <= 600)

        def p3(fn):
            b = fn.get("body")
            return bool(b) and b["k"] == "seq" and nsize(fn) <= 400 and not stub(fn)
        return [("calls", p1), ("changed", p2), ("all", p3)]

    def known(self, fr, pol, la, ma):
        """equalities every valid call satisfies, from the reference's checks and assertions"""
        eqs = equalities(la)
        try:
            root = fr["fk"]
            one = lambda f: f["fk"] == root
            ls = rename(NM.Norm(self.R, pol, 60000, asserts=one).run(fr).lines, ma)
            for e in equalities(ls):
                if e not in eqs:
                    eqs.append(e)
        except (NM.Unsupported, X.Blowup, RecursionError):
            pass
        return eqs

    def compare_through(self, fr, fc, fk):
        """compare two callers with the helper fk expanded in both"""
        def pol(fn):
            b = fn.get("body")
            if not b or b["k"] != "seq":
                return False
            k = fn["fk"]
            r = self.R.fns.get(k)
            if r is None or k not in self.C.fns:
                return True
            return small(r) or k == fk or (self.changed(k) and nsize(fn) <= 600)
        return self.compare(fr, fc, [("through", pol)], fk)

    def nf(self, F, fn, pol, budget=60000, through=None):
        N = NM.Norm(F, pol, budget)
        lines = N.run(fn).lines
        if through in N.left:
            raise NM.Unsupported("a call of the helper was not expanded")
        return lines

    def compare(self, fr, fc, pols=None, through=None):
        X.WHOLE.clear()
        best = None
        why = ""
        for name, pol in pols or self.policies():
            try:
                la = self.nf(self.R, fr, pol, through=through)
                lb = self.nf(self.C, fc, pol, through=through)
                ma, mb = match_locals(la, lb)
                la, lb = rename(la, ma), rename(lb, mb)
            except (NM.Unsupported, X.Blowup, RecursionError) as ex:
                why = why or "%s: %s" % (name, ex)
                continue
            ra, rb = mdiff(la, lb, lkey)
            if ra or rb:
                try:
                    ra, rb = tmatch(ra, rb)
                    if not ra and not rb:
                        return Result("same", why=name + " (arithmetic)")
                    if any(l.kind == "throw" and not l.loops for l in la):
                        xa, xb = mdiff(beyond(la, ra), beyond(lb, rb), lkey)
                        if xa or xb:
                            xa, xb = tmatch(xa, xb)
                        if not xa and not xb:
                            return Result("same", why=name + " (after throws)")
                        if len(xa) + len(xb) < len(ra) + len(rb):
                            ra, rb = xa, xb
                    if any(l.op in ITER for ln in ra + rb for p in ln.pay if isinstance(p, T) for l in X.leaves(p)) or any(l.loops for l in ra + rb):
                        xa, xb = mdiff(deepen(ra), deepen(rb), lkey)
                        if xa or xb:
                            xa, xb = tmatch(xa, xb)
                        if not xa and not xb:
                            return Result("same", why=name + " (deep arithmetic)")
                        if len(xa) + len(xb) < len(ra) + len(rb):
                            ra, rb = xa, xb
                    rep = eqsubst(self.known(fr, pol, la, ma))
                    if rep:
                        xa, xb = mdiff(apply_eq(la, rep), apply_eq(lb, rep), lkey)
                        if xa or xb:
                            xa, xb = tmatch(xa, xb)
                        if not xa and not xb:
                            return Result("same", why=name + " (checked sizes)")
                        if len(xa) + len(xb) < len(ra) + len(rb):
                            ra, rb = xa, xb
                    if any(hasmm(p) for ln in ra + rb for p in list(ln.pay) + [ln.guard]):
                        for fa, fb in ((0, 0), (1, 1)):
                            xa, xb = mdiff(spread(ra, fa), spread(rb, fb), lkey)
                            if xa or xb:
                                xa, xb = tmatch(xa, xb)
                            if not xa and not xb:
                                return Result("same", why=name + " (choices)")
                    if any(l.loops for l in ra + rb):
                        xa, xb = mdiff(entailed(ra), entailed(rb), lkey)
                        if xa or xb:
                            xa, xb = tmatch(xa, xb)
                        if not xa and not xb:
                            return Result("same", why=name + " (guarded loops)")
                        if len(xa) + len(xb) < len(ra) + len(rb):
                            ra, rb = xa, xb
                    if len(ra) + len(rb) <= 24:
                        xa, xb = mdiff(unspecial(ra), unspecial(rb), lkey)
                        if xa or xb:
                            xa, xb = tmatch(xa, xb)
                        if not xa and not xb:
                            return Result("same", why=name + " (special case)")
                    if any(l.loops for l in ra) and any(l.loops for l in rb):
                        xa, xb = mdiff(inter(ra), inter(rb), lkey)
                        if xa or xb:
                            xa, xb = tmatch(xa, xb)
                        if not xa and not xb:
                            return Result("same", why=name + " (interchange)")
                        if len(xa) + len(xb) < len(ra) + len(rb):
                            ra, rb = xa, xb
                    xa, xb = parity(ra), parity(rb)
                    if len(xa) != len(ra) or len(xb) != len(rb) or any(x is not y for x, y in zip(xa + xb, ra + rb)):
                        xa, xb = mdiff(xa, xb, lkey)
                        if xa or xb:
                            xa, xb = tmatch(xa, xb)
                        if not xa and not xb:
                            return Result("same", why=name + " (parity)")
                    if any(l.loops for l in ra + rb):
                        xa, xb = mdiff(peel(ra), peel(rb), lkey)
                        if xa or xb:
                            xa, xb = tmatch(xa, xb)
                        if not xa and not xb:
                            return Result("same", why=name + " (range)")
                        if len(xa) + len(xb) < len(ra) + len(rb):
                            ra, rb = xa, xb
                except X.Blowup:
                    pass
            if not ra and not rb:
                sa, sb = mdiff(la, lb, lambda l: (lkey(l), seqkey(l)))
                if not sa and not sb:
                    return Result("same", why=name)
                if best is None or not best.order:
                    best = Result("different", sa, sb, name, True, (la, lb))
                continue
            if best is None or len(ra) + len(rb) < len(best.ref) + len(best.cur):
                best = Result("different", ra, rb, name, False, (la, lb))
        if best is None:
            return Result("unknown", why=why)
        return best


# ---------------------------------------------------------------- how sure a difference is
# values the normal form names without knowing them
RES = {"inf", "phi", "uninit", "mu", "muend", "exitval", "post", "tmp", "unk", "ltv", "lret", "inv", "lam", "loop", "lp", "res", "emplaced"}


def isres(s):
    return s.op in RES or (s.op == "obj" and s.args[0] >= 2000) or (s.op == "call" and s.args and str(s.args[0]).startswith("?"))


def residues(known, *ts):
    """unresolved values in ts that the other side does not mention at all"""
    out = set()
    for t in ts:
        if isinstance(t, T):
            for s in X.subterms(t):
                if isres(s) and s not in known:
                    out.add(s.op)
    return out


def mentions(lines):
    out = set()
    for ln in lines:
        for t in list(ln.loops) + [ln.guard] + list(ln.pay):
            if isinstance(t, T):
                out.update(s for s in X.subterms(t) if isres(s))
    return out


def tdiff(a, b, depth=0):
    """innermost pairs of differing subterms"""
    if a is b:
        return []
    if not isinstance(a, T) or not isinstance(b, T):
        return [] if a == b else [(a, b)]
    if depth > 30 or a.op != b.op:
        return [(a, b)]
    if a.op == "poly":
        pa, pb = list(a.args[0]), list(b.args[0])
        ra = [x for x in pa if x not in pb]
        rb = [x for x in pb if x not in pa]
        if len(ra) == 1 and len(rb) == 1:
            (ma, ca), (mb, cb) = ra[0], rb[0]
            if ca == cb:
                fa = [f for f in ma if f not in mb]
                fb = [f for f in mb if f not in ma]
                if len(fa) == 1 and len(fb) == 1:
                    return tdiff(fa[0], fb[0], depth + 1)
        return [(frompoly(ra), frompoly(rb))]
    if a.op == "B":
        if len(a.args) == 1 and len(b.args) == 1 and isinstance(a.args[0], T) and isinstance(b.args[0], T):
            return tdiff(a.args[0], b.args[0], depth + 1)
        return [(a, b)]
    if len(a.args) != len(b.args):
        return [(a, b)]
    if a.op in ("any", "first", "loop") and X.contains(mk("pair", a, b), lambda u: u.op in ("psum", "self")):
        return [(a, b)]         # when the loop stops depends on what its rounds have done
    if a.op == "ite":
        la, lb = X.split(a), X.split(b)
        if len(la) == len(lb) and len(la) <= 8:
            out = []
            for (ca, x), (cb, y) in zip(la, lb):
                out += gdiff(ca, cb) + tdiff(x, y, depth + 1)
            return out
        return [(a, b)]
    if a.op == "rd" and a.args[0] is not b.args[0] and a.args[1] != b.args[1]:
        return [(a, b)]
    out = []
    for x, y in zip(a.args, b.args):
        out += tdiff(x, y, depth + 1)
    return out


def frompoly(ms):
    fs = []
    for m, c in ms:
        fs += list(m)
    return mk("polyrest", *fs) if fs else X.num(0)


def gdiff(a, b):
    """guards: the atoms one side has and the other has not"""
    if a is b or teq(a, b):
        return []
    A, B = set(atoms_of(a)), set(atoms_of(b))
    oa = [x for x in A - B if not any(teq(x, y) for y in B)]
    ob = [x for x in B - A if not any(teq(x, y) for y in A)]
    if len(oa) == 1 and len(ob) == 1:
        return tdiff(oa[0], ob[0]) or [(oa[0], ob[0])]
    return [(mk("atoms", *sorted(oa, key=lambda t: t.key)), mk("atoms", *sorted(ob, key=lambda t: t.key)))]


def simil(a, b):
    sa = set(s for p in a.pay if isinstance(p, T) for s in X.subterms(p))
    sb = set(s for p in b.pay if isinstance(p, T) for s in X.subterms(p))
    u = len(sa | sb) or 1
    s = 2.0 * len(sa & sb) / u
    if a.guard is b.guard:
        s += 1
    if tuple(a.loops) == tuple(b.loops):
        s += 1
    if a.pay and b.pay and a.pay[0] is b.pay[0]:
        s += 1
    if tuple(a.pay) == tuple(b.pay):
        s += 1
    return s


SEQCALL = ("vector.push_back", "list.push_back", "deque.push_back", "queue.push", "stack.push", "basic_string.append", "basic_string.push_back", "basic_string.operator+=")


def swapped(res):
    """lines of the reference that append to one object, unconditionally one after the other, in the other order now"""
    def apps(lines):
        d = {}
        for i, ln in enumerate(lines):
            if ln.kind == "call" and len(ln.pay) > 2 and (ln.pay[0].args[0] if isinstance(ln.pay[0], T) and ln.pay[0].args else ln.pay[0]) in SEQCALL:
                d.setdefault(lkey(ln), []).append((i, ln))
        return {k: v[0] for k, v in d.items() if len(v) == 1}
    a, b = apps(res.all[0]), apps(res.all[1])
    ks = [k for k in a if k in b]
    out = []
    for i, k in enumerate(ks):
        for m in ks[i + 1:]:
            x, y = a[k][1], a[m][1]
            if x.guard is not y.guard or tuple(x.loops) != tuple(y.loops) or x.pay[1] is not y.pay[1] or x.pay[0] is not y.pay[0] or x.pay[2:] == y.pay[2:]:
                continue
            if (a[k][0] < a[m][0]) != (b[k][0] < b[m][0]) and not residues(set(), *(list(x.pay) + list(y.pay))):
                out += [x, y]
    return out


def localinit(ln):
    return ln.kind in ("init", "new", "delete", "initbase") and ln.pay and isinstance(ln.pay[0], T) and ln.pay[0].op in ("obj", "var")


def selfread(ln, x):
    """x reads an element of the array that the line fills in a loop"""
    if ln.kind != "store" or not ln.loops or not isinstance(x, T) or x.op != "rd" or not x.args[1]:
        return False
    l, m = ln.pay[0], x.args[0]
    return isinstance(l, T) and l.op == "at" and m.op == "at" and l.args[0] is m.args[0]


def owncell(a, b):
    """two stores to one cell in a loop, the same but for the cell's own earlier value"""
    if a.kind == b.kind == "store" and a.loops and len(a.pay) == len(b.pay) == 2 and a.pay[0] is b.pay[0] and X.AND(a.guard, b.guard) is not X.FALSE:
        loc = a.pay[0]
        both = X.AND(a.guard, b.guard)
        own = lambda z: (lambda t: z if t.op == "rd" and t.args[0] is loc else None)
        f = lambda t, z: X.subst(X.constrain(t, both), own(z)) if isinstance(t, T) else t
        # the cell's own earlier value, at an earlier or a later moment
        if teq(f(a.pay[1], mk("own")), f(b.pay[1], mk("own"))):
            return True
        # a cell of a new local array starts at zero
        if any(t.op in ("obj", "var") for t in X.subterms(loc)) and teq(f(a.pay[1], X.ZERO), f(b.pay[1], X.ZERO)):
            return True
    return False


def unsure(res, a, b):
    """pairs of lines that look different but whose difference this normal form cannot judge"""
    if owncell(a, b):
        return True
    if a.kind == b.kind == "out" and a.loops and tuple(a.loops) == tuple(b.loops) and tuple(a.pay) == tuple(b.pay) and a.guard is not b.guard and \
            all(X.contains(t.guard, lambda u: u.op == "i") for t in (a, b)):
        return True             # a separator before the others, or after
    if a.loops and len(a.loops) == len(b.loops):
        for x, y in zip(a.loops, b.loops):
            if x.op == y.op == "loop" and x is not y and not teq(x.args[0], y.args[0]) and not teq(x.args[1], y.args[1]):
                return True     # stops earlier in one way and in another
    if a.kind == b.kind and not a.loops and not b.loops and a.guard is not b.guard:
        thr = [X.FALSE, X.FALSE]
        tot = [X.FALSE, X.FALSE]
        cnt = [0, 0]
        for k, (lines, me) in enumerate(((res.all[0], a), (res.all[1], b))):
            for l in lines:
                if l.kind == "throw" and not l.loops:
                    thr[k] = X.OR(thr[k], l.guard)
                if l.kind == me.kind and not l.loops and tuple(l.pay) == tuple(me.pay):
                    tot[k] = X.OR(tot[k], l.guard)
                    cnt[k] += 1
        if max(cnt) > 1 and tuple(a.pay) == tuple(b.pay) and X.OR(tot[0], thr[0]) is X.OR(tot[1], thr[1]):
            return True         # the same effect in several cases, or in all that do not throw
    return False


def explain(res):
    """[(certain, ref line or None, cur line or None, [(sub a, sub b)])]"""
    out = []
    ra, rb = list(res.ref), list(res.cur)
    if res.order:
        sw = swapped(res)
        return [(any(a is x for x in sw), a, None, []) for a in ra]
    kr, kc = mentions(res.all[0]), mentions(res.all[1])
    cand = []
    for i, a in enumerate(ra):
        for j, b in enumerate(rb):
            if a.kind == b.kind and (a.kind != "store" or True):
                cand.append((-simil(a, b), i, j))
    cand.sort()
    ui, uj = set(), set()
    for s, i, j in cand:
        if i in ui or j in uj or -s < 1:
            continue
        a, b = ra[i], rb[j]
        ui.add(i)
        uj.add(j)
        d = []
        if len(a.loops) == len(b.loops):
            for x, y in zip(a.loops, b.loops):
                d += tdiff(x, y)
        else:
            d.append((mk("nest", *a.loops), mk("nest", *b.loops)))
        d += gdiff(a.guard, b.guard)
        if len(a.pay) == len(b.pay):
            for x, y in zip(a.pay, b.pay):
                if not teq(x, y, X.AND(a.guard, b.guard)):
                    d += tdiff(x, y)
        else:
            d.append((mk("nest", *a.pay), mk("nest", *b.pay)))
        bad = set()
        for x, y in d:
            bad |= residues(kc, x) | residues(kr, y)
            if selfread(a, x) != selfread(b, y):
                bad.add("rd")        # another element of the array being filled: it may not have changed
        if unsure(res, a, b):
            bad.add("?")
        out.append((not bad and bool(d), a, b, d))
    if any(a.kind == "asg" for i, a in enumerate(ra) if i not in ui) and any(b.kind in ("store", "swap", "call") for j, b in enumerate(rb) if j not in uj):
        # an object assigned as a whole, and assigned or exchanged piece by piece
        out = [(False,) + tuple(o[1:]) for o in out]
        for i, a in enumerate(ra):
            if i not in ui:
                out.append((False, a, None, []))
        for j, b in enumerate(rb):
            if j not in uj:
                out.append((False, None, b, []))
        return out
    for i, a in enumerate(ra):
        if i not in ui:
            out.append((not localinit(a) and not residues(kc, *(list(a.loops) + [a.guard] + list(a.pay))) and not any(owncell(a, b) for b in rb), a, None, []))
    for j, b in enumerate(rb):
        if j not in uj:
            out.append((not localinit(b) and not residues(kr, *(list(b.loops) + [b.guard] + list(b.pay))) and not any(owncell(a, b) for a in ra), None, b, []))
    if out and not any(o[0] for o in out) and not rb and all(o[1].kind in ("throw", "delete", "call") for o in out):
        # nothing added, nothing changed: an effect is gone
        out = [(not localinit(o[1]) and not anywhere(o[1], res.all[1]),) + tuple(o[1:]) for o in out]
    if any(not o[0] for o in out) and collapsed(res.all[0], res.all[1]):
        out = [(True,) + tuple(o[1:]) for o in out]
    return out


def anywhere(a, lines):
    """the same kind of effect with the same payload, under whatever condition"""
    return a.kind != "throw" and any(l.kind == a.kind and len(l.pay) == len(a.pay) and all(teq(x, y) for x, y in zip(a.pay, l.pay)) for l in lines)


ITER = ("mu", "exitval", "first", "psum", "sum", "any", "loop", "rec")


def collapsed(la, lb):
    """one version carries a value from one iteration to the next, the other does
    not iterate at all and calls nothing that could do it instead"""
    def scan(lines):
        ops, calls = set(), set()
        for ln in lines:
            if ln.loops:
                ops.add("loop")
            for t in list(ln.loops) + [ln.guard] + list(ln.pay):
                if isinstance(t, T):
                    for x in X.subterms(t):
                        ops.add(x.op)
                        if x.op in ("call", "res", "out") and x.args and isinstance(x.args[0], str):
                            calls.add(x.args[0])
                        if isres(x) and x.op == "call":
                            ops.add("?")
            if ln.kind == "call" and ln.pay and isinstance(ln.pay[0], str):
                calls.add(ln.pay[0])
        return ops, calls
    oa, ca = scan(la)
    ob, cb = scan(lb)
    for (x, cx), (y, cy) in (((oa, ca), (ob, cb)),):
        if "mu" in x and not any(o in y for o in ITER) and "?" not in y and cy <= cx:
            return True
    return False


def certain(res):
    """'all', 'some' or 'none' of the differing lines are fully resolved"""
    e = explain(res)
    c = [x[0] for x in e]
    return "all" if c and all(c) else "some" if any(c) else "none"
