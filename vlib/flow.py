"""Dataflow over the structured body of one function (typestate engine).

A client gives a finite state (a dict of hashable values), a join, and a transfer
called for every expression node in evaluation order.  Branches join, loops run to
a fixed point, `return`, `throw`, `break`, `continue` and the end of the body are
exits with their state.  No path is enumerated and no condition is solved."""
from . import facts as FX

SKIP = {"k", "l", "t", "n", "f", "fk", "cls", "pm", "cv", "id", "dk", "op", "v", "el"}


class Flow(object):
    def __init__(self, F, fn):
        self.F, self.fn = F, fn
        self.exits = []        # (kind, node, state)
        self.brk, self.cnt = [], []
        self.depth = 0         # inside a try with handlers

    # ---- client
    def join(self, a, b):
        raise NotImplementedError

    def node(self, x, st):
        """after the operands of x"""
        return st

    def branch(self, c, st, taken):
        """state on one side of condition c"""
        return st

    def decl(self, v, st):
        return st

    def pre(self, x, st):
        """before the operands; return a state to take over the whole node, else None"""
        return None

    # ---- engine
    def j(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return self.join(a, b)

    def run(self, st):
        for i in self.fn.get("inits") or []:
            st = self.init(i, st)
            if st is None:
                return self.exits
        b = self.fn.get("body")
        st = self.stmt(b, st)
        if st is not None:
            self.exits.append(("end", b, st))
        return self.exits

    def init(self, i, st):
        return self.expr(i.get("e"), st)

    def expr(self, x, st):
        if st is None or x is None:
            return st
        if isinstance(x, list):
            for y in x:
                st = self.expr(y, st)
                if st is None:
                    return None
            return st
        if not isinstance(x, dict):
            return st
        k = x.get("k")
        p = self.pre(x, st)
        if p is not None:
            return p
        if k == "bin" and x.get("op") in ("&&", "||"):
            st = self.expr(x["a"], st)
            if st is None:
                return None
            yes = x["op"] == "&&"
            s2 = self.expr(x["b"], self.branch(x["a"], dict(st), yes))
            st = self.j(self.branch(x["a"], dict(st), not yes), s2)
            return None if st is None else self.node(x, st)
        if k == "cond":
            st = self.expr(x["c"], st)
            if st is None:
                return None
            a = self.expr(x["a"], self.branch(x["c"], dict(st), True))
            b = self.expr(x["b"], self.branch(x["c"], dict(st), False))
            st = self.j(a, b)
            return None if st is None else self.node(x, st)
        if k == "lambda":
            return self.node(x, st)
        if k in ("asg",):
            st = self.expr(x.get("b"), st)
            st = self.expr(x.get("a"), st)
            return None if st is None else self.node(x, st)
        if k == "throw":
            st = self.expr(x.get("e"), st)
            if st is None:
                return None
            st = self.node(x, st)
            self.exits.append(("throw", x, st))
            return None
        if k == "stmtexpr":
            return self.stmt(x.get("b"), st)
        for kk in ("o", "c", "b", "a", "i", "e", "init", "sz"):
            if kk in x and isinstance(x[kk], (dict, list)):
                st = self.expr(x[kk], st)
                if st is None:
                    return None
        st = self.node(x, st)
        if k == "call" and st is not None:
            if x.get("nr"):
                self.exits.append(("noreturn", x, st))
                return None
            if never(self.F, x.get("fk")):
                self.exits.append(("throw", x, st))
                return None
        return st

    def stmt(self, s, st):
        if st is None or s is None:
            return st
        if isinstance(s, list):
            for y in s:
                st = self.stmt(y, st)
            return st
        k = s.get("k")
        if k == "seq":
            return self.stmt(s["b"], st)
        if k == "expr":
            return self.expr(s.get("e"), st)
        if k == "decl":
            for v in s.get("d", []):
                st = self.expr(v.get("init"), st)
                if st is None:
                    return None
                if v.get("k") == "var":
                    st = self.decl(v, st)
            return st
        if k == "if":
            if s.get("i"):
                st = self.stmt(s["i"], st)
            st = self.expr(s["c"], st)
            if st is None:
                return None
            a = self.stmt(s.get("t") if isinstance(s.get("t"), dict) else None, self.branch(s["c"], dict(st), True))
            b = self.branch(s["c"], dict(st), False)
            if s.get("e"):
                b = self.stmt(s["e"], b)
            return self.j(a, b)
        if k in ("for", "while", "do"):
            return self.loop(s, st)
        if k == "switch":
            return self.switch(s, st)
        if k == "ret":
            st = self.expr(s.get("e"), st)
            if st is not None:
                self.exits.append(("ret", s, st))
            return None
        if k == "brk":
            if self.brk:
                self.brk[-1] = self.j(self.brk[-1], st)
            return None
        if k == "cnt":
            if self.cnt:
                self.cnt[-1] = self.j(self.cnt[-1], st)
            return None
        if k == "try":
            return self.tryst(s, st)
        if k in ("nop",):
            return st
        if k == "omp":
            return self.stmt(s.get("b"), st)
        if k in ("case", "default"):
            return self.stmt(s.get("b"), st)
        return self.expr(s, st)

    def cond(self, c, st, taken):
        return None if st is None else self.branch(c, dict(st), taken)

    def loop(self, s, st):
        k = s["k"]
        if k == "for":
            i = s.get("i")
            if i:
                st = self.stmt(i, st)
        if st is None:
            return None
        head = st
        out = None
        save = len(self.exits)
        for rnd in range(12):
            del self.exits[save:]
            self.brk.append(None)
            self.cnt.append(None)
            c = s.get("c")
            if k == "do":
                body = self.stmt(s.get("b"), dict(head))
                body = self.j(body, self.cnt[-1])
                aft = self.expr(c, body)
                nxt = self.cond(c, aft, True) if c else aft
                out = self.cond(c, aft, False) if c else aft
            else:
                aft = self.expr(c, dict(head)) if c else dict(head)
                out = self.cond(c, aft, False) if c else None
                if c and c.get("cv") in ("1", "true") or (c and c.get("k") == "int" and c.get("v") != "0"):
                    out = None
                body = self.stmt(s.get("b"), self.cond(c, aft, True) if c else aft)
                body = self.j(body, self.cnt[-1])
                nxt = self.expr(s.get("s"), body) if k == "for" and s.get("s") else body
            b = self.brk.pop()
            self.cnt.pop()
            out = self.j(out, b)
            new = self.j(dict(head), nxt)
            if new == head:
                break
            head = new
        return out

    def switch(self, s, st):
        st = self.expr(s.get("c"), st)
        if st is None:
            return None
        self.brk.append(None)
        b = s.get("b")
        items = b.get("b", []) if isinstance(b, dict) and b.get("k") == "seq" else [b]
        cur, dflt = None, False
        for it in items:
            y = it
            while isinstance(y, dict) and y.get("k") in ("case", "default"):
                dflt = dflt or y["k"] == "default"
                cur = self.j(cur, dict(st))
                y = y.get("b")
            cur = self.stmt(y, cur)
        out = self.j(cur, self.brk.pop())
        if not dflt:
            out = self.j(out, dict(st))
        return out

    def tryst(self, s, st):
        """anything thrown inside, and any call inside, can enter every handler"""
        n = len(self.exits)
        self.depth += 1
        mid = [dict(st)]
        body = self.tracked(s.get("b"), dict(st), mid)
        self.depth -= 1
        inner = [e for e in self.exits[n:] if e[0] == "throw"]
        self.exits[n:] = [e for e in self.exits[n:] if e[0] != "throw"]
        ent = None
        for m in mid + [e[2] for e in inner]:
            ent = self.j(ent, dict(m))
        out = body
        for h in s.get("h", []):
            out = self.j(out, self.stmt(h.get("b"), dict(ent)))
        return out

    def tracked(self, b, st, mid):
        items = b.get("b", []) if isinstance(b, dict) and b.get("k") == "seq" else [b]
        for it in items:
            st = self.stmt(it, st)
            if st is None:
                return None
            mid.append(dict(st))
        return st


def calls(x):
    for y in FX.walk(x):
        if y.get("k") in ("call", "ctor"):
            yield y


def strip(x):
    while isinstance(x, dict) and x.get("k") == "cast":
        x = x.get("e")
    return x


class Plain(Flow):
    def join(self, a, b):
        return a


def never(F, fk, busy=[]):
    """the function leaves only by an exception"""
    memo = F.__dict__.setdefault("_never", {})
    if fk in memo:
        return memo[fk]
    f = F.fns.get(fk)
    if f is None or f.get("body") is None or f.get("virt"):
        memo[fk] = False
        return False
    memo[fk] = False
    ex = Plain(F, f).run({})
    memo[fk] = bool(ex) and not any(e[0] in ("ret", "end") for e in ex)
    return memo[fk]
