"""Typestate over the syntax tree: runs a finite automaton over every path of
a function (loops to a fixed point, calls to the class's own helpers followed
through), without evaluating conditions.  States are hashable values; a
client maps nodes to state changes."""
from .absint import last

EXPR_BRANCH = ("&&", "||")


def kids(n):
    """sub-nodes of an expression in evaluation order"""
    for c in n.get("c", ()):
        if c:
            yield c


def walk(n):
    """all nodes below (and including) n"""
    todo = [n]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if "k" in x:
                yield x
            todo.extend(v for k, v in x.items() if isinstance(
                v, (dict, list)))
        elif isinstance(x, list):
            todo.extend(x)


class Out:
    __slots__ = ("next", "ret", "brk", "cont", "thr")

    def __init__(self, nxt=()):
        self.next = set(nxt)
        self.ret, self.brk, self.cont, self.thr = set(), set(), set(), set()

    def absorb(self, o, *names):
        for n in names:
            getattr(self, n).update(getattr(o, n))


class Flow:
    """Subclass: event(node, state, fn) -> None (nothing), or an iterable of
    successor states.  inline(node, fn) -> function to follow, or None."""
    MAXD = 6

    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.stack = []
        self.visited = set()

    # -- to be overridden
    def event(self, n, st, fn):
        return None

    def inline(self, n, fn):
        return None

    def branch(self, cond, truth, st, fn):
        """states after a condition is known to be truth"""
        return (st,)

    def enter(self, callee, node, st, fn):
        return st

    def leave(self, callee, node, st, fn):
        return st

    # -- interface
    def run(self, fn, states):
        """(states at normal return, states at throw)"""
        key = (fn["fid"], fn["file"], fn["l"])
        ret, thr = set(), set()
        for s in states:
            k = (key, s)
            if k in self.memo:
                r = self.memo[k]
            elif key in self.stack or len(self.stack) > self.MAXD:
                r = ({s}, set())
            else:
                self.stack.append(key)
                self.visited.add(key)
                o = Out({s})
                for ini in fn.get("inits", ()):
                    if ini.get("e"):
                        o.next = self.ex(ini["e"], o.next, fn, o)
                b = self.st(fn.get("body"), o.next, fn) \
                    if fn.get("body") else Out(o.next)
                self.stack.pop()
                r = (b.next | b.ret, b.thr | o.thr)
                self.memo[k] = r
            ret |= r[0]
            thr |= r[1]
        return ret, thr

    # -- statements
    def st(self, n, S, fn):
        o = Out(S)
        if n is None or not S:
            if not S:
                o.next = set()
            return o
        k = n.get("k")
        m = getattr(self, "st_" + k, None) if k else None
        if m:
            return m(n, S, fn)
        if k == "return":
            S = self.exs(kids(n), S, fn, o)
            o.ret, o.next = set(S), set()
            return o
        o.next = self.ex(n, S, fn, o)
        return o

    def st_block(self, n, S, fn):
        o = Out(S)
        for c in n.get("c", ()):
            if c is None:
                continue
            r = self.st(c, o.next, fn)
            o.next = r.next
            o.absorb(r, "ret", "brk", "cont", "thr")
        return o

    def st_decl(self, n, S, fn):
        o = Out(S)
        for v in n.get("vars", n.get("c", ())):
            if isinstance(v, dict):
                if v.get("init"):
                    o.next = self.ex(v["init"], o.next, fn, o)
                o.next = self.declare(v, o.next, fn)
        return o

    def declare(self, v, S, fn):
        return S

    def cond(self, c, S, fn, o):
        """(states if true, states if false)"""
        if c is None:
            return set(S), set()
        while c.get("k") == "cast" and c.get("c") and c["c"][0]:
            c = c["c"][0]
        if c.get("k") == "bin" and c["op"] in EXPR_BRANCH:
            t1, f1 = self.cond(c["c"][0], S, fn, o)
            if c["op"] == "&&":
                t2, f2 = self.cond(c["c"][1], t1, fn, o)
                return t2, f1 | f2
            t2, f2 = self.cond(c["c"][1], f1, fn, o)
            return t1 | t2, f2
        if c.get("k") == "un" and c["op"] == "!":
            t, f = self.cond(c["c"][0], S, fn, o)
            return f, t
        S = self.ex(c, S, fn, o)
        if "cv" in c:
            return (set(S), set()) if int(c["cv"]) else (set(), set(S))
        t, f = set(), set()
        for s in S:
            t.update(self.branch(c, True, s, fn))
            f.update(self.branch(c, False, s, fn))
        return t, f

    def st_if(self, n, S, fn):
        o = Out(S)
        if n.get("init"):
            r = self.st(n["init"], S, fn)
            S = r.next
            o.absorb(r, "thr")
        if n.get("var"):
            v = n["var"]
            if v.get("init"):
                S = self.ex(v["init"], S, fn, o)
            S = self.declare(v, S, fn)
        t, f = self.cond(n.get("cond"), S, fn, o)
        a = self.st(n.get("then"), t, fn)
        b = self.st(n["else"], f, fn) if n.get("else") else Out(f)
        o.next = a.next | b.next
        o.absorb(a, "ret", "brk", "cont", "thr")
        o.absorb(b, "ret", "brk", "cont", "thr")
        return o

    def loop(self, S, fn, cond, body, inc, first, o, extra=None):
        """common part of the loops"""
        seen = set(S)
        exits = set()
        work = set(S)
        while work:
            if first:
                t = work
            else:
                t, f = self.cond(cond, work, fn, o) if extra is None \
                    else (extra(work), set(work))
                exits |= f
            r = self.st(body, t, fn)
            o.absorb(r, "ret", "thr")
            exits |= r.brk
            nx = r.next | r.cont
            if inc:
                nx = self.ex(inc, nx, fn, o)
            if first:
                t, f = self.cond(cond, nx, fn, o)
                exits |= f
                nx = t
            work = nx - seen
            seen |= nx
        o.next = exits
        return o

    def st_for(self, n, S, fn):
        o = Out(S)
        if n.get("init"):
            r = self.st(n["init"], S, fn)
            S = r.next
            o.absorb(r, "thr")
        return self.loop(S, fn, n.get("cond"), n.get("body"), n.get("inc"),
                         False, o)

    def st_while(self, n, S, fn):
        return self.loop(S, fn, n.get("cond"), n.get("body"), None, False,
                         Out(S))

    def st_do(self, n, S, fn):
        return self.loop(S, fn, n.get("cond"), n.get("body"), None, True,
                         Out(S))

    def st_forrange(self, n, S, fn):
        o = Out(S)
        if n.get("range"):
            S = self.ex(n["range"], S, fn, o)

        def bind(work):
            return self.declare(n["var"], set(work), fn) if n.get("var") \
                else set(work)
        return self.loop(S, fn, None, n.get("body"), None, False, o, bind)

    def st_switch(self, n, S, fn):
        o = Out(S)
        S = self.ex(n["cond"], S, fn, o) if n.get("cond") else S
        cur, default = set(), False
        body = n.get("body") or {}
        for c in body.get("c", ()) if body.get("k") == "block" else [body]:
            while c and c.get("k") in ("case", "default"):
                cur |= S
                default = default or c["k"] == "default"
                c = c["c"][0] if c.get("c") else None
            if c is None:
                continue
            r = self.st(c, cur, fn)
            cur = r.next
            o.absorb(r, "ret", "cont", "thr")
            o.brk |= r.brk
        o.next = cur | o.brk | (set() if default else set(S))
        o.brk = set()
        return o

    def st_case(self, n, S, fn):
        return self.st(n["c"][0], S, fn) if n.get("c") else Out(S)

    st_default = st_case
    st_attr = st_case

    def st_try(self, n, S, fn):
        o = self.st(n["body"], S, fn)
        thrown = set(o.thr) | set(S)
        o.thr = set()
        for h in n.get("h", n.get("handlers", ())):
            r = self.st(h.get("body"), thrown, fn)
            o.next |= r.next
            o.absorb(r, "ret", "brk", "cont", "thr")
        return o

    def st_break(self, n, S, fn):
        o = Out()
        o.brk = set(S)
        return o

    def st_continue(self, n, S, fn):
        o = Out()
        o.cont = set(S)
        return o

    def st_nop(self, n, S, fn):
        return Out(S)

    # -- expressions
    def exs(self, ns, S, fn, o):
        for c in ns:
            S = self.ex(c, S, fn, o)
        return S

    def ex(self, n, S, fn, o):
        if n is None or not S:
            return set(S)
        k = n.get("k")
        if k == "lambda":
            return self.lam(n, set(S), fn, o)
        if k == "cond":
            c = [x for x in kids(n)]
            if len(c) == 3:
                t, f = self.cond(c[0], S, fn, o)
                return self.ex(c[1], t, fn, o) | self.ex(c[2], f, fn, o)
        if k == "bin" and n["op"] in EXPR_BRANCH:
            t, f = self.cond(n, S, fn, o)
            return t | f
        if k == "throw":
            S = self.exs(kids(n), S, fn, o)
            o.thr |= set(S)
            return set()
        S = self.exs(kids(n), set(S), fn, o)
        if "init" in n and isinstance(n["init"], dict):
            S = self.ex(n["init"], S, fn, o)
        res = set()
        for s in S:
            r = self.event(n, s, fn)
            if r is None:
                res.add(s)
            else:
                res.update(r)
        callee = self.inline(n, fn)
        if callee is not None:
            ins = {self.enter(callee, n, s, fn) for s in res}
            r, t = self.run(callee, ins)
            o.thr |= t
            res = {self.leave(callee, n, s, fn) for s in r}
        return res

    def lam(self, n, S, fn, o):
        """a lambda is taken to run any number of times where it is
        created"""
        body = n.get("body")
        if not body:
            return S
        seen = set(S)
        work = set(S)
        while work:
            r = self.st(body, work, fn)
            o.thr |= r.thr
            nx = r.next | r.ret
            work = nx - seen
            seen |= nx
        return seen
