"""Index relations of loop nests: the copies (stores, copy_n, resize) a
function makes are extracted symbolically with the loops around them, and
the extracted terms are evaluated over a grid of sizes, so that two spellings
of the same index map compare equal."""
from fractions import Fraction

from .absint import last
from .scan import Scanner
from .terms import Poly, is_num, subterms, sub


class Unknown(Exception):
    pass


class Diverges(Unknown):
    """the loop's counter moves away from its bound"""


class DivZero(Unknown, ZeroDivisionError):
    """a division by zero"""


class Outside(Unknown):
    """a read outside the given array"""


class PathV:
    """a symbolic array element: root name and the indices taken"""
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def at(self, k):
        return PathV(self.root, self.path + (k,))

    def __eq__(self, o):
        return isinstance(o, PathV) and (self.root, self.path) == (
            o.root, o.path)

    def __hash__(self):
        return hash((self.root, self.path))

    def __repr__(self):
        return self.root + "".join("[%s]" % (p,) for p in self.path)

    def conj(self):
        if self.root.startswith("real "):
            return self
        if self.root.startswith("conj "):
            return PathV(self.root[5:], self.path)
        return PathV("conj " + self.root, self.path)

    def __add__(self, o):
        return SP.of(self) + o

    def __mul__(self, o):
        return SP.of(self) * o

    def __neg__(self):
        return SP.of(self) * -1

    def __sub__(self, o):
        return SP.of(self) - o

    def __rsub__(self, o):
        return SP.of(o) - SP.of(self)

    __radd__, __rmul__ = __add__, __mul__


I = PathV("i")      # the imaginary unit


class SP:
    """polynomial over symbolic array elements"""
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = {k: c for k, c in m.items() if c != 0}

    @staticmethod
    def of(x):
        if isinstance(x, SP):
            return x
        if isinstance(x, PathV):
            return SP({(x,): 1})
        if isinstance(x, (int, Fraction)):
            return SP({(): x})
        if isinstance(x, tuple) and len(x) == 2 and all(
                isinstance(v, (int, Fraction)) for v in x):
            r = {(): x[0]}
            if x[1]:
                r[(I,)] = x[1]
            return SP(r)
        return None

    def __add__(self, o):
        o = SP.of(o)
        if o is None:
            return NotImplemented
        r = dict(self.m)
        for k, c in o.m.items():
            r[k] = r.get(k, 0) + c
        return SP(r)

    def __mul__(self, o):
        o = SP.of(o)
        if o is None:
            return NotImplemented
        r = {}
        for k, c in self.m.items():
            for l, d in o.m.items():
                key = sorted(k + l, key=repr)
                n = key.count(I)
                if n > 1:
                    key = [x for x in key if x != I]
                    key = sorted(key + [I] * (n % 2), key=repr)
                    if n // 2 % 2:
                        d = -d
                key = tuple(key)
                r[key] = r.get(key, 0) + c * d
        return SP(r)

    __radd__, __rmul__ = __add__, __mul__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + SP.of(o) * -1

    def __rsub__(self, o):
        return SP.of(o) + self * -1

    def conj(self):
        return SP({tuple(sorted((a if a == I else a.conj() for a in k),
                                key=repr)): -c if I in k else c
                   for k, c in self.m.items()})

    def __eq__(self, o):
        o = SP.of(o)
        return o is not None and self.m == o.m

    def __hash__(self):
        return hash(frozenset(self.m.items()))

    def __repr__(self):
        return " + ".join("%s%s" % ("" if c == 1 else "%s*" % c,
                                    "*".join(map(repr, k)) or "1")
                          for k, c in sorted(self.m.items(), key=repr)) \
            or "0"


class It:
    __slots__ = ("arr", "pos")

    def __init__(self, arr, pos):
        self.arr, self.pos = arr, pos

    def __add__(self, n):
        if isinstance(n, (int, Fraction)):
            return It(self.arr, self.pos + int(n))
        return NotImplemented

    __radd__ = __add__

    def __mul__(self, n):
        return self if n == 1 else NotImplemented

    __rmul__ = __mul__

    def __sub__(self, n):
        if isinstance(n, It):
            return self.pos - n.pos
        return self + -n

    def __eq__(self, o):
        return isinstance(o, It) and (self.arr, self.pos) == (o.arr, o.pos)

    def __hash__(self):
        return hash((self.arr, self.pos)) if not isinstance(
            self.arr, list) else 0

    def __repr__(self):
        return "%r+%s" % (self.arr, self.pos)


class NestScanner(Scanner):
    """Scanner that records stores and selected calls with their loops"""

    def __init__(self, prog, calls=(), opaque=()):
        super().__init__(prog, opaque)
        self.want = set(calls)
        self.sites = []
        self._seen = set()

    def loops_of(self, st):
        act = []
        for e in st.events:
            if e[0] == "loop":
                if e[1] in act:
                    act = act[:act.index(e[1])]
                act.append(e[1])
            elif e[0] == "loopexit" and e[1] in act:
                act = act[:act.index(e[1])]
        return tuple(act)

    def site(self, kind, what, val, node, frame, st, loc=None):
        key = (kind, str(what), str(val), node["i"] if node else None,
               str(sorted(map(str, st.facts.items()))))
        if key in self._seen:
            return
        self._seen.add(key)
        self.sites.append(dict(kind=kind, what=what, val=val, node=node,
                               fn=frame.fn, facts=dict(st.facts),
                               loops=self.loops_of(st), loc=loc,
                               fid=frame.id))

    def on_store(self, loc, val, node, frame, st):
        if isinstance(loc, tuple) and loc[0] in ("el", "f", "deref"):
            self.site("store", loc, val, node, frame, st)

    def record_call(self, node, frame, st, args, objloc):
        super().record_call(node, frame, st, args, objloc)
        n = last(node.get("fn", "?"))
        if n in self.want:
            self.site("call", n, tuple(args), node, frame, st, objloc)


class Ev:
    """evaluates terms; env maps terms to values, roots maps variable names
    to values (for loads of, and phis over, those variables)"""

    def __init__(self, scanner, env, roots, models=None, sizer=None):
        self.sc, self.env, self.roots = scanner, dict(env), roots
        self.models = models or {}
        self.sizer = sizer
        self.depth = 0
        self.counters = set()
        self.memo = {}
        self.trace = ()     # (loop, iteration number) of iterate

    def name_of(self, loc):
        if isinstance(loc, tuple):
            if loc[0] == "v":
                return loc[3]
            if loc[0] in ("g", "sym"):
                return loc[1].replace("param:", "")
            if loc[0] == "f" and loc[1] == ("this",):
                return "this." + loc[2]
        return None

    def loc(self, l):
        """value (PathV) of a location"""
        if l in self.env:
            return self.env[l]
        n = self.name_of(l)
        if n in self.roots:
            return self.roots[n]
        if l[0] in ("el", "elem"):
            a = self.ev(l[1][1]) if isinstance(l[1], tuple) and \
                l[1][0] == "deref" else self.loc(l[1])
            i = self.ev(l[2])
            if isinstance(a, It):
                a, i = a.arr, a.pos + i
            return a.at(i) if isinstance(a, PathV) else self.index(a, i)
        if l[0] == "f":
            a = self.loc(l[1])
            return a.at(l[2]) if isinstance(a, PathV) else \
                self.field(a, l[2])
        if l[0] == "deref":
            v = self.ev(l[1])
            if isinstance(v, It):
                v = v.arr.at(v.pos) if isinstance(v.arr, PathV) else \
                    self.index(v.arr, v.pos)
                return v
            if isinstance(v, PathV):
                return v.at(0)
            if isinstance(v, (list, tuple)):
                return v[0]
            return self.ev(("call", "operator*", l[1]))
        raise Unknown(l)

    def read(self, v):
        """contents of a location"""
        if isinstance(v, PathV) and self.sizer:
            r = self.sizer("value", v)
            if r is not None:
                return r
        return v

    def index(self, a, i):
        if isinstance(a, PathV):
            return self.read(a.at(i))
        if isinstance(a, It):
            return self.index(a.arr, a.pos + i)
        if isinstance(a, (list, tuple)):
            if 0 <= i < len(a):
                return a[i]
            raise IndexError("index %s of %s" % (i, len(a)))
        raise Unknown(a)

    def field(self, a, f):
        if isinstance(a, PathV):
            return self.index(a, f)
        if isinstance(a, dict) and f in a:
            return a[f]
        raise Unknown((a, f))

    def size(self, a):
        if isinstance(a, PathV):
            r = self.sizer("size", a) if self.sizer else None
            if r is None:
                raise Unknown(("size", a))
            return r
        if isinstance(a, (list, tuple)):
            return len(a)
        raise Unknown(("size", a))

    def ev(self, t):
        self.depth += 1
        if self.depth > 400:
            self.depth = 0
            raise Unknown("depth")
        try:
            return self.ev_(t)
        finally:
            self.depth -= 1

    def ev_(self, t):
        if t in self.env:
            return self.env[t]
        if isinstance(t, bool):
            return int(t)
        if is_num(t) or isinstance(t, float):
            return t
        if isinstance(t, Poly):
            s = 0
            for mono, c in t.m.items():
                p = c
                for a in mono:
                    p = p * self.ev(a)
                s = s + p
            return int(s) if isinstance(s, Fraction) and \
                s.denominator == 1 else s
        if not isinstance(t, tuple) or not t:
            raise Unknown(t)
        h = t[0]
        n = self.name_of(t)
        if n in self.roots:
            return self.roots[n]
        if h == "init":
            return self.read(self.loc(t[1]))
        if h == "str":
            return t[1]
        if h == "complex" and len(t) == 3:
            return self.call(("call", "complex") + t[1:])
        if h == "ptr" and len(t) == 3:
            l, off = t[1], self.ev(t[2])
            if l[0] in ("el", "elem"):
                return It(self.loc(l[1]), self.ev(l[2]) + off)
            return It(self.loc(l), off)
        if h == "conj":
            return self.call(("call", "conj") + t[1:])
        if h == "deref" and len(t) == 2 and isinstance(t[1], tuple) and \
                t[1][0] == "call":
            return self.ev(t[1])
        if h in ("el", "elem"):
            return self.index(self.ev(t[1]), self.ev(t[2]))
        if h == "f":
            return self.read(self.loc(t))
        if h == "fld":
            return self.field(self.ev(t[1]), t[2])
        if h in ("trunc", "fcast", "wrap"):
            return self.ev(t[-1])
        if h == "rec":
            for k, v in t[2]:
                pass
            raise Unknown(t)
        if h == "not":
            return int(not self.ev(t[1]))
        if h == "truth" and len(t) == 2:
            return int(bool(self.ev(t[1])))
        if h == "eq0":
            return int(self.ev(t[1]) == 0)
        if h == "lt0":
            return int(self.ev(t[1]) < 0)
        if h in ("eq", "ne", "lt"):
            a, b = self.ev(t[1]), self.ev(t[2])
            return int(a == b if h == "eq" else a != b if h == "ne"
                       else a < b)
        if h == "op" and len(t) == 4:
            a, b = self.ev(t[2]), self.ev(t[3])
            if t[1] in ("/", "%"):
                if b == 0:
                    raise DivZero(t)
                if isinstance(a, int) and isinstance(b, int):
                    q = abs(a) // abs(b)
                    q = q if (a < 0) == (b < 0) else -q
                    return q if t[1] == "/" else a - b * q
                if t[1] == "/":
                    if isinstance(b, (SP, PathV)):
                        return SP.of(a) * PathV("inv", (repr(SP.of(b)),))
                    if isinstance(a, (SP, PathV)):
                        return SP.of(a) * (Fraction(1) / Fraction(b))
                    return Fraction(a) / Fraction(b)
            if t[1] == "<<":
                return a << b
            if t[1] == ">>":
                return a >> b
            if t[1] == "&":
                return a & b
            if t[1] == "|":
                return a | b
            raise Unknown(t)
        if h == "phi":
            n = self.name_of(t[3])
            if n in self.roots:
                return self.roots[n]
            if not isinstance(t[3], tuple) or t[3][0] != "v":
                if isinstance(t[3], tuple) and t[3][0] in ("el", "f"):
                    if t not in self.sc.entry_of:
                        return self.read(self.loc(t[3]))
                    try:
                        return self.fold(t)
                    except Unknown:
                        return self.read(self.loc(t[3]))
            return self.fold(t)
        if h == "call":
            return self.call(t)
        if h == "upd":
            # contents may have changed; identity of the object has not
            v = self.ev(t[2])
            if isinstance(v, PathV):
                return v
            raise Unknown(t)
        raise Unknown(t)

    def backs(self, ph):
        return [st for (i, f), sts in self.sc.back.items()
                if i == ph[1] and f == ph[2] for st in sts]

    def update(self, ph, backs):
        """value of ph in the next iteration, from the back states whose
        facts hold"""
        vals = []
        for st in backs:
            if len(backs) > 1 and not self.possible(st.facts):
                continue
            v = self.ev(st.env.get(ph[3], ph))
            if v not in vals:
                vals.append(v)
        if len(vals) != 1:
            raise Unknown(("update", ph, len(vals)))
        return vals[0]

    def possible(self, facts):
        for f, v in facts.items():
            try:
                if not self.holds(f, v):
                    return False
            except (Unknown, ZeroDivisionError, IndexError, TypeError):
                pass
        return True

    def entry(self, ph):
        if ph not in self.sc.entry_of:
            raise Unknown(ph)
        e = self.sc.entry_of[ph]
        return ("init", ph[3]) if e is None else e

    def fold(self, ph):
        """value of a loop-carried variable from the loop's counter"""
        lid = ph[1]
        ent = self.entry(ph)
        backs = self.backs(ph)
        if not backs:
            raise Unknown(ph)
        if all(st.env.get(ph[3], ph) == ph for st in backs):
            return self.ev(ent)
        cnt = [a for a in self.env if isinstance(a, tuple) and a and
               a[0] == "phi" and a[1] == lid and a[2] == ph[2] and
               a in self.counters]
        if not cnt:
            return self.completed(ph, ent, backs)
        c = cnt[0]
        step = self.step(c)
        now = self.env[c]
        # what belongs to loops inside this one is not known here
        lids = [l for l, _ in self.trace]
        if lid in lids:
            inner = set(lids[lids.index(lid) + 1:])
            outer = lids[:lids.index(lid)]
        else:
            inner, outer = set(), lids
        saved, tr = dict(self.env), self.trace
        if inner:
            self.env = {k: v for k, v in self.env.items()
                        if not (isinstance(k, tuple) and k and
                                k[0] == "phi" and k[1] in inner)}
            self.trace = tuple(x for x in tr if x[0] not in inner)
        key = (ph, tuple(x for x in tr if x[0] in outer),
               tuple(sorted((str(k), str(v)) for k, v in self.env.items()
                            if k in self.counters and k != c)))
        try:
            x = self.ev(self.entry(c))
            x0 = x
            back = now
            while back != x0 and (key, back) not in self.memo:
                back -= step
                if (back - x0) * step < 0:
                    raise Unknown(ph)
            if (key, back) in self.memo:
                x, v = back, self.memo[(key, back)]
            else:
                v = self.ev(ent)
            k = 0
            while x != now:
                self.env[c] = x
                self.env[ph] = v
                v = self.update(ph, backs)
                x += step
                if isinstance(v, (int, It)):
                    self.memo[(key, x)] = v
                k += 1
                if k > 300:
                    raise Unknown(ph)
        finally:
            self.env, self.trace = saved, tr
        return v

    def completed(self, ph, ent, backs):
        """value of a loop-carried variable after its loop has ended"""
        lid, fr = ph[1], ph[2]
        facts = backs[0].facts
        cand = []
        for f in facts:
            for x in subterms(f):
                if isinstance(x, tuple) and x and x[0] == "phi" and \
                        x[1] == lid and x[2] == fr and x not in cand:
                    cand.append(x)
        for c in cand:
            try:
                step = self.step(c)
                g = [f for f in self.guard(facts, c)
                     if all(st.facts.get(f) == facts[f] for st in backs)]
                x = self.ev(self.entry(c))
            except (Unknown, KeyError):
                continue
            if not g:
                continue
            v = self.ev(ent)
            saved, tr = dict(self.env), self.trace
            self.counters.add(c)
            try:
                for k in range(300):
                    self.trace = tr + ((lid, k),)
                    self.env = dict(saved)
                    self.env[c], self.env[ph] = x, v
                    if not all(self.holds(f, facts[f]) for f in g):
                        return self.env[ph]
                    v = self.update(ph, backs) if ph != c else v + step
                    x += step
            finally:
                self.env, self.trace = saved, tr
        raise Unknown(ph)

    def step(self, c):
        for (i, f), sts in self.sc.back.items():
            if i == c[1] and f == c[2]:
                for st in sts:
                    d = sub(st.env.get(c[3], c), c)
                    if is_num(d) and d != 0:
                        return d
        raise Unknown(("step", c))

    def call(self, t):
        n = last(t[1])
        a = [x for x in t[2:] if not (isinstance(x, tuple) and x and
                                      x[0] == "#")]
        if n in self.models:
            return self.models[n](self, a)
        if n == "size" and len(a) == 1:
            return self.size(self.ev(a[0]))
        if n in ("front", "back") and len(a) == 1:
            v = self.ev(a[0])
            return self.index(v, 0 if n == "front" else self.size(v) - 1)
        if n in ("begin", "cbegin", "data"):
            return It(self.ev(a[0]), 0)
        if n in ("end", "cend"):
            v = self.ev(a[0])
            return It(v, self.size(v))
        if n in ("operator+", "operator-", "next", "prev") and a:
            x = self.ev(a[0])
            y = self.ev(a[1]) if len(a) > 1 else 1
            sg = -1 if n in ("operator-", "prev") else 1
            if isinstance(x, It) and isinstance(y, int):
                return It(x.arr, x.pos + sg * y)
            if isinstance(y, It) and isinstance(x, int) and sg == 1:
                return It(y.arr, y.pos + x)
            if isinstance(x, It) and isinstance(y, It) and sg == -1:
                return x.pos - y.pos
            if isinstance(x, (int, Fraction)) and \
                    isinstance(y, (int, Fraction)):
                return x + sg * y
            raise Unknown(t)
        if n == "operator*" and len(a) == 1:
            x = self.ev(a[0])
            if isinstance(x, It):
                return self.index(x.arr, x.pos)
            raise Unknown(t)
        if n in ("accumulate", "reduce") and len(a) >= 2:
            b, e = self.ev(a[0]), self.ev(a[1])
            s = self.ev(a[2]) if len(a) > 2 else 0
            if b.arr is not e.arr and b.arr != e.arr:
                raise Unknown(t)
            for i in range(b.pos, e.pos):
                s += self.index(b.arr, i)
            return s
        if n in ("max_element", "min_element") and len(a) == 2:
            b, e = self.ev(a[0]), self.ev(a[1])
            f = max if n == "max_element" else min
            vals = [self.index(b.arr, i) for i in range(b.pos, e.pos)]
            if not vals:
                return e
            return It(b.arr, b.pos + vals.index(f(vals)))
        if n == "conj" and len(a) == 1:
            v = SP.of(self.ev(a[0]))
            if v is None:
                raise Unknown(t)
            return v.conj()
        if n == "complex":
            re = self.ev(a[0]) if a else 0
            im = self.ev(a[1]) if len(a) > 1 else 0
            if isinstance(im, (int, Fraction)) and im == 0:
                return re
            re, im = SP.of(re), SP.of(im)
            if re is None or im is None:
                raise Unknown(t)
            return re + im * SP({(I,): 1})
        if n in ("max", "min") and len(a) == 2:
            return (max if n == "max" else min)(self.ev(a[0]),
                                                self.ev(a[1]))
        if n in ("make_pair", "make_tuple", "pair", "tuple"):
            return tuple(self.ev(x) for x in a)
        if n == "operator[]" and len(a) == 2:
            return self.index(self.ev(a[0]), self.ev(a[1]))
        raise Unknown(t)

    def holds(self, f, val):
        return bool(self.ev(f)) == bool(val)

    def iterate(self, site):
        """runs the body of self over the loops of the site: yields once per
        iteration with self.env set"""
        for f, v in site["facts"].items():
            if any(isinstance(x, tuple) and x and x[0] == "phi"
                   for x in subterms(f)):
                continue
            try:
                if not self.holds(f, v):
                    return      # the site is not reached
            except (Unknown, IndexError, ZeroDivisionError):
                pass
        yield from self._it(list(site["loops"]), site["facts"])

    def relevant(self, facts, done):
        """facts whose truth can be evaluated now"""
        return done

    def _it(self, loops, facts):
        if not loops:
            for f, v in facts.items():
                try:
                    if not self.holds(f, v):
                        return
                except Unknown:
                    pass
            yield None
            return
        lid = loops[0]
        each = None
        cand = []
        for f in facts:
            for x in subterms(f):
                if isinstance(x, tuple) and x and x[0] == "phi" and \
                        x[1] == lid and x not in cand:
                    try:
                        self.step(x)
                        cand.append(x)
                    except Unknown:
                        pass
        cand = [c for c in cand if self.guard(facts, c)]
        if not cand:
            raise Unknown(("loop", lid))
        c = cand[0]
        step = self.step(c)
        x = self.ev(self.entry(c))
        saved = dict(self.env)
        self.counters.add(c)
        tr = self.trace
        k = 0
        while True:
            self.env = dict(saved)
            self.env[c] = x
            self.trace = tr + ((lid, k),)
            ok = True
            for f in self.guard(facts, c):
                if not self.holds(f, facts[f]):
                    ok = False
            if not ok:
                break
            yield from self._it(loops[1:], facts)
            x += step
            k += 1
            if k > 300:
                if self.diverges(facts, c, step):
                    raise Diverges("the counter moves away from its bound")
                raise Unknown(("unbounded", lid))
        self.env = saved
        self.trace = tr

    def diverges(self, facts, c, step):
        """no condition of the loop ever ends it"""
        gs = self.guard(facts, c)
        for f in gs:
            m = f[1].m if isinstance(f[1], Poly) else {(f[1],): 1}
            d = self.ev(f[1])
            delta = m[(c,)] * step
            want = facts[f]
            if f[0] == "lt0" and (delta > 0) == bool(want):
                return False
            if f[0] == "eq0" and (want or d * delta < 0):
                return False
        return bool(gs)

    def guard(self, facts, c):
        """facts that can be decided by the counter c alone (and what is
        already known): the loop condition"""
        out = []
        backs = self.backs(c)
        near = [st for st in backs
                if not any(st.facts.get(f, v) != v for f, v in facts.items()
                           if not any(isinstance(x, tuple) and x and
                                      x[0] == "phi" for x in subterms(f)))]
        backs = near or backs       # not those of other paths
        for f in facts:
            if f[0] not in ("eq0", "lt0"):
                continue
            if not all(st.facts.get(f) == facts[f] for st in backs):
                continue        # not the loop condition
            ph = [x for x in subterms(f) if isinstance(x, tuple) and x and
                  x[0] == "phi"]
            if c in ph and all(p == c or p in self.env or
                               self.name_of(p[3]) in self.roots
                               for p in ph):
                d = f[1]
                # linear in the counter with coefficient +-1
                m = d.m if isinstance(d, Poly) else {(d,): 1}
                if m.get((c,)) in (1, -1):
                    out.append(f)
        return out


def replay(it, make, kinds=("store", "call")):
    """every iteration of every recorded site, in execution order:
    [(site, Ev)], plus the sites whose loops are not understood"""
    pos = {}
    for i, s in enumerate(it.sites):
        pos.setdefault((s["fid"], s["node"]["i"] if s["node"] else None), i)
        for l in s["loops"]:
            pos.setdefault(l, i)
    out, bad, seen, memo = [], [], set(), {}
    for s in it.sites:
        if s["kind"] not in kinds:
            continue
        e = make()
        e.memo = memo
        try:
            for _ in e.iterate(s):
                leaf = pos[(s["fid"], s["node"]["i"] if s["node"] else None)]
                key = tuple((pos[l], k) for l, k in e.trace) + ((leaf, 0),)
                # the location separates the rounds of an unrolled loop
                if (key, s["kind"], str(s["what"])) in seen:
                    continue
                seen.add((key, s["kind"], str(s["what"])))
                snap = make()
                snap.env = dict(e.env)
                snap.trace = e.trace
                snap.memo = memo
                snap.counters = set(e.counters)
                out.append((key, s, snap))
        except Unknown as u:
            bad.append((s, u))
    out.sort(key=lambda x: x[0])
    return [(s, e) for _, s, e in out], bad


class Memory:
    """contents of the arrays written by a replay.  Terms refer to the
    contents at the start of the iteration they belong to."""

    def __init__(self, initial=None):
        self.m, self.where = {}, {}
        self.snap, self.at = {}, None
        self.initial = initial

    def enter(self, e):
        if e.trace != self.at:
            self.at, self.snap = e.trace, dict(self.m)

    def now(self):
        """reads see everything stored so far"""
        self.snap, self.at = dict(self.m), None

    def value(self, what, v):
        if what == "value":
            r = self.snap.get((v.root, v.path))
            if r is not None:
                return r
        return self.initial(what, v) if self.initial else None

    def put(self, v, x, w):
        self.m[(v.root, v.path)] = x
        self.where[(v.root, v.path)] = w
