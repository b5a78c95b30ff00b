"""Path-sensitive abstract interpretation of the resolved AST over the term
domain (trace partitioning).  Loops are widened: every location the loop can
assign is replaced by an unknown before one abstract pass over the body, so a
finite set of abstract paths covers every execution.  Loops with a small
constant trip count are unrolled.  Repository functions are followed through
calls (helper extraction does not change the result); other calls are
uninterpreted functions of their arguments.  Branch pruning uses only the
facts already on the path (syntactic equality and intervals)."""
import itertools
from fractions import Fraction

from .facts import walk, AnalysisError
from .terms import (Poly, add, sub, mul, neg, is_num, monos, show, subst,
                    contains, subterms)

INF = float("inf")


class Budget(Exception):
    """Too many abstract paths: the caller treats the question as open."""


class State:
    __slots__ = ("env", "facts", "events", "depth")

    def __init__(self, env=None, facts=None, events=None):
        self.env = env if env is not None else {}
        self.facts = facts if facts is not None else {}
        self.events = events if events is not None else ()

    def copy(self):
        return State(dict(self.env), dict(self.facts), self.events)

    def event(self, kind, *data):
        self.events = self.events + ((kind,) + data,)


class Path:
    """A finished abstract path of the analysed function."""
    def __init__(self, outcome, value, state, node):
        self.outcome = outcome  # 'return' | 'throw' | 'end' | 'noreturn'
        self.value = value
        self.state = state
        self.node = node

    @property
    def facts(self):
        return self.state.facts

    @property
    def events(self):
        return self.state.events


class Frame:
    _ids = itertools.count(1)

    def __init__(self, fn, this=None, parent=None, caps=None):
        self.id = next(Frame._ids)
        self.fn = fn
        self.this = this
        self.parent = parent
        self.caps = caps or {}
        self.depth = parent.depth + 1 if parent else 0

    def stack(self):
        f = self
        while f:
            yield f.fn["fid"]
            f = f.parent


def trange(t):
    """Value range of an integer type."""
    if t.get("k") == "bool":
        return 0, 1
    w = t.get("w")
    if t.get("k") in ("int", "enum") and w:
        if t.get("u"):
            return 0, 2 ** w - 1
        return -2 ** (w - 1), 2 ** (w - 1) - 1
    return -INF, INF


def last(qn):
    """Last component of a qualified name, template arguments removed."""
    d = 0
    out = []
    for ch in qn:
        if ch == "<":
            d += 1
        elif ch == ">" and d > 0:
            d -= 1
        elif d == 0:
            out.append(ch)
    s = "".join(out)
    if "operator" in qn:
        i = qn.rfind("operator")
        return qn[i:]
    return s.split("::")[-1]


class Interp:
    """Subclass and override hooks, or pass models={qn: f(interp, node, frame,
    state, args) -> list of (state, value) | None}."""

    max_paths = 3000
    max_depth = 12
    unroll = 16

    def __init__(self, prog, models=None, inline=None):
        self.prog = prog
        self.models = models or {}
        self.inline_pred = inline
        self.fresh_n = itertools.count(1)
        self.steps = 0
        self.types_of = {}   # atom -> type dict (for ranges)
        self.visited = set()

    # ---- hooks ---------------------------------------------------------
    def may_inline(self, fn, frame):
        if self.inline_pred is not None:
            return self.inline_pred(fn, frame)
        return True

    def on_call(self, node, frame, st, args, objloc):
        """Return list of (state, value) to override, or None."""
        return None

    def on_store(self, loc, val, node, frame, st):
        pass

    # ---- values --------------------------------------------------------
    def fresh(self, what, ty=None):
        a = ("sym", "%s#%d" % (what, next(self.fresh_n)))
        if ty:
            self.types_of[a] = ty
        return a

    def load(self, loc, st, ty=None):
        if loc in st.env:
            v = st.env[loc]
            # gather field updates on top of an object value
            return self.with_fields(loc, v, st)
        if loc[0] == "f":
            pv = self.load_opt(loc[1], st)
            if pv is not None:
                r = self.field_of(pv, loc[2])
                if ty:
                    self.note(r, ty)
                return r
        if loc[0] == "el":
            pv = self.load_opt(loc[1], st)
            if pv is not None:
                r = self.elem_of(pv, loc[2], st)
                if ty:
                    self.note(r, ty)
                return r
        a = ("init", loc)
        v = self.with_fields(loc, a, st)
        if ty:
            self.note(v, ty)
        return v

    def note(self, v, ty):
        if isinstance(v, tuple) and v not in self.types_of:
            self.types_of[v] = ty

    def load_opt(self, loc, st):
        if loc in st.env:
            return self.with_fields(loc, st.env[loc], st)
        if loc[0] in ("f", "el"):
            p = self.load_opt(loc[1], st)
            if p is not None:
                return (self.field_of(p, loc[2]) if loc[0] == "f"
                        else self.elem_of(p, loc[2], st))
        return None

    def with_fields(self, loc, v, st):
        """The value of an object some fields of which were assigned."""
        if not isinstance(v, tuple) or v[0] in ("str", "ptr", "null"):
            return v
        fl = sorted((l[2], x) for l, x in st.env.items()
                    if l[0] == "f" and l[1] == loc and
                    isinstance(l[2], str)) if any(
                        l[0] == "f" and l[1] == loc for l in st.env) else ()
        if not fl:
            return v
        out = []
        for name, x in fl:
            x = self.with_fields(("f", loc, name), x, st)
            if self.field_of(v, name) != x:
                out.append((name, x))
        if not out:
            return v
        return ("rec", v, tuple(out))

    PAIR = {"first": 0, "second": 1, "bind0": 0, "bind1": 1, "bind2": 2,
            "bind3": 3}

    def field_of(self, v, f):
        if isinstance(v, tuple):
            if f in self.PAIR and v[0] == "call" and last(v[1]) in (
                    "make_pair", "make_tuple", "pair", "tuple") and \
                    v[1].startswith("std::") and \
                    len(v) >= 4 and self.PAIR[f] < len(v) - 2:
                return v[2 + self.PAIR[f]]
            if v[0] == "rec":
                for n, x in v[2]:
                    if n == f:
                        return x
                return self.field_of(v[1], f)
            if v[0] == "init":
                return ("init", ("f", v[1], f))
        return ("fld", v, f)

    def elem_of(self, v, off, st):
        if isinstance(v, tuple) and v[0] == "agg" and isinstance(off, int):
            if 0 <= off < len(v[1]):
                return v[1][off]
        if isinstance(v, tuple) and v[0] == "str" and isinstance(off, int):
            b = v[1].encode("latin1", "replace")
            if 0 <= off < len(b):
                return b[off]
            if off == len(b):
                return 0
        if isinstance(v, tuple) and v[0] == "init":
            return ("init", ("el", v[1], off))
        if isinstance(v, tuple) and len(v) == 5 and v[0] == "call" and \
                last(v[1]) == "substr" and v[1].startswith("std::") and \
                self.decide(self.c_lt(off, v[4]), st) is True:
            return self.elem_of(v[2], add(v[3], off), st)
        return ("elem", v, off)

    # ---- ranges / facts -------------------------------------------------
    def atom_range(self, a, st, seen=None):
        lo, hi = -INF, INF
        t = self.types_of.get(a)
        if t is not None:
            lo, hi = trange(t)
        if isinstance(a, tuple):
            if a[0] == "op":
                r = self.op_range(a, st)
                lo, hi = max(lo, r[0]), min(hi, r[1])
            elif a[0] == "call" and last(a[1]) in (
                    "size", "length", "strlen", "Size", "num_elements"):
                lo = max(lo, 0)
            elif a[0] == "truth":
                lo, hi = max(lo, 0), min(hi, 1)
        for (f, val) in st.facts.items():
            if not (isinstance(f, tuple) and f[0] in ("lt0", "eq0")):
                continue
            p = monos(f[1])
            if (a,) not in p:
                continue
            rest = [(k, c) for k, c in p.items() if k not in ((), (a,))]
            if rest:
                continue
            c = p[(a,)]
            k = p.get((), 0)
            b = Fraction(-k) / Fraction(c)
            if f[0] == "eq0":
                if val:
                    lo, hi = max(lo, b), min(hi, b)
                else:
                    if lo == b:
                        lo = b + 1
                    if hi == b:
                        hi = b - 1
                continue
            # c*a + k < 0  (val) or >= 0 (not val)
            isint = True
            t2 = self.types_of.get(a)
            if t2 is not None and t2.get("k") == "float":
                isint = False
            if val:
                if c > 0:  # a < b
                    ub = b - 1 if isint and b.denominator == 1 else b
                    hi = min(hi, ub)
                else:      # a > b
                    lb = b + 1 if isint and b.denominator == 1 else b
                    lo = max(lo, lb)
            else:
                if c > 0:
                    lo = max(lo, b)
                else:
                    hi = min(hi, b)
        return lo, hi

    def op_range(self, a, st):
        op = a[1]
        if op == "%" and len(a) == 4:
            l2, h2 = self.range(a[3], st)
            l1, h1 = self.range(a[2], st)
            if l2 > 0:
                lo = 0 if l1 >= 0 else -(h2 - 1)
                return lo, min(h2 - 1, h1 if l1 >= 0 else INF)
        if op == "/" and len(a) == 4:
            l1, h1 = self.range(a[2], st)
            l2, h2 = self.range(a[3], st)
            if l1 >= 0 and l2 > 0:
                return (0, h1 if h1 == INF else h1 // l2)
        if op == "&" and len(a) == 4:
            for x in (a[2], a[3]):
                l, h = self.range(x, st)
                if l >= 0 and h != INF:
                    return 0, h
        return -INF, INF

    def range(self, v, st):
        if isinstance(v, bool):
            v = int(v)
        if is_num(v):
            return v, v
        if isinstance(v, float):
            return v, v
        if isinstance(v, Poly):
            lo, hi = 0, 0
            for k, c in v.m.items():
                if k == ():
                    l = h = c
                elif len(k) == 1:
                    l, h = self.atom_range(k[0], st)
                    l, h = (c * l, c * h) if c > 0 else (c * h, c * l)
                else:
                    l, h = 1, 1
                    ok = True
                    for a in k:
                        al, ah = self.atom_range(a, st)
                        if al < 0:
                            ok = False
                            break
                        l, h = (l * al, (h * ah if h and ah else 0))
                    if not ok:
                        l, h = -INF, INF
                    elif c > 0:
                        l, h = c * l, c * h
                    else:
                        l, h = c * h, c * l
                lo, hi = lo + l, hi + h
            # refine by whole-poly facts
            return lo, hi
        return self.atom_range(v, st)

    def decide(self, f, st):
        """Truth of a normalised condition under the path facts, or None."""
        if isinstance(f, (bool, int)):
            return bool(f)
        if f in st.facts:
            return st.facts[f]
        if isinstance(f, tuple) and f[0] == "lt0":
            lo, hi = self.range(f[1], st)
            if hi < 0:
                return True
            if lo >= 0:
                return False
            for g, val in st.facts.items():
                if isinstance(g, tuple) and g[0] == "lt0":
                    d = sub(f[1], g[1])
                    if val and is_num(d) and d <= 0:
                        return True
                    if not val and is_num(d) and d >= 0:
                        return False
                    # not(q<0), f = -q - k : q >= 0 -> -q-k <= -k
                    s = add(f[1], g[1])
                    if not val and is_num(s) and s < 0:
                        return True
                    if val and is_num(s) and s >= 0:
                        # q<0 -> -q>0 ; f = s - q > s >= 0 -> not <0
                        return False
                elif isinstance(g, tuple) and g[0] == "eq0" and val:
                    d = sub(f[1], g[1])
                    if is_num(d):
                        return d < 0
                    d = add(f[1], g[1])
                    if is_num(d):
                        return d < 0
        if isinstance(f, tuple) and f[0] == "eq0":
            lo, hi = self.range(f[1], st)
            if lo > 0 or hi < 0:
                return False
            if lo == hi == 0:
                return True
            for g, val in st.facts.items():
                if isinstance(g, tuple) and g[0] == "lt0" and val:
                    d = sub(f[1], g[1])
                    if is_num(d) and d <= 0:
                        return False
                    d = add(f[1], g[1])
                    if is_num(d) and d <= 0:
                        return False
                if isinstance(g, tuple) and g[0] == "eq0" and val:
                    d = sub(f[1], g[1])
                    if is_num(d) and d != 0:
                        return False
                    d = add(f[1], g[1])
                    if is_num(d) and d != 0:
                        return False
        if isinstance(f, tuple) and f[0] == "eq":
            # x == "a" known true -> x == "b" false
            for g, val in st.facts.items():
                if val and isinstance(g, tuple) and g[0] == "eq":
                    for x in (1, 2):
                        for y in (1, 2):
                            if f[x] == g[y]:
                                o1, o2 = f[3 - x], g[3 - y]
                                if (isinstance(o1, tuple) and o1[0] == "str"
                                        and isinstance(o2, tuple)
                                        and o2[0] == "str" and o1 != o2):
                                    return False
        return None

    def assume(self, f, val, st):
        """Adds a fact; returns False if it contradicts the path."""
        d = self.decide(f, st)
        if d is not None:
            return d == val
        st.facts[f] = val
        return True

    # normalised conditions
    def c_lt(self, a, b):
        d = sub(a, b)
        if is_num(d):
            return d < 0
        return ("lt0", d)

    def c_eq(self, a, b):
        if isinstance(a, float) or isinstance(b, float):
            if a == b:
                return True
        if a == b:
            return True
        ta, tb = isinstance(a, tuple), isinstance(b, tuple)
        if ta and tb and a[0] == "str" and b[0] == "str":
            return a[1] == b[1]
        if ta and tb and a[0] == "ptr" and b[0] == "ptr" and a[1] == b[1]:
            return self.c_eq(a[2], b[2])
        if (ta and a[0] == "null") or (tb and b[0] == "null"):
            x = b if (ta and a[0] == "null") else a
            if isinstance(x, tuple) and x[0] == "ptr":
                return False
            return ("isnull", x)
        numlike = (is_num(a) or is_num(b) or isinstance(a, Poly)
                   or isinstance(b, Poly) or self.is_scalar(a)
                   or self.is_scalar(b))
        if numlike and not isinstance(a, float) and not isinstance(b, float):
            d = sub(a, b)
            if is_num(d):
                return d == 0
            # canonical sign
            m = monos(d)
            k = min((x for x in m if x != ()), key=repr)
            if m[k] < 0:
                d = neg(d)
            return ("eq0", d)
        x, y = sorted((a, b), key=repr)
        return ("eq", x, y)

    def is_scalar(self, v):
        t = self.types_of.get(v)
        return t is not None and t.get("k") in ("int", "bool", "enum", "float")

    def truth(self, v):
        """Condition equivalent to v converted to bool -> (cond, polarity)."""
        if isinstance(v, bool):
            return v, True
        if isinstance(v, (int, Fraction, float)):
            return bool(v), True
        if isinstance(v, tuple):
            if v[0] == "not":
                c, p = self.truth(v[1])
                return (c, not p) if not isinstance(c, bool) else (not c, True)
            if v[0] in ("lt0", "eq0", "eq", "isnull", "truth"):
                return v, True
            if v[0] == "null":
                return False, True
            if v[0] == "ptr" and v[1][0] in ("v", "g", "f", "tmp"):
                return True, True
            if self.is_scalar(v):
                c = self.c_eq(v, 0)
                if isinstance(c, bool):
                    return not c, True
                return c, False
        if isinstance(v, Poly):
            return self.c_eq(v, 0), False
        return ("truth", v), True

    def branch(self, v, st):
        """-> list of (state, bool)."""
        c, pol = self.truth(v)
        if isinstance(c, bool):
            return [(st, c if pol else not c)]
        d = self.decide(c, st)
        if d is not None:
            return [(st, d if pol else not d)]
        s2 = st.copy()
        st.facts[c] = True
        s2.facts[c] = False
        return [(st, pol), (s2, not pol)]

    # ---- expressions -----------------------------------------------------
    def evals(self, nodes, frame, st):
        """Evaluates several expressions left to right -> [(st, [values])]."""
        res = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in res:
                for s2, v in self.ev(n, frame, s):
                    nxt.append((s2, vs + [v]))
            res = nxt
            self.check_budget(len(res))
        return res

    def check_budget(self, n):
        if n > self.max_paths:
            raise Budget("more than %d abstract paths" % self.max_paths)
        self.steps += 1
        if self.steps > 400000:
            raise Budget("step budget")

    def lv(self, n, frame, st):
        """Evaluates an lvalue -> [(st, loc)]."""
        k = n["k"]
        if k == "ref":
            if n["dk"] in ("var", "parm", "slocal", "binding"):
                loc = self.local(n, frame, st)
                return [(st, loc)]
            return [(st, ("g", n["n"]))]
        if k == "mem":
            if n["dk"] == "smember":
                return [(st, ("g", n["n"]))]
            base = n["c"][0]
            res = []
            if n.get("arrow"):
                for s, v in self.ev(base, frame, st):
                    res.append((s, ("f", self.deref(v), n["f"])))
            else:
                for s, l in self.lv(base, frame, st):
                    res.append((s, ("f", l, n["f"])))
            return res
        if k == "un" and n["op"] == "*":
            return [(s, self.deref(v))
                    for s, v in self.ev(n["c"][0], frame, st)]
        if k == "idx":
            res = []
            for s, (b, i) in self.evals(n["c"], frame, st):
                res.append((s, self.element(b, i)))
            return res
        if k == "opcall" and n["op"] in ("[]", "*", "->") \
                and (n["op"] != "*" or len(n["c"]) == 1) \
                and len(n["c"]) >= 1 and not self.will_inline(n, frame):
            if n["op"] == "[]":
                res = []
                for s, l in self.lv(n["c"][0], frame, st):
                    for s2, i in self.ev(n["c"][1], frame, s):
                        self.record_call(n, frame, s2,
                                         [self.load(l, s2), i], l)
                        res.append((s2, ("el", l, i)))
                return res
            res = []
            for s, v in self.ev(n["c"][0], frame, st):
                self.record_call(n, frame, s, [v], None)
                res.append((s, ("deref", v)))
            return res
        if k == "asg":
            return [(s, l) for s, l, _ in self.assign(n, frame, st)]
        if k == "un" and n["op"] in ("++", "--"):
            return [(s, l) for s, l, _ in self.incdec(n, frame, st)]
        if k == "cond":
            res = []
            for s, c in self.ev(n["c"][0], frame, st):
                for s2, b in self.branch(c, s):
                    res += self.lv(n["c"][1] if b else n["c"][2], frame, s2)
            return res
        if k == "cast":
            return self.lv(n["c"][0], frame, st)
        if k == "bin" and n["op"] == ",":
            res = []
            for s, _ in self.ev(n["c"][0], frame, st):
                res += self.lv(n["c"][1], frame, s)
            return res
        if k == "this":
            return [(st, frame.this or ("this",))]
        # rvalue materialised into a temporary, or reference-returning call
        res = []
        for s, v in self.ev(n, frame, st, want_loc=True):
            if isinstance(v, tuple) and v and v[0] == "lref":
                res.append((s, v[1]))
            else:
                t = ("tmp", n["i"], frame.id)
                s.env[t] = v
                self.drop_fields(t, s)
                res.append((s, t))
        return res

    def drop_fields(self, loc, st):
        dead = [l for l in st.env if l is not loc and self.within(l, loc)]
        for l in dead:
            del st.env[l]

    def within(self, l, base):
        while isinstance(l, tuple) and l and l[0] in ("f", "el"):
            l = l[1]
            if l == base:
                return True
        return False

    def local(self, n, frame, st):
        key = n["d"]
        f = frame
        if key in frame.caps:
            return frame.caps[key]
        loc = ("v", f.id, key, n["n"].split("::")[-1])
        al = st.env.get(("alias",) + loc[1:3])
        if al is not None:
            return al
        return loc

    def deref(self, v):
        if isinstance(v, tuple) and v[0] == "ptr":
            if v[2] == 0:
                return v[1]
            if v[1][0] == "el":
                return ("el", v[1][1], add(v[1][2], v[2]))
            return ("el", v[1], v[2])
        if isinstance(v, Poly):
            b, o = self.split_ptr(v)
            if b is not None:
                return ("el", ("deref", b), o)
        return ("deref", v)

    def split_ptr(self, v):
        """pointer-valued polynomial: base atom + offset."""
        for a in sorted((k[0] for k, c in v.m.items()
                         if len(k) == 1 and c == 1), key=repr):
            t = self.types_of.get(a)
            if t is not None and t.get("k") == "ptr":
                return a, sub(v, a)
        for k, c in v.m.items():
            if len(k) == 1 and c == 1 and k[0][0] == "call" \
                    and last(k[0][1]) in ("c_str", "data"):
                return k[0], sub(v, k[0])
        return None, None

    def element(self, b, i):
        if isinstance(b, tuple) and b[0] == "ptr":
            if b[1][0] == "el" and True:
                return ("el", b[1][1], add(add(b[1][2], b[2]), i))
            return ("el", b[1], add(b[2], i))
        if isinstance(b, Poly):
            bb, o = self.split_ptr(b)
            if bb is not None:
                return ("el", ("deref", bb), add(o, i))
        return ("el", ("deref", b), i)

    def ev(self, n, frame, st, want_loc=False):
        """Evaluates an rvalue -> [(st, value)]."""
        k = n["k"]
        self.visited.add((frame.fn["file"], n["l"]))
        if "cv" in n and k != "asg":
            return [(st, int(n["cv"]))]
        if "fv" in n and k in ("float", "ref", "bin", "un", "cast"):
            return [(st, Fraction(float(n["fv"])).limit_denominator(10**15)
                     if abs(float(n["fv"])) < 1e300 else float(n["fv"]))]
        m = getattr(self, "ev_" + k, None)
        if m is None:
            # unknown expression kind: evaluate children, opaque result
            res = []
            for s, vs in self.evals([c for c in n.get("c", []) if c], frame,
                                    st):
                res.append((s, self.fresh(k)))
            return res
        return m(n, frame, st)

    def ev_ParenListExpr(self, n, frame, st):
        # initialiser of a member of dependent type
        if len(n.get("c", [])) == 1 and n["c"][0]:
            return self.ev(n["c"][0], frame, st)
        return [(st, self.fresh("ParenListExpr"))]

    def ev_int(self, n, frame, st):
        return [(st, self.fresh("int"))]

    def ev_float(self, n, frame, st):
        return [(st, self.fresh("float"))]

    def ev_str(self, n, frame, st):
        return [(st, ("str", n.get("v", "")))]

    def ev_null(self, n, frame, st):
        return [(st, ("null",))]

    def ev_zero(self, n, frame, st):
        t = frame.fn.ty(n["t"])
        if t["k"] in ("int", "bool", "enum", "float"):
            return [(st, 0)]
        if t["k"] == "ptr":
            return [(st, ("null",))]
        return [(st, ("zero", t["s"]))]

    def ev_this(self, n, frame, st):
        return [(st, ("ptr", frame.this or ("this",), 0))]

    def ev_sizeof(self, n, frame, st):
        return [(st, self.fresh("sizeof"))]

    def ev_ref(self, n, frame, st):
        if n["dk"] == "fn":
            return [(st, ("fnref", n.get("fid", n["n"])))]
        if n["dk"] == "global" or n["dk"] == "smember":
            v = self.global_value(n["n"])
            if v is not None and ("g", n["n"]) not in st.env:
                return [(st, v)]
        t = frame.fn.ty(n["t"])
        res = []
        for s, l in self.lv(n, frame, st):
            res.append((s, self.read(l, s, t, n, frame)))
        return res

    def read(self, l, s, t, n, frame):
        if t["k"] == "arr":
            if l not in s.env:
                return ("ptr", l, 0)
            if isinstance(s.env[l], tuple) and s.env[l][0] in ("agg", "str"):
                return ("ptr", l, 0)
            return ("ptr", l, 0)
        return self.load(l, s, t)

    def global_value(self, qn):
        return None

    def ev_mem(self, n, frame, st):
        if n["dk"] == "fn":
            return [(st, ("fnref", n.get("fid", n["n"])))]
        if n["dk"] == "smember":
            return self.ev_ref(n, frame, st)
        t = frame.fn.ty(n["t"])
        return [(s, self.read(l, s, t, n, frame))
                for s, l in self.lv(n, frame, st)]

    def ev_idx(self, n, frame, st):
        t = frame.fn.ty(n["t"])
        return [(s, self.read(l, s, t, n, frame))
                for s, l in self.lv(n, frame, st)]

    def ev_un(self, n, frame, st):
        op = n["op"]
        t = frame.fn.ty(n["t"])
        if op == "*":
            return [(s, self.read(l, s, t, n, frame))
                    for s, l in self.lv(n, frame, st)]
        if op == "&":
            if n["c"][0]["k"] in ("ref", "mem") and \
                    n["c"][0].get("dk") == "fn":
                return self.ev(n["c"][0], frame, st)
            return [(s, ("ptr", l, 0))
                    if l[0] != "el" else (s, ("ptr", l, 0))
                    for s, l in self.lv(n["c"][0], frame, st)]
        if op in ("++", "--"):
            return [(s, v) for s, l, v in self.incdec(n, frame, st)]
        if op in ("p++", "p--"):
            return [(s, v) for s, l, v in self.incdec(n, frame, st)]
        res = []
        for s, v in self.ev(n["c"][0], frame, st):
            if isinstance(v, tuple) and v and v[0] == "lref":
                v = self.load(v[1], s)
            if op == "!":
                res.append((s, self.neg_cond(v)))
            elif op == "-":
                res.append((s, neg(v) if not isinstance(v, float) else -v))
            elif op == "+":
                res.append((s, v))
            elif op == "~":
                if is_num(v):
                    res.append((s, ~v))
                else:
                    res.append((s, ("op", "~", v)))
            else:
                res.append((s, ("op", op, v)))
        return res

    def neg_cond(self, v):
        c, p = self.truth(v)
        if isinstance(c, bool):
            r = c if p else not c
            return not r
        return ("not", c) if p else c

    def incdec(self, n, frame, st):
        op = n["op"]
        d = 1 if "++" in op else -1
        res = []
        t = frame.fn.ty(n["t"])
        for s, l in self.lv(n["c"][0], frame, st):
            old = self.load(l, s, t)
            if isinstance(old, tuple) and old[0] == "ptr":
                new = ("ptr", old[1], add(old[2], d))
                if old[1][0] == "el":
                    new = ("ptr", ("el", old[1][1], add(old[1][2], d)), 0)
            elif isinstance(old, float):
                new = old + d
            else:
                new = add(old, d)
            self.store(l, new, s, n, frame)
            res.append((s, l, old if op[0] == "p" else new))
        return res

    def store(self, loc, val, st, node, frame):
        self.drop_fields(loc, st)
        if isinstance(val, tuple) and val and val[0] == "lref":
            val = self.load(val[1], st)
        st.env[loc] = val
        # element store into an array with unknown index: other elements of
        # the same base may be overwritten
        if loc[0] == "el" and not is_num(loc[2]):
            for l in list(st.env):
                if l != loc and l[0] == "el" and l[1] == loc[1]:
                    d = sub(l[2], loc[2])
                    if not is_num(d):
                        del st.env[l]
                        st.env[l] = self.fresh("mayalias")
        if not self.is_local(loc):
            st.event("store", loc, val, node, frame.fn)
        self.on_store(loc, val, node, frame, st)

    def is_local(self, loc):
        l = loc
        while l[0] in ("f", "el"):
            l = l[1]
        return l[0] in ("v", "tmp")

    def assign(self, n, frame, st):
        op = n["op"]
        lt = frame.fn.ty(n["t"])
        res = []
        # evaluation order: right operand first for =, irrelevant otherwise
        for s, r in self.ev(n["c"][1], frame, st):
            if isinstance(r, tuple) and r and r[0] == "lref":
                r = self.load(r[1], s)
            for s2, l in self.lv(n["c"][0], frame, s):
                if op == "=":
                    v = r
                else:
                    old = self.load(l, s2, lt)
                    v = self.arith(op[:-1], old, r, s2, lt)
                    ct = frame.fn.ty(n["ct"]) if "ct" in n else None
                    if ct and ct["k"] == "int" and lt["k"] == "int":
                        v = self.conv(v, lt, s2)
                    elif lt["k"] == "bool":
                        v = self.as_bool(v)
                self.store(l, v, s2, n, frame)
                res.append((s2, l, v))
        return res

    def as_bool(self, v):
        c, p = self.truth(v)
        if isinstance(c, bool):
            return c if p else not c
        return c if p else ("not", c)

    def ev_asg(self, n, frame, st):
        return [(s, v) for s, l, v in self.assign(n, frame, st)]

    def arith(self, op, a, b, st, t=None):
        isf = t is not None and t.get("k") == "float"
        if isinstance(a, float) or isinstance(b, float):
            try:
                if op in "+-*/" and isinstance(a, (int, float, Fraction)) \
                        and isinstance(b, (int, float, Fraction)):
                    return {"+": lambda: a + b, "-": lambda: a - b,
                            "*": lambda: a * b, "/": lambda: a / b}[op]()
            except (ZeroDivisionError, OverflowError):
                pass
            return ("op", op, a, b)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if op in ("+", "-"):
            for x, y, sg in ((a, b, 1), (b, a, 1)):
                if isinstance(x, tuple) and x[0] == "ptr":
                    if isinstance(y, tuple) and y[0] == "ptr":
                        if op == "-" and a[1] == b[1]:
                            return sub(a[2], b[2])
                        return ("op", op, a, b)
                    if op == "-" and x is b:
                        return ("op", op, a, b)
                    off = y if op == "+" else neg(y)
                    if x[1][0] == "el":
                        return ("ptr", ("el", x[1][1], add(add(x[1][2],
                                x[2]), off)), 0)
                    return ("ptr", x[1], add(x[2], off))
            return add(a, b) if op == "+" else sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            if is_num(a) and is_num(b) and b != 0:
                if isf:
                    return Fraction(a) / Fraction(b)
                q = abs(a) // abs(b)
                return int(q if (a >= 0) == (b >= 0) else -q)
            if isf and is_num(b) and b != 0:
                return mul(a, Fraction(1) / Fraction(b))
            return ("op", "/", a, b)
        if op == "%":
            if is_num(a) and is_num(b) and b != 0 and a >= 0 and b > 0:
                return a % b
            return ("op", "%", a, b)
        if op in ("&", "|", "^", "<<", ">>"):
            if isinstance(a, int) and isinstance(b, int):
                try:
                    return {"&": lambda: a & b, "|": lambda: a | b,
                            "^": lambda: a ^ b, "<<": lambda: a << b,
                            ">>": lambda: a >> b}[op]()
                except ValueError:
                    pass
            if op in ("&", "|", "^"):
                a, b = sorted((a, b), key=repr)
            return ("op", op, a, b)
        return ("op", op, a, b)

    def ev_bin(self, n, frame, st):
        op = n["op"]
        if op in ("&&", "||"):
            res = []
            for s, a in self.ev(n["c"][0], frame, st):
                for s2, b in self.branch(a, s):
                    if (op == "&&") != b:
                        res.append((s2, b))
                    else:
                        for s3, v in self.ev(n["c"][1], frame, s2):
                            res.append((s3, self.as_bool(v)))
            self.check_budget(len(res))
            return res
        if op == ",":
            res = []
            for s, _ in self.ev(n["c"][0], frame, st):
                res += self.ev(n["c"][1], frame, s)
            return res
        res = []
        t = frame.fn.ty(n["t"])
        for s, vs in self.evals(n["c"], frame, st):
            a, b = [self.load(v[1], s) if isinstance(v, tuple) and v and
                    v[0] == "lref" else v for v in vs]
            res.append((s, self.binop(op, a, b, s, t)))
        return res

    def binop(self, op, a, b, s, t=None):
        if op in ("==", "!="):
            c = self.c_eq(a, b)
            if op == "!=":
                c = (not c) if isinstance(c, bool) else ("not", c)
            return c
        if op in ("<", ">", "<=", ">="):
            if isinstance(a, float) or isinstance(b, float):
                if isinstance(a, (int, float, Fraction)) and \
                        isinstance(b, (int, float, Fraction)):
                    return {"<": a < b, ">": a > b, "<=": a <= b,
                            ">=": a >= b}[op]
                return ("op", op, a, b)
            pa = isinstance(a, tuple) and a[0] == "ptr"
            pb = isinstance(b, tuple) and b[0] == "ptr"
            if pa and pb and a[1] == b[1]:
                a, b = a[2], b[2]
            if op == "<":
                return self.c_lt(a, b)
            if op == ">":
                return self.c_lt(b, a)
            c = self.c_lt(b, a) if op == "<=" else self.c_lt(a, b)
            return (not c) if isinstance(c, bool) else ("not", c)
        return self.arith(op, a, b, s, t)

    def ev_cond(self, n, frame, st):
        res = []
        for s, c in self.ev(n["c"][0], frame, st):
            for s2, b in self.branch(c, s):
                res += self.ev(n["c"][1] if b else n["c"][2], frame, s2)
        self.check_budget(len(res))
        return res

    def conv(self, v, t, st):
        """Integral conversion of v to type t."""
        if t["k"] == "bool":
            return self.as_bool(v)
        lo, hi = trange(t)
        l, h = self.range(v, st) if not (isinstance(v, tuple) and v[0] in (
            "lt0", "eq0", "eq", "not", "isnull", "truth")) else (0, 1)
        if l >= lo and h <= hi:
            return v
        if is_num(v):
            w = t["w"]
            x = int(v) & ((1 << w) - 1)
            if not t.get("u") and x >= 1 << (w - 1):
                x -= 1 << w
            return x
        if isinstance(v, tuple) and v[0] == "trunc":
            # modular arithmetic: a value that went through a type at least
            # as wide comes back unchanged if it fits
            vt = self.types_of.get(v, {})
            xl, xh = self.range(v[2], st)
            if vt.get("w", 0) >= t.get("w", 99) and xl >= lo and xh <= hi:
                return v[2]
        # a signed/unsigned reinterpretation of same-or-wider width is treated
        # as value preserving unless the client asks otherwise
        return self.lossy(v, t, l, h, st)

    def lossy(self, v, t, l, h, st):
        r = ("trunc", t["s"], v)
        self.types_of[r] = t
        return r

    def ev_cast(self, n, frame, st):
        t = frame.fn.ty(n["t"])
        ck = n["ck"]
        res = []
        if ck in ("LValueBitCast", "NoOp") and t["k"] in ("ref", "rref"):
            return self.ev(n["c"][0], frame, st)
        for s, v in self.ev(n["c"][0], frame, st):
            if ck in ("IntegralToBoolean", "PointerToBoolean",
                      "FloatingToBoolean"):
                v = self.as_bool(v)
            elif ck == "IntegralCast":
                v = self.conv(v, t, s)
            elif ck == "FloatingToIntegral":
                if is_num(v):
                    v = int(v)
                else:
                    v = ("op", "toint", v)
                    self.note(v, t)
            elif ck in ("IntegralToFloating", "FloatingCast"):
                if ck == "FloatingCast" and t.get("w", 64) < 64 \
                        and not is_num(v):
                    v = self.fcast(v, t)
            elif ck == "ToVoid":
                v = 0
            elif n.get("dyn"):
                v = ("call", "dynamic_cast<%s>" % t["s"], v)
            res.append((s, v))
        return res

    def fcast(self, v, t):
        return v

    def ev_lambda(self, n, frame, st):
        return [(st, ("lambda", n["fid"], frame.id))] if self._reg(
            n, frame) else []

    def _reg(self, n, frame):
        if not hasattr(self, "lambdas"):
            self.lambdas = {}
        self.lambdas[(n["fid"], frame.id)] = (n, frame)
        return True

    def ev_initlist(self, n, frame, st):
        t = frame.fn.ty(n["t"])
        if t["k"] not in ("arr", "rec", "other") and len(n["c"]) == 1:
            return self.ev(n["c"][0], frame, st)
        if not n["c"] and t["k"] in ("int", "bool", "enum", "float"):
            return [(st, 0)]
        if not n["c"] and t["k"] == "ptr":
            return [(st, ("null",))]
        return [(s, ("agg", tuple(vs))) for s, vs in
                self.evals([c for c in n["c"] if c], frame, st)]

    def ev_throw(self, n, frame, st):
        res = []
        for s, vs in self.evals([c for c in n.get("c", []) if c], frame, st):
            ty = None
            if n.get("c"):
                ty = frame.fn.ty(n["c"][0]["t"])
            s.event("throw", ty["s"] if ty else None, n, frame.fn)
            raise_ = ("throw", ty["s"] if ty else None, n)
            self._throws.append((s, raise_))
        return []

    def ev_new(self, n, frame, st):
        res = []
        subs = [c for c in n.get("c", []) if c]
        if n.get("size"):
            subs = [n["size"]] + subs
        for s, vs in self.evals(subs, frame, st):
            a = ("heap", n["i"], frame.id)
            s.event("new", frame.fn.ty(n["at"])["s"], tuple(vs), n, frame.fn)
            if vs:
                s.env[a] = vs[-1]
            res.append((s, ("ptr", a, 0)))
        return res

    def ev_delete(self, n, frame, st):
        res = []
        for s, vs in self.evals([c for c in n.get("c", []) if c], frame, st):
            s.event("delete", tuple(vs), n, frame.fn)
            res.append((s, 0))
        return res

    # ---- calls -----------------------------------------------------------
    def target(self, n, frame):
        """The unique repository definition a call resolves to, or None."""
        fid = n.get("fid")
        if fid is None:
            return None
        if n.get("virt") and not n.get("nonvirt"):
            if self.prog.over.get(fid):
                return None
        fn = self.prog.tu_fns.get((frame.fn.tu, fid))
        if fn is None:
            fn = self.prog.fns.get(fid)
        return fn

    def will_inline(self, n, frame):
        fn = self.target(n, frame)
        if fn is None or fn.get("dep"):
            return None
        if n.get("fn") in self.models:
            return None
        if frame.depth >= self.max_depth or fn["fid"] in frame.stack():
            return None
        if not self.may_inline(fn, frame):
            return None
        return fn

    def record_call(self, n, frame, st, args, objloc):
        st.event("call", n.get("fn", "?"), tuple(args), n, frame.fn, objloc)

    def ev_call(self, n, frame, st):
        return self.do_call(n, frame, st, n["c"], None)

    def ev_icall(self, n, frame, st):
        res = []
        for s, vs in self.evals(n["c"], frame, st):
            callee = vs[0]
            n2 = dict(n)
            if isinstance(callee, tuple) and callee[0] == "fnref":
                n2["fid"] = callee[1]
            s.event("call", "<indirect>", tuple(vs), n, frame.fn, None)
            res.append((s, ("call", "<indirect>") + tuple(vs)))
        return res

    def ev_pmcall(self, n, frame, st):
        return self.ev_icall(n, frame, st)

    def ev_mcall(self, n, frame, st):
        return self.do_call(n, frame, st, n["c"][1:], n["c"][0])

    def ev_opcall(self, n, frame, st):
        # lambda call?
        if n["op"] == "()" and n["c"]:
            fid = n.get("fid")
            if fid and fid.startswith("lambda@"):
                return self.call_lambda(n, frame, st)
        if self.is_complex_op(n):
            return self.complex_op(n, frame, st)
        if n.get("meth"):
            return self.do_call(n, frame, st, n["c"][1:], n["c"][0])
        return self.do_call(n, frame, st, n["c"], None)

    @staticmethod
    def is_complex_op(n):
        """arithmetic of std::complex: a field operation"""
        if n["op"] in ("+=", "-=", "*=", "/="):
            return n.get("cls") == "std::complex"
        return n["op"] in ("+", "-", "*", "/") and \
            "std::complex<" in n.get("fid", "") and \
            n.get("fn", "").startswith("std::operator") and \
            len(n["c"]) in (1, 2)

    def complex_op(self, n, frame, st):
        op, res = n["op"], []
        ft = {"k": "float"}
        if len(op) == 2:
            for s, r in self.ev(n["c"][1], frame, st):
                for s2, l in self.lv(n["c"][0], frame, s):
                    v = self.arith(op[0], self.load(l, s2), r, s2, ft)
                    self.store(l, v, s2, n, frame)
                    res.append((s2, v))
            return res
        for s, vs in self.evals(n["c"], frame, st):
            vs = [self.load(v[1], s) if isinstance(v, tuple) and v and
                  v[0] == "lref" else v for v in vs]
            if len(vs) == 1:
                v = vs[0] if op == "+" else neg(vs[0])
            else:
                v = self.arith(op, vs[0], vs[1], s, ft)
            res.append((s, v))
        return res

    def call_lambda(self, n, frame, st):
        fn = self.prog.tu_fns.get((frame.fn.tu, n["fid"]))
        res = []
        for s, lamv in self.ev(n["c"][0], frame, st):
            rec = None
            if isinstance(lamv, tuple) and lamv[0] == "lambda":
                rec = self.lambdas.get((lamv[1], lamv[2]))
            if fn is None or rec is None or frame.depth >= self.max_depth:
                for s2, vs in self.evals(n["c"][1:], frame, s):
                    self.record_call(n, frame, s2, vs, None)
                    res.append((s2, ("call", "<lambda>") + tuple(vs)))
                continue
            ln, lf = rec
            caps = self.captures(ln, lf, s)
            res += self.invoke(fn, n, frame, s, n["c"][1:], lf.this, caps)
        return res

    def do_call(self, n, frame, st, argnodes, objnode):
        fn = self.will_inline(n, frame)
        res = []
        if fn is not None:
            starts = [(st, None)]
            if objnode is not None:
                starts = []
                if n.get("arrow") or (objnode.get("k") != "this" and
                                      frame.fn.ty(objnode["t"])["k"]
                                      == "ptr"):
                    for s, v in self.ev(objnode, frame, st):
                        starts.append((s, self.deref(v)))
                elif objnode.get("k") == "this":
                    starts = [(st, frame.this or ("this",))]
                else:
                    starts = self.lv(objnode, frame, st)
            for s, this in starts:
                res += self.invoke(fn, n, frame, s, argnodes, this, None)
            self.check_budget(len(res))
            return res
        # opaque: evaluate object, arguments
        starts = [(st, None, None)]
        if objnode is not None:
            starts = []
            if objnode.get("k") == "this":
                loc = frame.this or ("this",)
                starts = [(st, loc, self.load(loc, st))]
            elif frame.fn.ty(objnode["t"])["k"] == "ptr":
                for s, v in self.ev(objnode, frame, st):
                    l = self.deref(v)
                    starts.append((s, l, self.load(l, s)))
            else:
                for s, l in self.lv(objnode, frame, st):
                    starts.append((s, l, self.load(l, s)))
        if objnode is not None and n.get("cls", "").startswith("std::"):
            ot = frame.fn.ty(objnode["t"])
            if ot["k"] == "ptr":
                ot = frame.fn.ty(ot["p"])
            if ot["k"] == "rec" and ot.get("rec") != n["cls"] and \
                    not ot.get("rec", "").startswith(("std::", "__gnu")):
                # a library base class: its part of the object only
                starts = [(s, ("f", l, "$base"),
                           self.load(("f", l, "$base"), s))
                          for s, l, v in starts]
        for s, loc, ov in starts:
            for s2, args, locs in self.eval_args(n, argnodes, frame, s):
                allv = ([ov] if objnode is not None else []) + args
                r = None
                mod = self.models.get(n.get("fn")) or \
                    self.models.get(last(n.get("fn", "?")))
                if mod is not None:
                    r = mod(self, n, frame, s2, args, loc, locs)
                if r is None:
                    r = self.on_call(n, frame, s2, allv, loc)
                if r is None:
                    self.record_call(n, frame, s2, allv, loc)
                    r = self.builtin(n, frame, s2, allv, args, loc, locs)
                if r is None:
                    r = self.opaque(n, frame, s2, allv, loc, locs)
                res += r
        self.check_budget(len(res))
        return res

    def eval_args(self, n, argnodes, frame, st):
        """-> [(st, values, locs)] ; locs[i] is the location for reference
        parameters (None otherwise)."""
        pm = n.get("pm", "")
        res = [(st, [], [])]
        off = 0
        if n["k"] == "opcall" and not n.get("meth"):
            off = 0
        for i, a in enumerate(argnodes):
            mode = pm[i + off] if i + off < len(pm) else self.vmode(
                a, frame)
            nxt = []
            for s, vs, ls in res:
                if mode in "rcm" and self.is_lv(a, frame):
                    for s2, l in self.lv(a, frame, s):
                        t = frame.fn.ty(a["t"])
                        nxt.append((s2, vs + [self.read(l, s2, t, a, frame)],
                                    ls + [l]))
                else:
                    for s2, v in self.ev(a, frame, s):
                        if isinstance(v, tuple) and v and v[0] == "lref":
                            nxt.append((s2, vs + [self.load(v[1], s2)],
                                        ls + [v[1]]))
                            continue
                        l = None
                        if mode in "pq" and isinstance(v, tuple) \
                                and v[0] == "ptr":
                            l = v[1]
                        nxt.append((s2, vs + [v], ls + [l]))
            res = nxt
        return res

    def vmode(self, a, frame):
        """Mode of a variadic argument."""
        t = frame.fn.ty(a["t"]) if "t" in a else {"k": "none"}
        if t["k"] in ("arr", "array") or "[" in t.get("s", ""):
            return "v" if t["s"].startswith("const ") else "p"
        if t["k"] == "ptr" and not frame.fn.ty(t["p"])["s"].startswith(
                "const "):
            return "p"
        return "v"

    def is_lv(self, a, frame):
        k = a["k"]
        if k in ("ref",):
            return a["dk"] in ("var", "parm", "slocal", "binding") or (
                a["dk"] in ("global", "smember") and "cv" not in a)
        if k in ("mem",):
            return a["dk"] == "field"
        if k == "idx":
            return True
        if k == "un":
            return a["op"] == "*"
        if k == "opcall":
            return (a["op"] == "[]" or a["op"] == "*" and len(a["c"]) == 1) \
                and not self.will_inline(a, frame)
        return False

    def char_test(self, n, name, st, allv, args, loc):
        """whether a character is one of a constant text"""
        if name == "find" and n["k"] == "mcall" and len(args) == 2 and \
                n.get("pm", "")[:1] == "v" and args[1] == 0:
            lit, x, none = allv[0], args[0], 2 ** 64 - 1
        elif name in ("strchr", "memchr") and n["k"] == "call" and \
                len(args) >= 2:
            lit, x, none = args[0], args[1], 0
        elif name == "compare" and n["k"] == "mcall" and len(args) == 3 and \
                args[1] == 1 and isinstance(args[2], tuple) and \
                args[2][0] == "str" and len(args[2][1]) == 1 and \
                loc is not None:
            x = self.load(("el", loc, args[0]), st,
                          {"k": "int", "w": 8, "u": False, "s": "char"})
            return [(s, 0 if b else 1) for s, b in self.branch(
                self.c_eq(x, ord(args[2][1])), st)]
        else:
            return None
        if not (isinstance(lit, tuple) and lit[0] == "str" and
                isinstance(lit[1], str) and 0 < len(lit[1]) <= 12):
            return None
        if isinstance(x, tuple) and x[0] in ("str", "ptr"):
            return None
        res, cur = [], [st]
        text = lit[1] + ("\0" if name == "strchr" else "")
        for k, ch in enumerate(text):
            nxt = []
            for s in cur:
                for s2, b in self.branch(self.c_eq(x, ord(ch)), s):
                    if b:
                        res.append((s2, k if name == "find" else 1))
                    else:
                        nxt.append(s2)
            cur = nxt
        return res + [(s, none) for s in cur]

    def builtin(self, n, frame, st, allv, args, loc, locs):
        """Models of a few standard functions."""
        f = n.get("fn", "?")
        name = last(f)
        if f.startswith("std::") or "::" not in f or f.startswith("__"):
            if name in ("move", "forward", "as_const", "addressof") and \
                    len(args) == 1:
                if name == "addressof":
                    return [(st, ("ptr", locs[0], 0))] if locs[0] else None
                if locs[0] is not None:
                    return [(st, ("lref", locs[0]))] if False else \
                        [(st, args[0])]
                return [(st, args[0])]
            if name in ("operator==", "operator!=") and len(allv) == 2:
                c = self.c_eq(allv[0], allv[1])
                if name == "operator!=":
                    c = (not c) if isinstance(c, bool) else ("not", c)
                return [(st, c)]
            if name in ("operator[]", "at") and len(args) == 1 and \
                    loc is not None and not isinstance(args[0], float):
                l = ("el", loc, args[0])
                if n["k"] != "opcall" and "rt" in n and \
                        frame.fn.ty(n["rt"])["k"] == "ref":
                    pass
                rt = frame.fn.ty(n["rt"]) if "rt" in n else {"k": "none"}
                if rt["k"] in ("ref", "rref"):
                    rt = frame.fn.ty(rt["p"])
                return [(st, self.load(l, st, rt))]
            r = self.char_test(n, name, st, allv, args, loc)
            if r is not None:
                return r
            if name in ("front", "back") and "basic_string<" in f and \
                    not args and loc is not None and len(allv) == 1:
                ix = 0
                if name == "back":
                    sz = ("call", "size", allv[0])
                    self.note(sz, {"k": "int", "w": 64, "u": True,
                                   "s": "size_t"})
                    ix = sub(sz, 1)
                rt = frame.fn.ty(n["rt"]) if "rt" in n else {"k": "none"}
                if rt["k"] in ("ref", "rref"):
                    rt = frame.fn.ty(rt["p"])
                return [(st, self.load(("el", loc, ix), st, rt))]
            if name == "empty" and len(allv) == 1:
                sz = ("call", "size", allv[0])
                return [(st, self.c_eq(sz, 0))]
            if name in ("size", "length") and len(allv) == 1:
                r = ("call", "size", allv[0])
                self.note(r, {"k": "int", "w": 64, "u": True, "s": "size_t"})
                if isinstance(allv[0], tuple) and allv[0][0] == "str":
                    r = len(allv[0][1])
                return [(st, r)]
            if name in ("c_str",) or (name == "data" and len(allv) == 1):
                return [(st, ("ptr", loc, 0))] if loc is not None else None
            if name in ("min", "max") and len(args) == 2:
                c = self.c_lt(args[0], args[1])
                res = []
                for s, b in self.branch(c, st):
                    lo, hi = (args[0], args[1]) if b else (args[1], args[0])
                    res.append((s, lo if name == "min" else hi))
                return res
            if name in ("abs", "fabs") and len(args) == 1 and \
                    is_num(args[0]):
                return [(st, abs(args[0]))]
            if name == "tie" and locs and all(l is not None for l in locs):
                return [(st, ("tie", tuple(locs)))]
            if name == "operator=" and len(args) == 1 and \
                    isinstance(allv[0], tuple) and allv[0][0] == "tie":
                for i, l in enumerate(allv[0][1]):
                    self.store(l, self.field_of(args[0], "bind%d" % i), st,
                               n, frame)
                return [(st, 0)]
            if name in ("operator=",) and loc is not None and \
                    len(args) == 1:
                self.store(loc, args[0], st, n, frame)
                return [(st, ("lref", loc))]
            if name == "swap" and len(args) == 2 and locs[0] and locs[1]:
                a, b = args
                self.store(locs[0], b, st, n, frame)
                self.store(locs[1], a, st, n, frame)
                return [(st, 0)]
        return None

    PURE = {"find", "begin", "end", "cbegin", "cend", "size", "at", "back",
            "front", "count", "lower_bound", "upper_bound", "substr"}

    def opaque(self, n, frame, st, allv, loc, locs):
        f = n.get("fn", "?")
        name = last(f)
        pm = n.get("pm", "")
        val = ("call", f) + tuple(x if not isinstance(x, list) else tuple(x)
                                  for x in allv)
        rt = frame.fn.ty(n["rt"]) if "rt" in n else {"k": "none"}
        isctor = n["k"] == "construct"
        ismeth = loc is not None and not isctor
        # side effects
        eff = []
        if ismeth and not n.get("cst") and name not in self.PURE:
            eff.append(loc)
        off = len(locs) and 0
        for i, l in enumerate(locs):
            mode = pm[i] if i < len(pm) else "p"
            if l is not None and mode in "rpm" and not (
                    mode == "m" and name in ("push_back", "emplace_back")):
                eff.append(l)
            elif l is not None and mode == "m":
                st.env[l] = ("moved", self.load(l, st))
                self.drop_fields(l, st)
        for v in allv:
            if isinstance(v, tuple) and v and v[0] == "lambda" and \
                    (v[1], v[2]) in self.lambdas:
                # may be run, any number of times
                inner = set()
                self.lambda_targets(*self.lambdas[v[1], v[2]], st, inner)
                eff += [l for l in inner if l is not None and l not in eff]
        if eff:
            val = val + (("#", next(self.fresh_n)),)
        for l in eff:
            st.env[l] = ("upd", name, self.load(l, st),
                         tuple(allv), ("#", next(self.fresh_n)))
            self.drop_fields(l, st)
        if n.get("noret") or name in ("abort", "exit", "terminate"):
            self._throws.append((st, ("noreturn", name, n)))
            return []
        if rt.get("k") not in ("ref", "rref"):
            self.note(val, rt)
        else:
            p = frame.fn.ty(rt["p"]) if "p" in rt else {}
            if ismeth and name.startswith("operator") and \
                    name[8:] in ("+=", "-=", "*=", "/=", "|=", "&=", "^=",
                                 "++", "--", "<<", ">>", "="):
                return [(st, ("lref", loc))]
            self.note(val, p)
        return [(st, val)]

    def ev_construct(self, n, frame, st):
        if (n.get("copy") or n.get("move")) and len(n["c"]) >= 1:
            res = []
            for s, v in self.ev(n["c"][0], frame, st):
                if isinstance(v, tuple) and v and v[0] == "lref":
                    v = self.load(v[1], s)
                if n.get("move") and self.is_lv(n["c"][0], frame):
                    pass
                res.append((s, v))
            return res
        return self.construct(n, frame, st, None)

    def construct(self, n, frame, st, target):
        """Constructs an object; target location or a temporary."""
        fn = self.will_inline(n, frame)
        if fn is not None and fn.get("ctor") and not fn.get("implicit"):
            loc = target or ("tmp", n["i"], frame.id)
            st.env.pop(loc, None)
            self.drop_fields(loc, st)
            st.env[loc] = ("new", fn["cls"], n["i"], frame.id)
            res = []
            for s, _ in self.invoke(fn, n, frame, st, n["c"], loc, None):
                if target is None:
                    res.append((s, ("lref", loc)))
                else:
                    res.append((s, s.env.get(loc)))
            return res
        res = []
        for s, args, locs in self.eval_args(n, n["c"], frame, st):
            r = None
            mod = self.models.get(n.get("fn"))
            if mod is not None:
                r = mod(self, n, frame, s, args, target, locs)
            if r is None:
                r = self.on_call(n, frame, s, args, target)
            if r is None:
                self.record_call(n, frame, s, args, target)
                t = frame.fn.ty(n["t"])
                if "basic_string<char" in t["s"] and len(args) >= 1 and \
                        isinstance(args[0], tuple) and args[0][0] == "str" \
                        and n.get("fid", "").count("const char *"):
                    r = [(s, args[0])]
                elif "basic_string<char" in t["s"] and not args:
                    r = [(s, ("str", ""))]
                elif "basic_string_view<char" in t["s"] and len(args) == 1:
                    r = [(s, args[0])]
                elif len(args) == 1 and locs[0] is not None and isinstance(
                        args[0], tuple) and "basic_string<char" in t["s"]:
                    r = [(s, args[0])]
                else:
                    r = [(s, ("call", n.get("fn", "?")) + tuple(args))]
            res += r
        return res

    def invoke(self, fn, n, frame, st, argnodes, this, caps):
        """Follows a call into a repository function."""
        fr = Frame(fn, this, frame, caps)
        starts = [st]
        params = fn["params"]
        pend = [(st, 0)]
        for i, p in enumerate(params):
            pt = fn.ty(p["t"])
            loc = ("v", fr.id, p["d"], p["n"])
            nxt = []
            for s in starts:
                if i >= len(argnodes):
                    nxt.append(s)
                    continue
                a = argnodes[i]
                if pt["k"] in ("ref", "rref"):
                    for s2, l in self.lv(a, frame, s):
                        s2.env[("alias",) + loc[1:3]] = l
                        nxt.append(s2)
                else:
                    if a["k"] == "construct" and not (
                            a.get("copy") or a.get("move")):
                        for s2, v in self.construct(a, frame, s, loc):
                            if isinstance(v, tuple) and v and v[0] == "lref":
                                v = self.load(v[1], s2)
                            if loc not in s2.env:
                                s2.env[loc] = v
                            nxt.append(s2)
                    else:
                        for s2, v in self.ev(a, frame, s):
                            if isinstance(v, tuple) and v and v[0] == "lref":
                                v = self.load(v[1], s2)
                            s2.env[loc] = v
                            self.note(v, pt)
                            nxt.append(s2)
            starts = nxt
        res = []
        for s in starts:
            s.event("enter", fn["qn"], n, frame.fn, this)
            for outcome, v, s2, nd in self.run_body(fn, fr, s):
                if outcome in ("throw", "noreturn"):
                    self._throws.append((s2, v if v else ("throw", None, nd)))
                else:
                    s2.event("leave", fn["qn"])
                    if v is not None and isinstance(v, tuple) and \
                            v and v[0] == "lref" and False:
                        v = self.load(v[1], s2)
                    res.append((s2, v if v is not None else 0))
        return res

    # ---- statements --------------------------------------------------------
    def run(self, fn, st=None, this=None, caps=None):
        """Analyses a function from the top -> [Path]."""
        self._throws = []
        fr = Frame(fn, this, None, caps)
        self.top = fr
        st = st or State()
        for p in fn["params"]:
            pt = fn.ty(p["t"])
            loc = ("v", fr.id, p["d"], p["n"])
            sym = ("sym", p["n"])
            if pt["k"] in ("ref", "rref"):
                l = ("g", "param:" + p["n"])
                st.env[("alias",) + loc[1:3]] = l
                st.env[l] = sym
                self.note(sym, fn.ty(pt["p"]))
            else:
                st.env[loc] = sym
                self.note(sym, pt)
        paths = []
        for outcome, v, s, nd in self.run_body(fn, fr, st):
            if isinstance(v, tuple) and v and v[0] == "lref":
                v = self.load(v[1], s)
            paths.append(Path(outcome, v, s, nd))
        return paths

    def run_body(self, fn, fr, st):
        """-> [(outcome, value, state, node)]"""
        saved = self._throws
        self._throws = []
        out = []
        states = [st]
        if fn.get("ctor"):
            for ini in fn.get("inits", ()):
                nxt = []
                for s in states:
                    if "field" in ini and ini.get("e"):
                        loc = ("f", fr.this or ("this",), ini["field"])
                        e = ini["e"]
                        for s2, v in self.ev(e, fr, s):
                            if isinstance(v, tuple) and v and v[0] == "lref":
                                v = self.load(v[1], s2)
                            self.store(loc, v, s2, e, fr)
                            nxt.append(s2)
                    elif ini.get("e"):
                        e = ini["e"]
                        if e["k"] == "construct":
                            for s2, v in self.construct(
                                    e, fr, s, fr.this or ("this",)):
                                nxt.append(s2)
                        else:
                            for s2, v in self.ev(e, fr, s):
                                nxt.append(s2)
                    else:
                        nxt.append(s)
                states = nxt
        for s in states:
            for o, v, s2, nd in self.stmt(fn["body"], fr, s):
                if o == "normal":
                    out.append(("end", None, s2, None))
                else:
                    out.append((o, v, s2, nd))
        for s, t in self._throws:
            out.append(("noreturn" if t[0] == "noreturn" else "throw",
                        t, s, t[2]))
        self._throws = saved
        self.check_budget(len(out))
        return out

    def stmt(self, n, fr, st):
        """-> [(outcome, value, state, node)], outcome in normal, break,
        continue, return"""
        if n is None:
            return [("normal", None, st, None)]
        k = n["k"]
        m = getattr(self, "st_" + k, None)
        if m is not None:
            return m(n, fr, st)
        # expression statement
        return [("normal", None, s, None) for s, _ in self.ev(n, fr, st)]

    def seq(self, stmts, fr, st):
        cur = [st]
        out = []
        for x in stmts:
            nxt = []
            for s in cur:
                for o, v, s2, nd in self.stmt(x, fr, s):
                    if o == "normal":
                        nxt.append(s2)
                    else:
                        out.append((o, v, s2, nd))
            cur = nxt
            self.check_budget(len(cur) + len(out))
            if not cur:
                break
        return out + [("normal", None, s, None) for s in cur]

    def st_block(self, n, fr, st):
        res = self.seq(n.get("c", []), fr, st)
        return self.scope_end(n, fr, res)

    def scope_end(self, n, fr, res):
        """Implicit destructors of the block's locals (hook: on_dtor)."""
        decls = [v for c in n.get("c", []) if c and c["k"] == "decl"
                 for v in c["vars"]]
        if not decls:
            return res
        for o, v, s, nd in res:
            for d in reversed(decls):
                loc = ("v", fr.id, d["d"], d["n"])
                if not d.get("ref") and not d.get("static"):
                    self.on_dtor(d, loc, fr, s)
        return res

    def on_dtor(self, d, loc, fr, st):
        pass

    def st_nop(self, n, fr, st):
        return [("normal", None, st, None)]

    def st_attr(self, n, fr, st):
        return self.stmt(n["c"][0], fr, st)

    def st_decl(self, n, fr, st):
        cur = [st]
        for d in n["vars"]:
            nxt = []
            for s in cur:
                nxt += self.declare(d, fr, s)
            cur = nxt
        return [("normal", None, s, None) for s in cur]

    def declare(self, d, fr, st):
        loc = ("v", fr.id, d["d"], d["n"])
        t = fr.fn.ty(d["t"])
        st.env.pop(loc, None)
        self.drop_fields(loc, st)
        out = []
        if d.get("static") and t["k"] not in ("ref", "rref") and \
                not t.get("s", "").startswith("const"):
            # it has kept the value of an earlier call
            v = ("sym", "static " + d["n"])
            self.note(v, t)
            st.env[loc] = v
            return [st]
        if "init" not in d:
            if t["k"] in ("int", "bool", "enum", "float", "ptr"):
                v = ("uninit", d["n"], d["d"], fr.id)
                self.note(v, t)
                st.env[loc] = v
            out = [st]
        elif t["k"] in ("ref", "rref"):
            for s, l in self.lv(d["init"], fr, st):
                s.env[("alias",) + loc[1:3]] = l
                out.append(s)
        else:
            e = d["init"]
            if e["k"] == "construct" and not (e.get("copy") or
                                              e.get("move")):
                rs = self.construct(e, fr, st, loc)
            else:
                rs = self.ev(e, fr, st)
            for s, v in rs:
                if isinstance(v, tuple) and v and v[0] == "lref":
                    if v[1] != loc:
                        self.copy_obj(v[1], loc, s)
                else:
                    if v is not None:
                        s.env[loc] = v
                    self.note(v, t)
                out.append(s)
        if "bind" in d:
            for s in out:
                for i, b in enumerate(d["bind"]):
                    bl = ("v", fr.id, b["d"], b["n"])
                    base = s.env.get(("alias",) + loc[1:3], loc)
                    s.env[("alias",) + bl[1:3]] = ("f", base, "bind%d" % i)
        return out

    def copy_obj(self, src, dst, st):
        v = self.load(src, st)
        st.env[dst] = v
        for l in list(st.env):
            if self.within(l, src):
                st.env[self.rebase(l, src, dst)] = st.env[l]

    def rebase(self, l, src, dst):
        if l == src:
            return dst
        return (l[0], self.rebase(l[1], src, dst)) + tuple(l[2:])

    def st_if(self, n, fr, st):
        starts = [st]
        for key in ("init", "cvar"):
            if n.get(key):
                starts = [s for x in starts
                          for o, v, s, nd in self.stmt(n[key], fr, x)]
        out = []
        for s0 in starts:
            for s, c in self.ev(n["cond"], fr, s0):
                for s2, b in self.branch(c, s):
                    br = n["then"] if b else n.get("else")
                    if br is None:
                        out.append(("normal", None, s2, None))
                    else:
                        out += self.stmt(br, fr, s2)
        self.check_budget(len(out))
        return out

    def st_return(self, n, fr, st):
        c = [x for x in n.get("c", []) if x]
        if not c:
            return [("return", None, st, n)]
        rt = fr.fn.ty(fr.fn["ret"])
        out = []
        if rt["k"] in ("ref", "rref"):
            for s, l in self.lv(c[0], fr, st):
                out.append(("return", ("lref", l), s, n))
        else:
            for s, v in self.ev(c[0], fr, st):
                if isinstance(v, tuple) and v and v[0] == "lref":
                    l = v[1]
                    if not any(self.within(x, l) for x in s.env):
                        v = self.load(l, s)
                elif rt["k"] == "rec" and self.is_lv(c[0], fr):
                    pass
                # object returned by value with member-wise state: hand out
                # its location so that members stay readable
                if rt["k"] == "rec" and not (isinstance(v, tuple) and v
                                             and v[0] == "lref"):
                    src = c[0]
                    while src["k"] == "construct" and (
                            src.get("copy") or src.get("move")) \
                            and src.get("c"):
                        src = src["c"][0]
                    if src["k"] == "ref" and self.is_lv(src, fr):
                        l = self.local(src, fr, s)
                        if any(self.within(x, l) for x in s.env):
                            v = ("lref", l)
                out.append(("return", v, s, n))
        return out

    def st_break(self, n, fr, st):
        return [("break", None, st, n)]

    def st_continue(self, n, fr, st):
        return [("continue", None, st, n)]

    def st_switch(self, n, fr, st):
        body = n["body"]
        items = body.get("c", []) if body["k"] == "block" else [body]
        # flatten nested case labels
        flat = []   # (labels, stmt)
        for it in items:
            labels = []
            x = it
            while x is not None and x["k"] in ("case", "default"):
                labels.append(x)
                x = x["c"][0]
            flat.append((labels, x))
        out = []
        for s0, v in self.ev(n["cond"], fr, st):
            rest = s0
            dflt = None
            alive = True
            for idx, (labels, _) in enumerate(flat):
                for lab in labels:
                    if lab["k"] == "default":
                        dflt = idx
                        continue
                    if not alive:
                        continue
                    cv = lab["v"].get("cv")
                    if cv is None:
                        cvals = [self.fresh("case")]
                    else:
                        cvals = [int(cv)]
                        if lab.get("v2") is not None:
                            cvals = list(range(int(cv),
                                               int(lab["v2"]["cv"]) + 1))
                    for c in cvals:
                        cond = self.c_eq(v, c)
                        taken = None
                        if isinstance(cond, bool):
                            if cond:
                                taken, rest_alive = rest, False
                            else:
                                continue
                        else:
                            d = self.decide(cond, rest)
                            if d is False:
                                continue
                            if d is True:
                                taken, rest_alive = rest, False
                            else:
                                taken = rest.copy()
                                taken.facts[cond] = True
                                rest.facts[cond] = False
                                rest_alive = True
                        out += self.run_from(flat, idx, fr, taken)
                        if not rest_alive:
                            alive = False
                            break
                    if not alive:
                        break
            if alive:
                if dflt is not None:
                    out += self.run_from(flat, dflt, fr, rest)
                else:
                    out.append(("normal", None, rest, None))
        return out

    def run_from(self, flat, idx, fr, st):
        res = self.seq([x for _, x in flat[idx:] if x is not None], fr, st)
        return [("normal", None, s, None) if o == "break" else (o, v, s, nd)
                for o, v, s, nd in res]

    def st_case(self, n, fr, st):
        return self.stmt(n["c"][0], fr, st)

    st_default = st_case

    # loops
    def st_for(self, n, fr, st):
        out = []
        starts = [st]
        if n.get("init"):
            starts = [s for o, v, s, nd in self.stmt(n["init"], fr, st)]
        for s in starts:
            out += self.loop(n, n.get("cond"), n.get("inc"), n["body"], fr, s)
        return out

    def st_while(self, n, fr, st):
        return self.loop(n, n["cond"], None, n["body"], fr, st,
                         cvar=n.get("cvar"))

    def st_do(self, n, fr, st):
        return self.loop(n, n["cond"], None, n["body"], fr, st, do=True)

    def st_forrange(self, n, fr, st):
        res = []
        for s, rng in self.ev(n["range"], fr, st):
            if isinstance(rng, tuple) and rng and rng[0] == "lref":
                rng = self.load(rng[1], s)
            vals = None
            if isinstance(rng, tuple) and rng[0] == "agg" and \
                    len(rng[1]) <= self.unroll:
                vals = rng[1]
            var = n["var"]
            loc = ("v", fr.id, var["d"], var["n"])
            t = fr.fn.ty(var["t"])
            if vals is not None:
                cur = [s]
                for v in vals:
                    nxt = []
                    for x in cur:
                        self.bind_loop_var(var, loc, v, x, fr)
                        for o, val, s2, nd in self.stmt(n["body"], fr, x):
                            if o in ("normal", "continue"):
                                nxt.append(s2)
                            elif o == "break":
                                res.append(("normal", None, s2, None))
                            else:
                                res.append((o, val, s2, nd))
                    cur = nxt
                res += [("normal", None, x, None) for x in cur]
                continue
            # widened
            self.widen(n["body"], n, fr, s)
            exit_ = s.copy()
            exit_.event("loopexit", n["i"], n, fr.fn)
            res.append(("normal", None, exit_, None))
            s.event("loop", n["i"], n, fr.fn, rng)
            v = ("each", rng, n["i"])
            pt = fr.fn.ty(t["p"]) if t["k"] in ("ref", "rref") else t
            self.note(v, pt)
            self.bind_loop_var(var, loc, v, s, fr)
            for o, val, s2, nd in self.stmt(n["body"], fr, s):
                if o == "break":
                    s2.event("loopexit", n["i"], n, fr.fn)
                    res.append(("normal", None, s2, None))
                elif o == "return":
                    res.append((o, val, s2, nd))
                else:
                    self.loop_end(n, fr, s2)
        return res

    def bind_loop_var(self, var, loc, v, s, fr):
        if var.get("ref"):
            l = ("deref", v) if not (isinstance(v, tuple)
                                     and v[0] == "ptr") else v[1]
            l = ("each", v)
            s.env[("alias",) + loc[1:3]] = l
            s.env[l] = v
        else:
            s.env[loc] = v
        if "bind" in var:
            for i, b in enumerate(var["bind"]):
                bl = ("v", fr.id, b["d"], b["n"])
                l = ("f", s.env.get(("alias",) + loc[1:3], loc), "bind%d" % i)
                s.env[("alias",) + bl[1:3]] = l

    def loop_end(self, n, fr, st):
        """Called with the state at the end of one abstract iteration."""
        pass

    def loop(self, n, cond, inc, body, fr, st, do=False, cvar=None):
        # 1. constant trip count: unroll
        out = []
        if not cvar:
            r = self.try_unroll(n, cond, inc, body, fr, st, do)
            if r is not None:
                return r
        # 2. widen
        self.widen(body, n, fr, st, extra=[cond, inc])
        st.event("loophead", n["i"], n, fr.fn)
        if do:
            entries = [(st, None)]
        else:
            entries = []
            starts = [st]
            if cvar:
                starts = [s for o, v, s, nd in self.stmt(cvar, fr, st)]
            for s0 in starts:
                if cond is None:
                    entries.append((s0, True))
                else:
                    for s, c in self.ev(cond, fr, s0):
                        for s2, b in self.branch(c, s):
                            entries.append((s2, b))
        for s, b in entries:
            if b is False:
                s.event("loopexit", n["i"], n, fr.fn)
                out.append(("normal", None, s, None))
                continue
            s.event("loop", n["i"], n, fr.fn, None)
            for o, v, s2, nd in self.stmt(body, fr, s):
                if o == "break":
                    s2.event("loopexit", n["i"], n, fr.fn)
                    out.append(("normal", None, s2, None))
                elif o == "return":
                    out.append((o, v, s2, nd))
                else:
                    ends = [s2]
                    if inc is not None:
                        ends = [x for x, _ in self.ev(inc, fr, s2)]
                    for e in ends:
                        self.loop_end(n, fr, e)
                        if do:
                            for e2, c in self.ev(cond, fr, e):
                                for e3, bb in self.branch(c, e2):
                                    if not bb:
                                        e3.event("loopexit", n["i"], n,
                                                 fr.fn)
                                        out.append(("normal", None, e3,
                                                    None))
        self.check_budget(len(out))
        return out

    def try_unroll(self, n, cond, inc, body, fr, st, do):
        if cond is None:
            return None
        saved_throws = list(self._throws)
        probe = st.copy()
        r = self.ev(cond, fr, probe)
        if len(r) != 1:
            self._throws = saved_throws
            return None
        c, p = self.truth(r[0][1])
        if not isinstance(c, bool):
            d = self.decide(c, r[0][0])
            # data dependent: do not unroll
            if not self.const_loop(cond, fr, st):
                self._throws = saved_throws
                return None
        out = []
        cur = [st]
        first = do
        for it in range(self.unroll + 1):
            nxt = []
            for s in cur:
                if first:
                    go = [(s, True)]
                else:
                    rs = self.ev(cond, fr, s)
                    go = []
                    for s1, cv in rs:
                        c, p = self.truth(cv)
                        if not isinstance(c, bool):
                            self._throws = saved_throws
                            return None
                        go.append((s1, c if p else not c))
                for s1, b in go:
                    if not b:
                        out.append(("normal", None, s1, None))
                        continue
                    for o, v, s2, nd in self.stmt(body, fr, s1):
                        if o == "break":
                            out.append(("normal", None, s2, None))
                        elif o == "return":
                            out.append((o, v, s2, nd))
                        elif inc is not None:
                            nxt += [x for x, _ in self.ev(inc, fr, s2)]
                        else:
                            nxt.append(s2)
            first = False
            cur = nxt
            if not cur:
                return out
            if len(cur) + len(out) > 256:
                break
        self._throws = saved_throws
        return None

    def const_loop(self, cond, fr, st):
        return False

    def captures(self, ln, lf, st):
        """what the captured names of a lambda expression denote"""
        caps = {}
        for c in ln.get("caps", ()):
            if "d" in c:
                if c["d"] in lf.caps:
                    caps[c["d"]] = lf.caps[c["d"]]
                else:
                    base = ("v", lf.id, c["d"], c["n"])
                    al = st.env.get(("alias",) + base[1:3])
                    caps[c["d"]] = al if al is not None else base
        return caps

    def lambda_targets(self, ln, lf, st, locs, seen=()):
        """locations the body of a lambda expression may assign"""
        key = (lf.fn.tu, ln["fid"])
        fn = self.prog.tu_fns.get(key)
        if fn is None or not fn.get("body") or key in seen or len(seen) > 4:
            return
        pf = Frame(fn, lf.this, lf, self.captures(ln, lf, st))
        inner = set()
        self.assigned([fn["body"]], pf, st, inner, seen + (key,))
        for l in inner:
            b = l
            while isinstance(b, tuple) and b and b[0] in ("f", "el", "elem"):
                b = b[1]
            if isinstance(b, tuple) and b[:2] == ("v", pf.id):
                continue            # its own local
            locs.add(l)

    def assigned(self, roots, fr, st, locs, seen=()):
        """locations the given statements may assign"""
        for r in roots:
            for x in walk(r):
                k = x.get("k")
                if k == "lambda":
                    self.lambda_targets(x, fr, st, locs, seen)
                elif k == "ref" and x.get("dk") in ("var", "parm"):
                    lv = st.env.get(self.local(x, fr, st))
                    if isinstance(lv, tuple) and lv and lv[0] == "lambda" \
                            and (lv[1], lv[2]) in self.lambdas:
                        self.lambda_targets(*self.lambdas[lv[1], lv[2]],
                                            st, locs, seen)
                elif k == "asg":
                    self.lv_targets(x["c"][0], fr, st, locs)
                elif k == "un" and ("++" in x["op"] or "--" in x["op"]):
                    self.lv_targets(x["c"][0], fr, st, locs)
                elif k in ("call", "mcall", "opcall", "construct", "icall",
                           "pmcall"):
                    pm = x.get("pm", "")
                    args = x.get("c", [])
                    if k == "mcall" or (k == "opcall" and x.get("meth")):
                        obj, args = args[0], args[1:]
                        if obj is not None and not x.get("cst") and \
                                last(x.get("fn", "")) not in self.PURE:
                            fs = self.mod_fields(x, fr.fn.tu)
                            if fs is None:
                                self.lv_targets(obj, fr, st, locs,
                                                call=x)
                            else:
                                objs = set()
                                if x.get("arrow") or obj["k"] == "this":
                                    try:
                                        for _, v in self.ev(obj, fr,
                                                            st.copy()):
                                            objs.add(self.deref(v))
                                    except (Budget, AnalysisError):
                                        self.lv_targets(obj, fr, st, locs,
                                                        call=x)
                                else:
                                    self.lv_targets(obj, fr, st, objs)
                                locs |= {("f", l, f) for l in objs
                                         if l is not None for f in fs}
                    for i, a in enumerate(args):
                        if a is None:
                            continue
                        mode = pm[i] if i < len(pm) else "v"
                        if mode in "rpm":
                            if mode == "p" and a["k"] == "un" and \
                                    a["op"] == "&":
                                self.lv_targets(a["c"][0], fr, st, locs)
                            elif mode == "p":
                                self.ptr_targets(a, fr, st, locs)
                            else:
                                self.lv_targets(a, fr, st, locs)

    def widen(self, body, n, fr, st, extra=()):
        """Replaces everything the loop may assign by unknowns.  Runs on a
        *copy-free* state: callers pass the state that enters the loop."""
        locs = set()
        self.assigned([x for x in [body] + list(extra) if x], fr, st, locs)
        for l in locs:
            if l is None:
                continue
            old = st.env.get(l)
            ty = self.types_of.get(old) if isinstance(old, tuple) else None
            t = self.loc_type(l, n, fr, body, extra)
            self.drop_fields(l, st)
            ph = ("phi", n["i"], fr.id, l)
            if t or ty:
                self.types_of.setdefault(ph, t or ty)
            if self.keep_entry:
                self.entry_of[ph] = old
                self.entries.append((ph, old, dict(st.facts)))
            st.env[l] = ph
        # drop facts about nothing: facts mention immutable terms, keep

    def mod_fields(self, call, tu, depth=0):
        """fields a method may assign in its own object; None if it may do
        more than assign fields directly"""
        fid = call.get("fid")
        fn = self.prog.tu_fns.get((tu, fid)) if fid else None
        if fn is None or not fn.get("body") or depth > 3:
            return None
        key = (tu, fid)
        cache = self.__dict__.setdefault("_modf", {})
        if key in cache:
            return cache[key]
        cache[key] = None
        out = set()

        def root(a):
            """field of this an lvalue is part of; "" if none, None if it
            is the object itself"""
            while True:
                k = a["k"]
                if k == "mem":
                    if a["c"][0]["k"] == "this":
                        return a["f"] if a.get("dk") == "field" else None
                    if a.get("arrow"):
                        return ""
                    a = a["c"][0]
                elif k in ("idx", "cast") or k == "opcall" and \
                        a["op"] == "[]":
                    a = a["c"][0]
                elif k == "un" and a["op"] == "*":
                    b = a["c"][0]
                    return None if b["k"] == "this" else ""
                elif k == "this":
                    return None
                elif k == "ref":
                    # references may be bound to fields
                    return "" if a.get("dk") in ("parm", "var") and \
                        not a.get("ref") else None
                else:
                    return None
        for x in walk(fn["body"]):
            k = x.get("k")
            tg = []
            if k in ("lambda", "icall", "pmcall"):
                return None
            if k == "asg" or k == "un" and ("++" in x["op"] or
                                            "--" in x["op"]):
                tg.append(x["c"][0])
            elif k in ("call", "mcall", "opcall", "construct"):
                pm, args = x.get("pm", ""), x.get("c", [])
                if k == "mcall" or k == "opcall" and x.get("meth"):
                    obj, args = args[0], args[1:]
                    if obj is not None and not x.get("cst") and \
                            last(x.get("fn", "")) not in self.PURE:
                        if obj["k"] == "this":
                            sub_ = self.mod_fields(x, tu, depth + 1)
                            if sub_ is None:
                                return None
                            out |= sub_
                        else:
                            tg.append(obj)
                for i, a in enumerate(args):
                    if a is not None and (pm[i] if i < len(pm) else "v") \
                            in "rpm":
                        if a["k"] == "un" and a["op"] == "&":
                            a = a["c"][0]
                        tg.append(a)
            elif k == "decl":
                for d in x.get("vars", x.get("c", [])):
                    t = d.get("t") if isinstance(d, dict) else None
                    if t is not None and isinstance(t, int) and \
                            fn.ty(t).get("k") in ("ref", "ptr"):
                        return None
            for a in tg:
                f = root(a)
                if f is None:
                    return None
                if f:
                    out.add(f)
        cache[key] = frozenset(out)
        return cache[key]

    keep_entry = True
    entry_of = {}
    entries = []

    def loc_type(self, l, n, fr, body, extra):
        for r in [body] + [x for x in extra if x]:
            for x in walk(r):
                if x.get("k") == "ref" and l[0] == "v" and x["d"] == l[2]:
                    return fr.fn.ty(x["t"])
                if x.get("k") == "mem" and l[0] == "f" and \
                        x.get("f") == l[2] and x.get("dk") == "field":
                    return fr.fn.ty(x["t"])
        return None

    def ptr_targets(self, a, fr, st, locs):
        try:
            for s, v in self.ev(a, fr, st.copy()):
                if isinstance(v, tuple) and v[0] == "ptr":
                    locs.add(v[1])
        except (Budget, AnalysisError):
            pass

    def lv_targets(self, a, fr, st, locs, call=None):
        """Base locations an lvalue expression may denote (no evaluation of
        loop-dependent indices: the whole array is widened)."""
        k = a["k"]
        if k == "ref":
            if a["dk"] in ("var", "parm", "slocal", "binding"):
                l = self.local(a, fr, st)
                t = fr.fn.ty(a["t"])
                locs.add(l)
            elif a["dk"] in ("global", "smember"):
                locs.add(("g", a["n"]))
        elif k == "mem":
            b = a["c"][0]
            if b["k"] == "this":
                locs.add(("f", fr.this or ("this",), a["f"]))
            elif a.get("arrow"):
                inner = set()
                try:
                    for s, v in self.ev(b, fr, st.copy()):
                        inner.add(("f", self.deref(v), a["f"]))
                except (Budget, AnalysisError):
                    pass
                locs |= inner
            else:
                inner = set()
                self.lv_targets(b, fr, st, inner)
                for l in inner:
                    locs.add(("f", l, a["f"]))
        elif k in ("idx",):
            b = a["c"][0]
            t = fr.fn.ty(b["t"])
            if t["k"] == "arr":
                self.lv_targets(b, fr, st, locs)
            else:
                self.ptr_targets(b, fr, st, locs)
        elif k == "un" and a["op"] == "*":
            self.ptr_targets(a["c"][0], fr, st, locs)
        elif k == "opcall" and a["op"] in ("[]", "*", "->") and \
                a.get("meth") and self.mod_fields(a, fr.fn.tu) == \
                frozenset() and self.will_inline(a, fr):
            # accessor of this repository: what it refers to
            try:
                for _, l in self.lv(a, fr, st.copy()):
                    b = l
                    while b[0] in ("el", "elem"):
                        b = b[1]
                    if b[0] != "deref":
                        locs.add(b)
            except (Budget, AnalysisError):
                self.lv_targets(a["c"][0], fr, st, locs)
        elif k == "opcall" and a["op"] == "[]":
            self.lv_targets(a["c"][0], fr, st, locs)
        elif k == "opcall" and a["op"] in ("<<", ">>", "+=", "="):
            self.lv_targets(a["c"][0], fr, st, locs)
        elif k == "this":
            l = fr.this or ("this",)
            for x in list(st.env):
                if self.within(x, l):
                    locs.add(x)
            locs.add(l)
        elif k == "cast":
            self.lv_targets(a["c"][0], fr, st, locs)
        elif k == "cond":
            self.lv_targets(a["c"][1], fr, st, locs)
            self.lv_targets(a["c"][2], fr, st, locs)

    def st_try(self, n, fr, st):
        saved = self._throws
        self._throws = []
        res = self.stmt(n["body"], fr, st.copy())
        throws, self._throws = self._throws, saved
        # explicit throws inside the body are handled by the first handler
        hs = n.get("handlers", [])
        for s, t in throws:
            if t[0] == "noreturn" or not hs:
                self._throws.append((s, t))
                continue
            s.event("catch", n["i"])
            res += self.stmt(hs[0]["body"], fr, s)
        # implicit exceptions of opaque calls: enter every handler from a
        # widened entry state
        for h in hs:
            s = st.copy()
            self.widen(n["body"], n, fr, s)
            s.event("catch?", n["i"])
            res += self.stmt(h["body"], fr, s)
        return res
