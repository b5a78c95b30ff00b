"""C17: medians and smoothing kernels compute what they are named for."""
from fractions import Fraction

from dp3a import facts, lits
from dp3a.absint import Interp, last
from dp3a.terms import show, is_num, subterms
from dp3a.nest import (NestScanner, Ev, It, PathV, SP, Unknown, DivZero,
                       replay)

TECHNIQUE = (
    "Abstract interpretation in the domain of order statistics: which ranks "
    "each position of a partially sorted range can hold is followed through "
    "the selection algorithms of every path, and a read is only valid at a "
    "position that holds one rank; the smoothing loops are extracted as "
    "symbolic sums over data, weights and kernel values and compared with "
    "the normalised weighted mean; the kernels are compared with their "
    "definition, case by case.")
MINIMUM = 60
PURE = ("KernelSmoother",)
MED = "dp3::common::Median"
SMO = "dp3::ddecal::KernelSmoother"
INSTANCES = ("c17_instances.cc", """#include <vector>
#include <complex>
#include "common/Median.h"
#include "ddecal/constraints/KernelSmoother.h"
template double dp3::common::Median<double>(std::vector<double>&);
template float dp3::common::Median<float>(std::vector<float>&);
template class dp3::ddecal::KernelSmoother<std::complex<double>, double>;
""")
SELECT = {"nth_element", "sort", "stable_sort", "partial_sort",
          "max_element", "min_element", "iter_swap", "reverse", "rotate",
          "shuffle", "partition", "stable_partition", "make_heap",
          "sort_heap", "push_heap", "pop_heap"}


class Orders(Interp):
    """values read from a range remember which selections came before"""

    def so_far(self, st):
        return st.env.get(("selections",), ())

    def on_call(self, n, frame, st, args, loc):
        name = last(n.get("fn", "?"))
        done = self.so_far(st)
        if name in SELECT:
            st.env[("selections",)] = done + ((name, tuple(args),
                                               frame.fn.where(n)),)
            return [(st, ("call", name, ("at", len(done))) + tuple(args))]
        if name in ("operator*", "front", "back") and len(args) == 1:
            return [(st, ("rd", done, name, args[0]))]
        if name in ("operator[]", "at") and len(args) == 2:
            return [(st, ("rd", done, "[]", args[0], args[1]))]
        return None


class Lost(Exception):
    pass


class RankEv(Ev):
    """reads become the rank of the value read"""

    def __init__(self, it, n, var):
        super().__init__(it, {}, {var: PathV("v")},
                         sizer=lambda w, x: n if w == "size" else None)
        self.n = n

    def ev_(self, t):
        if isinstance(t, tuple) and t and t[0] == "rd":
            if t[2] == "[]":
                p = self.ev(t[4])
            elif t[2] == "front":
                p = 0
            elif t[2] == "back":
                p = self.n - 1
            else:
                p = self.ev(t[3])
                if isinstance(p, tuple) and p[0] == "rank":
                    return PathV("rank", (p[1],))
                p = p.pos
            return self.rank(t[1], p)
        if isinstance(t, tuple) and t and t[0] == "call" and \
                t[1] in ("max_element", "min_element") and \
                isinstance(t[2], tuple) and t[2][0] == "at":
            a, b = self.ev(t[3]), self.ev(t[4])
            bl = self.blocks(self.before(t))
            if not self.closed(bl, a.pos, b.pos):
                raise Lost("the extreme value of a range that does not "
                           "hold a known set of ranks")
            return ("rank", b.pos - 1 if t[1] == "max_element" else a.pos)
        return super().ev_(t)

    def before(self, t):
        return self.current[:t[2][1]]

    @staticmethod
    def closed(bl, a, b):
        """[a,b) is a union of blocks"""
        return all(x >= b or y <= a or (x >= a and y <= b) for x, y in bl)

    def blocks(self, done):
        """partition of the positions: each block holds exactly the ranks
        of its own positions"""
        bl = [(0, self.n)]
        for name, args, where in done:
            if name in ("max_element", "min_element"):
                continue
            if name == "nth_element":
                a, m, b = (self.ev(x).pos for x in args[:3])
                cuts = [m, m + 1]
            elif name in ("sort", "stable_sort"):
                a, b = (self.ev(x).pos for x in args[:2])
                cuts = list(range(a, b))
            elif name == "partial_sort":
                a, m, b = (self.ev(x).pos for x in args[:3])
                cuts = list(range(a, m + 1))
            else:
                raise Unknown(name)
            if len(args) > (2 if "sort" in name and name != "partial_sort"
                            else 3):
                raise Unknown("own order")
            if not 0 <= a <= b <= self.n or (name == "nth_element" and
                                             not a <= m <= b):
                raise Lost("%s of a range beyond the data" % name)
            inner = [x for x in bl if x[0] < b and x[1] > a]
            if not self.closed(bl, a, b):
                # the blocks that stick out hold unknown ranks from now on
                lo = min(x[0] for x in inner)
                hi = max(x[1] for x in inner)
                cuts = []
            else:
                lo, hi = a, b
            bl = [x for x in bl if x not in inner]
            ed = sorted({lo, hi} | {c for c in cuts if lo < c < hi})
            bl += list(zip(ed, ed[1:]))
        return bl

    def rank(self, done, p):
        if not 0 <= p < self.n:
            raise Lost("element %s of %s is read" % (p, self.n))
        for a, b in self.blocks(done):
            if a <= p < b:
                if b - a == 1:
                    return PathV("rank", (p,))
                raise Lost("the value at position %s of %s can have any of "
                           "the ranks %s to %s" % (p, self.n, a, b - 1))
        raise Unknown(p)


def median(rep, prog):
    for fn in [f for q, fs in prog.by_qn.items() if q == MED for f in fs]:
        t = fn.ty(fn["params"][0]["t"])
        if "type-parameter" in fn["fid"] or not fn.get("body"):
            continue
        rep.fn(fn)
        v = fn["params"][0]["n"]
        it = Orders(prog)
        paths = it.run(fn)
        more = lits.around(lits.thresholds(prog, [fn]), 50000)
        for n in sorted(set(range(0, 12)) | set(more)):
            seen = 0
            for p in paths:
                if p.outcome != "return":
                    continue
                e = RankEv(it, n, v)
                e.current = p.state.env.get(("selections",), ())
                w = fn.where(p.node)
                site = "%s %s for %s values" % (fn["fid"][:40], w, n)
                try:
                    if not all(e.holds(f, x) for f, x in
                               p.state.facts.items()):
                        continue
                    seen += 1
                    got = e.ev(p.value)
                except Lost as l:
                    rep.bad("order", site, str(l))
                    continue
                except (Unknown, AttributeError, TypeError) as u:
                    rep.undecided("order", site, str(u)[:100])
                    seen += 1
                    continue
                if n == 0:
                    want = SP({})
                elif n % 2:
                    want = SP.of(PathV("rank", (n // 2,)))
                else:
                    want = (PathV("rank", (n // 2 - 1,)) +
                            PathV("rank", (n // 2,))) * Fraction(1, 2)
                rep.check(SP.of(got) == want, "median", site,
                          "the median of %s values is computed as %s"
                          % (n, got))
            if not seen:
                rep.undecided("median", "%s %s" % (fn["fid"][:40], n),
                              "no path")


# kernels ------------------------------------------------------------------

def exp(e, a):
    return PathV("exp", (Fraction(e.ev(a[0])),))


def absolute(e, a):
    return abs(Fraction(e.ev(a[0])))


def power(e, a):
    k = Fraction(e.ev(a[1]))
    if k.denominator != 1:
        raise Unknown("pow")
    return Fraction(e.ev(a[0])) ** int(k)


MODELS = {"exp": exp, "abs": absolute, "fabs": absolute, "pow": power}


def definition(kind, x, trunc):
    inside = -1 <= x <= 1
    if kind == "RectangularKernel":
        return 1 if inside else 0
    if kind == "TriangularKernel":
        return 1 - abs(x) if inside else 0
    if kind == "EpanechnikovKernel":
        return 1 - x * x if inside else 0
    if kind == "GaussianKernel":
        if trunc and not inside:
            return 0
        return ("exp", -9 * x * x)
    return None


GRID = [Fraction(k, 4) for k in (-12, -5, -4, -3, -1, 0, 1, 2, 3, 4, 5, 12)]


def kernels(rep, prog, fields):
    en = None
    for qn, d in prog.enums.items():
        if qn.startswith(SMO) and last(qn) == "KernelType":
            en = {v["n"]: int(v["v"]) for v in d["vals"]}
    if not en:
        rep.undecided("kernel", SMO, "no kernel types")
        return
    for fn in inst(prog, "Kernel"):
        rep.fn(fn)
        it = NestScanner(prog)
        paths = [p for p in it.run(fn) if p.outcome == "return"]
        arg = fn["params"][0]["n"]
        for kind, val in sorted(en.items()):
            for trunc in (0, 1):
                row = []
                for x in GRID:
                    for bw in (Fraction(2), Fraction(1, 2)):
                        roots = {arg: x * bw}
                        for f, role in fields.items():
                            roots["this." + f] = {
                                "type": val, "bandwidth": bw,
                                "truncate": trunc}.get(role, PathV(role))
                        got = set()
                        for p in paths:
                            e = Ev(it, {}, roots, models=MODELS)
                            try:
                                if all(e.holds(f, b) for f, b in
                                       p.state.facts.items()):
                                    got.add(e.ev(p.value))
                            except DivZero as u:
                                rep.bad("kernel", fn.where(p.node), "%s "
                                        "divides by zero at %s bandwidths "
                                        "from its centre" % (kind, x))
                            except (Unknown, TypeError) as u:
                                rep.undecided("kernel", fn.where(p.node),
                                              str(u)[:80])
                        row.append((x, got))
                scale(rep, fn, kind, trunc, row)


def scale(rep, fn, kind, trunc, row):
    """the values are the definition, up to one positive factor"""
    site = "%s %s%s" % (fn.where(), kind, " truncated" if trunc else "")
    if any(len(g) != 1 for _, g in row):
        rep.undecided("kernel", site, "values %s" % (
            [len(g) for _, g in row],))
        return
    factor = None
    bad = None
    for x, g in row:
        v = SP.of(next(iter(g)))
        d = definition(kind, x, trunc)
        if d is None:
            rep.undecided("kernel", site, "unknown kernel")
            return
        if isinstance(d, tuple):
            a = [SP.of(PathV("exp", (Fraction(d[1]),)))]
            if d[1] == 0:
                a.append(SP.of(1))
        else:
            a = [SP.of(d)]
        if d == 0:
            if v != SP({}):
                bad = bad or (x, v, 0)
            continue
        k = [c for c in (ratio(v, y) for y in a) if c is not None]
        if not k or k[0] <= 0 or factor is not None and k[0] != factor:
            bad = bad or (x, v, d)
            continue
        factor = k[0]
    rep.check(bad is None, "kernel", site, "%s at %s bandwidths from its "
              "centre is %s, not a fixed multiple of %s"
              % ((kind,) + (bad or (0, 0, 0))))


def ratio(v, d):
    if len(d.m) != 1 or len(v.m) != 1:
        return None
    (k, c), (l, f) = list(v.m.items())[0], list(d.m.items())[0]
    return Fraction(c) / Fraction(f) if k == l else None


def inst(prog, name):
    return [f for q, fs in sorted(prog.by_qn.items())
            if q.startswith(SMO + "<") and last(q) == name
            and "DataType" not in q for f in fs if f.get("body")]


# smoothing ------------------------------------------------------------------

def roles(rep, prog):
    """field -> role, from the constructor"""
    out = {}
    order = ("frequencies", "type", "bandwidth", "reference", "exponent",
             "truncate")
    for fn in inst(prog, "KernelSmoother"):
        if len(fn["params"]) != len(order):
            continue
        rep.fn(fn)
        names = {p["n"]: r for p, r in zip(fn["params"], order)}
        for p in NestScanner(prog).run(fn):
            for l, v in p.state.env.items():
                if not (isinstance(l, tuple) and l[0] == "f" and
                        l[1] == ("this",)):
                    continue
                if isinstance(v, tuple) and v[0] == "sym" and v[1] in names:
                    out[l[2]] = names[v[1]]
                elif isinstance(v, tuple) and v[0] == "call" and \
                        last(v[1]) == "vector":
                    out[l[2]] = "scratch" if "size" in show(v) else \
                        "frequencies"
                elif isinstance(v, tuple) and "frequencies" in show(v):
                    out[l[2]] = "frequencies"
    return out


class Open(Exception):
    pass


class Normal:
    """terms of the smoothing loops as polynomials over the roles of the
    members and parameters"""

    def __init__(self, it, fields, names):
        self.it, self.fields, self.names = it, fields, names
        self.phis = {}

    def member(self, t):
        """role of a member or parameter, through loops that keep it"""
        while isinstance(t, tuple) and t and t[0] in ("init", "deref",
                                                      "phi"):
            t = t[3] if t[0] == "phi" else t[1]
        if isinstance(t, tuple) and t[:1] == ("f",) and t[1] == ("this",):
            return self.fields.get(t[2])
        if isinstance(t, tuple) and t[:1] == ("sym",):
            return self.names.get(t[1])
        if isinstance(t, tuple) and t[:1] == ("v",):
            return self.names.get(t[3])
        return None

    def __call__(self, t):
        if isinstance(t, SP):
            return t
        if isinstance(t, (bool, int, Fraction)):
            return SP.of(int(t) if isinstance(t, bool) else t)
        if hasattr(t, "m"):
            s = SP({})
            for mono, c in t.m.items():
                p = SP.of(c)
                for a in mono:
                    p = p * self(a)
                s = s + p
            return s
        if t[0] == "init" and t[1][0] in ("el", "elem"):
            t = t[1]
        r = self.member(t)
        if r and not (t[0] == "phi" and t[3][0] == "v"):
            return SP.of(PathV(r))
        if t[0] == "phi":
            return SP.of(PathV("phi", (self.phi(t),)))
        if t[0] in ("el", "elem"):
            r = self.member(t[1])
            if not r:
                raise Open(show(t))
            return SP.of(PathV(r, (repr(self(t[2])),)))
        if t[0] == "op" and t[1] == "/":
            return self(t[2]) * self.inv(self(t[3]))
        if t[0] in ("fcast", "trunc", "wrap"):
            return self(t[-1])
        if t[0] == "complex" or t[0] == "call" and last(t[1]) == "complex":
            a = [self(x) for x in t[1 if t[0] == "complex" else 2:]]
            if all(x == SP({}) for x in a[1:]):
                return a[0] if a else SP({})
            raise Open(show(t))
        if t[0] == "call":
            n = last(t[1])
            if n == "pow":
                a, b = cancel(self(t[2])), cancel(self(t[3]))
                if a == SP.of(1):
                    return a
                return SP.of(PathV("pow", (repr(a), repr(b))))
            if n == "Kernel":
                x = t[-1]
                if isinstance(x, tuple) and x[0] == "call" and \
                        last(x[1]) in ("abs", "fabs"):
                    x = x[2]
                x = self(x)
                # every kernel is even
                lead = min(x.m.items(), key=repr, default=(None, 1))
                if lead[1] < 0:
                    x = -x
                return SP.of(PathV("K", (repr(x),)))
            if n == "size" and self.member(t[2]):
                return SP.of(PathV("n"))
        raise Open(show(t))

    def phi(self, t):
        # the memory of one loop variable, whatever its name
        return self.phis.setdefault(t[1:], len(self.phis))

    @staticmethod
    def inv(x):
        if len(x.m) != 1:
            return SP.of(PathV("inv", (repr(x),)))
        (mono, c), = x.m.items()
        r = SP.of(Fraction(1) / Fraction(c))
        for a in mono:
            r = r * (SP.of(PathV(*a.path)) if a.root == "recip"
                     else SP.of(PathV("recip", (a.root, a.path))))
        return r


def cancel(x):
    """a * 1/a = 1"""
    out = SP({})
    for mono, c in x.m.items():
        m = list(mono)
        for a in mono:
            r = PathV("recip", (a.root, a.path))
            if a in m and r in m:
                m.remove(a)
                m.remove(r)
        p = SP.of(c)
        for a in m:
            p = p * a
        out = out + p
    return out


def smooth(rep, prog, fields):
    for fn in inst(prog, "Smooth"):
        rep.fn(fn)
        P = [p["n"] for p in fn["params"]]
        it = NestScanner(prog, ("copy", "copy_n", "swap"),
                         ("Kernel", "quiet_NaN"))
        it.run(fn)
        N = Normal(it, fields, dict(zip(P, ("data", "weight", "factor"))))
        done = set()
        copies = [s for s in it.sites if s["kind"] == "call"]
        direct = False
        for s in it.sites:
            if s["kind"] != "store" or s["what"][0] != "el":
                continue
            r = N.member(s["what"][1])
            if r == "data":
                direct = True
            if r not in ("scratch", "data"):
                continue
            site = "%s %s" % (fn["fid"][:30], fn.where(s["node"]))
            key = (str(s["val"]), str(sorted(map(str, s["facts"].items()))))
            if key in done:
                continue
            done.add(key)
            try:
                mean(rep, it, N, s, site, r)
            except Open as o:
                rep.undecided("smooth", site, str(o)[:120])
        written(rep, it, N, fn)
        inner = {lid for s in it.sites if s["kind"] == "store" and
                 s["what"][0] == "el" and
                 N.member(s["what"][1]) == "scratch" and
                 not reads(s["val"], N, "scratch")
                 for lid in s["loops"]}
        for s in it.sites:
            if s["kind"] == "store" and s["what"][0] == "el" and \
                    N.member(s["what"][1]) == "data" and \
                    inner & set(s["loops"]):
                rep.bad("overwrite", "%s %s" % (fn["fid"][:30], fn.where(
                    s["node"])), "data are changed while other channels "
                    "still need them")
        for c in copies:
            v = [x for x in c["val"]]
            try:
                ok = N.member(v[0][2]) == "scratch" and \
                    last(v[0][1]) in ("begin", "data") and \
                    N.member(v[2]) == "data"
                size = v[1]
                ok = ok and (last(size[1]) == "end" and
                             N.member(size[2]) == "scratch"
                             if c["what"] == "copy" else
                             N(size) == SP.of(PathV("n")))
                rep.check(ok and not c["loops"], "result", "%s %s" % (
                    fn["fid"][:30], fn.where(c["node"])),
                    "the smoothed values are not copied to the data as a "
                    "whole")
            except (Open, TypeError, IndexError):
                rep.undecided("result", fn.where(c["node"]), "copy")
        if not copies and not direct:
            if passes(fn, P[0]):
                rep.undecided("result", fn.where(), "no copy to the data")
            else:
                rep.bad("result", fn.where(), "the smoothed values are not "
                        "stored in the data")


def written(rep, it, N, fn):
    """a channel gets a value whether its weights sum to zero or not"""
    cases = {}
    for s in it.sites:
        if s["kind"] != "store" or s["what"][0] != "el" or \
                N.member(s["what"][1]) not in ("scratch", "data") or \
                not s["loops"]:
            continue
        iph = s["what"][2]
        if not (isinstance(iph, tuple) and iph[0] == "phi"):
            return
        try:
            I = N(iph)
            z = [(f, x) for f, x in s["facts"].items()
                 if isinstance(f, tuple) and f[0] == "eq0" and
                 isinstance(f[1], tuple) and f[1][0] == "phi" and
                 weight_sum(it, N, f[1], iph, I, s["facts"],
                            None) is not None]
        except Open:
            return
        k = N.member(s["what"][1])
        cases.setdefault(k, set()).add(z[0][1] if z else None)
    for k, vals in cases.items():
        rep.check(vals != {False}, "written", "%s %s" % (
            fn["fid"][:30], fn.where()), "channels whose weights sum to "
            "zero keep what %s held before" % k)


def nodes(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from nodes(v)
    elif isinstance(n, list):
        for v in n:
            yield from nodes(v)


def passes(fn, name):
    """the parameter is used otherwise than as data[index]"""
    ids = [p.get("d") for p in fn["params"] if p["n"] == name]
    n_all = n_el = 0
    for x in nodes(fn.get("body") or fn):
        if x.get("k") == "ref" and (x.get("n") == name or
                                    x.get("d") in ids):
            n_all += 1
        if x.get("k") in ("idx", "subscript", "index"):
            b = x.get("b") or x.get("base") or (x.get("c") or [None])[0]
            if any(y.get("k") == "ref" and y.get("n") == name
                   for y in nodes(b)):
                n_el += 1
    return n_all != n_el


def bounded(facts, ph, k, what=None):
    """the facts imply ph + k >= 0 (k < 0); or ph != what"""
    from dp3a.terms import add, sub
    for f, v in facts.items():
        if not isinstance(f, tuple):
            continue
        if f[0] == "eq0" and not v and k == -1 and f[1] == ph:
            return True
        if f[0] == "lt0":
            d = add(f[1], ph)       # c - ph < 0  =>  ph > c
            if v and is_num(d) and d + 1 >= -k:
                return True
            d = sub(f[1], ph)       # not ph + c < 0
            if not v and is_num(d) and -d >= -k:
                return True
    return False


def roots_of(it, ph, seen=()):
    """values that the loop variables behind ph start from"""
    out = []
    for p, old, fs in it.entries:
        if p == ph:
            if isinstance(old, tuple) and old and old[0] == "phi":
                if old not in seen:
                    out += roots_of(it, old, seen + (ph, old))
            elif (old, fs) not in out:
                out.append((old, fs))
    return out


def reads(t, N, role):
    from dp3a.terms import contains
    return contains(t, lambda x: isinstance(x, tuple) and len(x) == 3 and
                    x[0] in ("el", "elem") and N.member(x[1]) == role)


def mean(rep, it, N, s, site, target):
    """one stored value"""
    fn, v, facts = s["fn"], s["val"], s["facts"]
    if isinstance(v, tuple) and v[0] == "elem" or \
            isinstance(v, tuple) and v[0] == "call" and \
            last(v[1]) == "complex" and reads(v, N, "scratch"):
        return
    iph = s["what"][2]
    if not (isinstance(iph, tuple) and iph[0] == "phi"):
        raise Open("index " + show(iph))
    I = N(iph)
    # every channel is visited
    full = counts(it, N, iph, facts, lambda f: True)
    rep.check(full, "all", site + " channels", "not every channel from the "
              "first to the last is smoothed: %s" % show(iph))
    nan = isinstance(v, tuple) and v[0] == "call" and \
        last(v[1]) in ("quiet_NaN", "complex") and "quiet_NaN" in show(v)
    if nan:
        zero = [f for f, x in facts.items() if x and f[0] == "eq0" and
                isinstance(f[1], tuple) and f[1][0] == "phi"]
        dens = [z for f, z in ((f, f[1]) for f in zero)
                if weight_sum(it, N, z, iph, I, facts, None) is not None]
        rep.check(bool(dens), "nan", site, "NaN is stored although the "
                  "weights do not sum to zero")
        return
    a, b = v, 1
    if isinstance(v, tuple) and v[0] == "op" and v[1] == "/":
        a, b = v[2], v[3]
    elif hasattr(v, "m") and len(v.m) == 1:
        (mono, c), = v.m.items()
        q = [x for x in mono if x[0] == "op" and x[1] == "/" and x[2] == 1]
        if c == 1 and len(q) == 1 and len(mono) == 2:
            b = q[0][3]
            a = [x for x in mono if x is not q[0]][0]
    for x in (a, b):
        if not (isinstance(x, tuple) and x[0] == "phi"):
            raise Open("value " + show(v)[:80])
    rep.check(facts.get(("eq0", b)) is False, "divisor", site,
              "the sum is divided without knowing that the sum of the "
              "weights is not zero")
    w = weight_sum(it, N, b, iph, I, facts, rep, site)
    d = weight_sum(it, N, a, iph, I, facts, rep, site, w)
    if w is None or d is None:
        raise Open("sums")
    rep.check(target != "data", "overwrite", site, "the data of a channel "
              "is replaced while other channels still need it")


def states(it, ph, facts):
    """states at the end of an iteration of the loop of ph, on the way to
    these facts"""
    for (i, f), sts in it.back.items():
        if (i, f) != (ph[1], ph[2]):
            continue
        for st in sts:
            if all(st.facts.get(x, y) == y for x, y in facts.items()
                   if not mentions(x, ph[1])):
                yield st


def mentions(t, lid):
    from dp3a.terms import contains
    return contains(t, lambda x: isinstance(x, tuple) and
                    x[:2] == ("phi", lid))


def starts(it, ph, facts):
    out = []
    for p, old, fs in it.entries:
        if p == ph and all(facts.get(x, y) == y for x, y in fs.items()):
            if old not in out:
                out.append(old)
    return out


def counts(it, N, ph, facts, want):
    """ph runs over all channels, in steps of one"""
    if starts(it, ph, facts) != [0]:
        return False
    for st in states(it, ph, facts):
        if cancel(N(st.env.get(ph[3], ph)) - N(ph)) != SP.of(1):
            return False
    n = SP.of(PathV("n"))
    for f in list(facts):
        if not (isinstance(f, tuple) and f[0] in ("eq0", "lt0")):
            continue
        try:
            x = N(f[1])
        except (Open, TypeError, AttributeError):
            continue
        if x == N(ph) - n or x == n - N(ph):
            return True
    return False


def weight_sum(it, N, ph, iph, I, facts, rep, site="", weights=None):
    """terms added per channel by the accumulation in ph; judged if rep"""
    first = starts(it, ph, facts)
    try:
        zero = len(first) == 1 and N(first[0]) == SP({})
    except (Open, TypeError, AttributeError):
        zero = None
    found, skipped = set(), []
    for st in states(it, ph, facts):
        if st.env.get(ph[3], ph) == ph:
            skipped.append(st)
            continue
        try:
            found.add((cancel(N(st.env[ph[3]]) - N(ph)), lbw(N, st.facts,
                                                             I)))
        except (TypeError, AttributeError) as e:
            raise Open(str(e))
        sts = st
    if len(found) != 1:
        if rep is None:
            return None
        raise Open("%s updates of %s" % (len(found), show(ph)))
    (delta, size), = found
    if rep is None:
        return delta
    rep.check(zero, "sums", site + " " + show(ph[3]), "the sum does not "
              "start at zero for every channel")
    # index the data is read at: the loop variable that steps by one
    js = [p for p, _, _ in it.entries if p[1] == ph[1] and p[2] == ph[2] and
          p[3][0] == "v" and N.phi(p) in used(delta)]
    js = [p for p in dict.fromkeys(js)]
    if len(js) != 1:
        raise Open("channel index")
    J = N(js[0])
    step = cancel(N(sts.env.get(js[0][3], js[0])) - J)
    f = lambda x: SP.of(PathV("frequencies", (repr(x),)))
    base = SP.of(PathV("bandwidth"))
    scale_ = cancel(size * N.inv(base))
    corr = SP.of(1) if scale_ == SP.of(1) else SP.of(PathV(
        "pow", (repr(scale_), repr(SP.of(PathV("exponent"))))))
    x = (f(I) - f(J)) * corr * PathV("factor")
    lead = min(x.m.items(), key=repr)
    if lead[1] < 0:
        x = -x
    want = SP.of(PathV("K", (repr(x),))) * PathV("weight", (repr(J),))
    for st in skipped:
        left_out(rep, N, st, site, (want, SP.of(PathV("K", (repr(x),))),
                                    SP.of(PathV("weight", (repr(J),)))))
    if weights is not None:
        want = weights * PathV("data", (repr(J),))
    rep.check(step == SP.of(1), "step", site + " " + show(ph[3]),
              "the channels are not added one by one")
    rep.check(delta == want, "mean", site + " " + show(ph[3]),
              "each channel adds %s instead of %s"
              % (str(delta)[:150], str(want)[:150]))
    trunc = facts.get(("eq0", ("init", ("f", ("this",),
                                        field(N, "truncate")))))
    if trunc is not False:
        rep.check(counts(it, N, js[0], facts, None), "all", site +
                  " untruncated", "without truncation, not every channel "
                  "is part of the mean")
    else:
        window(rep, it, N, js[0], I, size, facts, site)
    return want


def left_out(rep, N, st, site, zeros):
    """a channel is not added: its kernel value or weight has to be zero"""
    own = []
    for f, v in st.facts.items():
        if not isinstance(f, tuple) or f[0] not in ("eq0", "lt0"):
            continue
        try:
            x = N(f[1])
        except (Open, TypeError, AttributeError):
            continue
        u = {a.root for mono in x.m for a in mono
             if isinstance(a, PathV)} & {"K", "weight", "data"}
        if not u:
            continue
        if f[0] == "eq0" and v and any(x == z or x == -z for z in zeros):
            return
        own.append((f, v))
    if own:
        rep.bad("mean", site + " left out", "a channel whose weight is not "
                "zero can be left out of the mean")
    else:
        rep.undecided("mean", site, "a channel is left out")


def half(N, x, at, I, size, sign):
    """c of the condition f[at] - f[I] + sign*c*size"""
    f = lambda k: SP.of(PathV("frequencies", (repr(k),)))
    try:
        rest = cancel(N(x) - f(at) + f(I))
    except (Open, TypeError, AttributeError):
        return None
    if len(rest.m) != 1 or len(size.m) != 1:
        return None
    (m1, c), (m2, d) = list(rest.m.items())[0], list(size.m.items())[0]
    return sign * Fraction(c) / Fraction(d) if m1 == m2 else None


def offset(t):
    """(loop variable, constant) of a term"""
    if isinstance(t, tuple) and t[0] == "phi":
        return t, 0
    if hasattr(t, "m"):
        at = [k for k in t.m if k != ()]
        if len(at) == 1 and len(at[0]) == 1 and t.m[at[0]] == 1 and \
                at[0][0][0] == "phi":
            return at[0][0], t.m.get((), 0)
    raise Open("boundary " + show(t))


def at_end(N, fs, ph):
    """truth of ph == n in the facts"""
    n = SP.of(PathV("n"))
    for f, v in fs.items():
        if f[0] in ("eq0", "lt0"):
            try:
                d = N(f[1])
            except (Open, TypeError, AttributeError):
                continue
            if f[0] == "eq0" and d in (N(ph) - n, n - N(ph)):
                return v
            if f[0] == "lt0" and d == N(ph) - n:
                return not v
    return None


def reads_right(rep, it, N, I, size, facts, site):
    """the upper boundary is compared, and starts, inside the data"""
    n = SP.of(PathV("n"))
    for fs in [facts] + [st.facts for sts in it.back.values()
                         for st in sts]:
        for f in fs:
            if f[0] != "lt0":
                continue
            for ph in {x for x in subterms(f) if isinstance(x, tuple) and
                       x and x[0] == "phi" and x[3][0] == "v"}:
                c = half(N, f[1], N(ph), I, size, -1)
                if c is None or c <= 0:
                    continue
                rep.check(at_end(N, fs, ph) is False, "window", site +
                          " read", "the frequency past the last channel is "
                          "read")
                for r, on in roots_of(it, ph):
                    for g, v in on.items():
                        if g[0] != "lt0" or is_num(r):
                            continue
                        try:
                            d, x = N(g[1]), N(r)
                        except (Open, TypeError, AttributeError):
                            d = x = None
                        if x is None:
                            past = v and diff(N, g[1], r, -1) or \
                                not v and diff(N, g[1], r, 1)
                        else:
                            past = v and d == n - x or not v and d == x - n
                        rep.check(not past, "window", site + " rightmost",
                                  "the last channel can start past the end "
                                  "of the data")


def diff(N, d, x, sign):
    """d is sign * (x - n)"""
    from dp3a.terms import add, sub
    rest = sub(d, x) if sign > 0 else add(d, x)
    try:
        return N(rest) == SP.of(PathV("n")) * -sign
    except (Open, TypeError, AttributeError):
        return False


def window(rep, it, N, jph, I, size, facts, site):
    """channels nearer than half the bandwidth are part of the mean"""
    half_ = Fraction(1, 2)
    for s in starts(it, jph, facts):
        if s == 0:
            rep.ok("window", site + " first")
            continue
        ph, k = offset(s)
        if k > 0:
            rep.bad("window", site + " first", "the first channel near "
                    "enough is left out")
            continue
        ok = True
        for st in states(it, ph, {}):
            if st.env.get(ph[3], ph) == ph:
                continue
            if cancel(N(st.env[ph[3]]) - N(ph)) != SP.of(1):
                raise Open("step of the first channel")
            cs = [half(N, f[1], N(ph), I, lbw(N, st.facts, I), 1)
                  for f, v in st.facts.items() if v and f[0] == "lt0"]
            ok = ok and any(c is not None and c >= half_ for c in cs)
        rep.check(ok, "window", site + " first", "the first channel moves "
                  "past channels nearer than half the bandwidth")
        for r, _ in roots_of(it, ph):
            rep.check(not is_num(r) or r <= 0, "window", site + " leftmost",
                      "the first channel starts at %s" % (r,))
        if k < 0:
            rep.check(bounded(facts, ph, k), "window", site + " before 0",
                      "the first channel can be before the start of the "
                      "data")
    reads_right(rep, it, N, I, size, facts, site)
    ends = []
    for f, v in facts.items():
        if not (isinstance(f, tuple) and v and f[0] in ("eq0",)) or \
                not mentions(f, jph[1]):
            continue
        from dp3a.terms import add, sub, mul
        for e in (add(f[1], jph), sub(jph, f[1])):
            if not mentions(e, jph[1]):
                ends.append(e)
    if len(ends) != 1:
        raise Open("end")
    if isinstance(ends[0], tuple) and ends[0][0] != "phi" and \
            N(ends[0]) == SP.of(PathV("n")):
        rep.ok("window", site + " last")
        return
    ph, k = offset(ends[0])
    if k < 0:
        rep.bad("window", site + " last", "the last channel near enough is "
                "left out")
        return
    ok = False
    n = SP.of(PathV("n"))
    if k > 0:
        rep.check(k == 1 and at_end(N, facts, ph) is False, "window", site +
                  " past n", "the last channel can be past the end of the "
                  "data")
    for f, v in facts.items():
        if f[0] == "eq0" and v:
            try:
                d = N(f[1])
            except (Open, TypeError, AttributeError):
                continue
            ok = ok or d in (N(ph) - n, n - N(ph))
        if f[0] == "lt0" and not v:
            c = half(N, f[1], N(ph), I, size, -1)
            ok = ok or c is not None and c >= half_
    rep.check(ok, "window", site + " last", "the last channel can be before "
              "channels nearer than half the bandwidth")


def field(N, role):
    return [f for f, r in N.fields.items() if r == role][0]


def used(x):
    out = set()
    import re
    for mono in x.m:
        for a in mono:
            out |= {int(k) for k in re.findall(r"phi.{1,3}?(\d+)", repr(a))}
    return out


def lbw(N, facts, I):
    ref = ("eq0", ("init", ("f", ("this",), field(N, "reference"))))
    b = SP.of(PathV("bandwidth"))
    if ref not in facts:
        raise Open("reference frequency")
    if facts[ref]:
        return b
    return b * PathV("frequencies", (repr(I),)) * N.inv(
        SP.of(PathV("reference")))


def check(rep, tier):
    prog = facts.extract([], extra=[INSTANCES])
    median(rep, prog)
    fields = roles(rep, prog)
    if set(fields.values()) < {"frequencies", "type", "bandwidth",
                               "truncate"}:
        rep.undecided("fields", SMO, str(fields))
        return
    kernels(rep, prog, fields)
    smooth(rep, prog, fields)
