"""C11: baseline numbering is a bijection with its documented order."""
import math
from fractions import Fraction

from dp3a import facts, lits
from dp3a.absint import last
from dp3a.nest import NestScanner, Ev, It, PathV, Unknown, DivZero, \
    replay

TECHNIQUE = (
    "Abstract interpretation of the index functions: the terms they return "
    "on each path are extracted from the source (with integer widths and "
    "float precision), and are compared with the documented enumeration at "
    "every baseline of small arrays and at all group boundaries of large "
    "ones.")
MINIMUM = 6
PURE = True
NS = "dp3::common::"
SMALL = range(1, 14)
LARGE = (100, 1000, 4096, 23171, 46341, 65535)


class Exact(NestScanner):
    """keeps the narrowing of integers and the rounding to float"""

    def conv(self, v, t, st):
        r = super().conv(v, t, st)
        if isinstance(r, (int, Fraction)):
            return r
        if t["k"] == "int" and t.get("w", 64) < 64:
            return ("conv", t["w"], not t.get("u"), r)
        return r

    def fcast(self, v, t):
        return ("fcast32", v)

    def ev_cast(self, n, frame, st):
        res = super().ev_cast(n, frame, st)
        t = frame.fn.ty(n["t"])
        if n["ck"] == "IntegralToFloating" and t.get("w", 64) < 64:
            res = [(s, v if isinstance(v, (int, Fraction))
                    else ("fcast32", v)) for s, v in res]
        if n["ck"] == "FloatingToIntegral" and t.get("w", 64) < 64:
            res = [(s, v if isinstance(v, (int, Fraction))
                    else ("conv", t["w"], not t.get("u"), v))
                   for s, v in res]
        return res

    def ev_bin(self, n, frame, st):
        t = frame.fn.ty(n["t"])
        res = super().ev_bin(n, frame, st)
        if t["k"] == "float" and t.get("w", 64) < 64:
            res = [(s, v if isinstance(v, (int, Fraction))
                    else ("fcast32", v)) for s, v in res]
        if t["k"] == "int" and t.get("w", 64) < 64 and n["op"] == "*":
            res = [(s, v if isinstance(v, (int, Fraction))
                    else ("conv", t["w"], not t.get("u"), v))
                   for s, v in res]
        return res


def f32(x):
    import struct
    return Fraction(struct.unpack("f", struct.pack("f", float(x)))[0])


class IdxEv(Ev):
    def ev_(self, t):
        if isinstance(t, tuple) and t and t not in self.env:
            if t[0] == "conv":
                v = self.ev(t[3])
                if not isinstance(v, int):
                    raise Unknown(t)
                v %= 1 << t[1]
                if t[2] and v >> (t[1] - 1):
                    v -= 1 << t[1]
                return v
            if t[0] == "fcast32":
                return f32(self.ev(t[1]))
            if t[0] == "op" and t[1] == "toint":
                return int(self.ev(t[2]))
            if t[0] == "op" and t[1] == "/" and len(t) == 4:
                a, b = self.ev(t[2]), self.ev(t[3])
                if isinstance(a, int) and b == 0:
                    raise DivZero(t)
                if isinstance(a, int) and isinstance(b, int) and b > 0:
                    # unsigned
                    return (a % 2**64) // b if a < 0 else a // b
        return super().ev_(t)

    def call(self, t):
        n = last(t[1])
        a = [x for x in t[2:] if not (isinstance(x, tuple) and x and
                                      x[0] == "#")]
        if n in ("sqrt", "sqrtf", "sqrtl") and len(a) == 1:
            x = self.ev(a[0])
            if x < 0:
                x = x % 2**64
            x = float(x)
            return f32(math.sqrt(x)) if n == "sqrtf" else \
                Fraction(math.sqrt(x))
        if n in ("floor", "ceil", "round", "lround", "trunc") and \
                len(a) == 1:
            x = Fraction(self.ev(a[0]))
            return {"floor": math.floor, "ceil": math.ceil,
                    "trunc": int}.get(n, lambda v: math.floor(
                        v + Fraction(1, 2)))(x)
        return super().call(t)


def paths(prog, name, nparams):
    for fn in prog.by_qn.get(NS + name, []):
        if len(fn["params"]) == nparams:
            it = Exact(prog, ["push_back", "emplace_back"])
            return fn, it, it.run(fn)
    return None, None, None


def evaluate(it, ps, roots):
    """(value, path) of the path taken for these arguments"""
    got = []
    for p in ps:
        e = IdxEv(it, {}, roots)
        ok = True
        for f, v in p.facts.items():
            if not e.holds(f, v):
                ok = False
                break
        if not ok:
            continue
        got.append((p, e))
    if len(got) != 1:
        raise Unknown("%d paths" % len(got))
    return got[0]


def pair(e, v):
    if isinstance(v, tuple) and v and v[0] == "call":
        a = [e.ev(x) for x in v[2:] if not (isinstance(x, tuple) and x and
                                            x[0] == "#")]
        return tuple(a)
    if isinstance(v, tuple) and v and v[0] == "agg":
        return tuple(e.ev(x) for x in v[1])
    raise Unknown(v)


def index(n, a, b, row):
    a, b = min(a, b), max(a, b)
    return a * n - a * (a - 1) // 2 + b - a if row else b * (b + 1) // 2 + a


def samples(n):
    """antenna pairs at the boundaries of the groups"""
    xs = sorted({0, 1, 2, n // 3, n // 2, n - 3, n - 2, n - 1} |
                set(range(0, n, max(1, n // 40))))
    for x in xs:
        if 0 <= x < n:
            for y in (0, x - 1, x, x + 1, n - 1):
                if 0 <= y < n:
                    yield x, y


def domain(ts=()):
    """(number of antennas, pairs); ts: constants the code compares with"""
    for n in SMALL:
        yield n, [(a, b) for a in range(n) for b in range(n)]
    for n in LARGE:
        yield n, list(samples(n))
    for n in lits.around(ts, 65535):
        if n in SMALL or n < 1:
            continue
        yield n, list(samples(n))
    for v in ts:
        if v <= 65000:
            # antennas around the constant, in a larger array
            yield v + 7, [p for a in range(max(0, v - 2), v + 3)
                          for b in (0, v - 1, v, v + 1, v + 6)
                          for p in ((a, b), (b, a))]
        # baselines around the constant
        n = math.isqrt(2 * v) + 3
        if n <= 65535:
            for o in (True, False):
                near = range(max(0, v - 2), min(v + 3, n * (n + 1) // 2))
                yield n, [unindex(n, i, o) for i in near]


def unindex(n, i, row):
    """the antennas of a baseline, by bisection"""
    lo, hi = 0, n - 1
    while lo < hi:
        m = (lo + hi + 1) // 2
        if index(n, m, m, True) <= i if row else index(n, 0, m, False) <= i:
            lo = m
        else:
            hi = m - 1
    return (lo, lo + i - index(n, lo, lo, True)) if row else \
        (i - index(n, 0, lo, False), lo)


def sweep(rep, rule, fn, n, row, gen, what):
    """compares generated (arguments, got, want); reports one per sweep"""
    site = "%s n=%d %s" % (fn["qn"], n, "row" if row else "column")
    bad, k = None, 0
    try:
        for args, got, want in gen:
            k += 1
            if got != want and bad is None:
                bad = (args, got, want)
    except DivZero:
        rep.bad(rule, site, "a number is divided by zero")
        return
    except (Unknown, IndexError, TypeError, ZeroDivisionError,
            AttributeError) as u:
        rep.undecided(rule, fn.where(fn), str(u)[:100])
        return
    rep.check(bad is None, rule, site, "with %d antennas in %s-major order, "
              "%s" % (n, "row" if row else "column", what % bad)
              if bad else "")


def check(rep, tier):
    prog = facts.extract(["common/baseline_indices.h"])
    vals = {}
    for qn, e in prog.enums.items():
        if last(qn) == "BaselineOrder":
            for c in e["vals"]:
                vals[last(c["n"])] = int(c["v"])
    row, col = vals.get("kRowMajor"), vals.get("kColumnMajor")
    if row is None or col is None or row == col:
        rep.undecided("order", "BaselineOrder", "enumerators")
        return

    def consts(fn):
        ts = lits.thresholds(prog, [fn])
        rep.count("constants", len(ts))
        return ts

    fn, it, ps = paths(prog, "ComputeNBaselines", 1)
    if fn:
        rep.fn(fn)
        ts = consts(fn)

        def gen():
            for n in list(range(0, 50)) + list(LARGE) + lits.around(
                    ts, 65535):
                p, e = evaluate(it, ps, {fn["params"][0]["n"]: n})
                yield n, e.ev(p.value), n * (n + 1) // 2
        sweep(rep, "count", fn, 0, False, gen(),
              "%s antennas are given %s instead of %s baselines")

    fn, it, ps = paths(prog, "ComputeBaselineIndex", 4)
    if fn:
        rep.fn(fn)
        P = [p["n"] for p in fn["params"]]
        ts = consts(fn)
        for o in (row, col):
            for n, pairs in domain(ts):
                def gen():
                    for a, b in pairs:
                        p, e = evaluate(it, ps, dict(zip(P, (a, b, n, o))))
                        yield (a, b), e.ev(p.value), index(n, a, b,
                                                           o == row)
                sweep(rep, "index", fn, n, o == row, gen(),
                      "baseline %s gets index %s instead of %s")

    fn, it, ps = paths(prog, "ComputeBaseline", 3)
    if fn:
        rep.fn(fn)
        P = [p["n"] for p in fn["params"]]
        ts = consts(fn)
        for o in (row, col):
            for n, pairs in domain(ts):
                def gen():
                    for a, b in pairs:
                        a, b = min(a, b), max(a, b)
                        i = index(n, a, b, o == row)
                        p, e = evaluate(it, ps, dict(zip(P, (i, n, o))))
                        yield i, pair(e, p.value), (a, b)
                sweep(rep, "inverse", fn, n, o == row, gen(),
                      "index %s is given baseline %s instead of %s")

    fn, it, ps = paths(prog, "ComputeBaselineList", 3)
    if fn:
        rep.fn(fn)
        P = [p["n"] for p in fn["params"]]
        ts = consts(fn)
        for o in (row, col):
            for n in sorted(set(range(1, 7)) | set(
                    lits.around(ts, 3000)) | {v + 7 for v in ts
                                              if v < 3000}):
                def gen():
                    for a in range(n) if n < 12 else sorted(
                            {0, 1, n // 2, n - 1} |
                            {x for x in lits.around(ts, n - 1) if n < 500}):
                        roots = dict(zip(P, (a, n, o)))
                        yield a, listing(it, roots), [
                            index(n, a, i, o == row) for i in range(n)]
                sweep(rep, "list", fn, n, o == row, gen(),
                      "the baselines of antenna %s are %s instead of %s")


def listing(it, roots):
    """the elements appended to, or stored in, the result"""
    run, bad = replay(it, lambda: IdxEv(it, {}, roots), ("call", "store"))
    if bad:
        raise bad[0][1]
    if not it.sites:
        raise Unknown("no elements stored")
    out, el = [], {}
    for s, e in run:
        if s["kind"] == "call":
            out.append(e.ev(s["val"][-1]))
        elif s["what"][0] == "el":
            el[e.ev(s["what"][2])] = e.ev(s["val"])
    if el:
        out += [el[k] for k in sorted(el)]
    return out
