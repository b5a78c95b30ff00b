"""C12: applying and subtracting models touches the right visibilities."""
import math

from dp3a import facts, lits, narrow
from dp3a.absint import last
from dp3a.terms import show
from dp3a.nest import (NestScanner, Ev, PathV, It, SP, Unknown, replay,
                       Memory, Diverges, Outside)

TECHNIQUE = (
    "Abstract interpretation of the visibility kernels with their cursors "
    "inlined: the elements written, and the polynomials in the input "
    "elements written to them, are extracted with the loops around them and "
    "compared with the matrix formula for a grid of shapes and strides.")
MINIMUM = 20
PURE = True
NS = "dp3::base::"
# (baselines, channels, data strides, coefficient strides)
SHAPES = [
    ([(0, 1)], 1, (1, 4, 4), (1, 8)),
    ([(0, 1), (0, 0), (1, 2)], 2, (1, 4, 8), (1, 8)),
    ([(2, 2), (2, 0), (1, 1), (0, 2)], 3, (2, 9, 40), (3, 30)),
    ([(0, 0)], 2, (1, 4, 8), (1, 8)),
    ([], 2, (1, 4, 8), (1, 8)),
    ([(0, 1), (1, 2)], 0, (1, 4, 0), (1, 8)),
    ([(1, 0), (0, 2)], 2, (6, 3, 1), (20, 1)),
    ([(0, 1), (1, 2), (0, 2)], 1, (1, 4, 5), (1, 8)),
    ([(2, 1)], 1, (1, 4, 4), (1, 8)),
    ([(3, 0)], 2, (1, 4, 8), (1, 8)),
]


def shapes(prog, fn):
    """the shapes, and more for constants that the code compares with"""
    yield from SHAPES
    for v in lits.around(lits.thresholds(prog, [fn]), 300):
        if v <= 40:
            yield [(0, 1), (1, 2)], v, (1, 4, 4 * v), (1, 8)
            yield [(i % 3, (i + 1) % 3) for i in range(v)], 1, (1, 4, 4), \
                (1, 8)
        yield [(0, v), (v, 1)], 1, (1, 4, 4), (1, 8)
        yield [(0, 1), (1, 2)], 2, (1, v + 4, 3 * v + 12), (1, v + 8)


def cursor_fields(rep, prog):
    """names of the pointer and stride members of the cursor classes"""
    out = {}
    for qn, fns in prog.by_qn.items():
        c = last(qn)
        if c not in ("cursor", "const_cursor") or "<" not in qn:
            continue
        for fn in fns:
            if len(fn["params"]) != 3:
                continue
            ptr, strides = fn["params"][0]["n"], fn["params"][2]["n"]
            for p in NestScanner(prog).run(fn):
                for l, v in p.state.env.items():
                    if isinstance(l, tuple) and l[0] == "f" and \
                            l[1] == ("this",) and v == ("sym", ptr):
                        out.setdefault(c, {})["ptr"] = l[2]
                    if isinstance(l, tuple) and l[0] == "f" and \
                            l[1] == ("this",) and isinstance(v, tuple) and \
                            v[0] == "upd":
                        out.setdefault(c, {})["strides"] = l[2]
    return out


def cur(fields, root, strides):
    d = {}
    for c in ("cursor", "const_cursor"):
        f = fields.get(c, {})
        d[f.get("ptr", "itsPointer")] = It(PathV(root), 0)
        d[f.get("strides", "itsStrides")] = (list(strides) + [0] * 5)[:5]
    return d


def models(e):
    def abs_(ev, a):
        v = SP.of(ev.ev(a[0]))
        if v is None:
            raise Unknown("abs")
        return PathV("real abs", (repr(v),))

    def isnan_(ev, a):
        v = ev.ev(a[0])
        return int(nan(v))
    e.models.update({"abs": abs_, "isnan": isnan_})
    return e


def nan(v):
    """a fixed pattern of invalid values"""
    return sum(map(ord, repr(v))) % 3 == 0


def run_kernel(rep, prog, fn, it, roots, initial, what):
    """memory after the kernel, or None"""
    mem = Memory(initial)

    def make():
        return models(Ev(it, {}, roots, sizer=mem.value))
    try:
        run, bad = replay(it, make, ("store",))
    except (Unknown, IndexError) as u:
        rep.undecided(what, fn["qn"], str(u)[:100])
        return None
    for s, u in bad:
        if isinstance(u, (Diverges, Outside)):
            rep.bad("loop", s["fn"].where(s["node"]), str(u))
            return None
        rep.undecided(what, s["fn"].where(s["node"]), str(u)[:100])
        return None
    for s, e in run:
        w = s["fn"].where(s["node"])
        mem.enter(e)
        l = s["what"]
        if l[0] == "f" and l[1][0] in ("v", "sym", "g", "this"):
            continue        # position of a cursor
        try:
            d = e.loc(l)
            v = e.ev(s["val"])
        except Outside as u:
            rep.bad("loop", w, str(u))
            return None
        except (Unknown, IndexError, TypeError) as u:
            rep.undecided(what, w, str(u)[:100])
            return None
        if isinstance(d, It):
            d = d.arr.at(d.pos)
        if not isinstance(d, PathV):
            rep.undecided(what, w, "store to %r" % (d,))
            return None
        mem.put(d, v, w)
    return mem


def compare(rep, fn, mem, want, rule, shape, what):
    site = "%s %s" % (fn["qn"], shape[:3])
    got = {k[1]: v for k, v in mem.m.items() if k[0] == "D"}
    bad = None
    for k, v in sorted(want.items()):
        g = got.pop(k, PathV("D", k))
        if SP.of(g) != SP.of(v):
            bad = bad or (k, g, v)
    rep.check(bad is None, rule, mem.where.get(("D", bad[0]), site)
              if bad else site, "for baselines %s, %s channels and strides "
              "%s, the %s element %s becomes %s instead of %s"
              % (shape[:3] + (what,) + (bad or (0, 0, 0))))
    extra = [k for k, v in sorted(got.items()) if v != PathV("D", k)]
    rep.check(not extra, "untouched", mem.where.get(
        ("D", extra[0]), site) if extra else site,
        "for baselines %s, %s channels and strides %s the element %s, which "
        "is not part of a cross-correlation, is changed"
        % (shape[:3] + (extra[:1],)))
    other = sorted({k[0] for k in mem.m if k[0] != "D"})
    rep.check(not other, "untouched", site, "the input %s is changed"
              % other)


def baseline_value(bls, stride=1):
    def initial(what, v):
        if what == "value" and v.root == "BL" and len(v.path) == 2:
            k = v.path[0]
            if k % stride == 0 and 0 <= k // stride < len(bls):
                f = v.path[1]
                if f in ("first", "second"):
                    return bls[k // stride][f == "second"]
            if k % stride == 0:
                raise Outside("baseline %d of %d is used"
                              % (k // stride, len(bls)))
        return None
    return initial


def check_apply(rep, prog, fields):
    for fn in prog.by_qn.get(NS + "apply", []):
        if len(fn["params"]) != 5:
            continue
        rep.fn(fn)
        P = [p["n"] for p in fn["params"]]
        it = NestScanner(prog)
        it.run(fn)
        for sh in shapes(prog, fn):
            bls, nch, ds, cs = sh
            roots = {P[0]: len(bls), P[1]: nch,
                     P[2]: cur(fields, "BL", (1,)),
                     P[3]: cur(fields, "real C", cs),
                     P[4]: cur(fields, "D", ds)}
            mem = run_kernel(rep, prog, fn, it, roots, baseline_value(bls),
                             "apply")
            if mem is None:
                break
            want = {}

            def J(st, i, j):
                b = st * cs[1] + (i * 2 + j) * 2 * cs[0]
                return SP.of(PathV("real C", (b,))) + PathV(
                    "real C", (b + cs[0],)) * SP({(PathV("i"),): 1})
            for b, (p, q) in enumerate(bls):
                if p == q:
                    continue
                for c in range(nch):
                    def D(i, j):
                        return (b * ds[2] + c * ds[1] + (i * 2 + j)
                                * ds[0],)
                    for i in range(2):
                        for j in range(2):
                            s = SP({})
                            for k in range(2):
                                for l in range(2):
                                    s = s + J(p, i, k) * PathV(
                                        "D", D(k, l)) * J(q, j, l).conj()
                            want[D(i, j)] = s
            compare(rep, fn, mem, want, "jones", sh, "visibility")


def check_subtract(rep, prog, fields):
    for fn in prog.by_qn.get(NS + "subtract", []):
        if len(fn["params"]) != 8:
            continue
        rep.fn(fn)
        P = [p["n"] for p in fn["params"]]
        it = NestScanner(prog)
        ps = it.run(fn)
        for sh in shapes(prog, fn):
            bls, nch, ds, _ = sh
            ms = tuple(2 * x + 1 if x else 0 for x in ds)
            ws = tuple(3 * x + 2 for x in ds)
            roots = {P[0]: len(bls), P[1]: nch,
                     P[2]: cur(fields, "BL", (1,)),
                     P[3]: cur(fields, "D", ds),
                     P[4]: cur(fields, "M", ms),
                     P[5]: cur(fields, "W", ws)}
            init = baseline_value(bls)
            mem = run_kernel(rep, prog, fn, it, roots, init, "subtract")
            if mem is None:
                break
            want = {}
            before, after = SP({}), SP({})
            for b, (p, q) in enumerate(bls):
                if p == q:
                    continue
                for c in range(nch):
                    for k in range(4):
                        def at(r, st):
                            return PathV(r, (b * st[2] + c * st[1] +
                                             k * st[0],))
                        d = SP.of(at("D", ds))
                        n = d - at("W", ws) * at("M", ms)
                        want[at("D", ds).path] = n
                        if k in (0, 3):
                            x, y = (PathV("real abs", (repr(v),))
                                    for v in (d, n))
                            if not nan(x):
                                before = before + x * x
                            if not nan(y):
                                after = after + y * y
            compare(rep, fn, mem, want, "subtract", sh, "visibility")
            for i, w in ((6, before), (7, after)):
                got, where = None, fn["qn"]
                for p in ps:
                    if p.outcome not in ("end", "return"):
                        continue
                    got = final(it, p, roots, init, P[i])
                    if got is not None:
                        break
                if got is None:
                    rep.undecided("variance", where, P[i])
                    continue
                rep.check(SP.of(got) == w, "variance", "%s %s %s"
                          % (where, P[i], sh[:3]), "for baselines %s and %s "
                          "channels, %s becomes %s instead of %s"
                          % (bls, nch, P[i], got, w))


def final(it, p, roots, init, name):
    """value of a reference parameter at the end of a path"""
    for l, v in p.state.env.items():
        if isinstance(l, tuple) and name in show(l) and \
                "itsPointer" not in show(l) and l[0] != "v":
            old = PathV("old " + name)
            e = models(Ev(it, {("init", l): old, ("sym", name): old}, roots,
                          sizer=init))
            try:
                return e.ev(v)
            except (Unknown, IndexError, TypeError):
                return None
    return None


def check_cursor(rep, prog, fields):
    """every way to move a cursor moves it by whole strides"""
    strides = [2, 7, 40, 300, 1000]
    want = {  # name, parameters -> displacement
        ("operator++", 0): lambda n: strides[0],
        ("operator++", 1): lambda n: strides[0],
        ("operator--", 0): lambda n: -strides[0],
        ("operator--", 1): lambda n: -strides[0],
        ("operator+=", 1): lambda n: n[0] * strides[0],
        ("operator-=", 1): lambda n: -n[0] * strides[0],
        ("forward", 1): lambda n: strides[n[0]],
        ("forward", 2): lambda n: n[1] * strides[n[0]],
        ("backward", 1): lambda n: -strides[n[0]],
        ("backward", 2): lambda n: -n[1] * strides[n[0]],
        ("operator*", 0): lambda n: 0, ("operator->", 0): lambda n: 0,
        ("operator[]", 1): lambda n: n[0] * strides[0],
        ("address", 0): lambda n: 0,
    }
    reads = ("operator*", "operator->", "operator[]", "address")
    seen = set()
    for qn, fns in sorted(prog.by_qn.items()):
        c = qn.rsplit("::", 1)[0]
        if last(c) not in ("cursor", "const_cursor"):
            continue
        f = fields.get(last(c), {})
        if "ptr" not in f or "strides" not in f:
            continue
        for fn in fns:
            w = want.get((last(qn), len(fn["params"])))
            if w is None or not fn.get("body") or fn.where(fn) in seen:
                continue
            seen.add(fn.where(fn))
            rep.fn(fn)
            it = NestScanner(prog)
            ps = it.run(fn)
            for n in ((0, 1), (1, 0), (3, 2), (2, 5)):
                roots = {"this." + f["ptr"]: It(PathV("P"), 5),
                         "this." + f["strides"]: strides}
                roots.update(zip([p["n"] for p in fn["params"]], n))
                for p in ps:
                    e = Ev(it, {}, roots)
                    try:
                        if last(qn) in reads:
                            v = p.value
                            if isinstance(v, tuple) and v[0] == "lref":
                                got = e.loc(v[1]).path[0]
                            else:
                                v = e.ev(v)
                                got = v.pos if isinstance(v, It) else \
                                    v.path[0]
                        else:
                            l = ("f", ("this",), f["ptr"])
                            got = e.ev(p.state.env.get(
                                l, ("init", l))).pos
                    except (Unknown, KeyError, AttributeError, IndexError,
                            TypeError) as u:
                        rep.undecided("cursor", fn.where(fn), str(u)[:80])
                        continue
                    rep.check(got - 5 == w(n), "cursor", "%s %s%s"
                              % (fn.where(fn), last(qn), n), "with strides "
                              "%s, %s%s moves by %s instead of %s"
                              % (strides[:4], last(qn),
                                 n[:len(fn["params"])], got - 5, w(n)))


INSTANCES = ("c12_cursor.cc", """#include "base/Cursor.h"
void c12_use(double* d, size_t* s) {
  dp3::base::cursor<double> a(d, 3, s), b(d);
  dp3::base::const_cursor<double> c(d, 3, s), e(d), f(a);
}
""")


def check_made(rep, prog, fields):
    """a new cursor has the position and the strides it is given"""
    given = [2, 7, 40]
    for qn, fns in sorted(prog.by_qn.items()):
        c = qn.rsplit("::", 1)[0]
        if last(qn) != last(c) or "<double>" not in c or \
                last(c) not in ("cursor", "const_cursor"):
            continue
        f = fields.get(last(c), {})
        if "ptr" not in f or "strides" not in f:
            continue
        S = ("f", ("this",), f["strides"])
        for fn in fns:
            P = fn["params"]
            if len(P) not in (1, 3):
                continue
            rep.fn(fn)
            it = NestScanner(prog, calls=("copy", "copy_n", "fill",
                                          "fill_n"))
            ps = it.run(fn)
            roots = {P[0]["n"]: It(PathV("P"), 3)}
            want = [1]
            if len(P) == 3:
                roots[P[1]["n"]] = 3
                roots[P[2]["n"]] = It(given, 0)
                want = given
            elif "ursor" in fn.ty(P[0]["t"])["s"]:
                o = fields.get("cursor", f)
                roots[P[0]["n"]] = {o["ptr"]: It(PathV("P"), 3),
                                    o["strides"]: given + [0, 0]}
                for l in ps[0].state.env if ps else ():
                    if l[0] == "f" and l[1] == ("this",):
                        roots[P[0]["n"]].setdefault(l[2], 3)
                want = given
            mem, pos = {}, None
            try:
                run, bad = replay(it, lambda: Ev(it, {}, roots))
                if bad:
                    raise bad[0][1]
                for s, e in run:
                    if s["kind"] == "store":
                        l = s["what"]
                        if l[0] == "el" and l[1] == S:
                            mem[e.ev(l[2])] = e.ev(s["val"])
                        elif l == ("f", ("this",), f["ptr"]):
                            pos = e.ev(s["val"])
                        continue
                    a = s["val"]
                    if s["what"].startswith("copy"):
                        x, dst = e.ev(a[0]), a[2]
                        n = e.ev(a[1])
                        n = n - x.pos if isinstance(n, int) else \
                            n.pos - x.pos
                        if s["what"] == "copy_n":
                            n = e.ev(a[1])
                        vals = [x.arr[x.pos + k] for k in range(n)]
                    else:
                        dst = a[0]
                        if s["what"] == "fill_n":
                            n = e.ev(a[1])
                        else:
                            n = e.ev(a[1][2]) - e.ev(a[0][2])
                        vals = [e.ev(a[2])] * n
                    if dst[0] != "ptr" or dst[1] != S:
                        continue
                    o = e.ev(dst[2])
                    for k, v in enumerate(vals):
                        mem[o + k] = v
            except (Unknown, KeyError, AttributeError, IndexError,
                    TypeError) as u:
                if isinstance(u, Diverges):
                    rep.bad("loop", fn.where(fn), str(u))
                else:
                    rep.undecided("cursor", fn.where(fn), repr(u)[:80])
                continue
            got = [mem.get(k) for k in range(len(want))]
            w = "%s %s(%s)" % (fn.where(fn), last(c),
                               ", ".join(p["n"] for p in P))
            rep.check(got == want, "cursor-made", w, "a cursor made with "
                      "strides %s has strides %s" % (want, got))
            rep.check(isinstance(pos, It) and pos.pos == 3, "cursor-made",
                      w, "a new cursor does not stand where it was put")


def check(rep, tier):
    prog = facts.extract(["base/Apply.cc", "base/SubtractMixed.cc",
                          INSTANCES])
    fields = cursor_fields(rep, prog)
    check_cursor(rep, prog, fields)
    check_made(rep, prog, fields)
    check_apply(rep, prog, fields)
    check_subtract(rep, prog, fields)
    narrow.check(rep, [f for n in ("apply", "subtract")
                       for f in prog.by_qn.get(NS + n, [])
                       if len(f["params"]) > 4], "visibility kernel")
