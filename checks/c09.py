"""C09: upsampling of solutions with direction-dependent intervals."""
from dp3a import facts, lits, narrow
from dp3a.absint import last
from dp3a.terms import show, subterms, is_num
from dp3a.nest import (NestScanner, Ev, PathV, It, Unknown, DivZero,
                       Diverges)

TECHNIQUE = (
    "Abstract interpretation of SolutionResampler: the copies between the "
    "original and the upsampled arrays are extracted with the loops around "
    "them as terms over the sizes, and the extracted index relation is "
    "compared with the definition (element (time, antenna, direction, "
    "polarisation) comes from the sub-solution valid at that time) for a "
    "grid of sizes; every element must be written, inside the sizes given by "
    "the extracted resize calls.")
MINIMUM = 40
PURE = ("SolutionResampler",)
C = "dp3::ddecal::SolutionResampler"
GRID = [  # (solutions per direction, solution interval)
    ([1], 4), ([2, 1], 2), ([1, 2, 4], 4), ([3, 1, 3], 6), ([2, 3], 6),
    ([3, 3, 5, 5], 15), ([4, 6], 24),
]


def cases(ts, nmore):
    """(numbers of solutions, interval, antennas, last axis, channel blocks,
    times); ts: constants that the code compares with"""
    for ns, iv in GRID[:6]:
        for k in nmore:
            yield ns, iv, 2, k, 3, 2
    yield [1, 2, 1, 1, 2], 2, 1, 3, 1, 1
    for v in lits.around(ts, 40):
        if v < 2:
            continue
        yield [1] * (v - 1) + [2], 2, 1, 1, 1, 1
        yield [v, 1], v, 1, 1, 1, 1
        yield [2, 1], 2, v, 1, 1, 1
        yield [2, 1], 2, 1, v, 1, 1
        yield [2, 1], 2, 1, 1, v, 1
        yield [2, 1], 2, 1, 1, 1, v


def substeps(ns, interval):
    m = max(ns)
    return interval if any(m % v for v in ns) else m


def this_roots(names, ns, interval, nant):
    vals = {"n_solutions_per_direction": list(ns),
            "n_sub_solutions": sum(ns), "n_directions": len(ns),
            "n_antennas": nant, "solution_interval": interval,
            "n_substeps": substeps(ns, interval)}
    return {"this." + k: vals[v] for k, v in names.items()}


def check_ctor(rep, prog):
    """-> member -> meaning"""
    names = {}
    fns = [f for f in prog.by_qn.get(C + "::SolutionResampler", [])
           if len(f["params"]) == 3]
    if not fns:
        rep.undecided("constructor", C, "not found")
        return names
    fn = fns[0]
    rep.fn(fn)
    P = [p["n"] for p in fn["params"]]
    it = NestScanner(prog)
    ps = [p for p in it.run(fn) if p.outcome in ("end", "return")]
    interval_t, seen = ("sym", P[2]), set()
    decided = {}
    for p in ps:
        w = fn.where(p.node) if p.node else fn["qn"]
        for l, v in p.state.env.items():
            if not (isinstance(l, tuple) and l[0] == "f" and
                    l[1] == ("this",)):
                continue
            vals, outside = [], False
            for ns, iv in GRID:
                e = Ev(it, {}, {P[0]: list(ns), P[1]: 7, P[2]: iv + 1000})
                try:
                    vals.append(e.ev(v))
                except Unknown:
                    vals.append(None)
                except (IndexError, ValueError):
                    outside = True
            rep.check(not outside, "constructor", w, "%s is computed from "
                      "an element outside of the range: %s"
                      % (l[2], show(v)[:80]))
            if outside:
                continue
            want = {
                "n_solutions_per_direction": [list(ns) for ns, _ in GRID],
                "n_sub_solutions": [sum(ns) for ns, _ in GRID],
                "n_directions": [len(ns) for ns, _ in GRID],
                "n_antennas": [7] * len(GRID),
                "solution_interval": [iv + 1000 for _, iv in GRID],
                "max": [max(ns) for ns, _ in GRID],
            }
            m = [k for k, x in want.items() if x == vals]
            key = l[2].rstrip("_")
            if key == "n_substeps":
                names[l[2]] = "n_substeps"
                kind = m[0] if m else None
                if l[2] not in decided:
                    decided[l[2]] = simulate(rep, it, fn, ps, P, l[2])
                if not decided[l[2]]:
                    rule_substeps(rep, it, fn, p, kind, w)
                seen.add(kind)
                continue
            if m:
                names[l[2]] = m[0]
                if key in want:
                    rep.check(key in m, "constructor", w, "%s is set to %s"
                              % (l[2], show(v)[:80]))
            elif key in want:
                rep.check(None in vals, "constructor", w, "%s is set to %s"
                          % (l[2], show(v)[:80]))
    if seen and None not in seen and not any(decided.values()):
        rep.check(seen >= {"max", "solution_interval"}, "substeps",
                  fn["qn"], "the number of substeps is always %s"
                  % sorted(seen))
    return names


def nondiv(facts_):
    """[(fact, truth)] about (maximum % element) == 0"""
    out = []
    for f, v in facts_.items():
        if f[0] == "eq0" and isinstance(f[1], tuple) and \
                f[1][0] == "op" and f[1][1] == "%" and \
                "max_element" in show(f[1][2]):
            out.append(v)
    return out


def depends(t):
    """the term may depend on the divisibility of elements"""
    return any(isinstance(x, tuple) and x and (
        x[0] in ("op", "el", "rec", "eq", "ne", "lt") or x[0] == "call" and
        not any(w in show(x[1]) for w in ("begin", "end", "size",
                                          "max_element", "accumulate",
                                          "operator")))
        for x in subterms(t))


def forgotten(it, flags):
    """the loop goes on after an element that does not divide the maximum,
    without setting a flag"""
    for sts in it.back.values():
        for st in sts:
            if False not in nondiv(st.facts):
                continue
            got = [st.env.get(f[3]) for f in flags]
            if not any(is_num(v) and v for v in got):
                return True
    return False


LISTS = ([1], [3], [2, 2], [1, 2], [2, 1], [2, 3], [3, 2], [2, 3, 3],
         [3, 3, 2], [3, 2, 3], [4, 2, 1], [1, 4, 2], [2, 4, 3], [4, 3, 2],
         [3, 4, 2], [6, 4, 3], [4, 6, 2], [6, 2, 3], [3, 3, 5, 5],
         [5, 5, 3, 3], [4, 4, 6, 4], [1, 6, 1, 4])


def outcome(it, ps, P, ns, field):
    """n_substeps for a list of numbers of solutions: "max",
    "solution_interval" or another value; the loops over the list are
    followed state by state"""
    iv = 5040
    loc = ("f", ("this",), field)
    phis = {t for sts in it.back.values() for st in sts
            for u in list(st.facts) + list(st.env.values())
            for t in subterms(u) if isinstance(t, tuple) and t and
            t[0] == "phi"}
    phis |= {t for p in ps for u in list(p.state.facts) +
             [p.state.env.get(loc)] for t in subterms(u)
             if isinstance(t, tuple) and t and t[0] == "phi"}
    phis |= {t for t in it.entry_of if t[0] == "phi"}
    loops = {k for k in it.back}
    if len(loops) > 1:
        raise Unknown("several loops")

    def each(t):
        return isinstance(t, tuple) and t and t[0] == "each"

    def mentions(p):
        return any(each(t) for f in p.state.facts for t in subterms(f))

    def make(cur, k):
        e = Ev(it, dict(cur), {P[0]: list(ns), P[1]: 7, P[2]: iv})
        if k is not None:
            for t in eaches:
                v = e.ev(t[1])
                e.env[t] = v[k]
        return e

    def final(e, cand):
        got = []
        for p in cand:
            if all(e.holds(f, v) for f, v in p.state.facts.items()):
                got.append(e.ev(p.state.env[loc]))
        return got
    eaches = {t for sts in it.back.values() for st in sts
              for u in list(st.facts) + list(st.env.values())
              for t in subterms(u) if each(t)}
    e = Ev(it, {}, {P[0]: list(ns), P[1]: 7, P[2]: iv})
    cur = {}
    for t in phis:
        if t[0] == "phi" and (t[1], t[2]) in loops:
            try:
                cur[t] = e.ev(it.entry_of.get(t))
            except (Unknown, TypeError):
                pass
    states = [st for b in it.back.values() for st in b]
    inside = [p for p in ps if mentions(p)]
    after = [p for p in ps if not mentions(p)]
    n = len(ns) if eaches else 50
    k = 0
    while k < n:
        if eaches:
            e = make(cur, k)
            got = final(e, inside)
        else:
            e = make(cur, None)
            got = final(e, ps)
        if got:
            break
        nxt = [st for st in states
               if all(e.holds(f, v) for f, v in st.facts.items())]
        if len(nxt) != 1:
            raise Unknown("%d next states" % len(nxt))
        cur = {t: e.ev(nxt[0].env.get(t[3], t)) for t in cur}
        k += 1
    else:
        got = final(make(cur, None), after)
    if len(set(got)) != 1:
        raise Unknown("%d results" % len(set(got)))
    return got[0], iv


def simulate(rep, it, fn, ps, P, field):
    """decides the number of substeps for the lists; False when it cannot"""
    for ns in LISTS:
        try:
            got, iv = outcome(it, ps, P, ns, field)
        except (Unknown, TypeError, IndexError, ValueError, KeyError,
                ZeroDivisionError, AttributeError):
            return False
        m = max(ns)
        want = iv if any(m % x for x in ns) else m
        if got != want:
            rep.bad("substeps", fn["qn"], "for %s solutions per direction "
                    "%s substeps are used instead of %s" % (ns, got,
                    "the solution interval" if want == iv else m))
            return True
    rep.check(True, "substeps", fn["qn"], "")
    return True


def rule_substeps(rep, it, fn, p, kind, w):
    nd = nondiv(p.state.facts)
    if kind is None:
        rep.undecided("substeps", w, "value not followed")
        return
    if kind not in ("max", "solution_interval"):
        rep.bad("substeps", w, "the number of substeps is %s" % kind)
        return
    flags = {f[1]: v for f, v in p.state.facts.items()
             if f[0] == "eq0" and isinstance(f[1], tuple) and
             f[1][0] == "phi"}
    back = [nondiv(st.facts) for sts in it.back.values() for st in sts]
    if not nd and not any(back):
        sts = [p.state] + [s for b in it.back.values() for s in b]
        if not any(depends(f) for st in sts for f in st.facts) and \
                not any(depends(v) for st in sts for l, v in st.env.items()
                        if not (isinstance(l, tuple) and l[0] == "f")):
            rep.bad("substeps", w, "%s substeps are chosen by a condition "
                    "that does not depend on the numbers of solutions"
                    % kind)
            return
        rep.undecided("substeps", w, "no divisibility test recognised")
        return
    if False in nd:
        rep.check(kind == "solution_interval", "substeps", w, "%s substeps "
                  "are used although the maximum is not divisible by every "
                  "number of solutions" % kind)
    elif kind == "max":
        kept = all(True in b and False not in b for b in back)
        if not kept:
            # flag set in the loop and tested after it; an element that
            # does not divide the maximum has to set it
            kept = bool(flags) and all(v for v in flags.values()) and \
                not forgotten(it, flags)
        rep.check(kept, "substeps", w, "the maximum is used although a "
                  "number of solutions may not divide it")
    else:
        rep.check(bool(flags) and not any(flags.values()), "substeps", w,
                  "the whole interval is used although every number of "
                  "solutions divides the maximum")


def check_map(rep, prog, names):
    for fn in prog.by_qn.get(C + "::MapResampledToOriginal", []):
        rep.fn(fn)
        P = [p["n"] for p in fn["params"]]
        it = NestScanner(prog)
        more = lits.around(lits.thresholds(prog, [fn]), 1000)
        more = [v for v in more if v > 1]
        small = [v for v in more if v < 70]
        grid = [(ns, iv, (1, 2, 4), 2 * substeps(ns, iv) + 1, (0, 1, 2), 3)
                for ns, iv in GRID]
        grid += [([1] * v + [2, 1], 2, (1,), 3, (0, 1), 2) for v in small]
        grid += [([v, 1], v, (1,), 2 * v + 1, (0, 1), 2) for v in small]
        grid += [([2, 1], 2, (v,), 5, (0, 1), 2) for v in more]
        grid += [([2, 1], 2, (2,), 5, (0, 1, v - 1), v) for v in more]
        grid += [([2, 1], 2, (2,), v, (0, 1), 2) for v in small]
        for p in it.run(fn):
            if p.outcome != "return":
                continue
            w = fn.where(p.node)
            bad = None
            n = 0
            try:
                for ns, iv, pols, nt, ants, nant in grid:
                    st = substeps(ns, iv)
                    for npol in pols:
                        for t in range(nt):
                            for d in range(len(ns)):
                                for a in ants:
                                    r = this_roots(names, ns, iv, nant)
                                    r.update(zip(P, (t, a, d, npol - 1,
                                                     npol)))
                                    e = Ev(it, {}, r)
                                    if not all(e.holds(f, v) for f, v in
                                               p.state.facts.items()):
                                        continue
                                    n += 1
                                    got = e.ev(p.value)
                                    s = sum(ns[:d]) + (t % st) * ns[d] // st
                                    want = (t // st, (a * sum(ns) + s)
                                            * npol + npol - 1)
                                    if tuple(got) != want:
                                        bad = bad or (ns, iv, t, a, d, npol,
                                                      got, want)
            except Unknown as e:
                rep.undecided("map", w, str(e)[:120])
                continue
            rep.check(bad is None, "map", w, "for %s solutions in %s steps, "
                      "time %s antenna %s direction %s of %s polarisations: "
                      "original element %s instead of %s"
                      % (bad or (0,) * 8))


def run_sites(it, roots, sizer, kinds):
    """[(site, ev)] for every iteration of every site"""
    for s in it.sites:
        if s["kind"] not in kinds:
            continue
        e = Ev(it, {}, roots, sizer=sizer)
        try:
            for _ in e.iterate(s):
                yield s, e
        except Unknown as u:
            yield s, u


def check_up(rep, prog, names):
    for fn in prog.by_qn.get(C + "::Upsample", []):
        rep.fn(fn)
        it = NestScanner(prog, ("resize", "copy_n", "copy", "transform")
                         + SIZING)
        ps = it.run(fn)
        dest = None
        for p in ps:
            if p.outcome == "return":
                for t in subterms(p.value):
                    if isinstance(t, tuple) and t[0] == "phi" and \
                            isinstance(t[3], tuple) and t[3][0] == "v":
                        dest = dest or t[3][3]
        src = fn["params"][0]["n"]
        made = constructed(fn, dest)
        if dest is None:
            rep.undecided("upsample", fn["qn"], "result not followed")
            continue
        if len(fn["params"]) == 2:
            up_solutions(rep, prog, fn, it, src, dest, names, made)
        else:
            up_results(rep, prog, fn, it, src, dest, names, made)


SIZING = ("assign", "push_back", "emplace_back", "insert", "emplace", "swap")


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


def constructed(fn, name):
    """the container gets a size when it is made (or this is not known)"""
    for n in walk(fn):
        if n.get("n") == name and isinstance(n.get("init"), dict):
            i = n["init"]
            return not (i.get("k") == "ctor" or "cls" in i) or bool(
                i.get("c") or i.get("a") or i.get("args"))
    return True


def unsized(rep, fn, sizes, whole, need, site):
    """arrays that are indexed but never get a size"""
    for k in need:
        if k in sizes or any(k[:i] in whole for i in range(len(k) + 1)):
            continue
        rep.bad("sizes", site, "array %s is filled but never gets a size"
                % list(k))
        return


def failed(rep, kind, fail):
    w, u = fail
    if isinstance(u, DivZero):
        rep.bad(kind, w, "division by zero: %s" % show(u.args[0])[:120])
    elif isinstance(u, Diverges):
        rep.bad(kind, w, str(u))
    else:
        rep.undecided(kind, w, str(u)[:120])


def up_solutions(rep, prog, fn, it, src, dest, names, made):
    npn = fn["params"][1]["n"]
    ts = lits.thresholds(prog, [fn])
    for ns, iv, nant, npol, nch, nt in cases(ts, (1, 4)):
        st = substeps(ns, iv)
        if True:
            roots = this_roots(names, ns, iv, nant)
            roots.update({src: PathV("S"), dest: PathV("D"), npn: npol})

            def sizer(what, v):
                if what == "size":
                    if v.root == "S":
                        return (nt, nch, nant * sum(ns) * npol)[len(v.path)]
                    return (nt * st, nch, nant * len(ns) * npol)[
                        len(v.path)]
                return None
            out, sizes = {}, {}
            where = {}
            whole = {()} if made else set()
            fail = None
            for s, e in run_sites(it, roots, sizer, ("store", "call")):
                w = s["fn"].where(s["node"])
                if isinstance(e, Unknown):
                    fail = fail or (w, e)
                    continue
                try:
                    if s["kind"] == "call":
                        if s["what"] == "resize" and s["loc"]:
                            d = e.loc(s["loc"])
                            if isinstance(d, PathV) and d.root == "D":
                                sizes[d.path] = (e.ev(s["val"][1]), w)
                        elif s["what"] in SIZING and s["loc"]:
                            d = e.loc(s["loc"])
                            if isinstance(d, PathV) and d.root == "D":
                                whole.add(d.path)
                        elif s["what"] in ("copy_n", "copy"):
                            copy_site(e, s, out, where, w)
                        continue
                    d = e.loc(s["what"])
                    if not (isinstance(d, PathV) and d.root == "D"):
                        continue
                    if len(d.path) < 3:
                        whole.add(d.path)
                        continue
                    out[d.path] = e.ev(s["val"])
                    where[d.path] = w
                except Unknown as u:
                    fail = fail or (w, u)
                except IndexError as u:
                    rep.bad("bounds", w, "%s solutions in %s steps: %s"
                            % (ns, iv, u))
            if fail:
                failed(rep, "upsample", fail)
                continue
            verify(rep, fn, out, where, ns, iv, npol, nt, nch, nant, st)
            need = {(): nt * st}
            for t in range(nt * st):
                need[(t,)] = nch
                for c in range(nch):
                    need[(t, c)] = nant * len(ns) * npol
            unsized(rep, fn, sizes, whole, need, "%s %s" % (fn["qn"], ns))
            for k, v in need.items():
                if k not in sizes:
                    continue
                rep.check(sizes[k][0] == v, "sizes", "%s %s %s"
                          % (sizes[k][1], ns, npol), "for %s solutions in "
                          "%s steps, array %s gets %s elements instead of "
                          "%s" % (ns, iv, list(k), sizes[k][0], v))


def copy_site(e, s, out, where, w):
    a = s["val"]
    x = e.ev(a[0])
    if s["what"] == "copy_n":
        n = e.ev(a[1])
    else:
        n = e.ev(a[1]).pos - x.pos
    y = e.ev(a[2])
    if not (isinstance(x, It) and isinstance(y, It)):
        raise Unknown(s["val"])
    for i in range(n):
        d = y.arr.at(y.pos + i)
        if d.root == "D":
            out[d.path] = e.index(x.arr, x.pos + i)
            where[d.path] = w


def verify(rep, fn, out, where, ns, iv, npol, nt, nch, nant, st):
    nd = len(ns)
    bad = miss = None
    for t in range(nt * st):
        for c in range(nch):
            for a in range(nant):
                for d in range(nd):
                    for p in range(npol):
                        k = (t, c, (a * nd + d) * npol + p)
                        s = sum(ns[:d]) + (t % st) * ns[d] // st
                        want = PathV("S", (t // st, c, (a * sum(ns) + s)
                                           * npol + p))
                        if k not in out:
                            miss = miss or k
                        elif out[k] != want:
                            bad = bad or (k, out[k], want)
    extra = [k for k in out if k[0] >= nt * st or k[1] >= nch or
             k[2] >= nant * nd * npol]
    site = "%s %s/%s/%s %s/%s/%s" % (fn["qn"], ns, iv, npol, nt, nch, nant)
    rep.check(bad is None, "upsample", (where.get(bad[0]) if bad else site),
              "for %s solutions in %s steps, element %s is %s instead of %s"
              % ((ns, iv) + (bad or (0, 0, 0))))
    rep.check(miss is None, "complete", site, "for %s solutions in %s "
              "steps, element %s is not written" % (ns, iv, miss))
    rep.check(not extra, "bounds", site, "elements outside the array are "
              "written: %s" % extra[:2])


def up_results(rep, prog, fn, it, src, dest, names, made):
    ts = lits.thresholds(prog, [fn])
    for ns, iv, nant, nfreq, ncon, nt in cases(ts, (1, 3)):
        st = substeps(ns, iv)
        if True:
            nsubt = 1
            if nfreq == 3 and ncon == 3:
                nt, ncon, nsubt = 1, 1, 3
            roots = this_roots(names, ns, iv, nant)
            roots.update({src: PathV("S"), dest: PathV("D")})

            def sizer(what, v):
                n = len(v.path)
                if what == "size":
                    if n < 3:
                        return ((nt if v.root == "S" else nt * st), ncon,
                                nsubt)[n]
                    if v.path[3] in ("vals", "weights"):
                        return nant * nfreq * (sum(ns) if v.root == "S"
                                               else len(ns))
                    if v.path[3] == "dims":
                        return 3
                elif what == "value" and n == 5 and v.path[3] == "dims":
                    return (nant, sum(ns) if v.root == "S" else len(ns),
                            nfreq)[v.path[4]]
                return None
            out, where, sizes, meta = {}, {}, {}, {}
            whole = {()} if made else set()
            fail = None
            for s, e in run_sites(it, roots, sizer, ("store", "call")):
                w = s["fn"].where(s["node"])
                if isinstance(e, Unknown):
                    fail = fail or (w, e)
                    continue
                try:
                    if s["kind"] == "call":
                        if s["what"] == "resize" and s["loc"]:
                            d = e.loc(s["loc"])
                            if isinstance(d, PathV) and d.root == "D":
                                sizes[d.path] = (e.ev(s["val"][1]), w)
                        elif s["what"] in SIZING and s["loc"]:
                            d = e.loc(s["loc"])
                            if isinstance(d, PathV) and d.root == "D":
                                whole.add(d.path)
                        elif s["what"] in ("copy_n", "copy"):
                            copy_site(e, s, out, where, w)
                        continue
                    l = s["what"]
                    if l[0] == "el" and isinstance(l[1], tuple) and \
                            l[1][0] == "f" and l[1][2] == "dims":
                        d = e.loc(l[1])
                        if isinstance(d, PathV) and d.root == "D":
                            meta[d.path + (e.ev(l[2]),)] = (e.ev(s["val"]),
                                                            w)
                        continue
                    if l[0] == "f" and l[2] in ("axes", "name", "dims"):
                        d = e.loc(l)
                        if isinstance(d, PathV) and d.root == "D":
                            meta[d.path] = (e.ev(s["val"]), w)
                        continue
                    d = e.loc(l)
                    if isinstance(d, PathV) and d.root == "D" and \
                            len(d.path) < 5:
                        whole.add(d.path)
                    elif isinstance(d, PathV) and d.root == "D" and \
                            len(d.path) == 5:
                        out[d.path] = e.ev(s["val"])
                        where[d.path] = w
                except Unknown as u:
                    fail = fail or (w, u)
                except IndexError as u:
                    rep.bad("bounds", w, "%s solutions in %s steps: %s"
                            % (ns, iv, u))
            if fail:
                failed(rep, "results", fail)
                continue
            bad = miss = None
            nd = len(ns)
            for t in range(nt * st):
                for c in range(ncon):
                    for k in range(nsubt):
                        b = (t, c, k)
                        sb = (t // st, c, k)
                        for a in range(nant):
                            for d in range(nd):
                                for f in range(nfreq):
                                    for arr in ("vals", "weights"):
                                        i = (a * nd + d) * nfreq + f
                                        s = sum(ns[:d]) + (t % st) \
                                            * ns[d] // st
                                        j = (a * sum(ns) + s) * nfreq + f
                                        got = out.get(b + (arr, i))
                                        want = PathV("S", sb + (arr, j))
                                        if got is None:
                                            miss = miss or b + (arr, i)
                                        elif got != want:
                                            bad = bad or (b + (arr, i), got,
                                                          want)
                        for m in ("axes", "name"):
                            g = meta.get(b + (m,))
                            rep.check(g is not None and g[0] ==
                                      PathV("S", sb + (m,)), "metadata",
                                      "%s %s" % (g[1] if g else fn["qn"],
                                                 m), "the %s of an upsampled "
                                      "result is %s" % (m, g and g[0]))
                        g = meta.get(b + ("dims",))
                        rep.check(g is not None and g[0] == PathV(
                            "S", sb + ("dims",)), "metadata", "%s dims"
                            % (g[1] if g else fn["qn"]), "the dimensions "
                            "are %s" % (g and g[0]))
                        g = meta.get(b + ("dims", 1))
                        rep.check(g is not None and g[0] == nd, "metadata",
                                  "%s dims[1]" % (g[1] if g else fn["qn"]),
                                  "the direction axis gets %s entries "
                                  "instead of %s" % (g and g[0], nd))
            site = "%s %s/%s/%s %s/%s/%s" % (fn["qn"], ns, iv, nfreq, nt,
                                             ncon, nant)
            rep.check(bad is None, "results", where.get(bad[0]) if bad
                      else site, "for %s solutions in %s steps, element %s "
                      "is %s instead of %s" % ((ns, iv) + (bad or
                                                           (0, 0, 0))))
            rep.check(miss is None, "complete", site, "for %s solutions in "
                      "%s steps, element %s is not written"
                      % (ns, iv, miss))
            need = {k[:i] for k in out for i in range(5)} - {
                k[:3] for k in out}
            need |= {k[:2] for k in out}
            unsized(rep, fn, sizes, whole, sorted(need, key=str), site)
            for k, (v, w) in sizes.items():
                want = nt * st if not k else ncon if len(k) == 1 else \
                    nsubt if len(k) == 2 else nant * nd * nfreq
                rep.check(v == want, "sizes", "%s %s/%s" % (w, ns, iv),
                          "array %s gets %s elements instead of %s"
                          % (list(k), v, want))


def check(rep, tier):
    prog = facts.extract(["ddecal/SolutionResampler.cc"])
    names = check_ctor(rep, prog)
    check_map(rep, prog, names)
    check_up(rep, prog, names)
    narrow.check(rep, [f for q, fs in prog.by_qn.items()
                       if q.startswith(C + "::") for f in fs], "resampling")
    for q, fs in sorted(prog.by_qn.items()):
        if not q.startswith(C + "::"):
            continue
        for fn in fs:
            for n in fn.nodes().values():
                if n.get("k") == "call" and last(n.get("fn", "")) in (
                        "accumulate", "reduce"):
                    ty = fn.ty(n["t"])
                    rep.check(ty.get("k") == "int" and
                              ty.get("w", 0) >= 32, "narrow",
                              "%s sum" % fn.where(n), "the numbers of "
                              "solutions are summed in %s" % ty.get("s"))
    for fn in prog.by_qn.get(C + "::GetNrSubSteps", []):
        for p in NestScanner(prog).run(fn):
            rep.check(p.value == ("init", ("f", ("this",), "n_substeps_"))
                      or "n_substeps" in show(p.value), "substeps",
                      fn["qn"], "GetNrSubSteps returns %s" % show(p.value))
