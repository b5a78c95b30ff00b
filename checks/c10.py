"""C10: the least squares solvers hand LAPACK the problem they were given."""
from dp3a import facts, lits, narrow
from dp3a.absint import last
from dp3a.terms import show
from dp3a.nest import (NestScanner, Ev, PathV, It, SP, Unknown, replay,
                       Memory)

TECHNIQUE = (
    "Abstract interpretation of the least squares solvers: every LAPACK call "
    "of every path is extracted with the values its arguments point to, and "
    "is compared with the interface of the routine (dimensions, leading "
    "dimensions, buffer sizes, workspace query protocol, use of the status) "
    "for a grid of dimensions; the normal equations are extracted as a "
    "symbolic relation between the elements of A, B and the products.")
MINIMUM = 30
PURE = ("QRSolver", "SVDSolver", "NormalEquationsSolver", "LLSSolver")
NS = "dp3::ddecal::"
ROLES = {
    "cgels_": "trans m n nrhs a lda b ldb work lwork info".split(),
    "cgelss_": ("m n nrhs a lda b ldb s rcond rank work lwork rwork "
                "info").split(),
    "cposv_": "uplo n nrhs a lda b ldb info".split(),
}
DIMS = [(1, 1, 1), (3, 2, 1), (4, 2, 2), (2, 2, 2), (5, 3, 1), (7, 4, 3),
        (2, 3, 1), (1, 4, 2)]
QUERY = 1000


def all_dims(prog, fn, most):
    """the shapes, and more for constants that the code compares with"""
    yield from DIMS[:6] if most < 100 else DIMS
    for v in lits.around(lits.thresholds(prog, [fn]), most):
        if v < 2:
            continue
        yield v, v - 1 if v < 8 else 2, 1
        yield v + 1, v, 1
        yield 3, 2, v
        yield (v, v, v) if v < 5 else (v, 2, 2)


class Lap(NestScanner):
    def __init__(self, prog):
        super().__init__(prog, tuple(ROLES) + ("copy_n", "copy", "fill",
                                               "fill_n"))

    def record_call(self, node, frame, st, args, objloc):
        n = last(node.get("fn", "?"))
        if n in ROLES:
            vals = tuple(st.env.get(a[1], ("init", a[1]))
                         if isinstance(a, tuple) and a[0] == "ptr" and
                         a[2] == 0 else a for a in args)
            st.event("lapack", n, tuple(args), vals, node, frame.fn)
            super().record_call(node, frame, st, args, objloc)
            if self.sites:
                self.sites[-1].setdefault("vals", vals)
            return
        super().record_call(node, frame, st, args, objloc)


class LEv(Ev):
    """the arguments LAPACK only reads keep their value"""
    work0 = 0

    def ev_(self, t):
        if t in self.env:
            return self.env[t]
        if isinstance(t, tuple) and t and t[0] == "upd" and \
                last(t[1]) in ROLES:
            b = t[2]
            while isinstance(b, tuple) and b[0] == "upd" and \
                    last(b[1]) in ROLES:
                b = b[2]
            if isinstance(b, tuple) and (b[0] == "uninit" or
                                         b[0] == "call" and
                                         last(b[1]) == "complex"):
                return QUERY
            return self.ev(b)
        if isinstance(t, tuple) and t and t[0] == "op" and len(t) == 3 and \
                t[1] == "toint":
            return self.ev(t[2])
        return super().ev_(t)

    def call(self, t):
        n = last(t[1])
        if n in ("real", "abs") and len(t) >= 3:
            return self.ev(t[2])
        if n in ("size", "empty") and len(t) >= 3:
            return self.csize(t[2])
        return super().call(t)

    def csize(self, c):
        while isinstance(c, tuple) and c[0] == "upd":
            if last(c[1]) in ("resize", "assign"):
                return self.ev(c[3][1])
            if last(c[1]) not in ROLES and last(c[1]) not in (
                    "data", "begin", "reserve"):
                raise Unknown(c)
            c = c[2]
        if isinstance(c, tuple) and c[0] == "call" and \
                last(c[1]) == "vector":
            a = [x for x in c[2:] if not (isinstance(x, tuple) and
                                          x[0] == "call" and
                                          last(x[1]) == "allocator")]
            return self.ev(a[0]) if a else 0
        if isinstance(c, tuple) and c[0] == "init":
            return self.work0
        raise Unknown(c)


def ctor_fields(rep, prog):
    """role -> field of the base class"""
    out = {}
    for fn in prog.by_qn.get(NS + "LLSSolver::LLSSolver", []):
        if len(fn["params"]) != 3:
            continue
        rep.fn(fn)
        for p in NestScanner(prog).run(fn):
            for l, v in p.state.env.items():
                if isinstance(l, tuple) and l[0] == "f" and \
                        l[1] == ("this",) and isinstance(v, tuple) and \
                        v[0] == "sym":
                    for i, q in enumerate(fn["params"]):
                        if v[1] == q["n"]:
                            out[("m", "n", "nrhs")[i]] = l[2]
    return out


def check_call(rep, fn, path, ev_, e, dims, where):
    m, n, nrhs = dims
    name, args, vals = ev_[1], ev_[2], ev_[3]
    R = ROLES[name]
    if len(args) != len(R):
        rep.bad("interface", where, "%s is called with %s arguments"
                % (name, len(args)))
        return None
    V = dict(zip(R, vals))
    A = dict(zip(R, args))

    def val(r):
        try:
            return e.ev(V[r])
        except (Unknown, IndexError, KeyError):
            return None
    want = {"m": m, "n": n, "nrhs": nrhs, "lda": m if name != "cposv_"
            else n, "ldb": max(m, n) if name != "cposv_" else n}
    for r, w in want.items():
        if r not in V:
            continue
        v = val(r)
        if v is None:
            rep.undecided(r, where, show(V[r])[:80])
            continue
        rep.check(v == w, "dimension", where + " " + r, "%s gets %s = %s "
                  "instead of %s for a %sx%s matrix and %s right-hand sides"
                  % (name, r, v, w, m, n, nrhs))
    if "trans" in V:
        v = val("trans")
        rep.check(v in (78, 110, None), "interface", where + " trans",
                  "%s solves the (conjugate) transposed problem" % name)
    if "rcond" in V:
        v = val("rcond")
        rep.check(v is None or v <= 0, "interface", where + " rcond",
                  "singular values below %s of the largest are dropped" % v)
    for r, need in (("s", min(m, n)), ("rwork", 5 * min(m, n))):
        if r not in V:
            continue
        try:
            v = e.csize(V[r])
        except (Unknown, IndexError):
            rep.undecided(r, where, show(V[r])[:80])
            continue
        rep.check(v >= need, "buffer", where + " " + r, "%s writes %s "
                  "elements to the buffer %s of %s elements"
                  % (name, need, r, v))
    return V, A, val


def check_paths(rep, prog, fn, fields, it, paths):
    P = [p["n"] for p in fn["params"]]
    for p in paths:
        if p.outcome not in ("return", "end"):
            continue
        evs = [x for x in p.state.events if x[0] == "lapack"]
        w = fn.where(p.node) if p.node else fn["qn"]
        for dims in all_dims(prog, fn, 5000):
            m, n, nrhs = dims
            for work0 in (0, 57):
                roots = {"this." + fields[k]: v for k, v in
                         zip(("m", "n", "nrhs"), dims)}
                roots.update({P[0]: PathV("A"), P[1]: PathV("B")})
                e = LEv(it, {}, roots)
                e.work0 = work0
                e.sizer = None
                feasible = True
                for f, v in p.state.facts.items():
                    try:
                        if not e.holds(f, v):
                            feasible = False
                            break
                    except (Unknown, KeyError, TypeError):
                        pass
                if not feasible:
                    continue
                if not evs:
                    try:
                        r = e.ev(p.value)
                    except Unknown:
                        r = None
                    rep.check(r == 0, "status", w, "a %sx%s problem is "
                              "reported as solved without solving it"
                              % (m, n))
                    rep.check(r != 0 or m < n, "status", w + " refused",
                              "a %sx%s problem is refused without trying "
                              "to solve it" % (m, n))
                    continue
                name = evs[-1][1]
                if name == "cgels_" and m < n:
                    rep.bad("status", w, "an underdetermined %sx%s problem "
                            "is not rejected by the QR solver" % (m, n))
                if name == "cposv_" and m < n:
                    continue
                last_v = None
                for k, x in enumerate(evs):
                    wh = x[5].where(x[4])
                    r = check_call(rep, fn, p, x, e, dims, wh)
                    if r is None:
                        continue
                    V, A, val = r
                    for q, i in (("a", 0), ("b", 1)):
                        a = A[q]
                        if name != "cposv_":
                            rep.check(a in (("sym", P[i]), ("ptr", (
                                "deref", ("sym", P[i])), 0)), "interface",
                                wh + " " + q, "%s gets %s as %s"
                                % (name, show(a)[:60], q.upper()))
                    if "lwork" not in V:
                        continue
                    lw = val("lwork")
                    if lw is None:
                        rep.undecided("workspace", wh, show(V["lwork"])[:80])
                        continue
                    if lw == -1:
                        rep.check(k < len(evs) - 1, "workspace", wh,
                                  "the last call of %s is only a workspace "
                                  "query" % name)
                        continue
                    last_v = lw
                    try:
                        have = e.csize(V["work"])
                    except (Unknown, IndexError):
                        rep.undecided("workspace", wh,
                                      show(V["work"])[:80])
                        continue
                    rep.check(have >= lw, "workspace", wh, "%s is told that "
                              "the workspace has %s elements but it has %s"
                              % (name, lw, have))
                    queried = any(e2[1] == name and
                                  e.ev(dict(zip(ROLES[name], e2[3]))
                                       ["lwork"]) == -1
                                  for e2 in evs[:k])
                    ok = lw >= QUERY if queried else work0 > 0 and \
                        lw == work0
                    rep.check(ok, "workspace", wh, "the workspace of %s has "
                              "%s elements, which the routine did not ask "
                              "for" % (name, lw))
                # status
                R = ROLES[name]
                il = evs[-1][2][R.index("info")]
                now = p.state.env.get(il[1]) if isinstance(il, tuple) and \
                    il[0] == "ptr" else None
                if now is None:
                    rep.undecided("status", w, "info not followed")
                    continue
                for info in (0, 2, -3):
                    e2 = LEv(it, {now: info}, roots)
                    e2.work0 = work0
                    bad = None
                    try:
                        ok = all(e2.holds(f, v) for f, v in
                                 p.state.facts.items()
                                 if "info" in show(f) or now in (f, f[1]))
                        if not ok:
                            continue
                        bad = bool(e2.ev(p.value)) != (info == 0)
                    except Unknown as u:
                        rep.undecided("status", w, str(u)[:80])
                        continue
                    rep.check(not bad, "status", w, "the solver returns %s "
                              "when %s reports %s" % (info != 0, name, info))


def info_of(p, x):
    """the status that a routine reported, as a term"""
    if "info" not in ROLES[x[1]] or \
            len(x[2]) <= ROLES[x[1]].index("info"):
        return None
    il = x[2][ROLES[x[1]].index("info")]
    if isinstance(il, tuple) and il[0] == "ptr":
        return p.state.env.get(il[1])
    return None


def check_normal(rep, prog, fn, fields, it, paths):
    P = [p["n"] for p in fn["params"]]
    lap = [s for s in it.sites if s["kind"] == "call" and
           s["what"] == "cposv_"]
    if not lap:
        return
    infos = {t for p in paths for x in p.state.events if x[0] == "lapack"
             for t in [info_of(p, x)] if t is not None}
    for dims in list(all_dims(prog, fn, 12)) + [(2, 3, 1)]:
        M, N, R = dims
        roots = {"this." + fields[k]: v for k, v in
                 zip(("m", "n", "nrhs"), dims)}
        roots.update({P[0]: PathV("A"), P[1]: PathV("B")})
        # any other member array is itself
        for s in it.sites:
            for v in (s["what"], s["loc"]) + (s["val"] if isinstance(
                    s["val"], tuple) else ()):
                for t in subs(v):
                    if isinstance(t, tuple) and len(t) == 3 and \
                            t[0] == "f" and t[1] == ("this",) and \
                            "this." + t[2] not in roots:
                        roots["this." + t[2]] = PathV("this." + t[2])
        mem = Memory()
        # the routine reports success
        solved_info = {t: 0 for t in infos}

        def make():
            return LEv(it, dict(solved_info), roots, sizer=mem.value)
        run, bad = replay(it, make)
        if bad:
            rep.undecided("equations", bad[0][0]["fn"].where(
                bad[0][0]["node"]), str(bad[0][1])[:100])
            return
        solved = None
        site = fn["qn"]
        for s, e in run:
            w = s["fn"].where(s["node"])
            mem.enter(e)
            if s["kind"] == "call":
                mem.now()
            try:
                if s["kind"] == "store":
                    d = e.loc(s["what"])
                    if isinstance(d, It):
                        d = d.arr.at(d.pos)
                    if isinstance(d, PathV):
                        mem.put(d, e.ev(s["val"]), w)
                elif s["what"] == "cposv_":
                    solved = solve(rep, s, e, mem, dims, w)
                elif s["what"] in ("copy_n", "copy"):
                    x, c, y = (e.ev(v) for v in s["val"][:3])
                    if isinstance(x, PathV):
                        x = It(x, 0)
                    if isinstance(y, PathV):
                        y = It(y, 0)
                    if s["what"] == "copy":
                        c = c.pos - x.pos
                    for i in range(c):
                        mem.put(y.arr.at(y.pos + i),
                                e.index(x.arr, x.pos + i), w)
                elif s["what"] in ("fill", "fill_n"):
                    raise Unknown(s["what"])
            except (Unknown, IndexError, AttributeError, TypeError) as u:
                rep.undecided("equations", w, "%s" % str(u)[:100])
                return
        if not solved:
            continue
        got = {}
        for (root, path), v in mem.m.items():
            if root == "B":
                got[path] = v
        layouts = []
        for ld in (N, max(M, N)):
            layouts.append({(i + p * ld,): PathV("X", (i, p))
                            for i in range(N) for p in range(R)})
        rep.check(got in layouts, "solution", site + " %sx%s %s" % dims,
                  "for a %sx%s matrix and %s right-hand sides the elements "
                  "of the result are %s" % (M, N, R, str(got)[:150]))


def subs(t):
    from dp3a.terms import subterms
    return subterms(t) if isinstance(t, tuple) else ()


def solve(rep, s, e, mem, dims, w):
    """state of the arrays at the call of cposv_"""
    M, N, R = dims
    a = dict(zip(ROLES["cposv_"], s["val"]))
    X, Y = e.ev(a["a"]), e.ev(a["b"])
    X = X.arr if isinstance(X, It) else X
    Y = Y.arr if isinstance(Y, It) else Y
    try:
        uplo = e.ev(s["vals"][0])
    except (Unknown, KeyError):
        uplo = None
    if uplo not in (85, 117, 76, 108):
        raise Unknown(("uplo", uplo))
    upper = uplo in (85, 117)

    def A(m, n):
        return PathV("A", (m + n * M,))
    bad = None
    for i in range(N):
        for j in range(N):
            if i > j if upper else i < j:
                continue
            want = SP({})
            for m in range(M):
                want = want + A(m, i).conj() * A(m, j)
            got = mem.m.get((X.root, X.path + (i + j * N,)))
            if got is None or SP.of(got) != want:
                bad = bad or ((i, j), got, want)
    rep.check(bad is None, "equations", w + " A", "for a %sx%s matrix, "
              "element %s of the normal matrix is %s instead of %s"
              % ((M, N) + (bad or (0, 0, 0))))
    bad = None
    for i in range(N):
        for p in range(R):
            want = SP({})
            for m in range(M):
                want = want + A(m, i).conj() * PathV("B", (m + p * M,))
            got = mem.m.get((Y.root, Y.path + (i + p * N,)))
            if got is None or SP.of(got) != want:
                bad = bad or ((i, p), got, want)
    rep.check(bad is None, "equations", w + " B", "for a %sx%s matrix and "
              "%s right-hand sides, element %s of the normal right-hand "
              "side is %s instead of %s" % ((M, N, R) + (bad or (0, 0, 0))))
    for arr, size, name in ((X, N * N, "normal matrix"),
                            (Y, N * R, "normal right-hand side")):
        out = [k for k in mem.m if k[0] == arr.root and
               k[1][:-1] == arr.path and not 0 <= k[1][-1] < size]
        rep.check(not out, "bounds", w + " " + name, "for a %sx%s matrix and "
                  "%s right-hand sides, element %s of the %s of %s elements "
                  "is written" % (M, N, R, out and out[0][1][-1], name, size))
    for i in range(N):
        for p in range(R):
            mem.put(Y.at(i + p * N), PathV("X", (i, p)), w)
    return True


def check_make(rep, prog, classes):
    """the factory makes the class whose routine the name denotes"""
    enum = None
    for qn, en in prog.enums.items():
        if last(qn) == "LLSSolverType":
            enum = {v["n"]: int(v["v"]) for v in en["vals"]}
    want = {"QR": "cgels_", "SVD": "cgelss_", "NORMAL_EQUATIONS": "cposv_"}
    for fn in prog.by_qn.get(NS + "LLSSolver::Make", []):
        rep.fn(fn)
        P = [p["n"] for p in fn["params"]]
        it = NestScanner(prog)
        for p in it.run(fn):
            if p.outcome != "return":
                continue
            mk = [x for x in p.state.events if x[0] == "call" and
                  last(x[1]) in ("make_unique", "make_shared")]
            w = fn.where(p.node)
            for en, val in sorted((enum or {}).items()):
                if en not in want:
                    continue
                e = Ev(it, {}, {P[0]: val})
                try:
                    if not all(e.holds(f, v) for f, v in
                               p.state.facts.items()):
                        continue
                except Unknown:
                    rep.undecided("factory", w, en)
                    continue
                if not mk:
                    null = "null" in show(p.value)
                    if null:
                        rep.bad("factory", w, "no solver is made for %s"
                                % en)
                    else:
                        rep.undecided("factory", w, en)
                    continue
                fid = mk[-1][3].get("fid", "")
                cls = [c for c in classes if "make_unique<" + c in fid or
                       "make_shared<" + c in fid]
                if len(cls) != 1:
                    rep.undecided("factory", w, fid[:80])
                    continue
                rep.check(classes[cls[0]] == want[en], "factory",
                          w + " " + en, "%s makes a %s, which uses %s"
                          % (en, last(cls[0]), classes[cls[0]]))
                a = [x for x in mk[-1][2]][:3]
                rep.check(a == [("sym", q) for q in P[1:4]], "factory",
                          w + " dims", "the dimensions %s are passed on as "
                          "%s" % (P[1:4], [show(x) for x in a]))


def check_derived(rep, prog, classes, fields):
    for c in sorted(classes):
        for fn in prog.by_qn.get(c + "::" + last(c), []):
            P = [p["n"] for p in fn["params"]]
            if len(P) != 3:
                continue
            rep.fn(fn)
            for p in NestScanner(prog).run(fn):
                for i, k in enumerate(("m", "n", "nrhs")):
                    v = p.state.env.get(("f", ("this",), fields[k]))
                    if v is None:
                        rep.undecided("constructor", fn["qn"], k)
                        continue
                    rep.check(v == ("sym", P[i]), "constructor", fn["qn"] +
                              " " + k, "%s is set to %s" % (fields[k],
                                                            show(v)[:60]))
                    if classes[c] == "cposv_":
                        sizes(rep, fn, p, fields, P)


def sizes(rep, fn, p, fields, P):
    """the product arrays have room for n*n and n*nrhs elements"""
    vecs = [v for l, v in sorted(p.state.env.items(), key=str)
            if isinstance(l, tuple) and l[0] == "f" and l[1] == ("this",)
            and isinstance(v, tuple) and v[0] == "call" and
            last(v[1]) == "vector"]
    if len(vecs) != 2:
        return
    for n, r in ((3, 1), (3, 4), (1, 2)):
        e = LEv(None, {}, dict(zip(P, (5, n, r))))
        try:
            got = sorted(e.csize(v) for v in vecs)
        except Unknown:
            return
        rep.check(all(a >= b for a, b in zip(got, sorted((n * n, n * r)))),
                  "buffer", "%s %s %s" % (fn["qn"], n, r), "for %s unknowns "
                  "and %s right-hand sides the arrays have %s elements"
                  % (n, r, got))


def check(rep, tier):
    prog = facts.extract(["ddecal/linear_solvers/LLSSolver.cc"])
    fields = ctor_fields(rep, prog)
    if set(fields) != {"m", "n", "nrhs"}:
        rep.undecided("fields", NS + "LLSSolver", str(fields))
        return
    classes = {}
    for qn, fns in sorted(prog.by_qn.items()):
        if not qn.startswith(NS) or last(qn) != "Solve":
            continue
        for fn in fns:
            if len(fn["params"]) != 2 or not fn.get("body"):
                continue
            it = Lap(prog)
            ps = it.run(fn)
            if not any(x[0] == "lapack" for p in ps
                       for x in p.state.events):
                continue
            rep.fn(fn)
            classes[qn.rsplit("::", 1)[0]] = [
                x for p in ps for x in p.state.events
                if x[0] == "lapack"][-1][1]
            check_paths(rep, prog, fn, fields, it, ps)
            check_normal(rep, prog, fn, fields, it, ps)
    narrow.check(rep, [f for q, fs in sorted(prog.by_qn.items())
                       if q.rsplit('::', 1)[0] in set(classes) |
                       {NS + 'LLSSolver'} for f in fs], 'least squares')
    check_make(rep, prog, classes)
    check_derived(rep, prog, classes, fields)
    for fn in prog.by_qn.get(NS + "LLSSolver::Solve", []):
        if len(fn["params"]) != 3 or not fn.get("body"):
            continue
        P = [p["n"] for p in fn["params"]]
        for p in NestScanner(prog).run(fn):
            v = p.value
            if isinstance(v, tuple) and v[0] == "call" and \
                    last(v[1]) == "Solve":
                a = [x for x in v[2:] if x in [("sym", q) for q in P]]
                rep.check(a == [("sym", q) for q in P[:2]], "forward",
                          fn["qn"], "the problem is passed on as %s"
                          % show(v)[:100])
            else:
                rep.undecided("forward", fn["qn"], show(v)[:80])
