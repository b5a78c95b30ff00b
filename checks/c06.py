"""C06: names of modes and algorithms select what they say, and a printed
name can be read back."""
import re

from dp3a import facts
from dp3a.absint import Interp, Budget, last
from dp3a.terms import show, subterms, is_num, contains
from dp3a.scan import consistent

TECHNIQUE = (
    "Abstract interpretation of the name parsers and printers: the complete "
    "name -> enumerator and enumerator -> name relations are read off the "
    "path conditions and compared (printed names must parse back to the same "
    "enumerator, every enumerator has a name, unknown names are rejected, "
    "documented names and aliases select the enumerator they denote), plus "
    "agreement between the derived tables of an RCU mode.")
MINIMUM = 60
PURE = True

ALIASES = {  # documented / supported older spellings
    "complexgain": "diagonal", "phaseonly": "diagonalphase",
    "amplitudeonly": "diagonalamplitude", "scalarcomplexgain": "scalar",
    "scalarcomplex": "scalar", "tecandphase": "tec+phase",
}
DOCUMENTED = {
    "CalType": ["scalar", "scalarphase", "scalaramplitude", "diagonal",
                "diagonalphase", "diagonalamplitude", "fulljones", "tec",
                "tec+delay", "tec+phase", "tec+phase+delay", "rotation",
                "rotation+diagonal", "faradayrotation", "leakage",
                "leakageamplitude"] + list(ALIASES),
    "SolverAlgorithm": ["directionsolve", "directioniterative", "lbfgs",
                        "hybrid"],
    "SolverDataUse": ["full", "dual", "single"],
    "LLSSolverType": ["qr", "svd", "normalequations"],
}


def norm(s):
    s = re.sub(r"^k(?=[A-Z])", "", s)
    s = re.sub(r"And(?=[A-Z])", "", s)
    s = re.sub(r"and", "", s.lower())
    return re.sub(r"[^a-z0-9]", "", s)


class T(Interp):
    max_paths = 4000

    def lossy(self, v, t, l, h, st):
        return v

    def may_inline(self, fn, fr):
        return last(fn["qn"]) not in ("getString", "getStringVector",
                                      "getBool", "operator<<")


def enum_of(prog, suffix):
    for qn, e in prog.enums.items():
        if qn.endswith(suffix):
            return {v["n"]: int(v["v"]) for v in e["vals"]}
    return None


def text(v):
    """the literal a term denotes"""
    for t in subterms(v):
        if isinstance(t, tuple) and t[0] == "str":
            return t[1]
    return None


def literal_facts(p):
    """(literal, holds, compared after folding) of the path's comparisons
    with names"""
    for f, val in p.facts.items():
        if not isinstance(f, tuple) or f[0] not in ("eq", "ne"):
            continue
        for a, b in ((f[1], f[2]), (f[2], f[1])):
            if isinstance(a, tuple) and a[0] == "str":
                yield (a[1], bool(val) == (f[0] == "eq"), contains(
                    b, lambda t: isinstance(t, tuple) and
                    t[0] == "call" and "lower" in last(t[1])))


def names(ps):
    """([(name, folded, path)], [paths that a name that is compared with
    nothing takes])"""
    lits = {}
    facts_ = []
    for p in ps:
        fs = list(literal_facts(p))
        facts_.append(fs)
        for s, _, folded in fs:
            lits[s] = lits.get(s, True) and folded
    acc, rej = [], []
    for p, fs in zip(ps, facts_):
        for n in lits:
            if all((s == n) == holds for s, holds, _ in fs):
                acc.append((n, lits[n], p))
        if not any(holds for _, holds, _ in fs):
            rej.append(p)
    return acc, rej


def parse_table(rep, fn, prog, enum, value=lambda p: p.value):
    """name -> enumerator value; checks the shape of the relation"""
    it = T(prog)
    rep.fn(fn)
    table = {}
    fold = True
    acc, rej = names(it.run(fn))
    for n, folded, p in acc:
        if p.outcome == "throw":
            continue
        fold = fold and folded
        v = value(p)
        if not is_num(v):
            rep.undecided("parse", fn.where(p.node), "value of %r" % n)
            continue
        table.setdefault(n, set()).add(int(v))
    for n, vs in table.items():
        rep.check(len(vs) == 1, "parse-function", fn.where(),
                  "%r selects several values" % n)
    return table, fold, rej


def print_table(rep, fn, prog, enum, par=None):
    it = T(prog)
    rep.fn(fn)
    res = {}
    ps = it.run(fn)
    for en, val in enum.items():
        for p in ps:
            if p.outcome == "throw" or not consistent(
                    p.facts, {par or ("sym", fn["params"][0]["n"]): val}):
                continue
            s = text(p.value)
            if contains(p.value, lambda x: isinstance(x, tuple)
                        and x[:1] in (("init",), ("deref",))):
                s = None    # read from a table that is not followed
            res.setdefault(en, set()).add(s)
    return res


def meaning(rep, fn, table, enum, kind):
    """names must select the enumerator they spell"""
    byval = {v: k for k, v in enum.items()}
    spelled = {norm(k): v for k, v in enum.items()}
    for n, vs in table.items():
        v = list(vs)[0]
        key = norm(ALIASES.get(n, n))
        if key in spelled:
            rep.check(spelled[key] == v, "meaning", "%s %r" % (fn.where(), n),
                      "%r selects %s" % (n, byval.get(v, v)))
    for n in DOCUMENTED.get(kind, []):
        rep.check(n in table, "documented", fn.where(),
                  "the documented name %r is not accepted" % n)


def roundtrip(rep, pf, tf, table, fold, printed, enum, kind,
              partial=()):
    for en, val in enum.items():
        w = "%s::%s" % (kind, en)
        if tf is not None:
            ss = printed.get(en, set())
            if None in ss:
                rep.undecided("printed", w, "the printed name is computed")
                continue
            if not rep.check(len(ss) == 1 and None not in ss, "printed", w,
                             "has no (unique) printed name in %s" %
                             tf.where()):
                continue
            s = list(ss)[0]
            k = s.lower() if fold else s
            rep.check(table.get(k) == {val}, "roundtrip", w,
                      "is printed as %r, which reads back as %s (%s)" % (
                          s, sorted(table.get(k, ["nothing"])), pf.where()))
        rep.check(any(vs == {val} for vs in table.values()), "reachable", w,
                  "no name selects it in %s" % pf.where())


def rejects(rep, fn, rej):
    for p in rej:
        rep.check(p.outcome == "throw", "unknown-name", fn.where(p.node),
                  "an unknown name is accepted as %s" % show(p.value)[:60])


def pair(rep, prog, parse, printer, enum_suffix, kind, strict=True):
    enum = enum_of(prog, enum_suffix)
    pf = prog.fn(parse)
    if enum is None or not pf:
        rep.undecided("names", kind, "parser or enumeration not found")
        return
    pf = pf[0]
    table, fold, rej = parse_table(rep, pf, prog, enum)
    if len(table) < 2 and not any(
            p.outcome != "throw" and is_num(p.value) and
            any(literal_facts(p)) for p in rej) or any(
            p.outcome != "throw" and not is_num(p.value) for p in rej):
        rep.undecided("names", pf.where(), "not a chain of name comparisons")
        return
    if kind != "CalType":
        rep.check(fold, "case", pf.where(),
                  "names are compared without folding the letter case")
    tf = None
    printed = {}
    if printer:
        for f in prog.fn(printer):
            if enum_suffix.split("::")[-1] in str(f.get("params", [{}])[0]) \
                    or True:
                ptype = f["params"] and f.ty(f["params"][0]["t"])["s"]
                if ptype and enum_suffix.split("::")[-1] in ptype:
                    tf = f
        if tf:
            printed = print_table(rep, tf, prog, enum)
    roundtrip(rep, pf, tf, table, fold, printed, enum, kind)
    meaning(rep, pf, table, enum, kind)
    if strict:
        rejects(rep, pf, rej)


def lls_factory(rep, prog):
    enum = enum_of(prog, "LLSSolverType")
    want = {"QR": "QRSolver", "SVD": "SVDSolver",
            "NORMAL_EQUATIONS": "NormalEquationsSolver"}
    for fn in prog.fn("dp3::ddecal::LLSSolver::Make"):
        rep.fn(fn)
        it = T(prog)
        ps = it.run(fn)
        names_ = [p["n"] for p in fn["params"]]
        for en, val in enum.items():
            hit = [p for p in ps if p.outcome == "return" and consistent(
                p.facts, {("sym", names_[0]): val})]
            for p in hit:
                ty = made(p, fn)
                w = "%s for %s" % (fn.where(p.node), en)
                if ty is None:
                    rep.check(show(p.value).find("null") < 0, "factory", w,
                              "no solver is made")
                    continue
                if en in want:
                    rep.check(ty == want[en], "factory", w,
                              "makes a %s" % ty)
                args = args_of(p)
                if args is not None:
                    rep.check(list(args) == [("sym", x) for x in names_[1:]],
                              "factory-args", w, "dimensions are passed as "
                              "%s" % [show(a) for a in args])


def made(p, fn):
    for e in p.events:
        if e[0] == "call":
            n = e[3]
            ty = fn.ty(n["t"])["s"] if "t" in n else ""
            m = re.search(r"(\w+Solver)\b", ty.replace("LLSSolver", ""))
            if m:
                return m.group(1)
    return None


def args_of(p):
    for e in p.events:
        if e[0] == "call" and last(e[1]) == "make_unique":
            return e[2]
    return None


def node_type(rep, prog):
    enum = enum_of(prog, "NodeDesc::NodeType")
    pf = [f for f in prog.fn("dp3::common::NodeDesc::NodeDesc")
          if len(f["params"]) == 1 and "ParameterSet" in
          f.ty(f["params"][0]["t"])["s"]]
    tf = prog.fn("dp3::common::NodeDesc::write")
    if not enum or not pf or not tf:
        rep.undecided("names", "NodeDesc", "not found")
        return
    pf, tf = pf[0], tf[0]
    loc = ("f", ("this",), "itsType")
    it = T(prog)
    rep.fn(pf)
    table, other = {}, set()
    acc, rej = names([p for p in it.run(pf) if p.outcome != "throw"])
    for n, p in [(n, p) for n, _, p in acc] + [(None, p) for p in rej]:
        v = p.state.env.get(loc)
        if not is_num(v):
            rep.undecided("names", pf.where(), "node type not constant")
            return
        if n is not None:
            table.setdefault(n, set()).add(int(v))
        else:
            other.add(int(v))
    it = T(prog)
    rep.fn(tf)
    ps = it.run(tf)
    sym = ("init", loc)
    for en, val in enum.items():
        w = "NodeType::%s" % en
        outs = set()
        for p in ps:
            if not consistent(p.facts, {sym: val}):
                continue
            for i, e in enumerate(p.events):
                if e[0] == "call" and last(e[1]) == "operator<<":
                    for a in e[2][1:]:
                        s = text(a)
                        if s in ("NodeType = ",) or (s or "").startswith(
                                "NodeType"):
                            # the value that follows
                            for e2 in p.events[i + 1:]:
                                if e2[0] == "call" and last(e2[1]) == \
                                        "operator<<" and text(e2[2][1]):
                                    outs.add(text(e2[2][1]))
                                    break
        if len(outs) != 1:
            rep.undecided("roundtrip", w, "printed name %s" % sorted(outs))
            continue
        s = list(outs)[0]
        got = table.get(s.lower(), other)
        rep.check(got == {val}, "roundtrip", w, "is written as %r, which "
                  "reads back as %s" % (s, sorted(got)))


def rcu(rep, prog):
    C = "dp3::base::RcuMode::"
    enum = enum_of(prog, "RcuMode::Mode")
    if enum is None:
        rep.undecided("rcu", "RcuMode", "not found")
        return
    sym = ("init", ("f", ("this",), "mode"))

    def tab(name):
        r = {}
        for fn in prog.fn(C + name):
            rep.fn(fn)
            it = T(prog)
            for p in it.run(fn):
                for en, val in enum.items():
                    if consistent(p.facts, {sym: val}):
                        r[en] = (None if p.outcome == "throw" else p.value,
                                 fn.where(p.node))
        return r
    name, ant = tab("ToString"), tab("AntennaType")
    bw, cf, off = tab("Bandwidth"), tab("CentralFrequency"), \
        tab("FrequencyOffset")
    for en in enum:
        if en == "Unused" or en not in name:
            continue
        w = "RcuMode::%s" % en
        s = text(name[en][0]) or ""
        m = re.match(r"(LBA|HBA)\w* (\d+)-(\d+) MHz", s)
        e = re.match(r"(LBA|HBA)\w*?(\d+)_(\d+)$", en)
        if not m or not e:
            rep.undecided("rcu", w, "name %r" % s)
            continue
        rep.check(m.groups() == e.groups(), "rcu-name", w,
                  "is printed as %r" % s)
        at = text(ant[en][0]) if en in ant else None
        rep.check(at == e.group(1), "rcu-antenna", w,
                  "antenna type %r" % at)
        lo, hi = int(e.group(2)), int(e.group(3))

        def num(t):
            v = t.get(en, (None,))[0]
            try:
                return float(v[1]) if isinstance(v, tuple) else float(v)
            except (TypeError, ValueError):
                return None
        b, c, o = num(bw), num(cf), num(off)
        if None in (b, c, o):
            if any(en in t and t[en][0] is None for t in (bw, cf, off)):
                rep.bad("rcu-total", w, "has no bandwidth, central "
                        "frequency or offset")
            else:
                rep.undecided("rcu", w, "frequencies %s %s %s" % (b, c, o))
            continue
        clock = b * 1024 / 1e6          # MHz
        rep.check(round(clock, 6) in (160, 200), "rcu-clock", w,
                  "channel width %g Hz is no 1/1024 of a LOFAR clock" % b)
        zone = o / 1e6 / (clock / 2)
        rep.check(abs(zone - round(zone)) < 1e-9, "rcu-zone", w,
                  "offset %g Hz is no multiple of half the %g MHz clock"
                  % (o, clock))
        # the band lies in its Nyquist zone, the centre inside the band
        mid = (lo + hi) / 2
        rep.check(o / 1e6 <= mid <= o / 1e6 + clock / 2, "rcu-band", w,
                  "band %d-%d MHz is outside the zone that starts at %g Hz"
                  % (lo, hi, o))
        rep.check(c == mid, "rcu-centre", w,
                  "central frequency %g is not the centre of %d-%d MHz"
                  % (c, lo, hi))
    for fn in prog.fn(C + "operator==") + prog.fn(C + "operator!="):
        if len(fn["params"]) != 1:
            continue
        rep.fn(fn)
        par = ("sym", fn["params"][0]["n"])
        ps = T(prog).run(fn)
        same = last(fn["qn"]) == "operator=="
        for a in enum.values():
            for b in enum.values():
                for p in ps:
                    v = p.value
                    if not consistent(p.facts, {sym: a, par: b}):
                        continue
                    if isinstance(v, tuple) and v[0] in ("eq", "ne") and \
                            {v[1], v[2]} == {sym, par}:
                        v = int((a == b) == (v[0] == "eq"))
                    elif isinstance(v, tuple) and v[0] == "not" and \
                            isinstance(v[1], tuple) and \
                            v[1][0] in ("eq", "eq0"):
                        v = int(a != b)
                    elif isinstance(v, tuple) and v[0] == "eq0":
                        v = int(a == b)
                    if not is_num(v):
                        continue
                    rep.check(bool(v) == ((a == b) == same), "rcu-equal",
                              fn.where(p.node), "modes %d and %d compare "
                              "as %s" % (a, b, bool(v)))
    for fn in prog.fn(C + "FromNumber"):
        rep.fn(fn)
        it = T(prog)
        ps = it.run(fn)
        par = ("sym", fn["params"][0]["n"])
        keys = [par, ("deref", par)]
        for p in ps:
            for f in p.facts:
                for t in subterms(f):
                    if isinstance(t, tuple) and fn["params"][0]["n"] in \
                            str(t):
                        keys.append(t)
        lo, hi = min(enum.values()), max(enum.values())
        for v in range(lo - 2, hi + 3):
            for p in ps:
                if consistent(p.facts, {k: v for k in keys}):
                    ok = (p.outcome == "return") == (lo <= v <= hi)
                    rep.check(ok, "rcu-number", "%s number %d" % (
                        fn.where(p.node), v), "wrongly %s" % p.outcome)


def check(rep, tier):
    prog = facts.extract(["base/CalType.cc", "base/RcuMode.h",
                          "common/NodeDesc.cc", "ddecal/Settings.cc",
                          "ddecal/linear_solvers/LLSSolver.cc"])
    jobs = [
        lambda: pair(rep, prog, "dp3::base::StringToCalType",
                     "dp3::base::ToString", "::CalType", "CalType"),
        lambda: pair(rep, prog, "dp3::ddecal::LLSSolver::ParseType", None,
                     "::LLSSolverType", "LLSSolverType"),
        lambda: lls_factory(rep, prog),
        lambda: node_type(rep, prog),
        lambda: rcu(rep, prog),
    ]
    pa = [q for q in prog.by_qn if q.endswith("::ParseSolverAlgorithm")]
    pd = [q for q in prog.by_qn if q.endswith("::ParseSolverDataUse")]
    for q in pa:
        jobs.append(lambda q=q: pair(rep, prog, q, "dp3::ddecal::ToString",
                                     "::SolverAlgorithm", "SolverAlgorithm"))
    for q in pd:
        jobs.append(lambda q=q: pair(rep, prog, q, None, "::SolverDataUse",
                                     "SolverDataUse"))
    for j in jobs:
        try:
            j()
        except Budget as e:
            rep.undecided("budget", "", str(e))
