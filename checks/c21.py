"""C21: sky model components are kept and described as they were given."""
from fractions import Fraction

from dp3a import facts
from dp3a.absint import last
from dp3a.nest import NestScanner, Ev, It, Memory, PathV, Unknown, replay
from dp3a.terms import is_num, show, subterms

TECHNIQUE = (
    "Abstract interpretation of the component classes: every constructor's "
    "and setter's effect on the members, as terms over the arguments, must "
    "determine all of them and agree with the accessors; the loops of "
    "ComponentInfo are replayed from their terms for every number of "
    "spectral terms, starting from members with unknown earlier contents.")
MINIMUM = 20
PURE = True
B = "dp3::base::"
SCALAR = ("int", "float", "bool", "enum", "ptr")
CLASSES = ("Direction", "Stokes", "PointSource", "GaussianSource")
# setter (argument) -> accessor
PAIRS = {
    ("PointSource", "setDirection", 0): "direction",
    ("PointSource", "setStokes", 0): "stokes",
    ("PointSource", "setRotationMeasure", 0): "polarizedFraction",
    ("PointSource", "setRotationMeasure", 1): "polarizationAngle",
    ("PointSource", "setRotationMeasure", 2): "rotationMeasure",
    ("GaussianSource", "setPositionAngle", 0): "getPositionAngle",
    ("GaussianSource", "setPositionAngleIsAbsolute", 0):
        "getPositionAngleIsAbsolute",
    ("GaussianSource", "setMajorAxis", 0): "getMajorAxis",
    ("GaussianSource", "setMinorAxis", 0): "getMinorAxis",
}
# constructor argument type -> accessor
CTOR = {"Direction": "direction", "Stokes": "stokes"}
NAMED = {"setSpectralTerms": ("referenceFreq", "hasLogarithmicSI",
                              "spectrum")}
# member of ComponentInfo -> what it is, by accessor and member
DESCR = {
    "ra_": ("direction", "ra"), "dec_": ("direction", "dec"),
    "sI_": ("stokes", "I"), "sQ_": ("stokes", "Q"),
    "sU_": ("stokes", "U"), "sV_": ("stokes", "V"),
    "f0_": ("referenceFreq",),
}
SHAPE = {"g_pa_": ("getPositionAngle",), "g_major_": ("getMajorAxis",),
         "g_minor_": ("getMinorAxis",)}


def strip(t):
    while isinstance(t, tuple) and t and t[0] in ("conv", "trunc", "fcast") \
            or isinstance(t, tuple) and len(t) == 3 and t[0] == "call" and \
            last(t[1]) in ("Stokes", "Direction", "move", "forward") or \
            isinstance(t, tuple) and t and t[0] == "upd" and \
            t[1] == "operator=" and len(t[3]) == 2:
        t = t[3][-1] if t[0] == "upd" else t[-1]
    return t


class Classes:
    def __init__(self, prog):
        self.prog = prog
        self.back = {}      # (class, accessor) -> member

    def methods(self, cls, name):
        return [f for f in self.prog.fn(B + cls + "::" + name)
                if f.get("body") is not None or f.get("inits")]

    def accessor(self, cls, name):
        """member that an accessor without arguments returns"""
        k = (cls, name)
        if k in self.back:
            return self.back[k]
        got = set()
        for fn in self.methods(cls, name):
            if fn["params"]:
                continue
            for p in NestScanner(self.prog).run(fn):
                v = strip(p.value)
                if isinstance(v, tuple) and v[0] == "init":
                    v = v[1]
                if isinstance(v, tuple) and v[0] == "f" and \
                        v[1] == ("this",):
                    got.add(v[2])
                else:
                    got.add(None)
        self.back[k] = list(got)[0] if len(got) == 1 else None
        return self.back[k]

    def stored(self, fn):
        """paths -> {member: value}"""
        for p in NestScanner(self.prog).run(fn):
            if p.outcome == "throw":
                continue
            yield p, {l[2]: strip(v) for l, v in p.state.env.items()
                      if isinstance(l, tuple) and l[0] == "f" and
                      l[1] == ("this",)}


def accessors(rep, C):
    for (cls, s, i), g in sorted(PAIRS.items()):
        m = C.accessor(cls, g)
        fs = C.methods(cls, s)
        for fn in C.methods(cls, g) + fs:
            rep.fn(fn)
        if not fs:
            rep.undecided("kept", cls + "::" + s, "not found")
            continue
        if m is None:
            rep.undecided("kept", cls + "::" + g, "does not return a member")
            continue
        for fn in fs:
            if i >= len(fn["params"]):
                rep.undecided("kept", fn.where(), "parameters")
                continue
            for p, env in C.stored(fn):
                rep.check(env.get(m) == ("sym", fn["params"][i]["n"]),
                          "kept", "%s::%s argument %s" % (cls, s, i + 1),
                          "%s sets %s to %s: %s does not return what was "
                          "given" % (fn.where(), m, show(env.get(m)), g))
    for a in ("getMajorAxis", "getMinorAxis", "getPositionAngle",
              "getPositionAngleIsAbsolute"):
        others = [g for g in ("getMajorAxis", "getMinorAxis",
                              "getPositionAngle",
                              "getPositionAngleIsAbsolute") if g != a]
        m = C.accessor("GaussianSource", a)
        rep.check(m is None or all(C.accessor("GaussianSource", o) != m
                                   for o in others), "own",
                  "GaussianSource::" + a, "two accessors return %s" % m)


def own_effects(rep, C):
    """a setter changes nothing but the members of its arguments"""
    by = {}
    for (cls, s, i), g in PAIRS.items():
        by.setdefault((cls, s), set()).add(C.accessor(cls, g))
    for (cls, s), ms in sorted(by.items()):
        if None in ms:
            continue
        foreign = {C.accessor(c2, g) for (c2, s2, _), g in PAIRS.items()
                   if c2 == cls and s2 != s} - ms
        for fn in C.methods(cls, s):
            for p, env in C.stored(fn):
                hit = sorted(x for x in env if x in foreign)
                rep.check(not hit, "only", "%s::%s" % (cls, s),
                          "%s also changes %s" % (fn.where(),
                                                  ", ".join(hit)))


def constructors(rep, C):
    prog = C.prog
    for cls in CLASSES:
        rec = prog.recs.get(B + cls)
        if rec is None:
            rep.undecided("complete", cls, "not found")
            continue
        ty = rec["_types"]
        need = [f["n"] for f in rec["fields"]
                if ty[f["t"]]["k"] in SCALAR and not f.get("hasinit")]
        for fn in prog.fn(B + cls + "::" + cls):
            if fn.get("implicit") or any(
                    cls in fn.ty(p["t"])["s"] for p in fn["params"]):
                continue
            rep.fn(fn)
            for p, env in C.stored(fn):
                site = "%s(%s)" % (cls, ", ".join(
                    q["n"] for q in fn["params"]))
                if any(e[0] == "call" and last(e[1]) == cls
                       for e in p.events):
                    continue        # delegates
                for m in need:
                    rep.check(m in env, "complete", "%s %s" % (site, m),
                              "%s leaves %s undefined" % (fn.where(), m))
                base = [e for e in p.events if e[0] == "call" and
                        last(e[1]) == "PointSource"]
                for q in fn["params"]:
                    t = fn.ty(q["t"])["s"]
                    want = [a for n, a in CTOR.items() if n in t]
                    if not want:
                        continue
                    if cls == "GaussianSource":
                        got = [a for e in base for a in e[2]]
                        m = C.accessor("PointSource", want[0])
                        got += [env.get(m)]
                        rep.check(("sym", q["n"]) in got, "kept",
                                  "%s %s" % (site, q["n"]), "%s does not "
                                  "pass %s on" % (fn.where(), q["n"]))
                        continue
                    m = C.accessor(cls, want[0])
                    if m:
                        rep.check(env.get(m) == ("sym", q["n"]), "kept",
                                  "%s %s" % (site, q["n"]), "%s sets %s to "
                                  "%s" % (fn.where(), m, show(env.get(m))))


def spectral(rep, C):
    for fn in C.methods("PointSource", "setSpectralTerms"):
        if len(fn["params"]) != 4:
            continue
        rep.fn(fn)
        f, l = (p["n"] for p in fn["params"][:2])
        for p, env in C.stored(fn):
            for a, n in (("referenceFreq", f), ("hasLogarithmicSI", l)):
                m = C.accessor("PointSource", a)
                if m:
                    rep.check(env.get(m) == ("sym", n), "kept",
                              "setSpectralTerms " + n, "%s sets %s to %s" % (
                                  fn.where(), m, show(env.get(m))))


def dispatch(rep, C):
    for cls in ("PointSource", "GaussianSource"):
        fs = C.methods(cls, "accept")
        if not fs:
            rep.bad("dispatch", cls, "has no accept of its own: it would be "
                    "visited as its base class")
        for fn in fs:
            rep.fn(fn)
            for p in NestScanner(C.prog).run(fn):
                v = [e for e in p.events if e[0] == "call" and
                     last(e[1]) == "visit"]
                ok = len(v) == 1 and v[0][2][-1] in (
                    ("init", ("this",)), ("deref", ("this",)), ("this",))
                if ok:
                    n = v[0][3]
                    ok = cls in n.get("fid", cls)
                rep.check(ok, "dispatch", fn.where(),
                          "does not show itself to the visitor as a %s" %
                          cls)


def chain(C, t, comp):
    """accessors and members that lead from the component to a term"""
    names = []
    while True:
        t = strip(t)
        if isinstance(t, tuple) and t[0] == "init":
            t = t[1]
        elif isinstance(t, tuple) and t[0] in ("fld", "f"):
            names.append(t[2])
            t = t[1]
        elif isinstance(t, tuple) and t[0] == "call" and len(t) == 3:
            names.append(last(t[1]))
            t = t[2]
        elif t == ("sym", comp) or t == ("g", "param:" + comp):
            return names[::-1]
        else:
            return None


def described(rep, C):
    enum = None
    for q, d in C.prog.enums.items():
        if q.endswith("ComponentInfo::SourceType"):
            enum = {v["n"]: int(v["v"]) for v in d["vals"]}
    for fn in C.methods("ComponentInfo", "visit"):
        rep.fn(fn)
        cls = "GaussianSource" if "GaussianSource" in fn.ty(
            fn["params"][0]["t"])["s"] else "PointSource"
        comp = fn["params"][0]["n"]
        want = dict(DESCR)
        if cls == "GaussianSource":
            want.update(SHAPE)
        for p, env in C.stored(fn):
            for m, names in sorted(want.items()):
                site = "%s of a %s" % (m, cls)
                if m not in env:
                    rep.bad("described", site, "%s does not set %s" % (
                        fn.where(), m))
                    continue
                got = chain(C, env[m], comp)
                if got is None:
                    rep.undecided("described", site, show(env[m])[:80])
                    continue
                acc = [C.accessor(c, names[0]) for c in ("PointSource",
                                                         "GaussianSource")]
                got = [names[0] if g in acc and g else g for g in got]
                if len(got) == 2 and got[1].startswith("bind"):
                    # structured binding: members in their order
                    order = {"direction": ("ra", "dec"),
                             "stokes": ("I", "Q", "U", "V")}.get(got[0], ())
                    k = got[1][4:]
                    if k.isdigit() and int(k) < len(order):
                        got[1] = order[int(k)]
                rep.check(tuple(got) == names, "described", site,
                          "%s is set to %s" % (m, ".".join(got)))
            k = env.get("source_type_")
            if enum and is_num(k):
                rep.check(int(k) == enum.get(
                    "k" + cls.replace("Source", "")), "type", cls,
                    "%s is described as source type %s" % (cls, k))
            else:
                rep.bad("type", cls, "the type of the source is not set")
        spectrum(rep, C, fn, comp)
    for fn in C.methods("ComponentInfo", "inspect"):
        rep.fn(fn)
        for p in NestScanner(C.prog).run(fn):
            v = [e for e in p.events if e[0] == "call" and
                 last(e[1]) == "accept"]
            if not v and fn["params"][0]["n"] in repr(p.state.facts):
                rep.undecided("inspect", fn.where(), "not visited on a path "
                              "that tests the component")
                continue
            rep.check(len(v) == 1, "inspect", fn.where(), "the component is "
                      "visited %s times" % len(v))


class SEv(Ev):
    """the component has n spectral terms"""

    def __init__(self, it, env, roots, n, sizer=None):
        def size(e, a):
            v = e.ev(a[0])
            if isinstance(v, PathV) and "spectrum_" in str(v.root):
                return 3
            return n

        def sized(what, v):
            if what == "size" and isinstance(v, PathV):
                return 3 if "spectrum_" in str(v.root) else n
            return sizer(what, v) if sizer else None
        super().__init__(it, env, roots, models={"size": size,
                                                 "empty": lambda e, a:
                                                 int(size(e, a) == 0)},
                         sizer=sized)


def spectrum(rep, C, fn, comp):
    """the three terms are those of the component, then zeros, whatever was
    described before"""
    keep = ("assign", "fill", "fill_n", "copy", "copy_n", "resize", "clear",
            "insert", "push_back", "operator=")
    cls = fn.ty(fn["params"][0]["t"])["s"]
    for n in range(0, 6):
        it = NestScanner(C.prog, keep)
        ps = it.run(fn)
        site = "%s with %s spectral terms" % (cls, n)
        roots = {comp: PathV("c"), "this.spectrum_": PathV("spectrum_")}
        ends = set()
        for p in ps:
            e = SEv(it, {}, roots, n)
            try:
                if all(e.holds(f, v) for f, v in p.state.facts.items()
                       if "phi" not in repr(f)):
                    ends.add(p.outcome)
            except (Unknown, AttributeError, TypeError):
                ends.add("?")
        if "?" in ends or not ends:
            rep.undecided("spectrum", site, "which path is taken")
            continue
        if n > 3:
            rep.check(ends == {"throw"}, "spectrum", site, "is not refused, "
                      "although only three terms can be described")
            continue
        if not rep.check("throw" not in ends, "spectrum", site,
                         "is refused"):
            continue
        mem = Memory()

        def make():
            return SEv(it, {}, roots, n, mem.value)
        run, bad = replay(it, make)
        if bad:
            rep.undecided("spectrum", site, str(bad[0][1])[:100])
            continue
        out = {}
        try:
            size = whole(it, run, mem, out, n, roots)
        except (Unknown, AttributeError, TypeError, KeyError) as u:
            rep.undecided("spectrum", site, str(u)[:100])
            continue
        if not rep.check(size == 3, "spectrum-size", site, "the description "
                         "has %s terms instead of 3" % size):
            continue
        over = sorted(k for k in out if k >= 3)
        rep.check(not over, "spectrum-bounds", site, "spectrum_[%s] is "
                  "written" % over)
        for k in range(3):
            w = ("term", k) if k < n else 0
            rep.check(out.get(k) == w, "spectrum", "%s: term %s" % (site, k),
                      "spectrum_[%s] is %s" % (
                          k, "left from the component described before"
                          if k not in out else out[k]))


def whole(it, run, mem, out, n, roots):
    def val(x):
        if isinstance(x, PathV) and len(x.path) and \
                isinstance(x.path[-1], (int, Fraction)):
            return ("term", int(x.path[-1]))
        return int(x) if isinstance(x, (int, Fraction)) else x
    sz = 3
    for s, e in run:
        mem.enter(e)
        if s["kind"] == "store":
            w = s["what"]
            if w[0] not in ("el", "elem"):
                continue
            d = e.loc(w)
            if isinstance(d, It):
                d = d.arr.at(d.pos)
            if isinstance(d, PathV) and d.root == "spectrum_":
                out[int(d.path[-1])] = val(e.ev(s["val"]))
            continue
        v = s["val"]
        nm = s["what"]
        if "pectr" not in repr(v):
            continue            # other members
        if nm == "operator=" and len(v) == 2 and "spectrum_" in repr(v[0]):
            x = v[1]
            new = None
            if isinstance(x, tuple) and x[0] == "agg":
                new = [val(e.ev(y)) for y in x[1]]
            elif isinstance(x, tuple) and x[0] == "call" and \
                    last(x[1]) == "vector" and len(x) > 3 and \
                    is_num(x[2]) and is_num(x[3]):
                new = [int(x[3])] * int(x[2])
            if new is not None:
                out.clear()
                out.update(enumerate(new))
                sz = len(new)
                continue
        a0 = e.loc(v[0]) if isinstance(v[0], tuple) and v[0][0] in (
            "f", "v", "g") else e.ev(v[0])
        mine = isinstance(a0, PathV) and a0.root == "spectrum_" or \
            isinstance(a0, It) and getattr(a0.arr, "root", 0) == "spectrum_"
        # the component is constant: this is the copy made of its terms
        mine = mine or isinstance(a0, PathV) and a0.root == "c" and \
            nm in ("resize", "clear", "push_back", "assign")
        if nm == "assign" and mine and len(v) == 3:
            c = e.ev(v[1])
            x = e.ev(v[2])
            if isinstance(c, It):
                raise Unknown("assign")
            out.clear()
            sz = int(c)
            for k in range(sz):
                out[k] = val(x)
        elif nm == "clear" and mine:
            out.clear()
            sz = 0
        elif nm == "push_back" and mine:
            out[sz] = val(e.ev(v[1]))
            sz += 1
        elif nm == "resize" and mine:
            x = val(e.ev(v[2])) if len(v) > 2 and is_num(v[2]) else 0
            k = int(e.ev(v[1]))
            for j in range(sz, k):
                out[j] = x
            for j in [j for j in out if j >= k]:
                del out[j]
            sz = k
        elif nm == "operator=" and mine:
            x = e.loc(v[1]) if isinstance(v[1], tuple) and \
                v[1][0] in ("f", "v", "g") else e.ev(v[1])
            if not (isinstance(x, PathV) and x.root == "c"):
                raise Unknown(nm)
            out.clear()
            out.update((j, ("term", j)) for j in range(n))
            sz = n
        elif nm == "fill" and mine:
            b, c, x = (e.ev(y) for y in v)
            for k in range(int(b.pos), int(c.pos) if isinstance(
                    c.pos, (int, Fraction)) else 3):
                out[k] = val(x)
        elif nm == "fill_n" and mine:
            b, c, x = (e.ev(y) for y in v)
            for k in range(int(c)):
                out[int(b.pos) + k] = val(x)
        elif nm in ("copy", "copy_n"):
            b, c, d = (e.ev(y) for y in v[:3])
            if isinstance(d, It) and getattr(d.arr, "root",
                                             0) == "spectrum_":
                m = int(c) if nm == "copy_n" else int(c.pos - b.pos)
                for k in range(m):
                    out[int(d.pos) + k] = ("term", int(b.pos) + k)
        elif mine:
            raise Unknown(nm)
    return sz


def check(rep, tier):
    prog = facts.extract(["base/GaussianSource.cc", "base/ComponentInfo.cc",
                          "base/Stokes.cc"])
    lax = facts.extract(["base/PointSource.cc"], lax=True)
    for f in lax.fns.values():
        if f["fid"] not in prog.fns and f["file"].startswith("base/Point"):
            prog.fns[f["fid"]] = f
            prog.by_qn.setdefault(f["qn"], []).append(f)
    C = Classes(prog)
    accessors(rep, C)
    own_effects(rep, C)
    constructors(rep, C)
    spectral(rep, C)
    dispatch(rep, C)
    described(rep, C)
    rep.assume += ["a ComponentInfo may describe several components one "
                   "after another"]
