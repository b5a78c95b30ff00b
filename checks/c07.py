"""C07: the algebra of required/provided data fields."""
import itertools

from dp3a import facts
from dp3a.absint import Interp, Budget, last
from dp3a.bits import bit, whole, Unknown
from dp3a.terms import show, subterms, is_num

TECHNIQUE = (
    "Abstract interpretation of the field-set operations; the resulting bit "
    "terms are evaluated as boolean functions over every combination of one "
    "bit of each operand (the operations are bitwise, so this covers all "
    "sets) and compared with the set-theoretic definition; accessors, "
    "constructor and printing are matched to the enumerators by name.")
MINIMUM = 15
PURE = True
C = "dp3::common::Fields"


def field_of(prog):
    rec = prog.recs[C]
    fs = [f["n"] for f in rec["fields"]
          if "bitset" in rec["_types"][f["t"]]["s"]]
    return fs[0] if len(fs) == 1 else None


def this_bits(p, F):
    v = p.state.env.get(("f", ("this",), F))
    return v if v is not None else ("init", ("f", ("this",), F))


def check_op(rep, fn, p, term, inputs, want, rule, what):
    """term must equal want(bits) for every combination of input bits"""
    w = fn.where(p.node)
    bad = []
    try:
        for vals in itertools.product((0, 1), repeat=len(inputs)):
            env = {}
            for ts, v in zip(inputs, vals):
                for t in ts:
                    env[t] = v
            if bit(term, env) != want(*vals):
                bad.append(vals)
    except Unknown as e:
        rep.undecided(rule, w, "bit operation %s" % show(e.args[0])[:80])
        return
    for _ in range(2 ** len(inputs) - len(bad)):
        rep.ok(rule, w)
    if bad:
        rep.bad(rule, w, "%s is wrong for operand bits %s" % (what, bad))


def check_fn(rep, fn, paths, value, inputs, want, wantbit, rule, what):
    """the result of the function for all sets, path by path"""
    n = 4
    w = fn.where()
    bad = None
    paths = [p for p in paths if p.outcome != "throw"]
    try:
        for vals in itertools.product(range(1 << n), repeat=len(inputs)):
            env = {t: v for ts, v in zip(inputs, vals) for t in ts}
            hit = [p for p in paths if all(
                bool(whole(f, env, n)) == bool(v)
                for f, v in p.facts.items())]
            got = {whole(value(p), env, n) for p in hit}
            if got != {want(*vals) & ((1 << n) - 1)}:
                bad = bad or (vals, sorted(got))
    except Unknown as e:
        if len(paths) == 1:
            check_op(rep, fn, paths[0], value(paths[0]), inputs, wantbit,
                     rule, what)
        else:
            rep.undecided(rule, w, "bit operation %s"
                          % show(e.args[0])[:80])
        return
    rep.check(bad is None, rule, w, "%s is wrong: the sets with bits %s "
              "give %s" % ((what,) + ([bin(x) for x in bad[0]],
                                      [bin(x) for x in bad[1]])
                           if bad else (what, "", "")))
    for _ in range(2 ** len(inputs) - 1):
        rep.ok(rule, w)


def result(p, F):
    """the bits of a returned set"""
    v = p.value
    if isinstance(v, tuple) and v[0] == "rec":
        d = dict(v[2])
        return d.get(F, ("fld", v[1], F))
    if isinstance(v, tuple) and v[0] == "sym":
        return ("fld", v, F)
    return v


def atoms_of(name, F):
    return [("fld", ("sym", name), F), ("init", ("f", ("g", "param:" + name),
                                                 F))]


def index_of(v):
    """the constant index a bit test reads"""
    for t in subterms(v):
        if isinstance(t, tuple):
            if t[0] in ("el", "elem") and is_num(t[2]):
                return t[2]
            if t[0] == "call" and last(t[1]) == "test" and is_num(t[3]):
                return t[3]
    return None


def check(rep, tier):
    prog = facts.extract(["common/Fields.cc"])
    F = field_of(prog)
    enum = next((e for q, e in prog.enums.items()
                 if q.endswith("Fields::Single")), None)
    if F is None or enum is None:
        rep.undecided("fields", C, "not a bitset over an enumeration")
        return
    enum = {v["n"]: int(v["v"]) for v in enum["vals"]}
    names = {k[1:]: v for k, v in enum.items() if k != "kCount"}
    rep.check(sorted(names.values()) == list(range(len(names))) and
              enum.get("kCount", len(names)) == len(names), "distinct",
              "Fields::Single", "fields do not have distinct bits")
    me = [("init", ("f", ("this",), F))]

    def runs(qn, npar=None):
        for fn in prog.fn(qn):
            if not fn.get("body") and not fn.get("ctor"):
                continue
            if npar is not None and len(fn["params"]) != npar:
                continue
            rep.fn(fn)
            it = Interp(prog)
            try:
                yield fn, [p for p in it.run(fn) if p.outcome != "throw"]
            except Budget as e:
                rep.undecided("fields", fn.where(), str(e))

    for nm, idx in names.items():
        found = False
        for fn, ps in runs(C + "::" + nm):
            found = True
            for p in ps:
                pol = True
                got = index_of(p.value)
                if isinstance(p.value, (bool, int)):
                    for f, val in p.facts.items():
                        if index_of(f) is not None:
                            got = index_of(f)
                            pol = (bool(p.value) == (not val))
                neg = isinstance(p.value, tuple) and p.value[0] == "not"
                rep.check(got == idx and pol and not neg, "accessor",
                          fn.where(p.node), "%s() reads bit %s, not %d" %
                          (nm, got, idx))
        if not found:
            rep.undecided("accessor", nm, "no accessor of that name")
    # single-field constructor
    for fn, ps in runs(C + "::Fields", 1):
        pt = fn.ty(fn["params"][0]["t"])["s"]
        if "Single" not in pt:
            continue
        par = ("sym", fn["params"][0]["n"])
        for p in ps:
            v = this_bits(p, F)
            sh = [t for t in subterms(v) if isinstance(t, tuple) and
                  t[0] == "op" and t[1] == "<<"]
            st = [t for t in subterms(v) if isinstance(t, tuple) and
                  t[0] == "upd" and last(t[1]) == "set"]
            if sh:
                rep.check(sh[0][2] == 1 and sh[0][3] == par, "single",
                          fn.where(p.node), "sets " + show(sh[0]))
            elif st:
                rep.check(st[0][3][1] == par, "single", fn.where(p.node),
                          "sets " + show(st[0])[:60])
            else:
                rep.undecided("single", fn.where(p.node), show(v)[:80])
    for fn, ps in runs(C + "::Fields", 0):
        for p in ps:
            check_op(rep, fn, p, this_bits(p, F), [], lambda: 0, "empty",
                     "default construction")
    for fn, ps in runs(C + "::operator|=", 1):
        o = atoms_of(fn["params"][0]["n"], F)
        check_fn(rep, fn, ps, lambda p: this_bits(p, F), [me, o],
                 lambda a, b: a | b, lambda a, b: a | b, "union",
                 "adding fields")
    for fn, ps in runs(C + "::UpdateRequirements", 2):
        r, q = [atoms_of(x["n"], F) for x in fn["params"]]
        check_fn(rep, fn, ps, lambda p: this_bits(p, F), [me, r, q],
                 lambda a, b, c: b | (a & ~c),
                 lambda a, b, c: b | (a & (1 - c)), "requirements",
                 "the requirements in front of a step (needed by it, or "
                 "needed later and not provided by it)")
    for fn in prog.fn("dp3::common::operator|") + prog.fn(C + "::operator|"):
        rep.fn(fn)
        a, b = [atoms_of(x["n"], F) for x in fn["params"]]
        check_fn(rep, fn, Interp(prog).run(fn), lambda p: result(p, F),
                 [a, b], lambda x, y: x | y, lambda x, y: x | y, "union",
                 "combining fields")
    for op, pos in (("operator==", True), ("operator!=", False)):
        for fn in prog.fn("dp3::common::" + op):
            if len(fn["params"]) != 2 or "Fields" not in \
                    fn.ty(fn["params"][0]["t"])["s"]:
                continue
            rep.fn(fn)
            a, b = [atoms_of(x["n"], F) for x in fn["params"]]
            paths = [p for p in Interp(prog).run(fn)
                     if p.outcome == "return"]
            n = 4
            bad, unk = None, None
            for x in range(1 << n):
                for y in range(1 << n):
                    env = {t: x for t in a}
                    env.update({t: y for t in b})
                    try:
                        hit = [p for p in paths if all(
                            bool(whole(f, env, n)) == bool(v)
                            for f, v in p.facts.items())]
                        r = {whole(p.value, env, n) for p in hit}
                    except Unknown as e:
                        unk = unk or show(e.args[0])[:80]
                        continue
                    if r != {int((x == y) == pos)}:
                        bad = bad or (x, y)
            w = fn.where()
            if bad:
                rep.bad("equality", w, "for the sets with bits %s and %s "
                        "the result of %s is wrong"
                        % (bin(bad[0]), bin(bad[1]), op))
            elif unk:
                rep.undecided("equality", w, unk)
            else:
                rep.ok("equality", w)
    # printing names exactly the set fields
    for fn in prog.fn("dp3::common::operator<<"):
        if len(fn["params"]) != 2 or "Fields" not in \
                fn.ty(fn["params"][1]["t"])["s"]:
            continue
        rep.fn(fn)
        seen = set()
        it = Interp(prog)
        try:
            ps = it.run(fn)
        except Budget as e:
            rep.undecided("print", fn.where(), str(e))
            continue
        for p in ps:
            bits = {}
            for f, val in p.facts.items():
                i = index_of(f)
                if i is not None and isinstance(f, tuple) and \
                        f[0] == "eq0":
                    bits[i] = not val
            out = []
            for e in p.events:
                if e[0] == "call":
                    for a in e[2][1:]:
                        for t in subterms(a):
                            if isinstance(t, tuple) and t[0] == "str" and \
                                    any(c.isalpha() for c in t[1]):
                                out.append(t[1])
            out = [w.strip(" ,[]").lower() for w in out]
            if len(bits) != len(names):
                continue
            key = tuple(sorted(bits.items()))
            if key in seen:
                continue
            seen.add(key)
            want = [n.lower() for n, i in sorted(names.items(),
                                                 key=lambda x: x[1])
                    if bits[i]]
            rep.check(sorted(set(out)) == sorted(want), "print",
                      "%s %s" % (fn.where(), key), "prints %s for %s" %
                      (out, want))
        if not seen:
            rep.undecided("print", fn.where(), "no path decides all bits")
