"""C02: typed parameter access returns the stored value of the asked key,
converted by the rules of the asked type; defaults only for absent keys."""
from dp3a import facts, parset
from dp3a.absint import Budget, last, Interp
from dp3a.parset import ParInterp, CONV, ALLCONV, SCALAR, NS, strip_trunc, \
    calls, BYTYPE
from checks.c05 import left_at_end
from dp3a.terms import show, contains, subterms, monos, is_num, mul

TECHNIQUE = (
    "Path-sensitive abstract interpretation of every typed getter of "
    "ParameterSet/ParameterSetImpl/ParameterValue (helpers inlined, the "
    "strTo* conversions uninterpreted): the returned term must be the "
    "conversion of the getter's own type applied to the value stored under "
    "the asked key, the default term only on paths where the key is absent; "
    "vector getters are checked on the widened loop (one conversion per "
    "element, full range).")
MINIMUM = 120
PURE = True


def conv_of(v):
    """(name, argument) if v is exactly one conversion call."""
    if isinstance(v, tuple) and v[0] == "call" and last(v[1]) in ALLCONV:
        return last(v[1]), (v[2] if len(v) > 2 else None)
    return None


def scalar_value(rep, fn, what, typ, p, v, want_arg, default=None):
    """v must be conv_typ(want_arg)."""
    where = fn.where(p.node)
    core, nt = strip_trunc(v)
    c = conv_of(core)
    if c is None:
        cs = [x for x in calls(v) if last(x[1]) in ALLCONV]
        if is_num(v) or isinstance(v, float):
            rep.bad("value", where, "%s returns the constant %s instead of "
                    "the stored value" % (what, show(v)))
        elif cs and not any(isinstance(t, tuple) and t[0] in ("phi", "upd")
                            for t in subterms(v)):
            rep.bad("value", where, "%s returns %s, not the converted value "
                    "itself" % (what, show(v)[:120]))
        else:
            rep.undecided("value", where, "%s returns %s" % (what,
                                                             show(v)[:100]))
        return
    name, arg = c
    if name not in CONV[typ]:
        rep.bad("conversion", where, "%s converts with %s instead of %s"
                % (what, name, "/".join(sorted(CONV[typ]))))
        return
    if nt:
        rep.bad("narrowing", where, "%s: the result of %s is converted to a "
                "type that cannot hold every value of it (%s)"
                % (what, name, show(v)[:60]))
        return
    r = want_arg(arg)
    if r is True:
        rep.ok("value", where + " " + what)
    elif r is False:
        rep.bad("value", where, "%s converts %s instead of the stored value"
                % (what, show(arg)[:120]))
    else:
        rep.undecided("value", where, "%s of %s" % (name, show(arg)[:80]))


def own_value(arg):
    """the itsValue member of *this (or, for getString, *this itself)"""
    if arg == ("init", ("f", ("this",), "itsValue")) or \
            arg == ("init", ("this",)):
        return True
    if contains(arg, lambda x: x == ("init", ("f", ("this",), "itsValue"))):
        # a modified copy of the value: trimming keeps the meaning
        return None
    if isinstance(arg, tuple) and arg[0] in ("str", "sym", "init"):
        return False
    return None


def run(it, fn, rep, what):
    try:
        ps = it.run(fn)
    except Budget as e:
        rep.undecided("paths", fn.where(), "%s: %s" % (what, e))
        return None
    rep.fn(fn)
    rep.count("abstract paths", len(ps))
    return ps


def value_getters(rep, prog):
    cls = NS + "ParameterValue"
    for typ in SCALAR:
        if typ == "String":
            continue
        for fn in prog.fn(cls + "::get" + typ):
            it = ParInterp(prog)
            ps = run(it, fn, rep, "ParameterValue::get" + typ)
            for p in ps or ():
                if p.outcome == "return":
                    scalar_value(rep, fn, "ParameterValue::get" + typ, typ,
                                 p, p.value, own_value)
    # implicit conversions
    for qn in sorted(prog.by_qn):
        if not qn.startswith(cls + "::operator "):
            continue
        for fn in prog.fn(qn):
            rt = fn.ty(fn["ret"])
            typ = BYTYPE.get(rt["s"].replace("const ", ""))
            if typ is None and "basic_string" in rt["s"] and \
                    "vector" not in rt["s"]:
                typ = "String"
            what = "ParameterValue::operator " + rt["s"][:40]
            if typ:
                it = ParInterp(prog)
                ps = run(it, fn, rep, what)
                for p in ps or ():
                    if p.outcome == "return":
                        scalar_value(rep, fn, what, typ, p, p.value,
                                     own_value)
                continue
            if rt.get("rec") == "std::vector":
                el = elem_type(fn, rt)
                if el is None:
                    continue
                it = ParInterp(prog, extra=[
                    "get%sVector" % t for t in SCALAR])
                ps = run(it, fn, rep, what)
                for p in ps or ():
                    if p.outcome != "return":
                        continue
                    v = p.value
                    if isinstance(v, tuple) and v[0] == "call":
                        want = "get%sVector" % el
                        rep.check(last(v[1]) in alt_vec(el), "conversion",
                                  fn.where(p.node),
                                  "conversion to %s uses %s, expected %s"
                                  % (rt["s"][:40], last(v[1]), want))


def alt_vec(el):
    out = {"get%sVector" % el}
    if el == "Int":
        out.add("getInt32Vector")
    if el == "Uint":
        out.add("getUint32Vector")
    return out


def elem_type(fn, rt):
    ta = rt.get("targs")
    if not ta:
        return None
    e = fn.ty(ta[0])
    if "basic_string" in e["s"]:
        return "String"
    return BYTYPE.get(e["s"])


def vector_getters(rep, prog):
    cls = NS + "ParameterValue"
    for typ in SCALAR:
        for fn in prog.fn(cls + "::get%sVector" % typ):
            what = "ParameterValue::get%sVector" % typ
            it = ParInterp(prog)
            ps = run(it, fn, rep, what)
            if ps is None:
                continue
            for p in ps:
                if p.outcome != "return":
                    continue
                v = p.value
                left_at_end(rep, fn, p, "range", what)
                base = v
                while isinstance(base, tuple) and base[0] == "upd" and \
                        base[1] == "reserve":
                    base = base[2]
                if isinstance(v, tuple) and v[0] == "phi":
                    vector_loop(rep, fn, what, typ, it, p, v)
                else:
                    if isinstance(base, tuple) and \
                            base[0] in ("call", "construct") \
                            and last(base[1]).startswith("vector") and \
                            len(base) == 2:
                        # an explicit empty result: only for empty input
                        if not p.facts or any(
                                e[0] == "loophead" for e in p.events):
                            rep.bad("elements", fn.where(p.node),
                                    "%s returns an empty vector" % what)
                            continue
                    rep.undecided("elements", fn.where(p.node),
                                  "%s returns %s" % (what, show(v)[:80]))


def sized(it, v):
    """does the loop start with a result that has elements already?"""
    x = it.entry_of.get(v)
    n = 0
    while isinstance(x, tuple) and x[0] in ("upd", "phi") and n < 20:
        if x[0] == "upd" and x[1] in ("resize", "assign", "insert"):
            return True
        x = x[2] if x[0] == "upd" else it.entry_of.get(x)
        n += 1
    if not isinstance(x, tuple) or x[0] not in ("call", "construct"):
        return False
    args = [a for a in x[2:] if not (isinstance(a, tuple) and (
        a[:1] == ("#",) or a[:1] == ("call",) and "allocator" in str(a[1])))]
    return len(args) > 0


def vector_loop(rep, fn, what, typ, it, p, v):
    key = (v[1], v[2])
    ends = it.back.get(key)
    where = fn.where(p.node)
    if not ends:
        rep.bad("elements", where, "%s: the element loop never completes an "
                "iteration (at most one element is returned)" % what)
        return
    # loop left by break/return before all elements?
    for st in ends:
        nv = st.env.get(v[3])
        pushes = []
        x = nv
        while isinstance(x, tuple) and x[0] == "upd":
            if x[1] in ("push_back", "emplace_back"):
                pushes.append(x[3][-1])
            elif x[1] in ("insert", "emplace") and len(x[3]) > 2 and \
                    contains(x[3][:2], lambda t: isinstance(t, tuple) and
                             t[:1] == ("call",) and last(t[1]) in
                             ("begin", "cbegin")) and not any(
                                 e[0] == "call" and last(e[1]) in
                                 ("rbegin", "crbegin", "operator--", "prev")
                                 for e in st.events):
                rep.bad("elements", where, "%s puts every element before "
                        "the ones read earlier" % what)
                return
            elif x[1] not in ("reserve",):
                pushes = None
                break
            x = x[2]
        if pushes is None or (x != v):
            rep.undecided("elements", where, "%s builds its result by %s"
                          % (what, show(nv)[:60]))
            return
        if not pushes and sized(it, v):
            rep.undecided("elements", where, "%s assigns the elements of a "
                          "sized result" % what)
            return
        if not pushes:
            rep.bad("elements", where, "%s: an element is skipped on some "
                    "path of the loop" % what)
            return
        if len(pushes) > 1:
            rep.bad("elements", where, "%s: an element is added %d times"
                    % (what, len(pushes)))
            return
        e = pushes[0]

        def is_elem(arg):
            ts = [t for t in subterms(arg) if isinstance(t, tuple)]
            if contains(arg, lambda x: x == ("init", ("this",)) and False):
                return None
            if any(t[0] in ("phi", "each", "iter") or
                   (t[0] == "call" and last(t[1]) in ("operator*",
                                                      "operator->"))
                   for t in ts):
                return True
            if arg == ("init", ("f", ("this",), "itsValue")):
                return False
            return None
        scalar_value(rep, fn, what + " element", typ, p, e, is_elem)
    # the loop runs over the complete list
    heads = [e for e in p.events if e[0] == "loophead" and e[1] == v[1]]
    its = [ph for ph in it.entry_of if ph[0] == "phi" and ph[1] == v[1]
           and ph[2] == v[2] and ph != v]
    for ph in its:
        ent = it.entry_of[ph]
        if isinstance(ent, tuple) and ent[0] == "call":
            if last(ent[1]) in ("begin", "cbegin"):
                rep.ok("range", where + " " + what)
            elif last(ent[1]) in ("next", "operator+"):
                rep.bad("range", where, "%s does not start at the first "
                        "element" % what)


def set_getters(rep, prog):
    for cls in ("ParameterSet", "ParameterSetImpl"):
        for typ in SCALAR:
            for suf in ("", "Vector"):
                name = "get" + typ + suf
                fns = prog.fn(NS + cls + "::" + name)
                if not fns:
                    raise facts.AnalysisError("%s::%s not found"
                                              % (cls, name))
                for fn in fns:
                    one_getter(rep, prog, cls, typ, suf, name, fn)
        for fn in prog.fn(NS + cls + "::get"):
            one_getter(rep, prog, cls, None, "", "get", fn)


def find_term(v):
    for t in subterms(v):
        if isinstance(t, tuple) and t[0] == "call" and \
                last(t[1]) in ("find", "at", "lower_bound", "operator[]") \
                and ("map<" in t[1]):
            return t
    return None


def one_getter(rep, prog, cls, typ, suf, name, fn):
    what = "%s::%s" % (cls, name)
    it = ParInterp(prog, extra=["get%sVector" % t for t in SCALAR]
                   if cls == "ParameterSetImpl" else
                   ["get%sVector" % t for t in SCALAR])
    if suf:
        # inline the delegation ParameterSet -> ParameterSetImpl, not the
        # ParameterValue level
        it.may_inline = lambda f, fr: (
            last(f["qn"]) not in ParInterp.OPAQUE and not (
                f.get("cls", "").endswith("ParameterValue") and
                last(f["qn"]).startswith("get")))
    ps = run(it, fn, rep, what)
    if ps is None:
        return
    params = [q["n"] for q in fn["params"]]
    key = ("sym", params[0])
    defp = None
    expp = None
    for q in fn["params"][1:]:
        t = fn.ty(q["t"])
        if suf and t["k"] == "bool":
            expp = ("sym", q["n"])
        else:
            defp = ("sym", q["n"])
    nfound = 0
    for p in ps:
        where = fn.where(p.node) if p.node else fn.where()
        # is the key known present / absent on this path?
        present = None
        for f, val in p.facts.items():
            if isinstance(f, tuple) and f[0] == "eq" and any(
                    isinstance(x, tuple) and x[0] == "call" and
                    last(x[1]) in ("end", "cend") for x in f[1:]) and \
                    find_term(f) is not None:
                present = not val
        if p.outcome == "throw":
            if present is True:
                rep.bad("present-key", where, "%s throws although the key is "
                        "present" % what)
            elif defp is not None and present is False:
                rep.bad("default", where, "%s throws for an absent key "
                        "although a default is given" % what)
            else:
                rep.ok("absent-throws", where + " " + what)
            continue
        if p.outcome != "return":
            continue
        v = p.value
        if isinstance(v, tuple) and v[0] == "lref":
            v = it.load(v[1], p.state)
        ft = find_term(v)
        if ft is None:
            if defp is not None and (v == defp or (
                    isinstance(v, tuple) and contains(
                        v, lambda x: x == defp))):
                core, nt = strip_trunc(v)
                if core != defp:
                    rep.undecided("default", where, show(v)[:80])
                elif nt:
                    rep.bad("default", where, "%s changes the default value "
                            "by narrowing it" % what)
                elif present is False:
                    rep.ok("default", where + " " + what)
                elif present is True:
                    rep.bad("default", where, "%s returns the default "
                            "although the key is present" % what)
                else:
                    rep.undecided("default", where, "%s returns the default "
                                  "on a path with an unrecognised test"
                                  % what)
            elif is_num(v) or isinstance(v, float) or (
                    isinstance(v, tuple) and v[0] == "str"):
                rep.bad("value", where, "%s returns %s instead of the stored "
                        "value" % (what, show(v)[:60]))
            else:
                rep.undecided("value", where, "%s returns %s"
                              % (what, show(v)[:80]))
            continue
        nfound += 1
        # key looked up
        if len(ft) > 3 and ft[3] != key:
            if isinstance(ft[3], tuple) and ft[3][0] in ("sym", "str",
                                                         "init"):
                rep.bad("key", where, "%s looks up %s instead of the asked "
                        "key" % (what, show(ft[3])))
                continue
            rep.undecided("key", where, show(ft[3])[:80])
        if present is False:
            rep.bad("present-key", where, "%s reads the value of an absent "
                    "key" % what)
            continue

        def stored(arg):
            if contains(arg, lambda x: x == ft) and any(
                    isinstance(t, tuple) and
                    ((t[0] == "fld" and t[2] == "second") or
                     (t[0] == "f" and t[2] == "second"))
                    for t in subterms(arg)):
                return True
            if contains(arg, lambda x: x == ft):
                return None
            return False
        if typ is None:
            rep.check(stored(v) is not False, "value", where + " " + what,
                      "%s does not return the stored value" % what)
        elif not suf:
            scalar_value(rep, fn, what, typ, p, v, stored)
        else:
            vc = v
            if not (isinstance(vc, tuple) and vc[0] == "call"):
                rep.undecided("value", where, "%s returns %s"
                              % (what, show(v)[:80]))
                continue
            if last(vc[1]) not in alt_vec(typ):
                rep.bad("conversion", where, "%s uses %s instead of "
                        "get%sVector" % (what, last(vc[1]), typ))
                continue
            obj = vc[2]
            expanded = any(last(c[1]) in ("expand", "expandArrayString")
                           for c in calls(obj))
            if expp is None:
                rep.undecided("expand", where, "no expandable parameter")
                continue
            want = it.decide(it.truth(expp)[0], p.state)
            pol = it.truth(expp)[1]
            if want is None:
                if expanded:
                    rep.bad("expand", where, "%s expands the value although "
                            "expansion was not asked" % what)
                else:
                    rep.bad("expand", where, "%s does not expand the value "
                            "when expansion is asked" % what)
                continue
            want = want if pol else not want
            rep.check(expanded == want, "expand", where + " " + what,
                      "%s %s the value although expansion was %s"
                      % (what, "expands" if expanded else "does not expand",
                         "not asked" if expanded else "asked"))
    if nfound == 0 and not any(o[2].startswith(what) for o in rep.open):
        rep.bad("value", fn.where(), "%s never returns the stored value"
                % what)


def time_units(rep, prog):
    """StringToTime_t: factor per unit suffix."""
    fn = prog.one(NS + "ParameterValue::StringToTime_t")
    it = Interp(prog)
    ps = run(it, fn, rep, "StringToTime_t")
    want = {"s": 1, "S": 1, "m": 60, "M": 60, "h": 3600, "H": 3600}
    got = {}
    for p in ps or ():
        if p.outcome != "return":
            continue
        c = None
        neg = set()
        for f, val in p.facts.items():
            if isinstance(f, tuple) and f[0] == "eq0":
                m = monos(f[1])
                ks = [k for k in m if k != ()]
                if len(ks) == 1 and len(ks[0]) == 1 and isinstance(
                        ks[0][0], tuple) and ks[0][0][0] in (
                            "elem", "init", "trunc"):
                    ch = -m.get((), 0) * m[ks[0]]
                    if val:
                        c = ch
                    else:
                        neg.add(ch)
        m = monos(strip_trunc(p.value)[0])
        if len(m) != 1:
            rep.undecided("time-unit", fn.where(p.node), show(p.value)[:60])
            continue
        (k, fac), = m.items()
        if c is not None and 0 < c < 128:
            got[chr(int(c))] = (fac, p)
    for u, f in want.items():
        if u in got:
            rep.check(got[u][0] == f, "time-unit", fn.where(got[u][1].node)
                      + " " + u, "a time with unit '%s' is multiplied by %s "
                      "instead of %d" % (u, got[u][0], f))
        elif got:
            rep.bad("time-unit", fn.where(), "time unit '%s' is no longer "
                    "recognised" % u)


def check(rep, tier):
    prog = parset.program()
    rep.assume += ["std::map/std::string semantics",
                   "strTo* conversions are the subject of C01"]
    value_getters(rep, prog)
    vector_getters(rep, prog)
    set_getters(rep, prog)
    time_units(rep, prog)
