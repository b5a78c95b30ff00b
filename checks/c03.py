"""C03: a parameter counts as used exactly when its value was retrieved."""
from dp3a import facts, parset
from dp3a.absint import Budget, last
from dp3a.facts import walk
from dp3a.parset import ParInterp, SCALAR, NS
from dp3a.terms import show, contains, subterms

TECHNIQUE = (
    "Path-sensitive abstract interpretation of all getters, makeSubset and "
    "unusedKeys plus a call-graph effect analysis: on every path that "
    "returns a stored value the stored key is recorded as asked, on no other "
    "path; existence tests and writers have no effect on the record; "
    "unusedKeys reports a key exactly on the paths where it is not recorded.")
MINIMUM = 60
CLS = NS + "ParameterSetImpl"


class P(ParInterp):
    def may_inline(self, fn, fr):
        n = last(fn["qn"])
        if fn.get("cls", "").endswith("ParameterValue"):
            return False
        return n not in self.OPAQUE or n == "getString"


def asked_events(p):
    """insertions into the record of asked keys on this path"""
    out = []
    for e in p.events:
        if e[0] == "call" and last(e[1]) in ("insert", "emplace",
                                             "emplace_hint"):
            loc = e[5]
            if isinstance(loc, tuple) and loc[0] == "f" and \
                    loc[2] == record_name:
                out.append(e)
    return out


record_name = "itsAskedParms"


def find_record(prog):
    """The member that unusedKeys consults (renaming does not matter)."""
    global record_name
    rec = prog.recs.get(CLS)
    if rec is None:
        raise facts.AnalysisError("ParameterSetImpl not found")
    names = {f["n"] for f in rec["fields"]}
    used = set()
    for fn in prog.fn(CLS + "::unusedKeys"):
        for n in walk(fn["body"]):
            if n.get("k") == "mem" and n.get("f") in names:
                used.add(n["f"])
    cands = [f["n"] for f in rec["fields"] if f["n"] in used and
             "set<" in rec["_types"][f["t"]]["s"]]
    if len(cands) == 1:
        record_name = cands[0]


def key_kind(arg):
    """'stored' if the term is the key stored in the map."""
    for t in subterms(arg):
        if isinstance(t, tuple) and t[0] in ("fld", "f") and t[2] == "first":
            return "stored"
    if isinstance(arg, tuple) and arg[0] == "sym":
        return "asked"
    return "?"


def presence(p):
    for f, val in p.facts.items():
        if isinstance(f, tuple) and f[0] == "eq" and any(
                isinstance(x, tuple) and x[0] == "call" and
                last(x[1]) in ("end", "cend") for x in f[1:]) and \
                contains(f, lambda x: isinstance(x, tuple) and x[0] == "call"
                         and last(x[1]) in ("find", "lower_bound")
                         and "map<" in x[1]):
            return not val
    return None


def getters(rep, prog):
    names = ["get"] + ["get%s%s" % (t, s) for t in SCALAR
                       for s in ("", "Vector")]
    for name in names:
        for fn in prog.fn(CLS + "::" + name):
            it = P(prog)
            try:
                ps = it.run(fn)
            except Budget as e:
                rep.undecided("get", fn.where(), str(e))
                continue
            rep.fn(fn)
            for p in ps:
                where = (fn.where(p.node) if p.node else fn.where()) + \
                    " " + name
                ins = asked_events(p)
                pres = presence(p)
                if p.outcome == "return" and pres is True:
                    if not ins:
                        rep.bad("recorded", where, "%s returns a stored "
                                "value without recording the key as used"
                                % name)
                    elif any(key_kind(e[2][-1]) == "asked" for e in ins):
                        rep.bad("recorded-key", where, "%s records the key "
                                "as spelled by the caller, not as stored: "
                                "with case-insensitive keys it stays "
                                "'unused'" % name)
                    else:
                        rep.ok("recorded", where)
                elif p.outcome == "return" and pres is None:
                    v = p.value
                    if contains(v, lambda x: isinstance(x, tuple) and
                                x[0] in ("fld", "f") and x[2] == "second") \
                            and not ins:
                        rep.bad("recorded", where, "%s returns a stored "
                                "value without recording the key as used"
                                % name)
                    else:
                        rep.undecided("recorded", where, show(v)[:60])
                elif pres is False and ins:
                    rep.bad("not-recorded", where, "%s records an absent "
                            "key as used" % name)
                else:
                    rep.ok("not-recorded", where)


def subset(rep, prog):
    fn = prog.one(CLS + "::makeSubset")
    it = P(prog)
    try:
        ps = it.run(fn)
    except Budget as e:
        rep.undecided("subset", fn.where(), str(e))
        return
    rep.fn(fn)
    seen = 0
    for key, sts in it.back.items():
        for st in sts:
            copies = []
            marks = []
            for e in st.events:
                if e[0] != "call" or last(e[1]) not in (
                        "insert", "emplace", "emplace_hint", "operator[]",
                        "add", "addUnlocked", "replace",
                        "insert_or_assign"):
                    continue
                loc = e[5]
                if isinstance(loc, tuple) and loc[0] == "f" and \
                        loc[2] == record_name:
                    marks.append(e)
                elif "map<" in e[1] or "ParameterSetImpl" in e[1]:
                    copies.append(e)
            if copies:
                seen += 1
                if not marks:
                    rep.bad("subset-recorded", fn.where(copies[0][3]),
                            "makeSubset copies a parameter without recording "
                            "it as used")
                elif key_kind(marks[-1][2][-1]) == "asked":
                    rep.bad("subset-recorded", fn.where(marks[0][3]),
                            "makeSubset records %s, not the stored key"
                            % show(marks[-1][2][-1]))
                else:
                    rep.ok("subset-recorded", fn.where(copies[0][3]))
            elif marks:
                rep.bad("subset-recorded", fn.where(marks[0][3]),
                        "makeSubset records a parameter it does not copy")
    if not seen:
        rep.undecided("subset-recorded", fn.where(), "no copying loop found")


MUST_NOT = ["isDefined", "writeFile", "writeBuffer", "writeStream",
            "unusedKeys", "locateModule", "fullModuleName", "adoptFile",
            "adoptBuffer", "adoptCollection", "adoptArguments", "add",
            "replace", "remove", "subtractSubset", "keyCompareMode"]


def effects(rep, prog):
    """No other method touches the record; nothing is ever taken out."""
    direct = {}
    calls = {}
    for qn, fns in prog.by_qn.items():
        if not (qn.startswith(CLS + "::") or
                qn.startswith(NS + "ParameterSet::")):
            continue
        for fn in prog.fn(qn):
            if not fn.get("body"):
                continue
            rep.fn(fn)
            for n in walk(fn["body"]):
                if n.get("k") in ("mcall", "opcall") and n.get("c") and \
                        n["c"][0] is not None and \
                        n["c"][0].get("k") == "mem" and \
                        n["c"][0].get("f") == record_name:
                    nm = last(n.get("fn", "?"))
                    if n.get("cst") or nm in ("find", "begin", "end",
                                              "count", "contains", "size",
                                              "empty", "lower_bound",
                                              "upper_bound", "equal_range",
                                              "cbegin", "cend"):
                        continue
                    if nm in ("insert", "emplace", "emplace_hint"):
                        direct.setdefault(qn, []).append((fn, n))
                    else:
                        rep.bad("never-forgotten", fn.where(n),
                                "%s calls %s on the record of used keys"
                                % (last(qn), nm))
                if n.get("k") in ("mcall", "call") and n.get("repo") and \
                        n.get("fn"):
                    calls.setdefault(qn, set()).add(n["fn"])
                if n.get("k") == "asg" and n["c"][0].get("k") == "mem" and \
                        n["c"][0].get("f") == record_name:
                    rep.bad("never-forgotten", fn.where(n),
                            "%s overwrites the record of used keys"
                            % last(qn))
    closure = set(direct)
    grew = True
    while grew:
        grew = False
        for q, cs in calls.items():
            if q not in closure and cs & closure:
                closure.add(q)
                grew = True
    for name in MUST_NOT:
        for pre in (CLS, NS + "ParameterSet"):
            q = pre + "::" + name
            if q not in prog.by_qn:
                continue
            f = prog.fn(q)[0]
            rep.check(q not in closure, "no-side-effect", f.where() + name,
                      "%s marks parameters as used (through %s)"
                      % (last(q), ", ".join(sorted(
                          last(c) for c in calls.get(q, set()) & closure))
                         or "itself"))
    rep.count("functions with effect on the record", len(closure))


def unused(rep, prog):
    fn = prog.one(CLS + "::unusedKeys")
    it = P(prog)
    try:
        ps = it.run(fn)
    except Budget as e:
        rep.undecided("unused", fn.where(), str(e))
        return
    rep.fn(fn)
    got = set()
    for key, sts in it.back.items():
        for st in sts:
            pushed = [e for e in st.events if e[0] == "call" and
                      last(e[1]) in ("push_back", "emplace_back", "insert")
                      and "vector" in e[1]]
            used = None
            near = None
            for f, val in st.facts.items():
                if not contains(f, lambda x: isinstance(x, tuple) and
                                len(x) > 2 and x[0] in ("f", "fld") and
                                x[2] == record_name):
                    continue
                nm = {last(t[1]) for t in subterms(f)
                      if isinstance(t, tuple) and t[0] == "call"}
                if f[0] == "eq" and nm & {"end", "cend"}:
                    if "find" not in nm:
                        near = nm & {"lower_bound", "upper_bound"}
                        continue
                    used = not val
                elif f[0] == "eq0" and "count" in nm:
                    used = not val
                elif f[0] == "lt0" and "count" in nm:
                    used = None
                elif f[0] == "truth" and "contains" in nm:
                    used = val
                elif f[0] == "eq0" and "contains" in nm:
                    used = not val
            if used is None:
                if near and not any(
                        f[0] in ("eq", "truth") and contains(
                            f, lambda t: isinstance(t, tuple) and
                            t[:1] == ("call",) and last(t[1]) in near) and
                        not contains(f, lambda t: isinstance(t, tuple) and
                                     t[:1] == ("call",) and
                                     last(t[1]) in ("end", "cend"))
                        for f in st.facts):
                    rep.bad("unused", fn.where(), "unusedKeys does not look "
                            "for the key itself in the record of used keys")
                elif not pushed:
                    rep.bad("unused", fn.where(), "unusedKeys omits a key "
                            "without consulting the record of used keys")
                else:
                    rep.undecided("unused", fn.where(), "test not recognised")
                continue
            got.add((used, bool(pushed)))
            if used == bool(pushed):
                rep.bad("unused", fn.where(), "unusedKeys %s a key that was "
                        "%s" % ("reports" if pushed else "omits",
                                "used" if used else "not used"))
            else:
                rep.ok("unused", fn.where())
            for e in pushed:
                if key_kind(e[2][-1]) == "?" and contains(
                        e[2][-1], lambda x: isinstance(x, tuple) and
                        x[0] in ("fld", "f") and x[2] == "second"):
                    rep.bad("unused", fn.where(e[3]), "unusedKeys reports "
                            "the value instead of the key")
    if not it.back and any(p.outcome == "return" for p in ps):
        rep.undecided("unused", fn.where(), "no loop over the parameters")


def check(rep, tier):
    prog = parset.program()
    find_record(prog)
    rep.assume += ["std::map/std::set semantics"]
    getters(rep, prog)
    subset(rep, prog)
    effects(rep, prog)
    unused(rep, prog)
