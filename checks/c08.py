"""C08: cluster and dataset descriptions read back what was written, and
lookups in them find the described node and file system."""
from fractions import Fraction

from dp3a import facts
from dp3a.absint import last
from dp3a.terms import show, subterms, is_num, sub, scale
from dp3a.scan import Scanner, consistent, is_el

TECHNIQUE = (
    "Abstract interpretation of the description writers and readers: the "
    "lines written on every path (prefix, key, value) and the key -> member "
    "assignments of the readers are extracted and compared in both "
    "directions, including the conditions under which a key is left out, the "
    "names of numbered subsets and the offsets of the time arrays; the "
    "cluster and file-system lookups are decided from the states of their "
    "loops.")
MINIMUM = 25
PURE = True
N = "dp3::common::"
GET = ("getString", "getStringVector", "makeSubset", "getDouble",
       "getDoubleVector", "getInt32Vector", "getInt32", "getUint32",
       "getFloat", "getBool", "isDefined", "empty")
TUS = ["common/NodeDesc.cc", "common/ClusterDesc.cc", "common/VdsDesc.cc",
       "common/VdsPartDesc.cc", "common/StringTools.cc"]


def root(t):
    while isinstance(t, tuple) and t[0] in ("call", "upd") and len(t) > 2:
        if t[0] == "upd":
            t = t[2]
        elif last(t[1]) == "operator<<":
            t = t[2]
        else:
            break
    return t


def is_endl(t):
    return t == 10 or (isinstance(t, tuple) and (
        (t[0] == "fnref" and "endl" in str(t[1])) or t == ("str", "\n")))


def flat(t, strs):
    """pieces of a string expression"""
    if isinstance(t, tuple):
        if t in strs:
            return strs[t]
        if t[0] == "str":
            return [("lit", t[1])] if t[1] else []
        if t[0] == "call" and last(t[1]) == "operator+" and len(t) >= 4:
            return flat(t[2], strs) + flat(t[3], strs)
        if t[0] == "call" and last(t[1]) in ("to_string", "basic_string") \
                and len(t) >= 3:
            return flat(t[2], strs)
        if t[0] == "upd" and last(t[1]) in ("operator+=", "append") and \
                len(t) > 3:
            return flat(t[2], strs) + flat(t[3][-1], strs)
    if is_num(t) and not isinstance(t, bool) and 32 <= t < 127:
        return [("lit", chr(int(t)))]
    return [("val", t)]


def norm(ps):
    out = []
    for p in ps:
        if p[0] == "lit" and out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + p[1])
        else:
            out.append(p)
    return out


def stream(state):
    """tokens written to the stream parameter, the strings built in local
    string streams, and the write() calls on sub-descriptions"""
    toks, strs, bufs = [], {}, {}
    # local copies of the stream parameter are aliases of ('sym', os)
    for e in state.events:
        if e[0] != "call":
            continue
        nm, a = last(e[1]), e[2]
        if nm == "operator<<" and len(a) >= 2:
            r = root(a[0])
            if isinstance(r, tuple) and r[0] == "call" and \
                    last(r[1]) == "basic_ostringstream":
                bufs.setdefault(id_of(a[0]), [])
                bufs[id_of(a[0])].append(a[-1])
                toks.append(("buf", a[-1]))
            else:
                ps = norm(flat(a[-1], {}))
                if len(ps) < 2:
                    toks.append(("tok", a[-1], e))
                for h, x in ps if len(ps) > 1 else ():
                    toks.append(("tok", ("str", x) if h == "lit" else x, e))
        elif nm == "basic_ostringstream":
            toks.append(("newbuf",))
        elif nm == "str" and a:
            cur = []
            for t in reversed(toks):
                if t[0] == "newbuf":
                    break
                if t[0] == "buf":
                    cur.append(t[1])
            ps = []
            for x in reversed(cur):
                ps += flat(x, strs)
            term = ("call", e[1]) + tuple(a)
            strs[term] = norm(ps)
        elif nm in ("write", "writeStream", "adoptCollection", "precision"):
            toks.append((nm, a, e))
    return toks, strs


def id_of(t):
    return "b"


def text(t, strs):
    """normalised pieces of a string argument (str() of a local stream is
    matched by name: only one stream is alive at a time)"""
    if isinstance(t, tuple) and t[0] == "call" and last(t[1]) == "str":
        for k, v in strs.items():
            if k[2:3] == t[2:3]:
                return v
        if len(strs) == 1:
            return list(strs.values())[0]
        return list(strs.values())[-1] if strs else None
    return norm(flat(t, strs))


def lines(toks):
    """[(tokens, event)] split at end-of-line; open last line kept apart"""
    out, cur = [], []
    for t in toks:
        if t[0] == "tok":
            if is_endl(t[1]):
                out.append(cur)
                cur = []
            else:
                cur.append(t)
        elif t[0] in ("write", "writeStream"):
            out.append([t])
    return out, cur


def member(t):
    if isinstance(t, tuple) and t[0] == "init" and \
            isinstance(t[1], tuple) and t[1][0] == "f" and \
            t[1][1] == ("this",):
        return t[1][2]
    return None


def val_kind(toks):
    """(kind, member or term) of the tokens after the key"""
    vals = [t[1] for t in toks if not (
        isinstance(t[1], tuple) and t[1][0] == "call" and
        "Format" in last(t[1][1]))]
    if len(vals) != 1:
        return ("many", vals)
    v = vals[0]
    m = member(v)
    if m:
        return ("member", m)
    if isinstance(v, tuple) and v[0] == "call" and last(v[1]) == "MVTime" \
            and len(v) >= 3:
        q = v[2]
        for t in subterms(q):
            m = member(t)
            if m:
                return ("time", m, q)
    if isinstance(v, tuple) and v[0] == "str":
        return ("const", v[1])
    if isinstance(v, tuple) and v[0] == "call" and v[1] == "size":
        m = member(v[2])
        if m:
            return ("size", m)
    return ("other", v)


def key_of(line, prefixed):
    """(key, value tokens, problem)"""
    toks = line
    if prefixed:
        if not toks or toks[0][1] != prefixed:
            return None, toks, "line does not start with the prefix"
        toks = toks[1:]
    if not toks:
        return None, toks, "empty line"
    k = toks[0][1]
    rest = toks[1:]
    if isinstance(k, tuple) and k[0] == "str":
        s = k[1]
        if "=" not in s and rest and isinstance(rest[0][1], tuple) and \
                rest[0][1][0] == "str":
            s += rest[0][1][1]
            rest = rest[1:]
        if s.count("=") != 1:
            return None, rest, "no single '=' in %r" % s
        key, tail = s.split("=")
        if tail.strip():
            rest = [("tok", ("str", tail.strip()), None)] + rest
        return key.strip(), rest, None
    return None, rest, None


def empties(facts_):
    """member -> whether the facts say that it is empty"""
    out = {}
    for f, v in facts_.items():
        for t in subterms(f):
            if isinstance(t, tuple) and t[0] == "call" and t[1] == "size" \
                    and member(t[2]):
                r = [consistent({f: v}, {t: n}) for n in (0, 1, 2, 9)]
                if not any(r[1:]):
                    out[member(t[2])] = True
                elif not r[0]:
                    out[member(t[2])] = False
    return out


def reader(rep, prog, cls, extra=()):
    """member -> (key, default given, getter, vector?)"""
    out = {}
    for fn in prog.by_qn.get(N + cls + "::" + cls, []):
        if not any("ParameterSet" in fn.ty(p["t"])["s"]
                   for p in fn["params"]):
            continue
        rep.fn(fn)
        it = Scanner(prog, GET + tuple(extra))
        ps = [p for p in it.run(fn) if p.outcome != "throw"]
        for p in ps:
            for l, v in p.state.env.items():
                if not (isinstance(l, tuple) and l[0] == "f" and
                        l[1] == ("this",)):
                    continue
                n = 0
                while v in it.entry_of and n < 5:
                    v = it.entry_of[v]
                    n += 1
                keys = [(t[1], t) for t in subterms(v)
                        if isinstance(t, tuple) and t[0] == "call" and
                        last(t[1]) in GET and len(t) > 3]
                if keys:
                    out.setdefault(l[2], []).append((v, fn, p))
        return fn, it, ps, out
    return None, None, [], {}


def getter(v):
    """(getter, key, has default) if v is a plain getter call"""
    if isinstance(v, tuple) and v[0] == "call" and last(v[1]) in GET and \
            len(v) > 3 and isinstance(v[3], tuple) and v[3][0] == "str":
        g = last(v[1])
        rest = [a for a in v[4:] if not (isinstance(a, tuple) and
                                         a[0] == "#")]
        flags = [a for a in rest if is_num(a) or isinstance(a, bool)]
        return g, v[3][1], len(rest) > len(flags) or (
            g in ("getDouble", "getInt32") and bool(flags))
    return None


def opaque_writer():
    return ("operator<<", "write", "writeStream", "adoptCollection",
            "precision")


def check_lines(rep, prog, cls, fields, groups, extra_keys=()):
    """fields: key -> (member, has default, kind) from the reader"""
    fns = prog.by_qn.get(N + cls + "::write", [])
    if not fns:
        rep.undecided("write", cls, "no writer")
        return
    fn = fns[0]
    rep.fn(fn)
    pfx = None
    if len(fn["params"]) > 1:
        pfx = ("sym", fn["params"][1]["n"])
    it = Scanner(prog, opaque_writer())
    for p in it.run(fn):
        w = fn.where(p.node) if p.node else "%s:%d" % (fn["file"], fn["l"])
        if p.outcome == "throw":
            continue
        toks, strs = stream(p.state)
        check_digits(rep, fn, cls, toks, w)
        toks = [t for t in toks if not (
            t[0] == "tok" and isinstance(t[1], tuple) and
            t[1][0] == "call" and last(t[1][1]) in MANIP)]
        ls, open_ = lines(toks)
        seen = {}
        for line in ls:
            if line and line[0][0] != "tok":
                continue
            key, rest, prob = key_of(line, pfx)
            lw = fn.where(line[0][2][3]) if line and line[0][2] else w
            if prob:
                rep.bad("line", lw, "%s::write: %s" % (cls, prob))
                continue
            if key is None:
                rep.undecided("line", lw, "key not constant")
                continue
            if key in seen:
                rep.bad("line", lw, "key %s is written twice" % key)
            seen[key] = (rest, lw)
            if key in extra_keys:
                continue
            if key not in fields:
                rep.bad("key", lw, "%s::write writes key %s, which the "
                        "reader does not read" % (cls, key))
                continue
            m, dflt, kind = fields[key]
            k = val_kind(rest)
            if kind == "array":
                ok = k[0] == "many" or k[0] == "const"
                rep.check(ok, "array", lw, "%s::write: the value of %s is "
                          "not a list" % (cls, key))
                lits = [t[1] for t in rest]
                op = [x for x in lits if x in (("str", "["), 91)]
                cl = [x for x in lits if x in (("str", "]"), 93)]
                rep.check(len(op) == 1 and len(cl) == 1 and lits[0] == op[0]
                          and lits[-1] == cl[0], "array", lw, "%s::write: "
                          "the list of %s is not enclosed in []"
                          % (cls, key))
            elif kind == "enum":
                rep.check(k[0] == "const", "value", lw, "%s::write: %s is "
                          "not written as a name" % (cls, key))
            elif kind == "time":
                ok = k[0] == "time" and k[1] == m
                if ok:
                    ok = k[2] == mul(("init", ("f", ("this",), m)))
                rep.check(ok, "value", lw, "%s::write: %s is written as %s, "
                          "but the reader stores it in %s (seconds; MVTime "
                          "counts days)" % (cls, key, show_k(k), m))
            else:
                rep.check(k == ("member", m), "value", lw, "%s::write: %s "
                          "is written from %s, but read into %s"
                          % (cls, key, show_k(k), m))
        if open_:
            rep.bad("line", w, "%s::write: a line is not ended" % cls)
        em = empties(p.state.facts)
        for key, (m, dflt, kind) in fields.items():
            if key in seen:
                rep.ok("complete", "%s %s" % (w, key))
                continue
            if kind == "extra":
                continue
            g = groups.get(key, m)
            ok = em.get(m) is True or em.get(g) is True
            rep.check(ok, "complete", w, "%s::write leaves out %s although "
                      "%s may hold a value" % (cls, key, m))
            rep.check(dflt, "default", w, "%s::write can leave out %s, but "
                      "the reader has no default for it" % (cls, key))
    return it, fn


# digits with which values have to be written so that they can be told apart:
# frequencies in Hz, times in seconds of the day
MANIP = ("setprecision", "operator setprecision", "setw", "fixed")
DIGITS = {"StepTime": 9, "StartFreqs": 12, "EndFreqs": 12}


def digits_of(t):
    """the precision a precision() / setprecision() argument sets"""
    while isinstance(t, tuple) and t[0] in ("cast", "conv") and len(t) > 2:
        t = t[-1]
    return int(t) if is_num(t) else None


def check_digits(rep, fn, cls, toks, w):
    """numbers are written with enough digits; the caller's stream gets its
    own precision back"""
    prec, known = None, True       # None: what the caller's stream has
    key = None
    for t in toks:
        v = t[1]
        if t[0] == "precision" and len(v) >= 2:
            prec = digits_of(v[-1])
            known = prec is not None or (
                isinstance(v[-1], tuple) and v[-1][0] == "call" and
                last(v[-1][1]) == "precision")
            continue
        if t[0] != "tok":
            continue
        if isinstance(v, tuple) and v[0] == "call" and \
                "etprecision" in last(v[1]):
            prec = digits_of(v[2]) if len(v) > 2 else None
            known = prec is not None
            continue
        lw = fn.where(t[2][3]) if t[2] else w
        if isinstance(v, tuple) and v[0] == "call" and \
                last(v[1]) == "Format" and "MVTime" in v[1]:
            n = digits_of(v[-1]) if len(v) > 3 else 0
            if n == 0 and known:
                n = prec or 6       # that of the stream
            if not n:
                rep.undecided("digits", lw, "digits of a time not constant")
            else:
                rep.check(n >= 9, "digits", lw, "%s::write: a time is "
                          "written with precision %d, which drops "
                          "milliseconds" % (cls, n))
            continue
        if isinstance(v, tuple) and v[0] == "str":
            if "=" in v[1]:
                key = v[1].split("=")[0].strip()
            continue
        if key in DIGITS and member(v):
            if not known:
                rep.undecided("digits", lw, "precision of %s" % key)
            else:
                rep.check(prec is not None and prec >= DIGITS[key], "digits",
                          lw, "%s::write: %s is written with %s digits, at "
                          "least %d are needed to get the value back"
                          % (cls, key, prec if prec is not None else
                             "the caller's number of (by default 6)",
                             DIGITS[key]))
    if prec is not None:
        rep.check(prec >= 6, "digits", w, "%s::write leaves the stream of "
                  "its caller with a precision of %d" % (cls, prec))


def mul(t):
    return scale(t, Fraction(1, 86400))


def contains(t, x):
    return any(s == x for s in subterms(t))


def show_k(k):
    if k[0] in ("member", "const", "size"):
        return str(k[1])
    if k[0] == "time":
        return show(k[2])[:80]
    if k[0] == "many":
        return " ".join(show(x)[:40] for x in k[1])
    return show(k[1])[:80]


def check_node(rep, prog):
    fn, it, ps, mem = reader(rep, prog, "NodeDesc")
    if not fn:
        rep.undecided("read", "NodeDesc", "no reader")
        return
    fields = {}
    for m, vs in mem.items():
        for v, f, p in vs:
            w = f.where(p.node) if p.node else m
            g = getter(v)
            if g is None:
                continue
            key = g[1]
            if key in fields and fields[key][0] != m:
                rep.bad("read", w, "key %s is read into both %s and %s"
                        % (key, fields[key][0], m))
            fields[key] = (m, g[2], "plain")
    rep.check({"NodeName", "NodeMountPoints", "NodeFileSys"} <= set(fields),
              "read", fn["qn"], "NodeDesc does not read its name, mount "
              "points and file systems into members of its own: %s"
              % {k: v[0] for k, v in fields.items()})
    fields["NodeType"] = ("itsType", True, "enum")
    want = {"NodeName": "getName", "NodeMountPoints": "getMountPoints",
            "NodeFileSys": "getFileSys"}
    for key, acc in want.items():
        for a in prog.by_qn.get(N + "NodeDesc::" + acc, []):
            for p in Scanner(prog).run(a):
                v = p.value
                m = member(v) or (v[2] if isinstance(v, tuple) and
                                  v[0] == "f" else None)
                if key in fields and m:
                    rep.check(m == fields[key][0], "accessor", a["qn"],
                              "%s returns %s, but %s is read into %s"
                              % (acc, m, key, fields[key][0]))
    # parallel arrays
    for p in ps:
        sz = {}
        for m in ("NodeMountPoints", "NodeFileSys"):
            if m in fields:
                sz[m] = fields[m][0]
        ok = False
        for f, v in p.state.facts.items():
            s = show(f)
            if f[0] == "eq0" and v and s.count("size(") == 2 and \
                    "NodeMountPoints" in s and "NodeFileSys" in s:
                ok = True
        rep.check(ok, "parallel", fn.where(p.node) if p.node else fn["qn"],
                  "NodeDesc accepts different numbers of mount points and "
                  "file systems")
    check_lines(rep, prog, "NodeDesc", fields, {})
    refused(rep, it, fn, ps, fields)
    # addFileSys keeps the arrays parallel
    for a in prog.by_qn.get(N + "NodeDesc::addFileSys", []):
        rep.fn(a)
        it = Scanner(prog)
        for p in it.run(a):
            if p.outcome == "throw":
                continue
            w = a.where(p.node) if p.node else a["qn"]
            for key, par in (("NodeFileSys", 0), ("NodeMountPoints", 1)):
                if key not in fields:
                    continue
                m = fields[key][0]
                v = p.state.env.get(("f", ("this",), m))
                ok = isinstance(v, tuple) and v[0] == "upd" and \
                    last(v[1]) in ("push_back", "emplace_back") and \
                    v[2] == ("init", ("f", ("this",), m))
                rep.check(ok, "parallel", w, "addFileSys does not append "
                          "exactly one entry to %s" % m)
                if ok:
                    a0 = ("sym", a["params"][par]["n"])
                    t = v[3][-1]
                    auto = None
                    good = contains(t, a0)
                    other = ("sym", a["params"][1 - par]["n"])
                    rep.check(good and not contains(t, other), "parallel",
                              w, "addFileSys appends %s to %s"
                              % (show(t)[:60], m))
                    if par == 1 and good:
                        check_auto(rep, p, t, a0, w)
                    elif good:
                        rep.check(t == a0, "parallel", w,
                                  "the file system name is changed: %s"
                                  % show(t)[:60])


def refused(rep, it, fn, ps, fields):
    """every mount point starts with /, every file system has a name"""
    names = {k: fields[k][0] for k in ("NodeMountPoints", "NodeFileSys")
             if k in fields}
    if len(names) < 2:
        return
    seen = set()
    for (lid, fid), sts in it.back.items():
        for st in sts:
            def elems(key):
                out = set()
                for t in (t for f in st.facts for t in subterms(f)):
                    if not (is_el(t) and not is_el(t[1]) and
                            isinstance(t[2], tuple) or
                            isinstance(t, tuple) and len(t) == 3 and
                            t[0] == "each"):
                        continue
                    g = getter(t[1])
                    if g and g[1] == key or not g and \
                            names[key] in show(t[1]):
                        out.add(t)
                return out
            m, f = elems("NodeMountPoints"), elems("NodeFileSys")
            for k, es in (("mount point", m), ("file system", f)):
                if not es:
                    continue
                seen.add(k)
                ok = None
                for e in es:
                    for g in st.facts:
                        for t in subterms(g):
                            if isinstance(t, tuple) and t[:2] == (
                                    "call", "size") and contains(t, e):
                                ok = ok or not consistent(st.facts, {t: 0})
                            if isinstance(t, tuple) and t[0] == "call" and \
                                    last(t[1]) == "empty" and contains(t, e):
                                ok = ok or st.facts.get(g) is (
                                    g[0] == "eq0")
                rep.check(bool(ok), "refused", "%s %s" % (fn["qn"], k),
                          "a %s that is empty is accepted" % k)
                for e in es:
                    if isinstance(e[2], tuple) and e[2][0] == "phi" and \
                            is_num(it.entry_of.get(e[2])):
                        rep.check(it.entry_of[e[2]] == 0, "refused",
                                  fn["qn"], "the first %s is not tested"
                                  % k)
            if not m:
                continue
            ok = None
            for g in st.facts:
                for t in subterms(g):
                    if (is_el(t) and t[2] == 0 or isinstance(t, tuple) and
                            t and t[0] == "call" and last(t[1]) in
                            ("front", "at")) and any(
                            contains(t, e) and t != e for e in m):
                        ok = ok or not consistent(st.facts, {t: 46}) and \
                            consistent(st.facts, {t: 47})
                    if isinstance(t, tuple) and t and t[0] == "call" and \
                            last(t[1]) == "starts_with" and any(
                            contains(t, e) for e in m):
                        ok = ok or st.facts[g] is (g[0] != "eq0")
            rep.check(bool(ok), "refused", fn["qn"] + " /", "a mount point "
                      "that does not start with / is accepted")
    for k in ("mount point", "file system"):
        if k in seen:
            continue
        if any(w in show(f) for w in ("all_of", "any_of", "find_if",
                                      "none_of")
               for p in ps for f in p.state.facts):
            rep.undecided("refused", fn["qn"], "test by an algorithm")
        else:
            rep.bad("refused", fn["qn"], "the %ss are not tested" % k)


def check_auto(rep, p, t, a0, w):
    """/auto prefix: removed exactly when size > 5 and it starts with it"""
    stripped = t != a0
    if stripped:
        ok = isinstance(t, tuple) and t[0] == "call" and \
            last(t[1]) == "substr" and t[2] == a0 and t[3] == 5
        rep.check(ok, "auto", w, "the stored mount point is %s"
                  % show(t)[:80])
        eq = [f for f, v in p.state.facts.items() if v and f[0] == "eq" and
              ("str", "/auto") in f]
        for f in eq:
            for t in f[1:]:
                if isinstance(t, tuple) and t[0] == "call" and \
                        last(t[1]) == "substr" and len(t) > 4:
                    rep.check(t[3] == 0 and t[4] == 5, "auto", w,
                              "%s is compared with /auto" % show(t)[:60])
        size = ("call", "size", a0)
        fs = {f: v for f, v in p.state.facts.items()
              if f[0] in ("lt0", "eq0") and contains(f, size)}
        if fs:
            rep.check(not consistent(fs, {size: 5}), "auto", w, "the mount "
                      "point /auto is stored as an empty name")
        rep.check(bool(eq), "auto", w, "the first characters of a mount "
                  "point are removed without a test for /auto")
    else:
        ok = False
        for f, v in p.state.facts.items():
            if f[0] == "eq" and ("str", "/auto") in f and not v:
                ok = True
            if f[0] == "lt0" and contains(f, ("call", "size", a0)):
                # the fact must imply size <= 5
                r = {}
                for n in (6, 7, 50):
                    r[n] = consistent({f: v}, {("call", "size", a0): n})
                if not any(r.values()):
                    ok = True
        rep.check(ok, "auto", w, "a mount point that may start with /auto "
                  "is stored unchanged")


def check_find(rep, prog):
    """longest mount point wins, exact comparison, root last"""
    for fn in prog.by_qn.get(N + "NodeDesc::findFileSys", []):
        rep.fn(fn)
        it = Scanner(prog)
        ps = it.run(fn)
        nret = nmatch = nroot = 0
        for p in ps:
            if p.outcome != "return":
                continue
            w = fn.where(p.node)
            v = p.value
            els = [t for t in subterms(v) if is_el(t) and
                   "itsFileSys" in show(t[1])]
            if not els:
                rep.check(show(v) in ('""', "''") or v == ("str", ""),
                          "find", w, "returns %s" % show(v)[:60])
                # only when no root file system
                continue
            nret += 1
            idx = els[0][2]
            eqs = [f for f, val in p.state.facts.items()
                   if val and isinstance(f, tuple) and f[0] == "eq" and
                   "itsMounts" in show(f)]
            if eqs:
                nmatch += 1
                ok = any(any(is_el(t) and "itsMounts" in show(t[1]) and
                             t[2] == idx for t in subterms(f)) for f in eqs)
                rep.check(ok, "find", w, "the file system is taken at "
                          "another index than the matching mount point")
                f = [g for g in eqs if any(is_el(t) and t[2] == idx
                                           for t in subterms(g))]
                if f:
                    other = [s for s in f[0][1:] if not any(
                        is_el(t) and "itsMounts" in show(t[1]) for t in
                        subterms(s))]
                    good = other and isinstance(other[0], tuple) and \
                        other[0][0] == "call" and \
                        last(other[0][1]) == "substr" and \
                        other[0][2] == ("sym", fn["params"][0]["n"]) and \
                        other[0][3] == 0
                    rep.check(bool(good), "find", w, "a mount point is "
                              "compared with %s instead of the leading "
                              "directories of the file name"
                              % (show(other[0])[:80] if other else "?"))
                    if good:
                        n = other[0][4]
                        slash(rep, it, n, fn, w)
            else:
                # root fallback: index must be the index of a one-character
                # mount point, found after all comparisons failed
                nroot += 1
                ent = it.entry_of.get(idx)
                rep.check(isinstance(idx, tuple) and idx[0] == "phi" and
                          ent == -1, "root", w, "without a matching mount "
                          "point, %s is returned" % show(v)[:80])
                roots_ok(rep, it, idx, fn)
                maxparts(rep, it, idx, fn)
                g = [f for f, val in p.state.facts.items()
                     if f == ("lt0", idx) and val is False]
                rep.check(bool(g), "root", w, "the root file system is used "
                          "without testing that there is one")
        rep.check(nret >= 2 and nmatch, "find", fn["qn"], "no matching "
                  "file system is ever returned")
        rep.check(nroot, "root", fn["qn"], "the root file system is never "
                  "used")
        order(rep, it, fn)
        positions(rep, it, fn, ps)
        inside(rep, it, fn)


def linear(f, v, ph):
    """rest of the fact ph + rest < 0, None if it is not of this form"""
    from dp3a.terms import add
    if not (isinstance(f, tuple) and f[0] == "lt0"):
        return None
    if v:
        r = sub(f[1], ph)
    else:       # not a - ph < 0: ph - a - 1 < 0
        r = sub(scale(add(f[1], ph), -1), 1)
    return None if contains(r, ph) else r


def inside(rep, it, fn):
    """an index that was compared with a size is below it"""
    for sts in it.back.values():
        for st in sts:
            els = {(t[1], t[2]) for f in st.facts for t in subterms(f)
                   if is_el(t) and isinstance(t[2], tuple) and
                   t[2][0] == "phi"}
            for arr, ph in els:
                from dp3a.terms import add
                for f, v in st.facts.items():
                    r = linear(f, v, ph)
                    if r is None:
                        continue
                    cs = [add(r, ("call", "size", a))
                          for a in (arr, ("init", arr))]
                    for c in filter(is_num, cs):
                        rep.check(c >= 0, "inside", "%s %s" % (
                            fn["qn"], show(arr)[:40]), "element %s is used "
                            "up to the size" % show(ph))


def positions(rep, it, fn, ps):
    """all leading directories are found and tried, longest first"""
    q = fn["qn"]
    stores = []
    for (lid, fid), sts in it.back.items():
        for st in sts:
            for l, v in st.env.items():
                if is_el(l) and isinstance(l[1], tuple) and \
                        l[1][0] in ("v", "g"):
                    stores.append((lid, st, l))
    if not stores:
        if not any("push_back" in show(v) or "emplace_back" in show(v)
                   for sts in it.back.values() for st in sts
                   for v in st.env.values() if v is not None) and \
                not any(e for e in it.back if False):
            subs = [p for p in ps if any("substr" in show(f)
                                         for f in p.state.facts)]
            if any("elem(" in show(f) or "el(" in show(f)
                   for p in subs for f in p.state.facts
                   if "substr" in show(f)):
                rep.bad("positions", q, "the leading directories of the "
                        "file name are never stored")
        return
    for lid, st, l in stores:
        K = l[2]
        if not (isinstance(K, tuple) and K[0] == "phi"):
            continue
        rep.check(it.entry_of.get(K) == 0, "positions", q, "the positions "
                  "are stored from number %s" % show(it.entry_of.get(K)))
        rep.check(sub(st.env.get(K[3]), K) == 1 if st.env.get(K[3])
                  is not None else True, "positions", q, "the number of "
                  "leading directories becomes %s" % show(st.env.get(K[3])))
        for f, v in st.facts.items():
            r = linear(f, v, K)
            if r is None:
                continue
            B = [t for t in subterms(r) if isinstance(t, tuple) and
                 t[0] == "phi"]
            if len(B) != 1:
                continue
            from dp3a.terms import add
            c = add(r, B[0])
            if not is_num(c):
                continue
            rep.check(c >= 0, "positions", q, "a position can be stored "
                      "past the end of the positions")
            most(rep, it, fn, B[0])
        # the loop over the leading directories
        for p in ps:
            for f, v in p.state.facts.items():
                if f[0] != "eq" or not v:
                    continue
                for t in subterms(f):
                    if is_el(t) and isinstance(t[2], tuple) and \
                            t[2][0] == "phi" and "itsMounts" not in \
                            show(t[1]) and "pos" in show(t[1]) or \
                            is_el(t) and isinstance(t[2], tuple) and \
                            t[2][0] == "phi" and isinstance(t[1], tuple) \
                            and t[1][0] == "phi" and t[1][3] == l[1]:
                        tried(rep, it, fn, ps, t[2], K)


def tried(rep, it, fn, ps, P, K):
    q = fn["qn"]
    e = it.entry_of.get(P)
    if e is not None:
        d = sub(e, K)
        if is_num(d):
            rep.check(d == -1, "positions", q, "the search starts at "
                      "leading directory %s of %s" % (show(e), show(K)))
    for p in ps:
        if p.outcome != "return" or any(f[0] == "eq" and v for f, v in
                                        p.state.facts.items()):
            continue
        own = {f: v for f, v in p.state.facts.items()
               if isinstance(f, tuple) and f[0] in ("lt0", "eq0") and
               f[1] is not None and contains(f, P)}
        if own and all(len([t for t in subterms(f) if isinstance(t, tuple)
                            and t and t[0] == "phi"]) == 1 for f in own):
            rep.check(not consistent(own, {P: 0}), "positions", q,
                      "the shortest leading directory is not tried")


def most(rep, it, fn, B):
    """the number of positions is that of the mount point with most parts"""
    q = fn["qn"]
    ups = []
    for (lid, fid), sts in it.back.items():
        if lid != B[1]:
            continue
        for st in sts:
            v = st.env.get(B[3])
            if v is not None and v != B and not is_num(v):
                ups.append(v)
    rep.check(bool(ups), "maximum", q, "the number of parts of the mount "
              "points is never counted")
    for v in ups:
        if isinstance(v, tuple) and v[0] == "call" and last(v[1]) == "max":
            v = [x for x in v[2:] if x != B][0]
        if not (isinstance(v, tuple) and v[0] == "phi"):
            continue
        n = 0
        for (lid, fid), sts in it.back.items():
            if lid != v[1]:
                continue
            for st in sts:
                new = st.env.get(v[3])
                d = sub(new, v) if new is not None else None
                ch = [(f, t, val) for f, val in st.facts.items()
                      if f[0] == "eq0" for t in subterms(f)
                      if is_el(t) and is_el(t[1])]
                isslash = None
                for f, t, val in ch:
                    if not consistent({f: True}, {t: 46}) and \
                            consistent({f: True}, {t: 47}):
                        isslash = val
                if d == 0 and isslash is True:
                    rep.bad("maximum", q, "a / in a mount point is not "
                            "counted as a part")
                if is_num(d) and d >= 1:
                    n += 1
        rep.check(n, "maximum", q, "the parts of a mount point are not "
                  "counted")


def roots_ok(rep, it, idx, fn):
    for (lid, fid), sts in it.back.items():
        if not (isinstance(idx, tuple) and lid == idx[1]):
            continue
        for st in sts:
            v = st.env.get(idx[3])
            if v is None or v == idx:
                continue
            ok = False
            for f, val in st.facts.items():
                if val and f[0] == "eq0":
                    for t in subterms(f):
                        if isinstance(t, tuple) and t[0] == "call" and \
                                t[1] == "size" and any(
                                    is_el(x) and x[2] == v
                                    for x in subterms(t)):
                            # must mean size == 1
                            if consistent({f: True}, {t: 1}) and not \
                                    consistent({f: True}, {t: 2}) and not \
                                    consistent({f: True}, {t: 0}):
                                ok = True
            rep.check(ok, "root", fn["qn"], "the root file system is taken "
                      "from a mount point that is not a single /: %s"
                      % show(v)[:60])


def maxparts(rep, it, idx, fn):
    """the number of parts to look for is the maximum over all mounts"""
    for (lid, fid), sts in it.back.items():
        if not (isinstance(idx, tuple) and lid == idx[1]):
            continue
        for st in sts:
            for l, v in st.env.items():
                ph = [a for a, e in it.entry_of.items() if a[0] == "phi" and
                      a[1] == lid and a[3] == l and e == 0]
                if not ph or l == idx[3] or v is None:
                    continue
                ph = ph[0]
                d = sub(v, ph)
                if d == 0 or is_num(d):
                    continue
                ok = st.facts.get(("lt0", sub(ph, v))) is True or \
                    st.facts.get(("lt0", sub(v, ph))) is False
                if not ok and isinstance(v, tuple) and v[0] == "call" and \
                        last(v[1]) == "max":
                    ok = ph in v
                rep.check(ok, "maximum", fn["qn"], "the number of parts is "
                          "replaced by %s, which is not known to be larger"
                          % show(v)[:60])
                if not (isinstance(v, tuple) and v[0] == "phi"):
                    continue
                for other in sts:
                    if other.env.get(l, ph) == ph and \
                            other.env.get(v[3]) == v:
                        rep.check(not consistent(other.facts,
                                                 {v: 5, ph: 2}),
                                  "maximum", fn["qn"], "a larger number of "
                                  "parts can be left out of the maximum")


def slash(rep, it, n, fn, w):
    """n must be the position of a slash in the file name"""
    name = ("sym", fn["params"][0]["n"])
    arr = [t for t in subterms(n) if is_el(t)]
    if not arr:
        rep.undecided("slash", w, show(n)[:80])
        return
    ok = 0
    for (lid, fid), sts in it.back.items():
        for st in sts:
            for l, v in st.env.items():
                if not is_el(l) or not (isinstance(l[1], tuple) and l[1][0] in ("v", "g")):
                    continue
                ii = v
                ch = [f for f, val in st.facts.items() if val and
                      f[0] == "eq0" and any(
                          is_el(t) and t[1] == name and t[2] == ii
                          for t in subterms(f))]
                good = any(consistent({f: True}, {t: 47}) and not consistent(
                    {f: True}, {t: 46}) for f in ch for t in subterms(f)
                    if is_el(t) and t[1] == name)
                rep.check(good, "slash", fn["qn"], "a part boundary is "
                          "stored for a position that is not a /")
                ok += 1
                from dp3a.terms import add
                for f, val in st.facts.items():
                    r = linear(f, val, ii)
                    c = None if r is None else add(r, ("call", "size", name))
                    if is_num(c):
                        rep.check(c <= 0, "slash", fn["qn"], "the last "
                                  "characters of the file name are not "
                                  "searched for a /")
                ent = it.entry_of.get(ii)
                rep.check(ent == 1, "slash", fn["qn"], "the search for "
                          "parts does not start after the leading /")
    if not ok:
        rep.undecided("slash", w, "positions not followed")


def order(rep, it, fn):
    """the loop over leading parts goes from long to short"""
    # the loop whose body returns an itsFileSys element compares prefixes of
    # decreasing length
    found = 0
    for (lid, fid), sts in it.back.items():
        for st in sts:
            for l, v in st.env.items():
                phi = None
                for t in subterms(v):
                    if isinstance(t, tuple) and t[0] == "phi" and \
                            t[1] == lid and t[3] == l:
                        phi = t
                if phi is None or v == phi:
                    continue
                for f, val in st.facts.items():
                    if f[0] == "eq" and "substr" in show(f):
                        idx = [t for t in subterms(f) if is_el(t) and
                               t[2] == phi and "itsMounts" not in
                               show(t[1])]
                        if idx:
                            found += 1
                            rep.check(dec(v, phi), "longest", fn["qn"],
                                      "shorter mount points are tried "
                                      "before longer ones")
    if not found:
        # nested loops: the outer step is not linked to the fact
        for (lid, fid), sts in it.back.items():
            for st in sts:
                for l, v in st.env.items():
                    ph = [t for t in subterms(v)
                          if isinstance(t, tuple) and t[0] == "phi" and
                          t[1] == lid and t[3] == l]
                    if ph and dec(v, ph[0]):
                        found += 1
                        rep.ok("longest", fn["qn"])
    if not found:
        rep.bad("longest", fn["qn"], "no loop tries the leading "
                "directories from long to short")


def dec(v, phi):
    d = sub(v, phi)
    return is_num(d) and d < 0


def check_vds(rep, prog):
    fn, it, ps, mem = reader(rep, prog, "VdsPartDesc")
    if not fn:
        rep.undecided("read", "VdsPartDesc", "no reader")
        return
    fields = {}
    for m, vs in mem.items():
        for v, f, p in vs:
            w = f.where(p.node) if p.node else m
            g = getter(v)
            if g:
                kind = "plain"
                if g[0] == "makeSubset":
                    fields["*" + g[1]] = (m, True, "extra")
                    continue
                key = g[1]
                if key.endswith("Diff"):
                    kind = "array"
                if key in fields and fields[key][0] != m:
                    rep.bad("read", w, "key %s is read into both %s and %s"
                            % (key, fields[key][0], m))
                fields[key] = (m, g[2], kind)
                continue
            ks = [getter(t) for t in subterms(v) if getter(t)]
            if isinstance(v, tuple) and v[0] == "call" and \
                    last(v[1]) == "getValue":
                # time: getValue(upd(read, …(getString(KEY))), "s")
                inner = v[2]
                own = None
                for t in subterms(inner):
                    g = getter(t)
                    if g and g[0] == "getString":
                        own = g
                # the outermost read decides
                if isinstance(inner, tuple) and inner[0] == "upd":
                    for t in subterms(inner[3]):
                        g = getter(t)
                        if g and g[0] == "getString":
                            own = g
                if own:
                    unit = [x for x in v[3:] if isinstance(x, tuple) and
                            any(y == ("str", "s") for y in subterms(x))]
                    rep.check(bool(unit), "unit", w, "the time %s is not "
                              "taken in seconds" % own[1])
                    fields[own[1]] = (m, own[2], "time")
            elif ks and any(k[0] == "makeSubset" for k in ks):
                k = [k for k in ks if k[0] == "makeSubset"][0]
                fields["*" + k[1]] = (m, True, "extra")
    need = {"Name": "itsName"}
    acc = {"Name": "getName", "FileName": "getFileName",
           "FileSys": "getFileSys", "ClusterDesc": "getClusterDescName",
           "StartTime": "getStartTime", "EndTime": "getEndTime",
           "StepTime": "getStepTime", "StartTimesDiff": "getStartTimes",
           "EndTimesDiff": "getEndTimes", "NChan": "getNChan",
           "StartFreqs": "getStartFreqs", "EndFreqs": "getEndFreqs"}
    for key, a in acc.items():
        for f in prog.by_qn.get(N + "VdsPartDesc::" + a, []):
            for p in Scanner(prog).run(f):
                v = p.value
                m = member(v) or (v[2] if isinstance(v, tuple) and
                                  v[0] == "f" else None)
                if m is None:
                    continue
                if key not in fields:
                    rep.bad("read", fn["qn"], "the key %s is not read"
                            % key)
                else:
                    rep.check(m == fields[key][0], "accessor", f["qn"],
                              "%s returns %s, but %s is read into %s"
                              % (a, m, key, fields[key][0]))
    ex = [k for k in fields if k.startswith("*")]
    vals = {k: v for k, v in fields.items() if not k.startswith("*")}
    group = fields.get("NChan", ("itsNChan",))[0]
    r = check_lines(rep, prog, "VdsPartDesc", vals,
                    {"StartFreqs": group, "EndFreqs": group})
    if r:
        wit, wfn = r
        diff_loops(rep, it, fn, wit, wfn, fields)
        extra_prefix(rep, prog, wfn, ex, fields)


def extra_prefix(rep, prog, wfn, ex, fields):
    it = Scanner(prog, opaque_writer())
    for p in it.run(wfn):
        if p.outcome == "throw":
            continue
        w = wfn.where(p.node) if p.node else wfn["qn"]
        toks, strs = stream(p.state)
        ad = [t for t in toks if t[0] == "adoptCollection"]
        ws = [i for i, t in enumerate(toks) if t[0] == "writeStream"]
        if not ex:
            rep.undecided("extra", w, "no extra parameters read")
            return
        pre = ex[0][1:]
        pf = ("sym", wfn["params"][1]["n"])
        ok = len(ad) == 1 and ws and toks.index(ad[0]) < ws[-1]
        rep.check(bool(ok), "extra", w, "the extra parameters are not "
                  "written")
        if ok:
            args = ad[0][1]
            t = [norm(flat(a, strs)) for a in args]
            rep.check([("val", pf), ("lit", pre)] in t, "extra", w,
                      "extra parameters are written under another prefix "
                      "than %s" % pre)
            rep.check(any(fields[ex[0]][0] in show(a) for a in args),
                      "extra", w, "other parameters than the extra ones "
                      "are written")


def diff_loops(rep, rit, rfn, wit, wfn, fields):
    """time arrays: stored[i] = read[i] + off, written[i] = stored[i] - off,
    with the same running offset"""
    roff = {}
    for key in ("StartTimesDiff", "EndTimesDiff"):
        if key not in fields:
            return
        m = fields[key][0]
        for (lid, fid), sts in rit.back.items():
            for st in sts:
                for l, v in st.env.items():
                    if is_el(l) and l[1] == ("f", ("this",), m):
                        off = None
                        el = [t for t in subterms(v) if is_el(t) and
                              m in show(t[1])]
                        if el and el[0][2] == l[2]:
                            off = sub(v, whole(v, el[0]))
                            roff[m] = (abstract(off, rit, st, lid), rfn)
                            rep.ok("offset", "%s %s" % (rfn["qn"], m))
        rep.check(m in roff, "offset", rfn["qn"], "the offsets of %s are "
                  "not converted to times" % m)
    woff = {}
    for (lid, fid), sts in wit.back.items():
        for st in sts:
            toks, strs = stream(st)
            vs = [t for t in toks if t[0] == "tok"]
            if not vs:
                continue
            t = vs[-1][1]
            el = [x for x in subterms(t) if is_el(x)]
            if not el:
                continue
            m = [fields[k][0] for k in ("StartTimesDiff", "EndTimesDiff")
                 if fields[k][0] in show(el[0][1])]
            if not m:
                continue
            m = m[0]
            off = sub(whole(t, el[0]), t)
            woff.setdefault(m, []).append(abstract(off, wit, st, lid))
            # separator: a comma exactly for later elements
            i = el[0][2]
            first = None
            about = {f: v for f, v in st.facts.items()
                     if contains(f, i) and "size(" not in show(f)}
            if not consistent(about, {i: 0}):
                first = False
            elif not any(consistent(about, {i: k}) for k in (1, 2, 7)):
                first = True
            prev = vs[-2][1] if len(vs) > 1 else None
            comma = prev in (44, ("str", ","))
            if first is True:
                rep.check(not comma, "separator", wfn["qn"], "a comma "
                          "before the first element of %s" % m)
            elif first is False:
                rep.check(comma, "separator", wfn["qn"], "no comma before "
                          "a later element of %s" % m)
            else:
                rep.check(any(x[1] in (44, ("str", ","), ("str", ", "))
                              for x in vs), "separator", wfn["qn"],
                          "the elements of %s are not separated" % m)
            # the loop of this member is entered for every element
            ent = wit.entry_of.get(i)
            rep.check(ent == 0, "separator", wfn["qn"], "the elements of %s "
                      "are not written from the first" % m)
    for m, (ro, f) in roff.items():
        for wo in woff.get(m, []):
            if ro is None or wo is None:
                rep.undecided("offset", wfn["qn"], m)
                continue
            rep.check(ro == wo, "offset", wfn["qn"], "%s is written "
                      "relative to %s but read relative to %s"
                      % (m, wo, ro))
        rep.check(m in woff, "offset", wfn["qn"], "%s is not written" % m)


def whole(t, el):
    """the element as it occurs in t (loads are wrapped in init)"""
    i = ("init", el)
    return i if any(x == i for x in subterms(t)) else el


def abstract(off, it, st, lid):
    """running offset as (start, step, shift): off_i = start + i*step +
    shift, in terms of the member names"""
    ph = [t for t in subterms(off) if isinstance(t, tuple) and
          t[0] == "phi" and t[1] == lid]
    if len(ph) != 1:
        return None
    ph = ph[0]
    shift = sub(off, ph)
    step = sub(st.env.get(ph[3], ph), ph)
    start = it.entry_of.get(ph)

    def nm(t):
        s = show(t)
        if "getDouble" in s and "StepTime" in s or "itsStepTime" in s:
            return "StepTime" if not is_num(t) else s
        if "StartTime" in s and "getValue" in s or "itsStartTime" in s:
            return "StartTime"
        if "EndTime" in s:
            return "EndTime"
        return s
    return (nm(start), nm(step), nm(shift))


def numbered(rep, prog, rq, wq, what, part, opq):
    """the i-th part is written and read under the same numbered prefix"""
    rf = prog.by_qn.get(N + rq, [])
    wf = prog.by_qn.get(N + wq, [])
    if not rf or not wf:
        rep.undecided("numbered", what, "reader or writer missing")
        return
    rf, wf = rf[0], wf[0]
    rep.fn(rf)
    rep.fn(wf)
    res = {}
    for side, f in (("read", rf), ("write", wf)):
        it = Scanner(prog, GET + opaque_writer() + opq)
        ps = it.run(f)
        for (lid, fid), sts in it.back.items():
            for st in sts:
                toks, strs = stream(st)
                for e in st.events:
                    if e[0] != "call":
                        continue
                    nm = last(e[1])
                    if side == "read" and nm in ("makeSubset",) or \
                            side == "write" and nm == "write" and \
                            ("NodeDesc" in e[1] or "VdsPartDesc" in e[1]):
                        a = e[2]
                        t = a[1] if side == "read" else a[-1]
                        if t == ("str", ""):
                            continue
                        ps_ = text(t, strs)
                        if ps_ is None:
                            rep.undecided("numbered", f["qn"], show(t)[:60])
                            continue
                        cnt = [x[1] for x in ps_ if x[0] == "val"]
                        sig = tuple(x if x[0] == "lit" else "#"
                                    for x in ps_)
                        ok = len(cnt) == 1 and it.entry_of.get(cnt[0]) == 0
                        rep.check(ok, "numbered", f.where(e[3]), "the parts "
                                  "are not numbered from 0: %s"
                                  % [show(c)[:40] for c in cnt])
                        res.setdefault(side, set()).add(sig)
                        if side == "write" and cnt:
                            o = a[0]
                            el = [x for x in subterms(o) if is_el(x)]
                            rep.check(bool(el) and el[0][2] == cnt[0],
                                      "numbered", f.where(e[3]), "part %s "
                                      "is written under number %s"
                                      % (show(el[0][2])[:30] if el else "?",
                                         show(cnt[0])[:30]))
                        if cnt:
                            d = st.env.get(cnt[0][3]) if \
                                isinstance(cnt[0], tuple) and \
                                len(cnt[0]) > 3 else None
                            if d is not None:
                                rep.check(sub(d, cnt[0]) == 1, "numbered",
                                          f.where(e[3]), "part numbers are "
                                          "not consecutive")
    rep.check(bool(res.get("read")) and res.get("read") == res.get("write"),
              "numbered", rf["qn"], "parts are written under %s but read "
              "under %s" % (res.get("write"), res.get("read")))


def check_vdsdesc(rep, prog):
    numbered(rep, prog, "VdsDesc::init", "VdsDesc::write", "Part",
             "VdsPartDesc", ("VdsPartDesc",))
    numbered(rep, prog, "ClusterDesc::getHetCluster", "ClusterDesc::write",
             "Node", "NodeDesc", ("NodeDesc", "addNode"))
    # header keys
    rf = prog.by_qn.get(N + "VdsDesc::init", [])
    if rf:
        it = Scanner(prog, GET + ("VdsPartDesc",))
        it.run(rf[0])
        bound = set()
        for (lid, fid), sts in it.back.items():
            for st in sts:
                for f, v in st.facts.items():
                    for t in subterms(f):
                        g = getter(t)
                        if g and g[0] == "getInt32" and \
                                f[0] == ("lt0" if v else "eq0"):
                            bound.add(g[1])
                ok = False
                for l, v in st.env.items():
                    if l == ("f", ("this",), "itsParts"):
                        ok = isinstance(v, tuple) and v[0] == "upd" and \
                            last(v[1]) in ("push_back", "emplace_back")
                rep.check(ok, "parts", rf[0]["qn"], "a part is read but "
                          "not stored")
        wf = prog.by_qn[N + "VdsDesc::write"][0]
        itw = Scanner(prog, opaque_writer())
        for p in itw.run(wf):
            toks, strs = stream(p.state)
            ls, op = lines(toks)
            keys = {}
            for line in ls:
                if line and line[0][0] == "tok":
                    k, rest, prob = key_of(line, None)
                    keys[k] = val_kind(rest)
                elif line and line[0][0] == "write":
                    a = line[0][1]
                    rep.check(a[-1] in (("str", ""), ("call", "std::"
                              "basic_string<char>::basic_string")) or
                              text(a[-1], strs) == [], "header",
                              wf["qn"], "the global description is written "
                              "with a prefix")
            rep.check(bool(bound) and all(
                keys.get(b) == ("size", "itsParts") for b in bound),
                "header", wf["qn"], "the number of parts is read from %s "
                "but written as %s" % (sorted(bound), keys))
    wf = prog.by_qn.get(N + "ClusterDesc::write", [])
    ini = prog.by_qn.get(N + "ClusterDesc::init", [])
    if wf and ini:
        key = None
        it = Scanner(prog, GET + ("getHetCluster", "getHomCluster",
                                  "getSubClusters", "ParameterSet",
                                  "addNodes"))
        for p in it.run(ini[0]):
            v = p.state.env.get(("f", ("this",), "itsName"))
            if v is None:
                for t in subterms(p.state.env.get(("this",))):
                    if isinstance(t, tuple) and len(t) == 2 and \
                            t[0] == "itsName":
                        v = t[1]
            g = getter(v) if v is not None else None
            if g:
                key = g[1]
            # which reader is chosen
            ev = [last(e[1]) for e in p.state.events if e[0] == "call"]
            which = [x for x in ev if x in ("getHetCluster", "getHomCluster",
                                            "getSubClusters")]
            d = {}
            for f, v in p.state.facts.items():
                for t in subterms(f):
                    if isinstance(t, tuple) and t[0] == "call" and \
                            last(t[1]) == "isDefined":
                        for k in ("Node0.NodeName", "SubClusters"):
                            if any(x == ("str", k) for x in subterms(t)):
                                d[k] = v if f == t else not v \
                                    if f[0] == "eq0" else v
            if p.outcome == "throw":
                continue
            w = ini[0].where(p.node) if p.node else ini[0]["qn"]
            if d.get("Node0.NodeName"):
                rep.check(which == ["getHetCluster"], "kind", w, "a detailed "
                          "description is read by %s" % which)
            elif d.get("SubClusters"):
                rep.check(which == ["getSubClusters"], "kind", w,
                          "subclusters are read by %s" % which)
            else:
                rep.check(which == ["getHomCluster"], "kind", w,
                          "a concise description is read by %s" % which)
        for p in Scanner(prog, opaque_writer()).run(wf[0]):
            toks, strs = stream(p.state)
            ls, op = lines(toks)
            keys = {}
            for line in ls:
                if line and line[0][0] == "tok":
                    k, rest, prob = key_of(line, None)
                    keys[k] = val_kind(rest)
            rep.check(key is not None and keys.get(key) ==
                      ("member", "itsName"), "header", wf[0]["qn"],
                      "the cluster name is read from %s but written as %s"
                      % (key, keys))


def check_cluster(rep, prog):
    F = lambda n: ("f", ("this",), n)
    for fn in prog.by_qn.get(N + "ClusterDesc::addNode", []):
        rep.fn(fn)
        it = Scanner(prog)
        node = ("sym", fn["params"][0]["n"])
        for p in it.run(fn):
            w = fn.where(p.node) if p.node else fn["qn"]
            found = None
            for f, v in p.state.facts.items():
                s = show(f)
                if "find(" in s or "count(" in s or "contains(" in s:
                    found = (f, v)
            known = known_of(found)
            can = ("sym", fn["params"][1]["n"])
            canv = p.state.facts.get(("eq0", can))
            canv = None if canv is None else not canv
            if canv is None and can in p.state.facts:
                canv = p.state.facts[can]
            nodes = p.state.env.get(F("itsNodes"))
            grown = isinstance(nodes, tuple) and any(
                isinstance(t, tuple) and t[0] == "upd" and
                last(t[1]) in ("push_back", "emplace_back")
                for t in subterms(nodes))
            if known is None:
                rep.undecided("add", w, "lookup not recognised")
                continue
            if p.outcome == "throw":
                rep.check(known and canv is False, "add", w, "addNode "
                          "rejects a node that is new or may exist")
                continue
            if known:
                rep.check(canv is True, "add", w, "a duplicate node is "
                          "accepted although it must not exist")
                rep.check(not grown, "add", w, "a node that exists is "
                          "added again")
                continue
            rep.check(grown, "add", w, "a new node is not stored")
            # map entry = index before the push
            size = ("call", "size", ("init", F("itsNodes")))
            ok = False
            for l, v in p.state.env.items():
                if isinstance(l, tuple) and "itsNodeMap" in show(l) and \
                        v == size:
                    ok = "getName" in show(l) or "itsName" in show(l)
            for e in p.state.events:
                if e[0] == "call" and last(e[1]) in (
                        "emplace", "insert", "insert_or_assign",
                        "try_emplace") and "itsNodeMap" in str(e):
                    ok = ok or size in e[2]
            rep.check(ok, "add", w, "the name of a new node is not mapped "
                      "to its position")
    # add2Map: every file system of the node
    for fn in prog.by_qn.get(N + "ClusterDesc::add2Map", []):
        rep.fn(fn)
    for fn in prog.by_qn.get(N + "ClusterDesc::getNode", []):
        rep.fn(fn)
        it = Scanner(prog)
        for p in it.run(fn):
            w = fn.where(p.node) if p.node else fn["qn"]
            found = None
            for f, v in p.state.facts.items():
                s = show(f)
                if "find(" in s or "count(" in s or "contains(" in s:
                    found = (f, v)
            known = known_of(found)
            if known is None:
                if "at(" in show(p.value):
                    rep.ok("get", w)
                else:
                    rep.undecided("get", w, "lookup not recognised")
                continue
            if p.outcome == "throw":
                rep.check(not known, "get", w, "a known node is rejected")
            else:
                s = show(p.value)
                rep.check(known and "itsNodes" in s and
                          ("second" in s or "itsNodeMap" in s), "get", w,
                          "getNode returns %s" % s[:80])


def known_of(found):
    """truth of 'the name is known' from a lookup fact"""
    if not found:
        return None
    f, v = found
    s = show(f)
    if "find(" in s and ("end(" in s or "cend(" in s) and \
            f[0] in ("eq", "eq0"):
        return not v
    if ("count(" in s or "contains(" in s):
        return (not v) if f[0] == "eq0" else v
    return None


def keyof(t, name):
    """key pieces of the list an element is taken from:
    ("RemoteDisks", per_node, index)"""
    for e in subterms(t):
        if is_el(e) and isinstance(e[1], tuple) and e[1][0] == "call" and \
                last(e[1][1]) == "getStringVector":
            ps = norm(flat(e[1][3], {}))
            lits = [x[1] for x in ps if x[0] == "lit"]
            vals = [x[1] for x in ps if x[0] == "val"]
            if len(lits) != 1 or len(vals) > 1:
                return None
            return lits[0].rstrip("."), bool(vals), e, e[1]
    return None


def check_nodes(rep, prog):
    """per-node overrides of the concise description"""
    for fn in prog.by_qn.get(N + "ClusterDesc::addNodes", []):
        rep.fn(fn)
        it = Scanner(prog, GET + ("addNode", "addFileSys", "setName",
                                  "setType", "NodeDesc"))
        it.run(fn)
        typ = ("sym", fn["params"][1]["n"])
        n = 0
        got = set()
        for (lid, fid), sts in it.back.items():
            for st in sts:
                ev = [e for e in st.events if e[0] == "call"]
                nm = [last(e[1]) for e in ev]
                if "addNode" in nm:
                    n += 1
                    st_ = [e for e in ev if last(e[1]) == "setType"]
                    rep.check(bool(st_) and st_[-1][2][-1] == typ, "nodes",
                              fn["qn"], "the node type is not the "
                              "requested one")
                    st_ = [e for e in ev if last(e[1]) == "setName"]
                    rep.check(bool(st_), "nodes", fn["qn"],
                              "the node gets no name")
                    continue
                ad = [e for e in ev if last(e[1]) == "addFileSys"]
                if not ad or not isinstance(ad[-1][2][2], tuple):
                    continue
                fs, mp = ad[-1][2][1], ad[-1][2][2]
                w = fn.where(ad[-1][3])
                km = keyof(mp, None)
                if not km or lid != index_loop(km[2]):
                    continue
                key, per, el, lst = km
                names = [x for x in subterms(fs) if is_el(x) and
                         x != el]
                defd = {}
                empt = {}
                for f, v in st.facts.items():
                    for t in subterms(f):
                        if not isinstance(t, tuple) or t[0] != "call":
                            continue
                        if last(t[1]) == "isDefined":
                            ps = norm(flat(t[3], {}))
                            if ps[0][0] == "lit":
                                defd[ps[0][1].rstrip(".")] = not v \
                                    if f[0] == "eq0" else v
                        if t[1] == "size" and f == ("eq0", t):
                            k = keyof(("el", t[2], 0), None)
                            if k:
                                empt[k[0], k[1]] = v
                if key not in ("RemoteDisks", "LocalDisks"):
                    rep.bad("nodes", w, "mount points are taken from %s"
                            % key)
                    continue
                got.add((key, per))
                if key in defd:
                    rep.check(per == defd[key], "override", w, "%s of a "
                              "node are taken from the %s list"
                              % (key, "node's" if per else "common"))
                else:
                    rep.bad("override", w, "%s.<node> is not looked for"
                            % key)
                # bounds: every element of that list
                i = el[2]
                rep.check(st.facts.get(("lt0", sub(i, ("call", "size",
                                                       lst)))) is True and
                          it.entry_of.get(i) == 0, "nodes", w, "not every "
                          "element of %s is used" % key)
                if key == "RemoteDisks":
                    e = empt.get(("RemoteFileSys", per))
                    kf = keyof(fs, None)
                    if e is True:
                        rep.check(fs == mp, "filesys", w, "without "
                                  "RemoteFileSys the file system of %s is "
                                  "%s" % (show(mp)[:60], show(fs)[:60]))
                    elif e is False:
                        rep.check(bool(kf) and kf[0] == "RemoteFileSys" and
                                  kf[1] == per and kf[2][2] == i, "filesys",
                                  w, "the file system of %s is %s"
                                  % (show(mp)[:80], show(fs)[:80]))
                    else:
                        rep.bad("filesys", w, "RemoteFileSys is not looked "
                                "at")
                else:
                    ps = norm(flat(fs, {}))
                    ok = len(ps) == 3 and ps[1] == ("lit", ":") and \
                        ps[2] == ("val", mp) and ps[0][0] == "val" and \
                        is_el(ps[0][1])
                    rep.check(ok, "filesys", w, "a local file system is "
                              "named %s" % show(fs)[:80])
        if not n:
            rep.undecided("nodes", fn["qn"], "loop not followed")
        elif got:
            for key in ("RemoteDisks", "LocalDisks"):
                for per in (False, True):
                    rep.check((key, per) in got, "override", fn["qn"],
                              "%s%s is not used" % (key, ".<node>" if per
                                                    else ""))
    vals = {}
    for qn, e in prog.enums.items():
        if qn.endswith("NodeDesc::NodeType"):
            vals = {v["n"]: int(v["v"]) for v in e["vals"]}
    for fn in prog.by_qn.get(N + "ClusterDesc::getHomCluster", []):
        rep.fn(fn)
        it = Scanner(prog, GET + ("addNodes",))
        for p in it.run(fn):
            pairs = {}
            for e in p.state.events:
                if e[0] == "call" and last(e[1]) == "addNodes":
                    sub_ = [t[3][1] for t in subterms(e[2][1])
                            if isinstance(t, tuple) and t[0] == "call" and
                            last(t[1]) == "makeSubset" and
                            isinstance(t[3], tuple)]
                    pairs[sub_[0].rstrip(".") if sub_ else "Any"] = \
                        e[2][-1]
            w = fn.where(p.node) if p.node else fn["qn"]
            for k, v in pairs.items():
                rep.check(v == vals.get(k, v), "kinds", w, "the %s nodes get "
                          "type number %s" % (k, v))
            rep.check({"Compute", "Storage", "Head"} <= set(pairs), "kinds",
                      w, "not all kinds of nodes are read: %s"
                      % sorted(pairs))
    for fn in prog.by_qn.get(N + "ClusterDesc::getSubClusters", []):
        rep.fn(fn)
        it = Scanner(prog, ("addNode", "ClusterDesc", "getNodes",
                            "expandedName"))
        it.run(fn)
        k = 0
        for (lid, fid), sts in it.back.items():
            for st in sts:
                for e in st.events:
                    if e[0] == "call" and last(e[1]) == "addNode":
                        k += 1
                        rep.check(e[2][-1] in (1, True), "sub",
                                  fn.where(e[3]), "a node in two "
                                  "subclusters is an error")
        rep.check(k > 0, "sub", fn["qn"], "the nodes of a subcluster are "
                  "not added")
    for fn in prog.by_qn.get(N + "ClusterDesc::addNode", []):
        it = Scanner(prog)
        it.run(fn)
        size = ("call", "size", ("init", ("f", ("this",), "itsNodes")))
        k = 0
        for (lid, fid), sts in it.back.items():
            for st in sts:
                k += 1
                ok = False
                for e in st.events:
                    if e[0] == "call" and last(e[1]) in (
                            "push_back", "emplace_back") and \
                            len(e) > 5 and "itsFS2Nodes" in str(e[5]):
                        ok = e[2][-1] == size
                        rep.check(ok, "fs", fn.where(e[3]), "a file system "
                                  "is mapped to node %s"
                                  % show(e[2][-1])[:60])
                if not ok:
                    rep.bad("fs", fn["qn"], "a file system of a node is "
                            "not mapped to it")
        rep.check(k > 0, "fs", fn["qn"], "the file systems of a new node "
                  "are not registered")


def index_loop(el):
    i = el[2]
    return i[1] if isinstance(i, tuple) and i[0] == "phi" else None


def check(rep, tier):
    prog = facts.extract(TUS)
    check_node(rep, prog)
    check_find(rep, prog)
    check_vds(rep, prog)
    check_vdsdesc(rep, prog)
    check_cluster(rep, prog)
    check_nodes(rep, prog)
