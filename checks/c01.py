"""C01: text-to-number conversion accepts exactly the values of the target
type and never silently changes them."""
from dp3a import facts
from dp3a.absint import Interp, Budget, last, trange, INF
from dp3a.terms import sub, add, contains, subterms, show, monos, is_num, Poly

TECHNIQUE = (
    "Path-sensitive abstract interpretation (term domain with intervals, "
    "loops widened) of every strTo* conversion in common/StringTools, "
    "following helper calls; each abstract return and throw path is checked "
    "against the errno/end-pointer/base/sign/range protocol of the C strto* "
    "family.")
MINIMUM = 60
PURE = True

NAMES = ["strToLong", "strToInt", "strToInt32", "strToInt16", "strToUlong",
         "strToUint", "strToUint32", "strToUint16", "strToInt64",
         "strToUint64", "strToFloat", "strToDouble"]
FAMILY = {"strtol": ("int", False), "strtoll": ("int", False),
          "strtoimax": ("int", False),
          "strtoul": ("int", True), "strtoull": ("int", True),
          "strtoumax": ("int", True),
          "strtof": ("float", 32), "strtod": ("float", 64),
          "strtold": ("float", 80)}
ERRNO = ("deref", ("call", "__errno_location"))
ERANGE = 34


class Conv(Interp):
    def __init__(self, prog):
        m = {}
        for f in FAMILY:
            m[f] = self.strto
            m["std::" + f] = self.strto
        super().__init__(prog, models=m)
        self.calls = {}
        self.loops = {}

    @staticmethod
    def strto(self, n, fr, st, args, loc, locs):
        k = next(self.fresh_n)
        name = last(n["fn"])
        base = args[2] if len(args) > 2 else None
        v = ("conv", name, k)
        t = fr.fn.ty(n["t"])
        self.note(v, t)
        end = ("endptr", k)
        err = ("errno", k)
        self.note(err, {"k": "int", "w": 32, "s": "int"})
        self.calls[k] = dict(name=name, ptr=args[0], base=base, node=n,
                             before=st.env.get(ERRNO), st=st.facts.copy(),
                             t=t)
        st.env[ERRNO] = err
        if isinstance(args[1], tuple) and args[1][0] == "ptr":
            self.store(self.deref(args[1]), end, st, n, fr)
        st.event("strto", k)
        return [(st, v)]

    def lossy(self, v, t, l, h, st):
        # positions in the text: strings are assumed shorter than 2^31
        if not contains(v, lambda x: isinstance(x, tuple)
                        and x[0] == "conv"):
            return v
        return super().lossy(v, t, l, h, st)

    def fcast(self, v, t):
        if isinstance(v, tuple) and v[0] == "conv":
            if FAMILY[v[1]] == ("float", 32):
                return v
            r = ("fcast", t["s"], v)
            self.note(r, t)
            return r
        return v

    def loop_end(self, n, fr, st):
        self.loops.setdefault((n["i"], fr.id), []).append(
            (dict(st.env), dict(st.facts)))


def one_char_fact(f, val):
    """fact 'term + k == 0' -> (term, -k)"""
    if isinstance(f, tuple) and f[0] == "eq0":
        m = monos(f[1])
        ks = [k for k in m if k != ()]
        if len(ks) == 1 and len(ks[0]) == 1 and abs(m[ks[0]]) == 1:
            return ks[0][0], -m.get((), 0) * m[ks[0]]
    return None


def chars_at(fs, base, off):
    """(must be, must not be) sets for the character at base+off."""
    yes, no = set(), set()
    el = (("elem", ("sym", None), off),)
    for f, val in fs.items():
        r = one_char_fact(f, val)
        if r is None:
            continue
        t, c = r
        if is_el(t, base, off):
            (yes if val else no).add(c)
    return yes, no


def is_el(t, base, off):
    if not isinstance(t, tuple):
        return False
    if t[0] == "elem":
        return t[2] == off
    if t[0] == "init" and isinstance(t[1], tuple) and t[1][0] == "el":
        return t[1][2] == off
    return False


def isspace_of(f):
    """eq0(isspace(elem(x, i))) -> i"""
    for t in subterms(f):
        if isinstance(t, tuple) and t[0] == "call" and \
                last(t[1]) == "isspace":
            a = t[2] if len(t) > 2 else None
            while isinstance(a, tuple) and a[0] in ("trunc",):
                a = a[2]
            if isinstance(a, tuple) and a[0] == "elem":
                return a[2]
            if isinstance(a, tuple) and a[0] == "init" and \
                    a[1][0] == "el":
                return a[1][2]
    return None


def space_known(fs, idx):
    """True / False / None: what the facts say about isspace(text[idx])."""
    for f, val in fs.items():
        if isinstance(f, tuple) and f[0] in ("eq0", "truth"):
            i = isspace_of(f)
            if i is not None and i == idx:
                return (not val) if f[0] == "eq0" else val
    return None


def trim_loop(it, ph, step, rep, fn, what):
    """ph is a widened loop variable.  True if every iteration moves it by
    'step' over a white-space character; False if some iteration moves it
    over a character not known to be white space; None if not recognised."""
    back = it.loops.get((ph[1], ph[2]))
    if not back:
        return None
    for env, fs in back:
        new = env.get(ph[3])
        if new == ph:
            continue
        if new != add(ph, step):
            return None
        idx = ph if step > 0 else add(ph, -1)
        if space_known(fs, idx) is not True:
            return False
    return True


def conv_terms(v):
    return [t for t in subterms(v) if isinstance(t, tuple)
            and t[0] == "conv"]


def check_fn(rep, prog, name):
    fns = [f for f in prog.fn("dp3::common::" + name) if f.get("body")]
    if not fns:
        raise facts.AnalysisError("dp3::common::%s not found" % name)
    fn = fns[0]
    rep.fn(fn)
    site = fn.where()
    it = Conv(prog)
    try:
        paths = it.run(fn)
    except Budget as e:
        rep.undecided("conversion", site, "too many paths: %s" % e)
        return
    rep.count("abstract paths", len(paths))
    rt = fn.ty(fn["ret"])
    lo, hi = trange(rt)
    isf = rt["k"] == "float"
    unsigned = bool(rt.get("u"))
    hexchars = set()
    nret = 0
    hexopen = False
    for p in paths:
        cs = [it.calls[e[1]] | {"k": e[1]} for e in p.events
              if e[0] == "strto"]
        fs = p.facts
        if p.outcome in ("end", "noreturn"):
            continue
        if p.outcome == "return":
            nret += 1
            v = p.value
            ts = conv_terms(v)
            if not ts:
                if cs:
                    rep.bad("R1-value", fn.where(p.node),
                            "%s returns %s, not the converted value"
                            % (name, show(v)))
                elif is_num(v) or isinstance(v, float):
                    rep.bad("R1-value", fn.where(p.node),
                            "%s returns the constant %s without converting "
                            "the text" % (name, show(v)))
                else:
                    rep.undecided("R1-value", site,
                                  "unrecognised conversion: "
                                  + show(v)[:80])
                continue
            call = it.calls[ts[0][2]]
            k = ts[0][2]
            where = fn.where(p.node)
            fam = FAMILY[call["name"]]
            # R1: value and range
            if v != ts[0]:
                kinds = {t[0] for t in subterms(v) if isinstance(t, tuple)}
                if isinstance(v, tuple) and v[0] == "trunc" and \
                        v[2] == ts[0]:
                    r = it.range(ts[0], p.state)
                    rep.bad("R1-range", where,
                            "%s returns a %s narrowed to %s without a check "
                            "that it fits (known range %s..%s)"
                            % (name, call["name"], rt["s"],
                               r[0], r[1]))
                elif isinstance(v, tuple) and v[0] == "fcast":
                    if any(contains(f, lambda x: x == ts[0]) for f in fs):
                        rep.undecided("R1-range", where,
                                      "value converted through a wider "
                                      "floating type with its own range test")
                    else:
                        rep.bad("R1-range", where,
                                "%s converts with %s and narrows to %s "
                                "unchecked" % (name, call["name"], rt["s"]))
                elif kinds & {"op", "phi", "upd", "call"}:
                    rep.undecided("R1-value", where, show(v)[:100])
                else:
                    rep.bad("R1-value", where,
                            "%s returns %s instead of the converted value"
                            % (name, show(v)))
                continue
            if isf:
                if fam[0] != "float" or fam[1] < rt["w"]:
                    rep.bad("R1-family", where, "%s uses %s, which cannot "
                            "represent every %s" % (name, call["name"],
                                                    rt["s"]))
                else:
                    rep.ok("R1-family", where)
            else:
                l, h = it.range(v, p.state)
                if fam[0] != "int":
                    rep.bad("R1-family", where, "%s converts through %s: "
                            "integers beyond 2^53 change value"
                            % (name, call["name"]))
                elif l < lo or h > hi:
                    rep.bad("R1-range", where, "%s may return a value "
                            "outside %s" % (name, rt["s"]))
                elif fam[1] != unsigned and \
                        trange(call["t"])[1] < hi:
                    rep.bad("R1-family", where,
                            "%s uses %s: valid %s values are rejected"
                            % (name, call["name"], rt["s"]))
                else:
                    rep.ok("R1-range", where)
            # R2: errno
            rep.check(call["before"] == 0, "R2-errno-cleared", where,
                      "errno is not cleared before %s in %s (stale error "
                      "rejects valid text, or is read as success)"
                      % (call["name"], name))
            rng = it.decide(("eq0", sub(("errno", k), ERANGE)), p.state)
            good = rng is False
            if not good and not isf:
                tl, th = trange(call["t"])
                l, h = it.range(v, p.state)
                good = h < th and (l > tl or fam[1])
            rep.check(good, "R2-overflow-rejected", where,
                      "%s can return normally although %s reported ERANGE"
                      % (name, call["name"]))
            # R3: end pointer
            ep = ("endptr", k)
            eq = None
            other = False
            for f, val in fs.items():
                if not contains(f, lambda x: x == ep):
                    continue
                if isinstance(f, tuple) and f[0] == "eq" and val:
                    eq = f[2] if f[1] == ep else f[1]
                else:
                    other = True
            phis = [a for a, b in it.entry_of.items() if b == ep]
            if eq is None and phis:
                rep.undecided("R3-complete", where, "end pointer moved by a "
                              "loop")
            elif eq is None and any(
                    isinstance(f, tuple) and f[0] == "eq0" and val and
                    at_end(f[1], ep) for f, val in fs.items()):
                rep.bad("R3-trailing", where, "%s only tests for a NUL where "
                        "the conversion ended: trailing blanks are not "
                        "ignored, and a text that goes on after a NUL is "
                        "accepted" % name)
            elif eq is None and other and any(
                    f[0] == "eq0" and contains(f, lambda x: x == ep)
                    for f in fs if isinstance(f, tuple)):
                rep.undecided("R3-complete", where, "end pointer tested "
                              "indirectly")
            elif eq is None:
                rep.bad("R3-complete", where,
                        "%s returns without establishing that %s consumed "
                        "the whole text" % (name, call["name"]))
            else:
                end_rule(rep, it, fn, where, call, eq, fs, name)
            # offsets
            st_off = offset_rule(rep, it, fn, where, call, fs, name)
            # R4: sign of unsigned
            if not isf and fam[1]:
                if st_off is None:
                    rep.undecided("R4-sign", where, "unrecognised start")
                else:
                    yes, no = chars_at(fs, None, st_off)
                    sk = skipped(it, call, fs, st_off)
                    if ord('-') in no or (yes and ord('-') not in yes):
                        if sk is False:
                            rep.bad("R4-sign", where, "%s tests the sign at "
                                    "a position where white space may "
                                    "remain" % name)
                        else:
                            rep.ok("R4-sign", where)
                    elif any("find" in show(f) for f in fs):
                        rep.undecided("R4-sign", where, "sign searched")
                    else:
                        rep.bad("R4-sign", where,
                                "%s accepts a negative number and wraps it "
                                "around" % name)
            # R5: base
            if not isf and st_off is not None:
                yes0, _ = chars_at(fs, None, st_off)
                yes1, no1 = chars_at(fs, None, add(st_off, 1))
                ishex = (ord('0') in yes0) and yes1 and \
                    yes1 <= {ord('x'), ord('X')}
                b = call["base"]
                if b == 10:
                    rep.ok("R5-base", where)
                elif b in (0, 16):
                    if ishex:
                        rep.ok("R5-base", where)
                        hexchars |= yes1
                        hex_len(rep, fn, where, fs, st_off, eq, name)
                    elif any(last(t[1]) in ("tolower", "toupper")
                             for f in fs for t in subterms(f)
                             if isinstance(t, tuple) and t[0] == "call") \
                            or any(isinstance(t, tuple) and t[0] == "call"
                                   and last(t[1]) in ("compare", "strncmp",
                                                      "strncasecmp",
                                                      "substr", "find",
                                                      "starts_with")
                                   for f in fs for t in subterms(f)):
                        rep.undecided("R5-base", where, "hex prefix tested "
                                      "by a library call")
                        hexopen = True
                    else:
                        rep.bad("R5-base", where,
                                "%s converts with base %s although the text "
                                "is not known to start with 0x: decimal text "
                                "with leading zeros is read as octal/hex"
                                % (name, b))
                elif is_num(b):
                    rep.bad("R5-base", where, "%s converts with base %s"
                            % (name, b))
                else:
                    rep.undecided("R5-base", where, "base " + show(b))
                    hexopen = True
            elif not isf:
                hexopen = True
        elif p.outcome == "throw":
            throw_rule(rep, it, fn, p, cs, name, lo, hi, isf, unsigned)
    if not nret:
        rep.bad("R1-value", site, "%s never returns" % name)
    if not isf and not hexopen and nret and it.calls:
        want = {ord('x'), ord('X')}
        rep.check(hexchars == want, "R5-hex", site,
                  "%s does not accept a hexadecimal value written with %s"
                  % (name, "/".join("0" + chr(c) for c in want - hexchars)))


def off_of(ptr):
    if isinstance(ptr, tuple) and ptr[0] == "ptr":
        return ptr[2] if ptr[1][0] != "el" else add(ptr[1][2], ptr[2])
    return None


def offset_rule(rep, it, fn, where, call, fs, name):
    off = off_of(call["ptr"])
    if off is None:
        return None
    if off == 0:
        return 0
    if isinstance(off, tuple) and off[0] == "phi":
        r = trim_loop(it, off, 1, rep, fn, "start")
        ent = it.entry_of.get(off)
        if r is False or (is_num(ent) and ent != 0):
            rep.bad("R3-start", where, "%s skips leading characters that are "
                    "not white space" % name)
        elif r is True and ent == 0:
            rep.ok("R3-start", where)
        else:
            rep.undecided("R3-start", where, show(off)[:60])
        return off
    if is_num(off) or (isinstance(off, Poly)):
        rep.bad("R3-start", where, "%s starts converting at offset %s: "
                "leading characters are ignored" % (name, show(off)))
        return off
    rep.undecided("R3-start", where, show(off)[:60])
    return off


def skipped(it, call, fs, off):
    """Is white space known to be skipped at off?"""
    if off == 0:
        return False
    if space_known(fs, off) is False:
        return True
    if isinstance(off, tuple) and off[0] == "phi":
        # left the loop because the text is exhausted
        for f, val in fs.items():
            if isinstance(f, tuple) and f[0] == "lt0" and not val and \
                    contains(f[1], lambda x: x == off):
                return True
        # or because the condition was decided by the range
        return None
    return None


def at_end(t, ep):
    """the character the end pointer points at"""
    while isinstance(t, tuple) and t and t[0] in ("conv", "init", "cast"):
        t = t[-1]
    if isinstance(t, tuple) and t[:1] == ("deref",):
        return t[1] == ep
    return isinstance(t, tuple) and t[:1] in (("el",), ("elem",)) and \
        t[1] == ep and t[2] == 0


def end_rule(rep, it, fn, where, call, eq, fs, name):
    e = off_of(eq)
    if e is None:
        rep.undecided("R3-complete", where, show(eq)[:80])
        return
    if isinstance(eq, tuple) and isinstance(call["ptr"], tuple) and \
            call["ptr"][0] == "ptr":
        b1 = eq[1][1] if eq[1][0] == "el" else eq[1]
        b2 = call["ptr"][1]
        b2 = b2[1] if b2[0] == "el" else b2
        if b1 != b2:
            rep.undecided("R3-complete", where, "different buffers")
            return

    def is_size(x):
        return isinstance(x, tuple) and x[0] == "call" and \
            last(x[1]) in ("size", "length", "strlen")
    if is_size(e):
        off = off_of(call["ptr"])
        if off is not None and fs.get(("lt0", sub(off, e))) is False:
            rep.ok("R3-complete", where)   # nothing but white space
            return
        rep.bad("R3-trailing", where, "%s does not ignore trailing white "
                "space" % name)
        return
    if isinstance(e, tuple) and e[0] == "phi":
        r = trim_loop(it, e, -1, rep, fn, "end")
        ent = it.entry_of.get(e)
        if r is False:
            rep.bad("R3-complete", where, "%s ignores trailing characters "
                    "that are not white space" % name)
        elif r is True and is_size(ent):
            rep.ok("R3-complete", where)
        elif r is True and isinstance(ent, Poly) and any(
                is_size(a) for a in ent.atoms()):
            rep.bad("R3-complete", where, "%s ignores the last characters "
                    "of the text" % name)
        else:
            rep.undecided("R3-complete", where, show(e)[:60])
        return
    if isinstance(e, Poly):
        ats = list(e.atoms())
        if any(is_size(a) or (isinstance(a, tuple) and a[0] == "phi")
               for a in ats) and monos(e).get((), 0) != 0:
            rep.bad("R3-complete", where, "%s requires the conversion to end "
                    "at %s, not at the end of the text" % (name, show(e)))
            return
    rep.undecided("R3-complete", where, show(e)[:60])


def hex_len(rep, fn, where, fs, st_off, eq, name):
    e = off_of(eq) if eq is not None else None
    if e is None:
        return
    for f, val in fs.items():
        if not (isinstance(f, tuple) and f[0] == "lt0"):
            continue
        d = add(f[1], sub(e, st_off)) if val else sub(
            f[1], sub(e, st_off))
        # st - end + c < 0  => length > c
        if is_num(d) and val and d > 2:
            rep.bad("R5-hex", where, "%s accepts hexadecimal values only "
                    "with more than %d characters" % (name, d))
            return


def throw_rule(rep, it, fn, p, cs, name, lo, hi, isf, unsigned):
    fs = p.facts
    where = fn.where(p.node) if p.node else fn.where()
    if not cs:
        # rejected before converting
        bad = None
        for f, val in fs.items():
            r = one_char_fact(f, val)
            if r and val and isinstance(r[0], tuple) and \
                    r[0][0] in ("elem", "init"):
                c = r[1]
                if c == ord('-') and not unsigned:
                    bad = c
                elif 48 <= c <= 57 or c == ord('+'):
                    bad = c
        if bad is not None:
            rep.bad("R6-accepts", where, "%s rejects text starting with '%s'"
                    % (name, chr(int(bad))))
        else:
            rep.ok("R6-reject", where)
        return
    c = cs[-1]
    k = c["k"]
    v = ("conv", c["name"], k)
    ep = ("endptr", k)
    complete = any(isinstance(f, tuple) and f[0] == "eq" and val and
                   ep in f[1:] for f, val in fs.items())
    incomplete = any(isinstance(f, tuple) and not (f[0] == "eq" and val)
                     and contains(f, lambda x: x == ep)
                     for f, val in fs.items())
    if incomplete or not complete:
        rep.ok("R6-reject", where)
        return
    err = ("errno", k)
    if any(contains(f, lambda x: x == err) and val
           and f[0] == "eq0" and one_char_fact(f, val)
           and one_char_fact(f, val)[1] != 0
           for f, val in fs.items() if isinstance(f, tuple)):
        rep.ok("R6-reject", where)
        return
    if any(f == ("eq0", err) and val is False for f, val in fs.items()):
        rep.ok("R6-reject", where)
        return
    if isf:
        if any(contains(f, lambda x: x == v) for f in fs):
            rep.undecided("R6-accepts", where, "value test before rejecting")
        else:
            rep.bad("R6-accepts", where, "%s rejects a complete conversion "
                    "for which no error was reported" % name)
        return
    l, h = it.range(v, p.state)
    if h < lo or l > hi or l > h:
        rep.ok("R6-reject", where)
    elif any(contains(f, lambda x: x == v) for f in fs):
        rep.bad("R6-accepts", where,
                "%s rejects values in %s..%s, part of which are valid for "
                "its type (%s..%s)" % (name, max(l, lo), min(h, hi), lo, hi))
    else:
        rep.bad("R6-accepts", where, "%s rejects a complete conversion for "
                "which no error was reported" % name)


def check_bool(rep, prog):
    fn = prog.one("dp3::common::strToBool")
    rep.fn(fn)
    it = Interp(prog)
    try:
        paths = it.run(fn)
    except Budget as e:
        rep.undecided("bool", fn.where(), str(e))
        return
    want = {}
    for c in "tTyY1":
        want[ord(c)] = True
    for c in "fFnN0":
        want[ord(c)] = False
    for c in range(0, 128):
        outs = {}
        opens = False
        for p in paths:
            ok = True
            for f, val in p.facts.items():
                r = one_char_fact(f, val)
                if r and is_el(r[0], None, 0):
                    if (c == r[1]) != val:
                        ok = False
                elif isinstance(f, tuple) and f[0] == "lt0":
                    m = monos(f[1])
                    ks = [k for k in m if k != ()]
                    if len(ks) == 1 and len(ks[0]) == 1 and \
                            is_el(ks[0][0], None, 0):
                        if ((m[ks[0]] * c + m.get((), 0)) < 0) != val:
                            ok = False
                    else:
                        opens = True
                else:
                    opens = True
            if not ok:
                continue
            if p.outcome == "return":
                v = p.value
                if isinstance(v, (bool, int)):
                    outs[bool(v)] = p
                else:
                    cnd, pol = it.truth(v)
                    r = one_char_fact(cnd, True)
                    if r and is_el(r[0], None, 0):
                        outs[(c == r[1]) == pol] = p
                    else:
                        opens = True
            elif p.outcome == "throw":
                outs["throw"] = p
        exp = want.get(c, "throw")
        if set(outs) == {exp}:
            rep.ok("bool-table", "strToBool %r" % chr(c))
        elif opens or not outs:
            rep.undecided("bool-table", fn.where(), "text starting with %r"
                          % chr(c))
            break
        else:
            got = [o for o in outs if o != exp][0]
            rep.bad("bool-table", fn.where(outs[got].node),
                    "text starting with %r gives %s, expected %s"
                    % (chr(c), got, exp))


def check(rep, tier):
    prog = facts.extract(["common/StringTools.cc"])
    rep.assume += ["texts are shorter than 2^31 characters",
                   "C99 semantics of the strto* family and errno"]
    for n in NAMES:
        check_fn(rep, prog, n)
    check_bool(rep, prog)
