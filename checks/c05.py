"""C05: lists, nested values and quoted strings in parameter text are split
at top-level commas only; unbalanced text is rejected."""
import itertools

from dp3a import facts, parset
from dp3a.absint import Budget, last
from dp3a.parset import NS
from dp3a.scan import Scanner, char_atoms, index_phi, consistent, is_el, opaque, \
    ev_fact
from dp3a.terms import show, contains, subterms, sub, add, is_num, Poly, subst

TECHNIQUE = (
    "Abstract interpretation of the value scanners (splitValue, getVector, "
    "getRecord, getString, skipQuoted, skipBalanced, the stream reader): "
    "every back edge of the widened scan loop is classified per character "
    "class and bracket-counter abstraction, and its effect on position, "
    "counters and emitted pieces is compared with the grammar.")
MINIMUM = 60
PURE = True
NPOS = 2 ** 64 - 1
QUOTES = (39, 34)
OPEN = {40: 41, 91: 93, 123: 125}
PLAIN = (97, 32, 58, 46)     # a letter, blank, colon, dot


def piece(args):
    """(string, begin, end) denoted by the arguments of an append/push"""
    args = list(args)
    if len(args) >= 3 and not isinstance(args[0], (int, Poly)):
        s, a, n = args[:3]
        return s, a, add(a, n)
    v = args[0]
    while isinstance(v, tuple) and v[0] == "call" and last(v[1]) in (
            "ParameterValue", "basic_string", "string", "move", "forward"):
        if len(v) < 3:
            return None
        r = [x for x in v[2:] if not (isinstance(x, tuple) and (
            x[:1] == ("#",) or x[:1] == ("call",) and
            "allocator" in str(x[1])))]
        if last(v[1]) == "basic_string" and len(r) in (2, 3) and \
                isinstance(r[0], tuple) and r[0][0] in (
                    "sym", "each", "rec", "upd", "init"):
            # string(text, position, length)
            return r[0], r[1], (("size", r[0]) if len(r) == 2 else
                                add(r[1], r[2]))
        v = v[2]
    if isinstance(v, tuple) and v[0] == "call" and last(v[1]) == "substr":
        if v[1].endswith("ParameterValue::substr"):
            if len(v) == 5:
                return ("init", ("f", ("this",), "itsValue")), v[3], v[4]
            return None
        if len(v) == 5:
            return v[2], v[3], add(v[3], v[4])
        if len(v) == 4:
            return v[2], v[3], ("size", v[2])
    return None


def emitted(v, base, names):
    """list of argument tuples appended between base and v"""
    out = []
    for _ in range(40):
        if v == base:
            out.reverse()
            return out
        if isinstance(v, tuple) and v[0] == "upd" and \
                last(v[1]) == "operator=" and v[3]:
            v = v[3][-1]            # x = x + y
            continue
        if isinstance(v, tuple) and v[0] == "call" and \
                last(v[1]) == "operator+" and len(v) == 4:
            out.append((v[3],))
            v = v[2]
            continue
        if not (isinstance(v, tuple) and v[0] == "upd" and
                last(v[1]) in names):
            return None
        out.append(v[3][1:])
        v = v[2]
    return None


def no_text(fs, a, b):
    """the facts say that [a,b) is empty"""
    return fs.get(("lt0", sub(a, b))) is False or \
        fs.get(("eq0", sub(a, b))) is True or \
        fs.get(("eq0", sub(b, a))) is True


def main_loop(it, prefer=None):
    """(loop key, states, position phi, element base) of the scan loop"""
    best = None
    for key, sts in it.back.items():
        cand = {}
        for st in sts:
            for a in char_atoms(st.facts):
                ph = index_phi(a)
                if ph is not None and ph[1:3] == key:
                    cand.setdefault((ph, a), 0)
                    cand[(ph, a)] += 1
        for (ph, a), n in cand.items():
            if best is None or n > best[0]:
                best = (n, key, sts, ph, a)
    return best


KNOWN = set("skipQuoted substr push_back emplace_back operator[] size length "
            "empty lskipws rskipws ParameterValue at append operator+= "
            "reserve operator== operator!= basic_string string c_str "
            "operator+ find get getString runtime_error begin end "
            "__normal_iterator operator-> operator= vector".split())


def only_known(states):
    """nothing but plain text functions is called, so that what is not seen
    does not happen"""
    return all(last(e[1]) in KNOWN for st in states for e in st.events
               if e[0] == "call" and isinstance(e[1], str))


def skip_quoted_term(v, pos, el):
    """v is the position after the quoted text that starts at pos"""
    if isinstance(v, tuple) and v[0] == "call" and \
            last(v[1]) == "skipQuoted":
        return v[3] == pos
    d = sub(v, 1)
    if isinstance(d, tuple) and d[0] == "call" and last(d[1]) == "find" and \
            len(d) == 5:
        return d[3] == el and sub(d[4], pos) == 1
    return False


def check_skip_quoted(rep, prog):
    for fn in prog.fn(NS + "skipQuoted"):
        rep.fn(fn)
        it = Scanner(prog)
        ps = it.run(fn)
        for p in ps:
            w = fn.where(p.node)
            finds = [t for f in p.facts for t in subterms(f)
                     if isinstance(t, tuple) and t[0] == "call" and
                     last(t[1]) in ("find", "find_first_of")]
            if not finds:
                rep.undecided("quoted", w, "no search for the closing quote")
                continue
            t = finds[0]
            st = ("sym", fn["params"][1]["n"])
            ok = len(t) == 5 and is_el(t[3]) and t[3][2] == st and \
                sub(t[4], st) == 1
            rep.check(ok, "quoted-search", w,
                      "the closing quote must be the same character, "
                      "searched from the position after the opening quote: "
                      + show(t)[:120])
            miss = p.facts.get(("eq0", sub(t, NPOS)))
            if p.outcome == "return":
                rep.check(miss is False and sub(p.value, t) == 1,
                          "quoted-end", w, "the position after a quoted text "
                          "must be just behind its closing quote, and a "
                          "missing quote must be an error; returns " +
                          show(p.value)[:100])
            elif p.outcome == "throw":
                rep.check(miss is True, "quoted-throw", w,
                          "rejects a text whose closing quote exists")


def check_skip_balanced(rep, prog):
    for fn in prog.fn(NS + "skipBalanced"):
        rep.fn(fn)
        it = Scanner(prog, ["skipQuoted"])
        ps = it.run(fn)
        ml = main_loop(it)
        if ml is None:
            rep.undecided("balanced", fn.where(), "no scan loop")
            continue
        n, key, sts, pos, el = ml
        names = [p["n"] for p in fn["params"]]
        s0, end, endch = [("sym", x) for x in names[1:4]]
        others = [t for st in sts for f in st.facts for t in subterms(f)
                  if is_el(t) and t != el]
        opener = others[0] if others else None
        depth = None
        for st in sts:
            for l, v in st.env.items():
                ph = ("phi",) + key + (l,)
                d = sub(v, ph) if not isinstance(v, (str, bool)) else None
                if ph != pos and is_num(d) and abs(d) == 1:
                    depth = ph
        if depth is None or opener is None:
            rep.undecided("balanced", fn.where(), "no depth counter")
            continue
        rep.check(sub(opener[2], s0) == 0 or opener[2] == s0,
                  "balanced-opener", fn.where(),
                  "the opening character is not the one at the start")
        e0 = it.entry_of.get(depth)
        p0 = it.entry_of.get(pos)
        # either (depth 0 at the opener) or (depth 1 just behind it)
        rep.check((e0, sub(p0, s0)) in ((0, 0), (1, 1)), "balanced-init",
                  fn.where(), "scan starts at offset %s with depth %s" %
                  (show(sub(p0, s0)), show(e0)))
        for c, kind in ((93, "close"), (91, "open"), (34, "quote"),
                        (39, "quote"), (97, "plain")):
            repl = {el: c, endch: 93, opener: 91}
            for st in sts:
                if not consistent(st.facts, repl):
                    continue
                w = "%s loop at %s, character %r" % (
                    fn["qn"], fn.where(), chr(c))
                dd = sub(st.env[depth[3]], depth)
                np = st.env[pos[3]]
                dp = sub(np, pos)
                if kind == "quote":
                    rep.check(dd == 0 and skip_quoted_term(np, pos, el),
                              "balanced-quote", w,
                              "quoted text must be skipped as a whole")
                else:
                    want = {"close": -1, "open": 1, "plain": 0}[kind]
                    rep.check(dd == want and dp == 1, "balanced-step", w,
                              "depth changes by %s and position by %s" %
                              (show(dd), show(dp)))
                if kind == "close":
                    ex = dict(repl)
                    ex[depth] = 1
                    rep.check(not consistent(st.facts, ex),
                              "balanced-exit", w,
                              "scan goes on behind the matching bracket")
        for p in ps:
            w = fn.where(p.node)
            if p.outcome == "return":
                ok = not any(consistent(p.facts, {
                    el: c, endch: 93, opener: 91, depth: d})
                    for c, d in itertools.product((93, 91, 34, 97),
                                                  (1, 2))
                    if (c, d) != (93, 1))
                rep.check(ok and sub(p.value, pos) == 1, "balanced-return",
                          w, "returns %s on a path where the bracket is not "
                          "closed" % show(p.value)[:80])
            elif p.outcome == "throw":
                rep.check(p.facts.get(("lt0", sub(pos, end))) is False,
                          "balanced-throw", w,
                          "rejects a text before its end is reached")


def check_split(rep, prog):
    for fn in prog.fn(NS + "ParameterValue::splitValue"):
        rep.fn(fn)
        it = Scanner(prog, ["skipQuoted", "substr", "lskipws", "rskipws",
                            "ParameterValue"])
        ps = it.run(fn)
        ml = main_loop(it)
        if ml is None:
            rep.undecided("split", fn.where(), "no scan loop")
            continue
        n, key, sts, pos, el = ml
        here = "%s (%s)" % (fn["qn"], fn.where())
        last_ = ("sym", fn["params"][1]["n"])
        cnt = {}

        def phi(l):
            return ("phi",) + key + (l,)
        phis = {l for st in sts for l in st.env
                if it.entry_of.get(phi(l), "?") != "?"}
        # counters: integer variables starting at 0 that move by one
        for st in sts:
            for l in phis:
                if phi(l) == pos or not is_num(it.entry_of[phi(l)]):
                    continue
                d = sub(st.env[l], phi(l))
                if is_num(d) and abs(d) == 1:
                    cnt[phi(l)] = l
        if not cnt:
            if only_known(sts):
                rep.bad("split-nesting", here, "no path of the scan counts "
                        "brackets, so nested lists are split")
            else:
                rep.undecided("split", here, "no nesting counters")
            continue
        for x in cnt:
            rep.check(it.entry_of[x] == 0, "split-init", here,
                      "a nesting counter starts at %s" %
                      show(it.entry_of[x]))
        C = sorted(cnt)
        # the result and the start of the current piece
        res = [l for l in phis if any(
            isinstance(st.env[l], tuple) and st.env[l][0] == "upd"
            for st in sts)]
        if len(res) != 1:
            if not res and only_known(sts):
                rep.bad("split-none", here, "no path of the scan ever ends "
                        "a piece, so lists are not split")
            else:
                rep.undecided("split", here, "result not identified")
            continue
        R = res[0]
        names = ("push_back", "emplace_back")
        start = None
        for st in sts:
            e = emitted(st.env[R], phi(R), names)
            if e:
                pc = piece(e[0])
                if pc and isinstance(pc[1], tuple) and pc[1][0] == "phi":
                    start = pc[1]
        if start is None:
            rep.undecided("split", here, "start of piece not identified")
            continue
        i0 = it.entry_of.get(pos)
        s0 = it.entry_of.get(start)
        par = ("sym", fn["params"][0]["n"])

        def is_start(v):
            return v == par or (isinstance(v, tuple) and v[0] == "call" and
                                last(v[1]) == "lskipws" and v[3] == par)
        rep.check(is_start(i0) and is_start(s0), "split-init", here,
                  "the scan must start at the given position, starts at %s "
                  "with piece start %s" % (show(i0)[:60], show(s0)[:60]))
        chars = list(QUOTES) + list(OPEN) + list(OPEN.values()) + [44] + \
            list(PLAIN)
        which = {}
        total = 0
        for c in chars:
            live = 0
            for vals in itertools.product((0, 1, 2), repeat=len(C)):
                repl = dict(zip(C, vals))
                repl[el] = c
                hit = [st for st in sts if consistent(st.facts, repl)]
                thr = [p for p in ps if p.outcome == "throw" and
                       p.facts.get(("lt0", sub(pos, last_))) is True and
                       consistent(p.facts, repl)]
                w = "%s, character %r, nesting %s" % (here, chr(c),
                                                      list(vals))
                if thr and c not in OPEN and c not in OPEN.values():
                    rep.bad("split-throw", w, "a legal character in legal "
                            "nesting is rejected")
                if not hit and not thr:
                    rep.bad("split-lost", w, "no path handles it")
                for st in hit:
                    live += 1
                    total += 1
                    dc = {x: sub(st.env[cnt[x]], x) for x in C}
                    ch = {x: d for x, d in dc.items() if d != 0}
                    em = emitted(st.env[R], phi(R), names)
                    if em is None:
                        rep.undecided("split-emit", w, "result changed in "
                                      "an unknown way")
                        continue
                    npos = st.env[pos[3]]
                    nst = st.env[start[3]]
                    if c in QUOTES:
                        rep.check(not ch and not em and nst == start and
                                  skip_quoted_term(npos, pos, el),
                                  "split-quote", w,
                                  "quoted text is not skipped as a whole")
                        continue
                    rep.check(sub(npos, pos) == 1, "split-step", w,
                              "the scan moves by " +
                              show(sub(npos, pos))[:60])
                    if c in OPEN:
                        if len(ch) == 1 and list(ch.values()) == [1]:
                            which.setdefault(c, set()).update(ch)
                        else:
                            rep.bad("split-open", w, "an opening bracket "
                                    "must be counted")
                    elif c in OPEN.values():
                        if len(ch) == 1 and list(ch.values()) == [-1]:
                            which.setdefault(c, set()).update(ch)
                            x = list(ch)[0]
                            rep.check(repl[x] > 0, "split-negative", w,
                                      "a closing bracket without its "
                                      "opening one is accepted")
                        else:
                            rep.bad("split-close", w, "a closing bracket "
                                    "must be counted")
                    else:
                        rep.check(not ch, "split-count", w,
                                  "nesting changes at a non-bracket")
                    if c == 44 and not any(vals):
                        pcs = [piece(e) for e in em]
                        if None in pcs:
                            rep.undecided("split-piece", w, "emits an "
                                          "unknown piece")
                            continue
                        rep.check(len(pcs) == 1 and pcs[0][1] == start and
                                  pcs[0][2] == pos and
                                  sub(nst, pos) == 1, "split-comma", w,
                                  "a top-level comma must end the current "
                                  "piece and start the next one behind it")
                    else:
                        rep.check(not em and nst == start, "split-only", w,
                                  "a piece ends here although this is no "
                                  "top-level comma")
            if live == 0 and c in (list(OPEN) + list(OPEN.values())):
                rep.bad("split-lost", "%s, character %r" % (here, chr(c)),
                        "always rejected")
        for o, cl in OPEN.items():
            a, b = which.get(o, set()), which.get(cl, set())
            rep.check(a == b and len(a) == 1, "split-pair",
                      "%s, brackets %s%s" % (here, chr(o), chr(cl)),
                      "opening and closing bracket use different counters")
        used = [tuple(which.get(o, ())) for o in OPEN]
        rep.check(len(set(used)) == len(used), "split-kinds", here,
                  "different kinds of brackets share a nesting counter, so "
                  "'(]' would be accepted")
        for p in ps:
            if p.outcome != "return":
                continue
            w = "%s, return at %s" % (here, fn.where(p.node))
            if contains(p.value, lambda t: t == phi(R)):
                for vals in itertools.product((0, 1, 2), repeat=len(C)):
                    if any(vals):
                        rep.check(not consistent(p.facts,
                                                 dict(zip(C, vals))),
                                  "split-balanced", w, "a value with "
                                  "unclosed brackets %s is accepted" %
                                  list(vals))
                em = emitted(p.value, phi(R), names)
                pcs = [piece(e) for e in em] if em is not None else [None]
                if None in pcs:
                    rep.undecided("split-last", w, "unknown piece")
                    continue
                rep.check(len(pcs) == 1 and pcs[0][1] == start and
                          pcs[0][2] == last_, "split-last", w,
                          "the text behind the last comma must be the last "
                          "piece")
                lc = p.facts.get(("lt0", sub(pos, last_)))
                rep.check(lc is False, "split-end", w,
                          "the scan stops before the end of the value")
                # a blank list has no elements
                if i0 != par:
                    d = sub(i0, last_)
                    rep.check(p.facts.get(("eq0", d)) is False or
                              p.facts.get(("eq0", sub(last_, i0))) is False
                              or p.facts.get(("lt0", d)) is True,
                              "split-blank", w, "a blank list gets an "
                              "element")
            else:
                blank = [f for f, v in p.facts.items() if v and
                         isinstance(f, tuple) and f[0] in ("eq0",) and
                         contains(f, lambda t: isinstance(t, tuple) and
                                  t[0] == "call" and
                                  last(t[1]) == "lskipws")]
                rep.check(bool(blank), "split-blank", w,
                          "an empty list is returned for a non-blank value")
        rep.count("character/nesting transitions", total)


def check_get_vector(rep, prog):
    V = ("init", ("f", ("this",), "itsValue"))
    size = None
    for fn in prog.fn(NS + "ParameterValue::getVector"):
        rep.fn(fn)
        it = Scanner(prog, ["splitValue", "skipQuoted", "ParameterValue"])
        for p in it.run(fn):
            w = fn.where(p.node)
            szs = [t for f in p.facts for t in subterms(f)
                   if isinstance(t, tuple) and t[0] in ("size", "call") and
                   (t[0] == "size" or last(t[1]) == "size")]
            size = szs[0] if szs else size
            els = char_atoms(p.facts)
            first = [e for e in els if e[2] == 0]
            lst = [e for e in els if size is not None and
                   sub(e[2], size) == -1]
            if size is None:
                continue

            def can(n, a, b):
                repl = {size: n}
                for e in els:
                    # evaluate index under the size
                    ix = subst(e[2], lambda t: n if t == size else None)
                    if ix == 0:
                        repl[e] = a if n > 1 else b
                    elif ix == n - 1:
                        repl[e] = b
                if consistent(p.facts, repl) and opaque(p.facts, repl):
                    unclear.append((n, a, b))
                    return False
                return consistent(p.facts, repl)
            unclear = []
            if can(3, 97, 97) or can(3, 91, 93) or can(3, 91, 97) or \
                    can(3, 97, 93) or can(0, 0, 0) or unclear:
                pass
            if unclear:
                rep.undecided("vector-brackets", w, "the test for brackets")
                continue
            if p.outcome == "throw":
                rep.check(not any(can(3, x, y) for x in (97, 91)
                                  for y in (97, 93)), "vector-throw", w,
                          "a proper single value or list is rejected")
                continue
            sp = [t for t in subterms(p.value) if isinstance(t, tuple) and
                  t[0] == "call" and last(t[1]) == "splitValue"]
            if sp:
                t = sp[0]
                rep.check(t[3] == 1 and sub(t[4], size) == -1,
                          "vector-range", w, "the list contents must be the "
                          "text between the outer brackets, takes %s..%s" %
                          (show(t[3]), show(t[4])[:60]))
                bad = [x for x in ((3, 97, 93), (3, 91, 97), (3, 97, 97),
                                   (0, 0, 0)) if can(*x)]
                rep.check(not bad, "vector-brackets", w, "a value that is "
                          "not enclosed in [] is split as a list")
            elif contains(p.value, lambda t: isinstance(t, tuple) and
                          t[0] == "init" and t[1] in (("this",), V[1])) \
                    or (isinstance(p.value, tuple) and len(p.value) > 2):
                rep.check(not can(3, 91, 93), "vector-single", w,
                          "a value enclosed in [] is not split")
                v = p.value
                if isinstance(v, tuple) and v[0] in ("call", "construct") \
                        and last(v[1]) == "vector" and len(v) > 3 and \
                        is_num(v[2]):
                    rep.check(v[2] == 1, "vector-single", w, "a single "
                              "value becomes a list of %s elements" %
                              show(v[2]))
                rep.check(not can(0, 0, 0), "vector-empty", w,
                          "an empty value becomes a list with one element")
            else:
                rep.check(not any(can(*x) for x in (
                    (3, 97, 97), (3, 91, 93), (3, 91, 97))), "vector-lost",
                    w, "a non-empty value becomes an empty list")


def check_get_string(rep, prog):
    for fn in prog.fn(NS + "ParameterValue::getString"):
        rep.fn(fn)
        it = Scanner(prog, ["skipQuoted", "ParameterValue"])
        ps = it.run(fn)
        ml = main_loop(it)
        here = "%s (%s)" % (fn["qn"], fn.where())
        if ml is None:
            rep.undecided("string", here, "no scan loop")
            continue
        n, key, sts, pos, el = ml

        def phi(l):
            return ("phi",) + key + (l,)
        phis = {l for st in sts for l in st.env
                if it.entry_of.get(phi(l), "?") != "?"}
        res = [l for l in phis if any(
            isinstance(st.env[l], tuple) and st.env[l][0] == "upd"
            for st in sts)]
        if len(res) != 1:
            if not res and only_known(sts):
                rep.bad("string-none", here, "no path of the scan takes a "
                        "quoted part apart")
            else:
                rep.undecided("string", here, "result not identified")
            continue
        R = res[0]
        names = ("operator+=", "append")
        starts = [l for l in phis if l != R and phi(l) != pos and
                  is_num(it.entry_of[phi(l)])]
        if len(starts) != 1:
            rep.undecided("string", here, "piece start not identified")
            continue
        start = phi(starts[0])
        rep.check(it.entry_of[start] == 0 and it.entry_of[pos] == 0,
                  "string-init", here, "the scan starts at %s, the first "
                  "piece at %s" % (show(it.entry_of[pos]),
                                   show(it.entry_of[start])))
        size = None
        for p in ps:
            for f in p.facts:
                for t in subterms(f):
                    if isinstance(t, tuple) and (
                            t[0] == "size" or t[0] == "call" and
                            last(t[1]) == "size"):
                        size = t
        for c in QUOTES + PLAIN + (44, 91, 40):
            hit = [st for st in sts if consistent(st.facts, {el: c})]
            w = "%s, character %r" % (here, chr(c))
            if not hit:
                rep.bad("string-lost", w, "no path handles it")
            for st in hit:
                em = emitted(st.env[R], phi(R), names)
                pcs = [piece(e) for e in em] if em is not None else [None]
                if None in pcs:
                    rep.undecided("string", w, "appends an unknown piece")
                    continue
                npos, nst = st.env[pos[3]], st.env[start[3]]
                if c not in QUOTES:
                    if not is_num(sub(npos, pos)) and contains(
                            (npos,) + tuple(st.facts),
                            lambda t: isinstance(t, tuple) and
                            t[:1] == ("call",) and
                            last(t[1]).startswith("find")):
                        rep.undecided("string-plain", w, "the scan moves "
                                      "to what a search finds")
                        continue
                    rep.check(not pcs and sub(npos, pos) == 1 and
                              nst == start, "string-plain", w,
                              "an unquoted character must stay part of the "
                              "current piece")
                    continue
                empty = no_text(st.facts, start, pos)
                got = [(a, b) for _, a, b in pcs]
                q = npos
                want = [(start, pos), (add(pos, 1), sub(q, 1))]
                rep.check(skip_quoted_term(q, pos, el) and nst == q and
                          (got == want or (empty and got == want[1:])),
                          "string-quote", w, "a quoted part must be taken "
                          "whole, without its quotes, after the text before "
                          "it")
        for p in ps:
            if p.outcome != "return":
                continue
            w = "%s, return at %s" % (here, fn.where(p.node))
            em = emitted(p.value, phi(R), names)
            pcs = [piece(e) for e in em] if em is not None else [None]
            if None in pcs or size is None:
                rep.undecided("string-tail", w, "unknown piece")
                continue
            empty = no_text(p.facts, start, size)
            got = [(a, b) for _, a, b in pcs]
            rep.check(got == [(start, size)] or (empty and not got),
                      "string-tail", w, "the text behind the last quoted "
                      "part is lost or changed")


def check_substr(rep, prog):
    V = ("init", ("f", ("this",), "itsValue"))
    for fn in prog.fn(NS + "ParameterValue::substr"):
        rep.fn(fn)
        it = Scanner(prog, ["lskipws", "rskipws", "ParameterValue"])
        for p in it.run(fn):
            if p.outcome != "return":
                continue
            pc = piece([p.value])
            if pc is None:
                rep.undecided("substr", fn.where(p.node), show(p.value)[:80])
                continue
            a, b = [("sym", x["n"]) for x in fn["params"]]
            rep.check(pc[0] == V and pc[1] == a and pc[2] == b, "substr",
                      fn.where(p.node), "a piece [st,end) of a value is "
                      "taken as [%s,%s)" % (show(pc[1]), show(pc[2])))


def check_record(rep, prog):
    """getRecord splits {..} into name:value pairs"""
    for fn in prog.fn(NS + "ParameterValue::getRecord"):
        rep.fn(fn)
        it = Scanner(prog, ["splitValue", "skipQuoted", "ParameterValue",
                            "getString", "add", "replace"])
        ps = it.run(fn)
        rets = [p for p in ps if p.outcome == "return"]
        size = None
        for p in ps:
            w = fn.where(p.node)
            for f in p.facts:
                for t in subterms(f):
                    if isinstance(t, tuple) and (t[0] == "size" or (
                            t[0] == "call" and last(t[1]) == "size")):
                        size = size or t
            if p.outcome != "return" or size is None:
                continue
            left_at_end(rep, fn, p, "record-all", "getRecord")
            for e in p.events:
                if e[0] == "call" and last(e[1]) == "splitValue" and \
                        len(e[2]) == 3:
                    rep.check(e[2][1] == 1 and sub(e[2][2], size) == -1,
                              "record-range", w, "the contents of the record"
                              " must be the text between the outer braces, "
                              "takes %s..%s" % (show(e[2][1]),
                                                show(e[2][2])[:60]))
            els = char_atoms(p.facts)

            def can(n, a, b):
                repl = {size: n}
                for e in els:
                    ix = subst(e[2], lambda t: n if t == size else None)
                    if ix == 0:
                        repl[e] = a if n > 1 else b
                    elif ix == n - 1:
                        repl[e] = b
                if consistent(p.facts, repl) and opaque(p.facts, repl):
                    unclear.append((n, a, b))
                    return False
                return consistent(p.facts, repl)
            unclear = []
            bad = [x for x in ((3, 97, 125), (3, 123, 97), (3, 91, 93),
                               (0, 0, 0)) if can(*x)]
            if unclear:
                rep.undecided("record-brackets", w, "the test for brackets")
                continue
            rep.check(not bad, "record-brackets", w,
                      "a value that is not enclosed in {} is accepted as a "
                      "record")
        # per element: name is what precedes the first ':' behind a quoted
        # name, value is what follows it
        for key, sts in it.back.items():
            for st in sts:
                adds = [e for e in st.events if e[0] == "call" and
                        last(e[1]) in ("add", "replace")]
                w = "%s loop" % fn.where()
                if len(adds) != 1:
                    rep.bad("record-add", w, "an element of the record is "
                            "not added exactly once")
                    continue
                args = adds[0][2]
                name, val = args[1], args[2]
                fs = [t for t in subterms(args) if isinstance(t, tuple) and
                      t[0] == "call" and last(t[1]) == "find"]
                if not fs and any(
                        isinstance(t, tuple) and t[0] == "call" and
                        last(t[1]) in ("rfind", "find_last_of") and
                        58 in t[2:] for t in subterms(args)):
                    rep.bad("record-colon", w, "name and value are "
                            "separated at the last ':'")
                    continue
                if not fs:
                    rep.undecided("record", w, "no ':' search")
                    continue
                f = fs[0]
                rep.check(f[3] == 58, "record-colon", w,
                          "name and value are separated at %r" % (f[3],))
                quoted = any(consistent(st.facts, {e: q})
                             for e in char_atoms(st.facts) if e[2] == 0
                             for q in QUOTES)
                frm = f[4] if len(f) > 4 else 0
                if isinstance(frm, tuple) and frm[0] == "call" and \
                        last(frm[1]) == "skipQuoted":
                    own = [e for e in char_atoms(st.facts)
                           if e[2] == 0 and f[2] in (e[1], ("init", e[1]))]
                    plain = not own or consistent(
                        st.facts, dict.fromkeys(own, 97))
                    rep.check(not plain and frm[3] == 0,
                              "record-quoted-name", w, "a name without "
                              "quotes is skipped as quoted text")
                if frm == 0:
                    rep.check(not quoted, "record-quoted-name", w,
                              "a ':' inside a quoted name splits the name")
                rep.check(st.facts.get(("eq0", sub(f, NPOS))) is False,
                          "record-no-colon", w,
                          "an element without ':' is accepted")
                subs = [t for t in subterms(name) if isinstance(t, tuple)
                        and t[0] == "call" and last(t[1]) == "substr" and
                        len(t) == 5]
                if subs:
                    outer = [t for t in subs if any(
                        u in subs for x in t[2:3] for u in subterms(x))]
                    inn = [t for t in subs if t not in outer]
                    rep.check(any(t[3] == 0 and t[4] == f for t in inn) and
                              (not outer or quoted and
                               all(t[3] == 1 for t in outer)),
                              "record-name", w, "the name is not the text "
                              "before the ':'")
                sq = {t: 3 for f_ in st.facts for t in subterms(f_)
                      if isinstance(t, tuple) and t[0] == "call" and
                      last(t[1]) == "skipQuoted"}
                own = {f_: v for f_, v in st.facts.items()
                       if f_[0] in ("eq0", "lt0") and
                       (f_[1] in sq or isinstance(f_[1], Poly) and
                        all(a in sq for mono in f_[1].m for a in mono))}
                if quoted and subs and consistent(own, sq):
                    inner = {x for t in subs for x in subterms(t)}
                    names = {last(t[1]) for t in subterms(name)
                             if isinstance(t, tuple) and t[0] == "call" and
                             t not in inner}
                    known = {"ParameterValue", "get", "basic_string",
                             "string"}
                    if "getString" not in names and names <= known and \
                            all(t[3] == 0 for t in subs):
                        rep.bad("record-name", w, "the quotes of a name "
                                "are kept")
                    else:
                        rep.check(True, "record-name", w, "")
                subs = [t for t in subterms(val) if isinstance(t, tuple)
                        and t[0] == "call" and last(t[1]) == "substr"]
                if subs:
                    t = subs[0]
                    rep.check(sub(t[3], f) == 1, "record-value", w,
                              "the value is not the text behind the ':'")
                    rep.check(not any(
                        isinstance(x, tuple) and x[0] == "call" and
                        last(x[1]) == "getString" for x in subterms(val)),
                        "record-value", w, "the quotes of the value are "
                        "removed")


def check_trim(rep, prog):
    """lskipws / rskipws move over white space only, inside the range"""
    for nm, d in (("lskipws", 1), ("rskipws", -1)):
        for fn in prog.fn(NS + nm):
            rep.fn(fn)
            it = Scanner(prog)
            ps = it.run(fn)
            S, E = [("sym", x["n"]) for x in fn["params"][1:3]]
            moved, lim = (S, E) if d == 1 else (E, S)
            if len(it.back) != 1:
                rep.undecided("trim", fn.where(), "no single loop")
                continue
            key, sts = list(it.back.items())[0]
            ph = None
            for st in sts:
                for l, v in st.env.items():
                    q = ("phi",) + key + (l,)
                    if sub(v, q) == d and it.entry_of.get(q) == moved:
                        ph = q
            if not rep.check(ph is not None, "trim-step", fn.where(),
                             "does not move character by character from "
                             "the given position"):
                continue
            rel = sub(ph, lim) if d == 1 else sub(lim, ph)
            idx = ph if d == 1 else sub(ph, 1)
            for st in sts:
                sp = [f for f, v in st.facts.items() if not v and
                      isinstance(f, tuple) and f[0] == "eq0" and
                      isinstance(f[1], tuple) and f[1][0] == "call" and
                      last(f[1][1]) == "isspace"]
                blank = sp and is_el(sp[0][1][2]) and \
                    sp[0][1][2][2] == idx
                rep.check(st.facts.get(("lt0", rel)) is True, "trim-bound",
                          fn.where(), "moves beyond the given range")
                if sp:
                    rep.check(blank, "trim-space", fn.where(), "tests the "
                              "wrong character")
                else:
                    for a in char_atoms(st.facts):
                        rep.check(not consistent(st.facts, {a: 97}),
                                  "trim-space", fn.where(),
                                  "skips a character that is not blank")
            for p in ps:
                if p.outcome == "return":
                    rep.check(p.value == ph, "trim-result",
                              fn.where(p.node), "returns " +
                              show(p.value)[:60])


def none_before(fs, a, b):
    """the facts say a <= b"""
    return fs.get(("lt0", sub(b, a))) is False or \
        fs.get(("eq0", sub(a, b))) is True or \
        fs.get(("eq0", sub(b, a))) is True or a == b


def left_at_end(rep, fn, p, rule, what):
    """a loop over a list is left when its end is reached, not before"""
    for f, v in p.facts.items():
        if isinstance(f, tuple) and f[0] == "eq" and any(
                isinstance(t, tuple) and t[0] == "call" and
                last(t[1]) in ("end", "cend") for t in f[1:]) and any(
                isinstance(t, tuple) and t[0] == "phi" for t in f[1:]):
            rep.check(v is True, rule, fn.where(p.node), what +
                      ": the loop stops before the end of the list")


def check_ctor(rep, prog):
    """the constructor removes only leading and trailing blanks"""
    for fn in prog.fn(NS + "ParameterValue::ParameterValue"):
        if len(fn["params"]) != 2:
            continue
        rep.fn(fn)
        it = Scanner(prog, ["lskipws", "rskipws"])
        src, asked = [("sym", x["n"]) for x in fn["params"]]
        for p in it.run(fn):
            v = p.state.env.get(("f", ("this",), "itsValue"))
            w = fn.where(p.node)
            if v is None:
                rep.undecided("trimmed", w, "value not set")
                continue
            pc = piece([v])
            if pc is None:
                w0 = v
                while isinstance(w0, tuple) and w0[0] == "call" and \
                        last(w0[1]) in ("basic_string", "string"):
                    w0 = w0[2]
                # unchanged text
                rep.check(contains(w0, lambda t: t == src or (
                    isinstance(t, tuple) and t[0] in ("init", "deref") and
                    fn["params"][0]["n"] in show(t))), "trimmed-whole", w,
                    "the stored text is not the given text")
                if p.facts.get(("eq0", asked)) is not True:
                    ts = [t for f in p.facts for t in subterms(f)
                          if isinstance(t, tuple) and t[0] == "call"]
                    left = [t for t in ts if last(t[1]) == "lskipws"]
                    right = [t for t in ts if last(t[1]) == "rskipws"]
                    whole = left and right and none_before(
                        p.facts, left[0], 0) and any(
                        none_before(p.facts, z, right[0]) for z in ts
                        if last(z[1]) == "size") or any(
                        none_before(p.facts, z, right[0])
                        for f in p.facts for z in subterms(f)
                        if right and isinstance(z, tuple) and
                        z[0] == "size") and left and none_before(
                        p.facts, left[0], 0)
                    rep.check(bool(whole), "trimmed", w, "the text is "
                              "stored unchanged although it may start or "
                              "end with blanks")
                continue
            rep.check(p.facts.get(("eq0", asked)) is False, "trimmed", w,
                      "blanks are removed although this was not asked for")
            a, b = pc[1], pc[2]

            def nm(t):
                return isinstance(t, tuple) and t[0] == "call" and last(t[1])
            rep.check(nm(a) == "lskipws" and nm(b) == "rskipws" and
                      a[3] == 0, "trimmed", w, "stores %s..%s of the given "
                      "text instead of the text without surrounding blanks"
                      % (show(a)[:50], show(b)[:50]))


def check_stream(rep, prog):
    """Reading key=value lines: quotes shield '#' and '='; no key is lost."""
    for fn in prog.fn(NS + "ParameterSetImpl::readStream"):
        rep.fn(fn)
        it = Scanner(prog, ["skipQuoted", "lskipws", "rskipws", "addMerge",
                            "getString", "ParameterValue"])
        ps = it.run(fn)
        ml = main_loop(it)
        here = "%s (%s)" % (fn["qn"], fn.where())
        if ml is None:
            rep.undecided("stream", here, "no scan loop")
            continue
        n, key, sts, pos, el = ml
        keyl = None
        for st in sts:
            for e in st.events:
                if e[0] == "call" and last(e[1]) == "addMerge":
                    keyl = e[2][1]
        for c in QUOTES + (35, 61, 97, 32):
            hit = [st for st in sts if consistent(st.facts, {el: c})]
            w = "%s, character %r" % (here, chr(c))
            if not hit:
                rep.bad("stream-lost", w, "no path handles it")
            for st in hit:
                np = st.env[pos[3]]
                adds = [e for e in st.events if e[0] == "call" and
                        last(e[1]) == "addMerge"]
                if c in QUOTES:
                    rep.check(skip_quoted_term(np, pos, el) and not adds,
                              "stream-quote", w, "quoted text must be "
                              "skipped as a whole ('#' and '=' inside it "
                              "are text)")
                    continue
                if c == 35:
                    ends = [l for l in st.env if l != pos[3] and
                            isinstance(st.env[l], tuple) and
                            st.env[l][0] == "call" and
                            last(st.env[l][1]) == "rskipws" and
                            st.env[l][4] == pos]
                    if np == pos:
                        rep.check(bool(ends), "stream-comment", w,
                                  "a comment must end the line")
                    continue
                rep.check(sub(np, pos) == 1, "stream-step", w,
                          "the scan moves by " + show(sub(np, pos))[:50])
                if c != 61:
                    rep.check(not adds, "stream-add", w,
                              "a parameter ends at an ordinary character")
        # a pending key is added before it is replaced, and at the end
        keyloc = start = nonbl = None
        for st in sts:
            if not consistent(st.facts, {el: 61}):
                continue
            adds = [e for e in st.events if e[0] == "call" and
                    last(e[1]) == "addMerge"]
            newkey = [(l, v) for l, v in st.env.items()
                      if l[0] == "v" and contains(
                          v, lambda t: isinstance(t, tuple) and
                          t[0] == "call" and last(t[1]) == "getString")
                      and it.entry_of.get(("phi",) + key + (l,), "?") != "?"]
            for l, v in newkey:
                keyloc = l
                old = ("phi",) + key + (l,)
                emp = [val for f, val in st.facts.items()
                       if isinstance(f, tuple) and f[0] == "eq0" and
                       contains(f, lambda t: t == old)]
                w = "%s, at '='" % here
                if emp and emp[0] is True:
                    rep.ok("stream-key", w)
                else:
                    rep.check(any(e[2][1] == old for e in adds),
                              "stream-key", w, "a parameter is replaced by "
                              "the next one without being stored")
                for t in subterms(v):
                    if isinstance(t, tuple) and t[0] == "call" and \
                            last(t[1]) == "substr" and len(t) == 5:
                        pc = piece([t])
                        if isinstance(pc[1], tuple) and pc[1][0] == "phi":
                            start = pc[1]
                        e1 = sub(pc[2], 1)
                        if isinstance(e1, tuple) and e1[0] == "phi":
                            nonbl = e1
        if start is None or keyloc is None:
            rep.undecided("stream-start", here, "key text not identified")
        else:
            for st in sts:
                w = here + ", start of the value"
                if consistent(st.facts, {el: 61}):
                    rep.check(sub(st.env[start[3]], pos) == 1,
                              "stream-start", w, "the value must start "
                              "behind the '='")
                else:
                    rep.check(st.env[start[3]] == start, "stream-start", w,
                              "the start of the value moves without a '='")
                if nonbl is None or nonbl == pos:
                    continue
                w = here + ", end of the key"
                nb = st.env[nonbl[3]]
                plain = [c for c in (97, 46, 91, 40, 44, 58, 45, 95, 47, 49,
                                     90, 123, 42)
                         if consistent(st.facts, {el: c})]
                if plain and opaque(st.facts, {el: plain[0]}):
                    rep.undecided("stream-keyend", w, "the test of the "
                                  "character")
                elif plain:
                    rep.check(nb == pos, "stream-keyend", w, "a character "
                              "of the key (%r) is cut off"
                              % "".join(map(chr, plain)))
                elif any(consistent(st.facts, {el: q}) for q in QUOTES):
                    rep.check(sub(st.env[pos[3]], nb) == 1,
                              "stream-keyend", w, "quoted text in the key "
                              "is cut off")
                elif consistent(st.facts, {el: 32}):
                    rep.check(nb == nonbl, "stream-keyend", w,
                              "a blank extends the key")
        for p in ps:
            if p.outcome == "throw" or keyloc is None:
                continue
            kv = p.state.env.get(keyloc)
            adds = [e for e in p.events if e[0] == "call" and
                    last(e[1]) == "addMerge" and e[2][1] == kv]
            emp = [v for f, v in p.facts.items() if isinstance(f, tuple) and
                   f[0] == "eq0" and contains(f, lambda t: t == kv)]
            w = "%s, end at %s" % (here, fn.where(p.node))
            if emp and emp[-1] is True:
                rep.check(not adds, "stream-end", w, "adds an empty key")
            else:
                rep.check(len(adds) >= 1, "stream-end", w,
                          "the last parameter of the stream is not stored")


def check(rep, tier):
    prog = parset.program()
    for f in (check_skip_quoted, check_skip_balanced, check_split,
              check_get_vector, check_get_string, check_substr,
              check_record, check_trim, check_ctor, check_stream):
        try:
            f(rep, prog)
        except Budget as e:
            rep.undecided(f.__name__, "", str(e))
    # getVector expands ranges and repetitions before it splits
    rep.fobjs += [f for n in ("expandArrayString", "ParameterValue::expand")
                  for f in prog.fn(NS + n)]
    rep.assume += ["texts are shorter than 2^31 characters",
                   "std::string semantics"]
