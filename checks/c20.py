"""C20: a parameter set holds what was read, stored, adopted, removed."""
import re

from dp3a import parset
from dp3a.absint import Budget, last
from dp3a.parset import NS
from dp3a.scan import Scanner, consistent, is_el, char_atoms
from dp3a.terms import show, contains, subterms, sub, add, is_num, Poly
from checks.c05 import main_loop, piece, emitted, left_at_end, \
    skip_quoted_term

TECHNIQUE = (
    "Path-sensitive abstract interpretation of every function that fills, "
    "copies, removes or writes parameters (the line reader, adoption, "
    "subsets, single-parameter changes, writers and the forwarding "
    "interface), with widened loops: per path and per iteration the calls "
    "that change the map, their key and value terms and the path conditions "
    "must be those of the operation")
MINIMUM = 100
PURE = True
IMPL = NS + "ParameterSetImpl"
OPAQUE = ("ParameterValue replaceUnlocked addUnlocked addMerge readStream "
          "readFile readBuffer writeStream skipQuoted lskipws rskipws "
          "getString").split()
WRITES = ("insert", "emplace", "insert_or_assign", "try_emplace",
          "emplace_hint", "replaceUnlocked", "addUnlocked", "operator[]",
          "add", "replace", "addMerge")


def nf(t):
    """readable form of a term; iterators and accessors are dropped"""
    if isinstance(t, str):
        return '"%s"' % t if not t.startswith('"') else t
    if t is None or isinstance(t, (int, float, bool)):
        return str(t)
    if isinstance(t, Poly):
        return show(t)
    if not isinstance(t, tuple) or not t:
        return show(t)
    k = t[0]
    if k == "init" and len(t) == 2:
        return nf(t[1])
    if k == "deref":
        return nf(t[1])
    if k in ("f", "fld") and len(t) >= 3:
        b = nf(t[1])
        return b if t[2] == "$base" else "%s.%s" % (
            b, {"bind0": "first", "bind1": "second"}.get(t[2], t[2]))
    if k == "phi":
        e = t[3]
        return "PHI" if e[0] == "v" else nf(e)
    if k == "each":
        return "PHI"
    if k == "sym":
        return t[1]
    if k == "rec":
        return nf(t[1])
    if k == "upd" and last(t[1]) in ("operator<<", "erase", "insert"):
        return nf(t[2])
    if k == "call":
        n = last(t[1])
        a = list(t[2:])
        if n in ("operator->", "operator*", "move", "forward", "get",
                 "cref") and len(a) == 1:
            return nf(a[0])
        if n == "to_lower_copy" and a:
            return "lower(%s)" % nf(a[0])
        if n in ("make_pair", "pair") and len(a) == 2:
            return "(%s, %s)" % (nf(a[0]), nf(a[1]))
        if n in ("basic_string", "string"):
            r = [x for x in a if not (isinstance(x, tuple) and (
                x[:1] == ("#",) or x[:1] == ("call",) and
                "allocator" in str(x[1])))]
            if len(r) == 1:
                return nf(r[0])
            if len(r) in (2, 3) and isinstance(r[0], tuple) and \
                    r[0][0] in ("sym", "each", "rec", "upd") and \
                    not isinstance(r[1], str):
                n, a = "substr", r      # string(text, position, length)
                if len(r) == 3 and r[2] == 2 ** 64 - 1:
                    a = r[:2]
        if n == "operator+" and len(a) == 2:
            return "%s+%s" % (nf(a[0]), nf(a[1]))
        if n == "substr" and len(a) == 3 and a[2] == 2 ** 64 - 1:
            a = a[:2]
        return "%s(%s)" % (n, ", ".join(nf(x) for x in a
                                        if not (isinstance(x, tuple) and
                                                x[:1] == ("#",))))
    if k == "size":
        return "size(%s)" % nf(t[1])
    if k == "lref" or k == "ptr":
        return nf(t[1])
    return show(t)


def calls(p, names=None, after=None):
    """call events of a path, or of the last iteration of a loop"""
    ev = p.events
    if after is not None:
        for i in range(len(ev) - 1, -1, -1):
            if ev[i][0] in ("loop", "loophead") and ev[i][1] == after:
                ev = ev[i:]
                break
    return [e for e in ev if e[0] == "call" and
            (names is None or last(e[1]) in names)]


def runs(rep, prog, name, opaque=OPAQUE):
    out = []
    for fn in prog.fn(name):
        it = Scanner(prog, opaque)
        try:
            ps = it.run(fn)
        except Budget as e:
            rep.undecided("paths", fn.where(), str(e))
            continue
        rep.fn(fn)
        rep.count("paths", len(ps))
        out.append((fn, it, ps))
    return out


def params(fn):
    return [p["n"] for p in fn["params"]]


def on_record(e):
    """an insertion into the record of used keys, not into the map"""
    loc = e[5] if len(e) > 5 else None
    return isinstance(loc, tuple) and loc[0] == "f" and loc[2] != "$base"


# the value of a parameter that was searched for
FOUND = re.compile(r"^(find|lower_bound)\(this\(\), (.*)\)\.second"
                   r"(?:\.itsValue)?$")


def stored(evs):
    """(key, value) pairs put into a parameter map, None if unclear"""
    out = []
    for e in evs:
        n = last(e[1])
        a = [nf(x) for x in e[2]]
        if n == "operator=" and len(a) == 2 and FOUND.match(a[0]):
            v = a[1]
            if v.endswith(".itsValue"):
                v = v[:-len(".itsValue")]
            out.append("(%s, %s)" % (FOUND.match(a[0]).group(2), v))
            continue
        if on_record(e):
            continue
        if n == "emplace_hint" and len(a) == 4:
            out.append("(%s, %s)" % (a[2], a[3]))
        elif n in ("insert", "emplace_hint"):
            x = a[-1]
            if x.startswith("make_pair("):
                x = x[len("make_pair"):]
            out.append(x)
        elif n in ("replaceUnlocked", "addUnlocked", "insert_or_assign",
                   "try_emplace", "add", "replace", "addMerge") and \
                len(a) >= 3:
            out.append("(%s, %s)" % (a[1], a[2]))
        elif n == "emplace" and len(a) == 3:
            out.append("(%s, %s)" % (a[1], a[2]))
        elif n == "emplace":
            out.append(a[-1])
        elif n == "operator[]" and len(a) == 2:
            # a following assignment gives the value
            i = evs.index(e)
            val = None
            for g in evs[i + 1:]:
                if last(g[1]) == "operator=" and len(g[2]) == 2:
                    val = nf(g[2][1])
                    break
            if val is None:
                continue
            if val.endswith(".itsValue"):
                val = val[:-len(".itsValue")]
            out.append("(%s, %s)" % (a[1], val))
    return out


def map_write(e):
    return last(e[1]) in WRITES + ("operator=",)


FIRST = ("insert", "emplace", "try_emplace", "emplace_hint")


def keeps_old(st, evs):
    """an insertion that leaves the value of an existing key alone"""
    for i, e in enumerate(evs):
        if last(e[1]) not in FIRST or on_record(e):
            continue
        key = nf(e[2][-1])
        if any(last(g[1]) == "erase" and len(g[2]) > 1 and
               nf(g[2][1]) in key for g in evs[:i]):
            continue
        name = last(e[1]) + "("
        if any(last(g[1]) == "operator=" and nf(g[2][0]).startswith(name)
               and ".second" in nf(g[2][0]) for g in evs[i + 1:]):
            continue
        fresh = False
        for f, v in st.facts.items():
            if not isinstance(f, tuple):
                continue
            s = show(f)
            if f[0] == "eq0" and v is False and name in s and \
                    isinstance(f[1], tuple) and f[1][0] in ("f", "fld") and \
                    f[1][2] in ("second", "bind1"):
                fresh = True
            if "lower_bound(" in s and ("end(" in s and v is True or
                                        ".first" in s and v is False):
                fresh = True
            if f[0] == "eq" and v is True and ("find(" in s) and \
                    "end(" in s or f[0] == "eq0" and v is True and \
                    "count(" in s:
                fresh = True
        if not fresh:
            return True
    return False


def prefix_test(fs, base):
    """truth of 'the key starts with base' in the facts; False/True, or
    None when it was not tested, or a text that tells what is wrong"""
    for f, v in fs.items():
        if not isinstance(f, tuple) or f[0] not in ("eq0", "eq"):
            continue
        for t in subterms(f):
            if not (isinstance(t, tuple) and t[0] == "call"):
                continue
            n = last(t[1])
            a = [nf(x) for x in t[2:]]
            low = "lower(PHI.first)" in a
            b = "lower(%s)" % base if "lower(%s)" % base in " ".join(a) \
                else base
            if n == "compare" and any("PHI.first" in x for x in a):
                if f[0] != "eq0" or f[1] != t:
                    return "the comparison with the prefix is not tested " \
                        "for equality"
                good = [x % dict(k=k, b=b) for k in
                        ("PHI.first", "lower(PHI.first)") for x in (
                            "%(k)s|0|size(%(b)s)|%(b)s",)]
                if "|".join(a) not in good and "|".join(a) not in [
                        g.rsplit("|", 1)[0].replace("size(%s)" % b, "LEN") +
                        "|" + b for g in good]:
                    ln = a[2] if len(a) > 2 else ""
                    if "|".join(a[:2] + ["size(%s)" % b] + a[3:]) in good \
                            and "size" in ln and b in ln and \
                            "+" not in ln and "-" not in ln:
                        pass
                    else:
                        return "the key is compared as compare(%s)" % \
                            ", ".join(a)
                if low != b.startswith("lower"):
                    return "only one side of the comparison is in lower " \
                        "case"
                return v
            if n in ("starts_with", "istarts_with") and \
                    any("PHI.first" in x for x in a):
                return not v if f[0] == "eq0" else None
            if n in ("find", "rfind") and a and "PHI.first" in a[0]:
                if f[0] == "eq0" and f[1] == t:
                    return v
    return None


def nocase(fs):
    """the set is case-insensitive; "no" if the facts contradict"""
    vs = {v for f, v in fs.items() if isinstance(f, tuple) and
          f[0] == "eq0" and "itsMode" in show(f[1])}
    return None if not vs else vs.pop() if len(vs) == 1 else "no"


def starts(rep, fn, it, key, base, what):
    """the iteration starts at the first key that can have the prefix"""
    for ph, e in it.entry_of.items():
        if ph[1:3] != key or not isinstance(e, tuple) or e[0] != "call":
            continue
        n = last(e[1])
        s = nf(e)
        if n in ("begin", "cbegin") and "this" in s:
            rep.ok("first", fn.where() + " " + what)
        elif n == "lower_bound":
            rep.check(s in ("lower_bound(this(), %s)" % base,
                            "lower_bound(this(), lower(%s))" % base),
                      "first", fn.where(), what + " starts at " + s)
        elif n == "upper_bound":
            rep.bad("first", fn.where(), what + " skips the parameter whose "
                    "name is the prefix itself")


ALGORITHMS = ("copy_if", "for_each", "transform", "erase_if", "copy",
              "remove_if", "find_if", "extract", "merge")


def only_end(f, base):
    """the fact tells nothing about the name of a parameter"""
    s = show(f)
    return "end(" in s and "bound" not in s.replace("lower_bound(this()", "") \
        or "itsMode" in s


def subsets(rep, prog):
    for name, op in (("makeSubset", "insert"), ("subtractSubset", "erase")):
        for fn, it, ps in runs(rep, prog, IMPL + "::" + name):
            base = params(fn)[0]
            pre = params(fn)[1] if op == "insert" else None
            if not it.back:
                some = [e for p in ps for e in calls(p)
                        if (last(e[1]) == "erase" if op == "erase" else
                            map_write(e) and stored([e])) or
                        last(e[1]) in ALGORITHMS]
                if some:
                    rep.undecided("subset", fn.where(), "no loop")
                else:
                    rep.bad("subset", fn.where(), "%s never %s a parameter"
                            % (name, "copies" if op == "insert" else
                               "removes"))
                continue
            for key, sts in it.back.items():
                w = "%s (%s)" % (name, fn.where())
                starts(rep, fn, it, key, base, name)
                for st in sts:
                    if nocase(st.facts) == "no":
                        continue
                    m = prefix_test(st.facts, base)
                    if isinstance(m, str):
                        rep.bad("subset-test", w, m)
                        continue
                    if m is None:
                        changes = [e for e in calls(st, None, key[0]) if
                                   map_write(e) or last(e[1]) == "erase"]
                        if changes and all(only_end(f, base)
                                           for f in st.facts):
                            rep.bad("subset-test", w, "parameters are taken "
                                    "without a test of their name")
                        else:
                            rep.undecided("subset-test", w,
                                          "prefix not tested")
                        continue
                    low = any("lower(" in nf(t) for f in st.facts
                              for t in subterms(f) if isinstance(t, tuple)
                              and t[0] == "call" and last(t[1]) == "compare")
                    nc = nocase(st.facts)
                    if nc is not None:
                        rep.check(nc == low, "subset-case", w, "keys are "
                                  "compared in lower case exactly when the "
                                  "set is %s" % ("case-insensitive"
                                                 if low else "exact"))
                    evs = calls(st, None, key[0])
                    if op == "insert":
                        got = stored([e for e in evs if map_write(e)])
                        want = ["(%s+substr(PHI.first, size(%s)), "
                                "PHI.second)" % (pre, b) for b in
                                (base, "lower(%s)" % base)]
                        if m:
                            rep.check(len(got) == 1 and got[0] in want,
                                      "subset-copy", w, "a parameter with "
                                      "the prefix must be copied once, "
                                      "under its name without the prefix; "
                                      "stores %s" % got)
                        else:
                            rep.check(not got, "subset-copy", w, "copies a "
                                      "parameter without the prefix")
                    else:
                        got = [nf(e[2][1]) for e in evs
                               if last(e[1]) == "erase" and len(e[2]) == 2]
                        if m:
                            rep.check(len(got) == 1 and got[0] in (
                                "PHI", "PHI.first"), "subset-erase", w,
                                "a parameter with the prefix must be "
                                "removed once; removes %s" % got)
                        else:
                            rep.check(not got, "subset-erase", w, "removes "
                                      "a parameter without the prefix")
                    advance(rep, it, st, key, w)
            for p in ps:
                if p.outcome == "throw" or nocase(p.facts) == "no":
                    continue
                m = prefix_test(p.facts, base)
                if m is False:
                    continue        # the first key behind the prefix
                left_at_end(rep, fn, p, "subset-all", name)
                if op == "insert":
                    v = nf(p.value) if p.value is not None else ""
                    rep.check("this" not in v, "subset-result", fn.where(),
                              "the result is the set itself")


def advance(rep, it, st, key, w):
    """the iterator of the loop moves on by one"""
    for l, v in st.env.items():
        ph = ("phi",) + key + (l,)
        e = it.entry_of.get(ph)
        if not (isinstance(e, tuple) and e[0] == "call" and last(e[1]) in (
                "begin", "cbegin", "lower_bound")) or "PHI" in nf(e):
            continue
        if not any(contains(f, lambda t: t == ph) for f in st.facts):
            continue                # not the iterator of the loop test
        if v == ph:
            rep.bad("advance", w, "the iteration does not move on")
        elif isinstance(v, tuple) and v[0] == "upd" and v[1] in (
                "operator++",):
            rep.check(v[2] == ph, "advance", w, "moves on by more than one")
        else:
            rep.ok("advance", w)


def adopt(rep, prog):
    for fn, it, ps in runs(rep, prog, IMPL + "::adoptCollection"):
        coll, pre = params(fn)
        for key, sts in it.back.items():
            w = "adoptCollection (%s)" % fn.where()
            for st in sts:
                got = stored([e for e in calls(st, None, key[0])
                              if map_write(e)])
                rep.check(got == ["(%s+PHI.first, PHI.second)" % pre],
                          "adopt", w, "every parameter must be stored with "
                          "the prefix before its name and its own value; "
                          "stores %s" % got)
                rep.check(not keeps_old(st, calls(st, None, key[0])),
                          "adopt-replaces", w, "a parameter that exists "
                          "already keeps its value")
                advance(rep, it, st, key, w)
        for p in ps:
            if p.outcome == "throw":
                continue
            w = fn.where(p.node)
            left_at_end(rep, fn, p, "adopt-all", "adoptCollection")
            looped = any(e[0] in ("loophead", "loopexit") for e in p.events)
            same = None
            for f, v in p.facts.items():
                s = show(f)
                if isinstance(f, tuple) and f[0] in ("eq", "eq0", "peq") \
                        and "this" in s and coll in s and "end(" not in s \
                        and "size" not in s:
                    same = v
            if looped:
                # a set must not grow while it is walked through
                if same is not False:
                    over = [e[5] for e in calls(p, ("begin", "cbegin"))
                            if len(e) > 5 and e[5]]
                    own = [x for x in over if x[0] != "v"]
                    rep.check(not own, "adopt-self", w,
                              "walks through the set that it changes")
                else:
                    rep.ok("adopt-self", w)
            elif same is False:
                rep.bad("adopt-none", w, "another set is not adopted")
            elif same is True:
                empty = any(v is True and isinstance(f, tuple) and
                            f[0] == "eq0" and pre in show(f[1])
                            for f, v in p.facts.items())
                rep.check(empty, "adopt-none", w, "a set adopted by itself "
                          "with a prefix is not stored")
            else:
                rep.undecided("adopt-none", w, "no loop, identity unknown")
    for fn, it, ps in runs(rep, prog, IMPL + "::adoptArguments"):
        for key, sts in it.back.items():
            for st in sts:
                w = "adoptArguments (%s)" % fn.where()
                fd = {t for f in st.facts for t in subterms(f)
                      if isinstance(t, tuple) and t[0] == "call" and
                      last(t[1]) in ("find", "find_first_of")}
                if len(fd) != 1:
                    evs = [e for e in calls(st, None, key[0])
                           if map_write(e) and last(e[1]) != "operator="]
                    plain = all("end(" in show(f) for f in st.facts)
                    if not fd and any(
                            isinstance(t, tuple) and t[0] == "call" and
                            last(t[1]) in ("rfind", "find_last_of") and
                            61 in t[2:] for f in st.facts
                            for t in subterms(f)):
                        rep.bad("arguments", w, "the argument is split at "
                                "its last '='")
                    elif not fd and plain and evs:
                        rep.bad("arguments", w, "arguments without '=' are "
                                "stored")
                    elif not fd and plain and not calls(st, None, key[0]):
                        rep.bad("arguments", w, "arguments are not stored")
                    elif not fd and plain and not any(
                            stored([e]) for e in evs):
                        rep.bad("arguments", w, "arguments are not stored")
                    else:
                        rep.undecided("arguments", w, "no search for '='")
                    continue
                t = fd.pop()
                rep.check(t[3] == 61 and (len(t) < 5 or t[4] == 0),
                          "arguments", w, "the argument is not split at its "
                          "first '='")
                miss = st.facts.get(("eq0", sub(t, 2 ** 64 - 1)))
                evs = [e for e in calls(st, None, key[0]) if map_write(e)
                       and last(e[1]) != "operator="]
                if miss is True:
                    rep.check(not evs, "arguments", w,
                              "an argument without '=' is stored")
                elif miss is False:
                    rep.check(not keeps_old(st, calls(st, None, key[0])),
                              "arguments-replace", w, "a parameter that "
                              "exists already keeps its value")
                    ok = len(evs) == 1 and len(evs[0][2]) == 3
                    if ok:
                        k, v = evs[0][2][1:]
                        pk, pv = piece([k]), piece([v])
                        ok = pk is not None and pv is not None and \
                            pk[1] == 0 and pk[2] == t and \
                            sub(pv[1], t) == 1 and (
                                pv[2] == ("size", pv[0]) or
                                sub(pv[2], pv[1]) == 2 ** 64 - 1)
                    rep.check(ok, "arguments", w, "the text before the '=' "
                              "must be the key and all that follows it the "
                              "value: %s" % [[nf(x) for x in e[2][1:]]
                                             for e in evs])
                else:
                    rep.undecided("arguments", w, "missing '=' not tested")


def single(rep, prog):
    for name in ("replaceUnlocked", "replace"):
        for fn, it, ps in runs(rep, prog, IMPL + "::" + name):
            k, v = params(fn)
            for p in ps:
                if p.outcome == "throw":
                    rep.bad("replace", fn.where(p.node), "refuses")
                    continue
                got = stored(calls(p))
                evs = calls(p, ("insert", "emplace", "try_emplace",
                                "addUnlocked"))
                ok = got == ["(%s, %s)" % (k, v)]
                if ok and evs:
                    er = [nf(e[2][1]) for e in calls(p, ("erase",))]
                    ok = er == [k] or not keeps_old(p, calls(p))
                rep.check(ok, "replace", fn.where(), "%s must store the "
                          "given value under the given key; stores %s" %
                          (name, got))
    for name in ("addUnlocked", "add"):
        for fn, it, ps in runs(rep, prog, IMPL + "::" + name):
            k, v = params(fn)
            rep.check(any(p.outcome != "throw" for p in ps), "add",
                      fn.where(), name + " never adds a parameter")
            for p in ps:
                got = stored(calls(p))
                done = [val for f, val in p.facts.items()
                        if isinstance(f, tuple) and f[0] == "eq0" and
                        ("second" in show(f[1]) or "bind1" in show(f[1]))
                        and ("insert" in show(f[1]) or
                             "emplace" in show(f[1]))]
                if p.outcome == "throw":
                    if done:
                        rep.check(done[-1] is True, "add-throw",
                                  fn.where(p.node), "refuses a new key")
                    continue
                rep.check(got == ["(%s, %s)" % (k, v)], "add", fn.where(),
                          "%s must store the given value under the given "
                          "key; stores %s" % (name, got))
                if name == "addUnlocked" and calls(p, (
                        "insert", "emplace", "try_emplace")):
                    rep.check(bool(done) and done[-1] is False, "add-twice",
                              fn.where(), "a second value for a key is "
                              "dropped silently")
    for fn, it, ps in runs(rep, prog, IMPL + "::remove"):
        k = params(fn)[0]
        for p in ps:
            er = [nf(e[2][1]) for e in calls(p, ("erase",))]
            present = [v for f, v in p.facts.items() if "find" in show(f)]
            rep.check(er == [k] or bool(present), "remove", fn.where(),
                      "the given key is not removed: %s" % er)
    for fn, it, ps in runs(rep, prog, IMPL + "::addMerge"):
        k, v = params(fn)[:2]
        for p in ps:
            got = stored(calls(p))
            er = [nf(e[2][1]) for e in calls(p, ("erase",))]
            over = calls(p, ("replaceUnlocked", "operator[]",
                             "insert_or_assign")) or (
                calls(p, FIRST) and not keeps_old(p, calls(p)))
            rep.check(p.outcome != "throw" and len(got) == 1 and
                      got[0] in ("(%s, ParameterValue(%s, %s))" % (k, v, o)
                                 for o in ("1", "True")) and
                      (er == [k] or bool(over)), "merge", fn.where(),
                      "a parameter that is read must replace an earlier one "
                      "with the same key; stores %s, removes %s" %
                      (got, er))
    for fn, it, ps in runs(rep, prog, IMPL + "::isDefined"):
        k = params(fn)[0]
        for p in ps:
            f = [(f, v) for f, v in p.facts.items()
                 if isinstance(f, tuple) and f[0] == "eq" and
                 "end(" in show(f)]
            if p.outcome == "return" and is_num(p.value) and f:
                rep.check(bool(p.value) == (not f[0][1]), "defined",
                          fn.where(), "tells the opposite")
            elif p.outcome == "return":
                s = nf(p.value)
                rep.check(k in s, "defined", fn.where(), "answers " + s)


def opened(p):
    """the facts say that the stream is usable: True, False, None"""
    for f, v in p.facts.items():
        if isinstance(f, tuple) and f[0] == "eq0":
            s = show(f[1])
            if "operator bool(" in s:
                return not v
            if "operator!(" in s or "fail(" in s:
                return v
            if "is_open(" in s or "good(" in s:
                return not v
    return None


def files(rep, prog):
    for fn, it, ps in runs(rep, prog, IMPL + "::readFile"):
        name, pre, merge = params(fn)
        for p in ps:
            rd = calls(p, ("readStream",))
            op = opened(p)
            eof = any("eof(" in show(f) and v is False
                      for f, v in p.facts.items()
                      if isinstance(f, tuple) and f[0] == "eq0")
            if p.outcome == "throw":
                rep.check(op is False or eof, "file-throw",
                          fn.where(p.node), "rejects a readable file")
                continue
            rep.check(op is True and not eof, "file-open", fn.where(),
                      "a file that cannot be opened is not an error")
            a = [[nf(x) for x in e[2]][-2:] for e in rd]
            rep.check(a == [[pre, merge]], "file-read", fn.where(),
                      "the contents of the file must be read once, with the "
                      "given prefix and mode: %s" % a)
            how = [nf(x) for e in calls(p, ("open", "basic_ifstream",
                                            "ifstream")) for x in e[2][1:2]]
            how += [nf(x) for e in calls(p, ("basic_ifstream", "ifstream"))
                    for x in e[2][:1]]
            rep.check(any(name in h for h in how), "file-name", fn.where(),
                      "opens %s" % how)
    for fn, it, ps in runs(rep, prog, IMPL + "::readBuffer"):
        buf, pre, merge = params(fn)
        for p in ps:
            a = [[nf(x) for x in e[2]] for e in calls(p, ("readStream",))]
            rep.check(len(a) == 1 and a[0][-2:] == [pre, merge] and
                      buf in nf(calls(p, ("readStream",))[0][2][1]) +
                      "".join(nf(x) for e in calls(p, (
                          "basic_istringstream", "istringstream",
                          "basic_stringstream", "str")) for x in e[2]),
                      "buffer-read", fn.where(), "the buffer must be read "
                      "once, with the given prefix and mode: %s" % a)
    for name, to, flag in (("adoptFile", "readFile", "1"),
                           ("adoptBuffer", "readBuffer", "1")):
        for fn, it, ps in runs(rep, prog, IMPL + "::" + name):
            for p in ps:
                a = [[nf(x) for x in e[2]][1:] for e in calls(p, (to,))]
                rep.check(a in ([params(fn) + [flag]],
                                [params(fn) + ["True"]]), "adopt-file",
                          fn.where(), "%s must read the given source with "
                          "the given prefix: %s" % (name, a))
    for fn, it, ps in runs(rep, prog, IMPL + "::ParameterSetImpl"):
        if len(params(fn)) != 2:
            continue
        for p in ps:
            a = [[nf(x) for x in e[2]][1:] for e in calls(p, ("readFile",))]
            rep.check(len(a) == 1 and a[0][0] == params(fn)[0] and
                      a[0][1] in ('""', "\"\"", "basic_string()", "") and
                      a[0][2] in ("0", "False"), "construct-file",
                      fn.where(), "the set must be read from the given file,"
                      " without prefix: %s" % a)
    for fn, it, ps in runs(rep, prog, IMPL + "::writeFile"):
        name, app = params(fn)
        for p in ps:
            op = opened(p)
            if p.outcome == "throw":
                rep.check(op is False, "write-throw", fn.where(p.node),
                          "rejects a writable file")
                continue
            check_mode(rep, fn, p, app)
            rep.check(op is True, "write-open", fn.where(), "a file that "
                      "cannot be opened is not an error")
            rep.check(len(calls(p, ("writeStream",))) == 1, "write-file",
                      fn.where(), "the parameters must be written once")
    for fn, it, ps in runs(rep, prog, IMPL + "::writeBuffer"):
        for p in ps:
            rep.check(len(calls(p, ("writeStream",))) == 1, "write-buffer",
                      fn.where(), "the parameters must be written once")
            v = p.state.env.get(("g", "param:" + params(fn)[0]))
            if v is None:
                st = [e for e in calls(p, ("operator=", "swap", "assign"))]
                rep.check(bool(st), "write-buffer", fn.where(), "the text "
                          "is not stored in the buffer")
    for fn, it, ps in runs(rep, prog, IMPL + "::writeStream"):
        for key, sts in it.back.items():
            w = "writeStream (%s)" % fn.where()
            for st in sts:
                out = [nf(e[2][-1]) for e in calls(st, None, key[0])
                       if last(e[1]) in ("operator<<", "put", "write")]
                text = "".join({"10": "\n", '"="': "=", '"\n"': "\n",
                                "61": "=", '"\\n"': "\n"}.get(o, "{%s}" % o)
                               for o in out)
                text = text.replace("+\"=\"+", "}={").replace("endl", "\n")
                rep.check(text in ("{PHI.first}={PHI.second.itsValue}\n",
                                   "{PHI.first}={PHI.second}\n"),
                          "write-line", w, "a line must be key=value; "
                          "writes %r" % text)
                advance(rep, it, st, key, w)
        for p in ps:
            left_at_end(rep, fn, p, "write-all", "writeStream")


def mode_of(t):
    """the bits of an open mode (libstdc++: app 1, in 8, out 16, trunc 32)"""
    if is_num(t):
        return int(t)
    if isinstance(t, tuple) and t[0] == "call" and len(t) == 4 and \
            last(t[1]) == "operator|":
        a, b = mode_of(t[2]), mode_of(t[3])
        return None if a is None or b is None else a | b
    return None


def check_mode(rep, fn, p, app):
    """appending keeps what the file holds, otherwise it is replaced"""
    sel = [v for k, v in p.state.facts.items()
           if k == ("eq0", ("sym", app))]
    args = [[x for x in e[2] if not (isinstance(x, tuple) and
                                     x[:1] == ("#",))]
            for e in calls(p, ("open", "basic_ofstream"))]
    args = [a for a in args if len(a) >= 2]
    if len(sel) != 1 or len(args) != 1:
        rep.undecided("write-mode", fn.where(), "mode of the file")
        return
    m = 16
    if len(args[0]) >= 3 or is_num(args[0][-1]):
        m = mode_of(args[0][-1])
    if m is None:
        rep.undecided("write-mode", fn.where(), "mode of the file")
        return
    # ios: out alone truncates; app or in keep
    keeps = bool(m & 1) or bool(m & 8) and not m & 32
    want = sel[0] is False
    rep.check(keeps == want and (not want or bool(m & 1) or bool(m & 2)),
              "write-mode", fn.where(), "writeFile with append=%s opens the "
              "file so that its contents are %s"
              % ("true" if want else "false",
                 "kept" if keeps else "lost"))


def named(rep, it, here, states, K):
    """a parameter is stored when there is a key"""
    for st, loop in states:
        adds = calls(st, ("addMerge",), loop and loop[0])
        if not adds and not loop and getattr(st, "outcome", "") in (
                "return", "end") and it.back:
            # the last parameter of the text
            kf = [f for f, v in st.facts.items() if isinstance(f, tuple) and
                  contains(f, lambda t: isinstance(t, tuple) and
                           t[:1] == ("phi",) and t[-1] == K) and
                  ("size" in show(f) or "empty" in show(f))]
            lo = [f for f in kf if consistent({f: st.facts[f]}, {
                t: 3 for t in subterms(f) if isinstance(t, tuple) and
                t[:2] == ("call", "size") or t[:1] == ("size",)})]
            rep.check(bool(kf) and len(lo) < len(kf), "lines-last", here,
                      "the last parameter may be dropped although it has a "
                      "key")
        for e in adds:
            k = e[2][1]
            if not (isinstance(k, tuple) and k[0] == "phi"):
                continue
            # the key at that moment
            known = None
            flags = False
            for f, v in st.facts.items():
                if not isinstance(f, tuple) or f[0] not in ("eq0", "lt0",
                                                            "eq"):
                    continue
                if contains(f, lambda t: t == k) and (
                        "size" in show(f) or "empty" in show(f)):
                    known = v
                elif f[0] == "eq0" and isinstance(f[1], tuple) and \
                        f[1][0] == "phi":
                    flags = True
            if known is None and flags:
                continue
            rep.check(known is not None, "lines-named", here, "a parameter "
                      "is stored without a test that a key was read")


def stream(rep, prog):
    """the lines of the reader: value assembly and keys"""
    for fn, it, ps in runs(rep, prog, IMPL + "::readStream"):
        here = "readStream (%s)" % fn.where()
        ml = main_loop(it)
        if ml is None:
            rep.undecided("lines", here, "no scan loop")
            continue
        n, inner, sts, pos, el = ml
        line = el[1]
        outer = [k for k in it.back if k != inner]
        if len(outer) != 1:
            rep.undecided("lines", here, "no line loop")
            continue
        outer = outer[0]
        pre, merge = params(fn)[1:3]
        adds = [e for st in sts for e in calls(st, ("addMerge",))]
        adds += [e for p in ps for e in calls(p, ("addMerge",))]
        val = {e[2][2][3] for e in adds if len(e[2]) > 3 and
               isinstance(e[2][2], tuple) and e[2][2][0] == "phi"}
        keyl = {e[2][1][3] for e in adds if len(e[2]) > 3 and
                isinstance(e[2][1], tuple) and e[2][1][0] == "phi"}
        if len(val) != 1 or len(keyl) != 1:
            if not adds:
                rep.bad("lines", here, "no parameter is ever stored")
            else:
                rep.undecided("lines", here, "key and value not identified")
            continue
        V, K = val.pop(), keyl.pop()
        for e in adds:
            rep.check(nf(e[2][3]) == merge, "lines-merge", here,
                      "stores with mode " + nf(e[2][3]))
        # the limit of the scan and the start of the value
        end = start = None
        for st in sts:
            for f, v in st.facts.items():
                if isinstance(f, tuple) and f[0] == "lt0" and v is True:
                    d = sub(pos, f[1])
                    if isinstance(d, tuple) and d[0] == "phi":
                        end = d
        for st in sts:
            if consistent(st.facts, {el: 61}):
                for l, v in st.env.items():
                    ph = ("phi",) + inner + (l,)
                    if ph != pos and l[0] == "v" and sub(v, pos) == 1 and \
                            ph in it.entry_of and l != pos[3]:
                        start = ph
        for st in sts:
            for f, v in st.facts.items():
                if isinstance(f, tuple) and f[0] == "lt0" and v is False:
                    d = add(f[1], pos)
                    if isinstance(d, tuple) and d[0] == "phi" and \
                            d[1:3] == inner:
                        rep.bad("lines", here, "the scan of a line goes "
                                "past its end")
        if end is not None and start is None and not any(
                st.env.get(l, ("phi",) + inner + (l,)) !=
                ("phi",) + inner + (l,) for st in sts
                if consistent(st.facts, {el: 61}) for l in (V, K)):
            rep.bad("lines-key", here, "a '=' does not end a key")
            continue
        if end is None or start is None:
            rep.undecided("lines", here, "limits not identified")
            continue

        def name(t):
            return isinstance(t, tuple) and t[0] == "call" and last(t[1])
        e0, s0, p0 = (it.entry_of.get(x) for x in (end, start, pos))
        rep.check(name(p0) == "lskipws" and p0[3] == 0 and
                  name(p0[4]) in ("size", "length") or
                  name(p0) == "lskipws" and p0[3] == 0, "lines-init", here,
                  "the scan of a line starts at " + nf(p0))
        rep.check(s0 == p0, "lines-init", here, "the first piece of a line "
                  "starts at " + nf(s0))
        rep.check(name(e0) == "rskipws" and (e0[3] == p0 or e0[3] == 0),
                  "lines-init", here, "a line ends at " + nf(e0))
        named(rep, it, here, [(st, inner) for st in sts] +
              [(p, None) for p in ps], K)
        # a comment ends the line
        for st in sts:
            if consistent(st.facts, {el: 35}) and not consistent(
                    st.facts, {el: 97}):
                ne = st.env.get(end[3])
                ok = name(ne) == "rskipws" and ne[4] == pos or ne == pos
                rep.check(ok, "lines-comment", here, "at a # the line must "
                          "end; its end becomes " + nf(ne))
        if not any(consistent(st.facts, {el: 35}) and not consistent(
                st.facts, {el: 97}) for st in sts) and any(
                consistent(st.facts, {el: 35}) and
                st.env.get(end[3], end) == end for st in sts):
            rep.bad("lines-comment", here, "a comment behind a value is not "
                    "recognised")
        # at the '='
        for st in sts:
            w = here + ", at '='"
            a = calls(st, ("addMerge",), inner[0])
            pv = ("phi",) + inner + (V,)
            if a:
                nv = st.env.get(V)
                emptied = isinstance(nv, tuple) and (
                    nv[0] == "upd" and nv[1] in ("erase", "clear") or
                    nv[0] == "call" and len(nv) == 2) or nv == ""
                rep.check(emptied, "lines-value", w, "the value of a "
                          "parameter is kept for the next one: " + nf(nv))
            else:
                rep.check(st.env.get(V) == pv, "lines-value", w, "the value "
                          "changes within a key")
            nk = st.env.get(K)
            if nk is None or nk == ("phi",) + inner + (K,):
                if consistent(st.facts, {el: 61}):
                    rep.bad("lines-key", w, "the text before '=' does not "
                            "become the key")
                continue
            s = nf(nk)
            rep.check(s.startswith(pre + "+getString("), "lines-key", w,
                      "the key must be the prefix followed by the text "
                      "before the '=' without quotes; is " + s)
            for t in subterms(nk):
                if name(t) == "substr" and len(t) == 5:
                    pc = piece([t])
                    last_ = sub(pc[2], 1)
                    good = isinstance(last_, tuple) and \
                        last_[0] == "phi" or name(pc[2]) == "rskipws" and \
                        pc[2][4] == pos
                    rep.check(good and pc[1] == start, "lines-key", w,
                              "the key is taken from %s to %s" %
                              (nf(pc[1]), nf(pc[2])))
        # behind the scan of a line
        nlines = 0
        for st in it.back[outer]:
            w = here + ", end of a line"
            fs = st.facts
            scanned = ("lt0", sub(pos, end)) in fs
            pv = ("phi",) + (inner if scanned else outer) + (V,)
            nv = st.env.get(V)
            heads = [i for i, e in enumerate(st.events)
                     if e[0] == "loophead" and e[1] == outer[0]]
            rd = [e for e in st.events[heads[-1] if heads else 0:]
                  if e[0] == "call" and last(e[1]) == "getline"]
            rep.check(len(rd) >= 1, "lines-next", w,
                      "the next line is not read")
            if not scanned:
                rep.check(nv == pv or nv is None, "lines-skip", w, "a blank "
                          "or comment line changes the value")
                first = [f for f, v in fs.items() if isinstance(f, tuple)
                         and f[0] == "eq0" and v is True and any(
                             is_el(t) for t in subterms(f))]
                blank = fs.get(("lt0", sub(p0, e0))) is False or \
                    fs.get(("eq0", sub(p0, e0))) is True
                rep.check(bool(first) or blank, "lines-skip", w, "a line "
                          "that is neither blank nor a comment is skipped")
                for f in first:
                    t = [x for x in subterms(f) if is_el(x)][0]
                    rep.check(sub(t, f[1]) == 35 and t[2] == p0,
                              "lines-skip", w, "skips lines by " +
                              show(f[1])[:80])
                continue
            nlines += 1
            # trailing backslash
            bs = None
            for f, v in fs.items():
                if isinstance(f, tuple) and f[0] == "eq0":
                    for t in subterms(f):
                        if is_el(t) and sub(t, f[1]) == 92:
                            rep.check(sub(end, t[2]) == 1, "lines-backslash",
                                      w, "tests the character at " +
                                      nf(t[2]))
                            bs = v
            if bs is None:
                if any(isinstance(t, tuple) and t and t[0] == "call" and
                       last(t[1]) in ("ends_with", "back", "rbegin",
                                      "find_last_not_of", "find_last_of")
                       for f in fs for t in subterms(f)):
                    rep.undecided("lines-backslash", w, "not tested")
                else:
                    rep.bad("lines-backslash", w, "a backslash at the end "
                            "of a line is not tested for")
                continue
            em = None
            if isinstance(nv, tuple):
                em = []
                x = nv
                for _ in range(10):
                    if x == pv:
                        break
                    if not isinstance(x, tuple):
                        em = None
                        break
                    if x[0] == "upd" and last(x[1]) == "assign" and \
                            len(x[3]) == 4:
                        em.append(("SET", ("call", "substr") +
                                   tuple(x[3][1:])))
                        break
                    if x[0] == "upd" and last(x[1]) in ("operator+=",
                                                        "append",
                                                        "push_back"):
                        em.append(x[3][1:])
                        x = x[2]
                        continue
                    if x[0] == "upd" and last(x[1]) in ("operator=",
                                                        "assign"):
                        x = x[3][-1]
                        continue
                    if name(x) == "operator+" and len(x) == 4:
                        em.append((x[3],))
                        x = x[2]
                        continue
                    if name(x) == "substr":
                        em.append(("SET", x))
                        break
                    em = None
                    break
                if em is not None:
                    em.reverse()
            if em is None:
                rep.undecided("lines-append", w, "value becomes " + nf(nv))
                continue
            e2s = [t for f in fs for t in subterms(f)
                   if name(t) == "lskipws" and t[3] == start]
            if not e2s:
                rep.undecided("lines-append", w, "no start of the value")
                continue
            b = e2s[-1]
            e2 = b[4]
            if bs:
                rep.check(name(e2) == "rskipws" and sub(end, e2[4]) == 1 or
                          sub(end, e2) == 1, "lines-backslash", w,
                          "behind the value a backslash and the blanks "
                          "before it must be dropped; ends at " + nf(e2))
            else:
                rep.check(e2 == end, "lines-end", w, "the value ends at " +
                          nf(e2))
            some = fs.get(("lt0", sub(b, e2)))
            if some is None and ("eq0", sub(b, e2)) in fs:
                some = not fs[("eq0", sub(b, e2))]
            if some is None:
                rep.undecided("lines-append", w, "emptiness not tested")
                continue
            if not some:
                rep.check(not em, "lines-append", w, "an empty line changes "
                          "the value")
                continue
            empty = None
            for f, v in fs.items():
                if isinstance(f, tuple) and f[0] == "eq0" and \
                        contains(f, lambda t: t == pv) and \
                        "size" in show(f[1]):
                    empty = v
            pieces = []
            for a in em:
                if a[0] == "SET":
                    pieces.append(("SET", piece([a[1]])))
                elif len(a) == 1 and (a[0] == 32 or a[0] == " " or
                                      nf(a[0]).strip('"') == " "):
                    pieces.append("blank")
                else:
                    pieces.append(piece(a))
            if None in pieces or ("SET", None) in pieces:
                rep.undecided("lines-append", w, "appends an unknown piece")
                continue
            lastp = pieces[-1] if pieces else None
            setp = isinstance(lastp, tuple) and lastp[0] == "SET"
            pc = lastp[1] if setp else lastp
            ok = pc is not None and pc != "blank" and pc[1] == b and \
                pc[2] == e2
            rep.check(ok, "lines-append", w, "the value of the line must be "
                      "added from its first to its last character: %s" %
                      [nf(x) if not isinstance(x, str) else x
                       for x in (pc or ())])
            if setp:
                rep.check(empty is True, "lines-append", w, "a continuation "
                          "line replaces the value before it")
                continue
            if empty is not False and "blank" not in pieces:
                continue
            q = [at for at in char_atoms(fs) if at[2] == b]
            quoted = bool(q) and any(consistent(fs, {q[0]: c})
                                     for c in (34, 39))
            plain = not q or consistent(fs, {q[0]: 97})
            if "blank" in pieces:
                rep.check(q and not quoted, "lines-blank", w, "a blank "
                          "is put before a quoted continuation")
                rep.check(empty is False, "lines-blank", w, "a blank "
                          "is put before the value")
            else:
                rep.check(not plain, "lines-blank", w, "a continuation line "
                          "is joined without a blank")
        if not nlines:
            rep.undecided("lines", here, "no scanned line")


def forwards(rep, prog):
    """ParameterSet passes everything on to the shared implementation"""
    P = NS + "ParameterSet"
    flag = {"adoptFile": None}
    names = ("adoptFile adoptBuffer adoptArguments writeFile writeBuffer "
             "writeStream subtractSubset remove isDefined makeSubset "
             "adoptCollection add replace").split()
    stop = set(names) | set(OPAQUE)
    for name in names:
        for fn in prog.fn(P + "::" + name):
            it = Scanner(prog, stop)
            try:
                ps = it.run(fn)
            except Budget:
                continue
            rep.fn(fn)
            want = params(fn)
            for p in ps:
                ev = [e for e in calls(p, (name,))]
                w = "ParameterSet::%s (%s)" % (name, fn.where())
                if len(ev) != 1:
                    rep.check(False, "forward", w, "must be passed on to the"
                              " implementation once")
                    continue
                a = [nf(x) for x in ev[0][2][1:]]
                if name == "adoptCollection":
                    a = [x.replace(".itsSet", "") for x in a]
                if name in ("add", "replace"):
                    if len(want) == 1:
                        k, v = want[0] + ".first", want[0] + ".second"
                    else:
                        k, v = want
                    good = [[k, x] for x in (
                        v, "ParameterValue(%s, 0)" % v,
                        "ParameterValue(%s, False)" % v)]
                    rep.check(a in good, "forward", w, "must store the "
                              "given value as it is under the given key: "
                              "%s" % a)
                else:
                    rep.check(a == want, "forward", w, "passes on %s" % a)


WORDS = ["", "a", "A", "b", "B", "ab", "aB", "Ab", "AB", "abc", "ABd", "z",
         "Z", "[", "_", "{", "a.", "a_", "A.b", "a.B", "a[", "A[", "a{",
         "msin", "MSIN", "msin.", "msin.name", "MsIn.Name", "msin.nam",
         "msin.namf", "steps", "1", "a1", "A10", "a2"]


class NoValue(Exception):
    pass


def order_term(prog, t, env, depth=0):
    """value of a term over strings and characters"""
    if depth > 40:
        raise NoValue("depth")

    def ev(x):
        return order_term(prog, x, env, depth + 1)
    if is_num(t):
        return t
    if isinstance(t, bool):
        return int(t)
    if isinstance(t, Poly):
        out = 0
        for mono, c in t.m.items():
            for a in mono:
                c = c * ev(a)
            out += c
        return out
    if not isinstance(t, tuple) or not t:
        raise NoValue(show(t))
    k = t[0]
    if k == "sym" and t[1] in env:
        return env[t[1]]
    if k == "lt0":
        return int(ev(t[1]) < 0)
    if k == "eq0":
        return int(ev(t[1]) == 0)
    if k == "eq":
        return int(ev(t[1]) == ev(t[2]))
    if k == "size":
        return len(ev(t[1]))
    if k == "not":
        return int(not ev(t[1]))
    if k == "op" and len(t) == 4 and t[1] in "&|^":
        a, b = ev(t[2]), ev(t[3])
        return {"&": a & b, "|": a | b, "^": a ^ b}[t[1]]
    if k in ("el", "elem") and len(t) == 3:
        v, i = ev(t[1]), ev(t[2])
        if is_num(i) and 0 <= i < len(v):
            return ord(v[i])
        if i == len(v):
            return 0
        raise NoValue("outside")
    if k == "call":
        n, a = last(t[1]), t[2:]
        if n == "__unspec":
            return 0
        if n in ("toupper", "tolower") and len(a) == 1:
            c = ev(a[0])
            return ord(getattr(chr(c), n[2:])())
        if n in ("begin", "cbegin", "end", "cend") and len(a) == 1:
            v = ev(a[0])
            return (v, 0 if "begin" in n else len(v))
        if n in ("size", "length") and len(a) == 1:
            return len(ev(a[0]))
        if n in ("operator+", "operator-") and len(a) == 2:
            x, y = ev(a[0]), ev(a[1])
            if isinstance(x, tuple) and is_num(y):
                return (x[0], x[1] + (y if n[8] == "+" else -y))
            raise NoValue(n)
        if n in ("min", "max") and len(a) == 2:
            return (min if n == "min" else max)(ev(a[0]), ev(a[1]))
        if n in ("c_str", "data") and len(a) == 1:
            return ev(a[0])
        if n in ("to_lower_copy", "to_upper_copy"):
            v = ev(a[0])
            return v.lower() if "lower" in n else v.upper()
        if n in ("operator<=>", "compare", "strcmp") and len(a) == 2:
            x, y = ev(a[0]), ev(a[1])
            return (x > y) - (x < y)
        if n in ("strcasecmp", "stricmp") and len(a) == 2:
            x, y = ev(a[0]).lower(), ev(a[1]).lower()
            return (x > y) - (x < y)
        if n in ("operator<", "operator<=", "operator>", "operator>=",
                 "operator==", "operator!=") and len(a) == 2:
            x, y = ev(a[0]), ev(a[1])
            return int({"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y,
                        "==": x == y, "!=": x != y}[n[8:]])
        if n == "lexicographical_compare" and len(a) in (4, 5):
            v = [ev(x) for x in a[:4]]
            x = v[0][0][v[0][1]:v[1][1]]
            y = v[2][0][v[2][1]:v[3][1]]
            if len(a) == 4:
                return int(x < y)
            f = a[4]
            if not (isinstance(f, tuple) and f[0] == "fnref"):
                raise NoValue("comparison of characters")
            for c, d in zip(x, y):
                if less(prog, f[1].split("(")[0], (ord(c), ord(d)), env):
                    return 1
                if less(prog, f[1].split("(")[0], (ord(d), ord(c)), env):
                    return 0
            return int(len(x) < len(y))
    raise NoValue(show(t)[:60])


def less(prog, name, args, env):
    """result of a comparison function for concrete arguments"""
    key = (name,)
    memo = prog.__dict__.setdefault("_c20_paths", {})
    if key not in memo:
        fns = prog.fn(name)
        if len(fns) != 1:
            raise NoValue(name)
        it = Scanner(prog, ["toupper", "tolower"])
        memo[key] = (fns[0], it.run(fns[0]))
    fn, ps = memo[key]
    e = dict(env)
    e.update(zip(params(fn), args))
    got = set()
    for p in ps:
        ok = True
        for f, v in p.facts.items():
            if "itsMode" in show(f):
                ok = ok and consistent({f: v}, env.get("#mode", {}))
            elif bool(order_term(prog, f, e)) != bool(v):
                ok = False
            if not ok:
                break
        if ok and p.outcome == "return":
            got.add(bool(order_term(prog, p.value, e)))
    if len(got) != 1:
        raise NoValue("%d results" % len(got))
    return got.pop()


def ordering(rep, prog):
    """two keys are the same parameter when they are equal, in a case
    insensitive set apart from case"""
    C = NS + "stringtools::Compare"
    for fn in prog.fn(C + "::operator()"):
        rep.fn(fn)
        it = Scanner(prog, ["toupper", "tolower"])
        ps = it.run(fn)
        modes = {t for p in ps for f in p.facts for t in subterms(f)
                 if isinstance(t, tuple) and t and t[0] in ("init", "fld")
                 and show(t) == "this().itsMode"}
        for m, what in ((0, str), (1, str.lower)):
            env = {"#mode": {t: m for t in modes}}
            w = "Compare (%s), %s" % (fn.where(), "without case" if m
                                      else "with case")
            try:
                lt = {(a, b): less(prog, C + "::operator()", (a, b), env)
                      for a in WORDS for b in WORDS}
            except (NoValue, IndexError, TypeError, ValueError,
                    KeyError) as e:
                rep.undecided("key-order", w, str(e))
                continue
            bad = None
            for a in WORDS:
                for b in WORDS:
                    same = what(a) == what(b)
                    if (lt[a, b] or lt[b, a]) == same or \
                            lt[a, b] and lt[b, a]:
                        bad = bad or (a, b)
            rep.check(bad is None, "key-order", w, "the keys '%s' and '%s' "
                      "are %s" % (*(bad or ("", "")), "different" if bad and
                                  what(bad[0]) == what(bad[1])
                                  else "the same or not ordered"))
            if bad is None:
                bad = [(a, b, c) for a in WORDS for b in WORDS if lt[a, b]
                       for c in WORDS if lt[b, c] and not lt[a, c]]
                rep.check(not bad, "key-order", w, "the keys %s have no "
                          "order" % (bad[:1],))
    for fn in prog.fn(C + "::Compare"):
        if len(params(fn)) != 1 or not params(fn)[0]:
            continue
        for p in Scanner(prog, []).run(fn):
            v = [nf(v) for l, v in p.state.env.items()
                 if show(l).endswith("itsMode")]
            rep.check(v == params(fn), "key-mode", fn.where(), "the mode of "
                      "the comparison becomes %s" % v)


def handles(rep, prog):
    """copies share the parameters; the mode of a set is the given one"""
    P = NS + "ParameterSet"
    for fn in prog.fn(P + "::operator=") + prog.fn(P + "::ParameterSet"):
        if len(fn["params"]) != 1 or not params(fn)[0]:
            continue
        t = fn.ty(fn["params"][0]["t"])["s"]
        if not ("ParameterSet" in t and "Impl" not in t):
            continue
        if "&&" in t:
            continue
        that = params(fn)[0]
        rep.fn(fn)
        for p in Scanner(prog, []).run(fn):
            if any(v and isinstance(f, tuple) and f[0] == "eq" and
                   "this()" in show(f) and that in show(f)
                   for f, v in p.facts.items()) or p.outcome == "throw":
                continue
            v = [nf(v) for l, v in p.state.env.items()
                 if show(l).endswith("itsSet")]
            w = "%s (%s)" % (fn["qn"], fn.where())
            if v == [that + ".itsSet"]:
                rep.check(True, "share", w, "")
            elif not v and not calls(p, ("swap", "operator=", "reset")):
                rep.bad("share", w, "the parameters of %s are not taken "
                        "over when %s" % (that, ", ".join(
                            "%s%s" % ("" if x else "not ", show(f)[:60])
                            for f, x in p.facts.items()) or "copied"))
            else:
                rep.undecided("share", w, "takes over %s" % v)
    for fn in prog.fn(P + "::ParameterSet"):
        ns = params(fn)
        last_t = fn.ty(fn["params"][-1]["t"])["s"] if ns else ""
        if not ns or "Mode" not in last_t and "bool" not in last_t:
            continue
        rep.fn(fn)
        for p in Scanner(prog, ["ParameterSetImpl"]).run(fn):
            ev = calls(p, ("ParameterSetImpl",))
            w = "ParameterSet (%s)" % fn.where()
            if len(ev) != 1:
                rep.undecided("mode", w, "%d sets are made" % len(ev))
                continue
            a = [nf(x) for x in ev[0][2]]
            a = a[-len(ns):]
            if len(ns) == 2:
                rep.check(len(a) == 2 and ns[0] in a[0], "mode", w, "reads "
                          "%s" % a[:1])
            if a[-1] == ns[-1]:
                rep.check(True, "mode", w, "")
                continue
            flag = [v for f, v in p.facts.items() if isinstance(f, tuple) and
                    f[0] == "eq0" and f[1] == ("sym", ns[-1])]
            if a[-1] in ("0", "1"):
                rep.check(flag == [a[-1] == "0"], "mode", w, "the set is "
                          "%scase sensitive when %s is %s"
                          % ("" if a[-1] == "0" else "not ", ns[-1],
                             "not set" if flag == [True] else "set"
                             if flag == [False] else "anything"))
            else:
                rep.undecided("mode", w, "mode %s" % a[-1])
    for fn in prog.fn(IMPL + "::ParameterSetImpl"):
        ns = params(fn)
        if not ns or "Mode" not in fn.ty(fn["params"][-1]["t"])["s"]:
            continue
        rep.fn(fn)
        for p in Scanner(prog, OPAQUE).run(fn):
            w = "ParameterSetImpl (%s)" % fn.where()
            m = [nf(v) for l, v in p.state.env.items()
                 if show(l).endswith("itsMode")]
            if not m:
                m = [nf(x[1]) for v in p.state.env.values()
                     for t in subterms(v) if isinstance(t, tuple) and t and
                     t[0] == "rec" for x in t[2:] if isinstance(x, tuple)
                     and len(x) == 2 and x[0] == "itsMode"]
            for e in calls(p, ("map",))[:1]:
                c = [x for x in e[2] if isinstance(x, tuple) and x and
                     x[0] == "rec" and "Compare" in show(x[1])]
                d = [nf(y[1]) for x in c for y in x[2]
                     if y[0] == "itsMode"]
                if not e[2]:
                    d = ["the default"]
                if d:
                    rep.check(d == ns[-1:], "mode", w, "the mode of the "
                              "order of the keys is %s" % d)
            if m:
                rep.check(set(m) == {ns[-1]}, "mode", w, "the mode becomes "
                          "%s" % m)


def check(rep, tier):
    prog = parset.program()
    for f in (subsets, adopt, single, files, stream, forwards, ordering,
              handles):
        try:
            f(rep, prog)
        except Budget as e:
            rep.undecided(f.__name__, "", str(e))
    rep.assume += ["std::map and std::string semantics",
                   "quoting and comments within a line are the subject of "
                   "C05"]
