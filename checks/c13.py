"""C13: the end of the data reaches every step of the chain exactly once."""
from dp3a import facts, steps
from dp3a.absint import last
from dp3a.flow import Flow, walk
from dp3a.steps import STEP, Chain, peel

TECHNIQUE = (
    "Typestate analysis over all paths of finish() of every class derived "
    "from Step (own helpers followed through calls): the automaton counts "
    "the calls to the next step's finish, remembers whether the path has "
    "established that there is no next step, which owned sub-steps have "
    "been finished, and rejects data handed on after the end. The driver "
    "(Execute) is checked with the same engine: setInfo before process, "
    "process until it returns false, then finish, on every path.")
MINIMUM = 60
# classes that feed chains of their own whose steps may still hold data
OWNERS = {
    "dp3::steps::Split": None,
    "dp3::steps::Demixer": None,
    "dp3::steps::BdaDdeCal": None,
    "dp3::steps::H5ParmPredict": None,
    "dp3::steps::MultiMsReader": None,
}
STATELESS = {"Filter", "UVWFlagger", "ApplyCal", "PSet"}


def static_class(n):
    return n["fn"].rsplit("::", 2)[-2]


class Finish(Flow):
    """state: (count, next known absent, finished sub-step fields); "*" in
    the fields: the path has established that no data was seen"""

    def __init__(self, prog, chain, rep, counters=()):
        super().__init__(prog)
        self.counters = counters
        self.chain = chain
        self.rep = rep
        self.late = []

    def inline(self, n, fn):
        return self.chain.own(n)

    def event(self, n, st, fn):
        if n.get("k") != "mcall" or not n.get("c"):
            return None
        m = last(n.get("fn", ""))
        if m not in ("finish", "process"):
            return None
        if peel(n["c"][0]).get("k") == "this":
            return None
        count, absent, subs = st
        org = self.chain.origins(n["c"][0], fn)
        if ("next",) in org:
            if m == "finish":
                return [(min(count + 1, 2), absent, subs)]
            if count:
                self.late.append(fn.where(n))
            return None
        fields = frozenset(o[1] for o in org if o[0] == "field")
        if m == "finish" and fields:
            if count and not fields <= subs:
                self.late.append(fn.where(n))
            return [(count, absent, subs | fields)]
        return None

    def branch(self, cond, truth, st, fn):
        c, t = peel(cond), truth
        if self.no_data(c, truth):
            return ((st[0], st[1], st[2] | {"*"}),)
        while c is not None and c.get("k") == "un" and c.get("op") == "!":
            c, t = peel(c["c"][0]), not t
        nulls = [x for x in walk(c) if x.get("k") in ("null", "nullptr")]
        op = c.get("op") or last(c.get("fn", ""))
        if nulls and op in ("==", "!=", "operator==", "operator!="):
            if "==" in op:
                t = not t
        elif c.get("k") == "bin":
            return (st,)
        if last(c.get("fn", "")) in ("finish", "process"):
            return (st,)
        org = self.chain.origins(c, fn)
        if c.get("k") != "mcall" or last(c["fn"]) == "operator bool":
            f = {o[1] for o in org if o[0] == "field"}
            if f and not t:
                return ((st[0], st[1], st[2] | f),)
        if org == {("next",)}:
            count, absent, subs = st
            if t and absent:
                return ()
            return ((count, absent or not t, subs),)
        return (st,)

    def no_data(self, c, truth):
        """the outcome means that a counter of processed buffers is zero"""
        def is_counter(e):
            e = peel(e)
            return e is not None and e.get("k") == "mem" and \
                e.get("f") in self.counters

        def zero(e):
            e = peel(e)
            return e is not None and str(e.get("cv", e.get("v"))) == "0"
        while c is not None and c.get("k") == "un" and c.get("op") == "!":
            c, truth = peel(c["c"][0]), not truth
        if is_counter(c):
            return not truth
        if c is not None and c.get("k") == "bin" and len(c["c"]) == 2:
            a, b, op = c["c"][0], c["c"][1], c["op"]
            if zero(a) and is_counter(b):
                a, b = b, a
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if is_counter(a) and zero(b):
                return (not truth) if op in (">", "!=") else \
                    truth if op in ("==", "<=") else False
        return False

    def loop_once(self, n, S, fn, o):
        """A loop over sub-steps finishes them all: the state after it is
        that after its body, also where there are none."""
        r = o
        fin = set()
        for s in S:
            b = self.st(n.get("body"), {s}, fn)
            after = b.next | b.cont
            if after:
                common = frozenset.intersection(
                    *[a[2] for a in after]) - s[2]
                if common and not b.brk and not b.ret:
                    fin.add((s, common))
        if not fin:
            return r
        extra = dict(fin)
        res = set()
        for x in r.next:
            add = frozenset().union(*extra.values())
            res.add((x[0], x[1], x[2] | add))
        r.next = res
        return r

    def st_forrange(self, n, S, fn):
        return self.loop_once(n, S, fn, super().st_forrange(n, S, fn))

    def st_for(self, n, S, fn):
        return self.loop_once(n, S, fn, super().st_for(n, S, fn))


def fed(prog, chain, cls):
    """fields of sub-steps that the class hands data to, and whether it
    hands data to its next step"""
    sub, fwd = set(), False
    for f in prog.fns.values():
        if f.get("cls") not in ([cls] + prog.ancestors(cls)):
            continue
        for n in walk(f.get("body") or {}):
            if n.get("k") == "mcall" and last(n.get("fn", "")) == "process" \
                    and n.get("c") and peel(n["c"][0]).get("k") != "this":
                org = chain.origins(n["c"][0], f)
                if ("next",) in org:
                    fwd = True
                elif static_class(n) not in STATELESS:
                    sub |= {o[1] for o in org if o[0] == "field"}
    return sub, fwd


def counters(prog, cls):
    """members incremented by every call of process"""
    res = set()
    for f in prog.fn(cls + "::process"):
        for s in (f.get("body") or {}).get("c", ()):
            if s and s.get("k") == "return":
                break
            e = peel(s)
            if e is None:
                continue
            if e.get("k") == "un" and "++" in e.get("op", "") or \
                    e.get("k") == "asg" and e.get("op") == "+=":
                m = peel(e["c"][0])
                if m.get("k") == "mem":
                    res.add(m.get("f"))
    return res


class Driver(Flow):
    """state: (info set, at end of data, finished)"""

    def __init__(self, prog, rep):
        super().__init__(prog)
        self.rep = rep

    def is_step(self, n):
        return n.get("k") == "mcall" and any(
            b in n.get("fn", "") for b in ("dp3::steps::",))

    def inline(self, n, fn):
        if n.get("k") == "call":
            f = self.prog.fns.get(n.get("fid"))
            if f is not None and f["file"] == "base/DP3.cc" and any(
                    x.get("k") == "mcall" and last(x.get("fn", "")) in
                    ("process", "finish", "setInfo")
                    for x in walk(f.get("body") or {})):
                return f
        return None

    def event(self, n, st, fn):
        if not self.is_step(n):
            return None
        m = last(n["fn"])
        info, end, fin = st
        if m == "setInfo":
            return [(True, end, fin)]
        if m == "process":
            self.rep.check(info, "info-before-data", fn.where(n),
                           "data processed before the steps got their "
                           "meta information (setInfo)")
            self.rep.check(not fin, "data-before-end", fn.where(n),
                           "data processed after finish")
            return [(info, False, fin)]
        if m == "finish":
            self.rep.check(end, "finish-at-end", fn.where(n),
                           "finish called while process has not returned "
                           "false")
            return [(info, end, min(fin + 1, 2))]
        return None

    def branch(self, cond, truth, st, fn):
        c = peel(cond)
        if self.is_step(c) and last(c["fn"]) == "process":
            return ((st[0], not truth, st[2]),)
        if c.get("k") == "ref":
            for e in steps.defs(fn).get(c["d"], ()):
                e = peel(e)
                if self.is_step(e) and last(e["fn"]) == "process":
                    return ((st[0], not truth, st[2]),)
        return (st,)


def check(rep, tier):
    prog = steps.program()
    chain = Chain(prog)
    rep.assume += ["loops over owned sub-steps visit all of them",
                   "the python step (pythondp3/) is not analysed"]
    done = 0
    for cls in sorted(chain.cls):
        fins = [f for f in prog.fn(cls + "::finish")
                if not f.get("params") and f.get("body")]
        short = last(cls)
        sub, fwd = fed(prog, chain, cls)
        for f in fins:
            rep.fn(f)
            done += 1
            F = Finish(prog, chain, rep, counters(prog, cls))
            ret, thr = F.run(f, {(0, False, frozenset())})
            for v in prog.fns.values():
                if (v["fid"], v["file"], v["l"]) in F.visited:
                    rep.fn(v)
            site = "%s::finish (%s)" % (short, f.where())
            if fwd:
                rep.check(not any(c == 0 and not a for c, a, _ in ret),
                          "finish-forwarded", site,
                          "a path through finish() never finishes the next "
                          "step, although the step hands data to it")
                rep.check(not any(c > 1 for c, a, _ in ret), "finish-once",
                          site, "a path through finish() finishes the next "
                          "step more than once")
                for w in F.late:
                    rep.bad("finish-last", w, "%s hands data on (or finishes "
                            "a sub-step) after it has finished the next "
                            "step" % short)
                if not F.late:
                    rep.ok("finish-last", site)
            if cls in OWNERS and sub:
                for x in sorted(sub):
                    rep.check(all(x in s or "*" in s for _, _, s in ret),
                              "sub-steps-finished", site,
                              "a path through finish() leaves the sub-steps "
                              "in %s unfinished although they are given "
                              "data" % x)
        if not fins and fwd:
            inh = [a for a in prog.ancestors(cls)
                   if a != STEP and prog.fn(a + "::finish")]
            own = cls in prog.recs and not prog.recs[cls].get("abstract")
            if own and not inh:
                rep.undecided("finish-forwarded", short, "no definition of "
                              "finish found")
    rep.count("finish_functions", done)
    for ex in prog.fn("dp3::base::Execute"):
        rep.fn(ex)
        D = Driver(prog, rep)
        ret, thr = D.run(ex, {(False, False, 0)})
        rep.check(bool(ret) and all(f == 1 for _, _, f in ret),
                  "driver-finish", "Execute (%s)" % ex.where(),
                  "a path through Execute does not finish the chain exactly "
                  "once")
