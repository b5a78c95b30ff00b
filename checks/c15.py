"""C15: buffers are handed on exactly once and not used afterwards."""
from dp3a import steps
from dp3a.absint import last
from dp3a.effects import split
from dp3a.flow import Flow, walk
from dp3a.steps import STEP, Chain, peel

TECHNIQUE = (
    "Typestate analysis of owning pointers over all paths: a pointer that "
    "was moved from is not dereferenced, moved or handed on again before it "
    "is assigned, and every path of a step's process function that returns "
    "has handed its buffer on or stored it.")
MINIMUM = 60
# keeps the first buffer of an interval and adds the others to it
ACCUMULATE = ("Averager",)


def smart(fn, t):
    s = fn.ty(t)
    if s.get("k") in ("ref", "rref", "ptr"):
        return False
    return s.get("s", "").replace("const ", "").startswith(
        ("std::unique_ptr<", "std::shared_ptr<"))


class Moves(Flow):
    """state: (moved variables, decided conditions)"""

    def __init__(self, prog, fn, chain):
        super().__init__(prog)
        self.chain = chain
        self.fn = fn
        self.vars = {p["d"]: p["n"] for p in fn["params"]
                     if smart(fn, p["t"])}
        self.bad = []
        self.sites = 0
        self.parent = {}
        for n in walk(fn.get("body") or {}):
            for x in (n.get("vars") or []):
                if isinstance(x, dict) and "t" in x and smart(fn, x["t"]):
                    self.vars[x["d"]] = x["n"]
            for c in n.get("c", ()):
                if isinstance(c, dict):
                    self.parent[id(c)] = n

    def up(self, n):
        p = self.parent.get(id(n))
        while p is not None and p.get("k") in ("cast", "paren"):
            n, p = p, self.parent.get(id(p))
        return p, n

    def declare(self, v, S, fn):
        """each round of a loop has a new variable"""
        if v.get("d") not in self.vars:
            return S
        return {(m - {v["d"], ("t", v["d"])}, k) for m, k in S}

    def loop(self, S, fn, cond, body, inc, first, o, extra=None):
        """what a loop over the parts does with the buffer is taken as
        done: there are parts"""
        r = super().loop(S, fn, cond, body, inc, first, o, extra)
        used = frozenset(("t", n["d"]) for n in walk(body or {})
                         if n.get("k") == "ref" and n.get("d") in self.vars)
        if used:
            r.next = {(m | used, k) for m, k in r.next}
        return r

    def event(self, n, st, fn):
        moved, known = st
        k = n.get("k")
        if k == "asg" or k == "un" and n.get("op", "")[:2] in ("++", "--") \
                or last(n.get("fn", "")) == "operator=":
            names = {x.get("n") or x.get("f")
                     for x in walk(n["c"][0]) if x.get("k") in ("ref", "mem")}
            names |= {(x or "").split("::")[-1] for x in names}
            kn = frozenset(f for f in known if not f[2] & names)
            t = peel(n["c"][0])
            if t.get("k") == "ref" and t.get("d") in self.vars:
                return [(moved - {t["d"]}, kn)]
            if kn != known:
                return [(moved, kn)]
            return None
        if k == "mcall" and last(n.get("fn", "")) == "process" and \
                self.chain.is_next(n["c"][0], fn):
            return [(moved | {"forwarded"}, known)]
        if k != "ref" or n.get("d") not in self.vars:
            return None
        d = n["d"]
        p, c = self.up(n)
        nm = last((p or {}).get("fn", ""))
        if p is not None and nm == "operator=" and p["c"][0] is c:
            return None
        if nm == "reset" and p["k"] == "mcall":
            return [(moved - {d}, known)]
        if nm == "move" and p.get("k") == "call":
            q, e = self.up(p)
            if d in moved:
                self.bad.append((fn.where(n), "%s is moved from again"
                                 % self.vars[d]))
            if q is not None and self.consumes(q, e):
                self.sites += 1
                return [(moved | {d}, known)]
            return None
        if nm in ("operator->", "operator*", "get"):
            if d in moved:
                self.bad.append((fn.where(n), "%s is used after it was "
                                 "handed on" % self.vars[d]))
        return [(moved | {("t", d)}, known)]

    def consumes(self, q, e):
        """the moved pointer ends up in an object, a container or a by-value
        parameter"""
        return True

    def branch(self, cond, truth, st, fn):
        s = split(cond, fn)
        if s is None:
            return (st,)
        key, const, neg = s
        moved, known = st
        t = truth != neg
        for f in known:
            if f[0] == (key, const) and f[1] != t:
                return ()
        names = frozenset(x.get("n") or x.get("f") or "" for x in walk(cond)
                          if x.get("k") in ("ref", "mem"))
        names |= frozenset(x.split("::")[-1] for x in names)
        return ((moved, known | {((key, const), t, names)}),)


def check(rep, tier):
    prog = steps.program()
    chain = Chain(prog)
    inputs = prog.subclasses("dp3::steps::InputStep") | {
        "dp3::steps::InputStep"}
    seen = set()
    for fn in sorted(prog.fns.values(), key=lambda f: f["fid"]):
        if not fn.get("body") or (fn["file"], fn["l"]) in seen:
            continue
        if not fn["file"].startswith(("steps/", "base/", "common/",
                                      "ddecal/", "h5parm")):
            continue
        seen.add((fn["file"], fn["l"]))
        m = Moves(prog, fn, chain)
        if not m.vars:
            continue
        ret, thr = m.run(fn, {(frozenset(), frozenset())})
        if m.sites:
            rep.fn(fn)
            rep.ok("moved", "%s %s" % (fn.where(fn), fn["qn"]))
        for w, msg in sorted(set(m.bad)):
            rep.bad("moved", w, msg)
        if fn.get("cls") in (chain.cls | {STEP}) - inputs:
            for p in fn["params"]:
                if p["d"] in m.vars and "Buffer" in fn.ty(p["t"])["s"] \
                        and any(
                        n.get("d") == p["d"] for n in walk(fn["body"])
                        if n.get("k") == "ref"):
                    some = any(p["d"] in s[0] for s in ret) and \
                        last(fn["cls"]) not in ACCUMULATE
                    if last(fn["qn"]) != "process" and not any(
                            s[0] & {p["d"], "forwarded"} for s in ret):
                        continue        # only reads the buffer
                    lost = any(not s[0] & {p["d"], ("t", p["d"])} or
                               some and not s[0] & {p["d"], "forwarded"}
                               for s in ret)
                    rep.check(not lost, "handed-on", "%s %s" % (
                        fn.where(fn), fn["qn"]), "a path through process "
                        "returns without handing on or storing the buffer")
