"""The processing steps: extraction and the vocabulary shared by the checks
about step chains (what is 'the next step', which member is called)."""
import os
import re

from . import facts
from .absint import last
from .flow import walk

STEP = "dp3::steps::Step"


def program(extra=()):
    tus = [f for f in facts.repo_files() if f.startswith("steps/")]
    tus += ["base/DP3.cc"] + list(extra)
    only = os.environ.get("DP3A_TUS")     # for trying out the checks
    if only:
        tus = [t for t in tus if re.search(only, t)]
    prog = facts.extract(tus, lax=True)
    if STEP not in prog.recs:
        raise facts.AnalysisError("class Step not found")
    link_lambdas(prog)
    return prog


def link_lambdas(prog):
    """lambda expressions get the body of their call operator"""
    for f in list(prog.fns.values()):
        if f["fid"].startswith("lambda@"):
            continue
        todo = [f]
        while todo:
            g = todo.pop()
            for n in walk(g.get("body") or {}):
                if n.get("k") == "lambda" and "body" not in n:
                    b = prog.tu_fns.get((f.tu, n["fid"])) or \
                        prog.fns.get(n["fid"])
                    if b is not None and b.get("body"):
                        n["body"] = b["body"]
                        n["params"] = b.get("params", [])
                        b["_parent"] = f
                        todo.append(b)


def defs(fn):
    """local variable -> expressions it can stand for (initialisers, loop
    ranges, assigned values)"""
    if "_defs" in fn:
        return fn["_defs"]
    m = {}
    for n in walk(fn.get("body") or {}):
        k = n.get("k")
        if k == "decl":
            for v in n["vars"]:
                if v.get("init"):
                    m.setdefault(v["d"], []).append(v["init"])
        elif k == "forrange" and n.get("var"):
            m.setdefault(n["var"]["d"], []).append(n.get("range"))
        elif k == "if" and n.get("var") and n["var"].get("init"):
            m.setdefault(n["var"]["d"], []).append(n["var"]["init"])
        lhs = None
        if k == "asg" and n.get("op") == "=":
            lhs, rhs = n["c"][0], n["c"][1]
        elif k in ("opcall", "mcall") and \
                last(n.get("fn", "")) == "operator=" and len(n["c"]) == 2:
            lhs, rhs = n["c"][0], n["c"][1]
        if lhs and lhs.get("k") == "ref":
            m.setdefault(lhs["d"], []).append(rhs)
    fn["_defs"] = m
    return m


def peel(n):
    while n is not None and n.get("k") in ("cast", "paren") and n.get("c"):
        n = n["c"][0]
    return n


def this_call(n):
    """a member call on the object itself"""
    if n.get("k") != "mcall" or not n.get("c"):
        return False
    c = peel(n["c"][0])
    return c is not None and c.get("k") == "this"


class Chain:
    """What expressions stand for in a step's member functions."""

    def __init__(self, prog):
        self.prog = prog
        self.cls = prog.subclasses(STEP)

    def origins(self, n, fn, seen=None):
        """set of ('next',) | ('field', name) | ('var', name) an object
        expression can denote"""
        seen = set() if seen is None else seen
        out = set()
        n = peel(n)
        if n is None:
            return out
        k = n.get("k")
        if k == "ref":
            d = n.get("d")
            if (fn["fid"], d) in seen:
                return out
            seen.add((fn["fid"], d))
            for e in defs(fn).get(d, ()):
                out |= self.origins(e, fn, seen)
            return out or {("var", n.get("n"))}
        if k == "mem":
            base = peel(n["c"][0]) if n.get("c") else None
            if base is None or base.get("k") == "this":
                return {("field", n.get("f"))}
            sub = self.origins(base, fn, seen)
            return sub or {("field", n.get("f"))}
        if last(n.get("fn", "")) in ("operator[]", "at", "operator*",
                                     "operator->", "get") and n.get("c"):
            return self.origins(n["c"][0], fn, seen)
        if k == "idx":
            return self.origins(n["c"][0], fn, seen)
        if this_call(n) or k == "call":
            nm = last(n.get("fn", ""))
            if nm == "getNextStep" and this_call(n):
                return {("next",)}
            callee = self.prog.fns.get(n.get("fid"))
            if callee is not None and ("call", callee["fid"]) not in seen \
                    and callee.get("cls") in self.cls | {STEP}:
                seen.add(("call", callee["fid"]))
                for x in walk(callee.get("body") or {}):
                    if x.get("k") == "return" and x.get("c"):
                        out |= self.origins(x["c"][0], callee, seen)
                if out:
                    return out
        if k == "lambda":
            return out
        if k == "mcall" and last(n.get("fn", "")) in ("getNextStep",
                                                      "getPrevStep"):
            return {("var", "neighbour")}
        for c in n.get("c", ()):
            if c:
                out |= self.origins(c, fn, seen)
        return out

    def is_next(self, n, fn):
        return ("next",) in self.origins(n, fn)

    def fields(self, n, fn):
        return {o[1] for o in self.origins(n, fn) if o[0] == "field"}

    def own(self, n):
        """definition of a member function called on the object itself (or
        a static / free function of the steps)"""
        if this_call(n):
            return self.prog.fns.get(n["fid"])
        if n.get("k") == "call":
            f = self.prog.fns.get(n.get("fid"))
            if f is not None and f["file"].startswith("steps/"):
                return f
        return None


def methods(prog, cls):
    return [f for f in prog.fns.values() if f.get("cls") == cls]
