"""Which configuration keys the code reads, under which part of the step's
name, and with which defaults.

A string value is a tuple of parts: literal text, ("P", i) parameter i of the
function, or ("?", ...) something else.  Every function has a summary of the
parameter reads it and its callees make, in terms of its own parameters."""
import re
from fractions import Fraction

from .absint import last
from .flow import walk
from .steps import peel

PSET = "dp3::common::ParameterSet"
GETTERS = re.compile(r"^get(Bool|Int|Uint|Int16|Int32|Int64|Uint16|Uint32|"
                     r"Uint64|Float|Double|String|.*Vector|Time)$|^find$|"
                     r"^isDefined$|^isVector$|^get$|^getRecord$|"
                     r"^makeSubset$|^clearUnusedKeys$")
UNKNOWN = ("?",)
MAKE = ("make_shared", "make_unique", "allocate_shared")


def bodies(fn):
    """every expression of a function, its initialisers included"""
    for ini in fn.get("inits", ()):
        if ini.get("e"):
            yield from walk(ini["e"])
    if fn.get("body"):
        yield from walk(fn["body"])


class Keys:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.active = set()
        self.ctors = {}
        for f in prog.fns.values():
            if f.get("ctor") and f.get("cls"):
                self.ctors.setdefault(f["cls"], []).append(f)
        self.fields = {}
        self.calls = 0

    # values ---------------------------------------------------------------
    def locals_of(self, fn):
        if "_kl" not in fn:
            m = {}
            for n in bodies(fn):
                if n.get("k") == "decl":
                    for v in n["vars"]:
                        m.setdefault(v["d"], []).append(v.get("init"))
                l = r = None
                if n.get("k") in ("asg", "opcall") and len(n["c"]) == 2 and \
                        n.get("op") in ("=", "+="):
                    l, r = n["c"]
                if l is not None and peel(l) and peel(l).get("k") == "ref":
                    m.setdefault(peel(l)["d"], []).append(
                        r if n["op"] == "=" else None)
            fn["_kl"] = m
        return fn["_kl"]

    def field(self, cls, f):
        """what the constructors store in a field, if one parameter or
        constant: part in terms of the constructor's parameters"""
        return ("F", cls, f)

    def text(self, n, fn, depth=0):
        """alternatives (tuples of parts) of a string expression"""
        n = peel(n)
        none = [(UNKNOWN,)]
        if n is None or depth > 12:
            return none
        k = n.get("k")
        if k == "str":
            return [(n["v"],) if n["v"] else ()]
        if k == "opcall" and last(n.get("fn", "")) == "operator+":
            return [x + y for x in self.text(n["c"][0], fn, depth + 1)
                    for y in self.text(n["c"][1], fn, depth + 1)][:8]
        if k == "ref":
            for i, p in enumerate(fn.get("params", ())):
                if p.get("d") == n.get("d"):
                    return [(("P", i),)]
            d = self.locals_of(fn).get(n.get("d"))
            if d and all(x is not None for x in d):
                return [t for x in d
                        for t in self.text(x, fn, depth + 1)][:8]
            return none
        if k == "cond" and len(n.get("c") or ()) == 3:
            return self.text(n["c"][1], fn, depth + 1) + \
                self.text(n["c"][2], fn, depth + 1)
        if k == "mem":
            b = peel(n["c"][0]) if n.get("c") else None
            if b is not None and b.get("k") == "this":
                return [(("F", n.get("f")),)]
            return none
        if k in ("construct", "mcall", "call", "init", "bindtmp", "mte",
                 "initlist") and n.get("c"):
            if k == "construct" or last(n.get("fn", "")) in ("move",
                                                             "forward"):
                return self.text(n["c"][0], fn, depth + 1)
            if k in ("init", "bindtmp", "mte", "initlist") and \
                    len(n["c"]) == 1:
                return self.text(n["c"][0], fn, depth + 1)
        return none

    def const(self, n, fn, depth=0):
        """constant of a default: ("n", number), ("s", text), ("e",) for an
        empty list, ("l", texts), ("P", i) a parameter, or None"""
        n = peel2(n)
        if n is None or depth > 12:
            return None
        k = n.get("k")
        if "fv" in n:
            return ("n", float(n["fv"]))
        if "cv" in n and k != "str":
            try:
                return ("n", float(n["cv"]))
            except ValueError:
                return None
        if k == "str":
            return ("s", n["v"])
        if k == "bool":
            return ("n", float(bool(n.get("v"))))
        if k == "ref":
            for i, p in enumerate(fn.get("params", ())):
                if p.get("d") == n.get("d"):
                    return ("P", i)
            d = self.locals_of(fn).get(n.get("d"))
            if d and len(d) == 1 and d[0] is not None:
                return self.const(d[0], fn, depth + 1)
            return None
        if k in ("construct", "initlist", "init", "new", "bindtmp", "mte"):
            cls = n.get("cls", "")
            args = [c for c in n.get("c") or [] if not defaulted(c)]
            if "vector" in cls or "vector" in fn.ty(n.get("t"))["s"][:40]:
                if not args:
                    return ("e",)
                if len(args) == 1:
                    v = self.const(args[0], fn, depth + 1)
                    if v == ("e",) or v and v[0] in "lP":
                        return v
                vs = [self.const(a, fn, depth + 1) for a in args]
                if k == "initlist" and all(v and v[0] in "ns" for v in vs):
                    return ("l", tuple(v[1] for v in vs))
                if any(v and v[0] == "P" for v in vs):
                    return None
                return None
            if "string" in cls and not args:
                return ("s", "")
            if len(args) == 1:
                return self.const(args[0], fn, depth + 1)
            if not args and k in ("initlist", "init"):
                return ("e",)
            if k == "initlist":
                vs = [self.const(a, fn, depth + 1) for a in args]
                if all(v and v[0] in "ns" for v in vs):
                    return ("l", tuple(v[1] for v in vs))
        return None

    # summaries --------------------------------------------------------------
    def target(self, n, fn):
        """callees of a call node and their argument expressions"""
        k = n.get("k")
        name = last(n.get("fn", "") or "")
        out = []
        if k in ("call", "mcall", "construct", "opcall"):
            c = n.get("c") or []
            if k == "call" and name in MAKE and n.get("targs"):
                cls = strip(fn.ty(n["targs"][0])["s"])
                if fn.get("file") == "base/DP3.cc" and \
                        cls.startswith("dp3::steps::"):
                    return out          # another step of the chain
                for f in self.ctors.get(cls, ()):
                    need = [p for p in f["params"]]
                    if len(need) >= len(c):
                        out.append((f, c))
                return out
            fid = n.get("fid")
            f = self.prog.tu_fns.get((fn.tu, fid)) or \
                self.prog.fns.get(fid) if fid else None
            if f is not None:
                out.append((f, c[1:] if k == "mcall" else c))
            return out
        return out

    def summary(self, fn):
        """list of (key parts, getter, default, where)"""
        key = fn["fid"]
        if key in self.memo:
            return self.memo[key]
        if key in self.active:
            return []
        self.active.add(key)
        out = []
        for n in bodies(fn):
            k = n.get("k")
            if k == "lambda" and n.get("fid"):
                f = self.prog.tu_fns.get((fn.tu, n["fid"])) or \
                    self.prog.fns.get(n["fid"])
                if f is not None and "body" not in n:
                    out += [r for r in self.summary(f)]
                continue
            if k == "mcall" and (n.get("fn") or "").startswith(PSET + "::"):
                name = last(n["fn"])
                if GETTERS.match(name) and len(n["c"]) > 1:
                    self.calls += 1
                    d = n["c"][2] if len(n["c"]) > 2 and \
                        name not in ("isDefined", "makeSubset") else None
                    if d is not None and name.endswith("Vector") and \
                            is_bool(d, fn):
                        d = None
                    for t in self.text(n["c"][1], fn):
                        out.append((t, name, self.const(d, fn)
                                    if d is not None else "none",
                                    fn.where(n)))
                continue
            for f, args in self.target(n, fn):
                if f is fn or f.get("cls") == PSET:
                    continue
                for parts, g, d, w in self.summary(f):
                    alts = [()]
                    for p in parts:
                        new = [(p,)]
                        if p[0] == "P" and isinstance(p, tuple):
                            new = self.text(args[p[1]], fn) \
                                if p[1] < len(args) else [(UNKNOWN,)]
                        elif isinstance(p, tuple) and p[0] == "F" and \
                                not same_object(n, f, fn):
                            new = [(UNKNOWN,)]
                        alts = [x + y for x in alts for y in new][:8]
                    if isinstance(d, tuple) and d[0] == "P":
                        d = self.const(args[d[1]], fn) \
                            if d[1] < len(args) else "none"
                    out += [(x, g, d, w) for x in alts]
        self.active.discard(key)
        seen, uniq = set(), []
        for r in out:
            if r not in seen:
                seen.add(r)
                uniq.append(r)
        self.memo[key] = uniq
        return uniq

    def of_class(self, cls):
        """reads made by any member function of a class"""
        out = []
        for f in list(self.prog.fns.values()):
            if f.get("cls") == cls:
                out += self.summary(f)
        return out


def same_object(n, f, fn):
    return n.get("k") == "mcall" and peel(n["c"][0]).get("k") == "this" and \
        f.get("cls") == fn.get("cls")


def strip(t):
    return re.sub(r"^(const |class |struct )+", "", t).strip()


def defaulted(c):
    return c is not None and c.get("k") in ("defarg",) or \
        c is not None and c.get("k") == "construct" and \
        "allocator" in (c.get("cls") or "")


def is_bool(n, fn):
    n = peel(n)
    return n is not None and n.get("k") == "bool" or \
        n is not None and fn.ty(n.get("t"))["s"] == "bool"


def peel2(n):
    while n is not None and n.get("k") in ("cast", "paren") and \
            n.get("c") and "fv" not in n and "cv" not in n:
        n = n["c"][0]
    return n


def suffix(parts):
    """literal text after the last part that is not literal"""
    s = ""
    for p in reversed(parts):
        if not isinstance(p, str):
            break
        s = p + s
    return s
