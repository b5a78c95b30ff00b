"""Integer constants that the analysed code compares its counts with.

A sampled domain decides nothing about a branch which no sample reaches: the
constants that appear in comparisons (and as divisors of a remainder that is
compared) are therefore added, with their neighbours, to the samples."""
from .flow import walk
from .steps import peel

CMP = ("<", "<=", ">", ">=", "==", "!=")


def const(n):
    n = peel(n)
    if isinstance(n, dict) and "cv" in n:
        try:
            return abs(int(n["cv"]))
        except (TypeError, ValueError):
            return None
    return None


def callees(prog, fns):
    """the functions with a body that are reached from these"""
    todo, seen, out = list(fns), set(), []
    while todo:
        f = todo.pop()
        if f["fid"] in seen or not f.get("body"):
            continue
        seen.add(f["fid"])
        out.append(f)
        for n in walk(f["body"]):
            q = n.get("fn")
            if isinstance(q, str):
                todo += prog.by_qn.get(q, [])
    return out


def thresholds(prog, fns, least=3, most=1 << 31):
    """the constants >= least that a count is compared with, sorted"""
    got = set()
    for f in callees(prog, fns):
        for part in ("body", "inits"):
            for n in walk(f.get(part) or {}):
                k, op = n.get("k"), n.get("op")
                c = n.get("c") or ()
                if k == "bin" and op in CMP and len(c) == 2:
                    for x in c:
                        v = const(x)
                        if v is not None:
                            got.add(v)
                    for x in c:
                        x = peel(x)
                        if isinstance(x, dict) and x.get("k") == "bin" and \
                                x.get("op") in ("%", "/", ">>", "&", "*",
                                                "+", "-"):
                            for y in x.get("c", ()):
                                v = const(y)
                                if v is not None:
                                    got.add(v)
                elif k == "bin" and op == "%" and len(c) == 2 or \
                        k == "case":
                    for x in c[-1:]:
                        v = const(x)
                        if v is not None:
                            got.add(v)
                elif k == "call" and str(n.get("fn", "")).endswith(
                        ("::min", "::max", "::clamp")):
                    for x in c:
                        v = const(x)
                        if v is not None:
                            got.add(v)
    return sorted(v for v in got if least <= v <= most)


def around(values, cap):
    """the values with their neighbours, up to the cap"""
    return sorted({x for v in values if v <= cap for x in (v - 1, v, v + 1)})
