"""Counts and indices that are kept in types narrower than what they count."""
from .absint import last
from .flow import walk
from .steps import peel


def bits(n, fn):
    """(width, is a constant) of an integer expression before conversions"""
    n = peel(n)
    if n is None or "t" not in n:
        return None
    if "cv" in n:
        return None
    t = fn.ty(n["t"])
    if t.get("k") == "ref":
        t = fn.ty(t["p"]) if "p" in t else t
    return t.get("w") if t.get("k") == "int" else None


def check(rep, fns, what, minimum=32):
    seen = set()
    for fn in fns:
        if fn["fid"] in seen or not fn.get("body"):
            continue
        seen.add(fn["fid"])
        for p in fn["params"]:
            t = fn.ty(p["t"])
            if t.get("k") == "int":
                rep.check(t.get("w", 64) >= minimum or t.get("w") == 1 or
                          "bool" in t["s"] or "char" in t["s"], "narrow",
                          "%s %s" % (fn.where(fn), p["n"]),
                          "%s: the count %s is passed in only %s bits" % (
                              what, p["n"], t.get("w")))
        local = {}
        for n in walk(fn["body"]):
            if n.get("k") == "decl":
                for v in n["vars"]:
                    t = fn.ty(v["t"]) if "t" in v else {}
                    if t.get("k") != "int" or t.get("w", 64) >= minimum or \
                            t.get("w") == 1 or "bool" in t["s"]:
                        continue
                    local[v["d"]] = (v, t["w"])
                    w = bits(v.get("init"), fn) if v.get("init") else None
                    if w and w > t["w"] and "char" not in t["s"]:
                        rep.bad("narrow", "%s %s" % (fn.where(n), v["n"]),
                                "%s: a value of %d bits is kept in %d bits"
                                % (what, w, t["w"]))
        stepped = {peel(n["c"][0]).get("d") for n in walk(fn["body"])
                   if n.get("k") == "un" and "++" in n["op"] and n.get("c")}
        for n in walk(fn["body"]):
            if n.get("k") == "idx" and len(n.get("c", ())) == 2:
                x = peel(n["c"][1])
                if x is not None and x.get("k") == "un" and x.get("c"):
                    x = peel(x["c"][0])
                if x is not None and x.get("d") in local and \
                        x["d"] in stepped:
                    v, vw = local[x["d"]]
                    rep.bad("narrow", "%s %s" % (fn.where(n), v["n"]),
                            "%s: the elements are counted in %d bits"
                            % (what, vw))
        for n in walk(fn["body"]):
            if n.get("k") != "bin" or n["op"] not in ("<", "<=", ">", ">=",
                                                      "!="):
                continue
            for a, b in ((n["c"][0], n["c"][1]), (n["c"][1], n["c"][0])):
                x = peel(a)
                if x is not None and x.get("d") in local:
                    w = bits(b, fn)
                    v, vw = local[x["d"]]
                    if w and w > vw:
                        rep.bad("narrow", "%s %s" % (fn.where(n), v["n"]),
                                "%s: a counter of %d bits is compared with "
                                "a bound of %d bits: it never ends for "
                                "larger bounds" % (what, vw, w))
