"""Per-bit semantics of terms built from std::bitset / integer bit
operations: a term over n bitset inputs is a boolean function per bit."""
from .absint import last
from .terms import is_num, Poly

BIN = {"|": lambda a, b: a | b, "&": lambda a, b: a & b,
       "^": lambda a, b: a ^ b}


class Unknown(Exception):
    pass


def bit(v, env):
    """value (0/1) of one bit of v; env maps input terms to that bit"""
    if v in env:
        return env[v]
    if isinstance(v, bool):
        return int(v)
    if is_num(v):
        if v == 0:
            return 0
        raise Unknown(v)
    if isinstance(v, tuple):
        h = v[0]
        if h == "call":
            n = last(v[1])
            if n.startswith("operator") and n[8:] in BIN and len(v) == 4:
                return BIN[n[8:]](bit(v[2], env), bit(v[3], env))
            if n in ("operator~", "flip") and len(v) == 3:
                return 1 - bit(v[2], env)
            if n == "bitset":
                if len(v) == 2:
                    return 0
                return bit(v[2], env)
        if h == "upd":
            n = last(v[1])
            a = v[3]
            if n in ("operator|=", "operator&=", "operator^="):
                return BIN[n[8]](bit(v[2], env), bit(a[1], env))
            if n == "flip" and len(a) == 1:
                return 1 - bit(v[2], env)
            if n == "reset" and len(a) == 1:
                return 0
            if n == "set" and len(a) == 1:
                return 1
            if n == "operator=":
                return bit(a[1], env)
        if h == "op" and v[1] in BIN:
            return BIN[v[1]](bit(v[2], env), bit(v[3], env))
        if h == "op" and v[1] == "~":
            return 1 - bit(v[2], env)
        if h in ("trunc", "fcast"):
            return bit(v[2], env)
    raise Unknown(v)


def whole(v, env, n):
    """value of v when the bitset inputs are the n-bit integers of env"""
    mask = (1 << n) - 1
    if v in env:
        return env[v]
    if isinstance(v, bool):
        return int(v)
    if is_num(v):
        return v
    if isinstance(v, Poly):
        s = 0
        for mono, c in v.m.items():
            t = c
            for a in mono:
                if isinstance(a, tuple) and len(a) == 2 and \
                        isinstance(a[1], int) and not isinstance(a[0], str):
                    t *= whole(a[0], env, n) ** a[1]
                else:
                    t *= whole(a, env, n)
            s += t
        return s
    if isinstance(v, tuple):
        h = v[0]
        if h in ("eq", "ne", "lt"):
            a, b = whole(v[1], env, n), whole(v[2], env, n)
            return int({"eq": a == b, "ne": a != b, "lt": a < b}[h])
        if h == "not":
            return int(not whole(v[1], env, n))
        if h == "eq0":
            return int(whole(v[1], env, n) == 0)
        if h == "lt0":
            return int(whole(v[1], env, n) < 0)
        if h == "call":
            m = last(v[1])
            if m.startswith("operator") and m[8:] in BIN and len(v) == 4:
                return BIN[m[8:]](whole(v[2], env, n), whole(v[3], env, n))
            if m == "operator~" and len(v) == 3:
                return mask & ~whole(v[2], env, n)
            if len(v) >= 3 and m in ("count", "any", "none", "all",
                                     "to_ulong", "to_ullong"):
                x = whole(v[2], env, n)
                return {"count": bin(x).count("1"), "any": int(x != 0),
                        "none": int(x == 0), "all": int(x == mask),
                        "to_ulong": x, "to_ullong": x}[m]
            if m == "bitset":
                return whole(v[2], env, n) & mask if len(v) > 2 else 0
            if m in ("operator[]", "test") and len(v) == 4:
                return whole(v[2], env, n) >> whole(v[3], env, n) & 1
            if m == "operator==":
                return int(whole(v[2], env, n) == whole(v[3], env, n))
            if m == "operator!=":
                return int(whole(v[2], env, n) != whole(v[3], env, n))
        if h == "upd":
            m, a = last(v[1]), [x for x in v[3] if not (
                isinstance(x, tuple) and x and x[0] == "#")][1:]
            x = whole(v[2], env, n)
            if m in ("operator|=", "operator&=", "operator^=") and a:
                return BIN[m[8]](x, whole(a[0], env, n))
            if m == "operator=" and a:
                return whole(a[0], env, n)
            if m in ("flip", "reset", "set"):
                k = 1 << whole(a[0], env, n) if a else mask
                if m == "flip":
                    return x ^ k
                on = m == "set" and (len(a) < 2 or whole(a[1], env, n))
                return x | k if on else x & ~k
        if h == "op" and v[1] == "~":
            return mask & ~whole(v[2], env, n)
        if h in ("trunc", "fcast", "init"):
            return whole(v[-1], env, n)
        if h == "op" and v[1] in BIN:
            return BIN[v[1]](whole(v[2], env, n), whole(v[3], env, n))
    if isinstance(v, tuple) and v[0] == "elem" and is_num(v[2]):
        return (whole(v[1], env, n) >> int(v[2])) & 1
    raise Unknown(v)
