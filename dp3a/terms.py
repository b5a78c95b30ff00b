"""Term domain: integers/fractions, polynomials over opaque atoms, and opaque
terms (tuples).  Everything is hashable and canonical, so that equality of
abstract values is syntactic equality."""
from fractions import Fraction


class Poly:
    __slots__ = ("m", "_h")

    def __init__(self, m):
        self.m = m
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.m.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.m == o.m

    def __repr__(self):
        return show(self)

    def atoms(self):
        s = set()
        for mono in self.m:
            s.update(mono)
        return s


def is_num(v):
    return isinstance(v, (int, Fraction)) and not isinstance(v, bool)


def _to(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, Poly):
        return v.m
    if is_num(v):
        return {(): v} if v != 0 else {}
    return {(v,): 1}


def _from(m):
    m = {k: c for k, c in m.items() if c != 0}
    if not m:
        return 0
    if len(m) == 1:
        (k, c), = m.items()
        if k == ():
            if isinstance(c, Fraction) and c.denominator == 1:
                return int(c)
            return c
        if len(k) == 1 and c == 1:
            return k[0]
    return Poly(m)


def _key(a):
    return repr(a)


def add(a, b):
    m = dict(_to(a))
    for k, c in _to(b).items():
        m[k] = m.get(k, 0) + c
    return _from(m)


def neg(a):
    return _from({k: -c for k, c in _to(a).items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    A, B = _to(a), _to(b)
    if len(A) * len(B) > 4096:
        return ("op", "*", a, b)
    m = {}
    for k1, c1 in A.items():
        for k2, c2 in B.items():
            k = tuple(sorted(k1 + k2, key=_key))
            m[k] = m.get(k, 0) + c1 * c2
    return _from(m)


def scale(a, f):
    return _from({k: c * f for k, c in _to(a).items()})


def monos(a):
    return _to(a)


def subst(v, f):
    """Replaces atoms/terms bottom-up; f(term) returns a replacement or
    None."""
    r = f(v)
    if r is not None:
        return r
    if isinstance(v, Poly):
        res = 0
        for k, c in v.m.items():
            t = c
            for a in k:
                t = mul(t, subst(a, f))
            res = add(res, t)
        return res
    if isinstance(v, tuple):
        return tuple(subst(x, f) if isinstance(x, (tuple, Poly)) else x
                     for x in v)
    return v


def contains(v, pred):
    if pred(v):
        return True
    if isinstance(v, Poly):
        return any(contains(a, pred) for k in v.m for a in k)
    if isinstance(v, tuple):
        return any(contains(x, pred) for x in v
                   if isinstance(x, (tuple, Poly)))
    return False


def subterms(v):
    yield v
    if isinstance(v, Poly):
        for k in v.m:
            for a in k:
                yield from subterms(a)
    elif isinstance(v, tuple):
        for x in v:
            if isinstance(x, (tuple, Poly)):
                yield from subterms(x)


def show(v, d=0):
    if d > 8:
        return "..."
    if isinstance(v, Poly):
        parts = []
        for k, c in sorted(v.m.items(), key=repr):
            f = "*".join(show(a, d + 1) for a in k)
            if not f:
                parts.append(str(c))
            elif c == 1:
                parts.append(f)
            elif c == -1:
                parts.append("-" + f)
            else:
                parts.append("%s*%s" % (c, f))
        return "(" + " + ".join(parts) + ")"
    if isinstance(v, tuple):
        if not v:
            return "()"
        if v[0] == "sym":
            return str(v[1])
        if v[0] == "str":
            return '"%s"' % v[1]
        if v[0] == "init":
            return show(v[1], d + 1)
        if v[0] == "v":
            return str(v[3])
        if v[0] == "f":
            return "%s.%s" % (show(v[1], d + 1), v[2])
        if v[0] == "g":
            return str(v[1])
        if v[0] == "fld":
            return "%s.%s" % (show(v[1], d + 1), v[2])
        if v[0] == "call":
            return "%s(%s)" % (v[1].split("::")[-1], ", ".join(
                show(x, d + 1) for x in v[2:]))
        return "%s(%s)" % (v[0], ", ".join(
            show(x, d + 1) if isinstance(x, (tuple, Poly)) else str(x)
            for x in v[1:]))
    return str(v)
