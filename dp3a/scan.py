"""Decides character scanners from the states of their (widened) main loop:
facts about the current character and about small counters are evaluated at
every point of a finite abstraction (character classes x counters 0..2)."""
from .absint import Interp, last
from .terms import subst, subterms, is_num, Poly


class Scanner(Interp):
    max_paths = 8000

    def __init__(self, prog, opaque=()):
        super().__init__(prog)
        self.opq = set(opaque)
        self.back = {}
        self.entry_of = {}
        self.entries = []

    def may_inline(self, fn, fr):
        return last(fn["qn"]) not in self.opq

    def lossy(self, v, t, l, h, st):
        return v

    def loop_end(self, n, fr, st):
        self.back.setdefault((n["i"], fr.id), []).append(st.copy())


def is_el(t):
    return isinstance(t, tuple) and len(t) == 3 and t[0] in ("el", "elem")


def char_atoms(facts):
    """element atoms tested by the facts"""
    s = set()
    for f in facts:
        for t in subterms(f):
            if is_el(t):
                s.add(t)
    return s


def index_phi(el):
    i = el[2]
    if isinstance(i, tuple) and i[0] == "phi":
        return i
    return None


def ev_fact(f, repl):
    """truth of a fact after replacing atoms, None if still open"""
    if isinstance(f, tuple) and len(f) == 2 and f[0] in ("lt0", "eq0"):
        def rp(t):
            if not isinstance(t, tuple):
                return None
            if t in repl:
                return repl[t]
            if t[0] == "init" and len(t) == 2 and t[1] in repl:
                return repl[t[1]]
            return None
        v = subst(f[1], rp)
        if isinstance(v, bool):
            v = int(v)
        if is_num(v):
            return v < 0 if f[0] == "lt0" else v == 0
        return None
    if isinstance(f, tuple) and f[0] == "not":
        r = ev_fact(f[1], repl)
        return None if r is None else not r
    return None


def consistent(facts, repl):
    for f, val in facts.items():
        r = ev_fact(f, repl)
        if r is not None and r != val:
            return False
    return True


def opaque(facts, repl):
    """is there a fact about the replaced atoms (or their text) that the
    replacement does not decide?"""
    texts = {a[1] for a in repl if isinstance(a, tuple) and a[0] == "el"}
    texts |= {a[2] for a in repl if isinstance(a, tuple) and
              a[0] == "call" and len(a) == 3 and last(a[1]) == "size"}
    inits = {t[1] for t in texts if isinstance(t, tuple) and
             t[0] == "init"} | {("init", t) for t in texts} | texts
    for f in facts:
        if ev_fact(f, repl) is None and any(
                t in repl or t in inits for t in subterms(f)):
            return True
    return False


def pushes(v, base, names=("push_back", "emplace_back")):
    """[args...] of the upd chain from base to v, or None"""
    out = []
    while v != base:
        if not (isinstance(v, tuple) and v[0] == "upd" and
                last(v[1]) in names):
            return None
        out.append(v[3] if len(v) > 3 else None)
        v = v[2]
    out.reverse()
    return out
