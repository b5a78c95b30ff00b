"""C04: a parameter set may be read and modified from several threads: every
modification of the map and every access to the used-key record happens with
the mutex held, exactly once per thread."""
from dp3a import facts, parset
from dp3a.absint import Budget, last, Interp
from dp3a.parset import NS
from dp3a.terms import show

TECHNIQUE = (
    "Lock typestate analysis: every public method of ParameterSetImpl is "
    "interpreted abstractly (private helpers followed through calls) with "
    "the set of held mutexes as part of the state; each mutation of the "
    "parameter map and each access to mutable members must happen with the "
    "object's mutex held, and no path may lock a mutex it already holds.")
MINIMUM = 40
CLS = NS + "ParameterSetImpl"
MUTATE = {"insert", "erase", "operator[]", "clear", "emplace", "swap",
          "insert_or_assign", "try_emplace", "emplace_hint", "merge",
          "extract", "operator=", "push_back", "resize"}
SELF = (("this",), ("f", ("this",), "$base"))
GUARDS = ("lock_guard", "unique_lock", "scoped_lock")


class Lock(Interp):
    max_paths = 6000
    exclusive = False

    def __init__(self, prog, guarded, mutexes, rep, root):
        super().__init__(prog)
        self.guarded = guarded
        self.mutexes = mutexes
        self.rep = rep
        self.rootfn = root
        self.n = 0

    def may_inline(self, fn, fr):
        # only code of the class itself can touch its private state
        return fn.get("cls", "").startswith(CLS)

    # locks -------------------------------------------------------------
    def is_own_mutex(self, loc):
        return isinstance(loc, tuple) and loc[0] == "f" and \
            loc[1] == ("this",) and loc[2] in self.mutexes

    def held(self, st):
        return st.env.get(("lock",), ())

    def own(self, st):
        return [x for x in self.held(st) if x[1][1] == ("this",)]

    def is_mutex(self, loc):
        """the mutex of any set"""
        return isinstance(loc, tuple) and loc[0] == "f" and \
            loc[2] in self.mutexes

    def distinct(self, a, b, st):
        """the path facts say that the two objects differ"""
        def ob(t):
            while isinstance(t, tuple) and t and t[0] in (
                    "deref", "ptr", "sym", "init", "lref"):
                t = t[1]
            if isinstance(t, tuple) and t[:1] == ("g",):
                t = t[1]
            return str(t).replace("param:", "")
        want = {ob(a), ob(b)}
        for f, v in st.facts.items():
            if isinstance(f, tuple) and len(f) == 3 and f[0] == "eq" and \
                    v is False and {ob(f[1]), ob(f[2])} == want:
                return True
        return False

    def acquire(self, owner, m, st, n, fr, together=()):
        if any(x[1] != m and x[1][2] == m[2] and x[1] not in together
               for x in self.held(st)):
            self.rep.bad("lock-order", fr.fn.where(n), "%s locks the mutex "
                         "of a second set while it holds that of the first; "
                         "two threads that do so with the sets exchanged "
                         "block each other" % last(fr.fn["qn"]))
        same = [x for x in self.held(st) if x[1] == m or x[1][2] == m[2] and
                not self.distinct(x[1][1], m[1], st)]
        if same:
            self.rep.bad("self-deadlock", fr.fn.where(n),
                         "%s locks the mutex again while holding it (entered "
                         "through %s)" % (last(fr.fn["qn"]),
                                          last(self.rootfn["qn"])))
        else:
            self.rep.ok("lock-once", fr.fn.where(n))
        st.env[("lock",)] = self.held(st) + ((owner, m),)

    def release(self, owner, st):
        st.env[("lock",)] = tuple(x for x in self.held(st)
                                  if x[0] != owner)

    def on_dtor(self, d, loc, fr, st):
        self.release(loc, st)

    def on_call(self, n, fr, st, args, objloc):
        name = last(n.get("fn", "?"))
        if n["k"] == "construct" and name in GUARDS:
            locs = [x for x in self._locs(n, fr, st)]
            for l in locs:
                if self.is_mutex(l):
                    if any(isinstance(a, dict) is False and "defer" in
                           show(a) for a in args[1:]):
                        continue
                    self.acquire(objloc, l, st, n, fr,
                                 locs if name == "scoped_lock" else ())
            return None
        if name in ("lock", "unlock") and objloc is not None:
            if self.is_mutex(objloc):
                if name == "lock":
                    self.acquire(objloc, objloc, st, n, fr)
                else:
                    self.release(objloc, st)
            elif name == "unlock":
                self.release(objloc, st)
        # accesses
        if objloc is not None and isinstance(objloc, tuple) and \
                objloc[0] == "f" and objloc[1] == ("this",):
            fld = objloc[2]
            what = None
            if fld == "$base" and not n.get("cst") and name in MUTATE:
                what = "the parameter map is modified (%s)" % name
            elif fld in self.guarded:
                what = "%s is accessed (%s)" % (fld, name)
            if what and not self.exclusive:
                self.access(what, n, fr, st)
        elif isinstance(objloc, tuple) and objloc[0] == "f" and \
                objloc[2] in self.guarded and not (
                    isinstance(objloc[1], tuple) and objloc[1][0] == "v"):
            self.n += 1
            if not any(x[1][1] == objloc[1] for x in self.held(st)):
                self.rep.bad("guarded", fr.fn.where(n), "%s of another set "
                             "is accessed (%s) without holding its mutex" %
                             (objloc[2], name))
        elif isinstance(objloc, tuple) and objloc[0] == "el" and \
                objloc[1] in SELF and not n.get("cst") and \
                not self.exclusive:
            self.access("the parameter map is modified (operator[])", n, fr,
                        st)
        return None

    def access(self, what, n, fr, st):
        self.n += 1
        if self.own(st):
            self.rep.ok("guarded", fr.fn.where(n))
        else:
            self.rep.bad("guarded", fr.fn.where(n),
                         "%s without holding the mutex, reachable "
                         "through %s" % (what, last(self.rootfn["qn"])))

    def lv(self, a, fr, st):
        res = super().lv(a, fr, st)
        if a.get("k") == "opcall" and a.get("op") == "[]" and \
                not a.get("cst") and not self.exclusive and \
                any(l[0] == "el" and l[1] in SELF for _, l in res):
            self.access("the parameter map is modified (operator[])", a, fr,
                        st)
        return res

    def _locs(self, n, fr, st):
        for a in n.get("c", []):
            if a is not None and self.is_lv(a, fr):
                for s, l in self.lv(a, fr, st.copy()):
                    yield l

    def on_store(self, loc, val, node, fr, st):
        if isinstance(loc, tuple) and loc[0] == "f" and \
                loc[1] == ("this",) and loc[2] in self.guarded and \
                not self.exclusive:
            if not self.own(st):
                self.rep.bad("guarded", fr.fn.where(node),
                             "%s is assigned without holding the mutex"
                             % loc[2])


def check(rep, tier):
    prog = parset.program()
    rec = prog.recs.get(CLS)
    if rec is None:
        raise facts.AnalysisError("ParameterSetImpl not found")
    guarded, mutexes = set(), set()
    for f in rec["fields"]:
        t = rec["_types"][f["t"]]["s"]
        if "mutex" in t:
            mutexes.add(f["n"])
        elif f.get("mut"):
            guarded.add(f["n"])
    if not mutexes:
        rep.bad("mutex", rec["file"], "ParameterSetImpl has no mutex "
                "although it keeps mutable state")
        return
    pub = {m["fid"] for m in rec["methods"] if m["acc"] == "public"}
    total = 0
    for qn in sorted(prog.by_qn):
        if not qn.startswith(CLS + "::"):
            continue
        for fn in prog.fn(qn):
            if not fn.get("body") or fn["fid"] not in pub or \
                    fn.get("dtor"):
                continue
            # nothing is shared during construction, but relocking blocks
            it = Lock(prog, guarded, mutexes, rep, fn)
            it.exclusive = bool(fn.get("ctor"))
            try:
                ps = it.run(fn)
            except Budget as e:
                rep.undecided("guarded", fn.where(), str(e))
                continue
            rep.fn(fn)
            total += it.n
            for p in ps:
                if p.outcome in ("return", "end") and \
                        p.state.env.get(("lock",)):
                    rep.bad("released", fn.where(p.node),
                            "%s returns with the mutex locked" % last(qn))
                if p.outcome == "throw" and any(
                        x[0] == x[1] for x in
                        p.state.env.get(("lock",), ())):
                    rep.bad("released", fn.where(p.node),
                            "%s throws with the mutex locked" % last(qn))
    rep.count("guarded accesses on paths", total)
    rep.assume += ["concurrent const readers of an unmodified map need no "
                   "lock (std container guarantee)",
                   "construction happens before sharing"]
