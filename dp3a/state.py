"""State that survives a call: static locals, globals, static members.

A function whose result must be determined by its arguments and its object
may keep constants in such variables, or use them as scratch that every call
fills before it reads it.  It may not read what an earlier call left behind:
neither a variable that the first call initialised from its own arguments, nor
one that is read before this call has assigned it.

The walk is a definite-assignment analysis of the function's syntax tree,
with the per-call data each written value is computed from (parameters, the
object, locals computed from those)."""
from .facts import kids, walk

ASSIGN = {"clear", "assign", "str"}
GROW = {"push_back", "emplace_back", "insert", "emplace", "resize", "append",
        "erase", "swap", "push", "pop", "pop_back", "push_front",
        "emplace_front", "fill", "reset", "try_emplace", "insert_or_assign",
        "merge", "splice"}
ELEM = {"operator[]", "at", "front", "back", "begin", "end", "data",
        "rbegin", "rend", "operator*", "operator->", "get", "c_str"}
QUIET_TYPES = ("mutex", "once_flag", "condition_variable", "ostream",
               "Logger", "atomic_flag")
CALLS = {"call", "mcall", "opcall", "construct", "ctor"}


def short(fn):
    """last name of a function, e.g. operator[]"""
    p = fn.rfind("operator")
    if p > 0 and fn[p - 1] == ":":
        return fn[p:]
    depth = 0
    for i in range(len(fn) - 1, 0, -1):
        c = fn[i]
        if c == ">":
            depth += 1
        elif c == "<":
            depth -= 1
        elif c == ":" and depth == 0:
            return fn[i + 1:]
    return fn


def strip(n):
    while n is not None and n.get("k") in ("cast", "paren", "temp", "bindtmp",
                                           "cleanups") and n.get("c"):
        n = n["c"][0] if isinstance(n["c"], list) else n["c"]
    return n


class Analysis:
    def __init__(self, fn, prog, members=False):
        self.fn, self.prog = fn, prog
        self.members = members  # of the object count as kept state
        self.persist = {}          # decl id -> (name, kind)
        self.decl = {}
        self.parents = {}
        self.roots = [fn.get("body")] + [i.get("e")
                                         for i in fn.get("inits", ())]
        self.lambdas = set()
        todo = [r for r in self.roots if r]
        while todo:
            r = todo.pop()
            for n in walk(r):
                for c in self.sub(n):
                    self.parents[id(c)] = n
                if n.get("k") == "lambda" and n.get("fid") in prog.fns and \
                        n["fid"] not in self.lambdas:
                    self.lambdas.add(n["fid"])
                    b = prog.fns[n["fid"]].get("body")
                    if b:
                        todo.append(b)
                        self.parents[id(b)] = n
                        for m in walk(b):
                            for c in self.sub(m):
                                self.parents[id(c)] = m
                if n.get("k") == "decl":
                    for d in n["vars"]:
                        if isinstance(d, dict) and "d" in d:
                            self.decl[d["d"]] = d
                if n.get("k") == "forrange" and isinstance(
                        n.get("var"), dict):
                    self.decl[n["var"].get("d")] = n["var"]
        self.roots = [r for r in self.roots if r]
        self.taint()

    @staticmethod
    def sub(n):
        return kids(n)

    def nodes(self):
        todo = list(self.roots)
        seen = set()
        while todo:
            r = todo.pop(0)
            for n in walk(r):
                yield n
                if n.get("k") == "lambda" and n.get("fid") in self.lambdas \
                        and n["fid"] not in seen:
                    seen.add(n["fid"])
                    todo.append(self.prog.fns[n["fid"]]["body"])

    # what a local is computed from: set of parameter ids and "this"
    def taint(self):
        self.src = {}
        defs = {}
        for n in self.nodes():
            k = n.get("k")
            if k == "decl":
                for d in n["vars"]:
                    if isinstance(d, dict) and "d" in d and d.get("init"):
                        defs.setdefault(d["d"], []).append(d["init"])
            elif k == "forrange" and isinstance(n.get("var"), dict):
                defs.setdefault(n["var"].get("d"), []).append(n.get("range"))
            elif k == "asg" or (k == "opcall"
                                and short(n.get("fn", ""))[-1:] == "="):
                t = self.base(n["c"][0])
                if t is not None and len(n["c"]) > 1:
                    defs.setdefault(t, []).append(n["c"][1])
            elif k in CALLS:
                args = n.get("c") or []
                for a in args:
                    t = self.base(a)
                    if t is not None:
                        for b in args:
                            if b is not a:
                                defs.setdefault(t, []).append(b)
        self.defs = defs
        changed = True
        while changed:
            changed = False
            for d, es in defs.items():
                s = self.src.get(d, frozenset())
                for e in es:
                    s = s | self.deps(e)
                if s != self.src.get(d, frozenset()):
                    self.src[d] = s
                    changed = True

    def base(self, e):
        """the variable an lvalue expression is a part of"""
        e = strip(e)
        while e is not None:
            if e.get("k") == "ref":
                return e["d"] if e.get("dk") in (
                    "var", "parm", "slocal", "global", "smember") else None
            if e.get("k") in ("index", "sub", "mem", "un", "mcall", "opcall",
                              "asub") and e.get("c"):
                if e["k"] in ("mcall", "opcall") and \
                        short(e.get("fn", "")) not in ELEM:
                    return None
                if e["k"] == "un" and e.get("op") not in ("*", "&"):
                    return None
                e = strip(e["c"][0])
            else:
                return None
        return None

    def deps(self, e):
        s = set()
        for n in walk(e):
            if n.get("k") == "this":
                s.add("this")
            elif n.get("k") == "ref":
                if n.get("dk") == "parm":
                    s.add(n["d"])
                elif n.get("dk") in ("var", "binding"):
                    s |= self.src.get(n["d"], frozenset())
        return frozenset(s)

    def pname(self, d):
        if d == "this":
            return "the object"
        for n in self.nodes():
            if n.get("k") == "ref" and n.get("d") == d:
                return n["n"]
        return "?"

    # ---- one persistent variable
    def uses(self, d):
        if isinstance(d, tuple):
            return [n for n in self.nodes() if self.field(n) == d]
        return [n for n in self.nodes()
                if n.get("k") == "ref" and n.get("d") == d
                and n.get("dk") in ("slocal", "global", "smember")]

    @staticmethod
    def field(n):
        """("f", name) of a member of the object itself"""
        if n.get("k") == "mem" and n.get("dk") == "field":
            c = strip(n["c"][0]) if n.get("c") else None
            if c is not None and c.get("k") == "this":
                return ("f", n.get("f") or n.get("n"))
        return None

    def classify(self, r):
        """-> list of (kind, node, values): kind in assign, update, read"""
        cur, elem = r, False
        while True:
            p = self.parents.get(id(cur))
            if p is None:
                return [("read", r, [])]
            k = p.get("k")
            cs = p.get("c") if isinstance(p.get("c"), list) else \
                [p.get("c")] if isinstance(p.get("c"), dict) else []
            pos = next((i for i, c in enumerate(cs) if c is cur), None)
            if k in ("cast", "paren", "temp", "bindtmp", "cleanups"):
                if k == "cast" and p.get("ck") == "ToVoid":
                    return []
                if k == "cast" and p.get("ck") == "LValueToRValue":
                    return [("read", r, [])]
                cur = p
                continue
            if k == "asg" or (k == "opcall" and short(
                    p.get("fn", "")) in ("operator=", "operator+=",
                                         "operator-=", "operator|=",
                                         "operator&=", "operator*=")):
                op = p.get("op", short(p.get("fn", "")).replace(
                    "operator", ""))
                if pos == 0:
                    vals = cs[1:]
                    if op == "=" and not elem:
                        return [("assign", p, vals)]
                    out = [("update", p, vals)]
                    if self.used(p):
                        out.append(("read", r, []))
                    return out
                return [("read", r, [])]
            if k == "un" and p.get("op") in ("++", "--", "post++", "post--") \
                    or (k == "opcall" and short(p.get("fn", "")) in (
                        "operator++", "operator--")):
                out = [("update", p, [])]
                if self.used(p):
                    out.append(("read", r, []))
                return out
            if k in ("un",) and p.get("op") in ("*", "&"):
                cur, elem = p, True
                continue
            if k in ("index", "sub", "asub") and pos == 0:
                cur, elem = p, True
                continue
            if k == "mem":
                cur, elem = p, True
                continue
            if k in ("mcall", "opcall") and pos == 0:
                nm = short(p.get("fn", ""))
                if nm in ASSIGN and not elem and not p.get("cst"):
                    return [("assign", p, cs[1:])]
                if nm in GROW and not p.get("cst"):
                    out = [("update", p, cs[1:])]
                    if self.used(p):
                        out.append(("read", r, []))
                    return out
                if nm in ELEM and not p.get("cst"):
                    cur, elem = p, True
                    continue
                if p.get("cst") or nm in ("size", "empty", "find", "count"):
                    return [("read", r, [])]
                if nm == "operator<<":
                    return [("update", p, cs[1:])]
                return [("update", p, cs[1:]), ("read", r, [])]
            if k in CALLS and pos is not None:
                pm = p.get("pm")
                mut = None
                off = pos
                if pm and k in ("mcall", "opcall") and len(pm) < len(cs):
                    off = pos - 1
                if pm and 0 <= off < len(pm):
                    mut = pm[off]
                if (elem and mut in (None, "v", "r", "p", "m")
                        and self.writable(p, pos)) or mut in ("r", "p"):
                    return [("update", p, [c for c in cs if c is not cur]),
                            ("read", r, [])]
                return [("read", r, [])]
            return [("read", r, [])]

    def writable(self, p, pos):
        """may this call write through an iterator or pointer passed by
        value?  The inputs of the standard algorithms are only read."""
        nm = short(p.get("fn", ""))
        if nm in ("copy", "copy_n", "transform", "move") and pos < 2:
            return False
        return nm not in ("accumulate", "find", "find_if", "max_element",
                          "min_element", "count", "count_if", "equal",
                          "lower_bound", "upper_bound", "all_of", "any_of",
                          "none_of", "vector", "basic_string", "distance",
                          "operator-", "operator==", "operator!=",
                          "operator+", "inner_product", "binary_search",
                          "strtol", "strtod", "strlen")

    def used(self, n):
        """is the value of this expression used?"""
        p = self.parents.get(id(n))
        while p is not None and p.get("k") in ("cleanups", "paren"):
            n, p = p, self.parents.get(id(p))
        if p is None or p.get("k") in ("block", "try", "label", "case",
                                       "default"):
            return False
        if p.get("k") == "cast" and p.get("ck") == "ToVoid":
            return False
        if p.get("k") == "for":
            return p.get("cond") is n
        if p.get("k") in ("if", "while", "do", "switch", "forrange"):
            return p.get("cond") is n or p.get("range") is n
        return True

    def logging(self, n):
        """only writes to a stream, assigns persistent variables constants"""
        if n is None:
            return True
        k = n.get("k")
        if k == "block":
            return all(self.logging(c) for c in n.get("c") or [])
        if k == "cleanups":
            return all(self.logging(c) for c in kids(n))
        if k == "asg":
            t = strip(n["c"][0])
            return t.get("k") == "ref" and t.get("dk") in (
                "slocal", "global", "smember") and not self.deps(n["c"][1])
        if k == "un" and n.get("op") in ("++", "--", "post++", "post--"):
            t = strip(n["c"][0])
            return t.get("k") == "ref" and t.get("dk") in (
                "slocal", "global", "smember")
        if k in ("opcall", "call", "mcall"):
            fn = n.get("fn", "")
            if "ostream" in fn or "operator<<" in fn or "Logger" in fn or \
                    fn in ("printf", "fprintf", "puts"):
                return True
            # lazily filled with constants
            b = self.base(n["c"][0]) if n.get("c") else None
            return b in self.persist and not self.deps(n)
        return k in ("null", "empty", None)

    def read_matters(self, r):
        cur = r
        while True:
            p = self.parents.get(id(cur))
            if p is None:
                return True
            if p.get("k") == "if" and p.get("cond") is cur:
                if self.refill(p):
                    return False
                return not (self.logging(p.get("then"))
                            and self.logging(p.get("else")))
            if p.get("k") in ("opcall", "call", "mcall") and (
                    "ostream" in p.get("fn", "")
                    or short(p.get("fn", "")) == "operator<<"):
                b = p
                while strip(b).get("k") == "opcall" and b.get("c"):
                    b = strip(b["c"][0])
                if b.get("k") == "ref" and b.get("n", "").endswith(
                        ("cerr", "cout", "clog")):
                    return False
            if p.get("k") in ("block", "return"):
                return True
            cur = p

    def refill(self, n):
        """if (arg != remembered) { V = f(arg); remembered = arg; }: the
        branch only recomputes what it keeps, from what it compares"""
        if n.get("else") is not None or n.get("then") is None:
            return False
        have = self.deps(n["cond"])
        need = set()
        for m in walk(n["then"]):
            k = m.get("k")
            if k in ("return", "throw"):
                return False
            if k == "asg" or (k in ("opcall", "mcall") and m.get("c")
                              and not m.get("cst")):
                b = self.base(m["c"][0])
                if b is None:
                    continue
                if b not in self.persist and self.decl.get(b) is None:
                    return False
                for x in m["c"][1:]:
                    need |= self.deps(x)
        return bool(need) and need <= have

    def early(self, d):
        """reads of the variable that this call may not have assigned"""
        out = []
        cls = {id(n): self.classify(n) for n in self.uses(d)}
        asg = {}
        for n in self.uses(d):
            for kind, p, vals in cls[id(n)]:
                if kind == "assign":
                    asg[id(p)] = vals

        def covered(n):
            """if (arg != remembered) { V = f(arg); remembered = arg; }"""
            c = n.get("cond")
            pers = [x for x in walk(c) if x.get("k") == "ref"
                    and x.get("d") in self.persist]
            if not pers:
                return False
            have = self.deps(c)
            need = set()
            hit = False
            for m in walk(n.get("then") or {}):
                if id(m) in asg:
                    hit = True
                    for v in asg[id(m)]:
                        need |= self.deps(v)
                elif m.get("k") in CALLS and m.get("c") and \
                        self.base(m["c"][0]) == d:
                    for v in m["c"][1:]:
                        need |= self.deps(v)
            return hit and bool(need) and need <= have

        def go(n, done):
            if n is None:
                return done
            k = n.get("k")
            if k == "if":
                done = go(n.get("init"), done)
                done = go(n.get("cvar"), done)
                done = go(n.get("cond"), done)
                a = go(n.get("then"), done)
                b = go(n.get("else"), done)
                if self.leaves(n.get("then")):
                    return b
                if n.get("else") is not None and self.leaves(n["else"]):
                    return a
                return (a and b) or covered(n)
            if k in ("for", "while", "forrange", "switch", "try"):
                for s in ("init", "cvar", "range", "cond"):
                    x = n.get(s)
                    if isinstance(x, dict):
                        done = go(x, done)
                inner = done
                for x in kids(n):
                    if any(x is n.get(s) for s in ("init", "cvar", "range",
                                                   "cond")):
                        continue
                    inner2 = go(x, inner)
                    inner = inner2 if k == "for" else inner
                return done
            if k == "lambda" and n.get("fid") in self.lambdas:
                go(self.prog.fns[n["fid"]]["body"], done)
                return done
            if id(n) in cls:
                if not done:
                    for kind, p, vals in cls[id(n)]:
                        if kind == "read" and self.read_matters(n):
                            out.append(n)
                return done
            ks = list(kids(n))
            if k == "asg" or (k == "opcall" and short(
                    n.get("fn", "")) == "operator="):
                ks = ks[1:] + ks[:1]
            for x in ks:
                done = go(x, done)
            return done or id(n) in asg

        done = False
        for ini in self.fn.get("inits", ()):
            done = go(ini.get("e"), done)
        go(self.fn.get("body"), done)
        return out

    def leaves(self, n):
        if n is None:
            return False
        if n.get("k") in ("return", "throw", "continue", "break"):
            return True
        if n.get("k") == "block":
            c = n.get("c") or []
            return bool(c) and self.leaves(c[-1])
        if n.get("k") == "cleanups":
            return any(self.leaves(x) for x in kids(n))
        return False

    def keyed(self, d, us):
        """a table of results by key: (parameters in values, in keys)"""
        keys, vals = set(), set()
        for u in us:
            p = self.parents.get(id(u))
            while p is not None and p.get("k") in ("cast", "paren"):
                u, p = p, self.parents.get(id(p))
            if p is None or p.get("k") not in ("mcall", "opcall"):
                continue
            nm = short(p.get("fn", ""))
            a = p["c"][1:]
            if nm in ("find", "count", "at", "operator[]", "contains",
                      "erase", "lower_bound"):
                for x in a[:1]:
                    keys |= self.deps(x)
                q = self.parents.get(id(p))
                e = q
                while e is not None and e.get("k") in ("cast", "paren"):
                    e = self.parents.get(id(e))
                if nm in ("operator[]", "at") and e is not None and \
                        e.get("k") is None and "d" in e and \
                        self.fn.ty(e.get("t")).get("k") in ("ref", "rref"):
                    vals |= self.src.get(e["d"], frozenset())
                if nm == "operator[]" and q is not None and (
                        q.get("k") == "asg" or short(
                            q.get("fn", "")) == "operator="):
                    for x in q["c"][1:]:
                        vals |= self.deps(x)
            elif nm in ("emplace", "try_emplace", "insert",
                        "insert_or_assign"):
                for x in a:
                    vals |= self.deps(x)
        return keys, vals

    def problems(self):
        """(node, message) of reads that depend on earlier calls"""
        sl = {}
        for n in self.nodes():
            if n.get("k") == "ref" and n.get("dk") == "slocal":
                sl.setdefault(n["d"], n["n"])
            elif n.get("k") == "ref" and n.get("dk") in ("global",
                                                         "smember"):
                if not n["n"].startswith("std::"):
                    sl.setdefault(n["d"], n["n"])
        if self.members:
            for n in self.nodes():
                f = self.field(n)
                ty = self.fn.ty(n.get("t"))
                if f and ty.get("k") in ("int", "float", "bool", "enum"):
                    sl.setdefault(f, f[1])
        self.persist = sl
        for d, name in sl.items():
            dec = self.decl.get(d)
            us = self.uses(d)
            if dec is not None:
                ty = self.fn.ty(dec.get("t")).get("s", "")
                if any(q in ty for q in QUIET_TYPES):
                    continue
            else:
                ty = self.fn.ty(us[0].get("t")).get("s", "")
                if any(q in ty for q in QUIET_TYPES):
                    continue
            kinds = [c for u in us for c in self.classify(u)]
            writes = [c for c in kinds if c[0] != "read"
                      and not (isinstance(d, tuple)
                               and c[1].get("k") in CALLS)]
            reads = [u for u in us
                     if any(c[0] == "read" for c in self.classify(u))
                     and self.read_matters(u)]
            yield_ = None
            if dec is not None and dec.get("init") is not None:
                s = self.deps(dec["init"])
                if s and reads and not any(c[0] == "assign" for c in writes):
                    yield (reads[0], "the static variable %s keeps what the "
                           "first call computed from %s; later calls use it "
                           "instead of their own" % (
                               name, ", ".join(sorted(
                                   self.pname(x) for x in s))))
                    continue
            if "map<" in ty:
                keys, vals = self.keyed(d, us)
                if vals - keys and keys:
                    yield (us[0], "%s remembers results by %s only, but they "
                           "are computed from %s too" % (
                               name, ", ".join(sorted(
                                   self.pname(x) for x in keys)),
                               ", ".join(sorted(
                                   self.pname(x) for x in vals - keys))))
                continue
            if not writes:
                continue
            dep = [c for c in writes
                   if any(self.deps(v) for v in c[2])
                   or (c[0] == "update" and not c[2])]
            guard = [c for c in writes if c[0] == "assign"
                     and not any(self.deps(v) for v in c[2])]
            if not dep and not guard:
                continue
            bad = self.early(d)
            if not bad:
                continue
            elemwise = not any(c[0] == "assign" for c in writes) and \
                all(self.fn.nodes() and c[1].get("k") in ("asg", "opcall",
                                                         "call")
                    for c in writes) and dec is not None
            if elemwise and not any(c[1].get("k") == "asg" and strip(
                    c[1]["c"][0]).get("k") == "ref" for c in writes):
                yield (bad[0], None)
                continue
            yield (bad[0], "%s is read before this call has set it, so the "
                   "result depends on earlier calls" % name)


def plain(qn):
    """qualified name without template arguments"""
    out, depth = "", 0
    for c in qn:
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0:
            out += c
    return out


def check(rep, fns, classes=True):
    """fns: Fn objects whose results may not depend on earlier calls;
    classes: names of classes whose methods are functions of their arguments
    and of what the constructor stored."""
    todo = [f for f in fns if getattr(f, "prog", None) is not None]
    seen = set()
    n = 0
    while todo:
        f = todo.pop()
        if f["fid"] in seen or not f.get("body"):
            continue
        seen.add(f["fid"])
        prog = f.prog
        q = plain(f["qn"]).split("::")
        own = classes is not True and len(q) > 1 and any(
            q[-2] == c for c in classes)
        own = own and q[-1] != q[-2] and q[-1][:1] != "~"
        a = Analysis(f, prog, own)
        bad = False
        for node, msg in a.problems():
            where = "%s:%d %s" % (f["file"], node.get("l", f["l"]), f["qn"])
            if msg is None:
                rep.undecided("call-history", where,
                              "scratch that is filled element by element")
            else:
                rep.bad("call-history", where, msg)
            bad = True
        if not bad:
            rep.ok("call-history", "%s: %s" % (f["file"], f["qn"]))
        n += 1
        for x in a.nodes():
            if x.get("fid") in prog.fns:
                todo.append(prog.fns[x["fid"]])
    rep.count("functions checked for state kept between calls", n)
