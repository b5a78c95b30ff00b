"""Which fields of a data buffer a step declares (getRequiredFields,
getProvidedFields) and uses, per configuration of the step: the member
conditions the declarations depend on are enumerated, and both the
declarations and all paths of the processing code are evaluated under each
configuration."""
import itertools

from .absint import last
from .flow import Flow, walk
from .steps import Chain, defs, peel, this_call

FIELD = {"kDataField": "data", "kFlagsField": "flags",
         "kWeightsField": "weights", "kUvwField": "uvw",
         "kData": "data", "kFlags": "flags", "kWeights": "weights",
         "kUvw": "uvw"}
GET = {"GetData": "data", "GetFlags": "flags", "GetWeights": "weights",
       "GetUvw": "uvw", "TakeData": "data", "TakeWeights": "weights"}
ALL = frozenset(("data", "flags", "weights", "uvw"))
SUB = "sub-steps"
UNKNOWN = "?"


def text(n, fn, depth=0):
    """canonical text of an expression over the object's own members, or
    None"""
    n = peel(n)
    if n is None:
        return None
    k = n.get("k")
    if "cv" in n:
        return str(n["cv"])
    if k == "str":
        return repr(n.get("v"))
    if k == "mem":
        if not n.get("c") or peel(n["c"][0]).get("k") == "this":
            return n.get("f")
        b = text(n["c"][0], fn, depth)
        return b and b + "." + n.get("f", "?")
    if k == "ref":
        if depth < 4:
            ds = defs(fn).get(n.get("d"), ())
            if len(ds) == 1:
                return text(ds[0], fn, depth + 1)
        return None
    if k in ("mcall", "opcall", "call", "construct") and \
            n.get("c") and (k != "call"):
        parts = [text(c, fn, depth) for c in n["c"] if c and
                 not c.get("def")]
        if None in parts:
            return None
        nm = last(n.get("fn", ""))
        if k == "construct" and len(parts) == 1:
            return parts[0]
        if nm == "operator bool":
            return parts[0]
        return "%s(%s)" % (nm, ",".join(parts))
    return None


def members(n):
    """own members mentioned in an expression"""
    res = set()
    for x in walk(n):
        if x.get("k") == "mem" and (not x.get("c") or peel(
                x["c"][0]).get("k") == "this"):
            res.add(x.get("f"))
    return res


def split(cond, fn):
    """condition -> (variable text, constant or None, negated) for a leaf"""
    c, neg = peel(cond), False
    while c is not None and c.get("k") == "un" and c.get("op") == "!":
        c, neg = peel(c["c"][0]), not neg
    if c is None:
        return None
    op = c.get("op") or ""
    nm = last(c.get("fn", ""))
    if (c.get("k") == "bin" and op in ("==", "!=")) or \
            nm in ("operator==", "operator!="):
        kids = [x for x in c["c"] if x]
        a, b = text(kids[0], fn), text(kids[1], fn)
        if a is None or b is None:
            return None

        def const(i):
            x = peel(kids[i])
            return "cv" in x or x.get("k") in ("str", "nullptr") or (
                x.get("k") == "construct" and x.get("c") and
                peel(x["c"][0]).get("k") == "str")
        if const(0):
            a, b = b, a
        elif not const(1):
            return None
        if "!=" in (op, nm[8:]):
            neg = not neg
        return a, b, neg
    if c.get("k") == "ref":
        ds = defs(fn).get(c.get("d"), ())
        if len(ds) == 1:
            d = peel(ds[0])
            if d is not None and d.get("k") not in ("ref", "cond") and \
                    not (d.get("k") == "bin" and d["op"] in ("&&", "||")):
                r = split(d, fn)
                return r and (r[0], r[1], r[2] != neg)
    t = text(c, fn)
    if t is None:
        return None
    return t, None, neg


def leaves(cond):
    c = peel(cond)
    if c is None:
        return
    if c.get("k") == "bin" and c["op"] in ("&&", "||"):
        for x in c["c"]:
            yield from leaves(x)
    elif c.get("k") == "un" and c["op"] == "!":
        yield from leaves(c["c"][0])
    else:
        yield c


class Declared:
    """evaluates getRequiredFields / getProvidedFields"""

    def __init__(self, prog, chain):
        self.prog, self.chain = prog, chain
        self.active = set()

    def atoms(self, f, seen=None):
        """variable -> set of constants it is compared with (None: used as
        a truth value)"""
        res = {}
        seen = set() if seen is None else seen
        if f["fid"] in seen:
            return res
        seen.add(f["fid"])
        for n in walk(f.get("body") or {}):
            c = None
            if n.get("k") in ("if", "while"):
                c = n.get("cond")
            elif n.get("k") == "cond":
                c = n["c"][0]
            elif n.get("k") == "switch":
                v = text(n.get("cond"), f)
                if v:
                    for x in walk(n.get("body") or {}):
                        if x.get("k") == "case":
                            val = x.get("lo") or x.get("v") or {}
                            cv = val.get("cv") if isinstance(val, dict) \
                                else val
                            res.setdefault(v, set()).add(str(cv))
            if c is not None:
                for x in leaves(c):
                    s = split(x, f)
                    if s:
                        res.setdefault(s[0], set()).add(s[1])
            g = self.chain.own(n) if n.get("k") in ("mcall", "call") else None
            if g is not None and g.get("body"):
                for v, cs in self.atoms(g, seen).items():
                    res.setdefault(v, set()).update(cs)
        return res

    def run(self, f, cfg, depth=0):
        if f["fid"] in self.active:     # recursion adds nothing
            return frozenset()
        env = {}
        rets = []
        self.active.add(f["fid"])
        self.stmts(f.get("body"), f, cfg, env, rets, depth)
        self.active.discard(f["fid"])
        out = frozenset().union(*rets) if rets else frozenset((UNKNOWN,))
        return out

    def stmts(self, n, f, cfg, env, rets, depth):
        """False when the end is not reached"""
        if n is None:
            return True
        k = n.get("k")
        if k == "block":
            for c in n.get("c", ()):
                if c and not self.stmts(c, f, cfg, env, rets, depth):
                    return False
            return True
        if k == "decl":
            for v in n["vars"]:
                if v.get("init"):
                    env[v["d"]] = self.ev(v["init"], f, cfg, env, depth)
            return True
        if k == "if":
            t = decide(n.get("cond"), cfg, f)
            e1, e2 = dict(env), dict(env)
            a = b = False
            if t is not False:
                a = self.stmts(n.get("then"), f, cfg, e1, rets, depth)
            if t is not True:
                b = self.stmts(n.get("else"), f, cfg, e2, rets, depth)
            env.clear()
            for e, live in ((e1, a), (e2, b)):
                if live:
                    for d, v in e.items():
                        env[d] = env.get(d, frozenset()) | v
            return a or b
        if k == "return":
            if n.get("c"):
                rets.append(self.ev(n["c"][0], f, cfg, env, depth))
            return False
        if k in ("forrange", "for", "while", "do"):
            self.stmts(n.get("body"), f, cfg, env, rets, depth)
            return True
        if k in ("throw",):
            return False
        self.ev(n, f, cfg, env, depth)
        return True

    def ev(self, n, f, cfg, env, depth):
        n = peel(n)
        if n is None or depth > 6:
            return frozenset((UNKNOWN,))
        k = n.get("k")
        if k == "ref" or k == "mem":
            nm = last(n.get("n") or n.get("f") or "")
            if nm in FIELD:
                return frozenset((FIELD[nm],))
            if n.get("d") in env:
                return env[n["d"]]
            v = self.prog.vars.get(n.get("n"))
            if v is not None and v["v"].get("init"):
                return self.ev(v["v"]["init"], f, cfg, {}, depth + 1)
            return frozenset((UNKNOWN,))
        if k in ("construct", "initlist", "ilist", "valinit"):
            return frozenset().union(*[
                self.ev(c, f, cfg, env, depth) for c in n.get("c", ()) if c])
        if k == "cond":
            t = decide(n["c"][0], cfg, f)
            r = frozenset()
            if t is not False:
                r |= self.ev(n["c"][1], f, cfg, env, depth)
            if t is not True:
                r |= self.ev(n["c"][2], f, cfg, env, depth)
            return r
        nm = last(n.get("fn", ""))
        if nm in ("operator|", "operator|=", "operator="):
            a = self.ev(n["c"][0], f, cfg, env, depth) \
                if nm != "operator=" else frozenset()
            r = a | self.ev(n["c"][1], f, cfg, env, depth)
            t = peel(n["c"][0])
            if nm != "operator|" and t.get("k") == "ref":
                env[t["d"]] = r
            return r
        if nm == "UpdateRequirements":
            return frozenset((UNKNOWN,))
        if k in ("mcall", "call"):
            if this_call(n) or k == "call":
                g = self.prog.fns.get(n.get("fid"))
                if g is not None and g.get("cls") in self.chain.cls:
                    return self.run(g, cfg, depth + 1)
            if "equiredFields" in nm or "rovidedFields" in nm:
                g = self.prog.fns.get(n.get("fid"))
                if g is not None and g.get("cls") and g["cls"] not in \
                        self.chain.cls and not n.get("virt"):
                    return self.run(g, {}, depth + 1)
                return frozenset((SUB,))
        return frozenset((UNKNOWN,))


def decide(cond, cfg, fn):
    c = peel(cond)
    if c is None:
        return None
    if c.get("k") == "bin" and c["op"] in ("&&", "||"):
        a, b = decide(c["c"][0], cfg, fn), decide(c["c"][1], cfg, fn)
        if c["op"] == "&&":
            return False if a is False or b is False else \
                True if a and b else None
        return True if a or b else False if a is False and b is False \
            else None
    if c.get("k") == "un" and c["op"] == "!":
        a = decide(c["c"][0], cfg, fn)
        return None if a is None else not a
    if c.get("k") == "ref":
        ds = defs(fn).get(c.get("d"), ())
        if len(ds) == 1 and peel(ds[0]) is not None and \
                peel(ds[0]).get("k") == "bin":
            return decide(ds[0], cfg, fn)
    if "cv" in c:
        return bool(int(c["cv"]))
    s = split(c, fn)
    if s is None or s[0] not in cfg:
        return None
    v, const, neg = s
    r = cfg[v] if const is None else cfg[v] == const
    if not isinstance(r, bool):
        return None
    return r != neg


def configs(atoms, limit=256):
    """all assignments of the condition variables"""
    names = sorted(atoms)
    dom = []
    for v in names:
        cs = {c for c in atoms[v] if c is not None}
        if not cs:
            dom.append([True, False])
        elif None in atoms[v]:
            dom.append([None])          # used both ways: left undecided
        else:
            dom.append(sorted(cs) + ["<other>"])
    n = 1
    for d in dom:
        n *= len(d)
    if n > limit:
        return None
    return [dict((a, b) for a, b in zip(names, t) if b is not None)
            for t in itertools.product(*dom)]


def parents(fn):
    if "_par" in fn:
        return fn["_par"]
    m = {}
    todo = [fn.get("body") or {}]
    while todo:
        n = todo.pop()
        for v in n.values():
            for c in (v if isinstance(v, list) else [v]):
                if isinstance(c, dict) and c is not n and v is not None:
                    if id(c) not in m and ("k" in c or "init" in c):
                        m[id(c)] = n
                        todo.append(c)
    fn["_par"] = m
    return m


def up(n, fn):
    """nearest ancestor that is not a cast"""
    m = parents(fn)
    p = m.get(id(n))
    while p is not None and p.get("k") in ("cast", "paren"):
        n, p = p, m.get(id(p))
    return p, n


def getter(n):
    """field that a call accesses on a buffer, or None"""
    if n.get("k") != "mcall" or not n.get("c"):
        return None
    fnm = n.get("fn", "")
    nm = last(fnm)
    if nm not in GET or not ("DPBuffer::" in fnm or "BdaBuffer::" in fnm):
        return None
    if GET[nm] == "data":
        for a in n["c"][1:]:
            if a and not a.get("def") and any(
                    x.get("k") in ("ref", "mem", "str") and x.get("v") != ""
                    for x in walk(a)) and "basic_string" in str(
                        a.get("fn", "basic_string")):
                if named(a):
                    return None
    return GET[nm]


def main_data(n, fn, cfg):
    """GetData(name) of a name that the configuration leaves empty"""
    if n.get("k") != "mcall" or not n.get("c") or last(
            n.get("fn", "")) != "GetData":
        return False
    for a in n["c"][1:]:
        t = text(a, fn) if a else None
        if t and cfg.get("empty(%s)" % t) is True:
            return True
    return False


def named(a):
    a = peel(a)
    if a.get("k") == "str":
        return a.get("v") != ""
    if a.get("k") == "construct" and not a.get("c"):
        return False
    if "cv" in a:
        return False
    if a.get("k") == "construct" and a.get("c"):
        return named(a["c"][0])
    return True


WRITE_METHODS = {"resize", "fill"}
META = {"size", "shape", "empty", "dimension", "ndimension"}


def usage(n, fn):
    """how the result of a getter is used: 'meta', 'create', 'write',
    'use'"""
    p, c = up(n, fn)
    if p is None:
        return "use"
    k = p.get("k")
    nm = last(p.get("fn", ""))
    if last(n.get("fn", "")).startswith("Take") and holder(n, fn):
        return "hold"
    if "init" in p and "d" in p and p.get("ref") and n.get("k") == "mcall" \
            and peel(p["init"]) is n:
        return "alias"
    first = bool(p.get("c")) and p["c"][0] is c
    if k == "mcall" and first:
        if nm in META:
            return "meta"
        if nm == "resize":
            return "create"
        if nm == "fill":
            return "fill"
    if first and (k == "asg" and p["op"] == "=" or nm == "operator="):
        return "create"
    if first and (k == "asg" or nm in ("operator+=", "operator-=",
                                       "operator*=", "operator|=")):
        return "write"
    if nm in ("operator()", "operator[]") and first or \
            nm in ("view", "row", "col") and k in ("call", "mcall"):
        q, d = up(p, fn)
        if q is not None and q.get("c") and q["c"][0] is d and (
                q.get("k") == "asg" or last(q.get("fn", "")).startswith(
                    "operator") and last(q["fn"]).endswith("=") and last(
                        q["fn"]) not in ("operator==", "operator!=",
                                         "operator<=", "operator>=") or
                last(q.get("fn", "")) == "fill"):
            return "write"
    if "init" in p and "d" in p or k == "decl":
        v = p if "d" in p else None
        if v is not None and stored(v["d"], fn):
            return "write"
    # pointers: T* p = GetX().data() + offset, &GetX()(..)
    q, d = p, c
    while q is not None and (
            q.get("k") == "bin" and q.get("op") in ("+", "-") or
            q.get("k") == "un" and q.get("op") == "&" or
            last(q.get("fn", "")) in ("data", "operator()", "operator[]",
                                      "operator+", "view", "begin")):
        q, d = up(q, fn)
    if q is not None and "init" in q and "d" in q:
        if stored(q["d"], fn):
            return "write"
        if "BdaBuffer::" in n.get("fn", "") and tested(q["d"], fn):
            return "meta"
    if q is not None and last(q.get("fn", "")) in ("push_back",
                                                   "emplace_back") and \
            p.get("k") == "un" and p.get("op") == "&":
        return "escape"
    return "use"


def holder(n, fn):
    """the local or member that a taken field is kept in"""
    p, c = up(n, fn)
    while p is not None and p.get("k") == "construct":
        p, c = up(p, fn)
    if p is None:
        return None
    if "init" in p and "d" in p:
        return p
    if p.get("k") == "asg" and p["op"] == "=" or \
            last(p.get("fn", "")) == "operator=":
        t = peel(p["c"][0])
        if t.get("k") in ("ref", "mem") and p["c"][0] is not c:
            return t
    return None


def tested(d, fn):
    """the local pointer d is compared with null before it is used"""
    for n in walk(fn.get("body") or {}):
        if n.get("k") in ("if", "cond"):
            c = n.get("cond") if n["k"] == "if" else n["c"][0]
            for x in leaves(c):
                if x.get("k") == "ref" and x.get("d") == d:
                    return True
                if x.get("k") == "bin" and x["op"] in ("==", "!=") and any(
                        peel(y).get("d") == d for y in x["c"] if y):
                    return True
    return False


def restores(fns):
    """fields of the input for which some code puts back a saved copy"""
    saved, res = {}, set()
    for f in fns:
        for n in walk(f.get("body") or {}):
            if (n.get("k") == "asg" or last(n.get("fn", "")) == "operator=") \
                    and len(n.get("c", ())) == 2:
                src = {getter(x) for x in walk(n["c"][1])} - {None}
                for m in members(n["c"][0]):
                    if not any(getter(x) for x in walk(n["c"][0])):
                        for s in src:
                            saved.setdefault(s, set()).add(m)
    for f in fns:
        for n in walk(f.get("body") or {}):
            g = getter(n)
            if g in saved and usage(n, f) == "create":
                p, c = up(n, f)
                if any(members(a) & saved[g] for a in p["c"][1:] if a):
                    res.add(g)
    return res


def stored(d, fn):
    """something is stored through the local pointer or reference d"""
    if "_stored" not in fn:
        s = set()
        for n in walk(fn.get("body") or {}):
            lhs = None
            if n.get("k") == "asg" or last(n.get("fn", "")) in (
                    "operator=", "operator+=", "operator-=", "operator*=",
                    "operator|="):
                if n.get("c"):
                    lhs = peel(n["c"][0])
            if lhs is None:
                continue
            deref = False
            while lhs is not None:
                if lhs.get("k") == "un" and lhs.get("op") == "*" or \
                        lhs.get("k") in ("index", "idx", "sub") or \
                        last(lhs.get("fn", "")) in ("operator()",
                                                    "operator[]"):
                    deref = True
                    lhs = peel(lhs["c"][0])
                elif lhs.get("k") == "un" and "++" in lhs.get("op", ""):
                    lhs = peel(lhs["c"][0])
                elif lhs.get("k") == "bin" and lhs["op"] in ("+", "-"):
                    lhs = peel(lhs["c"][0])
                else:
                    break
            if lhs is not None and lhs.get("k") == "ref" and deref:
                s.add(lhs["d"])
        fn["_stored"] = s
    return d in fn["_stored"]


class Access(Flow):
    """Runs the processing code under a configuration.  State: (fields
    created so far, tainted: the path depends on a configuration condition
    outside the declarations)."""

    def __init__(self, prog, chain, cfg, stored_fields, dynamic, fns=()):
        super().__init__(prog)
        self.bind = {}
        self.fns = list(fns)
        self.aliases = None
        for f in fns:
            for n in walk(f.get("body") or {}):
                if n.get("k") not in ("mcall", "call"):
                    continue
                g = chain.own(n)
                if g is None:
                    continue
                args = n["c"][1:] if n["k"] == "mcall" else n["c"]
                for p, a in zip(g.get("params", ()), args):
                    self.bind.setdefault((g["fid"], p.get("d")),
                                         []).append((a, f))
        self.chain = chain
        self.cfg = cfg
        self.inputs = stored_fields
        self.dynamic = dynamic
        self.uses = {}      # (field, kind, where) -> tainted (all paths)

    def inline(self, n, fn):
        g = self.chain.own(n)
        if g is not None and last(g["qn"]) in ("getRequiredFields",
                                               "getProvidedFields"):
            return None
        return g

    def input_like(self, n, fn, seen=None):
        """the buffer comes from the caller of process"""
        seen = set() if seen is None else seen
        n = peel(n)
        if n is None:
            return False
        k = n.get("k")
        if k == "ref":
            key = (fn["fid"], n.get("d"))
            if key in seen:
                return False
            seen.add(key)
            if n.get("dk") == "parm":
                b = self.bind.get(key)
                return b is None or any(self.input_like(a, f, seen)
                                        for a, f in b)
            ds = defs(fn).get(n.get("d"), ())
            return bool(ds) and all(self.input_like(e, fn, seen)
                                    for e in ds)
        if k == "mem":
            if n.get("c") and peel(n["c"][0]).get("k") != "this":
                return False
            return n.get("f") in self.inputs
        nm = last(n.get("fn", ""))
        if nm in ("operator->", "operator*", "operator[]", "get", "move",
                  "front", "back", "at", "forward") or \
                k in ("un", "idx", "index", "sub"):
            if nm == "get" and "unique_ptr" not in n["fn"]:
                return False
            return bool(n.get("c")) and self.input_like(n["c"][0], fn, seen)
        if k == "construct" and len(n.get("c", ())) == 1 and \
                "unique_ptr" in n.get("fn", ""):
            return self.input_like(n["c"][0], fn, seen)
        return False

    def event(self, n, st, fn):
        if n.get("k") == "mcall" and last(n.get("fn", "")) == "AddData" \
                and self.input_like(n["c"][0], fn) and \
                not any(named(a) for a in n["c"][1:] if a):
            self.note(("data", fn.where(n)), "write", st)
            return [(st[0] | {"data"}, st[1])]
        if n.get("k") in ("ref", "mem"):
            a = self.alias(n, fn)
            if a is None:
                return None
            f, held = a
            if held:
                if ("held", f) in st[0] and not self.put_back(n, fn, f):
                    self.note((f, fn.where(n)), "use", st)
                return None
            return self.effect(n, f, usage(n, fn), st, fn, True)
        f = getter(n) or ("data" if main_data(n, fn, self.cfg) else None)
        if f is None or not self.input_like(n["c"][0], fn):
            return None
        return self.effect(n, f, usage(n, fn), st, fn, "DPBuffer::" in
                           n["fn"])

    def alias(self, n, fn):
        """(field, holds a taken copy) of a local or member that stands for
        a field of the input"""
        key = ("d", fn["fid"], n.get("d")) if n["k"] == "ref" else \
            ("f", n.get("f"))
        if self.aliases is None:
            self.find_aliases()
        return self.aliases.get(key)

    def find_aliases(self):
        self.aliases = {}
        for f in self.fns:
            for n in walk(f.get("body") or {}):
                g = getter(n) or ("data" if main_data(n, f, self.cfg)
                                  else None)
                if not g or not self.input_like(n["c"][0], f):
                    continue
                u = usage(n, f)
                if u == "alias":
                    p, c = up(n, f)
                    self.aliases[("d", f["fid"], p["d"])] = (g, False)
                elif u == "hold":
                    t = holder(n, f)
                    if "init" in t:
                        self.aliases[("d", f["fid"], t["d"])] = (g, True)
                    elif t.get("k") == "ref":
                        self.aliases[("d", f["fid"], t["d"])] = (g, True)
                    else:
                        self.aliases[("f", t.get("f"))] = (g, True)

    def put_back(self, n, fn, f):
        """the held copy is only assigned (back) here"""
        p, c = up(n, fn)
        while p is not None and (last(p.get("fn", "")) == "move" or
                                 p.get("k") == "construct"):
            p, c = up(p, fn)
        if p is None:
            return False
        if not (p.get("k") == "asg" and p["op"] == "=" or
                last(p.get("fn", "")) == "operator="):
            return last(p.get("fn", "")) in META
        if p["c"][0] is c or peel(p["c"][0]) is n:
            return True
        t = peel(p["c"][0])
        return getter(t) == f or main_data(t, fn, self.cfg)

    def effect(self, n, f, kind, st, fn, creates):
        created, taint = st
        key = (f, fn.where(n))
        if kind == "create":
            if creates:
                self.note(key, "write", st)
                return [(created | {f}, taint)]
            kind = "write"
        if kind == "fill":
            self.note(key, "write", st)
            return None
        if kind == "hold":
            if f not in created:
                return [(created | {("held", f)}, taint)]
            return None
        if kind in ("meta", "escape", "alias"):
            return None
        if kind == "write":
            self.note(key, "write", st)
        if f not in created:
            self.note(key, "use", st)
        return None

    def note(self, key, kind, st):
        k = key + (kind,)
        self.uses[k] = self.uses.get(k, True) and st[1]

    def branch(self, cond, truth, st, fn):
        t = decide(cond, self.cfg, fn)
        c = peel(cond)
        if t is None and c.get("k") == "ref" and c.get("dk") == "parm":
            vals = {self.constant(a, f) for a, f in
                    self.bind.get((fn["fid"], c["d"]),
                                               ((None, None),))}
            if len(vals) == 1:
                t = vals.pop()
        if t is not None:
            return (st,) if t == truth else ()
        ms = members(cond)
        if not ms:
            # locals standing for configuration
            for x in walk(cond):
                if x.get("k") == "ref":
                    for e in defs(fn).get(x.get("d"), ()):
                        ms |= members(e)
        ms |= self.calls(cond, fn)
        created, taint = st
        # the field is known to be there
        for x in walk(cond):
            g = getter(x)
            if not g and x.get("k") == "ref":
                g = self.alias(x, fn)
            if g and usage(x, fn) == "meta":
                return ((created, True),)
        if ms and not ms <= self.dynamic:
            return ((created, True),)
        return (st,)

    def constant(self, a, fn):
        a = peel(a)
        if a is None:
            return None
        if "cv" in a:
            return bool(int(a["cv"]))
        if a.get("k") == "ref":
            ds = defs(fn).get(a.get("d"), ())
            if len(ds) == 1:
                return self.constant(ds[0], fn)
        return None

    def st_if(self, n, S, fn):
        """what follows an if whose branches both fall through does not
        depend on its condition"""
        from .flow import Out
        o = Out()
        for s in S:
            r = super().st_if(n, {s}, fn)
            if not (r.ret or r.brk or r.cont):
                r.next = {(c, s[1]) for c, _ in r.next}
            o.absorb(r, "next", "ret", "brk", "cont", "thr")
        return o

    def ex(self, n, S, fn, o):
        k = (n or {}).get("k")
        if k == "cond" or k == "bin" and n["op"] in ("&&", "||"):
            res = set()
            for s in S:
                res |= {(c, s[1]) for c, _ in super().ex(n, {s}, fn, o)}
            return res
        return super().ex(n, S, fn, o)

    def joined(self, meth, n, S, fn):
        from .flow import Out
        o = Out()
        for s in S:
            r = meth(n, {s}, fn)
            if not r.ret:
                r.next = {(c, s[1]) for c, _ in r.next}
            o.absorb(r, "next", "ret", "brk", "cont", "thr")
        return o

    def st_for(self, n, S, fn):
        return self.joined(super().st_for, n, S, fn)

    def st_while(self, n, S, fn):
        return self.joined(super().st_while, n, S, fn)

    def st_do(self, n, S, fn):
        return self.joined(super().st_do, n, S, fn)

    def st_forrange(self, n, S, fn):
        return self.joined(super().st_forrange, n, S, fn)

    def st_switch(self, n, S, fn):
        return self.joined(self.switch, n, S, fn)

    def calls(self, cond, fn):
        """members that decide the result of the object's own functions"""
        res = set()
        for x in walk(cond):
            if x.get("k") == "mcall" and this_call(x):
                g = self.prog.fns.get(x.get("fid"))
                if g is not None:
                    for y in walk(g.get("body") or {}):
                        res |= members(y) if y.get("k") == "mem" else set()
                res.add(last(x["fn"]) + "()")
        return res

    def switch(self, n, S, fn):
        v = text(n.get("cond"), fn)
        if v not in self.cfg or not isinstance(self.cfg[v], str):
            return super().st_switch(n, S, fn)
        # only the matching case is entered
        body = n.get("body") or {}
        val = self.cfg[v]
        labels, default = set(), False
        for x in walk(body):
            if x.get("k") == "case":
                lab = x.get("v") or x.get("lo")
                labels.add(str(lab.get("cv")) if isinstance(lab, dict)
                           else str(lab))
        self_val = val if val in labels else None
        from .flow import Out
        o = Out(S)
        cur = set()
        matched = False
        for c in body.get("c", ()) if body.get("k") == "block" else [body]:
            while c and c.get("k") in ("case", "default"):
                if c["k"] == "default":
                    hit = self_val is None
                else:
                    lab = c.get("v") or c.get("lo")
                    lab = lab.get("cv") if isinstance(lab, dict) else lab
                    hit = str(lab) == val
                if hit:
                    cur |= S
                    matched = True
                c = c["c"][-1] if c.get("c") else None
            if c is None:
                continue
            r = self.st(c, cur, fn)
            cur = r.next
            o.absorb(r, "ret", "cont", "thr")
            o.brk |= r.brk
        o.next = cur | o.brk | (set() if matched else set(S))
        o.brk = set()
        return o


def assigned(prog, chain, roots):
    """(members changed by the processing code, members holding buffers
    that came in)"""
    dyn, buf = set(), set()
    seen = {}
    todo = list(roots)
    while todo:
        f = todo.pop()
        if f["fid"] in seen:
            continue
        seen[f["fid"]] = f
        for n in walk(f.get("body") or {}):
            g = chain.own(n) if n.get("k") in ("mcall", "call") else None
            if g is not None:
                todo.append(g)
            k = n.get("k")
            nm = last(n.get("fn", ""))
            if k == "un" and ("++" in n.get("op", "") or
                              "--" in n.get("op", "")):
                dyn |= members(n)
            if (k == "asg" or nm in ("operator=", "operator+=", "push_back",
                                     "emplace_back", "clear", "resize",
                                     "operator++", "reset", "push",
                                     "emplace", "pop", "pop_front",
                                     "fill", "swap")) and n.get("c"):
                tgt = members(n["c"][0])
                dyn |= tgt
                for a in n["c"][1:]:
                    for x in walk(a or {}):
                        if x.get("k") == "ref" and x.get("dk") == "parm" \
                                and "uffer" in f.ty(x.get("t", 0)).get(
                                    "s", ""):
                            if nm in ("operator=", "push_back", "push",
                                      "emplace_back", "emplace"):
                                buf |= tgt
            if nm == "swap" and n.get("c"):
                for c in n["c"]:
                    dyn |= members(c or {})
    return dyn, buf, seen
