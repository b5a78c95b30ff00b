"""Which memory the iterations of a parallel loop share.

The body of a parallel loop is evaluated abstractly with everything it calls:
numbers are described by how they depend on the loop index (equal for all
iterations, different for each, the thread number, ...), objects by access
paths from what the loop body shares with its surroundings.  The result is a
list of accesses (path, read or write, locks held); two accesses of different
iterations are disjoint when at one place in their paths the subscripts differ
for different iterations."""
from .flow import walk

# ---- numbers: how a value depends on the iteration --------------------------
A = ("A", "1")            # any value, no relation to the iteration
X = ("X",)                # unknown
B, E_ = ("B",), ("E",)    # first / one past last index of a chunk


def K(n):
    return ("K", n)


def U(t):
    return ("U", t)


def I(tok="i", mul="1", add=""):
    return ("I", tok, mul, add)


def walked(x, mods):
    """a number that starts at the first of the elements of an iteration
    (index * number of elements) and only moves forward is taken to stay
    within them"""
    if x[0] == "I" and x[2] != "1" and mods <= {"inc", "add"}:
        return I(x[1], x[2], "blk")
    return A


def txt(x):
    return str(x[1]) if x[0] in ("K", "U") else None


def join(a, b):
    if a is None:
        return b
    if b is None or a == b:
        return a
    if a[0] == "X" or b[0] == "X":
        return X
    return A


def as_index(x):
    return I() if x == B else x


def add(a, b, sign="+"):
    if a == B or b == B:
        a, b = as_index(a), as_index(b)
    if a == K(0) and sign == "+":
        return b
    if b == K(0):
        return a
    if a[0] == "K" and b[0] == "K":
        return K(a[1] + b[1] if sign == "+" else a[1] - b[1])
    if a[0] in "KU" and b[0] in "KU":
        return U("(%s%s%s)" % (txt(a), sign, txt(b)))
    if a == E_ or b == E_:
        return A
    if b[0] == "I" and a[0] != "I" and sign == "+":
        a, b = b, a
    if a[0] == "I":
        _, tok, mul, ad = a
        if b[0] in "KU":
            if mul == "1":
                if ad == "":
                    return I(tok, mul, sign + txt(b))
                return I(tok, mul, ad + sign + txt(b))
            if ad == "" and b[0] == "K":
                return I(tok, mul, "c%s%s" % (sign, txt(b)))
            return I(tok, mul, "blk")
        if b[0] == "A" and mul == "1" and b[1] != "1":
            return I(tok, "1", "low:" + b[1])
        if b[0] in "AX" and mul != "1":
            return I(tok, mul, "blk")
        if b[0] == "I" and sign == "+":
            r = recombined(a, b)
            if r is not None:
                return r
        if b[0] == "I" and mul != "1" and sign == "+":
            return I(tok, mul, "blk")
        if b[0] == "I" and b[2] != "1" and mul == "1" and sign == "+":
            return I(b[1], b[2], "blk")
        if b[0] == "X":
            return X
        return A
    if a[0] == "X" or b[0] == "X":
        return X
    if a[0] == "A" and b[0] in "KU":
        return A if a[1] == "1" else a
    return A


def recombined(a, b):
    """quotient and remainder of the index by the same number"""
    if a[1][0] == "r":
        a, b = b, a
    if a[1][0] != "q" or b[1] != "r" + a[1][1:]:
        return None
    d = a[1][2:].strip("()")
    if a[2] == times(d, b[2]) and a[3] == b[3] == "":
        return I("i", b[2])
    return I("i", "mix " + " ".join(sorted((a[2], b[2]))), "blk")


def times(t, u):
    if t == "1":
        return u
    if u == "1":
        return t
    return "*".join(sorted((t + "*" + u).split("*")))


def mul(a, b):
    a, b = as_index(a), as_index(b)
    if a[0] in "KU" and b[0] not in "KU":
        a, b = b, a
    if a[0] == "K" and b[0] == "K":
        return K(a[1] * b[1])
    if a[0] in "KU" and b[0] in "KU":
        return U("(%s)" % times(txt(a), txt(b)))
    if a[0] == "I" and b[0] in "KU":
        if b == K(0):
            return b
        return I(a[1], times(a[2], txt(b).strip("()")),
                 a[3] if a[3] == "" else "blk")
    if a[0] == "A" and b[0] in "KU":
        return ("A", times(a[1], txt(b).strip("()")))
    if a[0] == "X" or b[0] == "X":
        return X
    return A


def div(a, b):
    a = as_index(a)
    if a[0] == "K" and b[0] == "K" and b[1]:
        return K(a[1] // b[1])
    if a[0] in "KU" and b[0] in "KU":
        return U("(%s/%s)" % (txt(a), txt(b)))
    if a[0] == "I" and b[0] in "KU":
        if b == K(1):
            return a
        if a[2] == txt(b).strip("()"):
            return I(a[1])
        if a[1] == "i" and a[2] == "1" and a[3] == "":
            return I("q:" + txt(b))
    if a[0] == "X" or b[0] == "X":
        return X
    return A


def mod(a, b):
    a = as_index(a)
    if a[0] == "K" and b[0] == "K" and b[1]:
        return K(a[1] % b[1])
    if a[0] in "KU" and b[0] in "KU":
        return U("(%s%%%s)" % (txt(a), txt(b)))
    if a[0] == "I" and b[0] in "KU":
        if a[1] == "i" and a[2] == "1" and a[3] == "":
            return I("r:" + txt(b))
        if a[3].startswith("low:") and a[3][4:] == txt(b).strip("()"):
            return I(a[1])
    if a[0] == "X" or b[0] == "X":
        return X
    return A


def varies(x):
    return x[0] in "IABE"


# ---- values -----------------------------------------------------------------
class V:
    """num: the number; locs: {(root, segs, off)}: the objects it denotes
    (off None) or points into (off a number or 'addr'); items: components"""
    __slots__ = ("num", "locs", "items", "lam")

    def __init__(self, num=X, locs=frozenset(), items=None, lam=None):
        self.num, self.locs, self.items, self.lam = num, frozenset(locs), \
            items, lam

    def key(self):
        return (self.num, self.locs,
                tuple(i.key() for i in self.items) if self.items else None,
                id(self.lam[0]) if self.lam else None)

    def join(self, o):
        return V(join(self.num, o.num), self.locs | o.locs,
                 self.items if self.items is not None else o.items,
                 self.lam or o.lam)


NONE = V()


def sub(locs, nums, fld=False):
    """element of each location"""
    res = set()
    for r, s, off in locs:
        n = [as_index(x) for x in nums]
        if off is None or off == "addr":
            if off == "addr":
                if n == [K(0)]:
                    res.add((r, s, None))
                    continue
                # beyond the object that was pointed to
                if s and s[-1][0] == "s":
                    res.add((r, s[:-1] + (("s", add(s[-1][1], n[0])),),
                             None))
                    continue
                res.add((r, s + tuple(("s", x) for x in n), None))
                continue
            res.add((r, s + tuple(("s", x) for x in n), None))
        else:
            res.add((r, s + (("s", as_index(add(off, n[0]))),) +
                     tuple(("s", x) for x in n[1:]), None))
    return frozenset(res)


def fields(locs, f):
    return frozenset((r, s + (("f", f),), None) for r, s, off in locs)


def pointer(locs, off):
    return frozenset((r, s, off) for r, s, o in locs)


def moved(locs, n, sign="+"):
    res = set()
    for r, s, off in locs:
        if off == "addr":
            if s and s[-1][0] == "s":
                res.add((r, s[:-1], add(s[-1][1], n, sign)))
            else:
                res.add((r, s, "addr"))
        elif off is None:
            res.add((r, s, n if sign == "+" else add(K(0), n, sign)))
        else:
            res.add((r, s, add(off, n, sign)))
    return frozenset(res)


def target(locs):
    """what a pointer refers to"""
    return sub(locs, [K(0)])


def local(root):
    return root[0] == "l"


# ---- comparison of two accesses ---------------------------------------------
def sub_disjoint(x, y):
    """subscripts of different iterations: 'yes', 'no', '?' or a partial
    (quotient/remainder) token"""
    if x[0] == "X" or y[0] == "X":
        return "?"
    if x[0] == "K" and y[0] == "K":
        return "yes" if x[1] != y[1] else "no"
    if x[0] == "I" and y[0] == "I":
        if x[1] != y[1] or x[2] != y[2]:
            return "no" if x[2] == y[2] == "1" else "?"
        if x[2] == "1" and x[3] != y[3]:
            if any(c in x[3] + y[3] for c in "abcdefghijklmnopqrstuvwxyz"):
                return "?"
            return "no"
        if x[1][0] in "qr":
            return x[1]
        return "yes"
    return "no"


def disjoint(a, b):
    """'yes', 'no' or '?' for segs of two iterations"""
    parts, unsure = set(), False
    for p, q in zip(a, b):
        if p[0] == "f" and q[0] == "f":
            if p[1] != q[1]:
                return "yes"
        elif p[0] == "s" and q[0] == "s":
            d = sub_disjoint(p[1], q[1])
            if d == "yes":
                return "yes"
            if d == "?":
                unsure = True
            elif d[0] in "qr" and d != "no":
                parts.add(d)
                o = ("r" if d[0] == "q" else "q") + d[1:]
                if o in parts:
                    return "yes"
        else:
            f = p if p[0] == "f" else q
            if f[1] == "#size":
                return "yes"
            unsure = True
    return "?" if unsure else "no"


def show(root, segs):
    s = {"this": "this", "v": "", "g": "", "p": ""}.get(root[0], "")
    s = s or str(root[-1])
    for k, x in segs:
        if k == "f":
            s += "" if x == "*" else "." + str(x)
        else:
            s += "[%s]" % shown(x)
    return s.replace("this.", "")


def shown(x):
    if x[0] in "KU":
        return txt(x)
    if x[0] == "A":
        return "any"
    if x[0] == "X":
        return "?"
    if x[0] in "BE":
        return {"B": "begin", "E": "end"}[x[0]]
    n = {"i": "index", "t": "thread"}.get(
        x[1], "index / " + x[1][2:] if x[1][0] == "q" else
        "index % " + x[1][2:])
    if x[2] != "1":
        n += "*" + x[2]
    return n + ("" if x[3] in ("", "blk") else " " + x[3])


class Acc:
    __slots__ = ("kind", "root", "segs", "locks", "guard", "where", "fn")

    def __init__(self, kind, root, segs, locks, guard, where, fn):
        self.kind, self.root, self.segs, self.locks, self.guard, self.where, \
            self.fn = kind, root, segs, locks, guard, where, fn

    def key(self):
        return (self.kind, self.root, self.segs, self.locks, self.guard,
                self.where)


# ---- library vocabulary -----------------------------------------------------
ELEMENT = set("operator[] operator() at row col column xyPlane yzPlane "
              "unchecked periodic element in_bounds".split())
FIRST = set("data begin cbegin storage rbegin linear_begin DataBegin "
            "cbegin getStorage".split())
LAST = set("end cend rend linear_end DataEnd".split())
SAME = set("get operator* operator-> value derived ref reference "
           "nonDegenerate reform addDegenerate".split())
SIZES = set("size shape empty nelements ndim nrow ncol capacity length "
            "dimension dim max_size has_value isNull is_open nrows shapes "
            "strides stride rank conform".split())
MUTATE = set("push_back emplace_back push_front insert emplace erase clear "
             "resize assign fill reserve pop_back pop push swap reset "
             "append set add increment start stop shrink_to_fit "
             "insert_or_assign try_emplace merge replace put "
             "putColumn putCell".split())
ATOMIC = ("std::atomic", "std::mutex", "std::recursive_mutex",
          "std::shared_mutex", "std::condition_variable", "aocommon::Lane",
          "aocommon::Logger", "schaapcommon::ThreadPool", "std::once_flag",
          "std::atomic_flag", "schaapcommon::RecursiveFor",
          "aocommon::lane_write_buffer")
LOCKS = ("std::lock_guard", "std::unique_lock", "std::scoped_lock",
         "std::shared_lock")
DEEP = ("std::vector", "std::array", "std::string", "std::basic_string",
        "std::complex", "std::map", "std::set", "std::deque", "std::list",
        "std::unordered_map", "std::unordered_set", "xt::xtensor",
        "xt::xarray", "aocommon::xt::UTensor", "xt::xtensor_fixed",
        "std::valarray", "std::bitset", "aocommon::Mat", "aocommon::MatD",
        "casacore::IPosition", "std::optional")
SMART = ("std::unique_ptr", "std::shared_ptr", "std::optional")
VIEWS = ("casacore::Array", "casacore::Cube", "casacore::Matrix",
         "casacore::Vector", "std::span", "aocommon::xt::Span",
         "xt::xtensor_adaptor", "xt::xview", "lax::Any", "std::function",
         "std::reference_wrapper")
# std algorithms: positions of (range begin, end) pairs read, positions of
# output iterators written, pairs written in place
ALGO = {
    "copy": ([(0, 1)], [2], []), "copy_n": ([(0, None)], [2], []),
    "copy_backward": ([(0, 1)], [2], []), "move": ([(0, 1)], [2], []),
    "copy_if": ([(0, 1)], [2], []),
    "fill": ([], [], [(0, 1)]), "fill_n": ([], [0], []),
    "iota": ([], [], [(0, 1)]), "generate": ([], [], [(0, 1)]),
    "sort": ([], [], [(0, 1)]), "stable_sort": ([], [], [(0, 1)]),
    "nth_element": ([], [], [(0, 2)]), "partial_sort": ([], [], [(0, 2)]),
    "reverse": ([], [], [(0, 1)]), "replace": ([], [], [(0, 1)]),
    "rotate": ([], [], [(0, 2)]), "unique": ([], [], [(0, 1)]),
    "remove": ([], [], [(0, 1)]), "remove_if": ([], [], [(0, 1)]),
    "accumulate": ([(0, 1)], [], []), "count": ([(0, 1)], [], []),
    "count_if": ([(0, 1)], [], []), "find": ([(0, 1)], [], []),
    "find_if": ([(0, 1)], [], []), "any_of": ([(0, 1)], [], []),
    "all_of": ([(0, 1)], [], []), "none_of": ([(0, 1)], [], []),
    "max_element": ([(0, 1)], [], []), "min_element": ([(0, 1)], [], []),
    "lower_bound": ([(0, 1)], [], []), "upper_bound": ([(0, 1)], [], []),
    "equal": ([(0, 1)], [], []), "partial_sum": ([(0, 1)], [2], []),
    "inner_product": ([(0, 1)], [], []), "for_each": ([], [], [(0, 1)]),
    "adjacent_find": ([(0, 1)], [], []), "mismatch": ([(0, 1)], [], []),
    "memcpy": ([], [0], []), "memset": ([], [0], []),
    "memmove": ([], [0], []),
}
UNSAFE = set("strtok localtime gmtime asctime ctime strerror "
             "drand48 lgamma setenv".split())
PURE = set("min max abs sqrt norm conj real imag arg polar exp log pow "
           "isfinite isnan floor ceil round sin cos tan atan2 hypot "
           "make_pair make_tuple to_string lround fabs fmod log10 clamp "
           "sincos isFinite isNaN square isinf".split())
RUNS = set("Run ConstrainedRun RunStaticFor RunConstrainedStaticFor "
           "NestedRun NestedConstrainedRun StartParallelExecution "
           "ExecuteInParallel".split())


def last(qn):
    d, out = 0, []
    i = len(qn)
    # name after the last '::' outside template arguments
    for j in range(len(qn) - 1, -1, -1):
        c = qn[j]
        if c == ">" and not qn.endswith(("->", "operator>", ">=")):
            d += 1
        elif c == "<" and d:
            d -= 1
        elif c == ":" and d == 0:
            i = j + 1
            return qn[i:]
    return qn


def plain(q):
    """a qualified name without template arguments"""
    out, d = "", 0
    for c in q:
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif not d:
            out += c
    return out


def rec(t):
    return t.get("rec") if t else None


class Frame:
    def __init__(self, fn, this, depth):
        self.fn, self.this, self.depth = fn, this, depth
        self.env, self.names = {}, {}
        self.ret = None
        self.mods = modified(fn)
        self.body = None


def modified(fn):
    """variables changed after their declaration"""
    if "_mods" in fn:
        return fn["_mods"]
    m = {}
    for n in walk(fn.get("body") or {}):
        k = n.get("k")
        t = None
        if k == "un" and n["op"] in ("++", "p++"):
            t, how = n["c"][0], "inc"
        elif k == "un" and n["op"] in ("--", "p--"):
            t, how = n["c"][0], "set"
        elif k == "asg":
            t, how = n["c"][0], ("add" if n["op"] == "+=" else "set")
            one = n["c"][1]
            if n["op"] == "=":
                # i = i + 1
                one = peel(one)
                one = one["c"][1] if one.get("k") == "bin" and \
                    one["op"] == "+" and peel(one["c"][0]).get("d") == \
                    peel(t).get("d") and peel(t).get("k") == "ref" else {}
            if one.get("cv") == "1" and n["op"] in ("+=", "="):
                how = "inc"
        elif k == "opcall" and n.get("op") in ("++", "--", "+=", "-=", "="):
            t, how = n["c"][0], "inc" if n["op"] == "++" else "set"
        elif k in ("call", "mcall", "construct"):
            c = n.get("c", ())
            off = 1 if k == "mcall" else 0
            for i, p in enumerate(n.get("pm", "")):
                if p == "r" and i + off < len(c) and \
                        c[i + off].get("k") == "ref":
                    if n.get("repo") or k == "call" and not \
                            n.get("fn", "").startswith(("lax::", "xt::")):
                        m.setdefault(c[i + off].get("d"), set()).add("arg")
            continue
        if t is not None:
            while t.get("k") == "cast" and t.get("c"):
                t = t["c"][0]
            if t.get("k") == "ref":
                m.setdefault(t.get("d"), set()).add(how)
    fn["_mods"] = m
    return m


class Region:
    """One parallel loop."""
    MAXDEPTH = 9
    MAXSTEPS = 400000

    def __init__(self, prog, fn):
        self.prog, self.fn = prog, fn
        self.accs, self.seen = [], set()
        self.rec = False
        self.locks, self.guard = frozenset(), frozenset()
        self.stack = []
        self.done = {}
        self.fns = set()
        self.notes = set()
        self.pts = {}
        self.nid = 0
        self.steps = 0
        self.calls = 0
        self.outer = Frame(fn, V(locs=[(("this",), (), "addr")]), 0)
        for p in fn.get("params", ()):
            self.param(self.outer, p, None)

    # -- set up
    def param(self, fr, p, v):
        if v is None:
            v = V(U(p.get("n") or "?"), [(("p", p.get("n") or "?"), (),
                                          None)])
            t = fr.fn.ty(p.get("t"))
            if t.get("k") == "ptr":
                v = V(X, [(("p", p.get("n") or "?"), (), K(0))])
        fr.env[p["d"]] = v
        fr.names[p.get("n")] = v

    def prepare(self, stop):
        """the variables that the loop body finds in its surroundings"""
        body = self.fn.get("body")
        self.outer_decls(body)

    def outer_decls(self, body):
        fr = self.outer
        for n in walk(body):
            if n.get("k") == "decl":
                for v in n["vars"]:
                    if v.get("k") in ("static_assert", "type"):
                        continue
                    self.bind(v, fr, outer=True)
            elif n.get("k") == "forrange" and n.get("var"):
                v = n["var"]
                val = self.ex(n["range"], fr)
                if v.get("ref"):
                    e = V(U(v.get("n")), sub(val.locs, [U("e")]))
                else:
                    e = V(U(v.get("n")), [(("v", v.get("n")), (), None)])
                fr.env[v["d"]] = e
                fr.names[v.get("n")] = e
            if n.get("k") == "lambda":
                pass

    def bind(self, v, fr, outer=False):
        t = fr.fn.ty(v.get("t"))
        init = v.get("init")
        name = v.get("n") or "?"
        val = self.ex(init, fr) if init is not None else None
        k = t.get("k")
        mods = fr.mods.get(v.get("d"))
        # a loop body changes what it captures by reference: by name, since
        # the declarations of template instances are numbered differently
        if v.get("ref") and val is not None:
            res = V(val.num, val.locs, val.items, val.lam)
            if mods and mods & {"inc", "set", "add", "arg"}:
                res.num = A if not outer else U(name)
        elif k in ("int", "float", "bool", "enum"):
            root = ("v", name) if outer else ("l", self.nid, v.get("d"))
            num = val.num if val is not None else X
            if outer:
                num = num if num[0] == "K" and not mods else U(name)
            elif mods:
                num = self.stepped(v, val, mods, fr)
            res = V(num, [(root, (), None)])
        elif k == "ptr":
            locs = val.locs if val is not None else ()
            if mods and not outer:
                locs = frozenset((r, s, walked(o, mods) if o is not None
                                  and mods != {"set"} else o)
                                 for r, s, o in locs)
            if outer and not locs:
                locs = [(("v", name), (), K(0))]
            res = V(X, locs)
        else:
            root = ("v", name) if outer else ("l", self.nid, v.get("d"))
            own = (root, (), None)
            if v.get("static") and not t.get("const"):
                own = (("g", name), (), None)
            r = rec(t) or ""
            if val is not None and val.lam:
                res = val
            elif r in DEEP or k == "arr" or val is None:
                res = V(X, [own], val.items if val is not None else None)
                if val is not None:
                    self.store(own, val)
            elif r in SMART:
                # what the pointer was made from
                res = V(X, [own] if not val.locs or not any(
                    o is not None or local(x) for x, s, o in val.locs)
                    else [own])
                self.store(own, val)
            elif r in self.prog.recs:
                res = V(X, [own])
                self.store(own, val, r)
                if val.items is not None:
                    res.items = val.items
            else:
                num = val.num
                if outer and num[0] not in "KU":
                    num = U(name)
                alias = val.locs
                if not alias:
                    alias = [own]
                res = V(num, alias, val.items)
        fr.env[v["d"]] = res
        fr.names[name] = res

    def stepped(self, v, val, mods, fr):
        """a counter: index of the chunk when it runs from its begin to its
        end, otherwise any value"""
        start = val.num if val is not None else X
        if start == B:
            return self.ran(mods, self.ends_at_end(v.get("d"), fr))
        if start[0] == "X" and "arg" not in mods:
            return A
        return walked(start, mods)

    def ran(self, mods, ends):
        """a counter that starts at the begin of the chunk"""
        if mods == {"inc"} and ends:
            return I()
        return A if mods == {"inc"} and ends is False else X

    def ends_at_end(self, d, fr):
        """does every loop whose condition tests the variable stop at the end
        of the chunk; None if unknown"""
        tests = 0
        for n in walk(fr.body or fr.fn.get("body") or {}):
            if n.get("k") in ("for", "while", "do") and n.get("cond"):
                for c in conjuncts(n["cond"]):
                    if c.get("k") != "bin" or len(c.get("c", ())) != 2:
                        continue
                    l, r = peel(c["c"][0]), peel(c["c"][1])
                    op = c["op"]
                    if r.get("k") == "ref" and r.get("d") == d:
                        l, r = r, l
                        op = {"<": ">", ">": "<", "<=": ">=",
                              ">=": "<="}.get(op, op)
                    if l.get("k") == "ref" and l.get("d") == d:
                        tests += 1
                        e = self.ex(r, fr, quiet=True).num
                        if e != E_ or op not in ("<", "!=", "<="):
                            return None
                        if op == "<=":
                            return False
        return True if tests else None

    # -- recording
    def note(self, kind, locs, n, fr):
        if not self.rec:
            return
        for r, s, off in locs:
            if local(r) or off is not None:
                continue
            a = Acc(kind, r, s, self.locks, self.guard,
                    fr.fn.where(n) if "l" in n else fr.fn.where(), fr.fn)
            if a.key() not in self.seen:
                self.seen.add(a.key())
                self.accs.append(a)

    def atomic(self, n, fr):
        t = fr.fn.ty(n.get("t")) if isinstance(n.get("t"), int) else {}
        r = rec(t) or (rec(fr.fn.ty(t["p"])) if t.get("k") == "ptr" and
                       isinstance(t.get("p"), int) else "") or ""
        s = t.get("s", "")
        return r.startswith(ATOMIC) or any(
            s.replace("const ", "").startswith(a) for a in ATOMIC)

    def store(self, own, val, r=None):
        """a local object is made from a value"""
        flds = self.prog.recs.get(r, {}).get("fields") if r else None
        if flds and val.items is not None and len(val.items) > 1:
            for f, v in zip(flds, val.items):
                self.keep((own[0], f["n"]), v.locs)
            return
        self.keep((own[0], None), val.locs)

    def keep(self, key, locs):
        locs = {x for x in locs if not any(
            y == ("f", "#size") for y in x[1]) and x[0] != key[0]}
        if locs:
            self.pts.setdefault(key, set()).update(locs)

    def hold(self, loc, locs):
        """a (member of a) local object is made to refer to something"""
        f = next((x[1] for x in loc[1] if x[0] == "f"), None)
        self.keep((loc[0], f), locs)

    def content(self, root, f=None, alias=True, seen=()):
        """what (a member of) a local object refers to"""
        res = set(self.pts.get((root, f), ()))
        if f is not None:
            for x in self.pts.get((root, None), ()):
                if local(x[0]):
                    if x[0] not in seen:
                        res |= self.content(x[0], f, alias,
                                            seen + (root, x[0]))
                elif alias:
                    y = target([x]) if x[2] is not None else [x]
                    res |= fields(y, f)
        return res

    def aliasing(self, t, types=None, depth=0):
        """do copies of a value of the type refer to the same memory"""
        if not isinstance(t, dict) or depth > 4:
            return False
        k = t.get("k")
        if k in ("ptr", "ref", "rref"):
            return True
        r = t.get("rec") or ""
        if k != "rec":
            return False
        if r.startswith(VIEWS) or r in SMART:
            return True
        if r in DEEP:
            return any(self.aliasing(types[a], types, depth + 1)
                       for a in t.get("targs", ()) if isinstance(a, int))
        rr = self.prog.recs.get(r)
        if rr is None:
            return False
        if "_alias" not in rr:
            rr["_alias"] = False
            rr["_alias"] = any(self.aliasing(
                rr["_types"][x["t"]], rr["_types"], depth + 1)
                for x in rr.get("fields", ()) if isinstance(x["t"], int))
        return rr["_alias"]

    def is_pointer(self, n, fr):
        t = peel(n).get("t")
        return isinstance(t, int) and fr.fn.ty(t).get("k") == "ptr"

    def scalar(self, n, fr):
        n = peel(n)
        t = n.get("t")
        return isinstance(t, int) and fr.fn.ty(t).get("k") in (
            "int", "float", "bool", "enum")

    # -- statements
    def run_lambda(self, lam, fr, args):
        """evaluates a lambda body in its surroundings"""
        ln, lfr = lam
        body = ln.get("body")
        if not body:
            self.notes.add("body of a lambda is not available")
            return NONE
        f = Frame(lfr.fn, lfr.this, fr.depth)
        f.body = body
        f.env = dict(lfr.env)
        f.names = dict(lfr.names)
        f.mods = lfr.mods
        for p, a in zip(ln.get("params", ()), args):
            m = lfr.mods.get(p["d"]) or self.lam_mods(ln).get(p["d"])
            v = a
            t = lfr.fn.ty(p.get("t"))
            if m and t.get("k") in ("int",) and not p.get("ref"):
                if a.num == B:
                    v = V(self.ran(m, self.ends_param(p["d"], ln, f, args)),
                          a.locs)
                else:
                    v = V(A, a.locs)
            f.env[p["d"]] = v
            f.names[p.get("n")] = v
        f.mods = dict(lfr.mods)
        f.mods.update(self.lam_mods(ln))
        for n in walk(body):
            if n.get("k") == "ref" and n.get("cap") and \
                    n.get("d") not in f.env and n.get("n") in lfr.names:
                f.env[n["d"]] = lfr.names[n["n"]]
        self.block(body, f)
        return f.ret or NONE

    def lam_mods(self, ln):
        if "_lm" not in ln:
            ln["_lm"] = modified({"body": ln.get("body")})
        return ln["_lm"]

    def ends_param(self, d, ln, f, args):
        for p, a in zip(ln.get("params", ()), args):
            f.env[p["d"]] = a
        return self.ends_at_end(d, f)

    def block(self, n, fr):
        if n is None:
            return
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise TooMuch()
        k = n.get("k")
        m = getattr(self, "st_" + str(k), None)
        if m:
            return m(n, fr)
        self.ex(n, fr)

    def st_block(self, n, fr):
        locks, guard = self.locks, self.guard
        for c in n.get("c", ()):
            self.block(c, fr)
        self.locks, self.guard = locks, guard

    def st_decl(self, n, fr):
        for v in n["vars"]:
            if v.get("k") in ("static_assert", "type"):
                continue
            t = fr.fn.ty(v.get("t"))
            if (rec(t) or "").startswith(LOCKS) or \
                    t.get("s", "").startswith(LOCKS):
                val = self.ex(v.get("init"), fr) if v.get("init") else NONE
                new = self.lock_ids(val.locs)
                for i in val.items or ():
                    new |= self.lock_ids(i.locs)
                self.locks = self.locks | new
                fr.env[v["d"]] = V(X, [(("l", 0, v["d"]), (), None)],
                                   [V(X, val.locs)])
                fr.names[v.get("n")] = fr.env[v["d"]]
                continue
            self.nid += 1
            self.bind(v, fr)
            self.bindings(v, fr)

    def lock_ids(self, locs):
        return frozenset((r, s) for r, s, o in locs
                         if not local(r) and not any(
                             x[0] == "s" and varies(x[1]) for x in s))

    def bindings(self, v, fr):
        val = fr.env[v["d"]]
        for i, b in enumerate(v.get("bind", ())):
            if "d" in b:
                fr.env[b["d"]] = V(A, fields(val.locs, "#%d" % i))
                fr.names[b.get("n")] = fr.env[b["d"]]

    def st_if(self, n, fr):
        locks, guard = self.locks, self.guard
        if n.get("init"):
            self.block(n["init"], fr)
        if n.get("cvar"):
            self.bind(n["cvar"], fr)
        known, yes, no = None, frozenset(), frozenset()
        if n.get("cond") is not None:
            v = self.rd(n["cond"], fr)
            known = v.num[1] if v.num[0] == "K" else None
            g = self.single(n["cond"], fr)
            if g is not None:
                yes = frozenset([("one",) + g])
            if v.num[0] == "U":
                yes |= frozenset([("alt", v.num[1], (1,))])
                no = frozenset([("alt", v.num[1], (0,))])
        if known != 0:
            self.guard = guard | yes
            self.block(n.get("then"), fr)
        if not known:
            self.guard = guard | no
            self.block(n.get("else"), fr)
        self.guard = guard
        self.locks = locks

    def single(self, cond, fr):
        """a test that holds in one iteration only"""
        for c in conjuncts(cond):
            if c.get("k") == "bin" and c["op"] == "==":
                a = self.ex(c["c"][0], fr, quiet=True).num
                b = self.ex(c["c"][1], fr, quiet=True).num
                if a[0] in "KU":
                    a, b = b, a
                a = as_index(a)
                if a[0] == "I" and a[1] in "it" and b[0] in "KU":
                    return (a, b)
        return None

    def st_for(self, n, fr):
        locks = self.locks
        self.block(n.get("init"), fr)
        if n.get("cvar"):
            self.bind(n["cvar"], fr)
        if n.get("cond") is not None:
            self.rd(n["cond"], fr)
        self.block(n.get("body"), fr)
        if n.get("inc") is not None:
            self.ex(n["inc"], fr)
        self.locks = locks

    def st_while(self, n, fr):
        locks = self.locks
        if n.get("cvar"):
            self.bind(n["cvar"], fr)
        if n.get("cond") is not None:
            self.rd(n["cond"], fr)
        self.block(n.get("body"), fr)
        self.locks = locks

    st_do = st_while

    def st_forrange(self, n, fr):
        val = self.rd(n["range"], fr)
        v = n["var"]
        self.nid += 1
        el = sub(val.locs, [A])
        t = fr.fn.ty(v.get("t"))
        if v.get("ref") or t.get("k") == "ptr" or \
                (rec(t) or "") not in DEEP and t.get("k") not in (
                    "int", "float", "bool", "enum"):
            res = V(A, el)
        else:
            self.note("R", el, n, fr)
            res = V(A, [(("l", self.nid, v["d"]), (), None)])
        fr.env[v["d"]] = res
        fr.names[v.get("n")] = res
        self.bindings(v, fr)
        self.block(n.get("body"), fr)

    def st_switch(self, n, fr):
        v = self.rd(n["cond"], fr)
        body = n.get("body") or {}
        guard, labels = self.guard, []
        if v.num[0] != "U" or body.get("k") != "block":
            self.block(body, fr)
            return
        for c in body.get("c", ()):
            while c and c.get("k") in ("case", "default"):
                labels.append(str(self.ex(c.get("v"), fr, quiet=True).num)
                              if c.get("v") else "default")
                c = (c.get("c") or [None])[0]
            self.guard = guard | frozenset(
                [("alt", v.num[1], tuple(labels))])
            self.block(c, fr)
            if c and c.get("k") in ("break", "return"):
                labels = []
        self.guard = guard

    def st_case(self, n, fr):
        for c in n.get("c", ()):
            self.block(c, fr)

    st_default = st_case

    def st_return(self, n, fr):
        for c in n.get("c", ()):
            v = self.ex(c, fr)
            t = fr.fn.ty(fr.fn.get("ret")) if fr.body is None else {}
            if t.get("k") in ("int", "float", "bool", "enum") or \
                    t.get("k") == "rec" and (rec(t) in DEEP or
                                             rec(t) in self.prog.recs):
                self.note("R", v.locs, n, fr)
            fr.ret = v if fr.ret is None else fr.ret.join(v)

    def st_try(self, n, fr):
        self.block(n.get("body"), fr)
        for h in n.get("handlers", ()):
            self.block(h.get("body") if isinstance(h, dict) else None, fr)

    def st_break(self, n, fr):
        pass

    st_continue = st_nop = st_break

    # -- expressions
    def rd(self, n, fr):
        """evaluates for the value: what it denotes is read"""
        v = self.ex(n, fr)
        self.note("R", v.locs, n, fr)
        return v

    def ex(self, n, fr, quiet=False):
        if n is None:
            return NONE
        if quiet:
            r, self.rec = self.rec, False
            try:
                return self.ex(n, fr)
            finally:
                self.rec = r
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise TooMuch()
        if n.get("cv") is not None and n.get("k") not in ("call", "mcall"):
            try:
                return V(K(int(n["cv"])))
            except ValueError:
                pass
        m = getattr(self, "ex_" + str(n.get("k")), None)
        if m:
            return m(n, fr)
        for c in n.get("c", ()):
            if isinstance(c, dict):
                self.rd(c, fr)
        return NONE

    def ex_decl(self, n, fr):
        self.st_decl(n, fr)
        return NONE

    def ex_block(self, n, fr):
        self.st_block(n, fr)
        return NONE

    def ex_int(self, n, fr):
        return V(X)

    def ex_null(self, n, fr):
        return NONE

    def ex_this(self, n, fr):
        return fr.this

    def ex_ref(self, n, fr):
        d = n.get("d")
        if d in fr.env:
            return fr.env[d]
        dk = n.get("dk")
        name = n.get("n") or "?"
        if n.get("cap") or dk in ("var", "parm", "binding"):
            if name in fr.names:
                return fr.names[name]
        if dk in ("global", "smember", "slocal"):
            t = fr.fn.ty(n.get("t"))
            if t.get("const") or n.get("const"):
                return V(U(name))
            return V(U(name), [(("g", name), (), None)])
        if dk == "enumc":
            return V(U(name))
        return V(X)

    def ex_mem(self, n, fr):
        if n.get("dk") in ("smember", "fn"):
            for c in n.get("c", ()):
                self.ex(c, fr)
            if n.get("dk") == "fn":
                return NONE
            return V(U(n.get("n")), [(("g", n.get("n")), (), None)])
        base = self.ex(n["c"][0], fr) if n.get("c") else fr.this
        return self.member(base, n, fr)

    def member(self, base, n, fr):
        f = n.get("f")
        locs = base.locs
        if n.get("arrow") or any(o is not None for r, s, o in locs):
            locs = target(locs)
        out = fields(locs, f)
        t = fr.fn.ty(n.get("t")) if isinstance(n.get("t"), int) else {}
        isp = t.get("k") == "ptr"
        ref = n.get("ref")
        res = set()
        for r, s, o in out:
            if local(r):
                if isp or ref or t.get("k") not in (
                        "int", "float", "bool", "enum"):
                    first = next((x[1] for x in s if x[0] == "f"), None)
                    alias = isp or ref or self.aliasing(t, fr.fn.types)
                    for y in self.content(r, first, alias):
                        if s[-1] != ("f", first) and y[2] is None:
                            y = (y[0], y[1] + (s[-1],), None)
                        res.add(y)
                res.add((r, s, K(0) if isp else None))
            else:
                res.add((r, s, K(0) if isp else None))
        num = X
        if t.get("k") in ("int", "enum", "bool", "float") or True:
            if all(not any(x[0] == "s" and varies(x[1]) for x in s)
                   and not local(r) for r, s, o in out) and len(out) == 1:
                r, s, o = next(iter(out))
                num = U(show(r, s))
            elif out and not all(local(r) for r, s, o in out):
                num = A
        return V(num, res)

    def ex_depmem(self, n, fr):
        base = self.ex(n["c"][0], fr) if n.get("c") else fr.this
        return self.member(base, n, fr)

    def ex_unres(self, n, fr):
        for c in n.get("c", ()):
            self.ex(c, fr)
        return NONE

    def ex_cast(self, n, fr):
        c = n.get("c") or ()
        return self.ex(c[0], fr) if c else NONE

    def ex_un(self, n, fr):
        op = n["op"]
        c = n["c"][0]
        v = self.ex(c, fr)
        if op == "&":
            return V(X, pointer(v.locs, "addr"))
        if op == "*":
            return V(A, target(v.locs))
        if op in ("++", "p++", "--", "p--"):
            if not self.atomic(c, fr):
                self.note("W", v.locs, n, fr)
            if any(o is not None for r, s, o in v.locs):
                return V(A, moved(v.locs, A))
            return V(v.num, v.locs)
        self.note("R", v.locs, n, fr)
        if op == "!" and v.num[0] == "K":
            return V(K(int(not v.num[1])))
        if op == "-" and v.num[0] == "K":
            return V(K(-v.num[1]))
        return V(v.num if v.num[0] in "X" else
                 (U("-" + txt(v.num)) if v.num[0] in "KU" else A))

    def ex_bin(self, n, fr):
        a, b = self.rd(n["c"][0], fr), self.rd(n["c"][1], fr)
        return self.arith(n["op"], a, b)

    def arith(self, op, a, b):
        pa = any(o is not None for r, s, o in a.locs)
        pb = any(o is not None for r, s, o in b.locs)
        if op in "+-" and (pa or pb) and not (pa and pb):
            if pa:
                return V(X, moved(frozenset(
                    x for x in a.locs if x[2] is not None), b.num, op))
            return V(X, moved(frozenset(
                x for x in b.locs if x[2] is not None), a.num, op))
        f = {"+": add, "-": lambda x, y: add(x, y, "-"), "*": mul,
             "/": div, "%": mod}.get(op)
        if f:
            if pa and pb:
                return V(A)
            return V(f(a.num, b.num))
        if op == ",":
            return b
        x = (a.num, b.num)
        if all(y[0] in "KU" for y in x):
            return V(U("(%s%s%s)" % (txt(x[0]), op, txt(x[1]))))
        return V(X if X in x else A)

    def ex_asg(self, n, fr):
        return self.assign(n["c"][0], n["c"][1], n["op"], n, fr)

    def assign(self, l, r, op, n, fr):
        rv = self.rd(r, fr)
        lv = self.ex(l, fr)
        if self.atomic(l, fr):
            return lv
        pl = peel(l)
        t = fr.fn.ty(pl.get("t")) if isinstance(pl.get("t"), int) else {}
        if t.get("k") == "ptr":
            # the pointer itself changes
            own = frozenset((x, s, None) for x, s, o in lv.locs) \
                if pl.get("k") in ("mem", "idx", "depmem") else ()
            self.note("W", own, n, fr)
            if pl.get("k") == "ref" and pl.get("d") in fr.env and op == "=":
                fr.env[pl["d"]] = fr.env[pl["d"]].join(V(X, rv.locs))
            for x, s, o in lv.locs:
                if local(x):
                    self.hold((x, s, o), rv.locs)
            return lv
        if op != "=":
            self.note("R", lv.locs, n, fr)
        self.note("W", lv.locs, n, fr)
        for x, s, o in lv.locs:
            if local(x) and (self.is_pointer(r, fr) or
                             (rec(t) or "") != "lax::Any" and
                             self.aliasing(t, fr.fn.types)):
                self.hold((x, s, o), rv.locs)
        return lv

    def ex_recovery(self, n, fr):
        c = [x for x in n.get("c", ()) if isinstance(x, dict)]
        if n.get("op") and len(c) == 2:
            return self.assign(c[0], c[1], n["op"], n, fr)
        if c and c[0].get("k") in ("unres", "depmem", "depref"):
            return self.ex_icall(n, fr)
        if len(c) == 1:
            return self.ex(c[0], fr)
        if c and c[0].get("k") in ("ref", "mem", "recovery"):
            f = self.ex(c[0], fr)
            if f.lam:
                return self.run_lambda(f.lam, fr, [self.ex(x, fr)
                                                   for x in c[1:]])
            return self.element(f, [self.rd(x, fr) for x in c[1:]], n, fr)
        locs = set()
        for x in c:
            v = self.rd(x, fr)
            locs |= set(v.locs)
        return V(X, locs)

    def ex_idx(self, n, fr):
        a = self.ex(n["c"][0], fr)
        i = self.rd(n["c"][1], fr)
        return V(self.lookup(a, [i]), sub(a.locs, [i.num]))

    def lookup(self, a, idx):
        """a number read from an element"""
        if all(i.num[0] in "KU" for i in idx):
            n = self.named(a.locs)
            if n:
                return U("%s[%s]" % (n, ",".join(txt(i.num) for i in idx)))
        return A

    def named(self, locs):
        """name of something that is the same for all iterations"""
        if not locs or any(local(r) or any(
                x[0] == "s" and varies(x[1]) for x in s) for r, s, o in locs):
            return None
        return "|".join(sorted(show(r, s) for r, s, o in locs))

    def ex_cond(self, n, fr):
        c = n["c"]
        self.rd(c[0], fr)
        return self.ex(c[1], fr).join(self.ex(c[2], fr))

    def ex_str(self, n, fr):
        return V(U("text"))

    def ex_float(self, n, fr):
        return V(U("c"))

    def ex_lambda(self, n, fr):
        return V(X, lam=(n, fr))

    def ex_initlist(self, n, fr):
        items = [self.rd(c, fr) for c in n.get("c", ())]
        locs = set()
        for i in items:
            locs |= {x for x in i.locs if x[2] is not None}
        return V(items[0].num if len(items) == 1 else X, locs, items)

    ex_ParenListExpr = ex_initlist

    def ex_new(self, n, fr):
        for c in n.get("c", ()):
            self.ex(c, fr)
        self.nid += 1
        return V(X, [(("l", self.nid, "new"), (), K(0))])

    def ex_throw(self, n, fr):
        for c in n.get("c", ()):
            self.ex(c, fr)
        return NONE

    # -- calls
    def callee(self, n, fr):
        fid = n.get("fid")
        if not fid:
            return None
        f = self.prog.tu_fns.get((fr.fn.tu, fid)) or self.prog.fns.get(fid)
        if f is not None and f.get("body"):
            return f
        # the instance is not in the translation unit
        q = n.get("fn") or ""
        if n.get("repo") and "<" in q:
            nargs = len(n.get("c", ())) - (n.get("k") == "mcall")
            for g in self.prog.by_qn.get(plain(q), ()):
                if g.get("body") and len(g.get("params", ())) == nargs:
                    return g
        return None

    def ex_construct(self, n, fr):
        c = n.get("c", [])
        if (n.get("copy") or n.get("move")) and len(c) == 1:
            v = self.ex(c[0], fr)
            r = n.get("cls") or ""
            if r in DEEP or r in self.prog.recs and not n.get("move"):
                self.note("R", v.locs, n, fr)
            return v
        f = self.callee(n, fr)
        if n.get("repo") and f is not None:
            self.nid += 1
            own = (("l", self.nid, "obj"), (), None)
            args = [self.ex(x, fr) for x in c]
            self.enter(f, V(X, pointer([own], "addr")), args, n, fr)
            return V(X, {own})
        args = [self.ex(x, fr) for x in c]
        cls = n.get("cls") or ""
        if cls.startswith(LOCKS):
            return V(X, frozenset().union(*[a.locs for a in args]) if args
                     else (), args)
        for x, a in zip(c, args):
            if cls in DEEP or cls == "std::complex":
                self.note("R", a.locs, x, fr)
        if len(args) == 1 and cls in ("std::complex",):
            return V(args[0].num)
        locs = set()
        if cls not in DEEP:
            for a in args:
                locs |= set(a.locs)
        num = args[0].num if len(args) == 1 else X
        return V(num, locs, args if len(args) > 1 else None)

    def ex_unresctor(self, n, fr):
        args = [self.rd(x, fr) for x in n.get("c", ())]
        locs = set()
        for a in args:
            locs |= set(a.locs)
        return V(args[0].num if len(args) == 1 else X, locs,
                 args if len(args) > 1 else None)

    def ex_call(self, n, fr):
        self.calls += 1
        c = n.get("c", [])
        q = n.get("fn") or ""
        name = last(q)
        if name in RUNS:
            return self.nested(n, c, fr)
        f = self.callee(n, fr)
        if f is not None and (n.get("repo") or f["file"]):
            args = [self.ex(x, fr) for x in c]
            return self.enter(f, None, args, n, fr)
        return self.library(name, q, c, n, fr)

    def ex_mcall(self, n, fr):
        self.calls += 1
        c = n.get("c", [])
        q = n.get("fn") or ""
        name = last(q)
        if name in RUNS and any(x.get("k") == "lambda" or self.ex(
                x, fr, quiet=True).lam for x in c[1:]):
            return self.nested(n, c, fr)
        obj = self.ex(c[0], fr) if c else fr.this
        f = self.callee(n, fr)
        if f is not None:
            this = obj
            locs = frozenset((r, s, "addr" if o is None else o)
                             for r, s, o in obj.locs)
            args = [self.ex(x, fr) for x in c[1:]]
            over = self.overriders(f, n)
            if over is not None and len(over) > 3:
                for a, x in zip(args, c[1:]):
                    pass
                self.passed(args, c[1:], n, fr, n.get("pm", ""))
                if not n.get("cst"):
                    self.note("M", target(locs), n, fr)
                return V(X, target(locs))
            res = None
            for g in ([f] + (over or [])):
                r = self.enter(g, V(X, locs), args, n, fr)
                res = r if res is None else res.join(r)
            return res
        if n.get("repo"):
            # no body in reach
            args = [self.ex(x, fr) for x in c[1:]]
            self.passed(args, c[1:], n, fr, n.get("pm", ""))
            self.note("R" if n.get("cst") else "M",
                      as_objects(obj.locs), n, fr)
            return V(X, as_objects(obj.locs))
        return self.method(name, q, obj, c[0] if c else n, c[1:], n, fr)

    def overriders(self, f, n):
        if not f.get("virt"):
            return None
        res, todo = [], [f["fid"]]
        while todo:
            for o in self.prog.over.get(todo.pop(), ()):
                g = self.prog.fns.get(o)
                if g is not None and g.get("body") and g not in res:
                    res.append(g)
                    todo.append(o)
        return res

    def ex_opcall(self, n, fr):
        c = n.get("c", [])
        op = n.get("op")
        f = self.callee(n, fr)
        if op in ("=", "+=", "-=", "*=", "/=", "|=", "&=", "^=", "<<=",
                  ">>=") and len(c) == 2:
            if f is not None and n.get("repo") and op == "=" and \
                    not f.get("defaulted"):
                pass
            return self.assign(c[0], c[1], op, n, fr)
        if op in ("++", "--") and c:
            v = self.ex(c[0], fr)
            if any(o is not None for r, s, o in v.locs):
                return V(A, moved(v.locs, A))
            if not self.atomic(c[0], fr):
                self.note("W", v.locs, n, fr)
            return v
        if f is not None and n.get("repo") and op not in ("[]", "()") and \
                not f["fid"].startswith("lambda@"):
            args = [self.ex(x, fr) for x in c]
            if n.get("meth"):
                locs = frozenset((r, s, "addr" if o is None else o)
                                 for r, s, o in args[0].locs)
                return self.enter(f, V(X, locs), args[1:], n, fr)
            return self.enter(f, None, args, n, fr)
        if op == "()" and c:
            o = self.ex(c[0], fr)
            if o.lam:
                return self.run_lambda(o.lam, fr, [self.ex(x, fr)
                                                   for x in c[1:]])
            if f is not None and n.get("repo"):
                args = [self.ex(x, fr) for x in c[1:]]
                locs = frozenset((r, s, "addr" if q is None else q)
                                 for r, s, q in o.locs)
                return self.enter(f, V(X, locs), args, n, fr)
            return self.element(o, [self.rd(x, fr) for x in c[1:]], n, fr)
        if op == "[]" and c:
            o = self.ex(c[0], fr)
            if f is not None and n.get("repo"):
                args = [self.ex(x, fr) for x in c[1:]]
                locs = frozenset((r, s, "addr" if q is None else q)
                                 for r, s, q in o.locs)
                return self.enter(f, V(X, locs), args, n, fr)
            if (n.get("cls") or "") in ("std::map", "std::unordered_map") \
                    and not n.get("cst"):
                self.note("W", as_objects(o.locs), n, fr)
            idx = [self.rd(x, fr) for x in c[1:]]
            if (n.get("fn") or "").startswith(("std::vector<bool",
                                               "std::bitset<")):
                # neighbouring elements are bits of the same word
                idx = [V(A) for _ in idx]
            return self.element(o, idx, n, fr)
        if op in ("*", "->") and len(c) == 1:
            o = self.ex(c[0], fr)
            if any(x is not None for r, s, x in o.locs) and \
                    not (n.get("cls") or "").startswith(SMART):
                return V(A, target(o.locs) if op == "*" else o.locs)
            out = set()
            for r, s, x in o.locs:
                if local(r):
                    for y in self.content(r):
                        out.add((y[0], y[1], None) if y[2] is None else
                                next(iter(target([y]))))
                out.add((r, s + (("f", "*"),), None))
            return V(A, pointer(out, "addr") if op == "->" else out)
        args = [self.rd(x, fr) for x in c]
        if len(args) == 2 and op in ("+", "-", "*", "/", "%"):
            return self.arith(op, args[0], args[1])
        if op in ("<<", ">>") and args:
            return args[0]
        if len(args) == 2:
            return V(A if any(varies(a.num) for a in args) else X)
        return V(X)

    def element(self, o, idx, n, fr):
        nums = []
        for i in idx:
            if i.items is not None and len(i.items) > 1:
                nums += [j.num for j in i.items]
            else:
                nums.append(i.num)
        if not nums:
            return V(o.num, o.locs)
        locs = o.locs
        extra = set()
        for r, s, off in locs:
            if local(r):
                # elements of a local container of pointers or views
                extra |= set(self.content(r))
        return V(self.lookup(o, [V(x) for x in nums]),
                 set(sub(locs, nums)) | extra)

    def nested(self, n, c, fr):
        """a parallel loop inside the loop: any order"""
        vals = [self.ex(x, fr) for x in c]
        for v in vals:
            if v.lam:
                self.run_lambda(v.lam, fr, [V(A)] * len(
                    v.lam[0].get("params", ())))
        return NONE

    def passed(self, args, nodes, n, fr, pm):
        """arguments given to a function that is not followed"""
        for i, (a, x) in enumerate(zip(args, nodes)):
            p = pm[i] if i < len(pm) else "c"
            if a.lam:
                self.run_lambda(a.lam, fr, [V(A, A_elems(args))] * len(
                    a.lam[0].get("params", ())))
                continue
            self.note("R", a.locs, x, fr)
            if p in "p":
                self.note("M", sub(frozenset(
                    y for y in a.locs if y[2] is not None), [A]), x, fr)
            elif p == "r" and not (n.get("fn") or "").startswith(
                    ("lax::", "xt::", "std::", "casacore::", "aocommon::")):
                self.note("M", a.locs, x, fr)

    def library(self, name, q, c, n, fr):
        args = [self.ex(x, fr) for x in c]
        if name in UNSAFE and q in (name, "std::" + name):
            if self.rec:
                a = Acc("W", ("g", "state of %s()" % name), (), self.locks,
                        self.guard, fr.fn.where(n), fr.fn)
                if a.key() not in self.seen:
                    self.seen.add(a.key())
                    self.accs.append(a)
            return V(A)
        if q.startswith(("std::", "mem")) or q in ALGO:
            if name == "move" and len(args) == 1 or name in (
                    "forward", "as_const", "ref", "cref", "addressof"):
                if name == "addressof":
                    return V(X, pointer(args[0].locs, "addr"))
                return args[0]
            if name in ("begin", "cbegin", "data") and args:
                return V(X, pointer(as_objects(args[0].locs), K(0)))
            if name in ("end", "cend") and args:
                return V(X, pointer(as_objects(args[0].locs), U("size")))
            if name == "size" and args:
                self.note("R", fields(as_objects(args[0].locs), "#size"),
                          n, fr)
                return V(U("size"))
            if name in ("next", "prev", "advance") and args:
                return V(X, moved(args[0].locs, args[1].num if len(args) > 1
                                  else K(1)))
            if name in ("swap", "exchange"):
                for a, x in zip(args, c):
                    self.note("W" if name == "swap" or x is c[0] else "R",
                              a.locs, x, fr)
                return V(X, args[0].locs)
            if name == "transform":
                o = 3 if len(args) > 4 else 2
                if o >= len(args):
                    return NONE
                self.range_(args, 0, 1, "R", c, fr)
                if o == 3:
                    self.range_(args, 2, None, "R", c, fr)
                self.out(args, 0, 1, o, c, fr)
                self.lams(args, fr)
                return args[o]
            if name in ALGO and args:
                rd, outs, inplace = ALGO[name]
                for a, b in rd:
                    self.range_(args, a, b, "R", c, fr)
                for o in outs:
                    if o < len(args):
                        src = rd[0] if rd else (None, None)
                        self.out(args, src[0], src[1], o, c, fr)
                for a, b in inplace:
                    self.range_(args, a, b, "W", c, fr)
                self.lams(args, fr)
                return V(A, args[0].locs)
            if name in ("make_unique", "make_shared"):
                self.nid += 1
                own = (("l", self.nid, "obj"), (), None)
                made = self.made_by(n, fr)
                for a, x in zip(args, c):
                    self.note("R", a.locs, x, fr)
                    if not self.scalar(x, fr) and (made is None or len(
                            args) > 1 or self.aliasing(made[0], made[1])):
                        self.keep((own[0], None), a.locs)
                return V(X, [own])
            if name in ("get",) and args:
                return V(A, fields(args[0].locs, "#get"))
            if name == "tie":
                return V(X, frozenset().union(*[a.locs for a in args]))
        if name in PURE:
            for a, x in zip(args, c):
                self.note("R", a.locs, x, fr)
            if name in ("min", "max") and len(args) == 2:
                return V(join(args[0].num, args[1].num))
            return V(A if any(varies(a.num) for a in args) else X)
        if q.startswith("xt::") or q.startswith("aocommon::xt::"):
            return self.xtensor(name, args, c, n, fr)
        self.passed(args, c, n, fr, n.get("pm", ""))
        locs = set()
        for a in args:
            locs |= set(a.locs)
        return V(A if any(varies(a.num) for a in args) else X, locs)

    def xtensor(self, name, args, c, n, fr):
        if name in ("view", "strided_view", "dynamic_view") and args:
            nums = []
            for a in args[1:]:
                if a.items is not None and len(a.items) == 2 and \
                        a.num == X:
                    lo, hi = a.items[0].num, a.items[1].num
                    nums.append(self.span(lo, hi))
                elif a.num == X:
                    nums.append(A)
                else:
                    nums.append(a.num)
            return V(X, sub(args[0].locs, nums) if nums else args[0].locs)
        if name in ("range", "all", "newaxis", "keep", "drop", "ellipsis"):
            if name == "range" and len(args) == 2:
                return V(X, items=args)
            if name == "keep" and len(args) == 1:
                return args[0]
            return V(A)
        if name in ("row", "col") and len(args) == 2:
            if name == "row":
                return V(X, sub(args[0].locs, [args[1].num]))
            return V(X, sub(args[0].locs, [A, args[1].num]))
        for a, x in zip(args, c):
            self.note("R", a.locs, x, fr)
        self.lams(args, fr)
        locs = set()
        if name in ("noalias", "flatten", "adapt", "reshape_view", "ravel",
                    "CreateSpan", "squeeze", "transpose", "real", "imag",
                    "expand_dims", "index_view", "filter", "masked_view",
                    "broadcast", "cast", "view", "eval", "nonzero", "flip"):
            for a in args[:1]:
                locs |= set(a.locs)
            if name in ("adapt", "CreateSpan"):
                locs = set((r, s, None) if o in (None, "addr", K(0)) else
                           (r, s + (("s", as_index(o)),), None)
                           for r, s, o in locs)
            elif name not in ("noalias", "real", "imag", "eval"):
                locs = set((r, s + (("f", "~" + name),), o)
                           for r, s, o in locs)
        return V(X, locs)

    def span(self, lo, hi):
        if lo == B:
            return I() if hi == E_ else A
        if lo[0] == "I" and hi[0] == "I" and lo[1] == hi[1]:
            if lo[2] == hi[2] != "1":
                return I(lo[1], lo[2], "blk")
            if lo[2] == "1" and hi[3] in ("+1",) and lo[3] == "":
                return lo
            return A
        if lo[0] in "KU" and hi[0] in "KU":
            return A
        return A

    def lams(self, args, fr):
        for a in args:
            if a.lam:
                self.run_lambda(a.lam, fr, [V(A, A_elems(args))] * len(
                    a.lam[0].get("params", ())))

    def range_(self, args, i, j, kind, c, fr):
        if i is None or i >= len(args):
            return
        a = args[i]
        ends = args[j].locs if j is not None and j < len(args) else None
        self.note(kind, self.ranged(a.locs, ends), c[i], fr)

    def ranged(self, locs, ends):
        """elements of [locs, ends)"""
        res = set()
        for r, s, off in locs:
            if off is None:
                res.add((r, s, None))
                continue
            if off == "addr":
                if s and s[-1][0] == "s":
                    off, s = s[-1][1], s[:-1]
                else:
                    res.add((r, s, None))
                    continue
            hi = None
            for r2, s2, o2 in ends or ():
                if r2 == r and s2 == s:
                    hi = o2
                elif o2 == "addr" and r2 == r and s2[:-1] == s and s2:
                    hi = s2[-1][1]
            if off == B or off == I():
                n = I() if hi == E_ or hi == I("i", "1", "+1") else A
            elif off[0] == "I" and off[2] != "1":
                n = I(off[1], off[2], "blk")
            elif off[0] == "X":
                n = X
            else:
                n = A
            res.add((r, s + (("s", n),), None))
        return frozenset(res)

    def out(self, args, i, j, o, c, fr):
        """an output range, as long as the input range"""
        locs = args[o].locs
        res = set()
        src = args[i] if i is not None and i < len(args) else None
        chunk = False
        if src is not None and j is not None and j < len(args):
            for r, s, off in src.locs:
                for r2, s2, o2 in args[j].locs:
                    if r2 == r and s2 == s and off == B and o2 == E_:
                        chunk = True
        elif o + 1 < len(args) or i is not None:
            cnt = args[1].num if len(args) > 1 else X
            chunk = False
        for r, s, off in locs:
            if off is None:
                res.add((r, s, None))
                continue
            if off == "addr":
                if s and s[-1][0] == "s":
                    off, s = s[-1][1], s[:-1]
                else:
                    res.add((r, s, None))
                    continue
            if off in (B, I()):
                n = I() if chunk else A
            elif off[0] == "I" and (off[2] != "1" or
                                    off[3].startswith("low")):
                n = I(off[1], off[2], "blk") if off[2] != "1" else A
            elif off[0] == "X":
                n = X
            else:
                n = A
            res.add((r, s + (("s", n),), None))
        self.note("W", frozenset(res), c[o], fr)

    def method(self, name, q, obj, on, c, n, fr):
        """a method of a library class"""
        objs = as_objects(obj.locs)
        if self.atomic(on, fr) or any(q.startswith(a) for a in ATOMIC):
            for x in c:
                self.rd(x, fr)
            if name in ("lock", "unlock"):
                ids = self.lock_ids(objs)
                if obj.items:
                    ids = self.lock_ids(obj.items[0].locs)
                self.locks = self.locks | ids if name == "lock" else \
                    self.locks - ids
            return V(A)
        if q.startswith(LOCKS) or obj.items and name in ("lock", "unlock"):
            ids = self.lock_ids(obj.items[0].locs) if obj.items else \
                frozenset()
            if name == "lock":
                self.locks = self.locks | ids
            elif name == "unlock":
                self.locks = self.locks - ids
            return V(X)
        if name in ELEMENT and c:
            if name == "row":
                return V(X, sub(obj.locs, [self.rd(c[0], fr).num]))
            if name in ("col", "column"):
                return V(X, sub(obj.locs, [A, self.rd(c[0], fr).num]))
            return self.element(obj, [self.rd(x, fr) for x in c], n, fr)
        if name in FIRST and not c:
            return V(X, self.ptr_of(obj.locs, K(0)))
        if name in LAST and not c:
            return V(X, self.ptr_of(obj.locs, U("size")))
        if name in ("front", "back") and not c:
            return self.element(obj, [V(K(0) if name == "front" else
                                        U("last"))], n, fr)
        if name.startswith("operator ") and not c:
            self.note("R", obj.locs, n, fr)
            return obj
        if name in SAME and not c:
            if name == "get" and any((rec(fr.fn.ty(on.get("t"))) or ""
                                      ).startswith(s) for s in SMART):
                out = set()
                for r, s, x in obj.locs:
                    if local(r):
                        out |= set((a, b, "addr" if o is None else o)
                                   for a, b, o in self.content(r))
                    out.add((r, s + (("f", "*"),), "addr"))
                return V(X, out)
            return V(obj.num, obj.locs)
        args = [self.ex(x, fr) for x in c]
        if name in SIZES:
            for a, x in zip(args, c):
                self.note("R", a.locs, x, fr)
            self.note("R", fields(objs, "#size"), n, fr)
            nm = self.named(objs)
            if nm and all(a.num[0] in "KU" for a in args):
                num = U("%s.%s%s" % (nm, name, "".join(
                    txt(a.num) for a in args)))
            else:
                num = A if objs else X
            return V(num, fields(objs, "#size"))
        self.lams(args, fr)
        for a, x in zip(args, c):
            if not a.lam:
                self.note("R", a.locs, x, fr)
        if name in ("find", "count", "contains", "lower_bound",
                    "upper_bound") and "map" in q[:q.find("<")] + q[:24] \
                and len(args) == 1:
            self.note("R", fields(objs, "#size"), n, fr)
            key = args[0].num
            if key[0] not in "KU":
                key = U("key") if not args[0].locs or self.named(
                    args[0].locs) else A
            return V(A, pointer(sub(objs, [key]), "addr"))
        if name in MUTATE:
            self.note("W", objs, n, fr)
            for r, s, o in objs:
                if local(r):
                    for x, a in zip(c, args):
                        if not self.scalar(x, fr):
                            self.hold((r, s, o), a.locs)
            return V(X, objs)
        self.note("R" if n.get("cst") else "R", objs, n, fr)
        num = X
        if all(a.num[0] in "KU" for a in args) and len(objs) == 1:
            r, s, o = next(iter(objs))
            if not local(r) and not any(
                    y[0] == "s" and varies(y[1]) for y in s):
                num = U("%s.%s(%s)" % (show(r, s), name, ",".join(
                    txt(a.num) for a in args)))
        elif any(varies(a.num) for a in args):
            num = A
        if name == "AssignTo" and args:
            # the aocommon matrices: store the elements at the pointer
            self.note("W", target(args[0].locs), n, fr)
            return V(X)
        if name.startswith(("Make", "make", "Load", "Create", "copy", "Copy")):
            self.nid += 1
            return V(X, [(("l", self.nid, "made"), (), None)])
        locs = set(objs)
        for r, s, o in objs:
            if local(r):
                locs |= set(self.content(r))
        return V(num, locs)

    def ptr_of(self, locs, off):
        res = set()
        for r, s, o in locs:
            res.add((r, s, off))
            if local(r):
                for y in self.content(r):
                    if y[2] is None:
                        res.add((y[0], y[1], off))
                    else:
                        res.add(y)
        return frozenset(res)

    def ex_icall(self, n, fr):
        c = [x for x in n.get("c", ()) if isinstance(x, dict)]
        if not c:
            return NONE
        f = self.ex(c[0], fr)
        if f.lam:
            return self.run_lambda(f.lam, fr, [self.ex(x, fr)
                                               for x in c[1:]])
        h = peel(c[0])
        name = h.get("f")
        if name in RUNS:
            return self.nested(n, c[1:], fr)
        if h.get("k") in ("depmem", "unres") and name:
            if h.get("c"):
                obj = self.ex(h["c"][0], fr)
                locs = obj.locs
                if any(o == "addr" for r, s, o in locs):
                    locs = target(locs)
                cand = [g for g in self.prog.fns.values()
                        if g["name"] == name and g.get("cls") and
                        g.get("dep") and len(g.get("params", ())) ==
                        len(c) - 1] if not obj.locs else ()
                return self.method(name, "", V(obj.num, locs, obj.items),
                                   h["c"][0], c[1:], n, fr)
            # a member or function of the same template
            cls = fr.fn.get("cls")
            cand = [g for g in self.prog.by_qn.get("%s::%s" % (cls, name),
                                                   ())
                    if g.get("body") and len(g.get("params", ())) ==
                    len(c) - 1]
            if not cand:
                cand = [g for g in self.candidates(name, fr)
                        if len(g.get("params", ())) == len(c) - 1]
            if cand:
                dep = [g for g in cand if g.get("dep")] or cand
                args = [self.ex(x, fr) for x in c[1:]]
                return self.enter(dep[0], fr.this if dep[0].get("cls")
                                  else None, args, n, fr)
            return self.library(name, "std::" + name if name in ALGO
                                else name, c[1:], n, fr)
        if h.get("k") in ("ref", "mem", "idx", "opcall", "depmem",
                          "recovery") and \
                f.locs and len(c) > 1:
            return self.element(f, [self.rd(x, fr) for x in c[1:]], n, fr)
        args = [self.ex(x, fr) for x in c[1:]]
        self.passed(args, c[1:], n, fr, n.get("pm", ""))
        return V(X, f.locs)

    def candidates(self, name, fr):
        idx = getattr(self.prog, "_by_name", None)
        if idx is None:
            idx = {}
            for g in self.prog.fns.values():
                if g.get("body"):
                    idx.setdefault(g["name"], []).append(g)
            self.prog._by_name = idx
        return [g for g in idx.get(name, ()) if g["file"] == fr.fn["file"]]

    def enter(self, f, this, args, n, fr):
        self.fns.add((f["qn"], f["file"]))
        pm = n.get("pm", "")
        key = (f["fid"], f.tu, this.key() if this else None,
               tuple(a.key() for a in args), self.locks, self.guard,
               self.rec)
        if key in self.done:
            return self.done[key] or NONE
        if fr.depth >= self.MAXDEPTH or f["fid"] in self.stack:
            c = n.get("c", ())
            for a in args:
                for l in a.locs:
                    if not local(l[0]):
                        self.note("M" if "c" != pm[:1] else "R",
                                  [(l[0], l[1], None)], n, fr)
            if this is not None and not n.get("cst"):
                self.note("M", target(this.locs), n, fr)
            return V(X, target(this.locs) if this else ())
        self.done[key] = None
        g = Frame(f, this or V(X), fr.depth + 1)
        for p, a in zip(f.get("params", ()), args):
            t = f.ty(p.get("t"))
            v = a
            m = g.mods.get(p["d"])
            if t.get("k") in ("int", "float", "bool", "enum") and not \
                    p.get("ref"):
                num = a.num
                if m:
                    num = A
                    if a.num == B:
                        num = self.ran(m, self.param_end(p["d"], f, g, args))
                    elif a.num == X:
                        num = X
                self.note("R", a.locs, n, fr)
                self.nid += 1
                v = V(num, [(("l", self.nid, p["d"]), (), None)])
            elif t.get("k") == "ptr" and m:
                v = V(X, frozenset((r, s, A if o is not None else o)
                                   for r, s, o in a.locs))
            elif t.get("k") == "rec" and not p.get("ref"):
                r = rec(t) or ""
                if r in DEEP or r in self.prog.recs:
                    self.note("R", a.locs, n, fr)
                self.nid += 1
                own = (("l", self.nid, p["d"]), (), None)
                v = V(a.num, [own], a.items, a.lam)
                if r.startswith(VIEWS):
                    v = a
                elif self.aliasing(t, f.types):
                    self.store(own, a)
            g.env[p["d"]] = v
            g.names[p.get("n")] = v
        locks, guard = self.locks, self.guard
        self.stack.append(f["fid"])
        if f.get("ctor"):
            self.ctor(f, g)
        for b in (f.get("body"),):
            self.block(b, g)
        self.stack.pop()
        self.locks, self.guard = locks, guard
        r = g.ret or NONE
        rt = f.ty(f.get("ret")) if f.get("ret") is not None else {}
        if (rec(rt) or "") in DEEP:
            # a copy
            self.note("R", r.locs, n, fr)
            self.nid += 1
            own = (("l", self.nid, "ret"), (), None)
            self.store(own, V(X, [x for x in r.locs if x[2] is not None]))
            r = V(r.num, [own], r.items)
        self.done[key] = r
        return r

    def is_ref(self, f, p):
        if "ref" in p:
            return p["ref"]
        i = f["params"].index(p)
        sig = f["fid"]
        a = sig.find("(", sig.find(f["name"]))
        parts = split_args(sig[a + 1:sig.rfind(")")])
        return i < len(parts) and parts[i].rstrip().endswith("&")

    def param_end(self, d, f, g, args):
        for p, a in zip(f.get("params", ()), args):
            g.env.setdefault(p["d"], a)
        return self.ends_at_end(d, g)

    def ctor(self, f, g):
        types = {x["n"]: (f_ty(rr, x["t"]), rr["_types"])
                 for rr in [self.prog.recs.get(f.get("cls") or "")] if rr
                 for x in rr.get("fields", ())}
        for ini in f.get("inits", ()):
            e = ini.get("e")
            if e is None:
                continue
            if ini.get("base"):
                b = peel(e)
                h = self.callee(b, g) if b.get("k") == "construct" else None
                if h is not None and g.depth < self.MAXDEPTH:
                    self.enter(h, g.this, [self.ex(x, g) for x in
                                           b.get("c", ())], b, g)
                    continue
            v = self.ex(e, g)
            t = types.get(ini.get("field"))
            if t is not None and not self.aliasing(*t):
                continue
            for r, s, o in g.this.locs:
                if local(r):
                    self.hold((r, s + (("f", ini.get("field")),), None),
                              v.locs)

    def made_by(self, n, fr):
        """type that make_unique and the like construct"""
        t = fr.fn.ty(n.get("t")) if isinstance(n.get("t"), int) else {}
        a = [x for x in t.get("targs", ()) if isinstance(x, int)]
        return (fr.fn.ty(a[0]), fr.fn.types) if a else None


def f_ty(rr, i):
    return rr["_types"][i] if isinstance(i, int) and i >= 0 else {}


class TooMuch(Exception):
    pass


def split_args(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "<([{":
            d += 1
        elif c in ">)]}":
            d -= 1
        if c == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    return out + [cur]


def A_elems(args):
    res = set()
    for a in args:
        if not a.lam:
            res |= set(sub(a.locs, [A]))
    return res


def as_objects(locs):
    """a smart pointer or pointer stands for what it points to"""
    return frozenset((r, s, None) if o in (None,) else
                     next(iter(target([(r, s, o)]))) for r, s, o in locs)


def peel(n):
    while n.get("k") in ("cast", "paren", "temp", "bindtemp", "construct") \
            and len(n.get("c") or ()) == 1 and (
                n["k"] != "construct" or n.get("copy") or n.get("move")):
        n = n["c"][0]
    return n


def conjuncts(n):
    n = peel(n)
    if n.get("k") == "bin" and n["op"] == "&&":
        return conjuncts(n["c"][0]) + conjuncts(n["c"][1])
    return [n]


def sites(prog):
    """(function, call, lambda node, name) of every parallel loop; of a
    template its instances, when there are any"""
    found = {}
    for f in list(prog.fns.values()):
        if f["fid"].startswith("lambda@"):
            continue
        lams = None
        for n in walk(f.get("body") or {}):
            if n.get("k") not in ("call", "mcall", "icall", "recovery"):
                continue
            name = last(n.get("fn") or "")
            c = [x for x in n.get("c", ()) if isinstance(x, dict)]
            if not name and c:
                name = peel(c[0]).get("f") or ""
            if name not in RUNS:
                continue
            for x in c:
                y = peel(x)
                if y.get("k") == "ref":
                    if lams is None:
                        lams = {v["d"]: peel(v["init"])
                                for m in walk(f["body"])
                                if m.get("k") == "decl" for v in m["vars"]
                                if isinstance(v.get("init"), dict) and
                                peel(v["init"]).get("k") == "lambda"}
                    if y.get("d") not in lams:
                        continue
                    line = lams[y["d"]]["l"]
                elif y.get("k") == "lambda":
                    line = y["l"]
                else:
                    continue
                found.setdefault((f["file"], line, name), []).append(
                    (f, n, y, name))
    for key in sorted(found):
        l = found[key]
        inst = [x for x in l if not x[0].get("dep")] or l
        seen = set()
        for x in inst:
            if x[0]["fid"] not in seen:
                seen.add(x[0]["fid"])
                yield x


def chunked(name, call, lam):
    """kind of each lambda parameter"""
    k = len(lam.get("params", ()))
    cls = (call.get("fn") or "").rsplit("::", 1)[0]
    if name in ("RunStaticFor", "RunConstrainedStaticFor",
                "NestedConstrainedRun", "ConstrainedRun"):
        return ["b", "e", "t"][:k]
    if name == "StartParallelExecution" or name == "ExecuteInParallel":
        return ["t"]
    if "StaticFor" in cls:
        return ["b", "e", "t"][:k]
    return ["i", "t"][:k]


def analyse(prog, f, call, lam, name):
    R = Region(prog, f)
    R.prepare(call)
    fr = R.outer
    if lam.get("k") == "ref":
        v = R.ex(lam, fr)
        if not v.lam:
            R.notes.add("the loop body is not a lambda expression")
            return R
        lam = v.lam[0]
    kinds = chunked(name, call, lam)
    val = {"b": B, "e": E_, "t": I("t"), "i": I()}
    R.rec = True
    R.done.clear()
    R.run_lambda((lam, fr), fr, [V(val[k]) for k in kinds])
    return R


def apart(g, h):
    """made by one iteration only, or under tests that exclude each other"""
    if any(x[0] == "one" and x in h for x in g):
        return True
    alt = {x[1]: set(x[2]) for x in h if x[0] == "alt"}
    return any(x[0] == "alt" and x[1] in alt and not alt[x[1]] & set(x[2])
               for x in g)


def conflicts(R):
    """[(write, other access, certain)] per shared place"""
    by = {}
    for a in R.accs:
        by.setdefault(a.root, []).append(a)
    out = []
    for root, l in by.items():
        ws = [a for a in l if a.kind in "WM"]
        for w in ws:
            for o in l:
                if o.kind in "WM" and o.key() < w.key():
                    continue
                if w.locks & o.locks:
                    continue
                if apart(w.guard, o.guard):
                    continue
                d = disjoint(w.segs, o.segs)
                if d == "yes":
                    continue
                out.append((w, o, d == "no" and "M" not in w.kind + o.kind))
    return out
