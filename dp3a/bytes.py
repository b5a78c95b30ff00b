"""Bit-level value propagation through functions on raw buffers: every bit of
memory is a boolean function (exclusive-or of products) of the bits the
buffers held at the start, sizes and counters are numbers, and branches on
data are joined bit by bit."""
from .absint import last

ZERO = frozenset()
ONE = frozenset([frozenset()])
LIMIT = 3000000


class Unknown(Exception):
    pass


class Bad(Exception):
    """a read of an undefined value or the like: (what, node, fn)"""


def atom(*a):
    return frozenset([frozenset([a])])


def bxor(a, b):
    return a ^ b


def band(a, b):
    if a == ONE:
        return b
    if b == ONE:
        return a
    if not a or not b:
        return ZERO
    r = set()
    for x in a:
        for y in b:
            r ^= {x | y}
    if len(r) > 200:
        raise Unknown("expression too large")
    return frozenset(r)


def bor(a, b):
    return a ^ b ^ band(a, b)


def bnot(a):
    return a ^ ONE


def bite(c, a, b):
    return b if a == b else band(c, a) ^ band(bnot(c), b)


class Ptr:
    __slots__ = ("root", "off")

    def __init__(self, root, off=0):
        self.root, self.off = root, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and (self.root, self.off) == (o.root, o.off)

    def __hash__(self):
        return hash((self.root, self.off))

    def __repr__(self):
        return "%s+%s" % (self.root, self.off)


def tobits(v, w):
    if isinstance(v, int):
        return tuple(ONE if v >> i & 1 else ZERO for i in range(w))
    if isinstance(v, tuple):
        return v[:w] if len(v) >= w else v + (ZERO,) * (w - len(v))
    raise Unknown("bits of %r" % (v,))


def number(bits, unsigned):
    n = 0
    for i, b in enumerate(bits):
        if b == ONE:
            n |= 1 << i
        elif b != ZERO:
            return None
    if not unsigned and bits and bits[-1] == ONE:
        n -= 1 << len(bits)
    return n


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Machine:
    """mem: (root, byte) -> 8 bits or Ptr (whole pointer at its first byte)"""

    def __init__(self, prog):
        self.prog = prog
        self.mem = {}
        self.default = {}     # root -> function(byte) -> 8 bits
        self.vars = {}        # (frame, decl) -> Ptr
        self.reads = {}       # root -> set of bytes
        self.writes = {}
        self.frame = 0
        self.frames = 0
        self.steps = 0

    # memory ------------------------------------------------------------
    def byte(self, root, i):
        self.reads.setdefault(root, set()).add(i)
        if (root, i) in self.mem:
            return self.mem[(root, i)]
        if root in self.default:
            return self.default[root](i)
        raise Bad("an undefined value is used")

    def size(self, t, fn):
        k = t.get("k")
        if k in ("int", "bool", "enum", "float"):
            return t["w"] // 8
        if k == "ptr":
            return 8
        if k == "void" or k == "fn":
            return 1
        if k == "arr":
            return t["n"] * self.size(fn.ty(t["p"]), fn)
        if k == "rec" and t["s"].replace("const ", "").startswith(
                "std::complex<"):
            a = fn.ty(t["targs"][0])
            return 2 * self.size(a, fn)
        raise Unknown("size of " + t["s"])

    def load(self, p, t, fn):
        k = t.get("k")
        if not isinstance(p, Ptr):
            raise Unknown("address %r" % (p,))
        if k == "arr":
            return p
        if k == "ptr":
            v = self.mem.get((p.root, p.off))
            if isinstance(v, Ptr):
                return v
            if v is None:
                raise Bad("an undefined pointer is used")
            raise Unknown("pointer")
        if k not in ("int", "bool", "enum"):
            raise Unknown("load of " + t["s"])
        bits = ()
        for i in range(t["w"] // 8):
            b = self.byte(p.root, p.off + i)
            if not isinstance(b, tuple):
                raise Unknown("pointer bytes")
            bits += b
        n = number(bits, t.get("u"))
        return bits if n is None else n

    def store(self, p, v, t):
        if not isinstance(p, Ptr):
            raise Unknown("address %r" % (p,))
        if isinstance(v, Ptr):
            self.mem[(p.root, p.off)] = v
            return
        k = t.get("k")
        if k not in ("int", "bool", "enum", "float"):
            raise Unknown("store of " + t["s"])
        bits = tobits(v, t["w"])
        for i in range(t["w"] // 8):
            self.writes.setdefault(p.root, set()).add(p.off + i)
            self.mem[(p.root, p.off + i)] = bits[8 * i:8 * i + 8]

    def conv(self, v, t, frm=None):
        """v converted to type t"""
        k = t.get("k")
        if isinstance(v, Ptr) or k in ("ptr", "ref", "rref", "fn", "arr"):
            if k == "bool":
                return 1
            return v
        if k == "bool":
            if isinstance(v, int):
                return int(v != 0)
            r = ZERO
            for b in v:
                r = bor(r, b)
            n = number((r,), True)
            return (r,) + (ZERO,) * 7 if n is None else n
        if k in ("int", "enum"):
            w = t["w"]
            if isinstance(v, int):
                v &= (1 << w) - 1
                return v if t.get("u") else (
                    v - (1 << w) if v >> (w - 1) & 1 else v)
            if len(v) < w:
                ext = v[-1] if frm is not None and not frm.get("u") and \
                    frm.get("w") == len(v) else ZERO
                v = v + (ext,) * (w - len(v))
            v = v[:w]
            n = number(v, t.get("u"))
            return v if n is None else n
        if k == "void":
            return v
        raise Unknown("conversion to " + t["s"])

    # lvalues -------------------------------------------------------------
    def place(self, n, fn):
        k = n["k"]
        if k == "ref":
            p = self.vars.get((self.frame, n.get("d")))
            if p is None:
                raise Unknown("variable %s" % n.get("n"))
            return p
        if k == "idx":
            a, i = n["c"]
            if fn.ty(a.get("t")).get("k") == "int":
                a, i = i, a
            b, i = self.ev(a, fn), self.num(i, fn)
            return self.add(b, i, fn.ty(n["t"]), fn)
        if k == "un" and n["op"] == "*":
            return self.ev(n["c"][0], fn)
        if k == "un" and n["op"] in ("++", "--"):
            self.incdec(n, fn)
            return self.place(n["c"][0], fn)
        if k == "asg":
            self.ev(n, fn)
            return self.place(n["c"][0], fn)
        if k == "cond":
            c = self.ev(n["c"][0], fn)
            if isinstance(c, int):
                return self.place(n["c"][1 if c else 2], fn)
        if k in ("cast", "paren") and n.get("c"):
            return self.place(n["c"][0], fn)
        if k == "call":
            v = self.ev(n, fn)
            if isinstance(v, Ptr):
                return v
        raise Unknown("place " + k)

    def add(self, b, i, t, fn):
        if not isinstance(b, Ptr) or not isinstance(i, int):
            raise Unknown("pointer arithmetic")
        return Ptr(b.root, b.off + i * self.size(t, fn))

    def num(self, n, fn):
        v = self.ev(n, fn)
        if not isinstance(v, int):
            raise Unknown("a number that depends on the data")
        return v

    # expressions -----------------------------------------------------------
    def ev(self, n, fn):
        self.steps += 1
        if self.steps > LIMIT:
            raise Unknown("too long")
        k = n["k"]
        t = fn.ty(n.get("t"))
        if "cv" in n and k not in ("ref",) and t.get("k") in (
                "int", "bool", "enum"):
            return self.conv(int(n["cv"]), t)
        if k in ("ref", "idx"):
            if k == "ref" and "cv" in n and (self.frame, n.get("d")) \
                    not in self.vars:
                return int(n["cv"])
            p = self.place(n, fn)
            while t.get("k") in ("ref", "rref"):
                t = fn.ty(t["p"])
            return self.load(p, t, fn)
        if k == "paren":
            return self.ev(n["c"][0], fn)
        if k == "null":
            return Ptr("null")
        if k == "cast":
            ck = n.get("ck")
            if ck == "ArrayToPointerDecay":
                return self.place(n["c"][0], fn)
            if t.get("k") == "void":
                self.ev(n["c"][0], fn)
                return None
            v = self.ev(n["c"][0], fn)
            return self.conv(v, t, fn.ty(n["c"][0].get("t")))
        if k == "un":
            return self.unary(n, fn, t)
        if k == "bin":
            return self.binary(n, fn, t)
        if k == "asg":
            return self.assign(n, fn)
        if k == "cond":
            c = self.conv(self.ev(n["c"][0], fn), {"k": "bool"})
            if isinstance(c, int):
                return self.ev(n["c"][1 if c else 2], fn)
            before = self.snap()
            a = self.ev(n["c"][1], fn)
            after = self.snap()
            self.back(before)
            b = self.ev(n["c"][2], fn)
            self.merge(c[0], after)
            if a == b:
                return a
            w = t.get("w")
            if not w:
                raise Unknown("join of pointers")
            return tuple(bite(c[0], x, y) for x, y in zip(
                tobits(a, w), tobits(b, w)))
        if k in ("call", "mcall", "opcall"):
            return self.call(n, fn, t)
        if k in ("construct", "initlist", "zero"):
            c = [x for x in n.get("c", ()) if x]
            if not c:
                return 0
            if len(c) == 1:
                return self.conv(self.ev(c[0], fn), t,
                                 fn.ty(c[0].get("t")))
        raise Unknown(k)

    def snap(self):
        return dict(self.mem)

    def back(self, m):
        self.mem = m

    def merge(self, c, other):
        """memory = c ? other : memory"""
        for key in set(other) | set(self.mem):
            a, b = other.get(key), self.mem.get(key)
            if a == b:
                continue
            if key[0] in self.default:
                d = self.default[key[0]](key[1])
                a = d if a is None else a
                b = d if b is None else b
            if a is None or b is None:
                self.mem.pop(key, None)     # defined on one side only
                continue
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                raise Unknown("join of pointers")
            self.mem[key] = tuple(bite(c, x, y) for x, y in zip(a, b))

    def incdec(self, n, fn):
        c = n["c"][0]
        p = self.place(c, fn)
        t = fn.ty(c.get("t"))
        while t.get("k") in ("ref", "rref"):
            t = fn.ty(t["p"])
        old = self.load(p, t, fn)
        d = 1 if "++" in n["op"] else -1
        if t.get("k") == "ptr":
            new = self.add(old, d, fn.ty(t["p"]), fn)
        elif isinstance(old, int):
            new = self.conv(old + d, t)
        else:
            raise Unknown("count of data")
        self.store(p, new, t)
        return old if n["op"].startswith("p") else new

    def unary(self, n, fn, t):
        op = n["op"]
        if "++" in op or "--" in op:
            return self.incdec(n, fn)
        if op == "&":
            return self.place(n["c"][0], fn)
        if op == "*":
            return self.load(self.ev(n["c"][0], fn), t, fn)
        v = self.ev(n["c"][0], fn)
        if op == "+":
            return v
        if op == "!":
            v = self.conv(v, {"k": "bool"})
            return 1 - v if isinstance(v, int) else (bnot(v[0]),) + v[1:]
        if op == "~":
            if isinstance(v, int):
                return self.conv(~v, t)
            return tuple(bnot(b) for b in tobits(v, t["w"]))
        if op == "-" and isinstance(v, int):
            return self.conv(-v, t)
        raise Unknown(op)

    def binary(self, n, fn, t):
        op = n["op"]
        x, y = n["c"]
        if op == ",":
            self.ev(x, fn)
            return self.ev(y, fn)
        if op in ("&&", "||"):
            a = self.conv(self.ev(x, fn), {"k": "bool"})
            if isinstance(a, int):
                if bool(a) == (op == "||"):
                    return int(a)
                return self.conv(self.ev(y, fn), {"k": "bool"})
            before = self.snap()
            b = self.conv(self.ev(y, fn), {"k": "bool"})
            if self.mem != before:
                raise Unknown("effect under a data condition")
            b = tobits(b, 8)[0]
            r = band(a[0], b) if op == "&&" else bor(a[0], b)
            return (r,) + (ZERO,) * 7
        a, b = self.ev(x, fn), self.ev(y, fn)
        return self.arith(op, a, b, t, fn.ty(x.get("t")),
                          fn.ty(y.get("t")), fn)

    def arith(self, op, a, b, t, ta, tb, fn):
        pa, pb = isinstance(a, Ptr), isinstance(b, Ptr)
        if pa or pb:
            if pa and pb:
                if op in ("==", "!="):
                    return int((a == b) == (op == "=="))
                if a.root == b.root:
                    if op == "-":
                        return (a.off - b.off) // self.size(
                            fn.ty(ta["p"]), fn)
                    return int({"<": a.off < b.off, ">": a.off > b.off,
                                "<=": a.off <= b.off,
                                ">=": a.off >= b.off}[op])
            elif op in ("+", "-") and (pa or op == "+"):
                p, i, tp = (a, b, ta) if pa else (b, a, tb)
                return self.add(p, i if op == "+" else -i,
                                fn.ty(tp["p"]), fn)
            raise Unknown("pointers " + op)
        w = t.get("w") or 8
        if isinstance(a, int) and isinstance(b, int):
            if op in ("/", "%"):
                if b == 0:
                    raise Bad("division by zero")
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return self.conv(q if op == "/" else a - q * b, t)
            f = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b,
                 "<<": lambda: a << (b & 127), ">>": lambda: a >> (b & 127),
                 "&": lambda: a & b, "|": lambda: a | b,
                 "^": lambda: a ^ b, "<": lambda: int(a < b),
                 ">": lambda: int(a > b), "<=": lambda: int(a <= b),
                 ">=": lambda: int(a >= b), "==": lambda: int(a == b),
                 "!=": lambda: int(a != b)}.get(op)
            if f is None:
                raise Unknown(op)
            return self.conv(f(), t)
        if op in ("&", "|", "^"):
            g = {"&": band, "|": bor, "^": bxor}[op]
            v = tuple(g(p, q) for p, q in zip(tobits(a, w), tobits(b, w)))
            m = number(v, t.get("u"))
            return v if m is None else m
        if op in ("<<", ">>") and isinstance(b, int):
            v = tobits(a, w)
            if op == "<<":
                v = ((ZERO,) * b + v)[:w]
            else:
                f = ZERO if t.get("u") else v[-1]
                v = v[b:] + (f,) * min(b, w)
            m = number(v, t.get("u"))
            return v if m is None else m
        if op in ("==", "!="):
            w = max(ta.get("w") or 8, tb.get("w") or 8)
            r = ZERO
            for p, q in zip(tobits(a, w), tobits(b, w)):
                r = bor(r, p ^ q)
            if op == "==":
                r = bnot(r)
            m = number((r,), True)
            return (r,) + (ZERO,) * 7 if m is None else m
        if op in ("<", ">", "<=", ">="):
            w = max(ta.get("w") or 8, tb.get("w") or 8)
            if op in (">", "<="):
                a, b = b, a
            x, y = list(tobits(a, w)), list(tobits(b, w))
            if not (ta.get("u") or tb.get("u")):
                x[-1], y[-1] = y[-1], x[-1]
            r = ZERO
            for p, q in zip(x, y):
                r = bor(band(bnot(p), q), band(bnot(p ^ q), r))
            if op in ("<=", ">="):
                r = bnot(r)
            m = number((r,), True)
            return (r,) + (ZERO,) * 7 if m is None else m
        if op in ("+", "-"):
            v, c = [], ZERO
            y = tobits(b, w)
            if op == "-":
                y, c = [bnot(q) for q in y], bnot(ZERO)
            for p, q in zip(tobits(a, w), y):
                v.append(p ^ q ^ c)
                c = band(p, q) ^ band(c, p ^ q)
            return tuple(v)
        if op == "*":
            for p, q in ((a, b), (b, a)):
                if isinstance(p, int) and p > 0 and p & (p - 1) == 0:
                    return ((ZERO,) * (p.bit_length() - 1) +
                            tobits(q, w))[:w]
                if p == 0:
                    return 0
        raise Unknown(op + " of data")

    def assign(self, n, fn):
        l, r = n["c"]
        t = fn.ty(l.get("t"))
        while t.get("k") in ("ref", "rref"):
            t = fn.ty(t["p"])
        v = self.ev(r, fn)
        p = self.place(l, fn)
        op = n["op"]
        if op != "=":
            ct = fn.ty(n.get("ct")) if "ct" in n else t
            old = self.load(p, t, fn)
            if not isinstance(old, Ptr):
                old = self.conv(old, ct, t)
            v = self.arith(op[:-1], old, v, ct, t if isinstance(old, Ptr)
                           else ct, fn.ty(r.get("t")), fn)
            v = self.conv(v, t, ct)
        self.store(p, v, t)
        return v

    # calls -------------------------------------------------------------
    def call(self, n, fn, t):
        name = last(n.get("fn", "?"))
        args = n["c"]
        g = self.prog.fns.get(n.get("fid"))
        if g is not None and g.get("body"):
            vals = []
            for a, p in zip(args, g["params"]):
                pt = g.ty(p["t"])
                if pt.get("k") in ("ref", "rref"):
                    vals.append(self.place(a, fn))
                else:
                    vals.append(self.ev(a, fn))
            return self.run(g, vals)
        v = [None] * len(args)

        def val(i):
            if v[i] is None:
                v[i] = self.ev(args[i], fn)
            return v[i]
        if name in ("memcpy", "memmove", "__builtin_memcpy"):
            d, s, c = val(0), val(1), val(2)
            self.copy(d, s, c)
            return d
        if name == "memset":
            d, x, c = val(0), val(1), val(2)
            for i in range(c):
                self.store(Ptr(d.root, d.off + i), x & 255,
                           {"k": "int", "w": 8})
            return d
        if name in ("copy_n", "copy", "fill_n", "fill", "reverse",
                    "reverse_copy", "swap_ranges", "copy_backward"):
            et = self.elem(args[0], fn)
            z = self.size(et, fn)
            if name == "copy_n":
                s, c, d = val(0), val(1), val(2)
            elif name in ("copy", "reverse_copy"):
                s, d = val(0), val(2)
                c = (val(1).off - s.off) // z
            elif name == "reverse":
                s = d = val(0)
                c = (val(1).off - s.off) // z
            elif name in ("fill_n", "fill"):
                d = val(0)
                c = val(1) if name == "fill_n" else \
                    (val(1).off - d.off) // z
                x = self.ev(args[2], fn)
                for i in range(c):
                    self.store(Ptr(d.root, d.off + i * z), x, et)
                return d
            else:
                raise Unknown(name)
            xs = [[self.byte(s.root, s.off + i * z + j) for j in range(z)]
                  for i in range(c)]
            if name.startswith("reverse"):
                xs.reverse()
            for i, e in enumerate(xs):
                for j, b in enumerate(e):
                    self.writes.setdefault(d.root, set()).add(
                        d.off + i * z + j)
                    self.mem[(d.root, d.off + i * z + j)] = b
            return Ptr(d.root, d.off + c * z)
        if name in ("swap", "iter_swap"):
            if name == "swap":
                p, q = self.place(args[0], fn), self.place(args[1], fn)
            else:
                p, q = val(0), val(1)
            et = fn.ty(args[0].get("t")) if name == "swap" else \
                self.elem(args[0], fn)
            z = self.size(et, fn)
            a = [self.byte(p.root, p.off + j) for j in range(z)]
            b = [self.byte(q.root, q.off + j) for j in range(z)]
            for o, bs in ((p, b), (q, a)):
                for j, x in enumerate(bs):
                    self.writes.setdefault(o.root, set()).add(o.off + j)
                    self.mem[(o.root, o.off + j)] = x
            return None
        if name in ("min", "max") and len(args) == 2:
            f = min if name == "min" else max
            return f(self.num(args[0], fn), self.num(args[1], fn))
        if name.startswith("__builtin_bswap") or name in (
                "bswap_16", "bswap_32", "bswap_64", "__bswap_16",
                "__bswap_32", "__bswap_64"):
            w = int(name[-2:])
            b = tobits(val(0), w)
            r = ()
            for i in range(w // 8):
                r = b[8 * i:8 * i + 8] + r
            return r
        if name in ("move", "forward", "addressof", "__addressof"):
            return self.place(args[0], fn)
        raise Unknown("call of " + name)

    def elem(self, n, fn):
        t = fn.ty(n.get("t"))
        while t.get("k") in ("ref", "rref"):
            t = fn.ty(t["p"])
        return fn.ty(t["p"]) if t.get("k") in ("ptr", "arr") else t

    def copy(self, d, s, c):
        if not (isinstance(d, Ptr) and isinstance(s, Ptr) and
                isinstance(c, int)):
            raise Unknown("copy")
        bs = [self.byte(s.root, s.off + i) for i in range(c)]
        for i, b in enumerate(bs):
            self.writes.setdefault(d.root, set()).add(d.off + i)
            self.mem[(d.root, d.off + i)] = b

    def run(self, g, vals):
        """calls g; returns its value"""
        if self.frame > 40:
            raise Unknown("recursion")
        outer = self.frame
        self.frames += 1
        self.frame = self.frames
        try:
            for p, v in zip(g["params"], vals):
                t = g.ty(p["t"])
                if t.get("k") in ("ref", "rref"):
                    self.vars[(self.frame, p["d"])] = v
                else:
                    q = Ptr(("v", self.frame, p["d"]))
                    self.vars[(self.frame, p["d"])] = q
                    self.store(q, self.conv(v, t), t)
            r = self.block([g["body"]], g)
            if r[0] == "return":
                return r[1]
            return None
        finally:
            self.frame = outer

    # statements ----------------------------------------------------------
    def block(self, stmts, fn):
        """('end',) | ('break',) | ('continue',) | ('return', value)"""
        for j, s in enumerate(stmts):
            if s is None:
                continue
            if s["k"] == "if":
                c = self.cond_of(s, fn)
                if isinstance(c, int):
                    b = s.get("then") if c else s.get("else")
                    r = self.block([b], fn)
                else:
                    return self.fork(c[0], s, stmts[j + 1:], fn)
            else:
                r = self.stmt(s, fn)
            if r[0] != "end":
                return r
        return ("end",)

    def cond_of(self, s, fn):
        for v in ("init", "cvar"):
            if s.get(v):
                self.stmt(s[v] if "k" in s[v] else
                          {"k": "decl", "vars": [s[v]]}, fn)
        return self.conv(self.ev(s["cond"], fn), {"k": "bool"})

    def fork(self, c, s, rest, fn):
        before = self.snap()
        r1 = self.block([s.get("then")], fn)
        after = self.snap()
        self.back(before)
        r2 = self.block([s.get("else")], fn)
        if r1 == r2 == ("end",):
            self.merge(c, after)
            return self.block(rest, fn)
        # the branches part: follow both to the end of this block
        if r2[0] == "end":
            r2 = self.block(rest, fn)
        other = self.mem
        self.mem = after
        if r1[0] == "end":
            r1 = self.block(rest, fn)
        after, self.mem = self.mem, other
        a = "end" if r1[0] == "continue" else r1[0]
        b = "end" if r2[0] == "continue" else r2[0]
        if a != b:
            raise Unknown("control flow that depends on the data")
        self.merge(c, after)
        if a == "return":
            if r1[1] == r2[1]:
                return r1
            if isinstance(r1[1], Ptr) or isinstance(r2[1], Ptr):
                raise Unknown("join of pointers")
            w = max(len(x) if isinstance(x, tuple) else 64
                    for x in (r1[1], r2[1]))
            v = tuple(bite(c, x, y) for x, y in zip(tobits(r1[1], w),
                                                    tobits(r2[1], w)))
            return ("return", v)
        if "continue" in (r1[0], r2[0]):
            return ("continue",)
        return r1

    def stmt(self, s, fn):
        k = s["k"]
        if k == "block":
            return self.block(s.get("c") or (), fn)
        if k == "decl":
            for v in s["vars"]:
                self.declare(v, fn)
            return ("end",)
        if k == "if":
            return self.block([s], fn)
        if k in ("for", "while", "do"):
            return self.loop(s, fn)
        if k == "return":
            if not s.get("c"):
                return ("return", None)
            e = s["c"][0]
            if fn.ty(fn.get("ret", -1)).get("k") in ("ref", "rref"):
                return ("return", self.place(e, fn))
            return ("return", self.ev(e, fn))
        if k in ("break", "continue"):
            return (k,)
        if k == "nop":
            return ("end",)
        if k in ("switch", "try", "throw", "forrange", "case", "default"):
            raise Unknown(k)
        self.ev(s, fn)
        return ("end",)

    def declare(self, v, fn):
        t = fn.ty(v["t"])
        if v.get("ref") or t.get("k") in ("ref", "rref"):
            self.vars[(self.frame, v["d"])] = self.place(v["init"], fn)
            return
        q = Ptr(("v", self.frame, v["d"]))
        self.vars[(self.frame, v["d"])] = q
        if t.get("k") in ("int", "ptr", "float", "bool", "enum"):
            for i in range(16):
                self.mem.pop((q.root, i), None)
        else:
            for key in [x for x in self.mem if x[0] == q.root]:
                del self.mem[key]
        if v.get("init") is None:
            return
        if t.get("k") == "arr":
            et = fn.ty(t["p"])
            z = self.size(et, fn)
            e = v["init"]
            c = e.get("c", []) if e["k"] in ("initlist",) else None
            if c is None:
                raise Unknown("array initialiser")
            for i in range(t.get("n", len(c))):
                x = self.ev(c[i], fn) if i < len(c) else 0
                self.store(Ptr(q.root, i * z), self.conv(x, et), et)
            return
        x = self.ev(v["init"], fn)
        self.store(q, self.conv(x, t, fn.ty(v["init"].get("t"))), t)

    def loop(self, s, fn):
        k = s["k"]
        if k == "for" and s.get("init"):
            i = s["init"]
            self.stmt(i, fn)
        first = k == "do"
        for _ in range(20000):
            if not first and s.get("cond"):
                c = self.conv(self.ev(s["cond"], fn), {"k": "bool"})
                if not isinstance(c, int):
                    raise Unknown("a loop that depends on the data")
                if not c:
                    return ("end",)
            first = False
            r = self.block([s.get("body")], fn)
            if r[0] == "break":
                return ("end",)
            if r[0] == "return":
                return r
            if k == "for" and s.get("inc"):
                self.ev(s["inc"], fn)
        raise Bad("a loop does not end")
