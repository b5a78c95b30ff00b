"""C16: byte order conversion and bit packing are exact."""
from dp3a import lits, facts, narrow
from dp3a.absint import last
from dp3a.bytes import (Machine, Ptr, Unknown, Bad, atom, ZERO, tobits)

TECHNIQUE = (
    "Bit-level value propagation: every bit the conversion functions store "
    "is derived from the source as a boolean function of the bits that the "
    "buffers held before, for every overload, with all sizes and start bits "
    "of a range that covers every alignment, and compared with the byte "
    "reversal or the packed layout; the bytes read and written are compared "
    "with the extent of the buffers, and the counters with the width of the "
    "counts.")
MINIMUM = 300
PURE = True
TU = "common/DataConvert.cc"
NS = "dp3::common::"
INSTANCES = ("c16_convert.cc", """#include "common/DataConvert.h"
template void dp3::common::dataConvert<int32_t>(
    dp3::common::DataFormat, std::complex<int32_t>*, unsigned int);
template void dp3::common::dataConvert<int64_t>(
    dp3::common::DataFormat, std::complex<int64_t>*, unsigned int);
""")
WIDTH = {"16": 2, "32": 4, "64": 8, "Float": 4, "Double": 8}


def reverse(root, w, n):
    """bytes of n elements of w bytes, each reversed"""
    return [tuple(atom(root, e * w + w - 1 - i, b) for b in range(8))
            for e in range(n) for i in range(w)]


def same(root, n):
    return [tuple(atom(root, i, b) for b in range(8)) for i in range(n)]


def scalar(fn, t):
    """(bytes of an element, elements) of a buffer's pointee"""
    t = fn.ty(t)
    if t.get("k") == "rec":
        s = fn.ty(t["targs"][0])
        return s["w"] // 8, 2
    return t["w"] // 8, 1


def raw(root):
    return lambda i: tuple(atom(root, i, b) for b in range(8))


def flags(root):
    return lambda i: (atom(root, i, 0),) + (ZERO,) * 7


class Case:
    def __init__(self, rep, prog, fn, what):
        self.rep, self.fn, self.what = rep, fn, what
        self.m = Machine(prog)

    def buffer(self, name, content=raw):
        self.m.default[name] = content(name)
        return Ptr(name)

    def run(self, *args):
        """True if the function was followed to its end"""
        try:
            self.value = self.m.run(self.fn, list(args))
            return True
        except Unknown as u:
            self.rep.undecided("followed", self.site(), str(u)[:100])
        except Bad as b:
            self.rep.bad("defined", self.site(), "%s: %s" % (self.what, b))
        except (KeyError, IndexError, TypeError, AttributeError) as e:
            self.rep.undecided("followed", self.site(), repr(e)[:100])
        return False

    def site(self):
        return "%s %s" % (self.fn.where(), self.what)

    def bytes(self, name, want, extent, rule="bytes"):
        """the first bytes of the buffer are now `want`; nothing else of
        it is touched"""
        got = [self.m.mem.get((name, i)) or self.m.default[name](i)
               for i in range(len(want))]
        d = [i for i in range(len(want)) if want[i] is not None and
             got[i] != want[i]]
        self.rep.check(not d, rule, self.site() + " " + name, "%s: byte %s "
                       "of the %s is %s" % (self.what, d and d[0], name,
                                            d and show(got[d[0]])))
        out = {i for x in (self.m.reads, self.m.writes)
               for i in x.get(name, ()) if not 0 <= i < extent}
        self.rep.check(not out, "bounds", self.site() + " " + name,
                       "%s: byte %s of a %s of %s bytes is used"
                       % (self.what, out and min(out), name, extent))


def show(bits):
    def one(b):
        if not b:
            return "0"
        return "^".join("&".join("%s[%s].%s" % a for a in sorted(p)) or "1"
                        for p in sorted(b, key=str))
    return " ".join(one(b) for b in bits)[:120]


def swaps(rep, prog, fn):
    n = last(fn["qn"])
    P = [fn.ty(p["t"]) for p in fn["params"]]
    if P and P[0].get("k") == "enum":
        lead, P = (0,), P[1:]
        formats = (0, 1)
    else:
        lead, formats = (), (None,)
    sig = [p["k"] for p in P]
    for f in formats:
        pre = [f] * len(lead)
        tail = " from format %s" % f if lead else ""
        if sig in (["int"], ["float"]):
            w = P[0]["w"] // 8
            c = Case(rep, prog, fn, "conversion of a value" + tail)
            c.m.default["in"] = raw("in")
            if sig == ["float"]:
                rep.undecided("followed", c.site(), "float value")
                continue
            bits = tuple(b for i in range(w) for b in raw("in")(i))
            if not c.run(*(pre + [bits])):
                continue
            want = reverse("in", w, 1)
            try:
                got = tobits(c.value, 8 * w)
            except Unknown as u:
                rep.undecided("bytes", c.site(), str(u))
                continue
            rep.check(got == tuple(b for x in want for b in x), "bytes",
                      c.site(), "%s: the bytes of the value become %s"
                      % (c.what, show(got)))
            continue
        if sig not in (["ptr"], ["ptr", "ptr"], ["ptr", "int"],
                       ["ptr", "ptr", "int"]):
            rep.undecided("followed", fn.where(), "parameters of %s" % n)
            continue
        digits = [k for k in WIDTH if n.endswith(k)]
        if digits:
            w, per = WIDTH[digits[0]], 1
        else:
            if fn.ty(P[0]["p"]).get("k") == "void":
                rep.undecided("followed", fn.where(), "parameters of %s" % n)
                continue
            w, per = scalar(fn, P[0]["p"])
        sizes = list(range(5)) + [300] + lits.around(
            lits.thresholds(prog, [fn], 5), 1100) if sig[-1] == "int" \
            else (1,)
        for c0 in sizes:
            nb = c0 * per * w
            if len([s for s in sig if s == "ptr"]) == 2:
                c = Case(rep, prog, fn, "conversion of %s values%s"
                         % (c0, tail))
                args = pre + [c.buffer("output"), c.buffer("input")]
                src = "input"
            else:
                c = Case(rep, prog, fn, "conversion in place of %s values%s"
                         % (c0, tail))
                args = pre + [c.buffer("output")]
                src = "output"
            if sig[-1] == "int":
                args.append(c0)
            if not c.run(*args):
                continue
            c.bytes("output", reverse(src, w, c0 * per), nb)
            if src == "input":
                c.bytes("input", same("input", nb), nb)


COUNTS = list(range(0, 12)) + [15, 16, 17, 24, 25, 259]
STARTS = list(range(0, 10)) + [14, 15, 16, 17, 23]


def grid(prog, fn):
    """(start bit, number of flags)"""
    for start in STARTS:
        for n in COUNTS:
            yield start, n
    for v in lits.around(lits.thresholds(prog, [fn], 9), 1100):
        for start in (0, 3):
            yield start, v
            if v <= 140:
                yield start, v * 8 + 3
        yield v, 9


def pack(rep, prog, fn):
    for start, n in grid(prog, fn):
        c = Case(rep, prog, fn, "packing %s flags from bit %s"
                 % (n, start))
        args = [c.buffer("bits"), c.buffer("flags", flags), n, start]
        if not c.run(*args[:len(fn["params"])]):
            continue
        nb = (n + start % 8 + 7) // 8 if n else 0
        ext = (start + n + 7) // 8 if n else start // 8
        want = same("bits", ext)
        want = [list(x) for x in want]
        for i in range(n):
            b = start + i
            want[b // 8][b % 8] = atom("flags", i, 0)
        # what follows the last flag in its byte may be cleared
        got = [c.m.mem.get(("bits", i)) or raw("bits")(i)
               for i in range(ext)]
        for b in range(start + n, 8 * ext):
            g = got[b // 8][b % 8]
            if g == ZERO and n:
                want[b // 8][b % 8] = ZERO
        c.bytes("bits", [tuple(x) for x in want], ext)
        c.bytes("flags", [flags("flags")(i) for i in range(n)], n)
        rep.check(c.value == nb, "count", c.site(), "%s reports %s "
                  "bytes instead of %s" % (c.what, c.value, nb))


def unpack(rep, prog, fn):
    for start, n in grid(prog, fn):
        c = Case(rep, prog, fn, "unpacking %s flags from bit %s"
                 % (n, start))
        args = [c.buffer("flags", flags), c.buffer("bits"), n, start]
        if not c.run(*args[:len(fn["params"])]):
            continue
        nb = (n + start % 8 + 7) // 8 if n else 0
        ext = (start + n + 7) // 8 if n else start // 8
        want = [(atom("bits", (start + i) // 8, (start + i) % 8),) +
                (ZERO,) * 7 for i in range(n)]
        c.bytes("flags", want, n)
        c.bytes("bits", same("bits", ext), ext)
        rep.check(c.value == nb, "count", c.site(), "%s reports %s "
                  "bytes instead of %s" % (c.what, c.value, nb))


def check(rep, tier):
    prog = facts.extract([TU], extra=[INSTANCES])
    fns = [f for q, fs in sorted(prog.by_qn.items()) for f in fs
           if f.get("body") and f["file"].startswith("common/DataConvert")
           and q.startswith(NS)]
    done = set()
    for fn in fns:
        n = last(fn["qn"])
        if fn["fid"] in done or any(fn.ty(p["t"]).get("k") in ("dep",)
                                    for p in fn["params"]):
            continue
        done.add(fn["fid"])
        rep.fn(fn)
        if n == "boolToBit":
            pack(rep, prog, fn)
        elif n == "bitToBool":
            unpack(rep, prog, fn)
        elif n.startswith(("byteSwap", "dataConvert")):
            if any(fn.ty(p["t"]).get("k") == "ptr" and
                   fn.ty(fn.ty(p["t"])["p"]).get("k") == "dep"
                   for p in fn["params"]):
                continue
            swaps(rep, prog, fn)
    narrow.check(rep, [f for f in fns if last(f["qn"]) != "byteSwap" and not (
        last(f["qn"]) == "dataConvert" and len(f["params"]) == 2)],
        "data conversion")
    for n in ("byteSwap16", "byteSwap32", "byteSwap64", "boolToBit",
              "bitToBool"):
        if not prog.by_qn.get(NS + n):
            rep.undecided("anchor", NS + n, "not found")
