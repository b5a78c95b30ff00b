"""C18: the parameters documented for a step are the ones it reads."""
import os
import re

from dp3a import facts, keys
from dp3a.absint import last
from dp3a.flow import walk
from dp3a.steps import link_lambdas, peel

TECHNIQUE = (
    "Interprocedural constant propagation of parameter names: every getter "
    "call on the parameter set is summarised per function as (parts of the "
    "key, default) in terms of the function's parameters and instantiated "
    "at its callers up to the members of each step class; the documented "
    "keys, defaults and step types of docs/schemas are compared with the "
    "result.")
MINIMUM = 1300
SCHEMAS = "docs/schemas"
CLASSES = {
    "aoflagger": ["AOFlaggerStep"],
    "input": ["InputStep", "MsReader", "MultiMsReader", "MSBDAReader"],
    "output": ["MSWriter", "MSUpdater", "MSBDAWriter"],
    "columnreader": ["MsColumnReader"],
    "ddecal": ["DDECal", "BdaDdeCal"],
}
# the driver itself reads these
DRIVER = {"input", "output", "svpinput"}
# keys whose value only another program or library reads
LIBRARY = {"idgpredict": ("aterm", "beam", "saveaterms"),
           "ddecal": ("idg",)}
# read only in builds with this feature
OPTIONAL = {("predict", "usefastpredict")}
# documented with a step for the benefit of the steps that contain it
EMBEDDED = {("applybeam", "beamproximitylimit"),
            ("applybeam", "onebeamperpatch")}
# different names of one value, for the parser of that value
SYNONYMS = [{"diagonal", "complexgain"}]


def sources(repo):
    out = []
    for f in facts.repo_files():
        if not f.endswith(".cc") or re.search(r"test|python|^common/", f):
            continue
        with open(os.path.join(repo, f), errors="replace") as h:
            if re.search("arset|ParameterSet", h.read()):
                out.append(f)
    return out


def schema(path):
    """minimal reader of the schema files: {key: {field: text}}"""
    out, key, field = {}, None, None
    inside = False
    with open(path, errors="replace") as h:
        for line in h:
            if re.match(r"^\S", line):
                inside = line.startswith("inputs:")
                key = None
                continue
            if not inside or not line.strip() or \
                    line.strip().startswith("#"):
                continue
            m = re.match(r"^  (\S[^:]*):\s*$", line)
            if m:
                key = m.group(1).strip(" \"'").replace("&#46;", ".")
                out[key] = {"_": {}}
                field = None
                continue
            if key is None:
                continue
            m = re.match(r"^    (\w+):\s*(.*?)\s*$", line)
            if m:
                field = m.group(1)
                v = m.group(2)
                if v in (">-", ">", "|", "|-", ">+"):
                    v = ""
                else:
                    v = re.sub(r"\s+#.*$", "", v)
                out[key][field] = v
            elif field:
                out[key][field] += " " + line.strip()
    return out


def unquote(s):
    s = s.strip().replace('\\"', '"')
    for q in "\"'":
        if len(s) > 1 and s[0] == q == s[-1]:
            return unquote(s[1:-1]) if s[1:-1] else ""
    return s


def parse(text):
    """documented default -> ("n", x), ("s", s), ("l", items) or None when
    it is described rather than given"""
    if text is None:
        return None
    s = unquote(text)
    if s == "" or s == "empty":
        return ("s", "")
    if s.lower() in ("true", "false"):
        return ("n", float(s.lower() == "true"))
    try:
        return ("n", float(s))
    except ValueError:
        pass
    if s[0] == "[" and s[-1] == "]":
        if "..." in s:
            return None
        items = [x.strip() for x in s[1:-1].split(",") if x.strip()]
        return ("l", tuple(items))
    if re.search(r"[\s*/()]", s):
        return None
    return ("s", s)


def same(doc, code):
    """True, False or None (not comparable)"""
    kind = code[0]
    if kind == "P":
        return None
    if kind == "e":
        code = ("l", ())
    if kind == "s" and code[1] == "[]":
        code = ("l", ())
    if doc[0] == "n":
        if code[0] == "n":
            return abs(doc[1] - code[1]) <= 1e-6 * max(1e-30, abs(doc[1]))
        if code[0] == "s":
            if code[1] == "":
                return None             # empty: not given
            try:
                return float(code[1]) == doc[1]
            except ValueError:
                return None if code[1] == "" else False
        return False
    if doc[0] == "l":
        if code[0] == "l":
            return tuple(map(str, code[1])) == doc[1]
        if code[0] == "s":
            return code[1] == "" and not doc[1] or \
                code[1] == ",".join(doc[1])
        return None
    if code[0] == "l":
        return not code[1] if doc[1] == "" else \
            tuple(map(str, code[1])) == (doc[1],)
    if code[0] == "s":
        a, b = doc[1].lower(), code[1].lower()
        if a == b or any({a, b} <= s for s in SYNONYMS):
            return True
        if not b or not a:
            return None
        return False
    return None


def only_if_positive(prog, K):
    """places where a read default of 0 means 'not given': the variable is
    only used behind a test that it is positive"""
    out = set()
    for fn in prog.fns.values():
        if not fn.get("body"):
            continue
        pos = set()
        for n in walk(fn["body"]):
            if n.get("k") == "if":
                for b in walk(n["c"][0] if n.get("c") else n.get("cond") or
                              {}):
                    if b.get("k") == "bin" and b.get("op") in (">", "!="):
                        l, r = peel(b["c"][0]), keys.peel2(b["c"][1])
                        if l is not None and l.get("k") == "ref" and \
                                str(r.get("cv", r.get("fv"))) in ("0", "0.0"):
                            pos.add(l["d"])
        if not pos:
            continue
        for n in walk(fn["body"]):
            if n.get("k") == "decl":
                for v in n["vars"]:
                    if v["d"] in pos and v.get("init"):
                        for c in walk(v["init"]):
                            if c.get("k") == "mcall" and \
                                    (c.get("fn") or "").startswith(
                                        keys.PSET + "::get"):
                                out.add((fn.where(c), last(c["fn"])))
    return out


def driver_types(prog):
    """step type name -> classes created for it"""
    out = {}
    for fn in prog.fns.values():
        if fn.get("file") != "base/DP3.cc" or not fn.get("body"):
            continue
        for n in walk(fn["body"]):
            if n.get("k") != "if":
                continue
            names = set()
            for b in walk(cond(n)):
                if b.get("k") in ("opcall", "bin") and \
                        b.get("op") == "==":
                    for c in b["c"]:
                        t = keys.peel2(c)
                        while t is not None and t.get("k") in (
                                "construct", "init", "bindtmp", "mte") \
                                and t.get("c"):
                            t = keys.peel2(t["c"][0])
                        if t is not None and t.get("k") == "str":
                            names.add(t["v"])
            if not names:
                continue
            made = set()
            for c in walk(then(n)):
                if c.get("k") == "call" and last(c.get("fn", "")) in \
                        keys.MAKE and c.get("targs"):
                    made.add(last(keys.strip(
                        fn.ty(c["targs"][0])["s"])))
                elif c.get("k") in ("construct", "new") and c.get("cls"):
                    made.add(last(c["cls"]))
                elif c.get("k") in ("call", "mcall") and c.get("fn"):
                    made.update(c["fn"].split("::")[-2:])
            for t in names:
                out.setdefault(t.lower(), set()).update(made)
    return out


def cond(n):
    return n.get("cond") or n["c"][0]


def then(n):
    return n.get("then") or n["c"][1]


def check(rep, tier):
    repo = facts.REPO
    prog = facts.extract(sources(repo), lax=True)
    link_lambdas(prog)
    K = keys.Keys(prog)
    steps = {last(c).lower(): c for c in prog.recs
             if c.startswith("dp3::steps::") and c.count("::") == 2}
    types = driver_types(prog)
    sentinel = only_if_positive(prog, K)
    own = []
    for fn in prog.fns.values():
        if fn.get("file") == "base/DP3.cc":
            own += K.summary(fn)
    d = os.path.join(repo, SCHEMAS)
    for name in sorted(os.listdir(d)):
        if not name.endswith(".yml"):
            continue
        doc = schema(os.path.join(d, name))
        s = name[:-4].lower()
        classes = ["dp3::steps::" + c for c in CLASSES[s]] if s in CLASSES \
            else [steps[s]] if s in steps else []
        classes = [c for c in classes if c in prog.recs]
        if not classes:
            rep.count("schemas without a class of that name")
            continue
        for c in classes:
            for f in prog.fns.values():
                if f.get("cls") == c and f.get("ctor"):
                    rep.fn(f)
        reads = {}
        for c in classes:
            for r in K.of_class(c):
                reads.setdefault(keys.suffix(r[0]), []).append(r)
        if s in DRIVER:
            for r in own:
                reads.setdefault(keys.suffix(r[0]), []).append(r)
        for key, e in doc.items():
            judge(rep, s, name, key, e, reads, sentinel, types, classes)
    if K.calls < 300:
        rep.undecided("reads", "repository", "only %s reads" % K.calls)
    rep.count("getter calls", K.calls)


def judge(rep, s, name, key, e, reads, sentinel, types, classes):
    site = "%s %s" % (name, key)
    if key == "step_name":
        return
    if key == "type":
        kinds(rep, s, name, e, types, classes)
        return
    if "*" in key or "<" in key:
        rep.count("documented groups of parameters")
        return
    names = [key]
    first, _, rest = key.partition(".")
    if s in ("input", "output", "wscleanwriter") and rest:
        names.append(rest)
    for n in list(names):
        names += [x for x in re.split(r"/", n)]
    names = [re.sub(r"^ms(in|out)\.(?=.*ms(in|out)\.)", "", n)
             for n in names]
    found = [r for n in names for r in reads.get(n, ())]
    if s in DRIVER:
        found += [r for n in names for r in reads.get(
            re.sub(r"^ms(in|out)\.", "", n), ())]
    if not found:
        if s in LIBRARY and first in LIBRARY[s] or (s, key) in EMBEDDED | OPTIONAL:
            rep.undecided("read", site, "read by a library only inside other "
                          "steps, or in other builds")
            return
        if "." in key and any(r[0] and r[0][-1] == keys.UNKNOWN
                              for rs in reads.values() for r in rs):
            if not any(x.endswith("." + rest) or x == rest
                       for x in reads):
                pass
            else:
                rep.undecided("read", site, "part of the key is computed")
                return
        rep.bad("read", site, "the documented parameter %s is not read by %s"
                % (key, ", ".join(last(c) for c in classes)))
        return
    rep.ok("read", site)
    values(rep, site, e.get("type", ""), found)
    want = parse(e.get("default"))
    if "default" not in e:
        return
    if want is None:
        rep.undecided("default", site, "described default")
        return
    got = [r for r in found if r[2] != "none" and r[1] not in
           ("isDefined", "isVector", "makeSubset")]
    if not got:
        if all(r[1] in ("isDefined", "makeSubset") for r in found):
            rep.undecided("default", site, "no direct read")
            return
        if any(r[2] is None for r in found):
            rep.undecided("default", site, "computed default")
            return
        if all(r[1].startswith("get") for r in found):
            asked = any(r[1] == "isDefined" for rs in [found] for r in rs)
            if not asked:
                rep.bad("default", site, "documented with a default, but "
                        "%s has none: the run stops when it is not given"
                        % found[0][3])
                return
        rep.undecided("default", site, "no default")
        return
    res = []
    for r in got:
        v = same(want, r[2]) if r[2] else None
        if v is False and r[2][0] == "n" and r[2][1] == 0 and \
                (r[3], r[1]) in sentinel:
            v = None
        res.append((v, r))
    if any(v for v, _ in res):
        # every read of the step's own parameter must agree
        bad = [r for v, r in res if v is False and len(r[0]) == 2 and
               isinstance(r[0][0], tuple) and r[0][0][0] in "PF"]
        if not bad:
            rep.ok("default", site)
            return
        res = [(False, r) for r in bad]
    if any(v is None for v, _ in res):
        rep.undecided("default", site, "computed or empty default")
        return
    r = res[0][1]
    rep.bad("default", site, "documented default %s, but %s uses %s"
            % (e["default"].strip(), r[3], r[2][1] if len(r[2]) > 1 else
               "an empty list"))


INTS = ("getInt", "getUint", "getInt16", "getInt32", "getInt64",
        "getUint16", "getUint32", "getUint64")
EXCLUDES = {"bool": INTS + ("getFloat", "getDouble", "getString"),
            "int": ("getBool",),
            "float": INTS + ("getBool",)}


def values(rep, site, kind, found):
    """the kind of value read is the documented one"""
    k = kind.strip().rstrip("?").lower()
    k = {"boolean": "bool", "integer": "int", "double": "float"}.get(k, k)
    if k not in EXCLUDES:
        return
    for r in found:
        if r[1].startswith("get") and len(r[0]) <= 2:
            rep.check(r[1] not in EXCLUDES[k], "kind", site, "documented as "
                      "%s, but %s reads it with %s" % (kind.strip(), r[3],
                                                       r[1]))


def kinds(rep, s, name, e, types, classes):
    text = e.get("doc", "")
    known = set(re.findall(r"['\"`]([A-Za-z_]\w*)['\"`]", text))
    if e.get("default"):
        known.add(unquote(e["default"]))
    known.discard("")
    if s in DRIVER or not types:
        return
    for t in sorted(known):
        site = "%s type %s" % (name, t)
        made = types.get(t.lower())
        if made is None:
            rep.bad("type", site, "the documented step type %s is not known "
                    "to the driver" % t)
        else:
            rep.check(bool(made & {last(c) for c in classes}), "type", site,
                      "the documented step type %s does not create a %s"
                      % (t, last(classes[0])))
