"""Runs the clang fact extractor over /repo's current sources and loads the
resolved program (functions, records, enums, globals)."""
import concurrent.futures
import json
import os
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DP3_REPO", "/repo")
OUT = os.path.join(VERIF, "_out")
STUBS = os.path.join(VERIF, "stubs")
RES = "/usr/lib/llvm-18/lib/clang/18"


class AnalysisError(Exception):
    """The analysis cannot give an answer (vanished anchor, no facts...)."""


def tool():
    subprocess.run(["bash", os.path.join(VERIF, "tool", "build.sh"), OUT],
                   check=True, stdout=subprocess.DEVNULL)
    return os.path.join(OUT, "dp3facts")


def clang_args(lax=False):
    if lax:
        return ["-std=c++20", "-I" + REPO, "-isystem", os.path.join(
            STUBS, "lax"), "-include", "lax.h",
            "-DMETADATA_COMPRESSION_DEFAULT=true", "-DNDEBUG",
            "-DHAVE_HDF5", "-DHAVE_IDG", "-DHAVE_WSCLEAN",
            "-DHAVE_LIBDIRAC", "-resource-dir", RES, "-ferror-limit=0", "-w"]
    return ["-std=c++20", "-I" + REPO, "-isystem", STUBS,
            "-DMETADATA_COMPRESSION_DEFAULT=true", "-DNDEBUG", "-DHAVE_HDF5",
            "-resource-dir", RES, "-ferror-limit=0", "-w"]


class Fn(dict):
    """A function definition; .types is the type table of its TU."""
    __slots__ = ("types", "tu", "_nodes", "prog")

    def nodes(self):
        """node id -> node (all nodes of body and ctor initialisers)."""
        try:
            return self._nodes
        except AttributeError:
            m = {}
            for n in walk(self.get("body")):
                if "i" in n:
                    m[n["i"]] = n
            for ini in self.get("inits", ()):
                for n in walk(ini.get("e")):
                    if "i" in n:
                        m[n["i"]] = n
            if self.get("cfg"):
                for b in self["cfg"]["blocks"]:
                    for e in b["e"]:
                        if isinstance(e, dict) and "x" in e:
                            for n in walk(e["x"]):
                                if "i" in n:
                                    m.setdefault(n["i"], n)
            self._nodes = m
            return m

    def ty(self, idx):
        if idx is None or idx < 0:
            return {"k": "none", "s": "?"}
        return self.types[idx]

    def where(self, node=None):
        return "%s:%d" % (self["file"], node["l"] if node else self["l"])


CHILD_KEYS = ("c", "cond", "then", "else", "init", "cvar", "inc", "body",
              "range", "var", "vars", "v", "v2", "handlers", "size", "e",
              "bind")


def kids(n):
    """Child nodes of a node, in source order (roughly)."""
    k = n.get("k")
    if k == "if":
        seq = ("init", "cvar", "cond", "then", "else")
    elif k == "for":
        seq = ("init", "cond", "inc", "body")
    elif k == "forrange":
        seq = ("range", "var", "body")
    elif k in ("while",):
        seq = ("cvar", "cond", "body")
    elif k == "do":
        seq = ("body", "cond")
    elif k == "switch":
        seq = ("cond", "body")
    elif k == "case":
        seq = ("v", "v2", "c")
    elif k == "decl":
        seq = ("vars",)
    elif k == "try":
        seq = ("body", "handlers")
    elif k == "new":
        seq = ("size", "c")
    elif k is None:
        seq = ("init", "bind", "body", "e")
    else:
        seq = ("c",)
    for s in seq:
        x = n.get(s)
        if isinstance(x, dict):
            yield x
        elif isinstance(x, list):
            for y in x:
                if isinstance(y, dict):
                    yield y


def walk(n):
    """All nodes, pre-order (decl entries, handlers included)."""
    if n is None:
        return
    stack = [n]
    while stack:
        x = stack.pop()
        yield x
        stack.extend(reversed(list(kids(x))))


class Program:
    def __init__(self):
        self.fns = {}        # fid -> Fn (preferred definition)
        self.by_qn = {}      # qualified name -> [Fn]
        self.tu_fns = {}     # (tu, fid) -> Fn
        self.recs = {}       # qn -> record
        self.enums = {}      # qn -> enum
        self.vars = {}       # qn -> var
        self.errors = {}     # tu -> number of parse errors
        self.tus = []
        self.over = {}       # overridden fid -> [fid of overriders]

    def fn(self, qn):
        """All definitions with this qualified name."""
        return self.by_qn.get(qn, [])

    def one(self, qn, pred=None):
        l = [f for f in self.fn(qn) if pred is None or pred(f)]
        if not l:
            raise AnalysisError("anchor function %s not found" % qn)
        return l[0]

    def subclasses(self, base):
        res = {base}
        changed = True
        while changed:
            changed = False
            for q, r in self.recs.items():
                if q not in res and any(b in res for b in r["bases"]):
                    res.add(q)
                    changed = True
        res.discard(base)
        return res

    def ancestors(self, qn):
        res, todo = [], [qn]
        while todo:
            q = todo.pop(0)
            r = self.recs.get(q)
            if r is None:
                continue
            for b in r["bases"]:
                if b not in res:
                    res.append(b)
                    todo.append(b)
        return res

    def in_file(self, *files):
        return [f for f in self.fns.values() if f["file"] in files]


def _load(path, tu, prog):
    types = None
    recs = []
    with open(path) as f:
        for line in f:
            o = json.loads(line)
            if o["r"] == "types":
                types = o["types"]
                prog.errors[tu] = o.get("errors", 0)
            else:
                recs.append(o)
    if types is None:
        raise AnalysisError("extractor produced no complete output for " + tu)
    for o in recs:
        r = o["r"]
        if r == "fn":
            if "/test/" in o["file"]:
                continue
            fn = Fn(o)
            fn.types = types
            fn.tu = tu
            fn.prog = prog
            fid = fn["fid"]
            prog.tu_fns[(tu, fid)] = fn
            old = prog.fns.get(fid)
            if old is None:
                prog.fns[fid] = fn
                prog.by_qn.setdefault(fn["qn"], []).append(fn)
                for b in fn.get("over", ()):
                    prog.over.setdefault(b, []).append(fid)
            elif (old["file"], old["l"]) != (fn["file"], fn["l"]):
                # same id, different definition (e.g. static helper)
                fid2 = fid + "@" + fn["file"]
                if fid2 not in prog.fns:
                    prog.fns[fid2] = fn
                    prog.by_qn.setdefault(fn["qn"], []).append(fn)
        elif r == "rec":
            o["_types"] = types
            old = prog.recs.get(o["qn"])
            if old is None or (old.get("dep") and not o.get("dep")):
                prog.recs[o["qn"]] = o
        elif r == "enum":
            prog.enums.setdefault(o["qn"], o)
        elif r == "var":
            o["_types"] = types
            old = prog.vars.get(o["qn"])
            if old is None or ("init" not in old["v"] and "init" in o["v"]):
                prog.vars[o["qn"]] = o


def _cmd(exe, tu, out, lax=False):
    src = os.path.join(REPO, tu)
    return [exe, "-root", REPO.rstrip("/") + "/"] + (
        ["-lax"] if lax else []) + [out, src, "--", "-x", "c++"] + \
        clang_args(lax)


def extract(tus, keep_errors=False, extra=(), lax=False):
    """Extracts the given TUs (paths relative to /repo; a header is parsed as
    a TU of its own).  Returns a Program.  'extra' are synthetic TUs:
    (name, text) pairs written to the scratch dir, e.g. to instantiate
    templates of the repository."""
    exe = tool()
    tmp = tempfile.mkdtemp(prefix="dp3facts.")
    prog = Program()
    try:
        def run(arg):
            i, tu = arg
            out = os.path.join(tmp, "%d.json" % i)
            if isinstance(tu, tuple):
                src = os.path.join(tmp, tu[0])
                with open(src, "w") as f:
                    f.write(tu[1])
                cmd = _cmd(exe, src, out, lax)
                name = tu[0]
            else:
                if not os.path.exists(os.path.join(REPO, tu)):
                    return tu, None, "missing"
                cmd = _cmd(exe, tu, out, lax)
                name = tu
            try:
                p = subprocess.run(cmd, capture_output=True, text=True,
                                   timeout=600)
            except subprocess.TimeoutExpired:
                return name, None, "timeout"
            if not os.path.exists(out):
                return name, None, p.stderr[-2000:]
            return name, out, p.stderr

        jobs = list(enumerate(list(tus) + list(extra)))
        workers = min(int(os.environ.get("DP3_JOBS", "8")), len(jobs) or 1)
        with concurrent.futures.ThreadPoolExecutor(workers) as ex:
            results = list(ex.map(run, jobs))
        for tu, out, err in results:
            if out is None:
                raise AnalysisError("cannot analyse %s: %s" % (tu, err))
            _load(out, tu, prog)
            prog.tus.append(tu)
            if keep_errors:
                prog.errors[tu] = err
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return prog


def repo_files(subdirs=None, exts=(".cc",)):
    """Non-test files of /repo with one of the extensions, relative paths."""
    res = []
    roots = subdirs or [d for d in sorted(os.listdir(REPO))
                        if os.path.isdir(os.path.join(REPO, d))]
    for d in roots:
        if d.startswith((".", "_")) or d in ("external", "CMake", "docs",
                                             "docker", "ci", "scripts"):
            continue
        for base, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs[:] = [x for x in dirs if x not in ("test", "mock", ".git")]
            for f in sorted(files):
                if f.endswith(exts):
                    res.append(os.path.relpath(os.path.join(base, f), REPO))
    return sorted(res)
