"""C19: iterations of a parallel loop do not interfere."""
from dp3a import facts, par
from dp3a.steps import link_lambdas

TECHNIQUE = (
    "effect and alias analysis of every parallel loop body (schaapcommon "
    "DynamicFor, StaticFor, RecursiveFor) over the typed syntax trees: the "
    "body and the functions it calls are evaluated over an abstract domain "
    "that says how each subscript depends on the loop index, the thread "
    "number or neither; a written place must differ between iterations, be "
    "local, atomic or guarded by a common lock")
MINIMUM = 60
DIRS = ("steps/", "ddecal/", "base/", "common/", "parmdb/", "blob/",
        "sky_model/", "model/")
MIN_SITES = 30


def check(rep, tier):
    tus = [f for f in facts.repo_files() if f.startswith(DIRS)]
    prog = facts.extract(tus, lax=True, keep_errors=True)
    link_lambdas(prog)
    done, places = {}, 0
    for f, call, lam, name in par.sites(prog):
        line = lam["l"]
        site = "%s: %s" % (f["file"], f["qn"].replace("dp3::", ""))
        where = "%s:%d" % (f["file"], call.get("l", line))
        try:
            R = par.analyse(prog, f, call, lam, name)
        except par.TooMuch:
            rep.undecided("loop", where, "the loop body is too large")
            continue
        done[where] = done.get(where, 0) + 1
        rep.fn(f)
        for q, file in R.fns:
            rep.analysed.add("%s (%s)" % (q, file))
        rep.count("accesses to shared memory", len(R.accs))
        for t in sorted(R.notes):
            rep.undecided("loop", where, t)
        wrong = report(rep, R, site, where)
        for w in {(a.root, a.segs) for a in R.accs if a.kind in "WM"}:
            places += 1
            if w not in wrong:
                rep.ok("disjoint", "%s writes %s" % (where, par.show(*w)))
    rep.count("parallel loops", len(done))
    rep.count("written places", places)
    if len(done) < MIN_SITES:
        raise facts.AnalysisError("only %d parallel loops found" % len(done))
    rep.assume += [
        "the library runs the body once per index (or chunk) with distinct "
        "thread numbers for concurrent calls",
        "a pointer or counter that starts at index * size and only moves "
        "forward stays within the elements of its iteration",
        "library functions that are not followed only change what is "
        "passed to them as non-constant pointer or reference",
        "different elements of a container do not overlap",
    ]


def report(rep, R, site, where):
    wrong, open_ = set(), {}
    for w, o, certain in par.conflicts(R):
        p = par.show(w.root, w.segs)
        key = (w.root, w.segs)
        if certain:
            if key not in wrong:
                wrong.add(key)
                what = "written" if o.kind == "W" else "read"
                rep.bad("disjoint", site, "loop at %s: %s is written at %s "
                        "and %s%s at %s by different iterations" % (
                            where, p, w.where, what, "" if
                            (o.root, o.segs) == key else
                            " (%s)" % par.show(o.root, o.segs), o.where))
        else:
            open_.setdefault(key, (p, w, o))
    for key, (p, w, o) in open_.items():
        if key not in wrong:
            rep.undecided("disjoint", where, "%s at %s may be the same as "
                          "%s at %s" % (p, w.where, par.show(
                              o.root, o.segs), o.where))
    return wrong | set(open_)
