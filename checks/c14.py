"""C14: steps declare the data fields that they use and change."""
from dp3a import effects, steps
from dp3a.absint import last
from dp3a.effects import SUB, UNKNOWN, Access, Declared
from dp3a.steps import STEP, Chain

TECHNIQUE = (
    "Effect analysis per configuration: the member conditions on which "
    "getRequiredFields and getProvidedFields of a step depend are "
    "enumerated; under each configuration the declared fields are computed "
    "and every path of the step's processing code (own helpers and parallel "
    "loop bodies included) is followed, recording which fields of the "
    "incoming buffers are used before the path has created them and which "
    "are changed. Uses must be declared as required, changes as provided.")
MINIMUM = 60
# sources and sinks have other rules (they read what is asked for)
SKIP = ("dp3::steps::InputStep",)


def check(rep, tier):
    prog = steps.program()
    chain = Chain(prog)
    dec = Declared(prog, chain)
    skip = set(SKIP)
    for s in SKIP:
        skip |= prog.subclasses(s)
    for cls in sorted(chain.cls - skip):
        req = [f for f in prog.fn(cls + "::getRequiredFields")]
        prv = [f for f in prog.fn(cls + "::getProvidedFields")]
        if not req:
            continue
        roots = prog.fn(cls + "::process") + prog.fn(cls + "::finish")
        if not roots:
            continue
        short = last(cls)
        one(rep, prog, chain, dec, cls, short, req[0],
            prv[0] if prv else None, roots)


def one(rep, prog, chain, dec, cls, short, req, prv, roots):
    atoms = dec.atoms(req)
    if prv is not None:
        for v, cs in dec.atoms(prv).items():
            atoms.setdefault(v, set()).update(cs)
    dyn, buf, seen = effects.assigned(prog, chain, roots)
    for f in seen.values():
        for v, cs in dec.atoms(f).items():
            if v in atoms and None not in atoms[v]:
                atoms[v].update(c for c in cs if c is not None)
    cfgs = effects.configs(atoms)
    if cfgs is None:
        rep.undecided("fields", short, "too many configurations")
        return
    dyn -= set(atoms)
    for f in seen.values():
        rep.fn(f)
    rows = []
    kept = effects.restores(list(seen.values()))
    for cfg in cfgs:
        R = dec.run(req, cfg)
        P = dec.run(prv, cfg) if prv is not None else None
        A = Access(prog, chain, cfg, buf, dyn, seen.values())
        for f in roots:
            A.run(f, {(frozenset(), False)})
        rows.append((cfg, R, P, A.uses))
    mayR = frozenset().union(*[r[1] for r in rows])
    mayP = None if prv is None else frozenset().union(*[r[2] for r in rows])
    for cfg, R, P, uses in rows:
        ctx = ", ".join("%s=%s" % (a, cfg[a]) for a in sorted(cfg))
        ctx = " when " + ctx if ctx else ""
        for (f, where, kind), taint in sorted(uses.items()):
            if kind == "use":
                D, name, verb = (mayR if taint else R), "required", "uses"
            else:
                D, name, verb = (mayP if taint else P), "provided", "changes"
            if D is None:
                continue
            site = "%s (%s)%s" % (short, where, ctx)
            if f in D:
                rep.ok(name, site)
            elif kind != "use" and f in kept:
                rep.undecided(name, site, "%s is put back from a saved copy"
                              % f)
            elif UNKNOWN in D or SUB in D:
                rep.undecided(name, site, "%s depends on sub-steps" % f)
            else:
                rep.bad(name, site, "%s %s the %s of its input, which it "
                        "does not declare as %s" % (short, verb, f, name))
