"""Result collection, evidence, known findings, exit codes."""
import json
import os
import sys
import time
import traceback

from . import facts, state


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.obl = []          # (rule, site)
        self.viol = []         # (rule, site, message)
        self.open = []         # constructs the analysis could not decide
        self.analysed = set()  # functions / files looked at
        self.assume = []
        self.t0 = time.time()
        self.counts = {}
        self._seen = set()
        self.fobjs = []

    def fn(self, f):
        self.fobjs.append(f)
        self.analysed.add("%s (%s:%d)" % (f["qn"], f["file"], f["l"]))

    def ok(self, rule, site):
        self.obl.append((rule, str(site)))

    def bad(self, rule, site, msg):
        key = (rule, str(site), msg)
        if key in self._seen:
            return
        self._seen.add(key)
        self.viol.append(key)

    def check(self, cond, rule, site, msg):
        if cond:
            self.ok(rule, site)
        else:
            self.bad(rule, site, msg)
        return cond

    def undecided(self, rule, site, why):
        self.open.append((rule, str(site), why))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n


def known():
    p = os.path.join(facts.VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [e for e in json.load(f)["findings"]
                if e.get("status") == "known"]


def finish(rep, tier, technique, minimum):
    """Writes evidence, prints the verdict, returns the exit code."""
    prop = rep.prop
    kn = [e for e in known() if e["property"] == prop]
    new, old = [], []
    for v in rep.viol:
        hit = [e for e in kn if e["rule"] == v[0] and e["match"] in v[1]
               + " " + v[2]]
        (old if hit else new).append((v, hit))
    ev = {
        "property": prop, "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": technique,
            "functions_analysed": len(rep.analysed),
            "functions": sorted(rep.analysed)[:400],
            "obligations": len(rep.obl) + len(rep.viol),
            "discharged": len(rep.obl),
            "undecided": [list(x) for x in rep.open][:200],
            "obligations_by_rule": {},
            "samples": [list(x) for x in rep.obl[:12]],
            "counts": rep.counts,
        },
        "assumptions": rep.assume,
        "wall_s": round(time.time() - rep.t0, 2),
        "violations": len(new),
    }
    by = ev["coverage"]["obligations_by_rule"]
    for r, _ in rep.obl:
        by[r] = by.get(r, 0) + 1
    d = os.path.join(facts.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d functions, %d obligations discharged, %d undecided, "
          "%d violated (%.1f s)" % (prop, len(rep.analysed), len(rep.obl),
                                    len(rep.open), len(rep.viol),
                                    ev["wall_s"]))
    for r, s, w in rep.open[:20]:
        print("  undecided [%s] %s: %s" % (r, s, w))
    for (v, hit) in old:
        print("KNOWN-FINDING: property=%s %s" % (prop, hit[0]["what"]))
    if new:
        path = os.path.join(d, prop + ".violations.txt")
        with open(path, "w") as f:
            for (r, s, m), _ in new:
                f.write("rule %s\n  at %s\n  %s\n" % (r, s, m))
                print("  [%s] %s: %s" % (r, s, m))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    # vacuity: the rules must have had something to decide
    if len(rep.obl) < minimum:
        if rep.open and len(rep.obl) >= max(1, minimum // 4):
            return 0
        print("analysis broken: only %d obligations (expected at least %d)"
              % (len(rep.obl), minimum), file=sys.stderr)
        return 3
    return 0


def main(checks):
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    mod = checks(prop)
    rep = Report(prop)
    try:
        try:
            mod.check(rep, tier)
        except (TypeError, KeyError, IndexError, ValueError, AttributeError,
                AssertionError, ArithmeticError):
            # a form of code that a rule does not know: what was decided
            # before stands, the rest is undecided
            traceback.print_exc()
            rep.undecided("rule", prop, "the analysis stopped at a form of "
                          "code it does not know: " +
                          traceback.format_exc().strip().split("\n")[-1])
        if getattr(mod, "PURE", False):
            state.check(rep, rep.fobjs, mod.PURE)
    except facts.AnalysisError as e:
        print("analysis broken: %s" % e, file=sys.stderr)
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    return finish(rep, tier, mod.TECHNIQUE, getattr(mod, "MINIMUM", 1))
