"""Common driver of all checks: runs one property's analysis over /repo's
current source, compares what it reports with the known-findings file, prints
the verdict and writes the evidence file."""
import json
import os
import sys
import time
import traceback

from . import front
from .front import AnalysisBroken, VERIF

KNOWN = os.path.join(VERIF, "known_findings.txt")


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.viol = []          # (key, where, text)
        self.cov = {}
        self.samples = []
        self.rules = []

    def violation(self, key, where, text):
        """key identifies the violating construct independently of line
        numbers; where is file:line; text is the diagnosis"""
        if not any(v[0] == key and v[1] == where for v in self.viol):
            self.viol.append((key, where, text))

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def rule(self, text):
        self.rules.append(text)

    def sample(self, text):
        if len(self.samples) < 12:
            self.samples.append(text)

    def require(self, name, n, at_least):
        """anchor count: fewer than at_least means that the analysis lost its
        subject"""
        self.cov[name] = n
        if n < at_least:
            raise AnalysisBroken("%s: only %d instances of '%s' (expected at least %d)"
                                 % (self.prop, n, name, at_least))


def known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith("finding: "):
                continue
            head, _, text = line[len("finding: "):].partition(" :: ")
            d = dict(x.split("=", 1) for x in head.split(" ", 1))
            if d.get("property") == prop:
                out[d["key"]] = text
    return out


def program_summary():
    """the functions analysed, per file"""
    from . import prog
    n = {}
    for P in prog.LOADED[-1:]:
        for F in P.funcs.values():
            if F.blocks:
                n[F.file] = n.get(F.file, 0) + 1
    return ["%s: %d functions analysed" % (f, n[f]) for f in sorted(n, key=lambda f: -n[f])[:12]] or ["(none)"]


def main(prop, fn, level="other", technique=""):
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    t0 = time.time()
    rep = Report(prop)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        fn(rep, tier)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (prop, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s: internal error" % prop)
        return 4
    kn = known(prop)
    new, seen = [], set()
    for key, where, text in rep.viol:
        if key in kn:
            seen.add(key)
        else:
            new.append((key, where, text))
    for k in sorted(seen):
        print("KNOWN-FINDING: property=%s %s [%s]" % (prop, kn[k], k))
    stale = sorted(set(kn) - seen)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replay = os.path.join(VERIF, "evidence", prop + ".violations.txt")
    if os.path.exists(replay):
        os.unlink(replay)
    wall = time.time() - t0
    cov = dict(rep.cov)
    expl = ("Static analysis of the type-resolved program (clang AST + CFG of every "
            "translation unit under src/ and macposts/_ext/, plus macposts/*.py where "
            "the rule says so); nothing is executed. Rules applied: " + " | ".join(rep.rules))
    cov["explanation"] = expl
    cov["samples"] = rep.samples or program_summary()
    cov["violations_new"] = len(new)
    cov["known_findings_seen"] = len(seen)
    if stale:
        cov["known_findings_not_seen"] = stale
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level,
          "coverage": cov, "wall_s": round(wall, 2)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if new:
        with open(replay, "w") as f:
            for key, where, text in new:
                f.write("%s\n  at %s\n  %s\n\n" % (key, where, text))
        for key, where, text in new[:40]:
            print("  %s: %s\n      [%s]" % (where, text, key))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    print("OK property=%s tier=%s %s (%.1fs)" % (
        prop, tier, " ".join("%s=%s" % (k, v) for k, v in rep.cov.items()), wall))
    return 0
