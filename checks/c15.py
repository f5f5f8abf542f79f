"""C15: cumulative curves that were not installed are never used."""
import re

from lib.prog import Program, short
from lib.nullness import Optional

CURVE = re.compile(r"(const )?(class |struct )?MNM_(Tree_)?Cumulative_Curve \*( const)?$")


def name(p):
    if p[0] == "mem":
        return p[2]
    return "argument %s" % (p[1] if len(p) > 1 else "?")


def run(rep, tier):
    P = Program.load()
    rep.rule("every use of an optional cumulative curve is preceded on every path by a check that it (or a curve "
             "installed together with it on the same object) is there; the check may be in a function called "
             "before or in every caller. Curves set by every constructor need no check.")
    O = Optional(P, lambda t: bool(CURVE.match(t)))
    rep.require("curve_members", len(O.mem), 15)
    rep.cov["always_installed"] = sorted("%s::%s" % k for k in O.always)
    rep.cov["installed_together"] = sorted({", ".join(sorted("%s::%s" % (k[0], x) for x in g))
                                            for k, g in O.group.items() if len(g) > 1})
    bad = O.needs()
    rep.require("curve_uses", O.sites, 250)
    rep.cov["uses_checked"] = O.checked
    rep.cov["uses_of_container_elements_not_judged"] = O.other
    rep.cov["uses_in_diagnostics_before_a_throw"] = O.diag
    for F, i, p, ch in bad:
        rep.violation("unchecked:%s:%s" % (ch[-1], name(p)), F.loc(i) if i is not None else F.loc(),
                      "%s is used without a check that it was installed (%s)" % (name(p), " -> ".join(ch)))
