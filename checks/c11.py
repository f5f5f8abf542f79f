"""C11: result arrays are fully assigned, in bounds, and laid out as asked."""
import re

from lib import poly
from lib.common import natural_loops
from lib.guards import make
from lib.vpath import walk
from lib.arrays import Arrays, Coverage, align, skipped
from lib.prog import Program


def plain(r):
    """an array that is only given its shape"""
    return not any(isinstance(x, tuple) and x and (x[0] in ("P", "V", "T") or x[0] == "call" and x[1] in ("data", "request"))
                   for x in r[3:])


def whole(rep, P, A):
    """queries go through all registered items and all requested intervals"""
    n = 0
    for F in P.funcs.values():
        if "macposts/_ext" not in F.file or F.name.endswith("::~"):
            continue
        for h, body in natural_loops(F):
            tc = F.blocks[h].tc
            if tc is None or tc < 0:
                continue
            inside = next((t for t in F.blocks[h].succ if t >= 0 and t in body), None)
            if inside is None or not F.blocks[inside].els:
                continue
            facts = {make(f[0], A.norm(F, f[1]), A.norm(F, f[2]))
                     for f in A.G.cond(F, tc, F.blocks[h].succ[0] == inside)}
            for f in facts:
                if f[0] not in ("<", "<=", "!="):
                    continue
                d = poly.add(poly.of(f[2]), poly.of(f[1]), -1)
                if f[0] == "<=":
                    d = poly.add(d, poly.const(1))
                vs = [x for x in poly.atoms(d) if x[0] == "V" and d.get((x,)) == -1]
                if len(vs) != 1:
                    continue
                v = vs[0]
                rest = poly.add(d, poly.atom(v))
                ups = [(nd, val, kd) for (dv, nd, val, kd) in F.defs_of()[0] if dv == v[1]]
                if not any(kd == "update" and nd in F.where() and F.where()[nd][0] in body for nd, val, kd in ups):
                    continue
                ats = poly.atoms(rest)
                if len(ats) != 1:
                    continue
                a = next(iter(ats))
                if rest.get((a,)) != 1 or not of_query(a):
                    continue
                n += 1
                what = "registered item" if a[0] == "call" else "requested interval"
                if rest.get((), 0) != 0 and f[0] != "!=":
                    if rest.get((), 0) < 0 and uses(A, F, body, v, a):
                        rep.violation("whole:%s" % F.name, F.loc(tc), "%s: the last %s is left out" % (F.name, what))
                starts = [A.path(F, val) for nd, val, kd in ups if kd in ("decl", "assign") and val is not None
                          and val >= 0 and nd in F.where() and F.where()[nd][0] not in body]
                if starts and all(x[0] == "c" and x[1].isdigit() and int(x[1]) > 0 for x in starts) and \
                        uses(A, F, body, v, a) and not first(A, F, a):
                    rep.violation("whole:%s" % F.name, F.loc(tc), "%s: the first %s is left out" % (F.name, what))
    return n


def of_query(a):
    if a[0] == "call" and a[1] == "size" and len(a) == 3 and a[2] and a[2][0] == "mem" and \
            re.match(r"m_(link|path)_vec", a[2][2]):
        return True
    return a[0] == "shape" and a[1][0] == "P"


def uses(A, F, body, v, a):
    """is an element at the counter taken in the loop"""
    base = a[2] if a[0] == "call" else ("ptr", a[1])
    for b in body:
        for e in F.blocks[b].els:
            if F.nodes[e]["k"] in ("idx", "call"):
                x = A.path(F, e)
                if x[:2] == ("idx", base) and x[2] != v and v in set(walk(x[2])):
                    return False        # neighbours are looked at together
    for b in body:
        for e in F.blocks[b].els:
            if F.nodes[e]["k"] in ("idx", "call", "bin", "decl"):
                for x in walk(A.path(F, e)):
                    if isinstance(x, tuple) and x and x[0] == "idx" and x[1:3] == (base, v):
                        return True
                for y in F.walk(e):
                    if F.nodes[y]["k"] in ("idx", "call") and A.path(F, y)[:3] == ("idx", base, v):
                        return True
    return False


def first(A, F, a):
    base = a[2] if a[0] == "call" else ("ptr", a[1])
    return any(F.nodes[i]["k"] in ("idx", "call") and (A.path(F, i)[:3] == ("idx", base, ("c", "0")) or
               A.path(F, i)[:3] in (("call", "front", base), ("call", "begin", base))) for i in range(len(F.nodes)))


def run(rep, tier):
    P = Program.load()
    A = Arrays(P)
    rep.rule("every access to a result array is below its number of elements, by the loop bounds and checks "
             "on every path to it")
    rep.rule("every element of a result array is assigned on every path to its return")
    rep.rule("row i of a result is computed from registered item i and column t from requested interval t")
    na = nc = nu = nl = 0
    for F in P.funcs.values():
        if "macposts/_ext" not in F.file:
            continue
        by = {}
        for a in A.accesses(F):
            if a.root[0] == "ctor":
                by.setdefault(a.root, []).append(a)
        for i, nd in enumerate(F.nodes):
            if nd["k"] == "ret" and nd.get("e", -1) >= 0 and i in F.where():
                r = A.path(F, nd["e"])
                if r[0] == "ctor" and "array_t<" in r[1] and A.dims(r) and plain(r):
                    by.setdefault(r, [])
        for root, acc in by.items():
            k = sorted(by, key=repr).index(root)
            for a in acc:
                ok, text = A.inside(a)
                na += ok is True
                nu += ok is None
                if ok is False:
                    rep.violation("bounds:%s:%d" % (F.name, k), F.loc(a.nid),
                                  "%s: access to the returned array: %s" % (F.name, text))
                if a.write and any(isinstance(x, tuple) and x[:2] == ("bin", "/") for x in walk(a.index)):
                    rep.violation("layout:%s:%d" % (F.name, k), F.loc(a.nid),
                                  "%s: the place of an element is computed by a division" % F.name)
                if a.write:
                    for n, text in align(A, a) or ():
                        rep.violation("layout:%s:%d" % (F.name, k), F.loc(n), "%s: %s" % (F.name, text))
                    nl += 1
            for n, text in skipped(A, F, acc):
                rep.violation("skipped:%s:%d" % (F.name, k), F.loc(n), "%s: %s" % (F.name, text))
            v = Coverage(A, F).run(root, acc)
            if v == "ok":
                nc += 1
                if nc <= 5:
                    rep.sample("%s: all %s elements assigned" % (
                        F.name, " * ".join(poly.show(poly.of(d)) for d in A.dims(root))))
            elif v == "unknown":
                rep.count("result arrays whose coverage is not understood")
            else:
                rep.violation("coverage:%s:%d" % (F.name, k), F.loc(v[0]), "%s: %s" % (F.name, v[1]))
    rep.cov["loops over registered items or requested intervals"] = whole(rep, P, A)
    rep.rule("loops over registered items and requested intervals leave out neither the first nor the last")
    rep.require("accesses to result arrays shown in bounds", na, 150)
    rep.count("accesses not understood", nu)
    rep.require("result arrays shown fully assigned", nc, 70)
    rep.require("result writes checked for layout", nl, 150)
