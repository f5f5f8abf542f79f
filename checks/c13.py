"""C13: queries reject intervals outside the simulated period."""
import re

from lib import poly
from lib.arrays import Arrays
from lib.common import binding_roots, is_assign, natural_loops
from lib.guards import make
from lib.prog import Program
from lib.vpath import walk

CUR = "m_current_loading_interval"


def holds(goal, facts):
    """does goal >= 0 follow from one fact or the sum of two"""
    ps = []
    for f in facts:
        if f[0] in ("<", "<="):
            ps.append(poly.add(poly.add(poly.of(f[2]), poly.of(f[1]), -1), poly.const(-1 if f[0] == "<" else 0)))
        elif f[0] == "==":
            d = poly.add(poly.of(f[2]), poly.of(f[1]), -1)
            ps.append(d)
            ps.append(poly.mul(d, poly.const(-1)))

    def ok(d):
        return set(d) <= {()} and d.get((), 0) >= 0
    if ok(goal):
        return True
    at = poly.atoms(goal)
    one = [p for p in ps if poly.atoms(p) & at]
    for p in one:
        g = poly.add(goal, p, -1)
        if ok(g):
            return True
        for q in ps:
            if ok(poly.add(g, q, -1)):
                return True
    return False


def role(name):
    w = set(re.split(r"[_\W]+", (name or "").lower()))
    if w & {"start", "depart", "departure"}:
        return "start"
    if "end" in w:
        return "end"
    return None


def uses(A, P, F):
    """(node, element, role) of every interval handed to the library"""
    for i, n in enumerate(F.nodes):
        if n["k"] != "call" or n.get("f") not in P.funcs or i not in F.where():
            continue
        G = P.funcs[n["f"]]
        if "macposts/_ext" in G.file:
            continue
        for j, x in enumerate(n["a"]):
            g = [q for q in G.params if G.vpidx[q] == j]
            for y in walk(A.path(F, x)):
                if isinstance(y, tuple) and len(y) == 3 and y[0] == "idx" and isinstance(y[1], tuple) \
                        and y[1][0] == "ptr" and y[1][1][0] == "P":
                    par = [F.vname[q] for q in F.params if F.vpidx[q] == y[1][1][1]]
                    r = role(par[0] if par else "") or role(G.vname[g[0]] if g else "")
                    if r:
                        yield i, y, r, G


def run(rep, tier):
    P = Program.load()
    A = Arrays(P)
    rep.rule("where an element of a start (end) interval argument is handed to the library, the checks made on "
             "every path to it imply start < intervals loaded (start < end and end <= intervals loaded)")
    ns = ne = 0
    for F in P.funcs.values():
        if "macposts/_ext" not in F.file:
            continue
        us = list(uses(A, P, F))
        for i, y, r, G in us:
            if G.base == "get_travel_time_from_FD":
                # travel times of the fundamental diagram are not limited to
                # the period simulated: by design this query is not checked
                continue
            fs = A.facts_of(F, i, y[2])
            cur = {x for f in fs for z in f[1:] for x in walk(z)
                   if isinstance(x, tuple) and len(x) == 3 and x[0] == "mem" and x[2] == CUR}
            e = poly.of(y)
            if r == "start":
                ns += 1
                if not any(holds(poly.add(poly.add(poly.of(c), e, -1), poly.const(-1)), fs) for c in cur):
                    rep.violation("start:%s:%s" % (F.name, G.base), F.loc(i),
                                  "%s hands a start interval to %s that was not compared with the number of "
                                  "intervals loaded on every path" % (F.name, G.name))
            else:
                ne += 1
                if not any(holds(poly.add(poly.of(c), e, -1), fs) for c in cur):
                    rep.violation("end:%s:%s" % (F.name, G.base), F.loc(i),
                                  "%s hands an end interval to %s that was not compared with the number of "
                                  "intervals loaded on every path" % (F.name, G.name))
                mates = [z for (k, z, q, _) in us if k == i and q == "start"]
                if mates and not any(holds(poly.add(poly.add(e, poly.of(z), -1), poly.const(-1)), fs)
                                     for z in mates):
                    rep.violation("order:%s:%s" % (F.name, G.base), F.loc(i),
                                  "%s hands an interval to %s without having checked that it ends after it starts"
                                  % (F.name, G.name))
    rep.require("start intervals handed to the library", ns, 40)
    rep.require("end intervals handed to the library", ne, 20)
    verdicts(rep, P, A)
    negatives(rep, P, A)
    direct(rep, P, A)


def verdicts(rep, P, A):
    """what a comparison of a requested interval leads to"""
    rep.rule("a comparison of requested intervals with each other or with the number of intervals loaded leads to an "
             "error only for intervals outside the period, and never to skipping a requested interval without one")
    n = 0
    for F in P.funcs.values():
        if "macposts/_ext" not in F.file or not F.blocks:
            continue
        alive = None
        for bid, b in F.blocks.items():
            if b is None or len(b.succ) != 2 or b.tc is None or b.tc < 0:
                continue
            cnd = A.G.last(F, b.tc, b)
            for k, t in enumerate(b.succ):
                if t is None or t < 0:
                    continue
                fs = {make(f[0], A.norm(F, f[1]), A.norm(F, f[2])) for f in A.G.cond(F, cnd, k == 0)}
                fs = {f for f in fs if f[0] in ("<", "<=", "==")}
                ys = {y: r for f in fs for y, r in elements(F, f)}
                if not ys or not any(cmp(F, f) for f in fs):
                    continue
                n += 1
                if alive is None:
                    alive = living(F)
                other = b.succ[1 - k]
                doomed = t not in alive
                goals = outside(F, fs, ys)
                if doomed and other in alive:
                    e = next((x for x in b.els), None)
                    known = fs | (A.facts(F, e) if e is not None else set())
                    if not any(holds(g, known) for g in goals):
                        rep.violation("rejects:%s" % F.name, F.loc(cnd),
                                      "%s rejects intervals that are within the period simulated" % F.name)
                elif not doomed and any(holds(g, fs) for g in goals) and silent(F, t):
                    rep.violation("skips:%s" % F.name, F.loc(cnd),
                                  "%s skips a requested interval outside the period instead of raising an error" % F.name)
    rep.count("comparisons of requested intervals", n)


def elements(F, f):
    for z in f[1:]:
        for y in walk(z):
            if isinstance(y, tuple) and len(y) == 3 and y[0] == "idx" and isinstance(y[1], tuple) \
                    and y[1][0] == "ptr" and y[1][1][0] == "P":
                par = [F.vname[q] for q in F.params if F.vpidx[q] == y[1][1][1]]
                r = role(par[0] if par else "")
                if r:
                    yield y, r


def iscur(x):
    return isinstance(x, tuple) and len(x) == 3 and x[0] == "mem" and x[2] == CUR


def cmp(F, f):
    """a comparison of an interval with the intervals loaded or another interval"""
    ys = {y for y, _ in elements(F, f)}
    return bool(ys) and (len(ys) > 1 or any(iscur(x) for z in f[1:] for x in walk(z)))


def outside(F, fs, ys):
    cur = {x for f in fs for z in f[1:] for x in walk(z) if iscur(x)}
    for y, r in ys.items():
        e = poly.of(y)
        yield poly.add(poly.mul(e, poly.const(-1)), poly.const(-1))
        for c in cur:
            yield poly.add(poly.add(e, poly.of(c), -1), poly.const(0 if r == "start" else -1))
        if r == "start":
            for z, q in ys.items():
                if q == "end":
                    yield poly.add(e, poly.of(z), -1)


def living(F):
    """blocks from which the function can return normally"""
    pred = {}
    for i, b in F.blocks.items():
        if b is not None and not F.aborts(i):
            for s in b.succ:
                if s is not None and s >= 0:
                    pred.setdefault(s, []).append(i)
    seen, st = {F.exit}, [F.exit]
    while st:
        for x in pred.get(st.pop(), ()):
            if x not in seen:
                seen.add(x)
                st.append(x)
    return seen


def silent(F, t):
    """does control go from t to the next iteration or the end without doing
    anything"""
    heads = {h for h, _ in natural_loops(F)}
    for _ in range(12):
        if t in heads or t == F.exit:
            return True
        b = F.blocks[t]
        if len(b.succ) != 1:
            return False
        for e in b.els:
            n = F.nodes[e]
            if n["k"] in ("call", "ctor", "decl", "ret", "throw", "new") or is_assign(n):
                return False
        t = b.succ[0]
    return False


def negatives(rep, P, A):
    """tables with one entry per interval, handed to a function together with a
    departure time, are read only when that time is known not to be negative"""
    rep.rule("a per-interval table argument is read at a position computed from a time argument only after "
             "that argument was checked not to be negative")
    n = 0
    live = P.reachable(binding_roots(P)[1])
    for F in P.funcs.values():
        if F.key not in live:
            continue
        tabs = {F.vpidx[p] for p in F.params if "unordered_map<int, double *" in F.vtype[p]}
        times = {F.vpidx[p]: p for p in F.params if F.vtype[p] == "double"}
        if not tabs or not times:
            continue
        for i, nd in enumerate(F.nodes):
            if nd["k"] != "idx":
                continue
            if not any(x == ("P", t) for x in walk(A.path(F, nd["b"])) for t in tabs):
                continue
            for t in sources(F, nd["i"], i) & set(times):
                n += 1
                el = i if i in F.where() else None
                if el is None:
                    continue
                if not holds(poly.of(("P", t)), A.facts(F, el)):
                    rep.violation("negative:%s:%s" % (F.name, F.vname[times[t]]), F.loc(i),
                                  "%s reads a per-interval table at a position computed from %s, which may be negative"
                                  % (F.name, F.vname[times[t]]))
    rep.count("per-interval table reads positioned by a time argument", n)


def direct(rep, P, A):
    """series kept per interval and read by the binding itself"""
    rep.rule("a series or table of the simulation is read at an interval given by the caller only after that "
             "interval was checked not to be negative")
    n = 0
    bs, _ = binding_roots(P)
    for key in sorted({b.target for b in bs if b.target in P.funcs}):
        F = P.funcs[key]
        for i, nd in enumerate(F.nodes):
            if nd["k"] == "idx":
                base, ix = nd["b"], nd["i"]
            elif nd["k"] == "call" and nd.get("f") and P.ext[nd["f"]]["base"] == "operator[]" and nd["a"] \
                    and nd.get("o", -1) >= 0 and "map<" not in (P.ext[nd["f"]].get("rec") or ""):
                base, ix = nd["o"], nd["a"][0]
            else:
                continue
            if A.path(F, base)[0] in ("ptr", "shapes") or i not in F.where():
                continue
            for y, w in origins(A, F, A.path(F, ix), i, set()):
                n += 1
                g = [x for x in walk(y) if isinstance(x, tuple) and leaf(F, x)][0]
                if holds(poly.of(y), A.facts_of(F, w, g[2] if g[0] == "idx" else g)):
                    continue
                rep.violation("negative:%s" % F.name, F.loc(i),
                              "%s reads at an interval given by the caller that may be negative" % F.name)
    rep.require("reads at an interval given by the caller", n, 3)


def leaf(F, y):
    """a number the caller gave: a scalar parameter or an element of an array parameter"""
    if y[0] == "P" and len(y) == 2:
        return any(F.vpidx[p] == y[1] and F.vtype[p].replace("const ", "").strip(" &") in
                   ("int", "double", "float", "long", "unsigned int", "TInt", "TFlt") for p in F.params)
    return y[0] == "idx" and len(y) == 3 and isinstance(y[1], tuple) and y[1][0] == "ptr" and y[1][1][0] == "P"


def origins(A, F, p, at, seen):
    """(value, node): the numbers given by the caller that p is, or is computed
    from by copying, adding and choosing, each where it is taken up"""
    ats = [x for x in poly.atoms(poly.of(p))]
    if len(ats) == 1 and leaf(F, ats[0]):
        yield p, at
        return
    if p[0] == "V":
        if p[1] in seen:
            return
        seen.add(p[1])
        for (dn, val, kind) in F.reaching(p[1], at):
            if val is not None and kind in ("decl", "assign"):
                yield from origins(A, F, A.path(F, val), dn, seen)
        return
    if p[0] == "cond" and len(p) >= 4:
        # children are listed true value, false value, condition
        qs = p[1:3]
    elif p[0] == "bin" and p[1] in ("+", "-"):
        qs = p[2:4]
    elif p[0] == "call" and p[1] == "min" and len(p) == 5:
        qs = p[3:5]
    else:
        return
    for q in qs:
        yield from origins(A, F, q, at, seen)


def sources(F, nid, at):
    """indices of the parameters a value is computed from"""
    out, seen, st = set(), set(), [(nid, at)]
    while st:
        x, pos = st.pop()
        if x is None or x < 0 or (x, pos) in seen:
            continue
        seen.add((x, pos))
        n = F.nodes[x]
        if n["k"] == "var":
            if F.vkind[n["v"]] == "p":
                out.add(F.vpidx[n["v"]])
                continue
            for (dn, val, kind) in F.reaching(n["v"], pos):
                if val is not None and kind in ("decl", "assign"):
                    st.append((val, dn if dn >= 0 else pos))
                elif kind == "update" and dn >= 0 and dn != pos:
                    st.append((F.nodes[dn].get("l", F.nodes[dn].get("e", -1)), dn))
            continue
        for c in F.children(x):
            st.append((c, pos))
    return out
