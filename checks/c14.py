"""C14: requested intervals and returned units are handled uniformly."""
import re

from lib import poly
from lib.arrays import Arrays
from lib.common import is_assign
from lib.prog import Program
from lib.vpath import walk

# link level: the curve is asked at the end of the interval of entry
LINK_TT = re.compile(r"^get_travel_time(_car|_truck|_bus|_walking)?(_robust)?$")
EXACT = re.compile(r"^(get_(link|busstop)_(in|out)flow\w*|add_dar_records\w*|get_path_travel_(time|cost)\w*)$")
INTERVALS = re.compile(r"^(get_(path_)?travel_time(_car|_truck|_bus|_walking)?(_robust|_from_FD)?|"
                       r"get_link_freeflow_tt_loading(_car|_truck)?|get_travel_time_from_cc)$")
PASSENGER = re.compile(r"^get_travel_(time|cost)\w*$")
TIMES = ("start_time", "end_time")


def run(rep, tier):
    P = Program.load()
    A = Arrays(P)
    rep.rule("a link travel time is asked for at one step after the requested interval, flows and assignment "
             "ratios at the requested interval itself")
    rep.rule("the unit time and the number of loaded intervals handed to the library are those of the simulation")
    rep.rule("a value returned by a query contains the unit time to the same power as travel times in intervals")
    n = nu = 0
    for F in P.funcs.values():
        ext = "macposts/_ext" in F.file
        own = not ext and any(F.vname[p] in TIMES or "time" in F.vname[p] for p in F.params)
        for i, nd in enumerate(F.nodes):
            if nd["k"] != "call" or nd.get("f") not in P.funcs:
                continue
            G = P.funcs[nd["f"]]
            if "macposts/_ext" in G.file:
                continue
            pas = bool(G.rec) and G.rec.startswith("MNM_Passenger_Path") and PASSENGER.match(G.base)
            if G.rec and not G.rec.startswith("MNM_DTA_GRADIENT") and not pas:
                continue
            link, exact = not pas and LINK_TT.match(G.base), pas or EXACT.match(G.base)
            if not link and not exact and not ext:
                continue
            for q in G.params:
                j = G.vpidx[q]
                if j >= len(nd["a"]):
                    continue
                p = A.path(F, nd["a"][j])
                if own and link and G.vname[q] in TIMES:
                    off = within(A, F, p)
                    if off is not None:
                        n += 1
                        want = 0 if LINK_TT.match(F.base) and not (F.rec or "").startswith("MNM_Passenger_Path") else 1
                        if off != want:
                            rep.violation("offset:%s:%s:%s" % (F.name, G.base, G.vname[q]), F.loc(i),
                                          "%s asks %s at %+d instead of %+d steps from the arrival at the link" % (
                                              F.name, G.name, off, want))
                if (link or exact) and G.vname[q] in TIMES and not own:
                    e = poly.of(p)
                    if not e or set(e) == {()} or any(x[0] in ("n", "deep", "?", "cond") for x in poly.atoms(e)):
                        continue
                    if any(m and any(x[0] == "call" for x in m) for m in e):
                        continue
                    n += 1
                    off = e.get((), 0)
                    if off != (1 if link else 0):
                        rep.violation("offset:%s:%s:%s" % (F.name, G.base, G.vname[q]), F.loc(i),
                                      "%s asks %s at %+d instead of %+d steps from the requested interval" % (
                                          F.name, G.name, off, 1 if link else 0))
                if "macposts/_ext" in F.file:
                    want = {"unit_interval": "m_unit_time",
                            "end_loading_timestamp": "m_current_loading_interval"}.get(G.vname[q])
                    if want:
                        nu += 1
                        if not (len(p) == 3 and p[0] == "mem" and p[2] == want) and p[0] in ("mem", "c", "bin"):
                            rep.violation("unit:%s:%s:%s" % (F.name, G.base, G.vname[q]), F.loc(i),
                                          "%s hands %s to %s as %s" % (F.name, poly.show(poly.of(p)), G.name, G.vname[q]))
    rep.require("requested times handed to the library", n, 60)
    rep.require("unit times and loaded intervals handed to the library", nu, 60)
    nr = 0
    for F in P.funcs.values():
        if "macposts/_ext" not in F.file:
            continue
        for a in A.accesses(F):
            if not a.write or a.root[0] != "ctor":
                continue
            ds = dims(P, F, a.val, a.elem, set())
            w = F.nodes[a.elem]
            if is_assign(w) and w["op"] in ("*=", "/="):
                continue
            for d in sorted(ds):
                if d[0]:
                    nr += 1
                if d[0] != d[1] and d[0]:
                    rep.violation("seconds:%s" % F.name, F.loc(a.nid),
                                  "%s returns a travel time in intervals to the power %d with the unit time to the "
                                  "power %d" % (F.name, d[0], d[1]))
    rep.require("returned values made of travel times", nr, 30)


def within(A, F, p):
    """steps added to the start time (or the time it was advanced to) by a
    function that is given a start time; None if not understood"""
    e = poly.of(p)
    off = e.get((), 0)
    ats = [m for m in e if m != ()]
    if ats == [] or any(e[m] != 1 for m in ats):
        return None
    one = [m[0] for m in ats if len(m) == 1]
    base = [x for x in one if x[0] == "P" and F.vname[param(F, x[1])] == "start_time"]
    if not base:
        vs = [x for x in one if x[0] == "V"]
        if len(ats) != 1 or len(vs) != 1:
            return None
        for (v, n, val, kind) in F.defs_of()[0]:
            if v != vs[0][1]:
                continue
            if kind in ("decl", "assign"):
                if val is None:
                    continue
                q = A.path(F, val)
                if poly.of(q).get((), 0) or not any(
                        y == vs[0] or isinstance(y, tuple) and len(y) == 2 and y[0] == "P"
                        and F.vname[param(F, y[1])] == "start_time" for y in walk(q)):
                    return None
            elif not (kind == "update" and F.nodes[n]["k"] in ("bin", "call")):
                return None
    return off


def param(F, k):
    return [p for p in F.params if F.vpidx[p] == k][0]


def dims(P, F, nid, at, busy):
    """set of (power of travel times in intervals, power of the unit time) of
    the terms of a value; terms with neither are (0, 0)"""
    nid = F.skip(nid)
    if nid is None or nid < 0 or nid in busy or len(busy) > 60:
        return set()
    busy = busy | {nid}
    n = F.nodes[nid]
    k = n["k"]
    R = lambda x: dims(P, F, x, at, busy)
    if k == "mem":
        # lengths are taken in seconds at free-flow speed
        return {"m_unit_time": {(0, 1)}, "m_length": {(1, 1)}}.get(n["n"], {(0, 0)})
    if k == "bin":
        op = n["op"]
        if op in ("*", "*="):
            return {(a[0] + b[0], a[1] + b[1]) for a in R(n["l"]) for b in R(n["r"])}
        if op in ("/", "/="):
            return {(a[0] - b[0], a[1] - b[1]) for a in R(n["l"]) for b in R(n["r"])}
        if op in ("+", "-", "+=", "-="):
            return R(n["l"]) | R(n["r"])
        return {(0, 0)}
    if k == "var":
        if F.vkind[n["v"]] != "l":
            return {(0, 0)}
        out = set()
        for (dn, val, kind) in F.reaching(n["v"], at if at in F.where() else nid):
            if kind in ("decl", "assign") and val is not None:
                out |= dims(P, F, val, dn if dn >= 0 else at, busy)
            elif kind == "update" and dn >= 0 and F.nodes[dn]["k"] == "bin":
                m = F.nodes[dn]
                r = dims(P, F, m["r"], dn, busy)
                l = dims(P, F, m["l"], dn, busy | {at}) if dn not in busy else set()
                if m["op"] in ("+=", "-="):
                    out |= l | r
                elif m["op"] == "*=":
                    out |= {(a[0] + b[0], a[1] + b[1]) for a in l for b in r}
                elif m["op"] == "/=":
                    out |= {(a[0] - b[0], a[1] - b[1]) for a in l for b in r}
        return out or {(0, 0)}
    if k == "call" and n.get("f"):
        b = P.ext[n["f"]]["base"]
        if INTERVALS.match(b):
            return {(1, 0)}
        if b in ("min", "max", "round", "ceil", "floor", "abs", "move"):
            out = set()
            for x in n["a"]:
                out |= R(x)
            return out
        if b.startswith("operator") and b[8:] in ("*", "/", "+", "-"):
            x = ([n["o"]] if n.get("o", -1) >= 0 else []) + list(n["a"])
            if len(x) == 2:
                s = 1 if b[8:] == "*" else -1
                if b[8:] in ("*", "/"):
                    return {(p[0] + s * q[0], p[1] + s * q[1]) for p in R(x[0]) for q in R(x[1])}
                return R(x[0]) | R(x[1])
        if n.get("o", -1) >= 0 and not n["a"] and b.startswith("operator "):
            return R(n["o"])
        if n["f"] in P.funcs and "macposts/_ext" in P.funcs[n["f"]].file:
            G = P.funcs[n["f"]]
            out = set()
            for _, e, m in G.all_elements():
                if m["k"] == "ret" and m.get("e", -1) >= 0 and len(busy) < 40:
                    out |= dims(P, G, m["e"], e, frozenset(range(-len(busy) - 15, 0)))
            return out or {(0, 0)}
        return {(0, 0)}
    if k == "cond":
        c = F.children(nid)
        return R(c[-2]) | R(c[-1]) if len(c) >= 3 else {(0, 0)}
    if k == "un" and n["op"] == "-":
        return R(n["e"])
    if k in ("ctor", "init") and len(n.get("a", ())) == 1:
        return R(n["a"][0])
    return {(0, 0)}
