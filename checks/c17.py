"""C17: demand is released in full, per OD pair."""
from lib import poly
import re

from lib.common import is_assign, natural_loops
from lib.prog import Program, short
from lib.release import Release, ROUND
from lib.vpath import walk

ORIGIN = "MNM_Origin"
NEED = {
    ("MNM_Origin", "release"): {"m_demand"},
    ("MNM_Origin", "release_one_interval"): {"m_demand"},
    ("MNM_Origin_Multiclass", "release_one_interval"): {"m_demand_car", "m_demand_truck"},
    ("MNM_Origin_Multiclass", "release_one_interval_biclass"): {"m_demand_car", "m_demand_truck"},
    ("MNM_Origin_Multimodal", "release_one_interval"):
        {"m_demand_car", "m_demand_truck", "m_demand_bus", "m_demand_pnr_car"},
    ("MNM_Origin_Multimodal", "release_one_interval_biclass"):
        {"m_demand_car", "m_demand_truck", "m_demand_bus", "m_demand_pnr_car"},
    ("MNM_Origin_Multimodal", "release_one_interval_passenger"): {"m_demand_passenger_bus"},
    ("MNM_Origin_Delivery", "release_one_interval"): {"m_demand", "m_demand_multi_OD_seq"},
    ("MNM_Origin_EV", "release_one_interval"): {"m_demand", "m_demand_multi_OD_seq"},
}
CLS = {"m_demand_car": "0", "m_demand_truck": "1", "m_demand_bus": "1", "m_demand_pnr_car": "0"}
FLOOR = {"m_demand_bus"}        # whole buses only


def run(rep, tier):
    P = Program.load()

    def make(F, n):
        if n["k"] != "call" or not n.get("f"):
            return False
        e = P.ext[n["f"]]
        r = e.get("rec") or ""
        return e["base"].startswith("make_") and r in P.records and (
            P.isa(r, "MNM_Veh_Factory") or P.isa(r, "MNM_Passenger_Factory"))

    def attr(F, n):
        if n["k"] == "call" and n.get("f"):
            b = P.ext[n["f"]]["base"]
            if b in ("set_destination", "set_origin") and n["a"]:
                return b[4:], n["a"][0]
        if is_assign(n) and n["op"] == "=":
            l = F.nodes[F.skip(n["l"])]
            if l["k"] == "mem" and l["n"] == "m_assign_interval":
                return "interval", n["r"]
        return None

    R = Release(P, make, attr)
    release(rep, P, R)
    stores(rep, P, R)
    reading(rep, P, R)
    loading(rep, P, R)


def release(rep, P, R):
    rep.rule("in every release function of an origin, the creations driven by a demand table happen in a loop of "
             "round(demand of the OD pair in the interval assigned x flow scalar) iterations (whole buses: rounded "
             "down), one creation per iteration; the loop is reached for every entry of the table unless its count "
             "is zero, and each table of the class is traversed")
    rep.rule("each object created gets the destination of the entry whose demand is counted, this origin, the "
             "interval it is released in and the vehicle class of the table")
    rep.rule("an adaptive ratio looked up for an entry is the one of the same OD pair and class; where a creation "
             "follows a comparison of the ratio with 0, 1 or a random number, its routing type agrees with it")
    rep.rule("nothing that decides how an object is created is carried over from one entry to the next")
    nu = nr = nt = 0
    for (rec, base), need in sorted(NEED.items()):
        Fs = P.byname.get("%s::%s" % (rec, base), [])
        Fs = [F for F in Fs if F.blocks]
        if not Fs:
            continue
        F = Fs[0]
        us = R.units(F)
        seen = {}
        und = False
        for u in us:
            nu += 1
            top, H = u, F
            if u.home:
                H, u = u.home
                if not top.args_ok:
                    rep.violation("interval:%s" % F.name, F.loc(top.node), "%s hands on other intervals than it was "
                                  "given" % F.name)
            where = u.site[0].loc(u.site[1])
            tag = "%s:%s" % (F.name, u.site[0].name if u.site[0] is not F else "")
            for b in u.bad:
                rep.violation("count:%s" % tag, where, "%s: %s" % (F.name, b))
            if u.bad:
                und = True
                continue
            if u.count is None:
                rep.violation("count:%s" % tag, where,
                              "%s creates an object outside any loop over the number to release" % F.name)
                continue
            t = demand(R, H, u)
            if t is None:
                # not the demand: say what is counted
                rep.violation("count:%s" % tag, where, "%s creates %s objects, which is not the demand of an OD pair "
                              "times the flow scalar" % (F.name, poly.show(u.count)[:200]))
                continue
            kind, D, it, a, rnd = t
            if kind == "undecided":
                R.undecided.append((F, u.node, D))
                und = True
                continue
            ch = chain(R, H, it, u.block)
            if not ch:
                R.undecided.append((F, u.node, "demand table not recognised"))
                und = True
                continue
            table = ch[-1][1]
            seen.setdefault(table, []).append((u, top.block if u is not top else ch[-1][2]))
            tag = "%s:%s" % (F.name, table)
            rep.sample("%s: round(%s x flow scalar) objects for each entry of %s" % (F.name, poly.pp(D), table))
            if not interval(H, a, base):
                rep.violation("interval:%s" % tag, where, "%s counts the demand of interval %s, not of the interval "
                              "assigned" % (F.name, poly.pp(a)))
            if rnd not in ({"round"} if table not in FLOOR else ROUND):
                rep.violation("rounding:%s" % tag, where, "%s turns the demand in %s into a number of objects with "
                              "%s" % (F.name, table, rnd or "truncation"))
            if (u.lo, u.hi) != (1, 1):
                rep.violation("per-iteration:%s" % tag, where, "%s creates between %d and %d objects for one unit of "
                              "demand in %s" % (F.name, u.lo, u.hi, table))
            attributes(rep, H, u, ch, tag, where, base)
            if table in CLS:
                for args in u.args:
                    if len(args) >= 3 and args[2][0] == "c" and args[2][1] != CLS[table]:
                        rep.violation("class:%s" % tag, where, "%s creates an object of vehicle class %s for an "
                                      "entry of %s" % (F.name, args[2][1], table))
            nr += ratios(rep, P, R, H, u, ch, tag, where, a, base)
            reached(rep, R, H, u, ch, tag, None if H is F else (F, top.block))
        nt += types(rep, P, R, F, F.name)
        for table in sorted(need - set(seen)):
            if und or any(G is F or short(G.key) in {short(x.key) for x in [F]} for G, _, _ in R.undecided):
                continue
            rep.violation("table:%s:%s" % (F.name, table), F.loc(), "%s releases nothing for the demand in %s"
                          % (F.name, table))
        for table, l in sorted(seen.items()):
            if len(l) > 1 and not exclusive(R, F, l):
                rep.violation("twice:%s:%s" % (F.name, table), l[1][0].site[0].loc(l[1][0].site[1]),
                              "%s releases the demand in %s twice" % (F.name, table))
    rep.require("groups of creations", nu, 15)
    rep.cov["look-ups of an adaptive ratio"] = nr
    rep.cov["routing types chosen by a ratio"] = nt
    rep.cov["not judged"] = ["%s: %s" % (F.loc(i), t) for F, i, t in R.undecided]


def exclusive(R, F, l):
    """the units lie on different paths"""
    bs = [b for _, b in l]
    return len(set(bs)) == len(bs) and not any(y in F.reach_from(x) for x in bs for y in bs if x != y)


def demand(R, F, u):
    """(kind, demand element, iterator, interval, rounding) of the count"""
    c = u.count
    if len(c) != 1 or list(c.values())[0] != 1 or len(list(c)[0]) == 0:
        return None
    rnd = None
    m = list(c)[0]
    if len(m) == 1 and m[0][0] == "call" and m[0][1] in ROUND:
        rnd = m[0][1]
        x = [y for y in m[0][3:] if y is not None]
        if len(x) != 1:
            return None
        c = poly.of(x[0])
        if len(c) != 1 or list(c.values())[0] != 1:
            return None
        m = list(c)[0]
    elif len(m) == 1 and m[0][0] in ("V", "P", "n", "call", "cond"):
        return ("undecided", "count %s not understood" % poly.pp(m[0]), None, None, None)
    D = [x for x in m if x[0] == "idx"]
    S = [x for x in m if len(x) == 3 and x[0] == "mem" and x[2] == "m_flow_scalar"]
    if len(m) != 2 or len(D) != 1 or len(S) != 1:
        if any(isinstance(y, tuple) and y and y[0] in ("n", "deep", "?", "C") for x in m for y in walk(x)):
            return ("undecided", "count %s not understood" % poly.show(c), None, None, None)
        return None
    b = D[0][1]
    if b[0] == "mem" and b[2] == "second" and b[1][0] == "V":
        return ("ok", D[0], b[1][1], D[0][2], rnd)
    return ("undecided", "demand %s not understood" % poly.pp(D[0]), None, None, None)


def interval(F, a, base):
    if base == "release":
        return a == ("mem", ("T",), "m_current_assign_interval")
    return a in (("P", 2), ("mem", ("T",), "m_current_assign_interval"))


def chain(R, F, it, block):
    """[(iterator, table or None, header, body)] from the loop over `it` outwards"""
    out = []
    while True:
        hit = None
        for h, body in R.loops(F):
            if block in body:
                t = R.traversal(F, h, body)
                if t and t[0] == it:
                    hit = (h, body, t[1])
                    break
        if not hit:
            return []
        h, body, c = hit
        if c[0] == "mem" and c[1] == ("T",):
            out.append((it, c[2], h, body))
            return out
        if c[0] == "mem" and c[2] == "second" and c[1][0] == "V" and len(out) < 3:
            out.append((it, None, h, body))
            it = c[1][1]
            block = h
            continue
        return []


def attributes(rep, F, u, ch, tag, where, base):
    its = {c[0] for c in ch}
    ds = u.attrs.get("destination", [])
    if not ds or not all(m for _, m in ds):
        rep.violation("destination:%s" % tag, where, "%s creates objects that may not get a destination" % F.name)
    for p, _ in ds:
        # the key of the table entry (the destination, or the sequence of stops)
        roots = [x for x in walk(p) if isinstance(x, tuple) and x and x[0] in ("V", "P", "n", "?", "deep")]
        key = [x for x in walk(p) if isinstance(x, tuple) and len(x) == 3 and x[0] == "mem" and x[2] == "first"
               and x[1][0] == "V"]
        ok = any(k[1][1] == ch[-1][0] for k in key)
        if ok and p not in key and not (p[0] == "mem" and p[2] == "second" and p[1][0] == "idx"
                                        and p[1][2] == ("c", "0")):
            ok = False
        if not ok and any(x[0] in ("n", "?", "deep") for x in roots):
            continue
        if not ok:
            rep.violation("destination:%s" % tag, where, "%s gives objects released for one OD pair the destination %s"
                          % (F.name, poly.pp(p)))
    os_ = u.attrs.get("origin", [])
    if not os_ or not all(m for _, m in os_):
        rep.violation("origin:%s" % tag, where, "%s creates objects that may not get their origin" % F.name)
    for p, _ in os_:
        if p != ("T",) and p[0] not in ("n", "?", "deep", "V"):
            rep.violation("origin:%s" % tag, where, "%s gives the objects another origin" % F.name)
    if base == "release":
        return
    iv = u.attrs.get("interval", [])
    if not iv or not all(m for _, m in iv):
        rep.violation("departure:%s" % tag, where, "%s creates objects without recording the interval they were "
                      "released in" % F.name)
    for p, _ in iv:
        if p[0] in ("n", "?", "deep", "V"):
            continue
        if p != ("bin", "/", ("P", 0), ("mem", ("T",), "m_frequency")):
            rep.violation("departure:%s" % tag, where, "%s records %s as the interval of release" % (F.name, poly.pp(p)))


def zero(R, F, u):
    """edges taken only if there is nothing to release"""
    def f(b, k):
        blk = F.blocks[b]
        if blk.tc is None or blk.tc < 0 or len(blk.succ) != 2 or blk.tk in ("SwitchStmt", "CXXForRangeStmt"):
            return False
        c = R.G.last(F, blk.tc, blk)
        for (op, a, b2) in R.G.cond(F, c, k == 0):
            x, y = poly.of(R.resolve(F, a, c)), poly.of(R.resolve(F, b2, c))
            if op in ("==", "<=", "<"):
                d = poly.add(x, y, -1) if op != "<" else poly.add(poly.add(x, y, -1), poly.const(1))
                # count <= 0
                if d == u.count:
                    return True
                if op == "==" and poly.mul(d, poly.const(-1)) == u.count:
                    return True
                # demand <= 0
                for m in u.count:
                    for z in m:
                        for w in walk(z):
                            if isinstance(w, tuple) and w and w[0] == "idx" and d == poly.of(w):
                                return True
        return False
    return f


def negative(R, F):
    """edges taken only outside the demand period"""
    def f(b, k):
        blk = F.blocks[b]
        if blk.tc is None or blk.tc < 0 or len(blk.succ) != 2 or blk.tk in ("SwitchStmt", "CXXForRangeStmt"):
            return False
        c = R.G.last(F, blk.tc, blk)
        for (op, a, b2) in R.G.cond(F, c, k == 0):
            x, y = R.resolve(F, a, c), R.resolve(F, b2, c)
            if op in ("<", "<=", "==") and x == ("P", 2) and y[0] == "c" and float(y[1]) <= (0 if op == "<" else -1):
                return True
            if op == "==" and y == ("P", 2) and x[0] == "c" and float(x[1]) < 0:
                return True
        return False
    return f


def reached(rep, R, F, u, ch, tag, call):
    target = u.block
    for j, (it, c, h, body) in enumerate(ch):
        name = ch[-1][1]
        why = R.partial(F, h, body, it)
        if why:
            rep.violation("traversal:%s" % tag, F.loc(first(F, h)), "%s may not visit every entry of %s: %s"
                          % (F.name, name, why))
        if target != h and R.avoid(F, (h, body), {target}, zero(R, F, u)):
            rep.violation("skipped:%s" % tag, F.loc(first(F, h)), "%s may release nothing for an entry of %s although "
                          "its demand is not zero" % (F.name, name))
        target = h
        carried(rep, R, F, u, h, body, tag)
    if F.base == "release":
        return
    if R.avoid(F, None, {target}, negative(R, F)):
        rep.violation("skipped:%s" % tag, F.loc(first(F, target)), "%s may return without releasing the demand in %s"
                      % (F.name, ch[-1][1]))
    if call and R.avoid(call[0], None, {call[1]}, negative(R, call[0])):
        rep.violation("skipped:%s" % tag, call[0].loc(first(*call)), "%s may return without releasing the demand in %s"
                      % (call[0].name, ch[-1][1]))


def first(F, h):
    for e in F.blocks[h].els:
        return e
    return F.blocks[h].tc


def carried(rep, R, F, u, h, body, tag):
    """a variable that decides about creations and keeps its value from one
    entry of the table to the next"""
    rel = relevant(R, F, body)
    defs, gen, IN, byvar = F.defs_of()
    for use in sorted(rel):
        v = F.nodes[use]["v"]
        el = rel[use]
        inb = [d for d in F.reaching(v, el) if d[2] in ("assign", "update", "decl") and d[0] in F.where()
               and F.where()[d[0]][0] in body]
        if not inb:
            continue
        # does a definition in the body reach this use only around the loop?
        outside = [d for d in F.reaching(v, el) if d[0] not in F.where() or F.where()[d[0]][0] not in body]
        if not outside:
            continue
        if F.vkind[v] == "l" and is_iter(R, F, v):
            continue
        rep.violation("carried:%s:%s" % (tag, F.vname[v]), F.loc(use), "%s: %s is changed for one entry of the demand "
                      "table and used for the next ones" % (F.name, F.vname[v]))


def is_iter(R, F, v):
    for h, body in R.loops(F):
        t = R.traversal(F, h, body)
        if t and t[0] == v:
            return True
    return False


def relevant(R, F, body):
    """{variable use: element} in arguments of creations, attributes and in the
    conditions that choose between creations"""
    out = {}
    mk = set()
    for b in body:
        for e in F.blocks[b].els:
            n = F.nodes[e]
            if n["k"] == "call" and (R.make(F, n) or R.units_of(F, e)):
                mk.add(b)
                for x in F.walk(e):
                    if F.nodes[x]["k"] == "var":
                        out[x] = e
            elif R.attr(F, n):
                for x in F.walk(R.attr(F, n)[1]):
                    if F.nodes[x]["k"] == "var":
                        out[x] = e
    for b in body:
        blk = F.blocks[b]
        if blk.tc is None or blk.tc < 0 or len(blk.succ) < 2:
            continue
        rs = []
        for s in blk.succ:
            seen, st = set(), [s]
            while st:
                x = st.pop()
                if x < 0 or x in seen or x not in body:
                    continue
                seen.add(x)
                st.extend(F.blocks[x].succ)
            rs.append(frozenset(mk & near(F, s, body)))
        if len(set(rs)) > 1:
            c = R.G.last(F, blk.tc, blk)
            for x in F.walk(blk.tc):
                if F.nodes[x]["k"] == "var":
                    out[x] = c
    # through locals that copy
    st = list(out.items())
    while st:
        x, e = st.pop()
        v = F.nodes[x]["v"]
        for (dn, val, kind) in F.reaching(v, e):
            if kind in ("decl", "assign") and val is not None and dn in F.where() and F.where()[dn][0] in body:
                for y in F.walk(val):
                    if F.nodes[y]["k"] == "var" and y not in out:
                        out[y] = dn
                        st.append((y, dn))
    return out


def near(F, s, body):
    """blocks reached from s without going around a loop that contains s"""
    dom = set()
    seen, st = set(), [s]
    while st:
        x = st.pop()
        if x < 0 or x in seen or x not in body:
            continue
        seen.add(x)
        for t in F.blocks[x].succ:
            if t >= 0 and not F.dominates(t, x):
                st.append(t)
    return seen


# ------------------------------------------------- choice of the routing type
def ratios(rep, P, R, F, u, ch, tag, where, index, base):
    """the override of the adaptive ratio belongs to the entry; the type follows
    the ratio"""
    it, table, h, body = ch[-1]
    n = 0
    used = set()
    for b in body:
        for e in F.blocks[b].els:
            for x in [e]:
                p = R.value(F, x, e)
                for q in walk(p):
                    if not (isinstance(q, tuple) and q):
                        continue
                    if q[0] == "call" and len(q) >= 4 and q[1] in ("find", "count", "at"):
                        c, k = q[2], q[3]
                    elif q[0] == "idx" and len(q) == 3:
                        c, k = q[1], q[2]
                    else:
                        continue
                    if not (isinstance(c, tuple) and len(c) == 3 and c[0] == "mem" and c[1] == ("T",)
                            and c[2].startswith("m_adaptive_ratio")):
                        continue
                    n += 1
                    if k[0] == "mem" and k[2] == "first" and k[1] != ("V", it) and k[1][0] == "V":
                        rep.violation("ratio-key:%s" % tag, F.loc(e), "%s looks up the adaptive ratio of another OD "
                                      "pair" % F.name)
                    if q[0] == "idx" or q[1] == "at" or any(isinstance(y, tuple) and len(y) == 3 and y[0] == "mem"
                                                            and y[1] == q for y in walk(p)):
                        used.add(c[2])
                    a, b2 = suffix(c[2], "m_adaptive_ratio"), suffix(table, "m_demand")
                    if a != b2:
                        rep.violation("ratio-class:%s" % tag, F.loc(e), "%s uses %s for the demand in %s"
                                      % (F.name, c[2], table))
                    if q[0] == "call" and q[1] == "find":
                        found(rep, R, F, e, p, q, h, body, tag, index, base)
    # creations of both types are drawn with the ratio of the OD pair where the class keeps one
    own = "m_adaptive_ratio" + table[len("m_demand"):]
    types = {R.value(F, F.nodes[i]["a"][1], i) for b in body for i in F.blocks[b].els
             if F.nodes[i]["k"] == "call" and R.make(F, F.nodes[i]) and len(F.nodes[i]["a"]) > 1}
    if {STATIC, ADAPTIVE} <= types and own not in used and has_field(P, F.rec, own):
        rep.violation("ratio-own:%s" % tag, where, "%s releases the demand in %s without a look at the ratios of its "
                      "OD pairs" % (F.name, table))
    return n


def has_field(P, rec, name):
    seen, st = set(), [rec]
    while st:
        r = st.pop()
        if r in seen or r not in P.records:
            continue
        seen.add(r)
        if any(f["n"] == name for f in P.records[r]["fields"]):
            return True
        st += [b[0] for b in P.records[r]["bases"]]
    return False


def presence(R, F, body, q):
    """the edges on which find `q` succeeded, and those on which it failed"""
    yes, no = set(), set()
    for b in body:
        blk = F.blocks[b]
        if blk.tc is None or blk.tc < 0 or len(blk.succ) != 2:
            continue
        for k, sense in ((0, True), (1, False)):
            for f in R.G.cond(F, decided(F, blk.tc), sense):
                if len(f) != 3:
                    continue
                z = R.G.last(F, blk.tc, blk)
                op, l, r = f[0], R.resolve(F, f[1], z), R.resolve(F, f[2], z)
                for x, o in ((l, r), (r, l)):
                    if x == q and o[0] == "call" and o[1] in ("end", "cend") and o[2] == q[2]:
                        if op == "!=":
                            yes.add((b, blk.succ[k]))
                        if op == "==":
                            no.add((b, blk.succ[k]))
                    if x[0] == "call" and x[1] == "count" and x[2:4] == q[2:4]:
                        if op == "!=" and o == ("c", "0") or op == "==" and o == ("c", "1") or \
                                op in ("<", "<=") and x is r and o in (("c", "0"), ("c", "1")):
                            yes.add((b, blk.succ[k]))
                        if op == "==" and o == ("c", "0") or op == "<" and x is l and o == ("c", "1"):
                            no.add((b, blk.succ[k]))
    return yes, no


def behind(F, start, body, cut):
    """the blocks of body reached from start without an edge of cut (and not around start)"""
    seen, st = {start}, [start]
    while st:
        b = st.pop()
        for s in F.blocks[b].succ:
            if s in body and s not in seen and (b, s) not in cut and s != start:
                seen.add(s)
                st.append(s)
    return seen


def found(rep, R, F, e, p, q, h, body, tag, index, base):
    """an entry looked for is used only where it was found, and for the interval assigned"""
    if p[0] != "idx" or p[1][:2] != ("mem", q) or F.nodes[e]["k"] not in ("idx", "call"):
        return
    for y in walk(p):
        if isinstance(y, tuple) and len(y) == 3 and y[0] == "idx" and isinstance(y[1], tuple) and \
                y[1][:2] == ("mem", q) and index is not None and not interval(F, y[2], base) and y[2][0] in ("P", "mem", "bin", "c"):
            rep.violation("ratio-interval:%s" % tag, F.loc(e), "%s uses the adaptive ratio of another interval"
                          % F.name)
    yes, _ = presence(R, F, body, q)
    at = F.where()[e][0] if e in F.where() else None
    seen, st = {h}, [h]
    while st:
        b = st.pop()
        for s in F.blocks[b].succ:
            if s in body and s not in seen and (b, s) not in yes and s != h:
                seen.add(s)
                st.append(s)
    if at in seen and at != h:
        rep.violation("ratio-found:%s" % tag, F.loc(e), "%s uses the adaptive ratio of an OD pair without having "
                      "found it" % F.name)


def suffix(s, pre):
    return s[len(pre):].lstrip("_")


def types(rep, P, R, F, tag):
    """STATIC / ADAPTIVE agrees with the comparisons that lead to a creation"""
    n = 0
    for i, nd in enumerate(F.nodes):
        if nd["k"] != "call" or not R.make(F, nd) or len(nd["a"]) < 2 or i not in F.where():
            continue
        t = R.value(F, nd["a"][1], i)
        fs = [(op, R.resolve(F, a, i), R.resolve(F, b, i)) for op, a, b in R.G.at(F, i)]
        if t[0] == "cond" and len(t) >= 4:
            c = comparison(F, t[3])
            if c is None:
                continue
            n += 1
            if {c: t[1], not c: t[2]}.get(True) != ADAPTIVE or {c: t[1], not c: t[2]}.get(False) != STATIC:
                rep.violation("type:%s" % F.name, F.loc(i), "%s makes the share of adaptive travellers the share of "
                              "static ones" % F.name)
            continue
        if t not in (ADAPTIVE, STATIC):
            continue
        lone(rep, R, F, i, t)
        for f in fs:
            w = None
            if f[0] == "==" and ("c", "0") in f[1:] and any(israte(F, x) for x in f[1:]):
                w = STATIC
            elif f[0] == "==" and ("c", "1") in f[1:] and any(israte(F, x) for x in f[1:]):
                w = ADAPTIVE
            else:
                c = comparison(F, ("bin",) + f) if f[0] in ("<", "<=") else None
                if c is not None:
                    w = ADAPTIVE if c else STATIC
            if w is not None:
                n += 1
                if w != t:
                    rep.violation("type:%s" % F.name, F.loc(i), "%s creates %s travellers where the ratio asks for "
                                  "%s ones" % (F.name, NAME[t], NAME[w]))
    return n


def decided(F, tc):
    """the operand of a short-circuit condition that is decided in its last block"""
    n = F.nodes[F.skip(tc)]
    while n["k"] == "bin" and n["op"] in ("&&", "||"):
        tc = n["r"]
        n = F.nodes[F.skip(tc)]
    return tc


def asks(F, f):
    """the type a comparison asks for: of the ratio with 0, 1 or a random number"""
    op, a, b = f
    if op == "==" and ("c", "0") in (a, b) and any(israte(F, x) for x in (a, b)):
        return STATIC
    if op == "==" and ("c", "1") in (a, b) and any(israte(F, x) for x in (a, b)):
        return ADAPTIVE
    if op in ("<", "<="):
        if b == ("c", "0") and israte(F, a):
            return STATIC
        if a == ("c", "1") and israte(F, b):
            return ADAPTIVE
        c = comparison(F, ("bin",) + tuple(f))
        if c is not None:
            return ADAPTIVE if c else STATIC
    return None


def lone(rep, R, F, i, t):
    """where the ratio decides about the travellers created in a loop, every way to a
    creation of one type passes a comparison that asks for that type"""
    at = F.where()[i][0]
    ls = [l for l in R.loops(F) if at in l[1]]
    if not ls:
        return
    h, body = ls[0]
    yes, decides, plain = set(), False, False
    for b in body:
        blk = F.blocks[b]
        if blk.tc is None or blk.tc < 0 or len(blk.succ) != 2 or b == h:
            continue
        known = False
        for k, sense in ((0, True), (1, False)):
            for f in R.G.cond(F, decided(F, blk.tc), sense):
                if len(f) != 3:
                    continue
                g = (f[0], R.resolve(F, f[1], R.G.last(F, blk.tc, blk)), R.resolve(F, f[2], R.G.last(F, blk.tc, blk)))
                w = asks(F, g)
                if w is not None:
                    known = True
                    decides = True
                    if w == t:
                        yes.add((b, blk.succ[k]))
        if not known and F.nodes[F.skip(decided(F, blk.tc))]["k"] in ("var", "mem", "call"):
            plain = True
    if not decides or plain:
        return
    seen, st = {h}, [h]
    while st:
        b = st.pop()
        for s in F.blocks[b].succ:
            if s in body and s not in seen and (b, s) not in yes and s != h:
                seen.add(s)
                st.append(s)
    if at in seen and at != h:
        rep.violation("type:%s" % F.name, F.loc(i), "%s creates %s travellers without the ratio having asked for them"
                      % (F.name, NAME[t]))


STATIC, ADAPTIVE = ("enum", "MNM_TYPE_STATIC"), ("enum", "MNM_TYPE_ADAPTIVE")
NAME = {STATIC: "static", ADAPTIVE: "adaptive"}


def israte(F, x):
    if x[0] == "P":
        return any(F.vpidx[q] == x[1] and F.vtype[q] in ("double", "const double", "TFlt") for q in F.params)
    if x[0] == "V":
        return F.vtype[x[1]] in ("double", "const double", "TFlt")
    return any(isinstance(y, tuple) and len(y) == 3 and y[0] == "mem" and y[2].startswith("m_adaptive_ratio")
               for y in walk(x))


def israndom(x):
    return any(isinstance(y, tuple) and len(y) >= 2 and y[0] == "call" and y[1] in ("rand_flt", "rand")
               for y in walk(x))


def comparison(F, p):
    """True: random number below the ratio; False: above; None: other"""
    if p[0] != "bin" or len(p) != 4:
        return None
    op, a, b = p[1:]
    if op in (">", ">="):
        op, a, b = {">": "<", ">=": "<="}[op], b, a
    if op not in ("<", "<="):
        return None
    if israndom(a) and israte(F, b) and not israndom(b):
        return True
    if israte(F, a) and israndom(b) and not israndom(a):
        return False
    return None


# ----------------------------------------------------- the tables themselves
def stores(rep, P, R):
    rep.rule("the functions that enter demand for an OD pair copy the series given entry by entry and in full, one "
             "table per series, under the destination given")
    n = 0
    for F in P.funcs.values():
        if not F.rec or not F.rec in P.records or not P.isa(F.rec, ORIGIN) or not F.base.startswith("add_") \
                or not F.blocks:
            continue
        src = {}
        for i, nd in enumerate(F.nodes):
            if not is_assign(nd) or i not in F.where() or nd["op"] != "=":
                continue
            l = F.nodes[F.skip(nd["l"])]
            if l["k"] != "idx":
                continue
            b = F.nodes[F.skip(l["b"])]
            v = R.V.path(F, nd["r"])
            if b["k"] != "var" or v[0] != "idx" or v[1][0] != "P":
                if b["k"] == "var" and any(isinstance(x, tuple) and x[0] == "idx" and x[1][0] == "P"
                                           for x in walk(v) if isinstance(x, tuple) and len(x) == 3):
                    rep.violation("store:%s" % F.name, F.loc(i), "%s does not store the demand it is given (%s)"
                                  % (F.name, poly.pp(v)))
                continue
            n += 1
            src.setdefault(b["v"], set()).add(v[1][1])
            ix = R.V.path(F, l["i"])
            if ix != v[2]:
                rep.violation("store:%s" % F.name, F.loc(i), "%s stores entry %s of the series as entry %s"
                              % (F.name, poly.pp(v[2]), poly.pp(ix)))
                continue
            lp = R.innermost(F, F.where()[i][0])
            t = R.trips(F, *lp) if lp else None
            size = alloc(R, F, b["v"])
            if isinstance(t, tuple):
                rep.violation("store:%s" % F.name, F.loc(i), "%s does not store every entry: %s" % (F.name, t[1]))
            elif t is not None and size is not None and poly.add(t, size, -1) != {}:
                rep.violation("store:%s" % F.name, F.loc(i), "%s stores %s of %s entries" % (
                    F.name, poly.show(t), poly.show(size)))
            elif lp and R.leaves(F, *lp) is not None:
                rep.violation("store:%s" % F.name, F.loc(i), "%s may stop storing before the end" % F.name)
        used, whose = {}, {}
        for v in src:
            inner = {F.skip(nd["b"]) for nd in F.nodes if nd["k"] == "idx"} | \
                    {F.skip(nd["e"]) for nd in F.nodes if nd["k"] == "delete"}
            if all(x in inner for x, nd in enumerate(F.nodes) if nd["k"] == "var" and nd["v"] == v):
                rep.violation("store:%s" % F.name, F.loc(), "%s does not store the series it is given" % F.name)
        entered(rep, P, R, F)
        for i, nd in enumerate(F.nodes):
            if nd["k"] != "call" or not nd.get("f") or P.ext[nd["f"]]["base"] not in ("insert", "emplace") \
                    or i not in F.where():
                continue
            for x in F.walk(i):
                m = F.nodes[x]
                if m["k"] == "var" and m["v"] in src:
                    c = R.V.path(F, nd["o"])
                    for s in src[m["v"]]:
                        used.setdefault(s, set()).add(c)
                    keys = {y for z in F.walk(i) for y in [R.V.path(F, z)] if y[0] == "P"}
                    if c[0] == "mem" and c[1] == ("T",) and not any(F.vtype[q].rstrip().endswith("*") and ("P", F.vpidx[q]) in keys
                                                for q in F.params if "double" not in F.vtype[q]):
                        rep.violation("store:%s" % F.name, F.loc(i), "%s stores demand under something else than the "
                                      "destination given" % F.name)
        for s, cs in used.items():
            names = {c[2] for c in cs if c[0] == "mem" and c[1] == ("T",)}
            for t in names:
                if t in whose and whose[t] != s:
                    rep.violation("store:%s" % F.name, F.loc(), "%s stores two series in %s" % (F.name, t))
                whose[t] = s
                par = [F.vname[q] for q in F.params if F.vpidx[q] == s]
                a, b = kinds(par[0]) if par else set(), kinds(t)
                if a and b and a != b:
                    rep.violation("store:%s" % F.name, F.loc(), "%s stores %s in %s" % (F.name, par[0], t))
            if len(names) > 1:
                rep.violation("store:%s" % F.name, F.loc(), "%s stores one series in %s" % (
                    F.name, " and ".join(sorted(names))))
    rep.require("series stored", n, 6)


def kinds(name):
    return {w for w in ("car", "truck", "bus", "pnr", "passenger") if re.search(r"(^|_)%s(_|$)" % w, name)}


def entered(rep, P, R, F):
    """an entry is used only where it was found; what depends on a look-up enters only where nothing was found"""
    every = set(F.blocks)
    for i, nd in enumerate(F.nodes):
        if i not in F.where():
            continue
        at = F.where()[i][0]
        if nd["k"] == "mem":
            p = R.value(F, i, i)
            if p[0] == "mem" and p[2] == "second" and p[1][0] == "call" and p[1][1] == "find" and len(p[1]) > 3 and \
                    p[1][2][:2] == ("mem", ("T",)):
                yes, no = presence(R, F, every, p[1])
                made = {F.where()[j][0] for j, m in enumerate(F.nodes) if m["k"] == "call" and m.get("f") and
                        j in F.where() and P.ext[m["f"]]["base"] in ("insert", "emplace", "operator[]")
                        and m.get("o", -1) >= 0 and R.V.path(F, m["o"]) == p[1][2]}
                cut = yes | {(b, s) for b in made for s in F.blocks[b].succ}
                if at in behind(F, F.entry, every, cut) and not (at in made):
                    rep.violation("store:%s" % F.name, F.loc(i), "%s adds to an entry it did not find" % F.name)
        if nd["k"] == "call" and nd.get("f") and P.ext[nd["f"]]["base"] in ("insert", "emplace"):
            c = R.V.path(F, nd["o"])
            if c[:2] != ("mem", ("T",)):
                continue
            for b in F.blocks.values():
                if b.tc is None or b.tc < 0 or len(b.succ) != 2:
                    continue
                for x in F.walk(b.tc):
                    q = R.value(F, x, R.G.last(F, b.tc, b))
                    if q[0] == "call" and q[1] == "find" and q[2] == c and len(q) > 3:
                        yes, no = presence(R, F, every, q)
                        if at in behind(F, F.entry, every, no) and not F.dominates(at, b.id):
                            rep.violation("store:%s" % F.name, F.loc(i), "%s enters a series where another one may be "
                                          "kept" % F.name)


def alloc(R, F, v):
    for (dv, nn, val, kind) in F.defs_of()[0]:
        if dv == v and kind in ("decl", "assign") and val is not None:
            n = F.nodes[F.skip(val)]
            if n["k"] == "new" and n.get("size", -1) is not None and n.get("size", -1) >= 0:
                return poly.of(R.value(F, n["size"], nn))
    return None


# ------------------------------------------------------- reading the tables
def words(p):
    """positions of the words of the input line a value is parsed from"""
    out = []
    for q in walk(p):
        if isinstance(q, tuple) and len(q) >= 4 and q[0] == "call" and q[1] in ("stod", "stoi", "stof", "atof", "atoi"):
            x = q[3]
            if isinstance(x, tuple) and len(x) == 3 and x[0] == "idx":
                out.append((x[1], x[2]))
    return out


def coeff(p, v):
    """coefficient polynomial of the variable v in p (linear)"""
    out = {}
    for m, c in p.items():
        k = [x for x in m if x == v]
        if len(k) == 1:
            r = list(m)
            r.remove(v)
            out[tuple(r)] = c
    return out


def reading(rep, P, R):
    rep.rule("where demand is read from a file, the amounts entered for one period of one OD pair add up to the number "
             "read (a number divided by n is entered n times), every period is read, each series has its own columns, "
             "and nothing is left over from the OD pair read before")
    n = 0
    for F in P.funcs.values():
        if not F.blocks:
            continue
        for i, nd in enumerate(F.nodes):
            if nd["k"] != "call" or not nd.get("f") or i not in F.where():
                continue
            e = P.ext[nd["f"]]
            if not (e["base"].startswith("add_") and "demand" in e["base"] and e.get("rec") in P.records
                    and P.isa(e["rec"], ORIGIN)):
                continue
            series = []
            for x in nd["a"]:
                m = F.nodes[F.skip(x)]
                if m["k"] == "var" and F.vtype[m["v"]].replace("const ", "").strip() == "double *":
                    series.append(m["v"])
            offs = []
            for v in series:
                n += 1
                offs.append(one_series(rep, P, R, F, i, v))
            known = [o for o in offs if o is not None]
            if len(known) == len(offs) == 2:
                d = poly.add(known[1][0], known[0][0], -1)
                if d != known[0][1]:
                    rep.violation("columns:%s" % F.name, F.loc(i), "%s reads two series from columns that are %s "
                                  "apart, not %s" % (F.name, poly.show(d), poly.show(known[0][1])))
            ids(rep, P, R, F, i, nd)
    rep.require("demand series read", n, 6)


def ids(rep, P, R, F, i, nd):
    for what, nid, col in (("get_origin", nd.get("o", -1), "0"), ("get_destination", nd["a"][0] if nd["a"] else -1, "1")):
        if nid is None or nid < 0:
            continue
        for q in walk(R.value(F, nid, i)):
            if isinstance(q, tuple) and len(q) >= 4 and q[0] == "call" and q[1] == what:
                w = words(q[3])
                for _, ix in w:
                    if ix[0] == "c" and ix[1] != col:
                        rep.violation("columns:%s" % F.name, F.loc(i), "%s takes the %s from column %s"
                                      % (F.name, what[4:], ix[1]))


def one_series(rep, P, R, F, call, v):
    """checks the writes to the series v; (column offset, columns) or None"""
    ls = [l for l in R.loops(F) if F.where()[call][0] in l[1]]
    row = ls[0] if ls else None
    ws = []
    for i, nd in enumerate(F.nodes):
        if is_assign(nd) and nd["op"] == "=" and i in F.where():
            l = F.nodes[F.skip(nd["l"])]
            if l["k"] == "idx" and F.nodes[F.skip(l["b"])].get("v") == v and F.nodes[F.skip(l["b"])]["k"] == "var":
                ws.append((i, poly.of(R.value(F, l["i"], i)), R.value(F, nd["r"], i)))
    off = None
    full = False
    periods = set()
    for i, ix, val in ws:
        div = poly.const(1)
        x = val
        if x[0] == "bin" and x[1] == "/":
            div, x = poly.of(x[3]), x[2]
        if not (x[0] == "call" and x[1] in ("stod", "stof", "atof")):
            if x[0] == "c" and float(x[1]) == 0:
                continue
            if words(x):
                rep.violation("amount:%s" % F.name, F.loc(i), "%s enters %s, not the amount read"
                              % (F.name, poly.pp(val)))
            continue
        w = words(x)
        if not w:
            continue
        col = poly.of(w[0][1])
        inner = [l for l in R.loops(F) if F.where()[i][0] in l[1] and (row is None or l[1] < row[1])]
        lv = []
        for h, body in inner:
            t = R.trips(F, h, body)
            c = counter(R, F, h, body)
            lv.append((h, body, c, t))
        js = [z for z in lv if z[2] is not None and coeff(col, ("V", z[2]))]
        if len(js) != 1 or any(isinstance(z[3], tuple) for z in lv if z[2] is not None):
            if any(isinstance(z[3], tuple) for z in lv if z[2] is not None):
                rep.violation("amount:%s" % F.name, F.loc(i), "%s does not enter every period" % F.name)
            continue
        h, body, j, t = js[0]
        if coeff(col, ("V", j)) != poly.const(1):
            rep.violation("columns:%s" % F.name, F.loc(i), "%s skips columns" % F.name)
            continue
        times = poly.const(1)
        ok = True
        for (h2, b2, k, t2) in lv:
            if not (b2 < body):
                continue
            ck = coeff(ix, ("V", k)) if k is not None else {}
            if ck:
                if t2 is None or ck != poly.const(1):
                    ok = False
                else:
                    times = poly.mul(times, t2)
        if ok and times != div:
            rep.violation("amount:%s" % F.name, F.loc(i), "%s enters an amount divided by %s in %s intervals"
                          % (F.name, poly.show(div), poly.show(times)))
        size = alloc(R, F, v)
        cj = coeff(ix, ("V", j))
        if not cj:
            rep.violation("amount:%s" % F.name, F.loc(i), "%s enters all periods in the same interval" % F.name)
        elif size is not None and t is not None and poly.mul(cj, t) != size:
            rep.violation("amount:%s" % F.name, F.loc(i), "%s enters %s periods of %s intervals in a series of %s"
                          % (F.name, poly.show(t), poly.show(cj), poly.show(size)))
        if cj == poly.const(1) and not R.avoid(F, (h, body), {F.where()[i][0]}):
            full = True
        o = poly.add(col, poly.atom(("V", j)), -1)
        if off is not None and off[0] != o:
            rep.violation("columns:%s" % F.name, F.loc(i), "%s reads one series from different columns" % F.name)
        off = (o, t if t is not None else {})
        periods.add(h)
    if len(periods) == 1:
        h = periods.pop()
        body = next(l[1] for l in R.loops(F) if l[0] == h)
        if passed_over(R, F, h, body, {F.where()[i][0] for i, _, _ in ws}):
            rep.violation("amount:%s:%s" % (F.name, F.vname[v]), F.loc(call), "%s can pass over a period without "
                          "entering its amount" % F.name)
    if row and ws and not full:
        fresh = any(dv == v and kind in ("decl", "assign") and nn in F.where() and F.where()[nn][0] in row[1]
                    for (dv, nn, val, kind) in F.defs_of()[0])
        clr = set()
        for i, nd in enumerate(F.nodes):
            if nd["k"] == "call" and nd.get("f") and i in F.where() and F.where()[i][0] in row[1] and \
                    P.ext[nd["f"]]["base"] in ("memset", "fill", "fill_n", "bzero") and \
                    any(F.nodes[y]["k"] == "var" and F.nodes[y]["v"] == v for y in F.walk(i)):
                clr.add(F.where()[i][0])
        for i, ix, val in ws:
            if val == ("c", "0"):
                clr.update(z[0] for z in R.loops(F) if F.where()[i][0] in z[1] and z[1] < row[1])
        if not fresh and unclear(F, row, clr, F.where()[call][0]):
            rep.violation("left-over:%s:%s" % (F.name, F.vname[v]), F.loc(call), "%s may enter amounts left over from "
                          "the OD pair read before" % F.name)
    return off


def passed_over(R, F, h, body, done):
    """can a period be finished without a block of `done`, other than where the amount makes less than one vehicle"""
    small = set()
    for b in body:
        blk = F.blocks[b]
        if blk.tc is None or blk.tc < 0 or len(blk.succ) != 2:
            continue
        z = R.G.last(F, blk.tc, blk)
        for k, sense in ((0, True), (1, False)):
            for f in R.G.cond(F, decided(F, blk.tc), sense):
                if len(f) == 3 and f[0] in ("<", "<=") and words(R.resolve(F, f[1], z)) and f[2][0] == "c" and \
                        number(f[2][1]) <= 1:
                    small.add((b, blk.succ[k]))
    done = set(done)

    def free(h, body):
        st, seen = [s for s in F.blocks[h].succ if s in body], set()
        while st:
            b = st.pop()
            if b == h:
                return True
            if b in done or b in seen or b not in body or F.aborts(b):
                continue
            seen.add(b)
            st.extend(s for s in F.blocks[b].succ if s >= 0 and (b, s) not in small)
        return False

    for h2, b2 in sorted(R.loops(F), key=lambda l: len(l[1])):
        if not b2 < body or free(h2, b2):
            continue
        if b2 & done:
            done.add(h2)
        elif any(b in b2 for b, _ in small):
            # a search that ends without success: every amount was too small
            small.update((h2, s) for s in F.blocks[h2].succ if s not in b2)
    return free(h, body)


def number(x):
    try:
        return float(x)
    except ValueError:
        return float("inf")


def unclear(F, row, clr, goal):
    """can the row loop reach goal without passing clr"""
    h, body = row
    st, seen = [s for s in F.blocks[h].succ if s in body], set()
    while st:
        b = st.pop()
        if b in clr or b in seen or b not in body or b == h or F.aborts(b):
            continue
        if b == goal:
            return True
        seen.add(b)
        st.extend(s for s in F.blocks[b].succ if s >= 0)
    return False


def counter(R, F, h, body):
    """the variable a counted loop counts with"""
    blk = F.blocks[h]
    if blk.tc is None or blk.tc < 0:
        return None
    vs = {F.nodes[x]["v"] for x in F.walk(blk.tc) if F.nodes[x]["k"] == "var"}
    c = [v for v in vs if any(d[0] == v and d[3] in ("update", "assign") and d[1] in F.where()
                              and F.where()[d[1]][0] in body for d in F.defs_of()[0])]
    return c[0] if len(c) == 1 else None


# ---------------------------------------------------------- who is released
def loading(rep, P, R):
    rep.rule("a loading step hands every origin the interval assigned; it withholds an origin's demand only after the "
             "last interval with demand")
    n = 0
    for F in P.funcs.values():
        if not F.blocks or not (F.rec and F.rec in P.records and P.isa(F.rec, "MNM_Dta")):
            continue
        calls = []
        for i, nd in enumerate(F.nodes):
            if nd["k"] == "call" and nd.get("f") and i in F.where() and P.ext[nd["f"]].get("rec") in P.records and \
                    P.isa(P.ext[nd["f"]]["rec"], ORIGIN) and P.ext[nd["f"]]["base"].startswith("release_one_interval"):
                calls.append(i)
        if not calls:
            continue
        ok = set()
        for i in calls:
            nd = F.nodes[i]
            n += 1
            if len(nd["a"]) < 4:
                continue
            a = R.value(F, nd["a"][2], i)
            t = R.value(F, nd["a"][0], i)
            if t[0] == "P" and F.vname[[q for q in F.params if F.vpidx[q] == t[1]][0]] == "assign_int":
                rep.violation("step:%s" % F.name, F.loc(i), "%s swaps the loading and the assignment interval" % F.name)
            neg = a == ("un", "-", ("c", "1")) or a[0] == "c" and a[1].startswith("-")
            if neg:
                fs = [(op, R.resolve(F, x, i), R.resolve(F, y, i)) for op, x, y in R.G.at(F, i)]
                if not any(op == "<=" and x[0] == "mem" and x[2] == "m_total_assign_inter" and y[0] == "P"
                           for op, x, y in fs):
                    rep.violation("withheld:%s" % F.name, F.loc(i), "%s may withhold demand before the last interval "
                                  "with demand" % F.name)
                continue
            if a[0] == "bin" or a[0] == "c":
                rep.violation("step:%s" % F.name, F.loc(i), "%s releases the demand of interval %s" % (
                    F.name, poly.pp(a)))
                continue
            ok.add(F.where()[i][0])
            ls = [l for l in R.loops(F) if F.where()[i][0] in l[1]]
            for h, body in ls:
                tr = R.traversal(F, h, body)
                if tr and tr[1][0] == "mem" and tr[1][2] == "m_origin_map":
                    why = R.partial(F, h, body, tr[0])
                    if why:
                        rep.violation("origins:%s" % F.name, F.loc(first(F, h)), "%s may not release from every "
                                      "origin: %s" % (F.name, why))
    rep.require("calls that release from an origin", n, 6)
