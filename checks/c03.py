"""C03: car and truck quantities are never mixed up."""
from lib.common import natural_loops
from lib.prog import Program
from lib.vclass import Classes, references, sinks, token

# equations of the models that relate the two classes on purpose
BOTH = {
    "update_perceived_density": "perceived density of one class depends on the volume of the other",
    "get_link_freeflow_tt_loading_truck": "truck free-flow time in cells of car free-flow length",
}
# the point-queue model has one speed and one queue for both classes
SAME = {("MNM_Dlink_Pq_Multiclass", "m_ffs_car")}


def run(rep, tier):
    P = Program.load()
    C = Classes(P)
    rep.rule("class of a value = classes of the members, functions and parameters it is computed "
             "from (through the definitions that reach it) and of the class tests under which it "
             "is counted; a car (truck) member, result, argument or curve takes no value of the "
             "other class only, and none that mixes the two except in the listed model equations")
    rep.rule("a count, queue or curve of one class is not updated where the class tests say that "
             "the vehicle is of the other class, and not counted up by one without a class test")
    rep.rule("vehicles created for a class are counted by the demand of that class")
    n = m = r = 0
    for F in P.funcs.values():
        ft = C.tok(F.base)
        for bid, e, nd in F.all_elements():
            for (t, vals, kind) in sinks(P, C, F, e, nd, ft):
                n += 1
                judge(rep, P, C, F, e, nd, t, vals, kind)
        if ft and not mixes(P, C, F):
            for (t, w, i) in references(P, C, F):
                r += 1
                if t != ft and not any((x, w) in SAME for x in P.bases(F.rec or "")):
                    rep.violation("named:%s:%s" % (F.name, w), F.loc(i),
                                  "%s is named for one class and reads %s of the other" % (F.name, w))
        m += creations(rep, P, C, F)
    rep.require("class-specific writes, results, arguments and records", n, 500)
    rep.require("class-specific reads in functions named for a class", r, 150)
    rep.require("vehicle creations of a fixed class", m, 8)
    rep.require("functions with class tests", sum(len(C.facts(F)) > 0 for F in P.funcs.values()), 15)


def mixes(P, C, F, depth=0):
    if F.base in BOTH:
        return True
    cs = C.call_sites(F)
    return bool(cs) and depth < 3 and all(mixes(P, C, G, depth + 1) for G, _ in cs)


def judge(rep, P, C, F, e, n, t, vals, kind):
    dep = set()
    for v in vals:
        dep |= C.deps(F, v, e)
    cl = {c for c, _ in dep}
    f = C.fact_at(F, e)
    key = "%s:%s:%s" % (kind, F.name, t[1])
    if f and f != t[0] and kind != "arg" and kind != "ret":
        rep.violation("class-test:" + key, F.loc(e),
                      "%s: %s is updated for a vehicle known to be a %s" % (F.name, t[1], f))
    if cl and t[0] not in cl:
        if mixes(P, C, F) or any((r, w) in SAME for r in P.bases(F.rec or "") for _, w in dep):
            return
        rep.violation("class-flow:" + key, F.loc(e),
                      "%s: %s takes its value from %s" % (F.name, t[1], ", ".join(sorted(w for _, w in dep))))
    elif len(cl) > 1 and not mixes(P, C, F):
        rep.violation("class-mix:" + key, F.loc(e),
                      "%s: %s mixes %s" % (F.name, t[1], ", ".join(sorted(w for _, w in dep))))
    if kind == "count" and not f and not cl and unit(F, vals) and not counted_loop(C, F, e, t[0]):
        rep.violation("no-class-test:" + key, F.loc(e),
                      "%s: %s counts a vehicle without a test of its class" % (F.name, t[1]))


def unit(F, vals):
    if not vals:
        return True
    m = F.nodes[F.skip(vals[0])]
    while m["k"] in ("ctor", "init") and len(m["a"]) == 1:
        m = F.nodes[F.skip(m["a"][0])]
    return m["k"] in ("int", "flt") and float(m["val"]) == 1


def loop_classes(C, F, e):
    """classes that decide how often e runs"""
    w = F.where().get(e)
    out = set()
    if w is None:
        return out
    for h, body in natural_loops(F):
        if w[0] not in body:
            continue
        for b in body:
            blk = F.blocks[b]
            if blk.tc is not None and blk.tc >= 0 and any(s not in body for s in blk.succ if s >= 0):
                out |= {c for c, _ in C.deps(F, blk.tc, blk.els[-1] if blk.els else None)}
    return out


def cond_classes(C, F, e):
    """classes of the values tested on the way to e inside its innermost loop"""
    w = F.where().get(e)
    out = set()
    if w is None:
        return out
    inner = None
    for h, body in natural_loops(F):
        if w[0] in body and (inner is None or len(body) < len(inner[1])):
            inner = (h, body)
    if inner is None:
        return out
    for b in inner[1]:
        blk = F.blocks[b]
        if blk.tc is not None and blk.tc >= 0 and F.dominates(b, w[0]):
            out |= {c for c, _ in C.deps(F, blk.tc, blk.els[-1] if blk.els else None)}
    return out


def counted_loop(C, F, e, cls):
    return cls in loop_classes(C, F, e) or token(F.base) == cls


def creations(rep, P, C, F):
    """factory calls with a constant class"""
    n = 0
    for i, nd in enumerate(F.nodes):
        if nd["k"] != "call" or not nd.get("f") or nd["f"] not in P.funcs:
            continue
        G = P.funcs[nd["f"]]
        for p in G.params:
            j = G.vpidx[p]
            if j >= len(nd["a"]) or "cls" not in G.vname[p] and "class" not in G.vname[p]:
                continue
            c = C.const(F, nd["a"][j])
            if c not in (0, 1) or not G.base.startswith("make_"):
                continue
            n += 1
            cls = "car" if c == 0 else "truck"
            lc = loop_classes(C, F, i) | cond_classes(C, F, i)
            if lc and lc != {cls}:
                rep.violation("creation:%s:%s" % (F.name, cls), F.loc(i),
                              "%s: the creation of a %s depends on values of class %s" % (F.name, cls, "/".join(sorted(lc))))
    return n
