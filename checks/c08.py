"""C08: nothing is computed from a value nobody assigned."""
from lib.defined import Defined, scalar
from lib.prog import Program, short

# Attributes that the code which wires the network sets after construction,
# and the function that does.
LATE = {
    ("MNM_Dlink", "m_from_node"): "hook_up_node, for every link of the graph",
    ("MNM_Dlink", "m_to_node"): "hook_up_node, for every link of the graph",
    ("MNM_Origin", "m_origin_node"): "the network readers, with the node of the origin",
    ("MNM_Destination", "m_dest_node"): "the network readers, with the node of the destination",
    ("MNM_Destination", "m_flow_scalar"): "the network readers",
    ("MNM_Veh", "m_origin"): "the release functions (C17)",
    ("MNM_Veh", "m_dest"): "the release functions (C17)",
    ("MNM_Busstop_Virtual", "m_max_alighting_passengers_per_unit_time"): "the bus stop reader",
    ("MNM_Busstop_Virtual", "m_max_boarding_passengers_per_unit_time"): "the bus stop reader",
    ("MNM_Veh_Factory_EV", "m_full_range"): "set_ev_range",
    ("MNM_Veh_Factory_EV", "m_starting_range_roadside_charging"): "set_ev_range",
    ("MNM_Veh_Factory_EV", "m_starting_range_non_roadside_charging"): "set_ev_range",
    ("MNM_Dlink_Ctm::Ctm_Cell", "m_out_veh"): "update_out_veh, before each move",
    ("MNM_Routing_Fixed", "m_buffer_length"): "the constructor, when the buffer holds proportions",
    ("MNM_Routing_PassengerBusTransit_Fixed", "m_buffer_length"):
        "the constructor, when the buffer holds proportions",
}
# The kind of a multiclass link is an attribute of its own; the single-class
# one it hides is read for single-class links only.
HIDDEN = {("MNM_Dlink", "m_link_type"): "MNM_Dlink_Multiclass"}


def run(rep, tier):
    P = Program.load()
    D = Defined(P)
    objects(rep, P, D)
    early(rep, P, D)
    variables(rep, P, D)


def objects(rep, P, D):
    rep.rule("where an object of a class of the repository is created, its constructor (with base constructors, "
             "in-class initialisers and the functions it calls on the object) assigns, on every path that ends "
             "normally, each number, flag, kind and pointer attribute whose value is taken anywhere, or the code "
             "that creates it does before it ends")
    read = {}
    for F in P.funcs.values():
        u = D.uses(F)
        for e, how in u.items():
            n = F.nodes[e]
            if n["k"] == "mem" and how in ("got", "both"):
                read.setdefault((n["r"], n["n"]), []).append((F, e))
    nsites = nfields = 0
    seen = set()
    for F in P.funcs.values():
        base = {n["e"] for n in F.nodes if n["k"] == "cinit" and "n" not in n}
        for i, n in enumerate(F.nodes):
            if n["k"] != "ctor" or n.get("copy") or i in base or not n.get("f"):
                continue
            C = P.ext[n["f"]].get("rec")
            if C not in P.records:
                continue
            nsites += 1
            need = {f for f in D.fields(C) if f in read and f not in LATE
                    and not (f in HIDDEN and P.isa(C, HIDDEN[f]))}
            nfields += len(need)
            missing = need - D.constructed(F, i, C)
            if not missing:
                continue
            e = i
            for p in D.parents(F).get(i, []):
                if F.nodes[p]["k"] == "new":
                    e = p
            for G, x, f in D.completed(F, e, C, missing):
                if (C, f) in seen:
                    continue
                seen.add((C, f))
                R, y = read[f][0]
                rep.violation("unset:%s:%s" % (C.split("::")[-1], f[1]), G.loc(x),
                              "an object of class %s is created here without a value for %s (%s), which is read at "
                              "%s" % (C, f[1], "constructor " + short(n["f"]), R.loc(y)))
            if len(seen) < 3:
                rep.sample("%s creates %s: %d attributes" % (F.loc(i), C, len(need)))
    rep.count("objects created", nsites)
    rep.count("attributes that need a value, over the sites", nfields)
    rep.require("objects created", nsites, 100)
    n = 0
    rep.rule("an attribute set when the network is wired is still assigned, and a function of the class that assigns "
             "it to its own object does so on every path")
    late = set()
    for F in P.funcs.values():
        for e, how in D.uses(F).items():
            m = F.nodes[e]
            f = (m["r"], m["n"]) if m["k"] == "mem" else None
            if f not in LATE or how != "set":
                continue
            late.add(f)
            if F.kind in ("ctor", "dtor") or F.rec not in P.records or not P.isa(F.rec, f[0]) or \
                    F.nodes[F.skip(m["b"])]["k"] != "this":
                continue
            if f not in D.summary(F.key, F.rec)[0]:
                rep.violation("partly:%s:%s" % (short(F.key), f[1]), F.loc(e),
                              "%s assigns %s on some paths only" % (short(F.key), f[1]))
    for f, why in sorted(LATE.items()):
        if f not in read:
            continue
        n += 1
        if f not in late:
            R, y = read[f][0]
            rep.violation("late:%s:%s" % f, R.loc(y),
                          "%s of %s is read here and no code assigns it (expected: %s)" % (f[1], f[0], why))
    rep.count("attributes set when the network is wired", n)


def early(rep, P, D):
    rep.rule("a constructor, with the functions it calls on the object, takes the value of an attribute of the "
             "object only after the attribute was assigned")
    n = 0
    for F in P.funcs.values():
        if F.kind != "ctor" or F.rec not in P.records:
            continue
        n += 1
        a, r = D.summary(F.key, F.rec)
        for f, e in sorted(r.items()):
            if f in D.fields(F.rec):
                rep.violation("early:%s:%s" % (short(F.key), f[1]), F.loc(e),
                              "%s takes the value of %s, which has not been assigned on some path to here"
                              % (short(F.key), f[1]))
    rep.count("constructors", n)
    rep.require("constructors", n, 50)


def variables(rep, P, D):
    rep.rule("no local number or flag is read on a path that has not given it a value, and no local pointer is read "
             "where no path has")
    nf = nv = 0
    for F in P.funcs.values():
        bad, n = D.locals(F)
        nf += 1
        nv += n
        for v, e in bad:
            rep.violation("local:%s:%s" % (short(F.key), F.vname[v]), F.loc(e),
                          "%s reads the local variable %s, which some path to here leaves without a value"
                          % (short(F.key), F.vname[v]))
    rep.count("functions", nf)
    rep.count("local variables declared without a value", nv)
    rep.require("functions", nf, 300)
