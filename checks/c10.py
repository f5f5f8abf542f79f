"""C10: queries return the quantity they are named for."""
import re

from lib.common import bindings
from lib.prog import Program
from lib.vclass import Classes, references, sinks

CURVE = re.compile(r"^(m_)?N_(in|out)(_car|_truck|_tree|_tree_car|_tree_truck)?$")
FLOW = re.compile(r"(^|_)(in|out)(_cc|flow)(_car|_truck)?$")


def side(name):
    """entering / leaving, for cumulative curves and what is derived from them
    (bus curves are kept per stop, where the bus that leaves the stop enters
    the link, and are left out)"""
    m = re.search(r"_(in|out)_passenger_cc$", name or "")
    if m:
        return m.group(1)
    if not name or "bus" in name:
        return None
    m = CURVE.match(name) or FLOW.search(name)
    if m:
        return [g for g in m.groups() if g in ("in", "out")][0]
    return None


def words(name):
    return [p for p in re.split(r"[_\W]+", (name or "").lower()) if p]


def transit(name):
    w = set(words(name))
    t = {x for x in ("boarding", "alighting") if x in w}
    return t.pop() if len(t) == 1 else None


def busside(name):
    """entering / leaving a bus stop"""
    w = words(name)
    if "bus" in w or "busstop" in w:
        t = {x for x in ("in", "out") if x in w}
        if len(t) == 1 and ("cc" in w or re.match(r"^m_N_(in|out)_bus$", name)
                            or re.match(r"^get_bus_cc_|_bus_(in|out)_", name)):
            return t.pop()
    return None


def busend(name):
    """first / second stop of a bus link"""
    if name in ("m_from_busstop", "m_to_busstop"):
        return name.split("_")[1]
    w = words(name)
    if "bus" in w and "cc" in w:
        t = {x for x in ("from", "to") if x in w}
        return t.pop() if len(t) == 1 else None
    return None


def words_of(table):
    def tok(name):
        t = {table[w] for w in words(name) if w in table}
        return t.pop() if len(t) == 1 else None
    return tok


PAIRS = (("interval-end", words_of({"start": "start", "end": "end"})),
         ("trip-state", words_of({"finished": "finished", "enroute": "enroute", "released": "released"})),
         ("preference", words_of({"vot": "vot", "early": "early", "late": "late"})))

FAMILIES = (("m_link_vec", ("driving", "bus", "walking")),
            ("m_path_vec", ("driving", "bustransit", "pnr", "bus")),
            ("m_path_map", ("driving", "bustransit", "pnr", "bus")),
            ("m_path_set", ("driving", "bustransit", "pnr", "bus")))


def run(rep, tier):
    P = Program.load()
    rep.rule("a value returned by, passed to or recorded in something named for entering "
             "(leaving) vehicles is computed from entering (leaving) curves only; likewise "
             "boarding and alighting")
    rep.rule("start and end of an interval, early and late penalties and the value of time, and finished, enroute "
             "and released counts are not exchanged where they are passed or stored")
    rep.rule("a function named for one side or one event reads no curve of the other")
    rep.rule("a Python method is bound to the member function of its name when there is one")
    rep.rule("a parameter for travel times is not given a map of generalised costs")
    rep.rule("a registration or query named for one travel mode uses the registry of that mode")
    ns = nr = 0
    for tok, what in ((side, "side"), (transit, "event"), (busside, "stop-side"), (busend, "stop-end")):
        C = Classes(P, tok=tok, tests=False)
        for F in P.funcs.values():
            ft = tok(F.base)
            for bid, e, nd in F.all_elements():
                for (t, vals, kind) in sinks(P, C, F, e, nd, ft):
                    ns += 1
                    dep = set()
                    for v in vals:
                        dep |= C.deps(F, v, e)
                    if dep and t[0] not in {c for c, _ in dep}:
                        if tok is side and any("bus" in words(x) for x in (F.base,)):
                            continue
                        rep.violation("%s-flow:%s:%s" % (what, F.name, t[1]), F.loc(e),
                                      "%s: %s takes its value from %s" % (
                                          F.name, t[1], ", ".join(sorted(w for _, w in dep))))
            if ft:
                for (t, w, i) in references(P, C, F):
                    nr += 1
                    if t != ft:
                        rep.violation("%s-named:%s:%s" % (what, F.name, w), F.loc(i),
                                      "%s is named for one side and reads %s of the other" % (F.name, w))
    for what, tok in PAIRS:
        C = Classes(P, tok=tok, tests=False)
        for F in P.funcs.values():
            for bid, e, nd in F.all_elements():
                for (t, vals, kind) in sinks(P, C, F, e, nd, None):
                    if kind == "ret":
                        continue
                    ns += 1
                    dep = set()
                    for v in vals:
                        dep |= C.deps(F, v, e)
                    if dep and t[0] not in {c for c, _ in dep}:
                        rep.violation("%s-flow:%s:%s" % (what, F.name, t[1]), F.loc(e),
                                      "%s: %s takes its value from %s" % (
                                          F.name, t[1], ", ".join(sorted(w for _, w in dep))))
    rep.require("side-specific writes, results, arguments and records", ns, 60)
    rep.require("side-specific reads in functions named for a side", nr, 20)
    rep.require("bindings", binding_names(rep, P), 150)
    rep.require("travel time parameters", tt_params(rep, P), 20)
    rep.require("mode registries", registries(rep, P), 30)


def binding_names(rep, P):
    n = 0
    for b in bindings(P):
        if not b.target:
            continue
        e = P.ext.get(b.target) or {}
        if b.target in P.funcs and P.funcs[b.target].islambda:
            continue
        n += 1
        rec, base = e.get("rec"), e.get("base")
        if rec and base != b.name:
            own = {x["base"] for x in P.ext.values() if x.get("rec") == rec}
            if b.name in own:
                rep.violation("binding:%s.%s" % (b.cls, b.name), b.where,
                              "the Python method %s.%s runs %s::%s" % (b.cls, b.name, rec, base))
    return n


def tt_params(rep, P):
    def tok(name):
        w = words(name)
        if "map" not in w:
            return None
        t = {x for x in ("tt", "cost") if x in w}
        return t.pop() if len(t) == 1 else None
    C = Classes(P, tok=tok, tests=False)
    n = 0
    for F in P.funcs.values():
        for i, nd in enumerate(F.nodes):
            if nd["k"] != "call" or nd.get("f") not in P.funcs:
                continue
            G = P.funcs[nd["f"]]
            for p in G.params:
                j = G.vpidx[p]
                if tok(G.vname[p]) is None or j >= len(nd["a"]):
                    continue
                n += 1
                dep = C.deps(F, nd["a"][j], i)
                cl = {c for c, _ in dep}
                want = tok(G.vname[p])
                if want == "tt" and cl == {"cost"}:
                    if not really_used(P, F, i, j):
                        continue
                    rep.violation("tt-arg:%s:%s" % (F.name, G.vname[p]), F.loc(i),
                                  "%s passes %s for the travel times %s of %s" % (
                                      F.name, ", ".join(sorted(w for _, w in dep)), G.vname[p], G.name))
                if want == "cost" and cl == {"tt"} and mates(G, tok) and really_used(P, F, i, j):
                    rep.violation("cost-arg:%s:%s" % (F.name, G.vname[p]), F.loc(i),
                                  "%s passes %s for the costs %s of %s" % (
                                      F.name, ", ".join(sorted(w for _, w in dep)), G.vname[p], G.name))
    return n


def mates(G, tok):
    """the function takes travel times and costs separately"""
    return {tok(G.vname[p]) for p in G.params} >= {"tt", "cost"}


def really_used(P, F, i, j):
    """some implementation the call can reach uses the parameter; a caller
    named for the driving mode reaches the driving implementation only"""
    ks = P.targets(F, i)
    for k in ks:
        H = P.funcs.get(k)
        if H is None:
            continue
        if "driving" in words(F.base) and "Driving" not in (H.rec or "") and \
                any("Driving" in (P.funcs[x].rec or "") for x in ks if x in P.funcs):
            continue
        v = [p for p in H.params if H.vpidx[p] == j]
        if any(x["k"] == "var" and x["v"] in v for x in H.nodes):
            return True
    return False


def registries(rep, P):
    n = 0
    for F in P.funcs.values():
        if not (F.rec or "").startswith("macposts::"):
            continue
        w = words(F.base)
        for stem, modes in FAMILIES:
            own = [m for m in modes if m in w]
            if "link" in stem and not own and ("car" in w or "truck" in w):
                own = ["driving"]
            refs = {}
            for i, nd in enumerate(F.nodes):
                if nd["k"] == "mem" and nd["n"].startswith(stem + "_"):
                    m = nd["n"][len(stem) + 1:]
                    if m in modes:
                        refs.setdefault(m, i)
            if len(own) != 1 or not refs or ("path" in stem and ("link" in w or "links" in w)):
                continue
            n += 1
            for m, i in sorted(refs.items()):
                if m != own[0]:
                    rep.violation("mode:%s:%s_%s" % (F.name, stem, m), F.loc(i),
                                  "%s uses the registry %s_%s and is named for %s" % (F.name, stem, m, own[0]))
    return n
