"""C16: unknown, repeated and mismatched IDs are rejected."""
import re

from lib.common import binding_roots, is_assign
from lib.lookup import Lookup
from lib.prog import Program
from lib.vpath import walk


def element(F, y):
    """an element of an array argument"""
    return y[0] == "idx" and len(y) == 3 and any(
        isinstance(x, tuple) and x[:2] in (("call", "request"), ("call", "data")) for x in walk(y[1])) and \
        any(isinstance(x, tuple) and len(x) == 2 and x[0] == "P" for x in walk(y[1]))


def run(rep, tier):
    P = Program.load()
    L = Lookup(P)
    bs, _ = binding_roots(P)
    tg = {b.target for b in bs}

    def leaf(F, y):
        return F.key in tg and isinstance(y, tuple) and ((y[0] == "P" and len(y) == 2) or element(F, y))

    rep.rule("an ID given by the caller is looked up in a container only where it was shown to be there on every path "
             "(compared with end(), counted, at()), in the function or before the call that hands it on")
    bad = L.solve(leaf)
    rep.require("look-ups analysed", L.sites, 800)
    rep.count("look-ups checked on every path", L.checked)
    rep.require("bindings that take an ID", sum(1 for k in tg if k in P.funcs and P.funcs[k].params), 100)
    for F, i, key, ch in bad:
        rep.violation("lookup:%s:%s" % (ch[0], ch[-1]), F.loc(i),
                      "%s looks up an ID given by the caller without checking that it exists (%s)"
                      % (F.name, " -> ".join(ch)))
    registries(rep, P, L)
    graph(rep, P, L)


# ------------------------------------------------------------ registrations
def registries(rep, P, L):
    rep.rule("a link is added to a registry only if it is not in it yet, and only after its dynamic type was checked "
             "where the registry holds a subtype; a path is added to the registry of a mode only if it has that mode")
    n = 0
    for F in P.funcs.values():
        if not (F.rec or "").startswith("macposts::"):
            continue
        for i, nd in enumerate(F.nodes):
            if nd["k"] != "call" or not nd.get("f") or i not in F.where() or nd.get("o", -1) < 0 or not nd["a"]:
                continue
            e = P.ext[nd["f"]]
            if e["base"] not in ("push_back", "emplace_back", "insert"):
                continue
            reg = L.V.path(F, nd["o"])
            m = re.match(r"std::vector<(\w+) \*>", e.get("rec") or "")
            if not m or reg[0] != "mem" or reg[1] != ("T",):
                continue
            x = L.V.path(F, nd["a"][-1])
            if not any(isinstance(y, tuple) and y and element(F, y) for y in walk(x)):
                continue
            n += 1
            fs = L.G.at(F, i)
            if P.isa(m.group(1), "MNM_Path"):
                mode = mode_of(reg[2])
                if mode and not any(f[0] == "==" and typed(P, F, f, mode) for f in fs):
                    rep.violation("path-type:%s" % F.name, F.loc(i),
                                  "%s registers a path without having checked that it is a %s path" % (F.name, mode))
                if mode and not absent(L, F, fs, reg, x):
                    rep.violation("repeated:%s" % F.name, F.loc(i),
                                  "%s registers a path without having checked that it is not repeated" % F.name)
                continue
            if not absent(L, F, fs, reg, x):
                rep.violation("repeated:%s" % F.name, F.loc(i),
                              "%s registers a link without having checked that it is not registered yet" % F.name)
            for c in casts(L, F, nd["a"][-1]):
                k = F.nodes[c].get("ck")
                if k == "Dynamic":
                    q = L.V.path(F, F.nodes[c]["e"])
                    if not any(f[0] in ("!=", "true") and q in (f[1], f[2]) and
                               (f[0] == "true" or ("c", "null") in (f[1], f[2])) for f in fs):
                        rep.violation("link-type:%s" % F.name, F.loc(i),
                                      "%s registers the result of a dynamic_cast that may be null" % F.name)
                elif k in ("BaseToDerived", "BitCast"):
                    rep.violation("link-type:%s" % F.name, F.loc(i),
                                  "%s registers a link as a subtype without checking its type" % F.name)
    rep.require("registrations of items given by the caller", n, 10)


MODE = {"driving": "driving", "bustransit": "transit", "bus": "bus_route", "pnr": "pnr", "transit": "transit",
        "walking": "walking"}


def mode_of(name):
    for w in reversed(name.split("_")):
        if w in MODE:
            return MODE[w]
    return None


def typed(P, F, f, mode):
    for a, b in ((f[1], f[2]), (f[2], f[1])):
        if isinstance(a, tuple) and len(a) == 3 and a[0] == "mem" and a[2] == "m_path_type" and \
                b == ("enum", mode):
            return True
    return False


def casts(L, F, nid, d=0):
    """casts between class pointers applied to the value"""
    nid0 = nid
    while nid is not None and nid >= 0 and d < 12:
        d += 1
        n = F.nodes[nid]
        if n["k"] == "cast":
            if n.get("ck") in ("Dynamic", "BaseToDerived", "BitCast"):
                yield nid
            nid = n["e"]
        elif n["k"] == "var":
            s = L.V.single(F, n["v"])
            nid = s if s is not None else -1
        elif n["k"] == "ctor" and n.get("copy") and n["a"]:
            nid = n["a"][0]
        else:
            return


def absent(L, F, fs, reg, x):
    ids = {y for y in walk(x) if isinstance(y, tuple) and y and element(F, y)} | {x}
    fs = [f for f in fs if kept(L, F, f, ids)]
    whole = (("A", ("call", "end", reg)), ("idx", reg, ("A", ("call", "size", reg))),
             ("call", "operator[]", reg, ("A", ("call", "size", reg))), ("call", "at", reg, ("A", ("call", "size", reg))))
    for f in fs:
        if f[0] == "!=" and any(a in whole and b in ids for a, b in ((f[1], f[2]), (f[2], f[1]))):
            return True             # different from every element
        if f[0] == "==":
            for a, b in ((f[1], f[2]), (f[2], f[1])):
                if isinstance(a, tuple) and a[:2] == ("call", "find") and isinstance(b, tuple) and \
                        b[:2] in (("call", "end"), ("call", "cend")) and a[-1] in ids:
                    return True
                if isinstance(a, tuple) and a[:2] in (("call", "count"), ("call", "contains")) and \
                        a[-1] in ids and b == ("c", "0"):
                    return True
        if f[0] in ("false", "true"):
            a = f[1]
            if f[0] == "false" and isinstance(a, tuple) and a[:2] in (("call", "count"), ("call", "contains")) \
                    and a[-1] in ids:
                return True
            if f[0] == "true" and isinstance(a, tuple) and len(a) == 3 and a[0] == "mem" and a[2] == "second" \
                    and isinstance(a[1], tuple) and a[1][:2] in (("call", "insert"), ("call", "emplace")) \
                    and a[1][-1] in ids:
                return True
        if f[:1] + f[2:] in (("<", ("c", "1")), ("<=", ("c", "0"))) and isinstance(f[1], tuple) and \
                f[1][:2] == ("call", "count") and f[1][-1] in ids:
            return True
    # or all of them are compared as a set before the function returns
    s = L.G.entry(F).get(F.exit) or ()
    size = ("call", "size", reg)
    return any(f[0] == "==" and size in (f[1], f[2]) and
               any(isinstance(y, tuple) and y[:2] == ("call", "size") for y in (f[1], f[2]) if y != size) for f in s)


def kept(L, F, f, ids):
    """a look-up in a local container says something only if the items are put into it"""
    for x in walk(f):
        if isinstance(x, tuple) and x[:2] in (("call", "find"), ("call", "count"), ("call", "contains")):
            for y in walk(x[2:-1]):
                if isinstance(y, tuple) and y and (y[0] == "ctor" or len(y) == 2 and y[0] == "V") and x[-1] in ids:
                    ok = False
                    for n in F.nodes:
                        if n["k"] == "call" and n.get("f") and n.get("o", -1) >= 0 and n["a"] and \
                                L.P.ext[n["f"]]["base"] in ("insert", "emplace", "push_back", "emplace_back",
                                                            "operator[]") and L.V.path(F, n["o"]) == y and \
                                any(z in ids for a in n["a"] for z in walk(L.V.path(F, a))):
                            ok = True
                    if not ok:
                        return False
    return True


# -------------------------------------------------------------------- graph
def graph(rep, P, L):
    rep.rule("a node or link is put into a graph only if its ID is not in it yet and a link only between different "
             "nodes, and nothing is written to the graph before the last of these checks")
    n = 0
    for F in P.funcs.values():
        if not re.match(r"macposts::graph::Graph<.*>$", F.rec or "") or F.kind in ("ctor", "dtor"):
            continue
        ws, ins = [], []
        for bid, e, nd in F.all_elements():
            if is_assign(nd) and outer(L, F, nd["l"]):
                ws.append(e)
            elif nd["k"] == "call" and nd.get("f") and nd.get("o", -1) >= 0:
                x = P.ext[nd["f"]]
                if x["base"] in ("insert", "emplace", "try_emplace", "insert_or_assign", "erase", "clear", "operator[]") \
                        and "map<" in (x.get("rec") or ""):
                    p = L.V.path(F, nd["o"])
                    if p[0] == "mem" and p[1] == ("T",):
                        ws.append(e)
                        if x["base"] != "erase" and x["base"] != "clear":
                            ins.append((e, p))
        if not ins:
            continue
        n += 1
        for e, p in ins:
            fs = L.G.at(F, e)
            ids = {("P", F.vpidx[q]) for q in F.params if F.vtype[q] in ("int", "const int", "const int &")}
            if not any(absent(L, F, [f], p, i) for f in fs for i in ids):
                rep.violation("graph-repeated:%s" % F.base, F.loc(e),
                              "%s inserts into the graph without having checked that the ID is new" % F.base)
            nodes = [("P", F.vpidx[q]) for q in F.params if F.vtype[q].endswith("Node &")]
            if len(nodes) == 2 and not any(f[0] == "!=" and {root(f[1]), root(f[2])} == set(nodes) for f in fs):
                rep.violation("graph-loop:%s" % F.base, F.loc(e),
                              "%s adds a link without having checked that its ends differ" % F.base)
        for w in ws:
            b, k = F.where()[w]
            later = F.reach_from(b)
            for bid, e, nd in F.all_elements():
                if nd["k"] == "throw" and (bid in later or (bid == b and F.where()[e][1] > k)):
                    rep.violation("graph-partial:%s" % F.base, F.loc(e),
                                  "%s may throw after it has begun to change the graph" % F.base)
    rep.require("functions that add to a graph", n, 2)


def root(p):
    while isinstance(p, tuple) and p and (p[0] in ("mem", "un") or (p[0] == "call" and len(p) >= 3)):
        p = p[1] if p[0] == "mem" else p[3] if p[0] == "call" and len(p) > 3 else p[2]
    return p


def outer(L, F, nid):
    """is the place reached from a parameter or the graph itself"""
    p = L.V.path(F, nid)
    while isinstance(p, tuple) and p and p[0] in ("mem", "idx"):
        p = p[1]
    return p == ("T",) or (isinstance(p, tuple) and len(p) == 2 and p[0] == "P")
