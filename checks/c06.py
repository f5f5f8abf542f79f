"""C06: queries and exports leave the simulation unchanged."""
import ast
import os
import re

from lib.prog import Program, short
from lib.common import bindings
from lib.effects import Effects
from lib.front import REPO, AnalysisBroken

COMMANDS = re.compile(
    r"^(__init__|initialize|run|install|register|add|build|check_input|delete|extract|"
    r"generate|set|read|update|node_seq_to|link_seq_to)(_|$)")
# a get_* that is documented (and used) as a computation whose result is kept
COMPUTE = {"get_link_queue_dissipated_time", "save_mode_path_table"}
EXPORT = re.compile(r"^(save|print)_")

# memoised values a query may fill in; each is derived from the unchanged
# simulation record and is not simulation state
MEMO = {
    ("MNM_Dlink", "m_last_valid_time"): "horizon of the exit curve, a cache of the travel-time queries",
    ("MNM_Dlink_Multiclass", "m_last_valid_time_truck"): "same, truck curve",
    ("MNM_Transit_Link", "m_last_valid_time"): "same, passenger curve",
    ("MNM_Busstop_Virtual", "m_last_valid_time"): "same, bus stop curve",
    ("MNM_Bus_Link", "m_last_valid_time_bus"): "same, bus curve",
    ("MNM_Path", "m_link_set"): "lazily built set view of the path's link list",
}
# fields that a query may only re-sort in place
RESORT = {("MNM_Cumulative_Curve", "m_recorder")}
SORTS = {"std::sort", "std::stable_sort"}
RNG = re.compile(r"^(std::)?(rand|srand|random_shuffle|shuffle|random|drand48)$")


def direct_sites(E, P, root, eff):
    """primitive writes behind an effect: [(F, nid)]"""
    out, seen, st = [], set(), [(root, eff)]
    while st:
        k, x = st.pop()
        if (k, x) in seen:
            continue
        seen.add((k, x))
        F = P.funcs[k]
        for (d, nid) in E._local(F)[0]:
            if d == x:
                out.append((F, nid))
        for (t, e, dt) in E.edges[k]:
            n = F.nodes[e]
            for y in E.sum[t]:
                if y[0] != x[0]:
                    continue
                if y[0] in ("G", "X"):
                    if y == x:
                        st.append((t, y))
                    continue
                if y[0] == "F" and y[1:3] != x[1:3]:
                    continue
                R = y[3] if y[0] == "F" else y[1]
                Rx = x[3] if x[0] == "F" else x[1]
                if Rx in E._inst_root(F, n, R, dt):
                    st.append((t, y))
    return out


def run(rep, tier):
    P = Program.load()
    E = Effects(P)
    rep.rule("for every Python-visible query or export, every location written "
             "by it or by any function it can reach, and that outlives the call, "
             "is a listed memo field; curves may only be re-sorted; no random "
             "numbers are consumed and no global is written; only exports write files")
    nq = nx = nfun = 0
    for b in bindings(P):
        if b.name is None or COMMANDS.match(b.name) or b.name in COMPUTE:
            continue
        if b.target is None:
            continue
        if b.target not in P.funcs:
            continue
        exp = bool(EXPORT.match(b.name))
        nq += not exp
        nx += exp
        nfun += len([k for k in P.reachable([b.target]) if k in P.funcs])
        for eff in sorted(E.sum[b.target], key=str):
            bad = None
            if eff[0] == "X":
                if eff[1] == "file-write":
                    if not exp:
                        bad = "writes a file"
                elif RNG.match(eff[1]):
                    bad = "consumes the simulation's random numbers (%s)" % eff[1]
                else:
                    bad = "has the external effect %s" % eff[1]
            elif eff[0] == "G":
                bad = "writes the global %s" % eff[1]
            elif eff[0] == "F":
                key = (eff[1], eff[2])
                if key in MEMO:
                    continue
                if key in RESORT:
                    ws = [(F, i) for F, i in direct_sites(E, P, b.target, eff)
                          if not (F.nodes[i]["k"] == "call" and F.nodes[i].get("f")
                                  and P.ext[F.nodes[i]["f"]].get("name", "").split("<")[0] in SORTS)]
                    if not ws:
                        continue
                    bad = "changes %s::%s at %s" % (key + (ws[0][0].loc(ws[0][1]),))
                else:
                    bad = "changes %s::%s" % key
            else:
                bad = "changes objects of the simulation"
            if bad is None:
                continue
            where = E.explain(b.target, eff)
            root = re.search(r"\(([^()]*:\d+)\)$", where[-1])
            ek = "%s::%s" % (eff[1], eff[2]) if eff[0] == "F" else str(eff[1] if eff[0] != "O" else "object")
            rep.violation("%s.%s:%s" % (b.cls, b.name, ek),
                          root.group(1) if root else b.where,
                          "query %s.%s %s: %s" % (b.cls, b.name, bad, " -> ".join(where)))
    memo_values(rep, P)
    rep.require("queries", nq, 100)
    rep.require("exports", nx, 4)
    rep.cov["functions_in_query_closures"] = nfun
    rep.cov["memo_fields_allowed"] = len(MEMO)
    python_queries(rep)


FLOAT = ("double", "float", "const double", "TFlt", "const double &", "double &")


def memo_values(rep, P):
    """a memo field holds a value derived from its object alone: never one that
    depends on the time a query asked for or on the field's own former value"""
    n = 0
    for F in P.funcs.values():
        if F.kind in ("ctor", "dtor"):
            continue
        for i, x in enumerate(F.nodes):
            if x["k"] == "un" and x["op"] in ("++", "--", "post++", "post--"):
                tgt, val = x["e"], None
            elif x["k"] == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                tgt, val = x["l"], (x["r"] if x["op"] == "=" else None)
            else:
                continue
            t = F.nodes[F.skip(tgt)]
            if t["k"] != "mem" or (t["r"], t["n"]) not in MEMO or "time" not in t["n"]:
                continue
            n += 1
            why = "its own former value" if val is None else depends(P, F, val, t["n"], set())
            if why:
                rep.violation("memo:%s::%s:%s" % (t["r"], t["n"], F.name), F.loc(i),
                              "%s stores into %s::%s, which later queries read, a value that depends on %s"
                              % (F.name, t["r"], t["n"], why))
    rep.require("memo_stores", n, 4)


def depends(P, F, nid, field, seen):
    for y in F.walk(nid):
        m = F.nodes[y]
        if m["k"] == "mem" and m["n"] == field:
            return "its own former value"
        if m["k"] == "var" and m["v"] not in seen:
            v = m["v"]
            seen.add(v)
            if F.islambda and F.vowner[v] and F.vowner[v] != F.key and F.vowner[v] in P.funcs:
                G = P.funcs[F.vowner[v]]
                for w, nm in enumerate(G.vname):
                    if nm == F.vname[v] and G.vkind[w] == "p" and G.vtype[w] in FLOAT:
                        return "the queried time '%s'" % nm
                continue
            if F.vkind[v] == "p":
                if F.vtype[v] in FLOAT:
                    return "the queried time '%s'" % F.vname[v]
                continue
            for _, val, _k in F.reaching(v, y):
                if val is not None:
                    r = depends(P, F, val, field, seen)
                    if r:
                        return r
    return None


def python_queries(rep):
    """the Python wrappers of queries must not assign attributes of self or
    call commands"""
    n = 0
    for fn in sorted(os.listdir(os.path.join(REPO, "macposts"))):
        if not fn.endswith(".py"):
            continue
        path = os.path.join(REPO, "macposts", fn)
        tree = ast.parse(open(path).read())
        for c in ast.walk(tree):
            if not isinstance(c, ast.ClassDef):
                continue
            meths = {f.name: f for f in c.body if isinstance(f, ast.FunctionDef)}
            for name, f in meths.items():
                q = name.lstrip("_")
                if not (q.startswith("get_")):
                    continue
                n += 1
                for x in ast.walk(f):
                    tg = []
                    if isinstance(x, (ast.Assign,)):
                        tg = x.targets
                    elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                        tg = [x.target]
                    elif isinstance(x, ast.Delete):
                        tg = x.targets
                    for t in tg:
                        for y in ast.walk(t):
                            if isinstance(y, ast.Name) and y.id == "self":
                                rep.violation("py:%s.%s:assign" % (c.name, name),
                                              "macposts/%s:%d" % (fn, x.lineno),
                                              "query %s.%s assigns an attribute of the simulation" % (c.name, name))
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("setattr", "delattr") \
                            and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == "self":
                        rep.violation("py:%s.%s:assign" % (c.name, name), "macposts/%s:%d" % (fn, x.lineno),
                                      "query %s.%s assigns an attribute of the simulation" % (c.name, name))
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                        o = x.func.value
                        isself = (isinstance(o, ast.Name) and o.id == "self") or \
                            (isinstance(o, ast.Call) and isinstance(o.func, ast.Name) and o.func.id == "super")
                        if isself and COMMANDS.match(x.func.attr):
                            rep.violation("py:%s.%s:%s" % (c.name, name, x.func.attr),
                                          "macposts/%s:%d" % (fn, x.lineno),
                                          "query %s.%s calls the command %s" % (c.name, name, x.func.attr))
    rep.cov["python_query_methods"] = n
