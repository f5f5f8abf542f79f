"""C02: link entries and exits are recorded exactly once."""
import sys

from lib.guards import Guards
from lib.prog import Program
from lib.record import Records, Matrix, check_class, check_tree_args
from lib.vclass import Classes

sys.setrecursionlimit(20000)


def run(rep, tier):
    P = Program.load()
    R = Records(P)
    rep.rule("every movement of an agent between links (change of its current link) is matched on "
             "each path by exactly one entry record on the new link and one exit record on the old "
             "one, per record form kept by the function, counting batched records by the counters "
             "behind them")
    rep.rule("records are stamped with the end of the step (step + 1) and scaled by the flow scalar")
    rep.rule("entries are never recorded on the link the agent comes from, exits never on the one it goes to")
    rep.rule("counts kept in members while moving are recorded once per round, after the movements")
    rep.rule("a count that movements add to starts from nothing in every step; a recorded total adds up "
             "every element it is made of")
    rep.rule("a path-resolved record names the path and departure interval of the agent that moved")
    rep.rule("class curves are fed from counts of that class; flow matrices are addressed as "
             "in-link * number of out-links + out-link, and summed over the other index")
    nt = R.check_time()
    na = R.check_amount()
    ns = R.check_side()
    nf = R.check_balance()
    np = R.check_together()
    nc = check_class(R, Classes(P))
    ng = check_tree_args(R)
    kept(rep, P, R)
    M = Matrix(R)
    nm = M.check()
    ne = M.check_records()
    nt2 = M.check_sums()
    seen = set()
    for key, where, text in R.viol:
        if (key, where) not in seen:
            seen.add((key, where))
            rep.violation(key, where, text)
    rep.require("records", sum(map(len, R.recs.values())), 40)
    rep.require("movements followed (path instances)", R.moves, 15)
    rep.require("functions balanced", nf, 10)
    rep.require("time stamps", nt, 40)
    rep.cov["amounts"] = na
    rep.cov["sides"] = ns
    rep.cov["mover/recorder pairs"] = np
    rep.cov["class curves"] = nc
    rep.cov["path-resolved records"] = ng
    rep.require("matrix elements", nm, 10)
    rep.cov["sums of matrix elements"] = ne
    rep.cov["terms of recorded totals"] = nt2
    for k in sorted(R.recs)[:12]:
        rep.sample("%s: %d records" % (k[:80], len(R.recs[k])))


def kept(rep, P, R):
    """no record is reserved for curves that are not there"""
    G = Guards(P, R.V)
    n = 0
    for F in P.funcs.values():
        for i, nd in enumerate(F.nodes):
            if nd["k"] != "call" or not nd.get("f") or nd.get("o", -1) < 0 or i not in F.where():
                continue
            e = P.ext[nd["f"]]
            if e["base"] not in ("add_increment", "add_flow") or \
                    e.get("rec") not in ("MNM_Cumulative_Curve", "MNM_Tree_Cumulative_Curve"):
                continue
            n += 1
            p = R.V.path(F, nd["o"])
            if any(f[0] == "==" and p in f[1:] and NULLS & set(f[1:]) for f in G.at(F, i)):
                rep.violation("kept:%s" % F.name, F.loc(i), "%s records only where the curve does not exist" % F.name)
    rep.cov["records made on existing curves"] = n


NULLS = {("c", "null"), ("c", "0")}
