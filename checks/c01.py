"""C01: vehicles and passengers are neither lost nor duplicated."""
from lib.prog import Program
from lib.balance import Balance


def run(rep, tier):
    P = Program.load()
    rep.rule("path-sensitive token accounting: on every path of every function that moves "
             "agents, each vehicle/passenger taken from a queue, buffer or pool (or created) "
             "is put into exactly one other (or retired) before the function returns to a "
             "caller that could not complete the move; summaries are composed over the call "
             "graph with virtual dispatch")
    rep.rule("secondary indexes (bus stop queues that list buses still held by a link) and "
             "local containers that never feed a move are not places")
    B = Balance(P, secondary=SECONDARY)
    for kind, fn, where, msg in B.viol:
        rep.violation("%s:%s" % (kind, fn), where, "%s: %s" % (fn, msg))
    rep.require("agent classes", len(B.agents), 6)
    rep.require("functions analysed", len(B.active), 100)
    rep.require("insertions", B.ninserts, 60)
    rep.require("removals", B.nremoves, 40)
    rep.require("creations", B.ncreate, 5)
    rep.require("retirements", B.nretire, 2)
    rep.cov["function summaries"] = len(B.sum)
    rep.cov["fixpoint steps"] = B.rounds
    rep.cov["containers"] = sorted(B.containers)
    for c in sorted(B.containers):
        rep.sample("container " + c)


SECONDARY = ("m_bus_queue",)
