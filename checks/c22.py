"""C22: queues of agents are first in, first out."""
import re
import sys

from lib.common import natural_loops
from lib.prog import Program
from lib.vpath import VPath

sys.setrecursionlimit(20000)
BEGIN = {"begin", "cbegin"}
END = {"end", "cend"}
REV = {"rbegin", "crbegin"}
MIX = {"random_shuffle", "shuffle", "sort", "stable_sort", "partial_sort", "nth_element", "reverse", "rotate",
       "partition", "stable_partition", "swap_ranges", "make_heap", "push_heap", "pop_heap", "sort_heap",
       "reverse_copy", "rotate_copy", "partial_sort_copy", "next_permutation", "prev_permutation", "iter_swap",
       "swap", "copy_backward", "move_backward"}
PUSH = {"push_back", "emplace_back", "push", "emplace"}
BOARD = "m_passenger_pool"      # riding in a bus is not waiting in a queue


class Order:
    def __init__(self, P, rep):
        self.P, self.rep = P, rep
        self.V = VPath(P)
        names = set()
        grown = True
        roots = {"MNM_Veh", "MNM_Passenger"}
        while grown:
            grown = False
            for r, d in P.records.items():
                if r not in names and (r in roots or any(b[0] in names for b in d["bases"])):
                    names.add(r)
                    grown = True
        alt = "|".join(sorted(map(re.escape, names), key=len, reverse=True))
        self.queue = re.compile(r"^(const )?std::(__cxx11::)?(deque|vector|list|forward_list|queue|stack|priority_queue)"
                                r"<(std::(pair|tuple)<)?(const )?(%s) \*" % alt)
        self.lifo = re.compile(r"^(const )?std::(stack|priority_queue)<")
        self.n = 0
        self.seen = set()

    def isq(self, F, nid):
        if nid is None or nid < 0:
            return False
        return bool(self.queue.match(F.nodes[nid].get("t", "")))

    def viol(self, key, F, nid, text):
        k = (key, F.name, F.loc(nid))
        if k not in self.seen:
            self.seen.add(k)
            self.rep.violation("%s:%s" % (key, F.name), F.loc(nid), "%s: %s" % (F.name, text))

    def base(self, n):
        return self.P.ext[n["f"]]["base"] if n.get("f") else ""

    # ---------------------------------------------------------------- origins
    def origin(self, F, nid, at, d=0, seen=None):
        """where in which queue an iterator stands or an agent was found"""
        seen = seen if seen is not None else set()
        nid = F.skip(nid)
        if nid is None or nid < 0 or d > 14:
            return set()
        n = F.nodes[nid]
        k = n["k"]
        if k == "var":
            v = n["v"]
            key = (F.key, v, at)
            if key in seen:
                return set()
            seen.add(key)
            if F.vkind[v] == "p":
                got = set()
                for (dn, val, kind) in F.reaching(v, at if at in F.where() else nid) or ():
                    if val is not None and val >= 0:
                        got |= self.origin(F, val, dn, d + 1, seen)
                if d < 8:
                    for (G, c) in self.sites(F):
                        a = G.nodes[c].get("a", [])
                        if F.vpidx[v] is not None and F.vpidx[v] < len(a):
                            got |= self.origin(G, a[F.vpidx[v]], c, d + 4, seen)
                return got
            if F.vkind[v] != "l":
                return set()
            got = set()
            for (dn, val, kind) in F.reaching(v, at if at in F.where() else nid) or ():
                if val is not None and val >= 0:
                    got |= self.origin(F, val, dn, d + 1, seen)
            return got
        if k == "idx":
            if self.isq(F, F.skip(n["b"])):
                return self.place(F, n["b"], n["i"], at)
            return self.origin(F, n["b"], at, d + 1, seen)
        if k == "call":
            b = self.base(n)
            o = n.get("o", -1)
            a = n.get("a", [])
            if o >= 0 and self.isq(F, F.skip(o)):
                q = self.V.path(F, o)
                if b in BEGIN:
                    return {("front", q)}
                if b in END or b in REV:
                    return {("back", q)}
                if b == "front":
                    return {("front", q)}
                if b == "back":
                    return {("back", q)}
                if b in ("top",):
                    return {("back", q)}
                if b in ("operator[]", "at") and a:
                    return self.place(F, o, a[0], at)
                if b == "erase":
                    return set()
            if b in ("begin", "cbegin", "end", "cend", "rbegin", "crbegin") and a and self.isq(F, F.skip(a[0])):
                return {("front" if b in BEGIN else "back", self.V.path(F, a[0]))}
            if b in ("operator+", "next", "operator+=", "operator-", "prev", "operator-="):
                args = ([o] if o >= 0 else []) + list(a)
                if not args:
                    return set()
                got = self.origin(F, args[0], at, d + 1, seen)
                if b in ("operator+", "next", "operator+=") and len(got) == 1 and next(iter(got))[0] == "front":
                    q = next(iter(got))[1]
                    step = args[1] if len(args) > 1 else None
                    return {(self.index(F, step, at), q)}
                return got
            if b in ("operator*", "operator->", "operator++", "operator--", "get", "move", "forward", "static_pointer_cast",
                     "reverse_iterator", "make_reverse_iterator", "base", "make_pair", "as_const", "move_iterator"):
                x = o if o >= 0 else (a[0] if a else -1)
                return self.origin(F, x, at, d + 1, seen)
            if b in ("min_element", "max_element") and a and o < 0:
                return {("later", q) for w, q in self.origin(F, a[0], at, d + 1, seen)}
            if b in ("find", "find_if", "find_if_not") and a and o < 0:
                return self.origin(F, a[0], at, d + 1, seen)
            if n.get("f") and d < 8:
                got = set()
                for t in self.P.targets(F, nid):
                    G = self.P.funcs.get(t)
                    if not G:
                        continue
                    for i, m in enumerate(G.nodes):
                        if m["k"] == "ret" and m.get("e", -1) is not None and m.get("e", -1) >= 0 and "*" in F.nodes[nid].get("t", ""):
                            for (w, q) in self.origin(G, m["e"], i, d + 4, seen):
                                got.add((w, self.bind(F, nid, q)))
                return got
            return set()
        if k == "ctor":
            for x in n.get("a", []):
                got = self.origin(F, x, at, d + 1, seen)
                if got:
                    return got
            return set()
        if k == "init":
            for x in n.get("a", n.get("e", [])) or []:
                got = self.origin(F, x, at, d + 1, seen)
                if got:
                    return got
            return set()
        if k == "mem":
            return self.origin(F, n["b"], at, d + 1, seen) if n["n"] in ("first", "second") else set()
        if k == "un":
            return self.origin(F, n["e"], at, d + 1, seen)
        if k == "cond":
            got = set()
            for x in ("t", "f", "l", "r"):
                if isinstance(n.get(x), int):
                    got |= self.origin(F, n[x], at, d + 1, seen)
            return got
        return set()

    def bind(self, F, call, q):
        """the callee's queue as its caller knows it"""
        n = F.nodes[call]
        if isinstance(q, tuple) and len(q) == 2 and q[0] == "P" and q[1] < len(n.get("a", [])):
            return self.V.path(F, n["a"][q[1]])
        return q

    def place(self, F, q, i, at):
        p = self.V.path(F, q)
        return {(self.index(F, i, at, p), p)}

    def index(self, F, i, at, q=None):
        """front, back or somewhere a pass from the front has got to"""
        if i is None:
            return "later"
        p = self.V.path(F, i)
        if p == ("c", "0"):
            return "front"
        if p[0] == "c":
            return "later"
        if p[0] == "bin" and p[1] == "-" and p[2][:2] == ("call", "size"):
            return "back"
        j = F.skip(i)
        n = F.nodes[j]
        if n["k"] == "var" and F.vkind[n["v"]] == "l":
            inits, ups = [], []
            for (dv, node, val, kind) in F.defs_of()[0]:
                if dv != n["v"]:
                    continue
                if kind in ("decl", "assign") and val is not None and val >= 0:
                    inits.append(self.V.path(F, val, resolve=False))
                m = F.nodes[node]
                if m["k"] == "un" and "--" in m["op"] or m["k"] == "bin" and m["op"] == "-=":
                    ups.append(-1)
                elif m["k"] == "un" and "++" in m["op"] or m["k"] == "bin" and m["op"] == "+=":
                    ups.append(1)
            starts = [x for x in inits if ("V", n["v"]) not in tuple(flat(x))]
            if starts and all(x[0] == "c" and x != ("c", "0") for x in starts) and 1 in ups and -1 not in ups:
                return "later"
            if -1 in ups and 1 not in ups and starts and all(x != ("c", "0") for x in starts):
                return "back"
        return "front"

    def sites(self, F):
        if not hasattr(self, "_sites"):
            self._sites = {}
            for G in self.P.funcs.values():
                for i, n in enumerate(G.nodes):
                    if n["k"] == "call" and n.get("f"):
                        for t in self.P.targets(G, i):
                            self._sites.setdefault(t, []).append((G, i))
        return self._sites.get(F.key, [])

    # ------------------------------------------------------------------ rules
    def run(self):
        P = self.P
        released = self.released()
        for F in P.funcs.values():
            if F.name.startswith("std::"):
                continue
            ops = []
            for i, n in enumerate(F.nodes):
                if n["k"] != "call" or not n.get("f") or i not in F.where():
                    continue
                b = self.base(n)
                o = n.get("o", -1)
                if o >= 0 and self.isq(F, F.skip(o)):
                    ops.append((i, n, b, F.skip(o)))
                elif o < 0 and b in MIX and any(self.inq(F, x, i) for x in n.get("a", [])):
                    self.n += 1
                    self.mixed(F, i, n, b, released)
            self.moves(F, ops)
            self.skips(F)
        return self.n

    def inq(self, F, x, at):
        y = F.skip(x)
        return self.isq(F, y) or bool(self.origin(F, x, at))

    def released(self):
        """queues that new agents are put into"""
        P = self.P
        out = {BOARD}
        for F in P.funcs.values():
            makes = any(n["k"] == "call" and n.get("f") and re.match(r"make_(veh|passenger)", self.base(n)) for n in F.nodes)
            if not makes:
                continue
            for i, n in enumerate(F.nodes):
                if n["k"] == "call" and n.get("f") and self.base(n) in PUSH and n.get("o", -1) >= 0 and \
                        self.isq(F, F.skip(n["o"])):
                    p = self.V.path(F, n["o"])
                    if p[0] == "mem" and p[2].startswith("m_in_"):
                        out.add(p[2])
        return out

    def mixed(self, F, i, n, b, released):
        qs = set()
        for x in n.get("a", []):
            for (w, q) in self.origin(F, x, i):
                qs.add(q)
            y = F.skip(x)
            if self.isq(F, y):
                qs.add(self.V.path(F, y))
        for q in qs:
            q2 = q
            if q[0] == "P":
                names = set()
                for (G, c) in self.sites(F):
                    a = G.nodes[c].get("a", [])
                    if q[1] < len(a):
                        names.add(self.V.path(G, a[q[1]]))
                if names and all(self.last(x) in released for x in names):
                    continue
            if self.last(q2) in released:
                continue
            if b == "swap" and q[0] == "V":
                continue
            self.viol("mixed", F, i, "the order of a queue is changed (%s)" % b)

    @staticmethod
    def last(q):
        while q and q[0] in ("un", "idx", "deref"):
            q = q[1]
        return q[2] if q and q[0] == "mem" else None

    def moves(self, F, ops):
        backs = {}      # queues whose last agent goes in front of another queue
        for (i, n, b, o) in ops:
            self.n += 1
            a = n.get("a", [])
            if self.lifo.match(F.nodes[o].get("t", "")):
                if b in ("push", "emplace", "pop", "top"):
                    self.viol("stack", F, i, "agents wait in a container that does not keep their order")
                continue
            if b in ("push_front", "emplace_front") and a:
                got = self.origin(F, a[0], i)
                if got and all(w == "back" for w, q in got):
                    for w, q in got:
                        backs[q] = i
                else:
                    self.viol("ahead", F, i, "an agent is put in front of those who wait")
            elif b in ("insert", "emplace") and len(a) >= 2:
                at = self.origin(F, a[0], i)
                if at and all(w == "back" for w, q in at):
                    src = set()
                    for x in a[1:]:
                        src |= self.origin(F, x, i)
                    if len(a) == 2 and src and all(w == "back" for w, q in src):
                        self.viol("last", F, i, "the agent who came last is served before others")
                elif at and any(w == "front" for w, q in at) and len(a) == 2:
                    got = self.origin(F, a[1], i)
                    if got and all(w == "back" for w, q in got):
                        for w, q in got:
                            backs[q] = i
                    else:
                        self.viol("ahead", F, i, "an agent is put in front of those who wait")
            elif b in PUSH and a:
                got = self.origin(F, a[0], i)
                if any(w == "back" for w, q in got):
                    self.viol("last", F, i, "the agent who came last is served before others")
                elif any(q == self.V.path(F, o) for w, q in got) and not any(
                        b2 == "pop_front" and self.V.path(F, o2) == self.V.path(F, o) for (_, _, b2, o2) in ops):
                    self.viol("again", F, i, "an agent is sent to the end of the queue it waits in")
                elif any(w == "later" for w, q in got):
                    self.viol("later", F, i, "an agent is served before those in front of it")
        served = any(b in PUSH | {"pop_front", "pop_back", "erase", "push_front", "insert", "clear", "assign"}
                     for (_, _, b, _) in ops)
        for (i, n, b, o) in ops:
            q = self.V.path(F, o)
            if b == "pop_back" and q not in backs:
                self.viol("last", F, i, "the agent who came last leaves the queue first")
            elif b == "erase" and n.get("a"):
                got = self.origin(F, n["a"][0], i)
                if any(w == "back" and self.same(q, p) for w, p in got):
                    self.viol("last", F, i, "a queue is served from its end")
                elif any(w == "later" for w, p in got):
                    self.viol("later", F, i, "an agent leaves the queue before those in front of it are looked at")
            elif b in REV and served:
                self.viol("backwards", F, i, "a queue is served from its end")

    def same(self, a, b):
        return a == b or a[0] != b[0] or self.last(a) == self.last(b)

    def skips(self, F):
        """after an agent has been taken out the next one is looked at"""
        w = F.where()
        loops = natural_loops(F)
        for (v, i, val, kind) in F.defs_of()[0]:
            if i not in w or val is None or val < 0 or F.vkind[v] != "l":
                continue
            r = F.skip(val)
            while F.nodes[r]["k"] == "ctor" and F.nodes[r].get("a"):
                r = F.skip(F.nodes[r]["a"][0])
            m = F.nodes[r]
            if m["k"] == "call" and m.get("f") and self.base(m) in BEGIN and self.isq(F, F.skip(m.get("o", -1))):
                self.n += 1
                self.follow(F, v, i, {h for h, body in loops})
        for i, n in enumerate(F.nodes):
            if n["k"] != "call" or not n.get("f") or i not in w:
                continue
            if self.base(n) != "operator=" or n.get("o", -1) < 0 or not n.get("a"):
                continue
            v = F.local_of(F.skip(n["o"]))
            if v is None:
                continue
            r = F.skip(n["a"][0])
            while F.nodes[r]["k"] == "ctor" and F.nodes[r].get("a"):
                r = F.skip(F.nodes[r]["a"][0])
            m = F.nodes[r]
            if m["k"] != "call" or not m.get("f") or self.base(m) != "erase" or not self.isq(F, F.skip(m.get("o", -1))):
                continue
            self.n += 1
            self.follow(F, v, i, {h for h, body in loops if w[i][0] in body})

    def follow(self, F, v, i, heads):
        b0, i0 = F.where()[i]
        st, seen = [(b0, i0 + 1)], set()
        while st:
            b, j = st.pop()
            els = F.blocks[b].els
            stop = False
            while j < len(els):
                x = F.nodes[els[j]]
                if x["k"] == "call" and x.get("f"):
                    xb = self.base(x)
                    xo = x.get("o", -1)
                    ov = F.local_of(F.skip(xo)) if xo >= 0 else None
                    av = [F.local_of(F.skip(y)) for y in x.get("a", [])]
                    if ov == v and xb in ("operator++", "operator+="):
                        self.viol("skipped", F, els[j], "an agent is passed over without being looked at")
                        stop = True
                    elif (ov == v or v in av) and not re.match(r"operator[!=<>]=?$", xb) or \
                            ov == v and xb == "operator=":
                        stop = True
                elif x["k"] == "decl" and any(dd[0] == v for dd in x.get("d", [])):
                    stop = True
                if stop:
                    break
                j += 1
            if stop or F.aborts(b):
                continue
            for s in F.blocks[b].succ:
                if s >= 0 and s not in seen and s not in heads:
                    seen.add(s)
                    st.append((s, 0))


def flat(p):
    yield p
    if isinstance(p, tuple):
        for x in p:
            if isinstance(x, tuple):
                yield from flat(x)


def run(rep, tier):
    P = Program.load()
    rep.rule("an agent joins a queue at its end; only one that was taken from the end of another queue is put in front")
    rep.rule("an agent is taken from the front of a queue or by a pass that starts at the front, never from the end "
             "(unless it is given back to the front of another queue)")
    rep.rule("the agent behind one that was taken out is looked at next")
    rep.rule("no queue is sorted, shuffled, reversed or kept in a container that reorders (newly released agents and "
             "passengers on board may be put in any order)")
    o = Order(P, rep)
    n = o.run()
    rep.require("queue operations", n, 40)
    rep.cov["queues agents are released into"] = len(o.released())
