"""C23: agents follow their routes link by link."""
import re
import sys

from lib.inline import inline
from lib.prog import Program, short
from lib.terms import REF, Terms, mentions

sys.setrecursionlimit(20000)
SET = "set_next_link"
TRACK = re.compile(r"map<(const )?\w+ \*( const)?, (std::(__cxx11::)?(deque|list|queue)<int\b.*>|std::unique_ptr<std::deque<int>>) ?\*?>?")
DROP = {"pop_front", "pop"}
LOSE = {"pop_back", "clear", "resize", "erase", "push_front", "push_back", "emplace_back", "insert", "swap", "assign"}
INTO = "m_incoming_array"
TREES = re.compile(r"^all_to_one_")


class Route(Terms):
    """terms of a routing function: agents, the links they are on, their
    routes and the trees of their destinations"""

    @staticmethod
    def isobject(t):
        return "pair<" not in t and Terms.isobject(t)

    _g = {}

    def getter(self, nid, n):
        """attribute an accessor returns, the same for every target"""
        got = set()
        for t in self.P.targets(self.N, nid):
            if t not in self._g:
                self._g[t] = None
                H = self.P.funcs.get(t)
                rs = [m for b, e, m in H.all_elements() if m["k"] == "ret"] if H else []
                if H and len(rs) == 1 and not H.params and rs[0].get("e", -1) is not None and rs[0].get("e", -1) >= 0:
                    m = H.nodes[H.skip(rs[0]["e"])]
                    if m["k"] == "mem" and H.nodes[H.skip(m["b"])]["k"] == "this":
                        self._g[t] = m["n"]
            got.add(self._g[t])
        return got.pop() if len(got) == 1 else None

    def call(self, nid, n, at, seen):
        b = self.P.ext[n["f"]]["base"] if n.get("f") else "?"
        o, a = n.get("o", -1), n["a"]
        if b == "operator->" and o >= 0 and not a:
            return self.deref(o, at, seen)
        if b in ("get_link", "get_transit_link") and o >= 0 and len(a) == 1:
            return {("link", t) for t in self.alts(a[0], at, seen)}
        if o < 0 and len(a) == 1 and b in ("begin", "cbegin"):
            return {("first", q, nid) for q in self.alts(a[0], at, seen)}
        if o < 0 and len(a) == 1 and b in ("end", "cend"):
            return {("end", q) for q in self.alts(a[0], at, seen)}
        if o < 0 and len(a) == 1 and b in ("back_inserter", "front_inserter"):
            return {("into", b[:-9], q) for q in self.alts(a[0], at, seen)}
        if b in ("front", "back") and o >= 0:
            return {("first" if b == "front" else "last", q, nid) for q in self.alts(o, at, seen)}
        if b in ("begin", "cbegin") and o >= 0:
            return {("first", q, nid) for q in self.alts(o, at, seen)}
        if b in ("operator[]", "at") and o >= 0 and len(a) == 1 and \
                re.search(r"deque<|vector<|list<", self.N.nodes[self.N.skip(o)].get("t", "")):
            return {("nth", q, i, nid) if i != ("c", 0.0) else ("first", q, nid)
                    for q in self.alts(o, at, seen) for i in self.alts(a[0], at, seen)}
        if o >= 0 and not a and n.get("f") in self.P.funcs:
            g = self.getter(nid, n)
            if g:
                return {self.member(t, g) for t in self.alts(o, at, seen)}
        return Terms.call(self, nid, n, at, seen)

    def var(self, v, at, seen):
        N = self.N
        got = Terms.var(self, v, at, seen)
        if got != {("V", v)} or N.vkind[v] != "l" or REF.search(N.vtype[v]) or self.isobject(N.vtype[v]) or len(seen) > 12:
            return got
        if "iterator" in N.vtype[v] or self.steps(v):
            return got
        rs = [r for r in N.reaching(v, at) if r[2] != "escape"]
        if not rs or any(r[2] not in ("decl", "assign") or (v, r[0]) in seen for r in rs):
            return got
        out = set()
        for node, val, kind in rs:
            if val is None:
                out.add(("undef",))
            else:
                out |= self.alts(val, node, seen + ((v, node),))
        return out if 0 < len(out) <= 12 else got


def plain(t):
    """without the nodes where queues were read"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] in ("first", "last") and len(t) == 3:
        return (t[0], plain(t[1]))
    if t and t[0] == "nth":
        return (t[0], plain(t[1]), plain(t[2]))
    return tuple(plain(x) for x in t)


def opaque(t):
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] in ("V", "call", "n", "undef", "G", "?", "new", "obj"):
        return True
    return any(opaque(x) for x in t if isinstance(x, tuple))


def strip(t, *names):
    while t[0] == "mem" and t[2] in names:
        t = t[1]
    return t


class Follow:
    def __init__(self, P, rep):
        self.P, self.rep = P, rep
        self.sites, self.seen = 0, set()
        self.tracked = {}
        for r, d in P.records.items():
            for f in d["fields"]:
                name, typ = (f["n"], f["t"]) if isinstance(f, dict) else (f[0], f[1])
                if TRACK.search(typ):
                    self.tracked.setdefault(r, set()).add(name)
        self.names = {x for s in self.tracked.values() for x in s}
        self._has = {}
        self.recs = {F.rec for F in P.funcs.values() for b, e, n in F.all_elements()
                     if n["k"] == "call" and self.base(n) == SET}

    def viol(self, key, N, nid, text):
        k = (key, N.loc(nid))
        if k not in self.seen:
            self.seen.add(k)
            self.rep.violation("%s:%s" % (key, N.name), N.loc(nid), "%s: %s" % (N.name, text))

    def fixed(self, F):
        todo, done = [F.rec], set()
        while todo:
            r = todo.pop()
            if r in done or not r:
                continue
            done.add(r)
            if r in self.tracked:
                return True
            todo += [b[0] for b in self.P.records.get(r, {"bases": ()})["bases"]]
        return False

    def base(self, n):
        return self.P.ext[n["f"]]["base"] if n.get("f") else ""

    def has(self, H):
        """does H send an agent on or shorten a route"""
        if H.key in self._has:
            return self._has[H.key]
        self._has[H.key] = False
        r = False
        for b, e, n in H.all_elements():
            if n["k"] != "call" or not n.get("f"):
                continue
            x = self.base(n)
            if x == SET or x in DROP and n.get("o", -1) >= 0 and \
                    re.match(r"(const )?std::(deque|list|queue)<int\b", H.nodes[H.skip(n["o"])].get("t", "")):
                r = True
            elif n["f"] in self.P.funcs and x != "update_routing" and self.has(self.P.funcs[n["f"]]):
                r = True
        self._has[H.key] = r
        return r

    def want(self, F, N, e, H):
        if H.base in ("update_routing", SET):
            return False
        if self.has(H):
            return H.rec in self.recs or not H.rec
        # a helper of the same routing, a test or a look-up, not a registration
        return H.rec == F.rec and H.base not in ("register_veh", "register_passenger", "init_routing") and \
            len(H.nodes) < 200 or (not H.rec and H.file == F.file and len(H.nodes) < 120)

    # ------------------------------------------------------------ one function
    def roots(self):
        direct = {}
        for F in self.P.funcs.values():
            if self.has(F) and (F.rec in self.recs or not F.rec):
                direct[F.key] = F
        called = set()
        for F in direct.values():
            for b, e, n in F.all_elements():
                if n["k"] == "call" and n.get("f") in direct and direct[n["f"]].base != "update_routing":
                    called.add(n["f"])
        return [F for k, F in sorted(direct.items()) if k not in called]

    def run(self):
        for F in self.roots():
            N = inline(self.P, F, lambda n, e, H, F=F: self.want(F, n, e, H))
            N.key = F.key + "#route"
            T = Route(self.P, N)
            fixed = self.fixed(F)
            sets = []
            for b, e, n in N.all_elements():
                if n["k"] == "call" and self.base(n) == SET and n.get("o", -1) >= 0 and n["a"]:
                    sets.append((e, T.alts(n["o"], e), T.alts(n["a"][0], e)))
            self.F, self.N, self.T = F, N, T
            self.random = not fixed and not any(t[0] == "link" and (t[1][0] == "ld" or opaque(t[1]))
                                                for e, A, L in sets for t in L)
            for e, A, L in sets:
                self.sites += 1
                if len(A) != 1:
                    self.rep.count("undecided")
                    continue
                a = next(iter(A))
                if len(sys.argv) > 2 and sys.argv[2] == "-v":
                    print(N.loc(e), F.name, a)
                    for l in L:
                        print("     ", l)
                self.value(fixed, e, a, L)
            if sets:
                self.rep.count("functions")
            if fixed:
                self.once(sets)

    # ------------------------------------------------------------ facts
    def facts(self, e):
        return self.T.holds(self.T.block(e))

    def unknown(self, facts, a):
        """a test this analysis does not see through decides on the agent"""
        for op, L, R in facts:
            for t in L | R:
                if t[0] == "call" and op in ("true", "false"):
                    n = self.N.nodes[t[2]]
                    if n.get("f") in self.P.funcs:
                        for x in ([n["o"]] if n.get("o", -1) >= 0 else []) + list(n["a"]):
                            if any(mentions(y, a) for y in self.T.alts(x, t[2])) and t[1] not in ("get_ispnr",):
                                return True
        return False

    def istrack(self, m):
        return m[0] == "mem" and m[2] in self.names

    def missing(self, facts, a):
        for op, L, R in facts:
            for l in L or [("none",)]:
                for r in R or [("none",)]:
                    for x, y in ((l, r), (r, l)):
                        if op == "==" and x[0] == "find" and self.istrack(x[1]) and x[2] == a and y[0] == "end":
                            return True
                        if x[0] == "count" and self.istrack(x[1]) and x[2] == a and \
                                (op == "false" or op == "==" and y == ("c", 0.0) or op == "<" and x == l and y == ("c", 1.0)):
                            return True
        return False

    def entered(self, facts, a):
        for op, L, R in facts:
            if op == "==":
                for l in L:
                    for r in R:
                        l1, r1 = strip(l, "m_link_ID"), strip(r, "m_link_ID")
                        if {l1, r1} == {("mem", a, "m_current_link"), ("mem", a, "m_next_link")}:
                            return True
        return False

    def place(self, a):
        """what the agent waits at the end of, in or on"""
        if a[0] == "elem" and a[2][0] == "mem":
            return a[2][1], a[2][2]
        if a[0] in ("first", "last", "nth") and a[1][0] == "mem":
            return a[1][1], a[1][2]
        return None

    def isdest(self, t, a):
        t = strip(t, "m_node_ID")
        if t[0] == "mem" and t[2] == "m_dest_node":
            return t[1] == ("mem", a, "m_dest")
        return t[0] == "mem" and t[2] == "m_mid_dest_node_ID" and mentions(t[1], a)

    def here(self, t, a):
        """is t the node where the agent is"""
        p = self.place(a)
        t = strip(t, "m_node_ID")
        if p is None:
            return None
        x, q = p
        if q == "m_finished_array":
            return t in (("mem", x, "m_to_node"), ("mem", x, "m_to_node_ID"))
        if q in ("m_in_veh_queue", "m_out_veh_queue"):
            return t == x
        return None

    def arrived(self, facts, a, op):
        maybe = False
        for o, L, R in facts:
            if o != op:
                continue
            for l in L:
                for r in R:
                    for x, y in ((l, r), (r, l)):
                        if self.isdest(x, a):
                            h = self.here(y, a)
                            if h:
                                return True
                            if h is None or opaque(y):
                                maybe = True
                        elif opaque(x) and self.here(y, a):
                            maybe = True
        return None if maybe else False

    def looked(self, e, a):
        """was the agent's destination compared with where it is, whatever came out"""
        N, T = self.N, self.T
        for b, s, fs in T.edges():
            if N.dominates(b, T.block(e)) and (self.arrived(fs, a, "==") is not False or self.arrived(fs, a, "!=") is not False):
                return True
        return False

    # ------------------------------------------------------------ rules
    def value(self, fixed, e, a, L):
        N = self.N
        facts = self.facts(e)
        unk = self.unknown(facts, a)
        pa = plain(a)
        some = [t for t in L if t != ("c", 0.0)]
        if ("c", 0.0) in L and not some:
            self.rep.count("arrivals")
            if self.arrived(facts, a, "==") is False and not unk and not self.random:
                self.viol("arrives", N, e, "an agent is sent to no further link without having been found at the node of its own "
                          "destination")
        for t in some:
            if t[0] != "link":
                if fixed and not opaque(t):
                    self.viol("other", N, e, "an agent with a fixed route is sent to a link that is not taken from its route")
                continue
            i = t[1]
            if fixed:
                self.rep.count("links of routes")
                if i[0] == "first" and i[1][0] == "ld" and self.istrack(i[1][1]):
                    if plain(i[1][2]) != pa and not opaque(i[1][2]):
                        self.viol("own", N, e, "an agent is sent to the next link of another agent's route")
                elif i[0] in ("last", "nth") or not opaque(i):
                    self.viol("first", N, e, "an agent with a fixed route is sent to a link other than the first one left of "
                              "its own route")
                    continue
                if self.held(facts, a):
                    self.viol("held", N, e, "an agent is not sent on when few links are left of its route")
                if not unk and not self.missing(facts, a) and not self.entered(facts, a) and not self.fresh(a):
                    self.viol("entered", N, e, "an agent is sent to the next link of its route although it may not have entered "
                              "the one it was sent to before")
            else:
                self.tree(e, a, i)
            p = self.place(a)
            if p and p[1] == "m_finished_array" and not unk and not self.random and not self.looked(e, a):
                self.viol("past", N, e, "an agent at the end of a link is sent on without a look at whether this is its destination")

    def held(self, facts, a):
        """is a route with one link left passed over"""
        for op, L, R in facts:
            for l in L:
                for r in R:
                    for x, y, o in ((l, r, op), (r, l, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
                        if x[0] == "size" and y[0] == "c" and len(x) > 1 and x[1][0] == "ld" and self.istrack(x[1][1]) and \
                                plain(x[1][2]) == plain(a):
                            c = y[1]
                            if not {"<": 1 < c, ">": 1 > c, "<=": 1 <= c, ">=": 1 >= c, "==": 1 == c, "!=": 1 != c}.get(o, True):
                                return True
        return False

    def tree(self, e, a, i):
        """next link of an agent that looks its way up"""
        if i[0] == "ld" and i[1][0] == "ld" and i[1][1][0] == "mem" and i[1][1][2].endswith("table"):
            self.rep.count("look-ups")
            d, node = i[1][2], i[2]
            if not opaque(d) and d != ("mem", a, "m_dest") and not self.midway(d, a):
                self.viol("dest", self.N, e, "the next link is looked up in the tree of a destination that is not the agent's own")
            if not opaque(node) and self.here(node, a) is False:
                self.viol("node", self.N, e, "the next link is looked up for another node than the one where the agent is")
        elif i[0] == "elem" and i[2][0] == "conn":
            self.rep.count("links at random")
            if not opaque(i[2][1]) and self.here(i[2][1], a) is False or i[2][2] == ("enum", "Incoming"):
                self.viol("leaves", self.N, e, "an agent is sent to a link that does not leave the node where it is")

    def midway(self, d, a):
        return mentions(d, a) and d[0] == "mem" and d[2] != "m_origin"

    def fresh(self, a):
        """agents of the same queue are given their routes in the same function"""
        N, T = self.N, self.T
        for b, e, n in N.all_elements():
            if n["k"] == "call" and self.base(n) in ("insert", "emplace") and n.get("o", -1) >= 0 and n["a"] and \
                    any(self.istrack(t) for t in T.alts(n["o"], e)):
                for t in T.alts(n["a"][0], e):
                    k = t[1] if t[0] == "pair" else t
                    if k[0] == "elem" and a[0] == "elem" and k[2] == a[2]:
                        return True
        return False

    def once(self, sets):
        """each link taken from a route leaves it, exactly once and after it was read"""
        N, T = self.N, self.T
        ev = {}
        reads = {}
        multi = False
        for e, A, L in sets:
            firsts = [t for t in L if t[0] == "link" and t[1][0] == "first"]
            if firsts and len(L) == len(firsts):
                ev[e] = 1
                for t in firsts:
                    reads.setdefault(t[1][2], []).append(e)
            elif firsts:
                multi = True
        for b, e, n in N.all_elements():
            if n["k"] != "call" or n.get("o", -1) < 0:
                continue
            x = self.base(n)
            if x in DROP or x in LOSE:
                q = T.alts(n["o"], e)
                if any(t[0] == "ld" and self.istrack(t[1]) for t in q):
                    if x in DROP:
                        ev[e] = -1
                        self.rep.count("links dropped")
                    elif x in ("pop_back", "resize", "erase", "push_front", "push_back", "insert", "emplace_back", "clear"):
                        self.viol("changed", N, e, "the rest of a route is changed other than by dropping its first link")
        if multi or not ev:
            return
        loops = []
        for e in ev:
            l = T.loop_of(T.block(e))
            if l not in loops:
                loops.append(l)
        for l in loops:
            if l and any(m and m[0] != l[0] and l[0] in m[1] and m[1] < l[1] for m in loops):
                pass
            start, body = (l[0], l[1]) if l else (N.entry, set(N.blocks))
            state = {start: {0}}
            todo = [start]
            ends = {}
            at = {}
            while todo:
                b = todo.pop()
                cur = set(state[b])
                for e in N.blocks[b].els:
                    if e in reads:
                        at.setdefault(e, set()).update(cur)
                    if e in ev and T.loop_of(T.block(e)) == l:
                        cur = {max(-2, min(2, c + ev[e])) for c in cur}
                if N.aborts(b):
                    continue
                for s in N.blocks[b].succ:
                    if s < 0:
                        continue
                    if s == start or s not in body or s == N.exit:
                        ends.setdefault(b, set()).update(cur)
                        continue
                    if not cur <= state.get(s, set()):
                        state.setdefault(s, set()).update(cur)
                        todo.append(s)
                if b == N.exit and not l:
                    ends.setdefault(b, set()).update(cur)
            mine = [e for e in ev if T.loop_of(T.block(e)) == l]
            for b, cur in ends.items():
                if any(c > 0 for c in cur):
                    s = [e for e in mine if ev[e] == 1]
                    self.viol("kept", N, s[0] if s else mine[0], "a link an agent is sent to can stay in the rest of its route")
                if any(c < 0 for c in cur):
                    s = [e for e in mine if ev[e] == -1]
                    self.viol("skipped", N, s[0] if s else mine[0], "a link can be dropped from a route without the agent being "
                              "sent to it")
            for e, cur in at.items():
                if T.loop_of(T.block(e)) == l and any(c < 0 for c in cur):
                    self.viol("late", N, e, "the next link is read after a link has been dropped from the route")
            self.rep.count("loops")

    # ------------------------------------------------------------ routes given
    def given(self):
        for F in sorted(self.P.funcs.values(), key=lambda f: f.key):
            if not any(n["k"] == "mem" and n["n"] in self.names for n in F.nodes):
                continue
            if not any(n["k"] == "call" and self.base(n) in ("insert", "emplace", "insert_or_assign", "operator[]")
                       for n in F.nodes):
                continue
            N = inline(self.P, F, lambda n, e, H, F=F: H.base != "update_routing" and len(H.nodes) < 150 and
                       (H.rec == F.rec or not H.rec and H.file == F.file))
            N.key = F.key + "#given"
            self.F, self.N, self.T = F, N, Route(self.P, N)
            for b, e, n in N.all_elements():
                if n["k"] == "call" and n.get("o", -1) >= 0 and n["a"] and self.base(n) in ("insert", "emplace") and \
                        any(self.istrack(t) for t in self.T.alts(n["o"], e)):
                    if len(n["a"]) == 2:
                        for k in self.T.alts(n["a"][0], e):
                            for q in self.T.alts(n["a"][1], e):
                                self.route(e, k, q)
                    else:
                        for t in self.T.alts(n["a"][0], e):
                            if t[0] == "pair":
                                self.route(e, t[1], t[2])
                elif n["k"] == "bin" and n["op"] == "=":
                    for t in self.T.alts(n["l"], e):
                        if t[0] == "ld" and len(t) == 3 and self.istrack(t[1]):
                            for q in self.T.alts(n["r"], e):
                                self.route(e, t[2], q)

    def route(self, e, k, q):
        """agent k gets the new list q as its route"""
        N, T = self.N, self.T
        if q[0] == "first" or q[0] == "ld" or q[0] == "mem":
            return
        self.rep.count("routes given")
        src = set()
        if len(q) == 4 and q[1] == "pair":
            src |= self.span(e, {q[2]}, {q[3]})
        for b, x, n in N.all_elements():
            if n["k"] != "call" or not n.get("f"):
                continue
            name, a = self.base(n), n["a"]
            if n.get("o", -1) >= 0 and q in T.alts(n["o"], x):
                if name == "assign" and len(a) == 2:
                    src |= self.span(x, T.alts(a[0], x), T.alts(a[1], x))
                elif name == "insert" and len(a) == 3:
                    src |= self.span(x, T.alts(a[1], x), T.alts(a[2], x))
                elif name in ("push_front", "emplace_front"):
                    self.viol("order", N, x, "a route is filled from its end")
                elif name in ("pop_front", "pop_back", "resize", "erase", "clear") and not N.aborts(b.id if hasattr(b, "id") else b):
                    self.viol("whole", N, x, "links are taken out of a route before it is given to an agent")
                elif name in ("push_back", "emplace_back") and a:
                    src |= self.pushed(x, T.alts(a[0], x))
            elif n.get("o", -1) < 0 and name in ("copy", "move") and len(a) == 3:
                ins = [t for t in T.alts(a[2], x) if t[0] == "into" and t[2] == q]
                if ins:
                    if ins[0][1] == "front":
                        self.viol("order", N, x, "a route is filled from its end")
                    src |= self.span(x, T.alts(a[0], x), T.alts(a[1], x))
            elif n.get("o", -1) < 0 and name in ("copy_n", "reverse_copy", "copy_if", "unique_copy") and a:
                if any(t[0] == "into" and t[2] == q for t in T.alts(a[-1], x)):
                    if name != "copy_n":
                        self.viol("order", N, x, "a route is not the list of the links of its path in their order")
            elif n.get("o", -1) < 0 and name in ("reverse", "sort", "shuffle", "random_shuffle", "rotate", "unique") and a:
                if any(mentions(t, q) for t in T.alts(a[0], x)):
                    self.viol("order", N, x, "the links of a route are put in another order")
        self.path(e, k, src)

    def span(self, x, B, E):
        """sources copied from begin to end"""
        got = set()
        for t in B:
            if t[0] == "first":
                if t[1][0] == "mem" and t[1][2] == "m_link_vec" or t[1][0] == "P":
                    got.add(t[1])
            elif t[0] == "call" and t[1] in ("operator+", "next", "rbegin", "crbegin", "prev", "operator-", "end"):
                self.viol("whole", self.N, x, "a route does not start with the first link of its path")
        for t in E:
            if t[0] == "end":
                if got and t[1] not in got and not opaque(t[1]):
                    self.viol("whole", self.N, x, "a route is copied up to the end of another list")
            elif t[0] == "call" and t[1] in ("operator-", "prev", "rend", "crend", "next", "operator+", "begin"):
                self.viol("whole", self.N, x, "a route does not end with the last link of its path")
        return got

    def pushed(self, x, ts):
        got = set()
        for t in ts:
            if t[0] == "elem" and t[2][0] == "mem" and t[2][2] == "m_link_vec":
                got.add(t[2])
                l = self.T.loop_of(self.T.block(x))
                if l and self.T.early(*l) is not None:
                    self.viol("whole", self.N, x, "the loop that fills a route can end before the last link of the path")
        return got

    def path(self, e, k, src):
        """whose path is it, and is it the one recorded with the agent"""
        N, T = self.N, self.T
        R = {s[1] for s in src if s[0] == "mem"} - {("c", 0.0)}
        if not R:
            return
        for r in R:
            for t in parts(r):
                if t[0] == "ld" and len(t) == 3 and t[1][0] == "ld" and len(t[1]) == 3 and t[1][1][0] == "mem" and \
                        t[1][1][2].endswith("path_table"):
                    self.rep.count("path set look-ups")
                    o, d = strip(t[1][2], "m_node_ID"), strip(t[2], "m_node_ID")
                    if not opaque(o) and o != ("mem", ("mem", k, "m_origin"), "m_origin_node") and not opaque(k):
                        self.viol("pathset", N, e, "a route is taken from the paths of an origin that is not the agent's own")
                    if not opaque(d) and d != ("mem", ("mem", k, "m_dest"), "m_dest_node") and not opaque(k):
                        self.viol("pathset", N, e, "a route is taken from the paths of a destination that is not the agent's own")
                elif t[0] == "first" and len(t) == 3 and any(x[0] == "mem" and x[2].endswith("path_table") for x in parts(t[1])) \
                        and not any(x[0] == "mem" and x[2] == "m_path_vec" for x in parts(t[1])):
                    self.viol("pathset", N, e, "a route is taken from the first path set there is, not that of the agent's own origin "
                              "and destination")
        named = set()
        any_ = False
        for b, x, n in N.all_elements():
            if n["k"] == "bin" and n["op"] == "=":
                for t in T.alts(n["l"], x):
                    if t[0] == "mem" and t[1] == k and t[2] in ("m_path", "m_transit_path"):
                        any_ = True
                        named |= T.alts(n["r"], x)
        own = {("mem", k, "m_path"), ("mem", k, "m_transit_path")}
        left = R - own
        if not left or any(opaque(t) for t in left | named):
            return
        if not any_:
            if self.F.base.startswith("register"):
                self.viol("named", N, e, "an agent gets a route but the path is not recorded with it")
            return
        ok = named | {("mem", t, "m_driving_path") for t in named} | {("mem", t, "m_transit_path") for t in named}
        if left - ok or any(t != ("c", 0.0) and not {t, ("mem", t, "m_driving_path"), ("mem", t, "m_transit_path")} & left
                            for t in named - own if not (t[0] == "mem" and t[1] in named)):
            self.viol("named", N, e, "the path recorded with an agent is not the one whose links are its route")

    # ------------------------------------------------------------ trees
    def trees(self):
        for F in sorted(self.P.funcs.values(), key=lambda f: f.key):
            if F.rec not in self.recs:
                continue
            T = None
            for b, e, n in F.all_elements():
                if n["k"] != "call" or not TREES.match(self.base(n)) or not n["a"]:
                    continue
                T = T or Route(self.P, F)
                d = T.alts(n["a"][0], e)
                for x in n["a"][1:]:
                    for t in T.alts(x, e):
                        if any(y[0] == "first" and len(y) == 3 and y[1][0] == "mem" and y[1][2].endswith("table") for y in parts(t)):
                            self.viol("tree", F, e, "the tree that is filled is not the one of the destination of the search")
                        if t[0] == "ld" and len(t) == 3 and t[1][0] == "mem" and t[1][2].endswith("table"):
                            self.rep.count("trees")
                            for y in d:
                                y = strip(y, "m_node_ID")
                                if not opaque(y) and not opaque(t[2]) and y not in (("mem", t[2], "m_dest_node"), t[2]):
                                    self.N = F
                                    self.viol("tree", F, e, "the tree of a destination is filled by a search to another node")

    # ------------------------------------------------------------ moves
    def moves(self):
        P = self.P
        for F in sorted(P.funcs.values(), key=lambda f: f.key):
            if F.base == "set_current_link":
                continue
            if any(n["k"] == "call" and self.base(n) == "set_current_link" or n["k"] == "mem" and n["n"] == INTO for n in F.nodes):
                self.move(F, F, {F.key}, 0, None)

    def move(self, F, G, chain, depth, only):
        """every move of F, seen from G, goes to the link the agent was sent to"""
        P = self.P
        N = G if G is F else inline(P, G, lambda n, e, H: H.key in chain)
        if G is not F:
            N.key = G.key + "#move" + F.key
        T = Route(P, N)
        self.N, self.T, self.F = N, T, G
        for b, e, n in N.all_elements():
            if n["k"] != "call" or n.get("o", -1) < 0 or not n["a"]:
                continue
            if self.base(n) in ("push_back", "emplace_back", "push", "push_front"):
                A = T.alts(n["a"][0], e)
                L = {t[1] for t in T.alts(n["o"], e) if t[0] == "mem" and t[2] == INTO}
                if not L or not any(m["k"] == "call" and self.base(m) == "set_current_link" and m.get("o", -1) >= 0 and
                                    T.alts(m["o"], x) & A for _, x, m in N.all_elements()):
                    continue
            elif self.base(n) == "set_current_link":
                A, L = T.alts(n["o"], e), T.alts(n["a"][0], e)
            else:
                continue
            if only is not None and N.loc(e).split(":")[-1] != only:
                continue
            if depth == 0:
                self.rep.count("moves")
            if len(A) != 1:
                continue
            a = plain(next(iter(A)))
            nxt = ("mem", a, "m_next_link")
            facts = T.holds(T.block(e))
            bad = []
            for l in map(plain, L):
                if mentions(l, nxt) or l == ("mem", a, "m_current_link") or any(
                        op == "==" and {strip(plain(x), "m_link_ID"), strip(plain(y), "m_link_ID")} == {nxt, l}
                        for op, X, Y in facts for x in X for y in Y):
                    continue
                bad.append(l)
            if not bad or self.unknown(facts, next(iter(A))):
                continue
            outer = [c for c in sorted(P.callers().get(F.key if depth == 0 else G.key, ()), key=str)] if depth < 2 else []
            if outer and any(mentions(l, ("P", i)) or mentions(a, ("P", i)) for l in bad for i in range(8)):
                for c in {(c[0] if isinstance(c, tuple) else c) for c in outer}:
                    H = c if hasattr(c, "nodes") else P.funcs.get(c)
                    if H is not None and H.key not in chain:
                        self.move(F, H, chain | {G.key}, depth + 1, N.loc(e).split(":")[-1])
                        self.N, self.T, self.F = N, T, G
                continue
            if any(l[0] in ("V", "n", "call") for l in bad):
                continue
            self.viol("moved", N, e, "an agent is moved to a link without having been sent there")


def parts(t):
    yield t
    for x in t:
        if isinstance(x, tuple):
            yield from parts(x)


def run(rep, tier):
    P = Program.load()
    rep.rule("an agent with a fixed route is sent only to the first link left of its own route, when it gets the route or has "
             "entered the link it was sent to before")
    rep.rule("over every path of a pass, as many links are dropped from a route as the agent is sent to, and a link is read "
             "before it is dropped")
    rep.rule("a route is the whole list of links of a path found by the agent's own origin and destination, and the path is "
             "recorded with the agent")
    rep.rule("an adaptive agent is looked up in the tree of its own destination at the node where it is; the tree of a "
             "destination is filled by a search to it; a random link leaves that node")
    rep.rule("an agent is sent to no link only at its destination and moved only to the link it was sent to")
    X = Follow(P, rep)
    X.run()
    X.given()
    X.trees()
    X.moves()
    rep.require("places where an agent is sent on", X.sites, 10)
