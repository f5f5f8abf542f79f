"""C19: shortest-path trees follow the graph and satisfy Bellman's conditions,
and the paths taken from them are connected."""
import re

from lib.inline import inline
from lib.prog import Program, short
from lib.release import Release
from lib.terms import Terms, mentions, tsum

TREE = re.compile(r"^(std::)?(unordered_)?map<int, int( \*)?>( &)?$")
DIST = re.compile(r"^(std::)?(unordered_)?map<int, double( \*)?>( &)?$")
COST = re.compile(r"^const (std::)?(unordered_)?map<int, double( \*)?> &$")
TURN = re.compile(r"^const (std::)?(unordered_)?map<int, (std::)?(unordered_)?map<int, double( \*)?>> &$")
KEEP = {"round_time"}
PUSH = {"push", "push_back", "push_front", "emplace", "emplace_back", "emplace_front", "insert"}
POP = {"pop", "pop_front", "pop_back"}
HEADS = {"top", "front", "back"}


def typename(t):
    return re.sub(r"\bclass |\bstruct ", "", t)


class Builder:
    """one function that fills a tree"""

    def __init__(self, P, F, rep):
        self.P, self.F, self.rep = P, F, rep
        N = inline(P, F, lambda n, e, H: H.base not in KEEP and
                   (not H.base.startswith("all_to_one_") or F.base.startswith("all_to_one_"))
                   and "Graph" not in (H.rec or ""))
        N.key = F.key + "#with-helpers"
        self.N = N
        self.T = Terms(P, N)
        self.R = Release(P, lambda F, n: False, lambda F, n: None)
        self.short = "%s/%d" % (short(F.key), len(F.params))
        self.roles()

    def bad(self, what, nid, text):
        N = self.N
        loc = N.loc(nid) if nid is not None and nid >= 0 else self.F.loc()
        if nid is not None and nid >= 0:
            k = N.origin[nid][0] if nid < len(N.origin) else self.F.key
            G = self.P.funcs.get(k)
            if G is not None:
                loc = "%s:%d" % (G.file, N.nodes[nid].get("L") or G.line)
        self.rep.violation("%s:%s" % (self.short, what), loc, "%s: %s" % (self.short, text))

    # ------------------------------------------------------------- roles
    def roles(self):
        N = self.N
        self.tree = self.dist = None
        self.costs, self.turns, self.ints = [], [], []
        for p in sorted(N.params, key=lambda p: N.vpidx[p]):
            t, i = typename(N.vtype[p]), N.vpidx[p]
            if TREE.match(t):
                self.tree = ("P", i)
            elif DIST.match(t):
                self.dist = ("P", i)
            elif COST.match(t):
                self.costs.append(("P", i))
            elif TURN.match(t):
                self.turns.append(("P", i))
            elif t.replace("const ", "") == "int":
                self.ints.append(("P", i))
        if self.tree is None and self.F.rec:
            for r in self.P.bases(self.F.rec):
                for n in N.nodes:
                    if n["k"] == "mem" and n.get("r") == r and n.get("t"):
                        if TREE.match(typename(n["t"])):
                            self.tree = ("mem", ("T",), n["n"])
                        elif DIST.match(typename(n["t"])):
                            self.dist = ("mem", ("T",), n["n"])
        if self.dist is None:
            vs = [v for v in range(len(N.vars)) if N.vkind[v] == "l" and DIST.match(typename(N.vtype[v]))
                  and not N.vtype[v].endswith("&")]
            if len(vs) == 1:
                self.dist = ("V", vs[0])
            elif vs:
                # the one that entries are written to under a comparison
                self.dist = ("V", vs[0])

    # ------------------------------------------------------------ stores
    def stores(self):
        """(node, block, table, key, position, values, overwrites)"""
        N, T = self.N, self.T
        out = []
        for b, e, n in N.all_elements():
            if n["k"] == "bin" and n["op"] in ("=", "+=", "-="):
                lv = N.nodes[n["l"]]
                if lv["k"] == "var" and not N.vtype[lv["v"]].rstrip().endswith("&"):
                    continue
                for l in T.alts(n["l"], e):
                    if l[0] == "ld":
                        v = T.alts(n["r"], e) if n["op"] == "=" else {("?", e)}
                        out.append((e, b, l[1], l[2], l[3] if len(l) > 3 else None, v, True))
            elif n["k"] == "call" and n.get("f") and n.get("o", -1) >= 0:
                base = self.P.ext[n["f"]]["base"]
                ms = T.alts(n["o"], e)
                if len(ms) != 1:
                    continue
                m = next(iter(ms))
                if base in ("insert", "emplace", "insert_or_assign", "try_emplace"):
                    strong = base == "insert_or_assign"
                    if len(n["a"]) == 2:
                        ks, vs = T.alts(n["a"][0], e), T.alts(n["a"][1], e)
                        for k in ks:
                            out.append((e, b, m, k, None, vs, strong))
                    elif len(n["a"]) == 1:
                        ts = T.alts(n["a"][0], e)
                        ks = {t[1] for t in ts if t[0] == "pair"}
                        for k in ks:
                            out.append((e, b, m, k, None, {t[2] for t in ts if t[0] == "pair" and t[1] == k}, strong))
                        if not ks:
                            for t in ts:
                                out.append((e, b, m, t, None, {("c", 1.0)}, strong))
                elif base == "erase" and len(n["a"]) == 1:
                    for k in T.alts(n["a"][0], e):
                        out.append((e, b, m, k[2] if k[0] == "find" else k, None, {("c", 0.0)}, True))
                elif base == "clear":
                    out.append((e, b, m, None, None, set(), True))
        return out

    def fresh(self, m, b):
        """is the table empty when block b starts: a local, or cleared on the
        way (init stores apart)"""
        if m[0] == "V":
            return True
        T = self.T
        for e, x, mm, k, pos, vs, st in self.all:
            if mm == m and k is None and x != b and self.N.dominates(x, b):
                return True
        return False

    # ------------------------------------------------- initial values
    def each_node(self, b):
        """(header, body, element) of a complete loop over the nodes around b"""
        for h, body in self.T.chain(b):
            tr = self.T.traverses(h, body)
            if tr and tr[1] == ("nodes",):
                return h, body, ("elem", tr[0], tr[1])
        return None

    def under(self, nid, b, value, elem):
        """conditions under which one of several values is stored: those of
        the arm or definition that gives it"""
        N, T = self.N, self.T
        out = list(T.holds(b))
        n = N.nodes[nid]
        r = n.get("r") if n["k"] == "bin" else None
        for x in (N.walk(r) if r is not None else ()):
            m = N.nodes[x]
            if m["k"] == "cond":
                if value in T.alts(m["l"], x) and value not in T.alts(m["r"], x):
                    out += T.facts(m["c"], True)
                elif value in T.alts(m["r"], x) and value not in T.alts(m["l"], x):
                    out += T.facts(m["c"], False)
            if m["k"] == "var" and N.vkind[m["v"]] == "l":
                for dn, val, kind in N.reaching(m["v"], nid):
                    if val is not None and dn >= 0 and T.block(dn) is not None and T.alts(val, dn) == {value}:
                        out += T.holds(T.block(dn))
                        y = N.skip(val)
                        if N.nodes[y]["k"] == "cond":
                            pass
        return out

    def excluded(self, b, elem):
        """edges in a loop over the nodes on which the node is the destination"""
        return {(x, s) for x, s, fs in self.T.edges()
                if any(f[0] == "==" and {frozenset(f[1]), frozenset(f[2])} ==
                       {frozenset({elem}), frozenset({self.dest})} for f in fs)}

    def same(self, f, op, a, b):
        return f[0] == op and ((f[1] == {a} and f[2] == {b}) or (f[1] == {b} and f[2] == {a}))

    def reset(self, m, val, pos, name):
        """every node's entry of table m gets its initial value"""
        N, T = self.N, self.T
        loops = {}
        for e, b, mm, k, p, vs, strong in self.all:
            if mm != m or k is None:
                continue
            en = self.each_node(b)
            if en is None or k != en[2]:
                continue
            rest = vs - {val}
            ok = val in vs
            if rest:
                # another value only for the destination
                ok = ok and all(self.is_dest_value(v, m) and
                                any(self.same(f, "==", en[2], self.dest) for f in self.under(e, b, v, en[2]))
                                for v in rest)
            if not ok:
                continue
            if pos is not None and p != pos and not (self.span and self.covers(b, en, p)):
                continue
            skip = set()
            if not strong:
                w = self.fresh(m, en[0])
                absent = any(f[0] == "==" and frozenset(f[1]) == frozenset({("find", m, k)}) or
                             f[0] == "==" and frozenset(f[2]) == frozenset({("find", m, k)}) or
                             f[0] in ("==", "false") and ("count", m, k) in f[1] for f in T.holds(b))
                if not w and not absent:
                    self.weak.append((e, name))
                    continue
            loops.setdefault(en[0], (en[1], en[2], []))[2].append((e, b))
        for h, (body, elem, ss) in sorted(loops.items()):
            if T.early(h, body) is not None:
                continue
            thr = set()
            for e, b in ss:
                # an inner loop over the intervals counts as a whole
                c = [x for x in T.chain(b) if x[1] < body]
                thr.add(c[-1][0] if c else b)
            skip = self.excluded(None, elem)
            start = [s for s in N.blocks[h].succ if s in body]
            if all(T.passes(s, {h} | {x for x in N.blocks if x not in body}, thr, skip) for s in start):
                self.rep.count("tables_reset")
                return h, body, ss
        return None

    def is_dest_value(self, v, m):
        return v == ("c", 0.0) if m == self.dist else True

    def covers(self, b, en, p):
        """position p runs over all intervals in a loop inside (or around) the
        loop over the nodes"""
        for h, body in self.T.chain(b):
            if h == en[0]:
                continue
            tr = self.R.trips(self.N, h, body)
            if isinstance(tr, dict) and self.is_span(tr, 0) and p[0] == "V" and self.T.early(h, body) is None \
                    and self.start(h, body, p[1]) == {("c", 0.0)}:
                return True
        return False

    def is_span(self, tr, less):
        """trip count equals the number of intervals minus less"""
        return self.lin(tr) == {self.span[2]: 1.0, None: -float(less)} or \
            (not less and self.lin(tr) == {self.span[2]: 1.0})

    @staticmethod
    def lin(tr):
        out = {}
        for m, c in tr.items():
            if len(m) > 1:
                return None
            k = None
            if m:
                x = m[0]
                k = x[2] if isinstance(x, tuple) and x[0] == "mem" else repr(x)
            if c:
                out[k] = float(c)
        return out

    def start(self, h, body, v):
        N, T = self.N, self.T
        out = set()
        for node, val, kind in N.reaching(v, T.last(h)):
            if T.block(node) not in body:
                out |= T.alts(val, node) if val is not None else {("?",)}
        return out

    def base_zero(self, before):
        """the destination's own distance is zero"""
        N, T = self.N, self.T
        for e, b, m, k, p, vs, strong in self.all:
            if m != self.dist or k is None:
                continue
            if k == self.dest and vs == {("c", 0.0)} and (N.dominates(b, before)):
                # not written over afterwards by the loop that resets
                over = [x for x in self.init[2] if x[0] != e] if self.init else []
                for e2, b2 in over:
                    if b in T.without((None, None), b2) and b2 in N.reach_from(b) and self.strong(e2) and \
                            not any(self.same(f, "!=", self.init_elem(b2), self.dest) for f in T.holds(b2)) and \
                            b not in N.reach_from(b2):
                        return False
                return True
            en = self.each_node(b)
            if en and k == en[2] and ("c", 0.0) in vs and N.dominates(en[0], before) and \
                    any(self.same(f, "==", en[2], self.dest) for f in self.under(e, b, ("c", 0.0), en[2])):
                return True
        return False

    def strong(self, e):
        return any(x[0] == e and x[6] for x in self.all)

    def init_elem(self, b):
        en = self.each_node(b)
        return en[2] if en else None

    # --------------------------------------------------------- relaxation
    def relaxations(self):
        """stores into dist and tree that are not initial values"""
        ds, ts = [], []
        for s in self.all:
            e, b, m, k, p, vs, strong = s
            if k is None:
                continue
            if m == self.dist and not (vs <= {("inf",), ("c", 0.0)}):
                ds.append(s)
            elif m == self.dist and vs == {("c", 0.0)} and k != self.dest and self.each_node(b) is None:
                self.bad("zero", e, "a distance is set to zero for a node other than the destination")
            elif m == self.tree and vs != {("c", -1.0)}:
                ts.append(s)
            elif m == self.tree and self.each_node(b) is None:
                self.bad("unset", e, "a tree entry is taken away outside the initialisation")
        return ds, ts

    def guard(self, s, kd, pd):
        """edge that admits a store only when the new distance is smaller"""
        e, b, m, k, p, vs, strong = s
        for x, t, fs in self.T.guards(b):
            for f in fs:
                if f[0] == "<" and f[1] == self.value and len(f[2]) == 1:
                    d = next(iter(f[2]))
                    if d == (("ld", self.dist, kd) + ((pd,) if pd is not None else ())):
                        return x, t
        return None

    def looked(self, i):
        """does the expression follow what find gives"""
        return any(n["k"] == "call" and n.get("f") and self.P.ext[n["f"]]["base"] == "find"
                   for n in (self.N.nodes[x] for x in self.N.walk(i)))

    def link_of(self, k):
        """the link whose tail a key is"""
        if k[0] == "tail":
            return k[1]
        return None

    def head(self, l):
        return self.T.member(("ends", l), "second")


def atoms(t):
    if t[0] == "sum":
        return dict(t[1])
    return {t: 1}


def sought(f, find, turns, l, out):
    """does the fact say that the table has an entry for the turn from l to out"""
    if not all(x[1:3] in [(t, l) for t in turns] + [(("ld", t, l), out) for t in turns] for x in find):
        return False
    if any(x[0] == "find" for x in find):
        ends = {("end", x[1]) for x in find}
        return f[0] == "!=" and set(f[1]) | set(f[2]) == set(find) | ends
    return f[0] in ("!=", "true", "<", "<=", "==")


class Static(Builder):
    """all_to_one_*: label correction with a queue"""

    def run(self):
        N, T = self.N, self.T
        self.weak = []
        self.span = None
        self.dest = self.ints[0] if self.ints else None
        if self.tree is None or self.dist is None or self.dest is None or not self.costs:
            self.bad("form", None, "no tree, distance or cost table recognised")
            return
        self.cost = self.costs[0]
        self.turn = self.turns[0] if self.turns else None
        pos = self.ints[1:4] if len(self.ints) >= 4 else [None] * 3
        self.cpos, self.dpos, self.opos = pos
        self.all = self.stores()
        self.queue()
        if self.main is None:
            self.bad("form", None, "no loop that takes nodes from a queue")
            return
        self.init = self.reset(self.dist, ("inf",), self.dpos, "distance")
        if self.init is None:
            self.bad("reset:distance", None, "not every node's distance starts at infinity")
        elif not N.dominates(self.init[0], self.main[0]):
            self.bad("reset:distance", None, "the distances are not reset before the search")
        r = self.reset(self.tree, ("c", -1.0), self.opos, "tree")
        if r is None or not N.dominates(r[0], self.main[0]):
            w = [x for x in self.weak if x[1] == "tree"]
            self.bad("reset:tree", w[0][0] if w else None,
                     "an entry the tree already has is not reset" if w else
                     "not every node's tree entry starts as missing")
        if not self.base_zero(self.main[0]):
            self.bad("reset:destination", None, "the destination's distance does not start at zero")
        self.relax()
        self.scan()

    # -------------------------------------------------------------- queue
    def queue(self):
        N, T = self.N, self.T
        self.pushes, self.pops = [], []
        for b, e, n in N.all_elements():
            if n["k"] != "call" or not n.get("f") or n.get("o", -1) < 0:
                continue
            base = self.P.ext[n["f"]]["base"]
            o = T.alts(n["o"], e)
            if len(o) != 1:
                continue
            q = next(iter(o))
            if q[0] != "V" or not re.search(r"queue|deque|stack|list|vector|set<", N.vtype[q[1]]):
                continue
            if base in PUSH and n["a"]:
                self.pushes.append((e, b, q, set().union(*[T.alts(a, e) for a in n["a"]])))
            elif base in POP or base == "erase":
                self.pops.append((e, b, q))
        qs = [q for _, _, q in self.pops]
        self.main = None
        for e, b, q in self.pops:
            ls = T.chain(b)
            if ls:
                self.main = ls[-1]
                self.q = q
                self.pop = (e, b)
        self.pushes = [p for p in self.pushes if qs and p[2] == self.q] if self.main else []
        # what is read from the queue
        self.taken = set()
        for b, e, n in N.all_elements():
            if n["k"] == "call" and n.get("f") and self.P.ext[n["f"]]["base"] in HEADS | {"begin"} and n.get("o", -1) >= 0 \
                    and T.alts(n["o"], e) == {self.q if self.main else None}:
                self.taken.add(("call", self.P.ext[n["f"]]["base"], e))

    def popped(self, t):
        return any(mentions(t, x) for x in self.taken)

    # --------------------------------------------------------- relaxation
    def relax(self):
        N, T = self.N, self.T
        ds, ts = self.relaxations()
        self.region = []
        if not ds:
            self.bad("relax", None, "distances are never improved")
        for s in ds:
            e, b, m, k, p, vs, strong = s
            l = self.link_of(k)
            if l is None:
                self.bad("relax", e, "a distance is recorded for a node that is not the start of a link")
                continue
            if b not in self.main[1]:
                self.bad("relax", e, "a distance is improved outside the search")
                continue
            if self.dpos is not None and p != self.dpos:
                self.bad("relax", e, "the distance is recorded at another position than asked")
            self.value = vs
            y = self.head(l)
            want = [("ld", self.dist, y) + ((self.dpos,) if self.dpos else ()),
                    ("ld", self.cost, l) + ((self.cpos,) if self.cpos else ())]
            plain = tsum([(1, want[0]), (1, want[1])])
            full = plain
            if self.turn:
                out = ("ld", self.tree, y) + ((self.opos,) if self.opos else ())
                tc = ("ld", ("ld", self.turn, l), out) + ((self.cpos,) if self.cpos else ())
                full = tsum([(1, plain), (1, tc)])
            if not vs <= {plain, full} or full not in vs:
                self.bad("relax", e, "the distance recorded for the start of a link is not the cost of the link "
                                     "plus the distance at its end%s" % (" plus the turn's cost" if self.turn else ""))
                continue
            if self.turn:
                self.turn_when(l, y, out)
            g = self.guard(s, k, p)
            if g is None:
                self.bad("relax", e, "a distance is replaced without a test that the new one is smaller")
                continue
            inner = T.loop_of(g[0])
            self.region.append((s, g, inner, l, y))
            self.rep.count("relaxations")
            # the tree entry changes with it
            mine = [t for t in ts if t[3] == k and t[5] == {l} and (self.opos is None or t[4] == self.opos)]
            thr = {t[1] for t in mine}
            out_ = {x for x in N.blocks if x not in inner[1]} | {inner[0]}
            if not mine or not T.passes(g[1], out_, thr):
                self.bad("tree", e, "the tree entry of the node does not become the link its distance comes from")
            if not T.passes(g[1], out_, {b}):
                self.bad("relax", e, "a smaller distance is not always recorded")
            self.requeue(s, g, inner, k)
        for t in ts:
            ok = any(t[3] == s[3] and t[5] == {l} and not (self.opos and t[4] != self.opos) and
                     t[1] not in T.without(g) for s, g, inner, l, y in self.region)
            if not ok:
                self.bad("tree", t[0], "a tree entry is set that does not go with a distance just improved")
        self.ds, self.ts = ds, ts

    def turn_when(self, l, y, out):
        """the turn's cost is left out only where there is none"""
        N, T = self.N, self.T
        for b, e, n in N.all_elements():
            if n["k"] == "bin" and n["op"] == "+=" and any(mentions(t, self.turn) for t in T.alts(n["r"], e)):
                inner = T.loop_of(b)
                base = {(x, s) for x, s, fs in T.guards(inner[0])}
                seen = {y[1:3] for x, s, fs in T.guards(b) for f in fs for side in f[1:] for y in side
                        if y[0] in ("find", "count")}
                if not {(self.turn, l), (("ld", self.turn, l), out)} <= seen and self.looked(n["r"]):
                    self.bad("turn", e, "the cost of a turn is looked up without having been found")
                for x, s, fs in T.guards(b):
                    if (x, s) in base or x not in inner[1] or x == inner[0]:
                        continue
                    for f in fs:
                        if not self.turn_fact(f, l, y, out):
                            self.bad("turn", e, "the cost of a turn is left out under another condition than that the "
                                                "link ends at the destination or has no cost for the turn")

    def turn_fact(self, f, l, y, out):
        find = [x for side in f[1:] for x in side if x[0] in ("find", "count")]
        if find:
            return sought(f, find, [self.turn], l, out)
        if self.same(f, "!=", y, self.dest) or self.same(f, "!=", out, ("c", -1.0)):
            return True
        if f[0] in ("<", "<=") and out in f[2] and f[1] <= {("c", 0.0), ("c", -1.0)}:
            return True
        return False

    def requeue(self, s, g, inner, k):
        """a node whose distance became smaller is in the queue afterwards"""
        N, T = self.N, self.T
        e = s[0]
        push = {b for pe, b, q, vs in self.pushes if any(mentions(v, k) for v in vs)}
        flags = set()
        skip = set()
        for x, t, fs in T.edges():
            for f in fs:
                if f[0] == "true":
                    for v in f[1]:
                        if v[0] in ("ld", "count") and v[2] == k and v[1] not in (self.dist, self.tree):
                            skip.add((x, t))
                            flags.add(v[1])
                if f[0] in ("!=", "<", "<=") or f[0] == "==":
                    for side, other in ((f[1], f[2]), (f[2], f[1])):
                        for v in side:
                            if v[0] == "count" and v[2] == k and f[0] in ("!=", "<") and other == {("c", 0.0)}:
                                skip.add((x, t))
                                flags.add(v[1])
                            if v[0] == "find" and v[2] == k and f[0] == "!=" and v[1] not in (self.dist, self.tree) \
                                    and "set" in N.vtype[v[1][1]] if v[0] == "find" and v[1][0] == "V" else False:
                                skip.add((x, t))
                                flags.add(v[1])
                            if v[0] == "ld" and v[2] == k and v[1] not in (self.dist, self.tree) and \
                                    f[0] == "==" and other == {("c", 1.0)}:
                                skip.add((x, t))
                                flags.add(v[1])
        goals = {x for x in N.blocks if x not in inner[1]} | {inner[0]}
        if not T.passes(g[1], goals, push, skip):
            self.bad("queue", e, "a node whose distance became smaller is not put back into the queue")
        self.rep.count("queue_obligations")
        for fl in flags:
            self.flag(fl, e)

    def flag(self, fl, e0):
        """a node marked as queued is queued"""
        N, T = self.N, self.T
        cleared = set()
        for e, b, m, k, p, vs, strong in self.all:
            if m != fl or k is None:
                continue
            if vs == {("c", 0.0)}:
                if self.popped(k) or k[0] == "elem":
                    if b in self.main[1]:
                        cleared.add(b)
                continue
            push = {pb for pe, pb, q, pv in self.pushes if any(mentions(v, k) for v in pv)}
            inner = T.loop_of(b)
            if inner:
                goals = {x for x in N.blocks if x not in inner[1]} | {inner[0]}
                near = any(N.dominates(x, b) and x in inner[1] for x in push)
            else:
                goals = {self.main[0]}
                near = any(N.dominates(x, b) for x in push)
            if not near and not T.passes(b, goals, push):
                self.bad("queue", e, "a node is marked as queued without being put into the queue")
        self.entries(fl)
        # the mark goes when the node is taken
        ph, pbody = self.main
        if not T.passes(self.pop[1], {ph} | {x for x in N.blocks if x not in pbody}, cleared) and \
                not any(N.dominates(c, self.pop[1]) and c in pbody for c in cleared):
            self.bad("queue", self.pop[0], "a node taken from the queue can stay marked as queued")

    def entries(self, fl):
        """marks that are looked up without making one exist for every node"""
        N, T = self.N, self.T
        found = None
        for e, b, m, k, p, vs, strong in self.all:
            if m == fl and strong and N.nodes[e]["k"] == "bin" and b in self.main[1]:
                for x in N.walk(N.nodes[e]["l"]):
                    n = N.nodes[x]
                    if n["k"] == "call" and n.get("f") and self.P.ext[n["f"]]["base"] in ("find", "at") and \
                            n.get("o", -1) >= 0 and T.alts(n["o"], e) == {fl} and \
                            not any(f[0] == "!=" and ("end", fl) in f[1] | f[2] for f in T.holds(b)):
                        found = e
        if found is None:
            return
        rest = dest = False
        for e, b, m, k, p, vs, strong in self.all:
            if m != fl or k is None:
                continue
            en = self.each_node(b)
            if en is None:
                if k == self.dest and N.dominates(b, self.main[0]):
                    dest = True
                continue
            if k != en[2] or T.early(en[0], en[1]) is not None:
                continue
            mine = {x[1] for x in self.all if x[2] == fl and x[3] == k and x[1] in en[1]}
            for s in N.blocks[en[0]].succ:
                if s in en[1]:
                    out = {en[0]} | {x for x in N.blocks if x not in en[1]}
                    rest = rest or T.passes(s, out, mine, self.excluded(None, en[2]))
                    dest = dest or T.passes(s, out, mine)
        if not rest or not dest:
            self.bad("queue", found, "a mark is looked up for a node that has none")

    # --------------------------------------------------------------- scan
    def scan(self):
        N, T = self.N, self.T
        h, body = self.main
        # the search goes on while the queue holds something
        fs = [f for x, s, fs in T.edges() if x == h and s in body for f in fs]
        ok = any(f[0] == "false" and ("empty", self.q) in f[1] or
                 f[0] in ("!=", "<") and {("size", self.q), ("c", 0.0)} == set(f[1]) | set(f[2]) or
                 f[0] == "<=" and f[1] == {("c", 1.0)} and f[2] == {("size", self.q)} or
                 f[0] == "true" and ("size", self.q) in f[1] for f in fs)
        ex = T.early(h, body)
        if not ok or ex is not None:
            self.bad("scan", N.blocks[ex].tc if ex is not None else T.last(h),
                     "the search can end while nodes are still queued")
        if not any(N.dominates(b, h) and any(mentions(v, self.dest) for v in vs) for e, b, q, vs in self.pushes):
            self.bad("queue", None, "the search does not start from the destination")
        skipok = {(x, s) for x, s, fs in T.edges()
                  if any(f[0] in ("<", "!=") and any(self.popped(t) and t[0] != "ld" for t in f[1] | f[2]) and
                         any(t[0] == "ld" and t[1] == self.dist for t in f[1] | f[2]) for f in fs)}
        for s, g, inner, l, y in self.region:
            if l[0] != "elem" or l[2][0] != "conn" or l[2][2] != ("enum", "Incoming") or not self.popped(l[2][1]):
                self.bad("scan", s[0], "the links examined for a node taken from the queue are not those that "
                                       "enter it")
                continue
            if T.early(*inner) is not None:
                self.bad("scan", s[0], "the links that enter a node are not all examined")
            if not T.passes(self.pop[1], {h} | {x for x in N.blocks if x not in body}, {inner[0]}, skipok):
                self.bad("scan", s[0], "a node taken from the queue may not be examined")
            c = ("ld", self.cost, l) + ((self.cpos,) if self.cpos else ())
            skip = {(x, t) for x, t, fs in T.edges() if any(f[0] == "true" and ("isinf", c) in f[1] for f in fs)}
            for st in N.blocks[inner[0]].succ:
                if st in inner[1] and not T.passes(st, {inner[0]}, {g[0]}, skip):
                    self.bad("scan", s[0], "a link that enters the node can be passed over")
            self.rep.count("scans")


class Timed(Builder):
    """update_tree: one pass over the intervals from the last to the first"""

    def run(self):
        N, T = self.N, self.T
        self.weak = []
        if self.tree is None or self.dist is None or len(self.costs) < 2:
            self.bad("form", None, "no tree, distance or cost table recognised")
            return
        M = [n for n in N.nodes if n["k"] == "mem" and n["n"] == "m_max_interval"]
        self.span = ("mem", ("T",), "m_max_interval")
        self.dest = ("mem", ("T",), "m_dest_node_ID")
        self.cost, self.tt = self.costs[:2]
        self.turn, self.turntt = self.turns[:2] if len(self.turns) >= 2 else (None, None)
        self.all = self.stores()
        last = tsum([(1, self.span), (-1, ("c", 1.0))])
        ds, ts = self.relaxations()
        self.init = self.reset(self.dist, ("inf",), ("all",), "distance")
        calls = self.last_interval(last)
        if self.init is None:
            self.bad("reset:distance", None, "not every node's distance starts at infinity in every interval")
        r = self.reset(self.tree, ("c", -1.0), ("all",), "tree")
        if r is None:
            self.bad("reset:tree", None, "not every node's tree entry starts as missing in every interval")
        if not ds:
            self.bad("relax", None, "distances are never improved")
            return
        for s in ds:
            self.relax(s, ts, calls, r)
        for t in ts:
            if not any(t[3] == s[3] and t[4] == s[4] and t[5] == {self.link_of(s[3])} for s in ds):
                self.bad("tree", t[0], "a tree entry is set that does not go with a distance just improved")
        if self.init and not self.base_zero(T.chain(ds[0][1])[-1][0] if T.chain(ds[0][1]) else N.exit):
            self.bad("reset:destination", None, "the destination's distance does not start at zero")

    def last_interval(self, last):
        N, T = self.N, self.T
        out = []
        for b, e, n in N.all_elements():
            if n["k"] == "call" and n.get("f") and self.P.ext[n["f"]]["base"].startswith("all_to_one_"):
                want = [self.dest, None, self.cost] + ([self.turn] if self.turn else []) + \
                    [self.dist, self.tree, last, last, last]
                a = [T.alts(x, e) for x in n["a"]]
                if len(a) != len(want) or any(w is not None and x != {w} for w, x in zip(want, a)):
                    self.bad("last", e, "the last interval is not solved for the destination with the costs of that "
                                        "interval")
                out.append((e, b))
        if not out:
            self.bad("last", None, "the last interval is not solved")
        return out

    def relax(self, s, ts, calls, r):
        N, T = self.N, self.T
        e, b, m, k, p, vs, strong = s
        l = self.link_of(k)
        if l is None:
            self.bad("relax", e, "a distance is recorded for a node that is not the start of a link")
            return
        ch = T.chain(b)
        if l[0] != "elem" or l[2] != ("links",) or len(ch) < 2:
            self.bad("scan", e, "the links examined in an interval are not those of the network")
            return
        inner, outer = ch[0], ch[1]
        self.value = vs
        y = self.head(l)
        t = p
        tt = ("ld", self.tt, l, t)
        c = ("ld", self.cost, l, t)
        ok, must = set(), None
        if not self.turn:
            must = tsum([(1, c), (1, ("ld", self.dist, y, ("arr", t, tt)))])
            ok = {must}
        else:
            out = ("ld", self.tree, y, ("arr", t, tt))
            tc = ("ld", ("ld", self.turn, l), out, ("arr", t, tt))
            tu = ("ld", ("ld", self.turntt, l), out, ("arr", t, tt))
            for a in (0, 1):
                for d in (0, 1):
                    x = tsum([(1, c), (a, tc), (1, ("ld", self.dist, y, ("arr", t, tsum([(1, tt), (d, tu)]))))])
                    ok.add(x)
                    must = x
        if not vs <= ok or must not in vs:
            self.bad("relax", e, "the distance recorded for the start of a link is not the cost of the link in that "
                                 "interval plus the distance at its end on arrival")
            return
        if self.turn:
            self.turn_when(l, y, out)
        g = self.guard(s, k, p)
        if g is None:
            self.bad("relax", e, "a distance is replaced without a test that the new one is smaller")
            return
        self.rep.count("relaxations")
        goals = {x for x in N.blocks if x not in inner[1]} | {inner[0]}
        mine = {q[1] for q in ts if q[3] == k and q[5] == {l} and q[4] == t}
        if not mine or not T.passes(g[1], goals, mine):
            self.bad("tree", e, "the tree entry of the node does not become the link its distance comes from")
        if not T.passes(g[1], goals, {b}):
            self.bad("relax", e, "a smaller distance is not always recorded")
        # every link in every interval, last to first
        skip = {(x, q) for x, q, fs in T.edges() if any(f[0] == "true" and ("isinf", c) in f[1] or
                                                       f[0] == "true" and ("isinf", tt) in f[1] for f in fs)}
        if T.early(*inner) is not None or not all(T.passes(st, {inner[0]}, {g[0]}, skip)
                                                  for st in N.blocks[inner[0]].succ if st in inner[1]):
            self.bad("scan", e, "a link can be passed over in an interval")
        if not all(T.passes(st, {outer[0]}, {inner[0]}) for st in N.blocks[outer[0]].succ if st in outer[1]) or \
                T.early(*outer) is not None:
            self.bad("scan", e, "an interval can be passed over")
        if not self.backwards(outer, t):
            self.bad("order", e, "the intervals before the last are not worked through from the last to the first")
        self.rep.count("scans")
        for ce, cb in calls:
            if not N.dominates(cb, outer[0]):
                self.bad("last", ce, "the last interval is not solved before the others")
            if self.init and not N.dominates(self.init[0], cb):
                self.bad("reset:distance", ce, "the distances are reset after the last interval is solved")
            if r and not N.dominates(r[0], cb):
                self.bad("reset:tree", ce, "the tree is reset after the last interval is solved")

    def backwards(self, outer, t):
        N, T = self.N, self.T
        tr = self.R.trips(N, *outer)
        if not isinstance(tr, dict) or not self.is_span(tr, 1):
            return False
        first = tsum([(1, self.span), (-1, ("c", 2.0))])
        at = atoms(t)
        vs = [a for a in at if a is not None and a[0] == "V"]
        if len(vs) != 1:
            return False
        v = vs[0][1]
        ups = [d for d in N.defs_of()[0] if d[0] == v and d[3] != "decl" and T.block(d[1]) in outer[1]]
        if len(ups) != 1:
            return False
        st = self.R.step(N, ups[0])
        begin = self.start(outer[0], outer[1], v)
        if len(begin) != 1:
            return False
        got = tsum([(k2, a if a is not None else ("c", 1.0)) for a, k2 in at.items() if a != vs[0]] +
                   [(at[vs[0]], next(iter(begin)))])
        return got == first and st is not None and st * at[vs[0]] == -1

    turn_when = Static.turn_when

    def turn_fact(self, f, l, y, out):
        find = [x for side in f[1:] for x in side if x[0] in ("find", "count")]
        if find:
            return sought(f, find, [self.turn, self.turntt], l, out)
        if self.same(f, "!=", y, self.dest) or self.same(f, "!=", out, ("c", -1.0)):
            return True
        if f[0] in ("<", "<=") and out in f[2] and f[1] <= {("c", 0.0), ("c", -1.0)}:
            return True
        c = ("ld", self.cost, l, None)
        return f[0] == "false" and any(x[0] == "isinf" for x in f[1])


class Extract(Builder):
    """paths read from a tree"""

    def run(self):
        N, T = self.N, self.T
        timed = self.F.base == "get_tdsp"
        if self.tree is None:
            self.bad("form", None, "no tree recognised")
            return
        self.src = self.ints[0] if self.ints else None
        self.dest = ("mem", ("T",), "m_dest_node_ID") if timed else self.ints[1]
        lds = [(b, e) for b, e, n in N.all_elements()
               for t in T.alts(e) if t[0] == "ld" and t[1] == self.tree]
        loops = [x for x in T.loops if any(b in x[1] for b, e in lds)]
        if not loops:
            self.bad("form", None, "the tree is not followed in a loop")
            return
        h, body = loops[-1]
        out = {x for x in N.blocks if x not in body}
        start = [s for s in N.blocks[h].succ if s in body]
        # the loop goes on exactly while the destination is not reached
        curs = []
        h0 = h
        for x, s, fs in T.edges():
            if x in body and s in body and any(y not in body and not N.aborts(y) for y in N.blocks[x].succ):
                for f in fs:
                    if f[0] == "!=" and (f[1] == {self.dest} or f[2] == {self.dest}):
                        o = f[2] if f[1] == {self.dest} else f[1]
                        cs = [t for t in o if t[0] == "V"]
                        curs += cs
                        if cs:
                            h = x
        start = [s for s in N.blocks[h].succ if s in body]
        if len(curs) != 1 or len(N.blocks[h].succ) != 2:
            self.bad("stop", T.last(h), "the tree is not followed exactly until the destination is reached")
            return
        cur = curs[0]
        # moves
        moves = [d for d in N.defs_of()[0] if d[0] == cur[1] and d[3] in ("assign", "update", "decl")
                 and T.block(d[1]) in body]
        link = None
        for d in moves:
            vs = T.alts(d[2], d[1]) if d[2] is not None else set()
            if len(vs) == 1:
                v = next(iter(vs))
                if v[0] == "head" and v[1][0] == "ld" and v[1][1] == self.tree and v[1][2] == cur:
                    link = v[1]
                    continue
            self.bad("step", d[1], "the path does not move on to the end of the link just taken")
        if link is None:
            if not moves:
                self.bad("step", None, "the path does not move on to the end of the link just taken")
            return
        if not all(T.passes(s, {h}, {T.block(d[1]) for d in moves}) for s in start):
            self.bad("step", moves[0][1], "the path does not move on in every step")
        ini = self.start(h, body, cur[1])
        if ini != {self.src}:
            self.bad("step", None, "the path does not begin at the node asked for")
        # what is recorded
        rec = {}
        for b, e, n in N.all_elements():
            if n["k"] == "call" and n.get("f") and n.get("o", -1) >= 0 and \
                    self.P.ext[n["f"]]["base"] in ("push_back", "emplace_back", "push_front", "insert", "pop_back",
                                                   "clear", "erase"):
                for o in T.alts(n["o"], e):
                    if o[0] == "mem" and o[2] in ("m_node_vec", "m_link_vec"):
                        rec.setdefault(o[2], []).append((e, b, self.P.ext[n["f"]]["base"], n["a"]))
        first = min((T.N.where()[d[1]] for d in moves), default=None)
        for name, val, what in (("m_node_vec", cur, "node"), ("m_link_vec", link, "link")):
            inb = [x for x in rec.get(name, []) if x[1] in body]
            good = set()
            for e, b, base, a in inb:
                if base not in ("push_back", "emplace_back") or len(a) != 1 or T.alts(a[0], e) != {val} or \
                        self.after_move(e, moves, h, body):
                    self.bad("record", e, "a step of the path does not record the %s it takes" % what)
                else:
                    good.add(b)
            if not good or not all(T.passes(s, {h}, good) for s in start):
                self.bad("record", None, "a step of the path does not always record its %s" % what)
            if len(good) > 1 and any(y in T.without((None, None), x) for x in good for y in good if x != y
                                     and y in self.within(x, h, body)):
                self.bad("record", inb[0][0], "a step of the path records its %s twice" % what)
            self.rep.count("path_records")
        early = T.before(h)
        for e, b in [(d[1], T.block(d[1])) for d in moves] + [(x[0], x[1]) for v in rec.values() for x in v
                                                              if x[1] in body]:
            if b in early and h != h0:
                self.bad("stop", e, "a step is taken before the destination is looked for")
        endb = [x for x in rec.get("m_node_vec", []) if x[1] not in body]
        exits = [s for s in N.blocks[h].succ if s not in body]
        fin = {b for e, b, base, a in endb if base in ("push_back", "emplace_back") and T.alts(a[0], e) <= {cur, self.dest}}
        for e, b, base, a in rec.get("m_link_vec", []):
            if b not in body and N.dominates(h, b):
                self.bad("record", e, "the path records a link after its destination")
        for s in exits:
            if not T.passes(s, {N.exit}, fin):
                self.bad("record", None, "the path does not end with its destination")
        # a missing entry ends the search
        bk = {(x, s) for x, s, fs in T.edges() if any(self.same(f, "!=", link, ("c", -1.0)) or
                                                     f[0] == "<=" and f[1] == {("c", 0.0)} and f[2] == {link} or
                                                     f[0] == "<" and f[1] == {("c", -1.0)} and f[2] == {link}
                                                     for f in fs)}
        for d in moves:
            if not any((x, s) in bk for x, s, fs in T.guards(T.block(d[1]))):
                self.bad("missing", d[1], "a missing tree entry is followed")
        for b, e, n in N.all_elements():
            if n["k"] != "ret" or n.get("e", -1) < 0:
                continue
            if b in body or not self.after_loop(b, h, body):
                vs = T.alts(n["e"], e)
                if not vs <= {("c", 0.0), ("c", -1.0)} or timed and vs != {("c", -1.0)}:
                    self.bad("missing", e, "an incomplete path is returned as a path")
        self.pushes = [(None, x[0]) for x in rec.get("m_link_vec", [])]
        if timed:
            self.times(h, body, link, start)

    def within(self, x, h, body):
        """blocks reached from x without the header"""
        seen, st = set(), [x]
        while st:
            y = st.pop()
            for s in self.N.blocks[y].succ:
                if s in body and s != h and s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen

    def after_move(self, e, moves, h, body):
        w = self.N.where()
        for d in moves:
            bd, i = w[d[1]]
            be, j = w[e]
            if bd == be and i < j or be != bd and be in self.within(bd, h, body):
                return True
        return False

    def after_loop(self, b, h, body):
        """reached only by leaving the loop through its header"""
        ex = [s for s in self.N.blocks[h].succ if s not in body]
        return all(b not in self.T.without((h, s)) for s in ex)

    def times(self, h, body, link, start):
        N, T = self.N, self.T
        tmap = self.costs[0] if self.costs else None
        turn = self.turns[0] if self.turns else None
        tv = link[3] if len(link) > 3 else None
        if tv is None or tv[0] != "V":
            self.bad("time", None, "the tree is not read at the current interval")
            return
        ini = self.start(h, body, tv[1])
        t0 = self.ints[1] if len(self.ints) > 1 else None
        last = tsum([(1, ("mem", ("T",), "m_max_interval")), (-1, ("c", 1.0))])
        if not ini <= {t0, last} or t0 not in ini:
            self.bad("time", None, "the path does not begin at the interval asked for")
        tt = ("ld", tmap, link, tv)
        ups = [d for d in N.defs_of()[0] if d[0] == tv[1] and d[3] != "escape" and T.block(d[1]) in body]
        arr, spent = [], []
        for d in ups:
            vs = T.alts(d[2], d[1]) if d[2] is not None else set()
            if d[3] == "assign" and vs == {("arr", tv, tt)}:
                arr.append(d)
            elif turn and d[3] == "update" and len(vs) == 1 and next(iter(vs))[0] in ("trunc", "ceil", "round_up_time") \
                    and any(mentions(x, turn) for x in vs):
                x = next(iter(vs))
                while x[0] in ("trunc", "ceil", "round_up_time"):
                    x = x[1]
                if N.nodes[d[1]].get("op") != "+=" or x[0] != "ld" or x[1][:2] != ("ld", turn) or x[2] != link \
                        or not self.earlier(x[1][2], d[1], h, body):
                    self.bad("time", d[1], "the interval does not move on by the time of the turn taken")
                spent.append(d)
            elif turn and d[3] == "assign" and vs <= {tv, last}:
                pass
            elif turn and d[3] == "assign" and all(x[0] == "arr" and mentions(x, turn) for x in vs):
                spent.append(d)
            else:
                self.bad("time", d[1], "the interval does not move on by the time spent on the link")
        for d in spent:
            if self.after_move(d[1], arr, h, body):
                self.bad("time", d[1], "the time of a turn is spent after the link it leads to")
        span = ("mem", ("T",), "m_max_interval")
        two = tsum([(1, span), (-1, ("c", 2.0))])
        for x, _, fs in T.edges():
            for f in fs:
                if f[0] in ("<", "<="):
                    for side, other in ((1, 2), (2, 1)):
                        v = next(iter(f[side])) if len(f[side]) == 1 else None
                        if v is None or not mentions(v, span):
                            continue
                        # x < span, x <= last, span <= x, last < x; and the same one step lower, where both sides
                        # of the comparison lead to the last interval
                        under = f[0] == "<" if side == 2 else f[0] == "<="
                        fit = {span, last} if under else {last, two}
                        if v not in fit:
                            self.bad("time", T.last(x), "an interval is compared with another limit than the "
                                                        "last interval of the tree")
        if not arr or not all(T.passes(s, {h}, {T.block(d[1]) for d in arr}) for s in start):
            self.bad("time", None, "the interval does not move on in every step")
            return
        # the returned time adds up the link times
        rets = [(b, e, n) for b, e, n in N.all_elements() if n["k"] == "ret" and self.after_loop(b, h, body)]
        for b, e, n in rets:
            x = N.nodes[N.skip(n["e"])]
            if x["k"] != "var":
                self.bad("time", e, "the time returned is not the sum over the path")
                continue
            acc = x["v"]
            adds = [d for d in N.defs_of()[0] if d[0] == acc and d[3] != "decl" and T.block(d[1]) in body]
            good = set()
            turned = False
            for d in adds:
                vs = T.alts(d[2], d[1]) if d[2] is not None else set()
                m = N.nodes[d[1]]
                if m["k"] == "bin" and m["op"] == "+=" and vs == {tt}:
                    if not self.after_move(d[1], arr, h, body):
                        good.add(T.block(d[1]))
                        continue
                if turn and m["k"] == "bin" and m["op"] == "+=" and len(vs) == 1 and mentions(next(iter(vs)), turn):
                    turned = True
                    v = next(iter(vs))
                    if v[0] != "ld" or v[1][:2] != ("ld", turn) or v[2] != link or \
                            not self.earlier(v[1][2], d[1], h, body):
                        self.bad("turn", d[1], "the time of another turn is added to the travel time")
                        continue
                    if not T.passes(T.block(d[1]), {h}, {T.block(y[1]) for y in spent}):
                        self.bad("time", d[1], "the interval does not move on by the time of the turn taken")
                    seen = set()
                    for x, _, fs in T.guards(T.block(d[1])):
                        for f in fs:
                            find = [y for side in f[1:] for y in side
                                    if y[0] in ("find", "count") and mentions(y, turn)]
                            seen |= {y[1:3] for y in find}
                            if x in body and find and not sought(f, find, [turn], v[1][2], link):
                                self.bad("turn", d[1], "the time of a turn is left out under another condition than "
                                                       "that it has none")
                    if not {(turn, v[1][2]), (v[1], link)} <= seen and self.looked(m["r"]):
                        self.bad("turn", d[1], "the time of a turn is looked up without having been found")
                    continue
                self.bad("time", d[1], "something other than the time of the link taken is added to the travel time")
            if not good or not all(T.passes(s, {h}, good) for s in start):
                self.bad("time", e, "the time of a link taken is not added to the travel time")
            if turn and not turned:
                self.bad("turn", e, "the times of the turns are not added to the travel time")
            self.rep.count("time_sums")


    def earlier(self, key, at, h, body):
        """the link taken before the current one"""
        if key[0] == "V":
            return True
        if key[0] != "ld" or key[1][0] != "mem" or key[1][2] != "m_link_vec" or len(key) != 3:
            return False
        done = self.after_move(at, self.pushes, h, body)
        return key[2] == tsum([(1, ("size", key[1])), (-1, ("c", 2.0 if done else 1.0))])


def clamp(P, rep):
    """arrival intervals are later than the departure and inside the table"""
    for F in P.funcs.values():
        if F.base != "round_time" or len(F.params) < 2 or not F.blocks:
            continue
        T = Terms(P, F)
        span = ("mem", ("T",), "m_max_interval")
        last = tsum([(1, span), (-1, ("c", 1.0))])
        ps = sorted(F.params, key=lambda p: F.vpidx[p])
        n = 0
        for b, e, x in F.all_elements():
            if x["k"] != "ret":
                continue
            n += 1
            vs = T.alts(x["e"], e)
            vs = {v[1] if v[0] == "trunc" else v for v in vs}
            up = tsum([(1, ("P", 0)), (1, ("round_up_time", ("P", 1)))])
            good = False
            v = next(iter(vs)) if len(vs) == 1 else None
            fs = T.holds(b)
            if v == last:
                good = any(f[0] in ("<", "<=") and f[2] == {up} and f[1] <= {last, span,
                                                                              tsum([(1, span), (-1, ("c", 2.0))])}
                           and not (f[0] == "<=" and f[1] != {last} and f[1] != {span}) for f in fs)
            elif v is not None and (v == up or up in atoms(v) and len(atoms(v)) == 1):
                good = any(f[0] in ("<", "<=") and f[1] == {up} and (f[2] == {last} or f[0] == "<" and f[2] == {span})
                           for f in fs)
            elif vs == {last, up}:
                good = True
            if not good:
                rep.violation("round_time", F.loc(e), "an arrival interval is not the departure plus the rounded-up "
                                                      "travel time, limited to the last interval")
        rep.count("arrival_times", n)
    for F in P.funcs.values():
        if F.base == "round_up_time" and F.blocks:
            pass


def run(rep, tier):
    P = Program.load()
    rep.rule("tables: the tree (node -> link) and distances (node -> cost) a search fills; both are reset for every "
             "node, the destination's distance is zero")
    rep.rule("every later change is a relaxation: distance[tail(l)] = cost[l] (+ turn cost) + distance[head(l)], "
             "only under '<', with tree[tail(l)] = l on the same paths; the node is queued again; every node taken "
             "from the queue has all links that enter it examined; the search ends only with an empty queue")
    rep.rule("time-dependent trees: the last interval is solved first, then every link in every interval from "
             "the last to the first, with the distance at the arrival interval")
    rep.rule("paths: record node and link of each step, move to the end of the link, stop exactly at the destination, "
             "report a missing entry")
    n = 0
    for F in sorted(P.funcs.values(), key=lambda F: (F.file, F.line)):
        if not F.blocks or F.islambda:
            continue
        cls = None
        if F.base.startswith("all_to_one_"):
            cls = Static
        elif F.base == "update_tree" and "TDSP" in (F.rec or ""):
            cls = Timed
        elif F.base == "get_tdsp" or F.base == "extract_path":
            cls = Extract
        if cls is None:
            continue
        n += 1
        B = cls(P, F, rep)
        B.run()
        rep.sample(B.short)
    rep.require("functions_analysed", n, 6)
    clamp(P, rep)
