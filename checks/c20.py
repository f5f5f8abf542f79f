"""C20: a loading step updates every part of the network exactly once, in
order, and a loading runs its steps one after the other."""
from itertools import product

from lib.inline import inline
from lib.prog import Program, short
from lib.terms import Terms

# (what, method, container, only for, only when)
BASE = [("node", "evolve", "m_node_map", None, None),
        ("link: admit", "clear_incoming_array", "m_link_map", None, None),
        ("link: move", "evolve", "m_link_map", None, None),
        ("destination: receive", "receive", "m_destination_map", None, None)]
MULTI = [("origin: passengers leave", "evolve", "m_origin_map", None, None),
         ("destination: passengers enter", "evolve", "m_destination_map", None, None),
         ("bus stop", "evolve", "m_busstop_map", None, None),
         ("walking link: admit", "clear_incoming_array", "m_transit_link_map", "WALKING", None),
         ("walking link: move", "evolve", "m_transit_link_map", "WALKING", None),
         ("virtual bus stop", "virtual_evolve", "m_busstop_map", "Busstop_Virtual", "m_explicit_bus"),
         ("bus link: admit", "clear_incoming_array", "m_transit_link_map", "BUS", "m_explicit_bus"),
         ("bus link: move", "evolve", "m_transit_link_map", "BUS", "m_explicit_bus"),
         ("parking lot", "evolve", "m_parking_lot_map", None, None)]
CLASS = {"WALKING": "MNM_Walking_Link", "BUS": "MNM_Bus_Link", "Busstop_Virtual": "MNM_Busstop_Virtual"}
EVENTS = {e[1] for e in BASE + MULTI} | {"update_routing", "update_link_attribute", "update_record", "record_queue_vehicles",
                                        "record_enroute_vehicles", "record_queue_passengers",
                                        "record_enroute_passengers"}
RELEASE = "release_one_interval"


class Step(Terms):
    """terms of a loading step: an element of a map and what it holds"""

    @staticmethod
    def isobject(t):
        return "pair<" not in t and Terms.isobject(t)

    def call(self, nid, n, at, seen):
        b = self.P.ext[n["f"]]["base"] if n.get("f") else "?"
        if b == "operator->" and n.get("o", -1) >= 0 and not n["a"]:
            return self.deref(n["o"], at, seen)
        return Terms.call(self, nid, n, at, seen)


def flat(t):
    """element (iterator, container name) a term stands for"""
    while t[0] == "mem" and t[2] == "second":
        t = t[1]
    if t[0] == "elem" and t[2][0] == "mem":
        return t[1], t[2][2]
    return None


class Once:
    """one function that makes a step"""

    def __init__(self, P, F, rep):
        self.P, self.F, self.rep = P, F, rep
        N = inline(P, F, lambda n, e, H: self.wanted(H, ()))
        N.key = F.key + "#step"
        self.N, self.T = N, Step(P, N)
        self.name = short(F.key)
        self.multi = "Multimodal" in (F.rec or "")
        self.calls()

    _w = {}

    def wanted(self, H, ch):
        """does H contain a step event (so is a helper of the step)"""
        if H.base in EVENTS or H.base.startswith(RELEASE) or H.key in ch:
            return False
        if H.key not in self._w:
            self._w[H.key] = False
            r = False
            for b, e, n in H.all_elements():
                if n["k"] == "call" and n.get("f"):
                    x = self.P.ext[n["f"]]
                    if x["base"] in EVENTS or x["base"].startswith(RELEASE) or x["base"] == "load_once":
                        r = True
                    elif n["f"] in self.P.funcs and self.wanted(self.P.funcs[n["f"]], ch + (H.key,)):
                        r = True
            # an object's own way to evolve is no helper of the step
            self._w[H.key] = r and (H.rec is None or "Dta" in H.rec or "DTA" in H.rec or "Due" in H.rec)
        return self._w[H.key]

    def bad(self, what, nid, text):
        N = self.N
        loc = self.F.loc()
        if nid is not None and nid >= 0:
            k = N.origin[nid][0] if nid < len(N.origin) else self.F.key
            G = self.P.funcs.get(k, self.F)
            loc = "%s:%d" % (G.file, N.nodes[nid].get("L") or G.line)
        self.rep.violation("%s:%s" % (self.name, what), loc, "%s: %s" % (self.name, text))

    def calls(self):
        N, P, T = self.N, self.P, self.T
        self.ev = []
        for b, e, n in N.all_elements():
            if n["k"] != "call" or not n.get("f"):
                continue
            base = P.ext[n["f"]]["base"]
            if base in EVENTS or base.startswith(RELEASE):
                self.ev.append((base, e, n, b.id if hasattr(b, "id") else b))

    def elem(self, n, e):
        if n.get("o", -1) < 0:
            return None
        ts = {flat(t) for t in self.T.alts(n["o"], e)}
        return next(iter(ts)) if len(ts) == 1 else None

    # ---------------------------------------------------------- filters
    def cast_to(self, c, cls, d=0):
        """is condition c the result of a dynamic_cast to cls"""
        N = self.N
        if d > 8 or c is None or c < 0:
            return False
        n = N.nodes[c]
        if n["k"] == "cast":
            if n.get("ck") == "Dynamic" and cls in n.get("t", ""):
                return True
            return self.cast_to(n["e"], cls, d + 1)
        if n["k"] == "un" and n["op"] == "!":
            return False
        if n["k"] == "bin" and n["op"] in ("!=", "=="):
            return self.cast_to(n["l"], cls, d + 1) or self.cast_to(n["r"], cls, d + 1)
        if n["k"] == "var":
            rs = N.reaching(n["v"], c)
            return len(rs) == 1 and rs[0][1] is not None and self.cast_to(rs[0][1], cls, d + 1)
        if n["k"] == "decl":
            return any(x[1] is not None and x[1] >= 0 and self.cast_to(x[1], cls, d + 1) for x in n["d"])
        return False

    def null_edge(self, b, s, cls):
        """edge taken when the dynamic_cast to cls gave null"""
        N = self.N
        c = self.T.last(b)
        sense = N.blocks[b].succ[0] == s
        while c is not None and c >= 0:
            n = N.nodes[c]
            if n["k"] == "un" and n["op"] == "!":
                c, sense = n["e"], not sense
            elif n["k"] == "cast" and n.get("ck") != "Dynamic":
                c = n["e"]
            else:
                break
        n = N.nodes[c]
        if n["k"] == "bin" and n["op"] in ("==", "!="):
            null = (n["op"] == "==") == sense
        else:
            null = not sense
        return null and self.cast_to(c, cls)

    def other(self, only, elem):
        """edges an element of another kind takes"""
        out = set()
        for b, s, fs in self.T.edges():
            for op, L, R in fs:
                for x, y in product(L, R):
                    for x, y in ((x, y), (y, x)):
                        if x[0] == "mem" and x[2] == "m_link_type" and flat(x[1]) == elem and y[0] == "enum":
                            mine = y[1] == "MNM_TYPE_%s_MULTIMODAL" % only
                            if op == "!=" and mine or op == "==" and not mine:
                                out.add((b, s))
            if only in CLASS and self.null_edge(b, s, CLASS[only]):
                out.add((b, s))
        return out

    def off(self, flag):
        return {(b, s) for b, s, fs in self.T.edges() for op, L, R in fs
                if op == "true" and any(t[0] == "mem" and t[2] == flag for t in L)}

    def not_due(self):
        """edges taken only when the step is no multiple of the frequency"""
        out = set()
        for b, s, fs in self.T.edges():
            for op, L, R in fs:
                if op in ("!=", "<") and any(self.rest(x) for x in L | R) and any(x == ("c", 0.0) for x in L | R):
                    out.add((b, s))
                if op == "true" and any(self.rest(x) for x in L):
                    out.add((b, s))
        return out

    @staticmethod
    def rest(x):
        return x[0] == "bin" and x[1] == "%" and x[2] == ("P", 1) and x[3][0] == "mem" and x[3][2] == "m_assign_freq"

    # ------------------------------------------------------------ paths
    def reach(self, b, stop=()):
        N = self.N
        seen, st = set(), [s for s in N.blocks[b].succ if s >= 0]
        while st:
            x = st.pop()
            if x in seen or x in stop:
                continue
            seen.add(x)
            st += [s for s in N.blocks[x].succ if s >= 0]
        return seen

    def after(self, e1, e2, stop=()):
        """can e2 run after e1"""
        b1, p1 = self.N.where()[e1]
        b2, p2 = self.N.where()[e2]
        if b1 == b2 and p1 < p2:
            return True
        return b2 in self.reach(b1, stop)

    def through(self, start, goals, blocks, skip=(), fixed=None):
        """T.passes, with the outcome of string comparisons fixed"""
        if fixed:
            skip = set(skip) | fixed
        return self.T.passes(start, goals, blocks, skip)

    def loops_of(self, evs):
        """{header: (body, iterator, container, events)}"""
        out = {}
        for base, e, n, b in evs:
            ch = self.T.chain(b)
            if not ch:
                out.setdefault(None, []).append(e)
                continue
            h, body = ch[0]
            out.setdefault(h, (body, []))[1].append(e)
        return out

    def update(self, what, meth, cont, only=None, when=None, skip=frozenset(), modes=(None,), pre=False):
        """every element of the container gets exactly one call"""
        T, N = self.T, self.N
        evs, kinds = [], {}
        for x in self.ev:
            base, e, n, b = x
            if not (base == meth or pre and base.startswith(meth) and not base.endswith("passenger")):
                continue
            el = self.elem(n, e)
            if el is None or el[1] != cont:
                continue
            if only and not self.of_kind(e, n, only, el):
                continue
            evs.append((x, el))
        self.found[what] = [x[1] for x, el in evs]
        if not evs:
            return self.bad(what, -1, "no call of %s for the elements of %s" % (meth, cont))
        heads = {}
        for (base, e, n, b), el in evs:
            a0 = T.alts(n["a"][0], e) if n["a"] else set()
            if a0 != {("P", 1)}:
                self.bad(what + ":step", e, "%s is not updated with the number of the step" % what)
            ch = T.chain(b)
            tr = T.traverses(*ch[0]) if ch else None
            if tr is None or tr[0] != el[0]:
                self.bad(what + ":loop", e, "%s is not updated from a loop over all of %s" % (what, cont))
                continue
            if len(ch) > 1:
                self.bad(what + ":again", e, "%s may be updated several times a step: the loop over %s is itself "
                         "repeated" % (what, cont))
            heads.setdefault(ch[0][0], (ch[0][1], el, []))[2].append(e)
        for h, (body, el, es) in heads.items():
            x = T.early(h, body)
            if x is not None:
                self.bad(what + ":early", self.first(x, es[0]), "the loop over %s may end before its last element" % cont)
            sk = set(skip) | (self.other(only, el) if only else set())
            blocks = {N.where()[e][0] for e in es}
            for s in N.blocks[h].succ:
                if s in body and any(not self.through(s, {h}, blocks, sk, m) for m in modes) and s != h:
                    self.bad(what + ":skipped", es[0], "a %s may be passed over in a step" % what.split(":")[0])
            for e1, e2 in product(es, es):
                if self.after(e1, e2, {h}):
                    self.bad(what + ":twice", e2, "%s may be updated twice in a step" % what)
                    break
            self.rep.count("update_calls", len(es))
        hs = set(heads)
        if not hs:
            return
        sk = set(skip) | (self.off(when) if when else set())
        if not T.passes(N.entry, {N.exit}, hs, sk):
            self.bad(what + ":all", evs[0][0][1], "a step may end without updating any %s" % what.split(":")[0])
        for h in hs:
            out = {s for b in heads[h][0] for s in N.blocks[b].succ if s >= 0 and s not in heads[h][0]}
            for o in hs:
                if o != h and any(o == s or o in self.reach(s) for s in out):
                    self.bad(what + ":twice", heads[o][2][0], "every %s may be updated twice in a step"
                             % what.split(":")[0])

    def first(self, b, d):
        return self.N.blocks[b].els[0] if self.N.blocks[b].els else d

    def of_kind(self, e, n, only, el):
        """is the receiver's static class, or the link type tested before, of the kind"""
        rec = self.P.ext[n["f"]].get("rec") or ""
        if CLASS[only] == rec:
            return True
        # through the base class: the kind is tested before
        for op, L, R in self.T.holds(self.T.block(e)):
            if op == "==":
                for x, y in list(product(L, R)) + list(product(R, L)):
                    if x[0] == "mem" and x[2] == "m_link_type" and flat(x[1]) == el and \
                            y == ("enum", "MNM_TYPE_%s_MULTIMODAL" % only):
                        return True
        o = self.N.nodes[n["o"]]
        while o["k"] == "cast":
            if CLASS[only] in o.get("t", ""):
                return True
            o = self.N.nodes[o["e"]]
        return False

    def single(self, what, meth, arg):
        """one call per step, on every path"""
        T, N = self.T, self.N
        es = [(e, b, n) for base, e, n, b in self.ev if base == meth]
        es = [(e, b, n) for e, b, n in es if not (meth == "update_record" and self.initial(n, e, b))]
        self.found[what] = [e for e, b, n in es]
        if not es:
            return self.bad(what, -1, "a step does not call %s" % meth)
        for e, b, n in es:
            if arg and (not n["a"] or T.alts(n["a"][0], e) != {("P", 1)}):
                self.bad(what + ":step", e, "%s is not called with the number of the step" % meth)
            if T.chain(b):
                self.bad(what + ":again", e, "%s may be called several times in a step" % meth)
        if not T.passes(N.entry, {N.exit}, {b for e, b, n in es}):
            self.bad(what + ":skipped", es[0][0], "a step may end without %s" % what)
        for x, y in product(es, es):
            if self.after(x[0], y[0]):
                self.bad(what + ":again", y[0], "%s may be called twice in a step" % meth)
                break

    def reads_changes(self):
        """does this kind of simulation read attributes that change over time"""
        P = self.P
        for F in P.funcs.values():
            if F.rec == self.F.rec and F.blocks and any(
                    n["k"] == "call" and n.get("f") and P.ext[n["f"]]["base"] == "build_link_td_attribute"
                    for n in F.nodes):
                return True
        return False

    def initial(self, n, e, b):
        """the record of the empty network: before the release of the first step only"""
        T = self.T
        return any(op == "==" and {frozenset(L), frozenset(R)} == {frozenset({("P", 1)}), frozenset({("c", 0.0)})}
                   for op, L, R in T.holds(b))

    def strings(self):
        """outcome of every comparison with a text, one set of impossible
        edges per text"""
        N, T = self.N, self.T
        lits = {}
        for b in N.order():
            B = N.blocks[b]
            if B.tc is None or B.tc < 0 or len(B.succ) != 2:
                continue
            c, sense = T.last(b), True
            while c is not None and c >= 0 and N.nodes[c]["k"] in ("cast", "un"):
                if N.nodes[c]["k"] == "un":
                    if N.nodes[c]["op"] != "!":
                        break
                    sense = not sense
                c = N.nodes[c]["e"]
            n = N.nodes[c] if c is not None and c >= 0 else None
            if n is None or n["k"] != "call" or not n.get("f"):
                continue
            op = self.P.ext[n["f"]]["base"]
            if op not in ("operator==", "operator!="):
                continue
            s = [N.nodes[y]["val"] for x in n["a"] + ([n["o"]] if n.get("o", -1) >= 0 else [])
                 for y in N.walk(x) if N.nodes[y]["k"] == "str"]
            s = [x for x in s if x not in ("routing_type",)]
            if len(s) == 1:
                lits.setdefault(s[0], []).append((b, B.succ[0 if sense == (op == "operator==") else 1],
                                                  B.succ[1 if sense == (op == "operator==") else 0]))
        out = []
        for k in lits:
            cut = set()
            for k2, es in lits.items():
                for b, yes, no in es:
                    cut.add((b, no if k2 == k else yes))
            out.append((k, cut))
        return out

    def run(self):
        T, N = self.T, self.N
        self.found = {}
        table = BASE + (MULTI if self.multi else [])
        for what, meth, cont, only, when in table:
            self.update(what, meth, cont, only, when)
        nd = self.not_due()
        modes = [cut for k, cut in self.strings()] or [None]
        self.rep.count("release_modes", len(modes))
        self.update("origin: release", RELEASE, "m_origin_map", None, None, nd, modes, pre=True)
        if self.multi:
            self.update("origin: release of passengers", RELEASE + "_passenger", "m_origin_map", None, None, nd, modes)
        self.only_due(nd)
        if any(base == "update_link_attribute" for base, e, n, b in self.ev) or self.reads_changes():
            self.single("link attributes of the step", "update_link_attribute", True)
        self.single("routing", "update_routing", True)
        self.single("record of link travel times", "update_record", True)
        self.single("count of queuing vehicles", "record_queue_vehicles", False)
        self.single("count of vehicles under way", "record_enroute_vehicles", False)
        if self.multi:
            self.single("count of queuing passengers", "record_queue_passengers", False)
            self.single("count of passengers under way", "record_enroute_passengers", False)
        seq = ["origin: release", "routing", "node", "link: admit", "link: move", "destination: receive",
               "record of link travel times"]
        self.order(seq)
        self.order(["link attributes of the step", "routing"])
        self.order(["link attributes of the step", "node"])
        self.order(["destination: receive", "count of vehicles under way"])
        self.order(["node", "count of queuing vehicles", "link: move"])
        if self.multi:
            self.order(["origin: release of passengers", "routing", "origin: passengers leave"])
            self.order(["walking link: admit", "walking link: move"])
            self.order(["bus link: admit", "bus link: move"])
            self.order(["destination: receive", "parking lot"])
        self.counter()

    def order(self, seq):
        for i, a in enumerate(seq):
            for b in seq[i + 1:]:
                for x, y in product(self.found.get(a, ()), self.found.get(b, ())):
                    # in the same loop over the elements: within one iteration
                    hx, hy = [self.T.chain(self.T.block(z)) for z in (x, y)]
                    stop = {hx[0][0]} if hx and hy and hx[0][0] == hy[0][0] else ()
                    if self.after(y, x, stop):
                        self.bad("order:%s:%s" % (a, b), y, "'%s' may come before '%s' in a step" % (b, a))
                        break
                else:
                    continue
                break

    def only_due(self, nd):
        """release only in steps that are multiples of the frequency"""
        T, N = self.T, self.N
        for base, e, n, b in self.ev:
            if not base.startswith(RELEASE):
                continue
            # without the edges that say the step is due, the call is not reached
            due = {(x, s) for x, s, fs in T.edges() for op, L, R in fs
                   if op in ("==", "<=") and any(self.rest(t) for t in L) and ("c", 0.0) in R
                   or op == "==" and any(self.rest(t) for t in R) and ("c", 0.0) in L
                   or op == "false" and any(self.rest(t) for t in L)
                   or op == "==" and {("P", 1)} in (L, R) and {("c", 0.0)} in (L, R)}
            due |= {(x, s) for x, s in self.due_flags()}
            if not T.passes(N.entry, {b}, set(), due):
                self.bad("due:" + base, e, "demand may be released in a step that is no multiple of the assignment "
                         "frequency")

    def due_flags(self):
        """edges under a flag that holds 'the step is due'"""
        N, T = self.N, self.T
        out = set()
        for b in N.order():
            B = N.blocks[b]
            if B.tc is None or B.tc < 0 or len(B.succ) != 2:
                continue
            c, sense = T.last(b), True
            for _ in range(8):
                n = N.nodes[c]
                if n["k"] == "cast":
                    c = n["e"]
                elif n["k"] == "un" and n["op"] == "!":
                    c, sense = n["e"], not sense
                elif n["k"] == "var" and N.vkind[n["v"]] == "l":
                    rs = N.reaching(n["v"], c)
                    if len(rs) != 1 or rs[0][1] is None:
                        break
                    c = rs[0][1]
                else:
                    break
            if self.due_expr(c):
                out.add((b, B.succ[0 if sense else 1]))
        return out

    def due_expr(self, c, d=0):
        """true only in due steps"""
        N, T = self.N, self.T
        n = N.nodes[c]
        if d > 6:
            return False
        if n["k"] == "cast":
            return self.due_expr(n["e"], d + 1)
        if n["k"] == "bin" and n["op"] == "||":
            return self.due_expr(n["l"], d + 1) and self.due_expr(n["r"], d + 1)
        if n["k"] == "bin" and n["op"] == "&&":
            return self.due_expr(n["l"], d + 1) or self.due_expr(n["r"], d + 1)
        for op, L, R in T.facts(c, True):
            if op in ("==", "<=") and (any(self.rest(t) for t in L) or L == {("P", 1)}) and R == {("c", 0.0)}:
                return True
            if op == "==" and (any(self.rest(t) for t in R) or R == {("P", 1)}) and L == {("c", 0.0)}:
                return True
        return False

    def counter(self):
        """the network's own count of completed steps"""
        N, T = self.N, self.T
        ok, blocks = False, set()
        for b, e, n in N.all_elements():
            if n["k"] in ("bin", "call"):
                l, r = (n.get("l"), n.get("r")) if n["k"] == "bin" and n["op"] == "=" else \
                    (n.get("o"), n["a"][0]) if n["k"] == "call" and n.get("f") and n["a"] and \
                    self.P.ext[n["f"]]["base"] == "operator=" else (None, None)
                if l is None or l < 0:
                    continue
                m = N.nodes[N.skip(l)]
                if m["k"] == "mem" and m["n"] == "m_current_loading_interval":
                    if T.alts(r, e) == {("sum", ((("P", 1), 1), (None, 1.0)))}:
                        blocks.add(T.block(e))
                    else:
                        self.bad("count", e, "the number of completed steps is not set to this step + 1")
        if not blocks:
            self.bad("count", -1, "a step does not count itself as completed")
        elif not T.passes(N.entry, {N.exit}, blocks):
            self.bad("count", -1, "a step may end without counting itself as completed")


class Loading(Once):
    """a function that makes the steps"""

    def __init__(self, P, F, rep):
        self.P, self.F, self.rep = P, F, rep
        N = inline(P, F, lambda n, e, H: H.base not in ("load_once", "finished_loading") and
                   (H.islambda or self.wanted(H, ()) or self.asks(H)))
        N.key = F.key + "#loading"
        self.N, self.T = N, Step(P, N)
        self.name = short(F.key)

    def run(self):
        N, T, P = self.N, self.T, self.P
        es = [(e, n) for b, e, n in N.all_elements() if n["k"] == "call" and n.get("f")
              and P.ext[n["f"]]["base"] == "load_once"]
        if len(es) != 1:
            return self.bad("steps", es[0][0] if es else -1, "%d places make a step" % len(es))
        e, n = es[0]
        b = T.block(e)
        ch = T.chain(b)
        if len(ch) != 1:
            return self.bad("steps", e, "steps are not made by one loop")
        h, body = ch[0]
        self.h, self.body, self.e = h, body, e
        v = self.local(n["a"][1])
        if v is None:
            return self.bad("number", e, "the number of the step is not counted")
        self.v = v
        self.number(v, e)
        self.assign(n, e)
        self.ends(v)
        self.total(v)

    def asks(self, H):
        """a helper that decides whether to go on"""
        return H.ret == "bool" and H.rec is not None and self.F.rec is not None and \
            (self.P.isa(self.F.rec, H.rec) or H.rec == self.F.rec) and \
            any(n["k"] == "mem" and n["n"] == "m_total_assign_inter" or
                n["k"] == "call" and n.get("f") and self.P.ext[n["f"]]["base"] == "finished_loading"
                for _, _, n in H.all_elements())

    def local(self, i):
        n = self.N.nodes[self.N.skip(i)]
        while n["k"] in ("ctor", "init") and len(n["a"]) == 1:
            n = self.N.nodes[self.N.skip(n["a"][0])]
        return n["v"] if n["k"] == "var" and self.N.vkind[n["v"]] == "l" else None

    def delta(self, d):
        """value added by definition d to its variable, or None"""
        N = self.N
        v, node, val, kind = d
        n = N.nodes[node]
        if kind == "update":
            if n["k"] == "un":
                return 1 if "++" in n["op"] else -1
            if n["k"] == "bin" and n["op"] in ("+=", "-="):
                t = self.T.alts(n["r"], node)
                if len(t) == 1 and next(iter(t))[0] == "c":
                    return next(iter(t))[1] * (1 if n["op"] == "+=" else -1)
            if n["k"] == "call" and n.get("f"):
                o = self.P.ext[n["f"]]["base"]
                if o in ("operator++", "operator--"):
                    return 1 if o == "operator++" else -1
                if o == "operator+=":
                    t = self.T.alts(n["a"][-1], node)
                    if len(t) == 1 and next(iter(t))[0] == "c":
                        return next(iter(t))[1]
            return None
        if kind == "assign" and val is not None:
            m = N.nodes[N.skip(val)]
            if m["k"] == "bin" and m["op"] in ("+", "-"):
                for x, y, s in ((m["l"], m["r"], 1), (m["r"], m["l"], 1)):
                    a, c = N.nodes[N.skip(x)], N.nodes[N.skip(y)]
                    if a["k"] == "var" and a["v"] == v and c["k"] == "int" and (m["op"] == "+" or x == m["l"]):
                        return float(c["val"]) * (1 if m["op"] == "+" else -1)
        return None

    def inloop(self, v):
        N = self.N
        ds = [d for d in N.defs_of()[0] if d[0] == v]
        return [d for d in ds if self.T.block(d[1]) in self.body and d[3] in ("update", "assign", "decl")], \
            [d for d in ds if self.T.block(d[1]) not in self.body]

    def number(self, v, e):
        """0, then one more for every step"""
        N, T = self.N, self.T
        ins, out = self.inloop(v)
        ini = [d for d in out if d[3] in ("decl", "assign")]
        for d in ini:
            if d[2] is None:
                continue
            at = T.alts(d[2], d[1])
            if at != {("c", 0.0)} and d[1] in {r[0] for r in N.reaching(v, self.cond_node())}:
                self.bad("first", d[1], "the first step is not step 0")
        if [d for d in out if d[3] == "update"]:
            for d in out:
                if d[3] == "update" and T.block(d[1]) in T.before(self.h):
                    self.bad("first", d[1], "the first step is not step 0")
        if not ins:
            return self.bad("number", e, "the step's number does not grow")
        for d in ins:
            if self.delta(d) != 1:
                self.bad("number", d[1], "the step's number does not grow by one")
        blocks = {T.block(d[1]) for d in ins}
        eb = T.block(e)
        for s in N.blocks[self.h].succ:
            if s in self.body and s != self.h:
                if not T.passes(s, {self.h}, {eb}):
                    self.bad("steps", e, "an interval may pass without a step")
                if not T.passes(s, {self.h}, blocks):
                    self.bad("number", ins[0][1], "two steps may have the same number")
        for x, y in product(ins, ins):
            if self.after(x[1], y[1], {self.h}):
                self.bad("number", y[1], "a step's number may be left out")
                break
        for d in ins:
            if self.after(d[1], e, {self.h}):
                self.bad("number", d[1], "the step's number changes before the step is made")

    def cond_node(self):
        return self.e

    def shift(self, i, at):
        """difference between an expression of the step's number and the number
        the step just made, or None"""
        N, T = self.N, self.T
        n = N.nodes[N.skip(i)]
        if n["k"] in ("ctor", "init") and len(n["a"]) == 1:
            return self.shift(n["a"][0], at)
        if n["k"] == "bin" and n["op"] in ("+", "-"):
            l, r = self.shift(n["l"], at), N.nodes[N.skip(n["r"])]
            if l is not None and r["k"] == "int":
                return l + float(r["val"]) * (1 if n["op"] == "+" else -1)
            l, r = self.shift(n["r"], at), N.nodes[N.skip(n["l"])]
            if l is not None and r["k"] == "int" and n["op"] == "+":
                return l + float(r["val"])
            return None
        if n["k"] == "un" and "++" in n["op"]:
            m = N.nodes[N.skip(n["e"])]
            if m["k"] == "var" and m["v"] == self.v:
                # the value before or after this very update
                return 0.0 if n["op"].startswith("p") or n.get("post") else 1.0
        if n["k"] == "var":
            if n["v"] == self.v:
                ins, _ = self.inloop(self.v)
                x = N.skip(i)
                done = [d for d in ins if self.before_in_iter(d[1], x)]
                if done:
                    return 1.0
                if any(self.after(d[1], x, {self.h}) for d in ins):
                    return None
                return 0.0 if self.before_in_iter(self.e, x) else None
            rs = N.reaching(n["v"], N.skip(i))
            if len(rs) == 1 and rs[0][1] is not None and rs[0][2] in ("decl", "assign"):
                return self.shift(rs[0][1], rs[0][0])
        return None

    def before_in_iter(self, d, x):
        """d runs before x in every iteration"""
        N, T = self.N, self.T
        wx = N.where().get(x)
        if wx is None:
            # an operand: where its element is
            wx = self.place(x)
        wd = N.where().get(d) or self.place(d)
        if wx is None or wd is None:
            return False
        if wd[0] == wx[0]:
            return wd[1] < wx[1]
        for s in N.blocks[self.h].succ:
            if s in self.body and s != self.h and not T.passes(s, {wx[0]}, {wd[0]}):
                return False
        return wx[0] in self.reach(wd[0], {self.h}) and not (wd[0] in self.reach(wx[0], {self.h}))

    def place(self, x):
        N = self.N
        if not hasattr(self, "_place"):
            self._place = {}
            for b in N.order():
                for p, e in enumerate(N.blocks[b].els):
                    for y in N.walk(e):
                        self._place.setdefault(y, (b, p))
        return self._place.get(x)

    def assign(self, n, e):
        """the assignment interval: the first, then one more every frequency steps"""
        N, T = self.N, self.T
        t = T.alts(n["a"][2], e)
        v = self.local(n["a"][2])
        if v is None or all(self.delta(d) is None for d in self.inloop(v)[0]):
            if t and all(self.computed(x) for x in t):
                return
            return self.bad("interval", e, "the assignment interval of a step is not counted")
        self.w = v
        ins, out = self.inloop(v)
        for d in out:
            if d[3] in ("decl", "assign") and d[2] is not None and T.block(d[1]) in T.before(self.h):
                at = T.alts(d[2], d[1])
                if not all(x[0] == "mem" and x[2] == "m_start_assign_interval" for x in at):
                    self.bad("interval:first", d[1], "the first assignment interval is not the configured one")
        due = set()
        for d in ins:
            if self.delta(d) != 1:
                self.bad("interval", d[1], "the assignment interval does not grow by one")
        for b, s, fs in T.edges():
            if b not in self.body:
                continue
            c = T.last(b)
            sense = N.blocks[b].succ[0] == s
            if self.multiple(c, sense):
                due.add((b, s))
        blocks = {T.block(d[1]) for d in ins}
        starts = [s for s in N.blocks[self.h].succ if s in self.body and s != self.h]
        for s in starts:
            for x in blocks:
                if not T.passes(s, {x}, set(), due):
                    self.bad("interval:when", ins[0][1], "the assignment interval may grow in a step after which the "
                             "number of steps is no multiple of the assignment frequency")
            for b, t in due:
                if t == self.h or not T.passes(t, {self.h}, blocks) and t not in blocks:
                    self.bad("interval:when", ins[0][1], "the assignment interval may not grow when the number of "
                             "steps is a multiple of the assignment frequency")
            if due and not T.passes(s, {self.h}, {b for b, _ in due}):
                self.bad("interval:when", ins[0][1], "a step may pass without asking for the next assignment interval")
        if not due:
            self.bad("interval:when", ins[0][1], "the assignment interval does not grow with the number of steps")
        for x, y in product(ins, ins):
            if self.after(x[1], y[1], {self.h}):
                self.bad("interval:twice", y[1], "an assignment interval may be left out")
                break

    def computed(self, x):
        """the first assignment interval and the number of whole frequencies that
        the step's number makes"""
        if x[0] != "sum" or len(x[1]) != 2 or any(k != 1 or not a for a, k in x[1]) or \
                {a[0] for a, k in x[1]} != {"mem", "bin"}:
            return False
        p = dict((a[0], a) for a, k in x[1])
        return p["mem"][2] == "m_start_assign_interval" and p["bin"][1] == "/" and \
            p["bin"][3][0] == "mem" and p["bin"][3][2] == "m_assign_freq" and p["bin"][2] == ("V", self.v)

    def multiple(self, c, sense):
        """does c say (in this sense) that the number of steps made is a
        multiple of the frequency"""
        N, T = self.N, self.T
        n = N.nodes[c] if c is not None and c >= 0 else None
        while n is not None and (n["k"] == "cast" or n["k"] == "un" and n["op"] == "!"):
            if n["k"] == "un":
                sense = not sense
            c = n["e"]
            n = N.nodes[c]
        if n is None:
            return False
        if n["k"] == "var" and N.vkind[n["v"]] == "l":
            rs = N.reaching(n["v"], c)
            return len(rs) == 1 and rs[0][1] is not None and self.multiple(rs[0][1], sense)
        if n["k"] == "bin" and n["op"] in ("==", "!="):
            for l, r in ((n["l"], n["r"]), (n["r"], n["l"])):
                if T.alts(r, c) == {("c", 0.0)} and self.rem(l):
                    return sense == (n["op"] == "==")
        if self.rem(c):
            return not sense
        return False

    def rem(self, i):
        N, T = self.N, self.T
        n = N.nodes[N.skip(i)]
        if n["k"] == "call" and n.get("f") and self.P.ext[n["f"]]["base"] == "operator%" and len(n["a"]) == 2:
            l, r = n["a"]
        elif n["k"] == "bin" and n["op"] == "%":
            l, r = n["l"], n["r"]
        else:
            return False
        fr = T.alts(r, N.skip(i))
        return self.shift(l, N.skip(i)) == 1.0 and all(x[0] == "mem" and x[2] == "m_assign_freq" for x in fr)

    def ends(self, v):
        """left only when the loading is finished and all demand was released"""
        N, T, P = self.N, self.T, self.P
        fin, rel = set(), set()
        for b, s, fs in T.edges():
            if b not in self.body:
                continue
            for op, L, R in fs:
                if op == "true" and any(t[0] == "call" and t[1] == "finished_loading" for t in L):
                    fin.add((b, s))
                cur = lambda t: t == ("V", getattr(self, "w", None)) or self.computed(t)
                if op in ("<=", "<") and any(t[0] == "mem" and t[2] == "m_total_assign_inter" for t in L) and \
                        any(cur(t) for t in R):
                    rel.add((b, s))
                if op == "==" and any(t[0] == "mem" and t[2] == "m_total_assign_inter" for t in L | R) and \
                        any(cur(t) for t in L | R):
                    rel.add((b, s))
        outs = {s for b in self.body for s in N.blocks[b].succ if s >= 0 and s not in self.body and not N.aborts(s)}
        # the last step made stays behind us: start after the step
        for es, what in ((fin, "while vehicles are under way or steps are left"),
                         (rel, "before the last interval with demand was released")):
            for start in (N.entry, T.block(self.e)):
                if not T.passes(start, outs, set(), es):
                    self.bad("ends", self.e, "a loading may end %s" % what)
                    break
        # and goes on otherwise
        for b, e, n in N.all_elements():
            if n["k"] == "call" and n.get("f") and P.ext[n["f"]]["base"] == "finished_loading":
                x = N.nodes[N.skip(n["a"][0])]
                if not (x["k"] == "var" and x["v"] == v):
                    self.bad("ends:number", e, "whether a loading is finished is not asked for the current step")

    def total(self, v):
        """the number of steps is reported"""
        N, T = self.N, self.T
        kept = {T.block(e) for _, e, n in N.all_elements() if n["k"] == "bin" and n["op"] == "=" and
                N.nodes[N.skip(n["l"])].get("n") == "m_current_loading_interval"}
        for b, e, n in N.all_elements():
            if n["k"] == "bin" and n["op"] == "=" or n["k"] == "call" and n.get("f") and n["a"] and \
                    self.P.ext[n["f"]]["base"] == "operator=":
                l, r = (n["l"], n["r"]) if n["k"] == "bin" else (n.get("o", -1), n["a"][0])
                if l < 0:
                    continue
                m = N.nodes[N.skip(l)]
                if m["k"] == "mem" and m["n"] == "m_current_loading_interval":
                    if self.local(r) != v:
                        self.bad("total", e, "the number of steps made is not what is reported")
            if n["k"] == "ret" and n.get("e", -1) >= 0 and self.F.base == "loading":
                m = N.nodes[N.skip(n["e"])]
                if m["k"] == "mem" and m["n"] == "m_current_loading_interval" and any(
                        b not in self.body and N.dominates(b, T.block(e)) for b in kept):
                    continue
                if self.local(n["e"]) != v:
                    self.bad("total", e, "the number of steps made is not what is returned")


def finished(P, F, rep):
    """true for a positive total exactly when it is reached; otherwise when no
    vehicle is under way and a step was made"""
    T = Step(P, F)
    name = short(F.key)

    def atom(c):
        """[(atom, sense)] or None"""
        fs = T.facts(c, True)
        if len(fs) != 1:
            return None
        op, L, R = fs[0]
        istot = lambda X: X and all(t[0] == "call" and t[1] == "get_int" for t in X)
        iscur = lambda X: X == {("P", 0)}
        zero = lambda X: X == {("c", 0.0)}
        if op == "true" and all(t[0] == "call" and t[1].startswith("has_running_veh") for t in L):
            return "run", True
        if op == "<" and zero(L) and istot(R):
            return "lim", True
        if op == "<=" and L == {("c", 1.0)} and istot(R):
            return "lim", True
        if op == "<=" and istot(L) and zero(R):
            return "lim", False
        if op == "<=" and istot(L) and iscur(R):
            return "reached", True
        if op == "<" and iscur(L) and istot(R):
            return "reached", False
        if op == "==" and (iscur(L) and zero(R) or zero(L) and iscur(R)):
            return "none", True
        if op == "!=" and (iscur(L) and zero(R) or zero(L) and iscur(R)):
            return "none", False
        if op == "<" and zero(L) and iscur(R):
            return "none", False
        return None

    def value(c, env, d=0):
        n = F.nodes[c]
        if d > 14:
            return None
        if n["k"] == "cast" or n["k"] in ("ctor", "init") and len(n["a"]) == 1:
            return value(n["e"] if n["k"] == "cast" else n["a"][0], env, d + 1)
        if n["k"] == "bool" or n["k"] == "int":
            return float(n["val"]) != 0
        if n["k"] == "un" and n["op"] == "!":
            x = value(n["e"], env, d + 1)
            return None if x is None else not x
        if n["k"] == "bin" and n["op"] in ("&&", "||"):
            x, y = value(n["l"], env, d + 1), value(n["r"], env, d + 1)
            if n["op"] == "&&":
                return False if x is False or y is False else None if x is None or y is None else True
            return True if x is True or y is True else None if x is None or y is None else False
        if n["k"] == "cond":
            x = value(n["c"], env, d + 1)
            return None if x is None else value(n["l"] if x else n["r"], env, d + 1)
        if n["k"] == "var" and F.vkind[n["v"]] == "l":
            rs = F.reaching(n["v"], c)
            if len(rs) == 1 and rs[0][1] is not None:
                return value(rs[0][1], env, d + 1)
        a = atom(c)
        return None if a is None else env[a[0]] == a[1]

    n = 0
    for lim, reached, run, none in product((True, False), repeat=4):
        env = {"lim": lim, "reached": reached, "run": run, "none": none}
        if none and lim and reached or not lim and not reached:
            # step 0 has reached no positive total; every step is beyond none
            continue
        want = reached if lim else not (run or none)
        b, seen = F.entry, set()
        got = ret = None
        while b not in seen and b != F.exit:
            seen.add(b)
            B = F.blocks[b]
            for e in B.els:
                if F.nodes[e]["k"] == "ret":
                    ret = e
                    got = value(F.nodes[e]["e"], env)
            if ret is not None:
                break
            succ = [s for s in B.succ if s >= 0]
            if len(succ) == 2 and B.tc is not None and B.tc >= 0:
                x = value(T.last(b), env)
                if x is None:
                    rep.violation("%s:condition" % name, F.loc(T.last(b)), "%s depends on something else than the "
                                  "configured number of steps, the steps made and the vehicles under way" % name)
                    return
                b = B.succ[0 if x else 1]
            elif succ:
                b = succ[0]
        n += 1
        if got is None and ret is not None:
            rep.violation("%s:condition" % name, F.loc(ret), "%s depends on something else than the configured "
                          "number of steps, the steps made and the vehicles under way" % name)
            return
        if got is not None and got != want:
            rep.violation("%s:answer" % name, F.loc(ret), "%s is %s with %s, %s, %s" % (
                name, got, "a configured number of steps" if lim else "no configured number of steps",
                ("reached" if reached else "not reached") if lim else
                ("vehicles under way" if run else "no vehicle under way"), "no step made" if none else "steps made"))
            return
    rep.count("finished_cases", n)


def running(P, F, rep):
    """vehicles are under way while fewer have finished than were released"""
    T = Step(P, F)
    for b, e, n in F.all_elements():
        if n["k"] != "ret" or n.get("e", -1) < 0:
            continue
        fs = T.facts(n["e"], True)
        ok = False
        if len(fs) == 1:
            op, L, R = fs[0]
            if len(L) == 1 and len(R) == 1:
                x, y = next(iter(L)), next(iter(R))
                nm = [t[2] if t[0] == "mem" and t[1] == ("P", 0) else t for t in (x, y)]
                ok = op == "!=" and set(nm) == {"m_num_veh", "m_finished"} or \
                    op == "<" and nm == ["m_finished", "m_num_veh"] or \
                    op == "!=" and "m_enroute" in nm and ("c", 0.0) in nm or \
                    op == "<" and nm == [("c", 0.0), "m_enroute"]
        rep.count("running_answers")
        if not ok:
            rep.violation("%s:answer" % short(F.key), F.loc(e), "%s is not 'some released vehicle has not finished'"
                          % short(F.key))


def run(rep, tier):
    P = Program.load()
    rep.rule("a step (load_once): for every kind of element exactly one call per element of its map and step, with the "
             "number of the step, from a loop over the whole map that no path leaves early, skips or repeats; kinds "
             "are told apart by link type or class only")
    rep.rule("order in a step: link attributes of the step, release (in due steps only), routing, nodes, links (admit, move), destinations, records")
    rep.rule("a loading: numbers 0, 1, 2, ...; the assignment interval starts at the configured one and grows by one "
             "exactly when the number of steps made is a multiple of the frequency; the loop is left only when the "
             "loading is finished and no interval with demand is left")
    rep.rule("finished: truth table over (configured number of steps, reached, vehicles under way, no step made)")
    n = k = 0
    for F in sorted(P.funcs.values(), key=lambda F: (F.file, F.line)):
        if not F.blocks or F.islambda:
            continue
        if F.base == "load_once" and len(F.params) == 3:
            n += 1
            O = Once(P, F, rep)
            O.run()
            rep.sample("%s: %d calls" % (O.name, sum(len(x) for x in O.found.values())))
        elif F.base == "finished_loading":
            finished(P, F, rep)
        elif F.base == "has_running_vehicle":
            running(P, F, rep)
        elif F.base != "load_once" and any(
                nd["k"] == "call" and nd.get("f") and P.ext[nd["f"]]["base"] == "load_once"
                for _, _, nd in F.all_elements()):
            k += 1
            L = Loading(P, F, rep)
            L.run()
            rep.sample(L.name)
    rep.require("step_functions", n, 1)
    rep.require("loading_functions", k, 1)
