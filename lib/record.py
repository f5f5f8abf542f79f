"""Recording of link entries and exits.

Events on a path (assuming that the curves are installed, and for agents that
are not buses, whose entries are not part of the car/truck curves):
   move      agent->set_current_link(X): one entry into X unless X is null, one
             exit from the previous link unless the agent comes from a queue of
             agents that have not entered the network yet
   record    add_increment / add_flow on an entry or exit curve of a link
A record of 1/scale stands for one agent. A record of n/scale stands for the
agents counted in n; the places where n is counted up (or a recorded number is
drained) count as the record of that agent."""
import re
from collections import defaultdict

from .common import is_assign, natural_loops
from .vpath import VPath, subst, walk, fields, linear

CURVE = re.compile(r"^m_N_(in|out)(_tree)?(_car|_truck|_bus)?$")
PRE = ("m_in_veh_queue", "m_in_passenger_queue")
MAXS = 600


class Rec:
    __slots__ = ("F", "node", "kind", "form", "cls", "link", "time", "amount", "recv", "args", "path")


class Records:
    def __init__(self, P):
        self.P = P
        self.V = VPath(P)
        self.links = P.derived("MNM_Dlink") | P.derived("MNM_Transit_Link")
        self.viol = []
        self.recs = defaultdict(list)      # function -> records
        self.scan()

    # ------------------------------------------------------------ collection
    def curve_of(self, F, nid, d=0):
        """(field, link path, record class) of a curve expression"""
        nid = F.skip(nid)
        if nid is None or nid < 0 or d > 6:
            return None
        n = F.nodes[nid]
        if n["k"] == "mem":
            m = CURVE.match(n["n"])
            if m:
                return n["n"], self.V.path(F, n["b"]), n["r"], n["b"]
            return None
        if n["k"] == "var":
            s = self.V.single(F, n["v"])
            if s is not None:
                return self.curve_of(F, s, d + 1)
            return None
        if n["k"] == "un" and n["op"] in ("*", "&"):
            return self.curve_of(F, n["e"], d + 1)
        return None

    def scan(self):
        P = self.P
        self.unresolved = defaultdict(list)    # function -> [(node, recv path, time, amount)]
        for F in P.funcs.values():
            for i, n in enumerate(F.nodes):
                if n["k"] != "call" or not n.get("f") or n.get("o", -1) < 0:
                    continue
                e = P.ext[n["f"]]
                if e["base"] not in ("add_increment", "add_flow") or \
                        e.get("rec") not in ("MNM_Cumulative_Curve", "MNM_Tree_Cumulative_Curve"):
                    continue
                t, a = self._args(F, n)
                c = self.curve_of(F, n["o"])
                if c is None:
                    self.unresolved[F.key].append((i, self.V.path(F, n["o"]), t, a, n))
                    continue
                self._add(F, i, c, t, a)
        for _ in range(3):
            if not self.lift():
                break

    def lift(self):
        """records made by a helper on a link, curve or count that it is given
        count as records of its callers"""
        P = self.P
        done = False
        for k in list(self.recs):
            F = P.funcs[k]
            if self._moves(F):
                continue
            for r in list(self.recs[k]):
                num, s = self.numerator(r.amount)
                if not (r.link[0] == "P" or (num is not None and num[0] == "P") or r.amount[0] == "P"):
                    continue
                sites = self._call_sites(F)
                if not sites:
                    continue
                for (G, i, n) in sites:
                    args = [self.V.path(G, x) for x in n["a"]]
                    rv = self.V.path(G, n["o"]) if n.get("o", -1) >= 0 else None
                    q = Rec()
                    q.F, q.node, q.kind, q.form, q.cls, q.recv = G, i, r.kind, r.form, r.cls, r.recv
                    q.link, q.time, q.amount = (subst(x, args, rv) for x in (r.link, r.time, r.amount))
                    q.args = n["a"][r.link[1]] if r.link[0] == "P" and r.link[1] < len(n["a"]) else None
                    q.path = tuple(subst(x, args, rv) for x in r.path) if r.path else None
                    self.recs[G.key].append(q)
                self.recs[k].remove(r)
                done = True
            if not self.recs[k]:
                del self.recs[k]
        for k in list(self.unresolved):
            F = P.funcs[k]
            for u in list(self.unresolved[k]):
                (i0, rp, t, a, n0) = u
                if rp[0] != "P" or self._moves(F):
                    continue
                got = []
                for (G, i, n) in self._call_sites(F):
                    c = self.curve_of(G, n["a"][rp[1]]) if rp[1] < len(n["a"]) else None
                    if c is None:
                        got = None
                        break
                    args = [self.V.path(G, x) for x in n["a"]]
                    rv = self.V.path(G, n["o"]) if n.get("o", -1) >= 0 else None
                    got.append((G, i, c, subst(t, args, rv), subst(a, args, rv)))
                if got:
                    for x in got:
                        self._add(*x)
                    self.unresolved[k].remove(u)
                    done = True
        return done

    def _moves(self, F):
        return any(n["k"] == "call" and n.get("f") and
                   self.P.ext[n["f"]]["base"] == "set_current_link" for n in F.nodes)

    def _args(self, F, n):
        if len(n["a"]) >= 2:
            return self.V.path(F, n["a"][0]), self.V.path(F, n["a"][1])
        p = self.V.path(F, n["a"][0])
        if isinstance(p, tuple) and p[0] == "ctor" and len(p) == 4:
            return p[2], p[3]
        if isinstance(p, tuple) and p[0] == "init" and len(p) == 3:
            return p[1], p[2]
        if isinstance(p, tuple) and p[0] == "call" and p[1] == "make_pair" and len(p) == 5:
            return p[3], p[4]
        return ("?",), ("?",)

    def _add(self, F, i, c, t, a):
        m = CURVE.match(c[0])
        r = Rec()
        r.F, r.node, r.kind, r.form = F, i, m.group(1), "tree" if m.group(2) else "curve"
        r.cls = (m.group(3) or "")[1:]
        r.link, r.time, r.amount, r.recv, r.args = c[1], t, a, c[2], c[3]
        n = F.nodes[i]
        e = self.P.ext[n["f"]]
        r.path = None
        if e["base"] == "add_flow" and len(n["a"]) >= 4:
            r.path = (self.V.path(F, n["a"][2]), self.V.path(F, n["a"][3]))
        self.recs[F.key].append(r)

    # ------------------------------------------------------------- rule: time
    def check_time(self):
        """every record is stamped with the end of the step: step + 1"""
        P = self.P
        n = 0
        for k, rs in self.recs.items():
            for r in rs:
                if r.recv not in self.links and not r.cls:
                    pass
                n += 1
                for off, where in self._climb(r.F, r.time, set()):
                    if off is None:
                        continue
                    if off != 1:
                        self.viol.append(("time:%s:%s" % (r.F.name, r.kind), r.F.loc(r.node),
                                          "%s: entry/exit is stamped step%+d, the step's movements belong to step+1%s"
                                          % (r.F.name, int(off), where)))
        return n

    def _climb(self, F, p, seen, depth=0):
        """offsets of time expression p relative to the step number"""
        P = self.P
        l = linear(p)
        if l is None:
            return [(None, "")]
        atoms = [a for a in l if a is not None]
        off = l.get(None, 0)
        if not atoms:
            return [(None, "")]
        if len(atoms) != 1 or l[atoms[0]] != 1:
            return [(None, "")]
        a = atoms[0]
        if a[0] == "P" and len(a) == 2:
            e = P.ext.get(F.key, {})
            # step functions are called with the step itself
            nm = [F.vname[x] for x in F.params if F.vpidx[x] == a[1]]
            callers = self._call_sites(F)
            if not callers or depth > 6 or (F.key, a) in seen:
                return [(off, "")]
            out = []
            for (G, i, n) in callers:
                if a[1] >= len(n["a"]):
                    continue
                q = self.V.path(G, n["a"][a[1]])
                for o2, w in self._climb(G, q, seen | {(F.key, a)}, depth + 1):
                    if o2 is None:
                        out.append((off, w))
                    else:
                        out.append((off + o2, w or " (called from %s)" % G.name))
            return sorted(set(out), key=str)
        return [(off, "")]

    def _call_sites(self, F):
        if not hasattr(self, "_cs"):
            cs = defaultdict(list)
            for G in self.P.funcs.values():
                for i, n in enumerate(G.nodes):
                    if n["k"] == "call" and n.get("f"):
                        for t in self.P.targets(G, i):
                            cs[t].append((G, i, n))
            self._cs = cs
        return self._cs.get(F.key, [])

    # ----------------------------------------------------------- rule: amount
    def numerator(self, p):
        """(numerator, scaled?) of an amount"""
        if p[0] == "bin" and p[1] == "/":
            if self.is_scale(p[3]):
                return p[2], True
            if self.is_scale(p[2]):
                return None, False
            return None, None
        if p[0] == "call" and p[1] == "operator/":
            x = [y for y in p[2:] if y is not None]
            if len(x) == 2 and self.is_scale(x[1]):
                return x[0], True
            return None, None
        if p[0] == "bin" and p[1] == "*":
            # n * (1 / scale)
            for a, b in ((p[2], p[3]), (p[3], p[2])):
                nb, s = self.numerator(b)
                if s and nb == ("c", "1"):
                    return a, True
                if self.is_scale(b):
                    return a, False
            return None, None
        if p[0] in ("c", "V") or p[0] == "mem" or (p[0] == "call" and p[1] in ("size", "find")):
            if self.is_scale(p):
                return None, None
            return p, False
        return None, None

    @staticmethod
    def is_scale(p):
        return isinstance(p, tuple) and len(p) == 3 and p[0] == "mem" and p[2] == "m_flow_scalar"

    def check_amount(self):
        n = 0
        for k, rs in self.recs.items():
            for r in rs:
                if any(x[0] == "P" and len(x) == 2 for x in walk(r.amount) if isinstance(x, tuple)) and \
                        "m_flow_scalar" not in fields(r.amount):
                    # a helper: judge the callers' argument
                    for (G, i, nn) in self._call_sites(r.F):
                        args = [self.V.path(G, x) for x in nn["a"]]
                        rv = self.V.path(G, nn["o"]) if nn.get("o", -1) >= 0 else None
                        self._amount(r, subst(r.amount, args, rv), G, i)
                        n += 1
                    continue
                n += 1
                self._amount(r, r.amount, r.F, r.node)
        return n

    def _amount(self, r, p, F, node):
        num, scaled = self.numerator(p)
        if scaled is False:
            self.viol.append(("amount:%s:%s" % (r.F.name, r.kind), F.loc(node),
                              "%s: the recorded amount is not a number of agents divided by the flow scalar" % F.name))
        elif num is not None and num[0] == "c" and num != ("c", "1"):
            self.viol.append(("amount:%s:%s" % (r.F.name, r.kind), F.loc(node),
                              "%s: one movement is recorded as %s agents" % (F.name, num[1])))

    # ------------------------------------------------------------- rule: side
    def roles(self, F, nid, at, d=0, seen=None):
        """{'in','out'}: which side of the node the link expression is on"""
        seen = seen or set()
        nid = F.skip(nid)
        out = set()
        if nid is None or nid < 0 or d > 8:
            return {"?"}
        n = F.nodes[nid]
        k = n["k"]
        if k == "var":
            if (n["v"]) in seen or F.vkind[n["v"]] != "l":
                return {"?"}
            rd = F.reaching(n["v"], at if at in F.where() else nid)
            for (dn, val, kind) in rd:
                if val is None:
                    continue
                out |= self.roles(F, val, dn, d + 1, seen | {n["v"]})
            return out or {"?"}
        p = n
        if k == "idx" or k == "call":
            fs = fields(self.V.path(F, nid))
            calls = {x[1] for x in walk(self.V.path(F, nid)) if isinstance(x, tuple) and x and x[0] == "call"}
            if "m_in_link_array" in fs or "get_current_link" in calls:
                out.add("in")
            if "m_out_link_array" in fs or "get_next_link" in calls:
                out.add("out")
            return out or {"?"}
        if k == "mem":
            if n["n"] in ("m_bus_in_link",):
                return {"in"}
            if n["n"] in ("m_bus_out_link",):
                return {"out"}
            return {"?"}
        if k == "un":
            return self.roles(F, n["e"], at, d + 1, seen)
        return {"?"}

    def check_side(self):
        n = 0
        for k, rs in self.recs.items():
            for r in rs:
                if r.recv not in self.links:
                    continue
                n += 1
                ro = self.roles(r.F, r.args, r.node)
                if r.kind == "in" and ro == {"in"}:
                    self.viol.append(("side:%s:in" % r.F.name, r.F.loc(r.node),
                                      "%s: an entry is recorded on the link the agent comes from" % r.F.name))
                if r.kind == "out" and ro == {"out"}:
                    self.viol.append(("side:%s:out" % r.F.name, r.F.loc(r.node),
                                      "%s: an exit is recorded on the link the agent goes to" % r.F.name))
        return n

    # --------------------------------------------------- counters behind a record
    def counter_ids(self, r):
        """identities of what the numerator of r counts: ('one',), ('var',F,v),
        ('field',name), ('size',path), or None"""
        num, s = self.numerator(r.amount)
        if num is None:
            return None
        if num == ("c", "1"):
            return {("one",)}
        return self._ids(r.F, num, set())

    def _ids(self, F, p, seen):
        if p[0] == "V":
            v = p[1]
            if v in seen:
                return set()
            seen = seen | {v}
            ds = [x for x in F.defs_of()[0] if x[0] == v and x[3] in ("decl", "assign", "update")]
            out = set()
            for (_, node, val, kind) in ds:
                if kind == "update":
                    n = F.nodes[node]
                    if n["k"] == "un":
                        out.add(("var", F.key, v))
                        continue
                    q = self.V.path(F, n["r"])
                    if q == ("c", "1"):
                        out.add(("var", F.key, v))
                    else:
                        x = self._ids(F, q, seen)
                        if x is None:
                            return None
                        out |= x
                elif val is not None:
                    q = self.V.path(F, val)
                    if q[0] == "c":
                        continue
                    x = self._ids(F, q, seen)
                    if x is None:
                        return None
                    out |= x
            return out
        if p[0] == "call" and p[1] == "size":
            return {("size", p[2])}
        if p[0] == "bin" and p[1] in ("+",):
            a, b = self._ids(F, p[2], seen), self._ids(F, p[3], seen)
            return None if a is None or b is None else a | b
        q = p
        while isinstance(q, tuple):
            if q[0] == "mem" and q[2] != "second":
                return {("field", q[2])}
            if q[0] in ("mem", "idx"):
                q = q[1]
            elif q[0] == "call" and q[1] in ("find", "at", "begin"):
                q = q[2]
            else:
                return None
        return None

    # ----------------------------------------------------------- rule: balance
    def check_balance(self):
        P = self.P
        self.fieldrecs = defaultdict(list)   # field name -> [(recorder, (kind, form, cls), node)]
        self.varkinds = defaultdict(set)     # (F key, v) -> ...
        self.sizekinds = defaultdict(set)    # (F key, path)
        self.unknown = set()
        for k, rs in self.recs.items():
            for r in rs:
                if r.cls == "bus" or r.recv not in self.links:
                    continue
                ids = self.counter_ids(r)
                t = (r.kind, r.form)
                if ids is None:
                    self.unknown.add((k, t))
                    continue
                for i in ids:
                    if i[0] == "var":
                        self.varkinds[(i[1], i[2])].add((r.kind, r.form, r.cls))
                    elif i[0] == "field":
                        self.fieldrecs[i[1]].append((k, (r.kind, r.form, r.cls), r.node))
                    elif i[0] == "size":
                        self.sizekinds[(k, i[1])].add((r.kind, r.form, r.cls))
        self.moves = 0
        self.sum = {}
        act = self._movefuncs()
        self.act = act
        # callees first
        order, seen = [], set()

        def visit(k):
            if k in seen:
                return
            seen.add(k)
            for c in P.callees(P.funcs[k]):
                if c in act:
                    visit(c)
            order.append(k)
        for k in sorted(act):
            visit(k)
        for k in order:
            B = BalanceRun(self, P.funcs[k])
            B.run()
            B.check_resets()
            B.check_sizes()
        return len(order)

    # functions that run together in one object's step
    def thiscalls(self, k):
        if not hasattr(self, "_tc"):
            self._tc = {}
        if k not in self._tc:
            F = self.P.funcs[k]
            out = set()
            for i, n in enumerate(F.nodes):
                if n["k"] == "call" and n.get("f") and n.get("o", -1) >= 0 and \
                        self.V.path(F, n["o"]) == ("T",):
                    out |= {t for t in self.P.targets(F, i) if t in self.P.funcs}
            self._tc[k] = out
        return self._tc[k]

    def closure(self, k):
        seen, st = set(), [k]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(self.thiscalls(x))
        return seen

    def co_run(self, k):
        """k and the functions that some step of the same object runs with it"""
        if not hasattr(self, "_co"):
            rev = defaultdict(set)
            for f in self.P.funcs:
                if self.P.funcs[f].rec:
                    for t in self.thiscalls(f):
                        rev[t].add(f)
            self._rev, self._co = rev, {}
        if k not in self._co:
            up, st = set(), [k]
            while st:
                x = st.pop()
                if x in up:
                    continue
                up.add(x)
                st.extend(self._rev.get(x, ()))
            out = set()
            for u in up:
                out |= self.closure(u)
            self._co[k] = out
        return self._co[k]

    def fieldkinds(self, F, f):
        if f not in self.fieldrecs:
            return set()
        co = self.co_run(F.key)
        return {kd for (g, kd, _) in self.fieldrecs[f] if g in co}

    def check_together(self):
        """a step that moves agents against a member count also records that
        member count, on the same paths; a count that is accumulated while
        moving is recorded afterwards"""
        P = self.P
        n = 0
        pairs = set()
        for F in [P.funcs[k] for k in self.act]:
            run = BalanceRun(self, F)
            if not run.has_move:
                continue
            for f in self.fieldrecs:
                use = run.uses_field(f)
                if not use:
                    continue
                for (g, kd, _) in self.fieldrecs[f]:
                    if g != F.key and g in self.co_run(F.key):
                        pairs.add((F.key, g, use, f))
        for (m, g, use, f) in sorted(pairs):
            for E in P.funcs.values():
                if m in self.thiscalls(E.key) and g in self.thiscalls(E.key):
                    n += 1
                    self._paths(E, m, g, use, f)
                    if use == "accumulate":
                        self._afresh(E, m, g, f)
        return n

    def _afresh(self, E, m, g, f):
        """a member count that movements add to starts from nothing in every
        step: cleared on the way to the movements, by the movements before
        they start, or once it is recorded"""
        P = self.P
        if m in self.clearers(f) or g in self.clearers(f):
            return
        st, seen = [E.entry], set()
        while st:
            b = st.pop()
            if b in seen or E.aborts(b):
                continue
            seen.add(b)
            done = False
            for e in E.blocks[b].els:
                n = E.nodes[e]
                if n["k"] == "call" and n.get("f"):
                    t = P.targets(E, e)
                    if t and set(t) <= self.clearers(f):
                        done = True
                        break
                    if m in t:
                        if self._clears(E, f) or self._after(E, e, f):
                            return
                        self.viol.append(("afresh:%s:%s" % (E.name, f), E.loc(e),
                                          "%s: the count of movements that is recorded ('%s') is not set back "
                                          "before the next step's movements" % (E.name, f)))
                        return
            if not done:
                st.extend(x for x in E.blocks[b].succ if x >= 0)

    def _after(self, E, e, f):
        """every way from here to the end clears the count"""
        P = self.P
        st, seen = [E.where()[e][0]], set()
        while st:
            b = st.pop()
            if b in seen or E.aborts(b):
                continue
            if b == E.exit:
                return False
            seen.add(b)
            done = False
            for x in E.blocks[b].els:
                n = E.nodes[x]
                if n["k"] == "call" and n.get("f"):
                    t = P.targets(E, x)
                    done = done or bool(t) and set(t) <= self.clearers(f)
            if not done:
                st.extend(x for x in E.blocks[b].succ if x >= 0)
        return True

    def clearers(self, f):
        if not hasattr(self, "_clr"):
            self._clr = {}
        if f not in self._clr:
            got = {F.key for F in self.P.funcs.values() if self._clears(F, f)}
            while True:
                more = set()
                for F in self.P.funcs.values():
                    if F.key not in got and self._must(F, [
                            i for i, n in enumerate(F.nodes) if n["k"] == "call" and n.get("f") and
                            self.P.targets(F, i) and set(self.P.targets(F, i)) <= got]):
                        more.add(F.key)
                if not more:
                    break
                got |= more
            self._clr[f] = got
        return self._clr[f]

    def _clears(self, F, f):
        V = self.V
        at = []
        for i, n in enumerate(F.nodes):
            if n["k"] == "call" and n.get("f") and n.get("a"):
                b = self.P.ext[n["f"]]["base"]
                if b in ("memset", "fill", "fill_n", "bzero") and f in fields(V.path(F, n["a"][0])):
                    at.append(i)
                elif b in ("assign", "clear", "setZero") and n.get("o", -1) >= 0 and f in fields(V.path(F, n["o"])):
                    at.append(i)
            elif n["k"] == "bin" and n["op"] == "=" and f in fields(V.path(F, n["l"])) and \
                    V.path(F, n["r"])[:1] == ("c",):
                at.append(i)
        return self._must(F, at)

    def _must(self, F, at):
        """no way through the function avoids these (a loop over the elements
        counts as done where it stands)"""
        if not at:
            return False
        w = F.where()
        loops = natural_loops(F)
        cut = set()
        for i in at:
            if i not in w:
                continue
            b = w[i][0]
            outer = [(len(body), h) for h, body in loops if b in body]
            cut.add(max(outer)[1] if outer else b)
        st, seen = [F.entry], set()
        while st:
            b = st.pop()
            if b in seen or b in cut or F.aborts(b):
                continue
            if b == F.exit:
                return False
            seen.add(b)
            st.extend(x for x in F.blocks[b].succ if x >= 0)
        return True

    def _paths(self, E, m, g, use, f):
        P = self.P
        IN = defaultdict(set)
        IN[E.entry].add((0, 0))
        work, bad = [E.entry], None
        seen = set()
        while work:
            b = work.pop()
            for st in list(IN[b]):
                if (b, st) in seen:
                    continue
                seen.add((b, st))
                cm, cg = st
                for e in E.blocks[b].els:
                    n = E.nodes[e]
                    if n["k"] == "call" and n.get("f"):
                        t = P.targets(E, e)
                        if m in t:
                            cm = min(3, cm + 1)
                            if use == "drain" and False:
                                pass
                        if g in t:
                            if use == "accumulate" and cm == 0:
                                bad = ("is written before the movements it counts", e)
                            cg = min(3, cg + 1)
                if E.aborts(b):
                    continue
                for s in E.blocks[b].succ:
                    if s < 0:
                        continue
                    if s == E.exit:
                        if cm != cg:
                            bad = ("is not written exactly once for every round of movements", None)
                        continue
                    if (cm, cg) not in IN[s]:
                        IN[s].add((cm, cg))
                        work.append(s)
        if bad:
            self.viol.append(("together:%s" % E.name, E.loc(bad[1]) if bad[1] is not None else E.loc(),
                              "%s: the link record kept in '%s' %s" % (E.name, f, bad[0])))

    def _movefuncs(self):
        P = self.P
        out = set()
        for F in P.funcs.values():
            if self.recs.get(F.key) or self.unresolved.get(F.key):
                if not F.name.startswith("MNM_Tree_Cumulative_Curve"):
                    out.add(F.key)
            for n in F.nodes:
                if n["k"] == "call" and n.get("f") and P.ext[n["f"]]["base"] == "set_current_link":
                    out.add(F.key)
        # callers of helpers that leave something open
        return out


class BalanceRun:
    def __init__(self, R, F):
        self.R, self.P, self.F, self.V = R, R.P, F, R.V
        self.loops = natural_loops(F)
        self.heads = {h: b for h, b in self.loops}
        self.reported = set()
        rs = R.recs.get(F.key, [])
        self.rec_at = defaultdict(list)
        for r in rs:
            if r.cls != "bus" and r.recv in R.links:
                self.rec_at[r.node].append(r)
        self.has_move = any(n["k"] == "call" and n.get("f") and
                            self.P.ext[n["f"]]["base"] == "set_current_link" for n in F.nodes)
        self.drainfields = {}
        self.drains = self._drains()
        self.sizeloops = self._sizeloops()
        self.emptyloops = self._emptyloops()
        # forms judged in this function
        self.forms = {("in", "curve"), ("out", "curve")}
        for r in rs:
            if r.cls != "bus" and r.form == "tree":
                self.forms.add((r.kind, "tree"))
        self.forms = {t for t in self.forms if (F.key, t) not in R.unknown}
        # the numerators of batch records
        self.batch = {}
        for r in rs:
            ids = R.counter_ids(r)
            if r.node in self.rec_at and ids and ("one",) not in ids:
                self.batch[r.node] = r

    def _drains(self):
        """local variable -> kinds, for locals that start as a recorded number
        and are counted down"""
        F, R = self.F, self.R
        out = {}
        for v, kd in enumerate(F.vkind):
            if kd != "l":
                continue
            ds = [x for x in F.defs_of()[0] if x[0] == v]
            dec = False
            for (_, node, val, kind) in ds:
                if kind == "update":
                    n = F.nodes[node]
                    if n["k"] == "un" and "--" in n["op"]:
                        dec = True
                    elif n["k"] == "bin" and n["op"] == "-=":
                        dec = True
            if not dec:
                continue
            kinds = set()
            for (_, node, val, kind) in ds:
                if val is not None and kind in ("decl", "assign"):
                    for f in fields(self.V.path(F, val)):
                        kinds |= R.fieldkinds(F, f)
                        self.drainfields.setdefault(v, set()).add(f)
            if kinds:
                out[v] = kinds
        return out

    def _sizeloops(self):
        """loop variables that run over a recorded size: var -> kinds"""
        F, R = self.F, self.R
        out = {}
        for h, body in self.loops:
            b = F.blocks[h]
            if b.tc is None or b.tc < 0:
                continue
            n = F.nodes[F.skip(b.tc)]
            if n["k"] == "bin" and n["op"] in ("<", "!="):
                l, r = n["l"], n["r"]
            elif n["k"] == "call" and n.get("f") and self.P.ext[n["f"]]["base"] == "operator!=":
                ab = ([n["o"]] if n.get("o", -1) >= 0 else []) + list(n["a"])
                if len(ab) != 2:
                    continue
                l, r = ab
            else:
                continue
            v = F.local_of(F.skip(l))
            if v is None:
                continue
            q = self.V.path(F, r)
            cands = {q[2]} if q[0] == "call" and q[1] in ("size", "end", "cend") else set()
            if q[0] == "V":
                ids = R._ids(F, q, set())
                cands |= {i[1] for i in ids or () if i[0] == "size"}
            for (k, path), kinds in R.sizekinds.items():
                if k == F.key and path in cands:
                    out[v] = (kinds, path)
        return out

    def _emptyloops(self):
        """removals of one agent in a loop that runs until a recorded queue is
        empty: call node -> kinds"""
        F, R = self.F, self.R
        out = {}
        for h, body in self.loops:
            b = F.blocks[h]
            if b.tc is None or b.tc < 0:
                continue
            q = self.V.path(F, b.tc)
            while q[0] == "un" and q[1] == "!":
                q = q[2]
            if q[0] == "bin" and q[1] in (">", "!=", "<", ">=", "<="):
                if "c" not in (q[2][0], q[3][0]):
                    continue
                q = q[2] if q[2][0] == "call" else q[3]
            if q[0] != "call" or q[1] not in ("empty", "size"):
                continue
            kinds = R.sizekinds.get((F.key, q[2]))
            if not kinds:
                continue
            for bid in body:
                for e in F.blocks[bid].els:
                    if self.taken(e) == q[2]:
                        out[e] = kinds
        return out

    def taken(self, e):
        """the queue an agent is taken from by this element"""
        n = self.F.nodes[e]
        if n["k"] == "call" and n.get("f") and n.get("o", -1) >= 0 and \
                self.P.ext[n["f"]]["base"] in ("pop_front", "pop_back"):
            return self.V.path(self.F, n["o"])
        return None

    def check_sizes(self):
        """a recorded size is taken before agents leave the queue"""
        F, R, V = self.F, self.R, self.V
        w = F.where()
        pops = [(e, self.taken(e)) for bid in F.blocks for e in F.blocks[bid].els if self.taken(e) is not None]
        for nid, r in self.batch.items():
            todo, seen, sizes = [nid], set(), []
            while todo:
                x = todo.pop()
                for y in F.walk(x):
                    if y in seen:
                        continue
                    seen.add(y)
                    n = F.nodes[y]
                    if n["k"] == "call" and n.get("f") and self.P.ext[n["f"]]["base"] == "size" and n.get("o", -1) >= 0:
                        sizes.append((y, V.path(F, n["o"])))
                    elif n["k"] == "var" and F.vkind[n["v"]] == "l":
                        for d in F.reaching(n["v"], y) or ():
                            if d[1] is not None and d[1] >= 0:
                                todo.append(d[1])
            for y, q in sizes:
                if y not in w:
                    continue
                for e, pq in pops:
                    if pq != q or e not in w:
                        continue
                    stop = {h for h, body in self.loops if w[e][0] in body and w[y][0] in body}
                    if self._reaches(w[e], w[y], stop):
                        k = ("late", nid)
                        if k not in self.reported:
                            self.reported.add(k)
                            R.viol.append(("late:%s:%s%s" % (F.name, r.kind, "_" + r.cls if r.cls else ""),
                                           F.loc(y), "%s: the number recorded is taken after agents have "
                                           "left the queue" % F.name))

    def _reaches(self, a, b, stop):
        F = self.F
        if a[0] == b[0] and a[1] < b[1]:
            return True
        seen, st = set(), [s for s in F.blocks[a[0]].succ if s >= 0 and s not in stop]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x == b[0]:
                return True
            st.extend(s for s in F.blocks[x].succ if s >= 0 and s not in stop)
        return False

    # ------------------------------------------------------------------ flow
    def run(self):
        F, R = self.F, self.R
        IN = defaultdict(set)
        entry = defaultdict(set)
        st0 = frozenset()
        IN[F.entry].add(st0)
        done = defaultdict(set)
        prio = {b: i for i, b in enumerate(F.order())}
        work = [F.entry]
        exits = set()
        while work:
            work.sort(key=lambda b: prio.get(b, 0))
            bid = work.pop(0)
            todo = IN[bid] - done[bid]
            done[bid] |= todo
            b = F.blocks[bid]
            for st in todo:
                for d in self.block(bid, st):
                    if F.aborts(bid):
                        continue
                    for si, s in enumerate(b.succ):
                        if s < 0 or self.pruned(b, si):
                            continue
                        if s == F.exit:
                            exits.add(d)
                            continue
                        if s in self.heads and bid in self.heads[s]:
                            # back edge
                            self.at_back(s, d, entry[s])
                            continue
                        if s in self.heads:
                            entry[s].add(d)
                        if d not in IN[s]:
                            if len(IN[s]) >= MAXS:
                                continue
                            IN[s].add(d)
                            if s not in work:
                                work.append(s)
        fin = set()
        for d in exits:
            keep = {}
            for t, c in d:
                if t[0] == "b":
                    continue
                keep[t] = c
            fin.add(frozenset(keep.items()))
        for nid, r in self.batch.items():
            if self.inner(nid) is None:
                for d in exits:
                    c = dict(d).get(("b", nid), 0)
                    if c != 1:
                        self.batch_viol(r, c)
        exp = set()
        virt = self.P.ext.get(F.key, {}).get("virtual")
        callers = R._call_sites(F)
        for d in fin:
            if any(c for _, c in d):
                if not virt and callers:
                    exp.add(d)
                else:
                    self.bal_viol(d)
            else:
                exp.add(d)
        if not exp:
            exp = {frozenset()}
        R.sum[F.key] = exp

    def check_resets(self):
        """a local count that is recorded starts afresh before it is recorded
        again"""
        F, V = self.F, self.V
        w = F.where()
        defs = F.defs_of()[0]
        for nid, r in self.batch.items():
            num, s = self.R.numerator(r.amount)
            if num is None or num[0] != "V" or nid not in w:
                continue
            v = num[1]
            kills = {d[1] for d in defs if d[0] == v and d[3] in ("decl", "assign")
                     and not (d[2] is not None and ("V", v) in walk(V.path(F, d[2], resolve=False)))}
            if not any(d[0] == v and d[3] in ("update", "assign") for d in defs):
                continue
            b0, i0 = w[nid]
            seen, st, hit = set(), [(b0, i0 + 1)], False
            while st and not hit:
                b, i = st.pop()
                els = F.blocks[b].els
                dead = False
                while i < len(els):
                    if els[i] in kills:
                        dead = True
                        break
                    if els[i] == nid:
                        hit = True
                        break
                    i += 1
                if dead or hit:
                    continue
                for t in F.blocks[b].succ:
                    if t >= 0 and t not in seen:
                        seen.add(t)
                        st.append((t, 0))
            if hit:
                self.R.viol.append(("stale:%s:%s%s" % (F.name, r.kind, "_" + r.cls if r.cls else ""), F.loc(nid),
                                    "%s: the count behind a record is not reset before the next link's record"
                                    % F.name))

    def inner(self, nid):
        w = self.F.where().get(nid)
        if not w:
            return None
        best = None
        for h, body in self.loops:
            if w[0] in body and (best is None or len(body) < len(best[1])):
                best = (h, body)
        return best[0] if best else None

    def at_back(self, h, d, entries):
        dd = dict(d)
        base = [dict(e) for e in entries] or [{}]
        # batch records belonging to this loop: exactly once per iteration
        for nid, r in self.batch.items():
            if self.inner(nid) == h:
                c = dd.get(("b", nid), 0)
                if c != 1:
                    self.batch_viol(r, c)
        for nid in self.batch:
            dd.pop(("b", nid), None)
            for e in base:
                e.pop(("b", nid), None)
        if dd not in base:
            self.bal_viol(frozenset((k, v - base[0].get(k, 0)) for k, v in dd.items()
                                    if v != base[0].get(k, 0)) or
                          frozenset((k, -v) for k, v in base[0].items()), h)

    def batch_viol(self, r, c):
        k = ("batch", r.node)
        if k in self.reported:
            return
        self.reported.add(k)
        self.R.viol.append(("skipped:%s:%s%s" % (self.F.name, r.kind, "_" + r.cls if r.cls else ""),
                            self.F.loc(r.node),
                            "%s: the %s record of a link is written %s on some path of the step"
                            % (self.F.name, "entry" if r.kind == "in" else "exit",
                               "not at all" if c == 0 else "%d times" % c)))

    def bal_viol(self, d, head=None):
        for t, c in sorted(d, key=str):
            if not c or t[0] == "rec":
                continue
            k = ("bal", t)
            if k in self.reported:
                continue
            self.reported.add(k)
            what = "%s %s" % ("entry" if t[0] == "in" else "exit", t[1])
            self.R.viol.append(("unrecorded:%s:%s:%s" % (self.F.name, t[0], t[1]), self.F.loc(self.first(t)),
                                "%s: on some path an agent %s with %s" % (
                                    self.F.name,
                                    "changes link" if c < 0 else "is counted",
                                    ("no %s recorded" % what) if c < 0 else ("an %s recorded too often or without a move" % what))))

    def first(self, t):
        for i, n in enumerate(self.F.nodes):
            if n["k"] == "call" and n.get("f") and self.P.ext[n["f"]]["base"] == "set_current_link":
                return i
        for i in self.rec_at:
            return i
        return -1

    def pruned(self, b, si):
        """edges excluded by the assumptions"""
        if len(b.succ) != 2 or b.tc is None or b.tc < 0 or b.tk == "SwitchStmt":
            return False
        c = self._cond(b.tc)
        if c is None:
            return False
        return (si == 0) != c        # c: value the condition has

    def _cond(self, nid):
        """value of the condition under the assumptions, or None"""
        F, R = self.F, self.R
        neg = False
        while True:
            nid = F.skip(nid)
            n = F.nodes[nid]
            if n["k"] == "un" and n["op"] == "!":
                neg = not neg
                nid = n["e"]
                continue
            if n["k"] == "bin" and n["op"] in ("&&", "||"):
                nid = n["r"]
                continue
            break
        v = None
        if n["k"] == "bin" and n["op"] in ("==", "!=", ">", ">=", "<", "<="):
            l, r, op = n["l"], n["r"], n["op"]
            lp, rp = self.V.path(F, l), self.V.path(F, r)
            if lp[0] == "c" or lp[0] == "n":
                l, r, lp, rp = r, l, rp, lp
                op = {">": "<", "<": ">", ">=": "<=", "<=": ">="}.get(op, op)
            if self._curve_ptr(l) and (rp == ("c", "null") or F.nodes[F.skip(r)]["k"] in ("null",) or rp == ("c", "0")):
                v = {"!=": True, "==": False}.get(op)
            elif self._busid(lp) and rp in (("un", "-", ("c", "1")), ("c", "-1")):
                v = {"==": True, "!=": False}.get(op)
            elif self._is_num(l, lp):
                if rp == ("c", "0"):
                    v = {">": True, "!=": True, "==": False, "<=": False}.get(op)
                elif rp == ("c", "1"):
                    v = {">=": True, "<": False}.get(op)
        elif self._curve_ptr(nid):
            v = True
        if v is None:
            return None
        return v != neg

    def _curve_ptr(self, nid):
        t = self.F.nodes[self.F.skip(nid)].get("t", "")
        return "Cumulative_Curve" in t and t.rstrip("& const").endswith("*")

    @staticmethod
    def _busid(p):
        return any(isinstance(x, tuple) and len(x) >= 3 and
                   ((x[0] == "call" and x[1] == "get_bus_route_ID") or (x[0] == "mem" and x[2] == "m_bus_route_ID"))
                   for x in [p])

    def _is_num(self, nid, p):
        """is this the numerator of a batch record?"""
        if p == ("?",):
            return False
        for r in self.batch.values():
            num, s = self.R.numerator(r.amount)
            if num is None:
                continue
            if num == p:
                # draining loops test the same number: only tests outside the
                # loop that drains it
                w = self.F.where().get(nid)
                if p[0] != "V" and self.drain_test(nid):
                    return False
                return True
        return False

    def drain_test(self, nid):
        """the condition is inside a loop that changes the number"""
        F = self.F
        p = self.V.path(F, nid)
        fs = fields(p)
        w = F.where().get(nid) or F.where().get(F.skip(nid))
        for h, body in self.loops:
            if w and w[0] not in body:
                continue
            if not w:
                continue
            inner = self.inner_of_block(w[0])
            if inner is None or inner[0] != h:
                continue
            for bid in body:
                ib = self.inner_of_block(bid)
                if ib is None or ib[0] != h:
                    continue
                for e in F.blocks[bid].els:
                    n = F.nodes[e]
                    if is_assign(n) and fields(self.V.path(F, n["l"])) & fs and n["op"] in ("-=", "+="):
                        return True
                    if n["k"] == "un" and n["op"] in ("--", "post--") and fields(self.V.path(F, n["e"])) & fs:
                        return True
        return False

    def inner_of_block(self, bid):
        best = None
        for h, body in self.loops:
            if bid in body and (best is None or len(body) < len(best[1])):
                best = (h, body)
        return best

    # ----------------------------------------------------------------- events
    def block(self, bid, st):
        states = [st]
        for e in self.F.blocks[bid].els:
            nxt = []
            for s in states:
                nxt.extend(self.step(e, s))
            states = list(dict.fromkeys(nxt))
        return states

    def add(self, st, t, c):
        d = dict(st)
        d[t] = max(-3, min(3, d.get(t, 0) + c))
        if d[t] == 0:
            del d[t]
        return frozenset(d.items())

    def credit(self, st, kinds):
        for t in sorted({(k[0], k[1]) for k in kinds}):
            if t in self.forms:
                st = self.add(st, t, 1)
        return st

    def step(self, e, st):
        F, R, P = self.F, self.R, self.P
        n = F.nodes[e]
        k = n["k"]
        if e in self.emptyloops and self.has_move:
            return [self.credit(st, self.emptyloops[e])]
        if k == "call" and n.get("f"):
            b = P.ext[n["f"]]["base"]
            if b == "set_current_link" and n.get("o", -1) >= 0 and n["a"]:
                R.moves += 1
                a = self.V.path(F, n["a"][0])
                null = a == ("c", "null") or F.nodes[F.skip(n["a"][0])]["k"] == "null" or a == ("c", "0")
                pre = self.source(n["o"], e) in PRE
                for f in ("curve", "tree"):
                    if not null and ("in", f) in self.forms:
                        st = self.add(st, ("in", f), -1)
                    if not pre and ("out", f) in self.forms:
                        st = self.add(st, ("out", f), -1)
                return [st]
            if e in self.rec_at:
                if e in self.batch:
                    st = self.add(st, ("b", e), 1)
                for r in self.rec_at[e]:
                    ids = R.counter_ids(r)
                    if ids == {("one",)} and (r.kind, r.form) in self.forms:
                        st = self.add(st, (r.kind, r.form), 1)
                return [st]
            if n["k"] == "call" and n.get("o", -1) >= 0 and b in ("operator++", "operator+=") :
                v = F.local_of(F.skip(n["o"]))
                return [self.count(st, v, n["o"], +1, n["a"][0] if n["a"] else None, e)]
            if P.ext[n["f"]].get("repo"):
                outs = set()
                for t in P.targets(F, e):
                    if t in R.sum and t != F.key:
                        for d in R.sum[t]:
                            s = st
                            for tok, c in d:
                                if tok in self.forms:
                                    s = self.add(s, tok, c)
                            outs.add(s)
                    elif t in P.funcs:
                        outs.add(st)
                return sorted(outs, key=str) if outs else [st]
            return [st]
        if k == "un" and n["op"] in ("++", "post++", "--", "post--"):
            v = F.local_of(F.skip(n["e"]))
            return [self.count(st, v, n["e"], 1 if "++" in n["op"] else -1, None, e)]
        if k == "bin" and n["op"] in ("+=", "-="):
            v = F.local_of(F.skip(n["l"]))
            return [self.count(st, v, n["l"], 1 if n["op"] == "+=" else -1, n["r"], e)]
        if k == "bin" and n["op"] == "=":
            # x = x + 1
            v = F.local_of(F.skip(n["l"]))
            q = self.V.path(F, n["r"], resolve=False)
            if q[0] == "bin" and q[1] in ("+", "-") and q[3] == ("c", "1") and \
                    q[2] == self.V.path(F, n["l"], resolve=False):
                return [self.count(st, v, n["l"], 1 if q[1] == "+" else -1, None, e)]
        return [st]

    def count(self, st, v, lhs, sign, amount, e):
        F, R = self.F, self.R
        if not self.has_move:
            return st
        if v is not None:
            if sign > 0 and v in self.sizeloops:
                return self.credit(st, self.sizeloops[v][0])
            if sign < 0 and v in self.drains:
                return self.credit(st, self.drains[v])
            if sign > 0 and (F.key, v) in R.varkinds:
                if amount is None or self.V.path(F, amount) == ("c", "1"):
                    return self.credit(st, R.varkinds[(F.key, v)])
                return st
            return st
        ids = R._ids(F, self.V.path(F, lhs), set())
        for i in ids or ():
            if i[0] == "field" and i[1] in R.fieldrecs:
                dec = self.field_decremented(i[1])
                if (sign < 0) == dec:
                    return self.credit(st, R.fieldkinds(F, i[1]))
        return st

    def uses_field(self, f):
        """how this function's moves relate to the recorded member f"""
        F = self.F
        if any(f in fs and v in self.drains for v, fs in self.drainfields.items()):
            return "drain"
        if self.field_decremented(f):
            return "drain"
        for n in F.nodes:
            if n["k"] == "bin" and n["op"] == "+=" and f in fields(self.V.path(F, n["l"])):
                return "accumulate"
            if n["k"] == "un" and "++" in n["op"] and f in fields(self.V.path(F, n["e"])):
                return "accumulate"
        return None

    def field_decremented(self, f):
        F = self.F
        for n in F.nodes:
            if n["k"] == "bin" and n["op"] == "-=" and f in fields(self.V.path(F, n["l"])) and F.local_of(F.skip(n["l"])) is None:
                return True
            if n["k"] == "un" and "--" in n["op"] and f in fields(self.V.path(F, n["e"])) and F.local_of(F.skip(n["e"])) is None:
                return True
        return False

    def source(self, nid, at, d=0):
        """name of the container field the agent is read from"""
        F = self.F
        nid = F.skip(nid)
        if nid is None or nid < 0 or d > 8:
            return None
        n = F.nodes[nid]
        if n["k"] == "var":
            v = n["v"]
            for (dn, val, kind) in F.reaching(v, at if at in F.where() else nid):
                if val is not None:
                    s = self.source(val, dn, d + 1)
                    if s:
                        return s
            return None
        for x in F.walk(nid):
            m = F.nodes[x]
            if m["k"] == "mem" and re.search(r"deque|list|vector", m.get("t", "")):
                return m["n"]
        for x in F.walk(nid):
            m = F.nodes[x]
            if m["k"] == "var" and x != nid:
                for (dn, val, kind) in F.reaching(m["v"], at if at in F.where() else x):
                    if val is not None:
                        s = self.source(val, dn, d + 1)
                        if s:
                            return s
        return None


def check_class(R, C):
    """a record on a class's curve counts that class's vehicles"""
    n = 0
    for k, rs in R.recs.items():
        for r in rs:
            if r.cls not in ("car", "truck"):
                continue
            n += 1
            F = r.F
            call = F.nodes[r.node]
            dep = set()
            for a in call["a"]:
                dep |= C.deps(F, a, r.node)
            f = C.fact_at(F, r.node)
            if f:
                dep.add((f, "the class test"))
            cl = {c for c, _ in dep}
            if cl and cl != {r.cls}:
                R.viol.append(("class:%s:%s_%s" % (F.name, r.kind, r.cls), F.loc(r.node),
                               "%s: the %s curve is fed from %s" % (F.name, r.cls, ", ".join(sorted(w for _, w in dep)))))
    return n


IN, OUT = "m_in_link_array", "m_out_link_array"


def _dim(p):
    """array whose size the expression is"""
    if p[0] == "call" and p[1] == "size" and isinstance(p[2], tuple) and p[2][0] == "mem":
        return p[2][2]
    return None


class Matrix:
    """flow matrices of a node: element i * n + j belongs to in-link i and
    out-link j, where n is the number of out-links"""

    def __init__(self, R):
        self.R, self.P, self.V = R, R.P, R.V
        self.n = 0

    def ranges(self, F):
        """variable -> arrays it indexes or counts up to"""
        c = F.__dict__.get("_mx_ranges")
        if c is not None:
            return c
        out = defaultdict(set)
        V = self.V
        for i, n in enumerate(F.nodes):
            if n["k"] in ("idx",) or (n["k"] == "call" and n.get("f") and
                                      self.P.ext[n["f"]]["base"] in ("operator[]", "at")):
                p = V.path(F, i)
                if p[0] == "idx" and p[1] and p[1][0] == "mem" and p[1][2] in (IN, OUT) and p[2][0] == "V":
                    out[p[2][1]].add(p[1][2])
            if n["k"] == "bin" and n["op"] in ("<", ">", "!=", "<=", ">="):
                l, r = V.path(F, n["l"]), V.path(F, n["r"])
                for a, b in ((l, r), (r, l)):
                    if a[0] == "V" and _dim(b) in (IN, OUT):
                        out[a[1]].add(_dim(b))
        F.__dict__["_mx_ranges"] = out
        return out

    def check(self):
        P, V, R = self.P, self.V, self.R
        for F in P.funcs.values():
            if not F.rec or not P.isa(F.rec, "MNM_Dnode"):
                continue
            rg = None
            for i, n in enumerate(F.nodes):
                if n["k"] != "idx" and not (n["k"] == "call" and n.get("f") and
                                            P.ext[n["f"]]["base"] in ("operator[]", "at")):
                    continue
                p = V.path(F, i)
                if p[0] != "idx" or not p[1] or p[1][0] != "mem" or p[1][1] != ("T",):
                    continue
                s = self.split(p[2])
                if s is None:
                    continue
                row, dim, col = s
                self.n += 1
                if rg is None:
                    rg = self.ranges(F)
                ri = rg.get(row[1], set()) if row[0] == "V" else set()
                ci = rg.get(col[1], set()) if col[0] == "V" else set()
                bad = None
                if dim == OUT and (ri == {OUT} or ci == {IN}):
                    bad = "row and column are exchanged"
                if dim == IN:
                    # transposed storage is fine only if it is used everywhere
                    bad = "is addressed with the number of in-links as row length"
                if bad:
                    R.viol.append(("matrix:%s:%s" % (F.name, p[1][2]), F.loc(i),
                                   "%s: element of %s: %s" % (F.name, p[1][2], bad)))
        return self.n

    def split(self, p):
        """(row, array whose size is the row length, column)"""
        if p[0] != "bin" or p[1] != "+":
            return None
        for a, b in ((p[2], p[3]), (p[3], p[2])):
            if a[0] == "bin" and a[1] == "*":
                for x, y in ((a[2], a[3]), (a[3], a[2])):
                    if _dim(y) in (IN, OUT):
                        return x, _dim(y), b
        return None

    def check_records(self):
        """the link a summed record is written to is the row/column summed"""
        P, V, R = self.P, self.V, self.R
        n = 0
        for k, rs in R.recs.items():
            F = P.funcs[k]
            for r in rs:
                idx = self.link_index(F, r.args, r.node)
                if idx is None:
                    continue
                arr, iv = idx
                num, s = R.numerator(r.amount)
                if num is None:
                    continue
                for (row, dim, col) in self.elements(F, num, r.node, set()):
                    n += 1
                    want = col if arr == OUT else row
                    if dim == OUT and want != iv and want[0] == "V" and iv[0] == "V":
                        R.viol.append(("sum:%s:%s" % (F.name, r.kind), F.loc(r.node),
                                       "%s: the record of one link sums the movements of others" % F.name))
        return n

    def check_sums(self):
        """a recorded total adds up every element: none is taken off, none
        replaces those already counted"""
        P, V, R = self.P, self.V, self.R
        n = 0
        for k, rs in R.recs.items():
            F = P.funcs[k]
            loops = natural_loops(F)
            w = F.where()
            for r in rs:
                num, s = R.numerator(r.amount)
                if num is None or num[0] != "V" or not isinstance(num[1], int) or r.node not in w:
                    continue
                v = num[1]
                for (dv, node, val, kind) in F.defs_of()[0]:
                    if dv != v or node not in w or val is None:
                        continue
                    pv = V.path(F, val)
                    if not any(True for _ in self.elements(F, pv, node, set())):
                        continue
                    n += 1
                    nd = F.nodes[node]
                    name = "%s:%s%s" % (F.name, r.kind, "_" + r.cls if r.cls else "")
                    raw = V.path(F, val, resolve=False)
                    if nd["k"] == "bin" and nd["op"] in ("-=", "*=", "/=") or \
                            raw[0] == "bin" and raw[1] == "-" and raw[2] == ("V", v):
                        R.viol.append(("total:" + name, F.loc(node),
                                       "%s: movements are taken off the recorded total" % F.name))
                    elif kind == "assign" and ("V", v) not in walk(raw) and \
                            any(w[node][0] in body and w[r.node][0] not in body for h, body in loops):
                        R.viol.append(("total:" + name, F.loc(node),
                                       "%s: only the last of the movements is kept in the recorded total" % F.name))
        return n

    def link_index(self, F, nid, at, d=0):
        nid = F.skip(nid)
        if nid is None or nid < 0 or d > 5:
            return None
        n = F.nodes[nid]
        if n["k"] == "var" and F.vkind[n["v"]] == "l":
            got = set()
            for (dn, val, kind) in F.reaching(n["v"], at if at in F.where() else nid):
                if val is not None:
                    x = self.link_index(F, val, dn, d + 1)
                    if x is None:
                        return None
                    got.add(x)
            return got.pop() if len(got) == 1 else None
        p = self.V.path(F, nid)
        if p[0] == "idx" and p[1] and p[1][0] == "mem" and p[1][2] in (IN, OUT):
            return p[1][2], p[2]
        return None

    def elements(self, F, p, at, seen):
        """matrix elements summed into p"""
        for x in walk(p):
            if isinstance(x, tuple) and len(x) == 3 and x[0] == "idx" and isinstance(x[2], tuple):
                s = self.split(x[2])
                if s:
                    yield s
            elif isinstance(x, tuple) and len(x) == 2 and x[0] == "V" and isinstance(x[1], int):
                v = x[1]
                for (dn, val, kind) in F.reaching(v, at):
                    if (v, dn) in seen:
                        continue
                    seen.add((v, dn))
                    if val is not None:
                        yield from self.elements(F, self.V.path(F, val), dn, seen)
                    if kind == "update":
                        yield from self.elements(F, x, dn, seen)


def check_tree_args(R):
    """a path/interval-resolved record names the path and the interval of one
    and the same agent, and the path of the mode it travels by"""
    P, V = R.P, R.V
    n = 0
    for k, rs in R.recs.items():
        for r in rs:
            if r.path is None:
                continue
            F = r.F
            n += 1
            a, b = r.path
            if a[0] == "mem" and b[0] == "mem":
                if a[1] != b[1]:
                    R.viol.append(("agent:%s:%s" % (F.name, r.kind), F.loc(r.node),
                                   "%s: path and departure interval of a record come from different agents" % F.name))
                pnr = _flag_at(F, V, r.node, "m_pnr")
                if pnr is True and a[2] == "m_transit_path" or pnr is False and a[2] == "m_pnr_path":
                    R.viol.append(("agent-path:%s:%s" % (F.name, r.kind), F.loc(r.node),
                                   "%s: the record names the path of another mode (%s)" % (F.name, a[2])))
    return n


def _flag_at(F, V, nid, flag):
    """value of a boolean member known from the tests that dominate nid"""
    w = F.where().get(nid)
    if w is None:
        return None
    b = w[0]
    idom = F.dominators()
    while b != F.entry and b in idom:
        d = idom[b]
        blk = F.blocks[d]
        if blk.tc is not None and blk.tc >= 0 and len(blk.succ) == 2:
            p = V.path(F, blk.tc)
            neg = False
            while p[0] == "un" and p[1] == "!":
                neg, p = not neg, p[2]
            if p[0] == "mem" and p[2] == flag:
                for i, s in enumerate(blk.succ):
                    if s >= 0 and F.dominates(s, w[0]) and len(F.blocks[s].pred) == 1:
                        return (i == 0) != neg
        b = d
    return None
