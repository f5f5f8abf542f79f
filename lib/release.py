"""How many objects a function creates, how often, and what is set on them.

A unit is a group of creations that share their innermost loop (or, outside
loops, their function).  Units are lifted through helper functions and lambdas
by substitution of arguments, so that the loop, the count and the attributes of
a created object may sit in different functions."""
from . import poly
from .common import is_assign, natural_loops
from .guards import Guards, XPath
from .vpath import subst, walk

ROUND = {"round", "floor", "trunc", "lround", "ceil", "roundf", "llround"}


class Unit:
    def __init__(self, F, node):
        self.F = F              # function the unit is placed in
        self.node = node        # node in F that performs it (creation, call)
        self.block = F.where()[node][0] if node in F.where() else None
        self.count = None       # polynomial: objects created each time
        self.bad = []           # (text)
        self.lo = self.hi = 1
        self.attrs = {}         # kind -> [(path, must)]
        self.args = []          # paths of the arguments of the creations
        self.site = None        # (function, node) of the first creation
        self.home = None        # (function, unit) judged there
        self.args_ok = True     # called with this function's own intervals

    def copy(self, F, node):
        u = Unit(F, node)
        u.count, u.bad, u.lo, u.hi = self.count, list(self.bad), self.lo, self.hi
        u.attrs = {k: list(v) for k, v in self.attrs.items()}
        u.args = list(self.args)
        u.site = self.site
        return u


class Release:
    def __init__(self, P, make, attr):
        """make(F, n): is node n a creation; attr(F, n): (kind, value node) of
        a node that sets an attribute, or None"""
        self.P = P
        self.V = XPath(P)
        self.G = Guards(P, self.V)
        self.make = make
        self.attr = attr
        self._units = {}
        self._loops = {}
        self.empty = set()
        self.undecided = []

    # -------------------------------------------------------------- values
    def resolve(self, F, p, at, seen=()):
        """replace locals by the one definition that reaches `at`"""
        if not isinstance(p, tuple) or not p:
            return p
        if p[0] == "V" and len(p) == 2:
            v = p[1]
            if v in seen or F.vkind[v] != "l":
                return p
            rs = F.reaching(v, at)
            if len(rs) == 1 and rs[0][2] in ("decl", "assign") and rs[0][1] is not None:
                return self.resolve(F, self.V.path(F, rs[0][1]), rs[0][0], seen + (v,))
            return p
        return tuple(self.resolve(F, x, at, seen) if isinstance(x, tuple) else x for x in p)

    def value(self, F, nid, at=None):
        return self.resolve(F, self.V.path(F, nid), nid if at is None else at)

    # --------------------------------------------------------------- loops
    def loops(self, F):
        if F.key not in self._loops:
            self._loops[F.key] = sorted(natural_loops(F), key=lambda x: len(x[1])) if F.blocks else []
        return self._loops[F.key]

    def innermost(self, F, b):
        for h, body in self.loops(F):
            if b in body:
                return h, body
        return None

    def trips(self, F, h, body):
        """number of iterations of a counted loop as a polynomial; ('step', text)
        when it does not step by one; None when the form is not understood"""
        blk = F.blocks[h]
        if blk.tc is None or blk.tc < 0 or len(blk.succ) != 2 or blk.tk == "CXXForRangeStmt":
            return None
        ins = [x in body for x in blk.succ]
        if ins[0] == ins[1]:
            return None
        c = self.G.last(F, blk.tc, blk)
        fs = self.G.cond(F, c, ins[0])
        if len(fs) != 1:
            return None
        op, a, b = fs[0]
        for lo, hi in ((a, b), (b, a)):
            for x, other, up in ((lo, hi, True), (hi, lo, False)):
                post = 0
                v = x
                if v[0] == "un" and v[1] in ("post--", "--", "post++", "++"):
                    post = 1 if v[1] == "post--" else 0
                    if v[1] in ("--", "post++", "++"):
                        continue
                    v = v[2]
                if v[0] not in ("V", "P") or (lo, hi) != (a, b) and op not in ("!=",):
                    continue
                vi = v[1] if v[0] == "V" else [q for q in F.params if F.vpidx[q] == v[1]][0]
                defs = [d for d in F.defs_of()[0] if d[0] == vi and d[3] != "escape"]
                inb = [d for d in defs if d[1] in F.where() and F.where()[d[1]][0] in body]
                if len(inb) != 1 or inb[0][3] != "update":
                    if len(inb) == 1 and inb[0][3] == "assign":
                        q = self.V.path(F, inb[0][2], resolve=False)
                        d = poly.add(poly.of(q), poly.of(("V", vi)), -1)
                        if set(d) <= {()}:
                            st = d.get((), 0)
                        else:
                            continue
                    else:
                        continue
                else:
                    st = self.step(F, inb[0])
                if st is None:
                    continue
                w = F.where()[inb[0][1]][0]
                if not all(F.dominates(w, t) for t in body if h in F.blocks[t].succ):
                    continue
                out = [d for d in F.reaching(vi, c) if not (d[0] in F.where() and F.where()[d[0]][0] in body)]
                if len(out) != 1:
                    continue
                if out[0][2] == "param":
                    start = ("P", F.vpidx[vi])
                elif out[0][1] is None:
                    continue
                else:
                    start = self.value(F, out[0][1], out[0][0])
                bound = self.resolve(F, other, c)
                if st not in (1, -1):
                    return ("step", "the counter changes by %s in each iteration" % st)
                if up and st == 1 and op in ("<", "<=", "!="):
                    n = poly.add(poly.of(bound), poly.of(start), -1)
                    return poly.add(n, poly.const(1)) if op == "<=" else n
                if not up and st == -1 and op in ("<", "<="):
                    n = poly.add(poly.of(start), poly.of(bound), -1)
                    return poly.add(n, poly.const(1)) if op == "<=" else n
                if st == -1 and op == "!=":
                    return poly.add(poly.of(start), poly.of(bound), -1)
        return None

    @staticmethod
    def step(F, d):
        n = F.nodes[d[1]]
        if n["k"] == "un":
            return 1 if "++" in n["op"] else -1
        if n["k"] == "bin" and n["op"] in ("+=", "-="):
            x = F.nodes[F.skip(n["r"])]
            if x["k"] in ("int", "flt"):
                return float(x["val"]) * (1 if n["op"] == "+=" else -1)
        if n["k"] == "call":
            return 1 if "++" in (n.get("f") or "") else -1 if "--" in (n.get("f") or "") else None
        return None

    def traversal(self, F, h, body):
        """(iterator variable, container path) of a loop from begin() to end()"""
        blk = F.blocks[h]
        if blk.tc is None or blk.tc < 0 or len(blk.succ) != 2:
            return None
        its = {y[1] for x in F.walk(blk.tc) for y in [self.V.path(F, x)] if y[0] == "V"}
        for v in sorted(its):
            ini = [d for d in F.defs_of()[0] if d[0] == v and d[3] in ("decl", "assign") and d[2] is not None
                   and not (d[1] in F.where() and F.where()[d[1]][0] in body)]
            if not any(d[0] == v and d[3] in ("update", "assign") and d[1] in F.where()
                       and F.where()[d[1]][0] in body for d in F.defs_of()[0]):
                continue
            # the one that reaches the loop
            rs = {d[0] for d in F.reaching(v, self.G.last(F, blk.tc, blk))}
            ini = [d for d in ini if d[1] in rs]
            if len(ini) != 1:
                continue
            p = self.value(F, ini[0][2], ini[0][1])
            if p[0] == "call" and p[1] in ("begin", "cbegin", "end", "cend"):
                c = p[2] if p[2] is not None else p[3] if len(p) > 3 else None
                if c is not None:
                    if "end" in p[1]:
                        self.empty.add((F.key, h))
                    return v, c
        return None

    def partial(self, F, h, body, v):
        """why a traversal may not visit every element, or None"""
        blk = F.blocks[h]
        if (F.key, h) in self.empty:
            return "it starts at the end of the table"
        n = F.nodes[F.skip(blk.tc)]
        flip = False
        while n["k"] == "un" and n["op"] == "!":
            n = F.nodes[F.skip(n["e"])]
            flip = not flip
        op = n["op"] if n["k"] == "bin" else \
            self.P.ext[n["f"]]["base"].replace("operator", "") if n["k"] == "call" and n.get("f") else ""
        if flip:
            op = {"==": "!=", "!=": "=="}.get(op, op)
        if op in ("==", "!=") and len(blk.succ) == 2:
            into = [s in body for s in blk.succ]
            if into == ([True, False] if op == "==" else [False, True]):
                return "it goes on only at the end of the table"
        ups = [d for d in F.defs_of()[0] if d[0] == v and d[3] in ("update", "assign") and d[1] in F.where()
               and F.where()[d[1]][0] in body]
        if len(ups) > 1:
            return "its iterator is changed in %d places" % len(ups)
        if self.leaves(F, h, body) is not None:
            return "it can be left early at %s" % F.loc(self.leaves(F, h, body))
        return None

    def leaves(self, F, h, body):
        """a node where the loop is left other than through its header"""
        for b in sorted(body):
            if b == h or F.aborts(b):
                continue
            for s in F.blocks[b].succ:
                if s >= 0 and s not in body and self.alive(F, s):
                    return F.blocks[b].els[-1] if F.blocks[b].els else F.blocks[b].tc
        return None

    @staticmethod
    def alive(F, b):
        """can the function return normally from block b"""
        st, seen = [b], set()
        while st:
            x = st.pop()
            if x == F.exit:
                return True
            if x in seen or F.aborts(x):
                continue
            seen.add(x)
            st.extend(s for s in F.blocks[x].succ if s >= 0)
        return False

    # ---------------------------------------------------------------- units
    def callee(self, F, i):
        """the repository function a call runs, with calls on this resolved in
        the class of F"""
        n = F.nodes[i]
        f = n.get("f")
        if n["k"] != "call" or f not in self.P.ext:
            return None
        ts = self.P.targets(F, i)
        if len(ts) > 1:
            if n.get("o", -1) < 0 or self.V.path(F, n["o"]) != ("T",) or not F.rec:
                return None
            base = self.P.ext[f]["base"]
            for r in self.P.bases(F.rec):
                for t in ts:
                    if t in self.P.funcs and self.P.funcs[t].rec == r and self.P.ext[t]["base"] == base:
                        return self.P.funcs[t]
            return None
        return self.P.funcs.get(next(iter(ts)))

    def inst(self, F, i, H, p):
        n = F.nodes[i]
        if H.islambda:
            q = subst(p, [self.value(F, x, i) for x in n["a"]], ("T",))
            return self.resolve(F, self.G.capture(F, ("==", q, ("c", "0")))[1]
                                if not isinstance(q, tuple) or q != ("c", "0") else q, i) \
                if any(isinstance(x, tuple) and x and x[0] == "C" for x in walk(q)) else q
        o = self.value(F, n["o"], i) if n.get("o", -1) >= 0 else None
        return subst(p, [self.value(F, x, i) for x in n["a"]], o)

    def instp(self, F, i, H, pl):
        out = {}
        for m, c in pl.items():
            t = poly.const(c)
            for x in m:
                t = poly.mul(t, poly.of(self.inst(F, i, H, x)))
            out = poly.add(out, t)
        return out

    def units(self, F, depth=0):
        if F.key in self._units:
            return self._units[F.key]
        self._units[F.key] = []
        ev, sets, done = [], [], []       # creations, attributes, finished units
        live = set(F.order())
        for i, n in enumerate(F.nodes):
            if i not in F.where() or F.where()[i][0] not in live:
                continue
            if n["k"] in ("call", "new") and self.make(F, n):
                u = Unit(F, i)
                u.site = (F, i)
                u.args = [[self.value(F, x, i) for x in n.get("a", [])]]
                ev.append(u)
                continue
            a = self.attr(F, n)
            if a:
                sets.append((i, a[0], self.value(F, a[1], i), True))
                continue
            if n["k"] != "call" or depth > 5:
                continue
            H = self.callee(F, i)
            if H is None or H is F or not H.blocks:
                continue
            for w in self.units(H, depth + 1):
                u = w.copy(F, i)
                if w.count is not None and any(isinstance(z, tuple) and z and z[0] == "V"
                                               for m in w.count for y in m for z in walk(y)):
                    # complete in the function called, for its own arguments
                    u.home = (H, w) if w.home is None else w.home
                    u.args_ok = w.args_ok and self.inst(F, i, H, ("P", 0)) == ("P", 0) and \
                        self.inst(F, i, H, ("P", 2)) == ("P", 2)
                    done.append(u)
                    continue
                u.count = None if w.count is None else self.instp(F, i, H, w.count)
                u.attrs = {k: [(self.inst(F, i, H, p), m) for p, m in v] for k, v in w.attrs.items()}
                u.args = [[self.inst(F, i, H, p) for p in a] for a in w.args]
                u.site = w.site
                u.from_ = H
                (ev if w.count is None else done).append(u)
            for k, p, m in self.setters(H, depth + 1):
                sets.append((i, k, self.inst(F, i, H, p), m))
        out = []
        groups = {}
        for u in ev:
            l = self.innermost(F, u.block)
            groups.setdefault(l[0] if l else None, []).append((u, l))
        for h, us in groups.items():
            l = us[0][1]
            g = Unit(F, us[0][0].node)
            g.site = us[0][0].site
            g.args = [a for u, _ in us for a in u.args]
            g.bad = [b for u, _ in us for b in u.bad]
            region = l[1] if l else set(F.blocks)
            for u, _ in us:
                for k, v in u.attrs.items():
                    g.attrs.setdefault(k, []).extend(v)
            for k in {s[1] for s in sets}:
                at = [(i, p, m) for (i, kk, p, m) in sets if kk == k and F.where()[i][0] in region]
                if at:
                    must = not self.avoid(F, l, {F.where()[i][0] for i, p, m in at if m})
                    g.attrs.setdefault(k, []).extend((p, must) for i, p, m in at)
            g.lo, g.hi = self.weigh(F, l, us)
            if l:
                c = self.trips(F, l[0], l[1])
                g.node = us[0][0].node
                g.block = l[0]
                g.body = l[1]
                if c is None:
                    g.count = None
                    self.undecided.append((F, us[0][0].node, "loop of a form that is not understood"))
                    continue
                if isinstance(c, tuple):
                    g.bad.append(c[1])
                    g.count = {}
                else:
                    g.count = c
                    x = self.leaves(F, l[0], l[1])
                    if x is not None:
                        g.bad.append("the loop can be left early at %s" % F.loc(x))
            out.append(g)
        out += done
        self._units[F.key] = out
        return out

    def units_of(self, F, i):
        """does the call at node i create objects"""
        H = self.callee(F, i)
        return bool(H is not None and H is not F and H.blocks and self.units(H, 1))

    def setters(self, H, depth):
        """attributes a helper sets without creating"""
        if self.units(H, depth) or depth > 5:
            return []
        out = []
        for i, n in enumerate(H.nodes):
            if i in H.where():
                a = self.attr(H, n)
                if a:
                    must = not self.avoid(H, None, {H.where()[i][0]})
                    out.append((a[0], self.value(H, a[1], i), must))
        return out

    def avoid(self, F, loop, blocks, skip=None):
        """can one iteration (or the function) be run without any of blocks"""
        if loop:
            h, body = loop
            st = [s for s in F.blocks[h].succ if s in body]
            goal, region = h, body
        else:
            st, goal, region = [F.entry], F.exit, set(F.blocks)
        seen = set()
        while st:
            b = st.pop()
            if b == goal:
                return True
            if b in seen or b in blocks or b not in region or F.aborts(b):
                continue
            seen.add(b)
            for k, s in enumerate(F.blocks[b].succ):
                if s >= 0 and not (skip and skip(b, k)):
                    st.append(s)
        return False

    def weigh(self, F, loop, us):
        """least and greatest number of creations along one iteration"""
        w = {}
        for u, _ in us:
            a, b = w.get(u.block, (0, 0))
            w[u.block] = (a + u.lo, b + u.hi)
        if loop:
            h, body = loop
            starts = [s for s in F.blocks[h].succ if s in body]
            goal = h
        else:
            starts, goal, body = [F.entry], F.exit, set(F.blocks)
        memo, busy = {}, set()

        def go(b):
            if b == goal:
                return (0, 0)
            if b not in body or F.aborts(b):
                return None
            if b in memo:
                return memo[b]
            if b in busy:
                return None
            busy.add(b)
            r = None
            for s in F.blocks[b].succ:
                if s < 0:
                    continue
                x = go(s)
                if x is not None:
                    r = x if r is None else (min(r[0], x[0]), max(r[1], x[1]))
            busy.discard(b)
            if r is not None:
                a = w.get(b, (0, 0))
                r = (r[0] + a[0], r[1] + a[1])
            memo[b] = r
            return r
        rs = [x for x in (go(s) for s in starts) if x is not None]
        if not rs:
            return (1, 1)
        return (min(x[0] for x in rs), max(x[1] for x in rs))
