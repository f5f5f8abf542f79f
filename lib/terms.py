"""Values of expressions as small sets of terms, by reaching definitions, for
code over a graph and tables indexed by node or link (see checks/c19.py).

A term is a nested tuple; a value that can be one of several gives several
terms.  A graph object and its ID are the same term:

  ("elem", v, C)        element of the container C the iterator v runs over
  ("tail", l), ("head", l)   end nodes of a link
  ("conn", n, dir), ("nodes",), ("links",)   containers of the graph
  ("ld", M, k[, pos])   entry of a table
  ("find", M, k), ("end", M)
  ("sum", ((atom, coefficient), ...))
"""
import re
from itertools import product

from .common import natural_loops
from .guards import Guards

REF = re.compile(r"&\s*$")
CAP = 24


def tsum(parts):
    acc, c = {}, 0.0
    for coef, t in parts:
        if t[0] == "c":
            c += coef * t[1]
        elif t[0] == "sum":
            for a, k in t[1]:
                if a is None:
                    c += coef * k
                else:
                    acc[a] = acc.get(a, 0) + coef * k
        else:
            acc[t] = acc.get(t, 0) + coef
    acc = {a: k for a, k in acc.items() if k}
    if not acc:
        return ("c", c)
    if len(acc) == 1 and not c and list(acc.values()) == [1]:
        return next(iter(acc))
    items = sorted(acc.items(), key=lambda x: repr(x[0]))
    if c:
        items.append((None, c))
    return ("sum", tuple(items))


def mentions(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(mentions(y, x) for y in t)


class Terms:
    def __init__(self, P, N):
        self.P, self.N = P, N
        self.G = Guards(P)
        self.loops = sorted(natural_loops(N), key=lambda x: len(x[1]))
        self._e = {}
        # blocks that can be reached when one edge is taken away
        self._edge = {}

    # ------------------------------------------------------------ values
    def alts(self, nid, at=None, seen=()):
        N = self.N
        if nid is None or nid < 0:
            return {("undef",)}
        n = N.nodes[nid]
        k = n["k"]
        A = lambda x: self.alts(x, nid if at is None else at, seen)
        here = nid if at is None else at
        if k == "cast":
            if n.get("ck") == "FloatingToIntegral":
                return {("trunc", t) for t in self.alts(n["e"], here, seen)}
            return self.alts(n["e"], here, seen)
        if k in ("init", "ctor") and len(n["a"]) == 1:
            return A(n["a"][0])
        if k in ("init", "ctor") and len(n["a"]) == 2:
            return {("pair", a, b) for a, b in product(A(n["a"][0]), A(n["a"][1]))}
        if k == "ctor":
            return {("obj", nid)}
        if k == "new":
            if n.get("init", -1) >= 0:
                return {("new",) + (t if t[0] == "pair" else (t,)) for t in A(n["init"])}
            return {("new", nid)}
        if k in ("int", "flt", "bool"):
            try:
                return {("c", float(n["val"]))}
            except (TypeError, ValueError):
                return {("n", nid)}
        if k == "null":
            return {("c", 0.0)}
        if k == "enum":
            return {("enum", n["n"].split("::")[-1])}
        if k == "this":
            return {("T",)}
        if k == "un":
            if n["op"] == "*":
                return self.deref(n["e"], here, seen)
            if n["op"] in ("&", "+"):
                return A(n["e"])
            if n["op"] == "-":
                return {tsum([(-1, t)]) for t in A(n["e"])}
            return {("un", n["op"], t) for t in A(n["e"])}
        if k == "bin":
            if n["op"] in ("+", "-"):
                s = 1 if n["op"] == "+" else -1
                return set(list({tsum([(1, a), (s, b)]) for a, b in product(A(n["l"]), A(n["r"]))})[:CAP])
            if n["op"] == "=":
                return A(n["r"])
            if n["op"] == ",":
                return A(n["r"])
            return {("bin", n["op"], a, b) for a, b in product(A(n["l"]), A(n["r"]))}
        if k == "cond":
            return A(n["l"]) | A(n["r"])
        if k == "idx":
            return {self.index(b, i) for b, i in product(A(n["b"]), A(n["i"]))}
        if k == "mem":
            return {self.member(b, n["n"]) for b in A(n["b"])}
        if k == "var":
            return self.var(n["v"], here, seen)
        if k == "call":
            return self.call(nid, n, here, seen)
        return {("n", nid)}

    @staticmethod
    def index(b, i):
        if b[0] == "ld" and len(b) == 3:
            return b + (i,)
        return ("idx", b, i)

    @staticmethod
    def member(b, name):
        if b[0] == "ends" and name in ("first", "second"):
            l = b[1]
            if name == "first":
                if l[0] == "elem" and l[2][0] == "conn" and l[2][2] == ("enum", "Outgoing"):
                    return l[2][1]
                return ("tail", l)
            if l[0] == "elem" and l[2][0] == "conn" and l[2][2] == ("enum", "Incoming"):
                return l[2][1]
            return ("head", l)
        if b[0] == "find" and name == "second":
            return ("ld", b[1], b[2])
        if b[0] == "find" and name == "first":
            return b[2]
        if b[0] == "pair" and name in ("first", "second"):
            return b[1 if name == "first" else 2]
        return ("mem", b, name)

    def deref(self, e, at, seen):
        """what an iterator (or pointer) refers to"""
        N = self.N
        i = N.skip(e)
        n = N.nodes[i]
        if n["k"] == "var" and N.vkind[n["v"]] == "l":
            v = n["v"]
            ds = [d for d in N.defs_of()[0] if d[0] == v]
            if self.steps(v):
                for d in ds:
                    if d[3] in ("decl", "assign") and d[2] is not None:
                        c = self.container(d[2], d[1], seen)
                        if c is not None:
                            return {("elem", v, c)}
        return self.alts(e, at, seen)

    def steps(self, v):
        """nodes that move iterator v on"""
        if not hasattr(self, "_steps"):
            self._steps = {}
            N = self.N
            for d in N.defs_of()[0]:
                if d[3] == "update":
                    self._steps.setdefault(d[0], set()).add(d[1])
            for b, e, n in N.all_elements():
                if n["k"] == "call" and n.get("f") and n.get("o", -1) >= 0 and \
                        self.P.ext[n["f"]]["base"] == "operator++":
                    m = N.nodes[N.skip(n["o"])]
                    if m["k"] == "var":
                        self._steps.setdefault(m["v"], set()).add(e)
        return self._steps.get(v, ())

    def container(self, val, at, seen):
        N = self.N
        i = N.skip(val)
        n = N.nodes[i]
        if n["k"] == "call" and n.get("f") and self.P.ext[n["f"]]["base"] in ("begin", "cbegin"):
            o = n["o"] if n.get("o", -1) >= 0 else n["a"][0] if n["a"] else -1
            ts = self.alts(o, at, seen)
            if len(ts) == 1:
                return next(iter(ts))
        return None

    def var(self, v, at, seen):
        N = self.N
        t = N.vtype[v]
        ds = [d for d in N.defs_of()[0] if d[0] == v]
        if N.vkind[v] == "p":
            if all(d[3] in ("param", "escape") for d in ds) or REF.search(t):
                return {("P", N.vpidx[v])}
        elif N.vkind[v] != "l":
            return {("G", N.vname[v])}
        if REF.search(t):
            ini = [d for d in ds if d[3] == "decl" and d[2] is not None]
            if len(ini) == 1 and v not in seen:
                return self.alts(ini[0][2], ini[0][1], seen + (v,))
            return {("V", v)}
        rs = [r for r in N.reaching(v, at) if r[2] != "escape"]
        one = [r for r in rs if r[2] in ("decl", "assign") and r[1] is not None]
        if len(rs) == 1 and len(one) == 1 and (v, one[0][0]) not in seen:
            val = N.nodes[N.skip(one[0][1])]
            if one[0][2] == "decl" and self.isobject(t) and val["k"] in ("ctor", "init"):
                return {("V", v)}
            if self.isobject(t):
                return {("V", v)}
            return self.alts(one[0][1], one[0][0], seen + ((v, one[0][0]),))
        if not re.search(r"\b(double|float)\b", t) or "*" in t or "<" in t:
            # pointers with several definitions are opaque too
            return {("V", v)}
        out = set()
        for node, val, kind in rs:
            if (v, node) in seen:
                return {("V", v)}
            s = seen + ((v, node),)
            if kind in ("decl", "assign"):
                out |= self.alts(val, node, s) if val is not None else {("undef",)}
            elif kind == "update":
                m = N.nodes[node]
                if m["k"] == "bin" and m["op"] in ("+=", "-="):
                    sg = 1 if m["op"] == "+=" else -1
                    out |= {tsum([(1, a), (sg, b)]) for a, b in
                            product(self.var(v, node, s), self.alts(m["r"], node, s))}
                else:
                    return {("V", v)}
            else:
                out |= {("P", N.vpidx[v])}
            if len(out) > CAP:
                return {("V", v)}
        return out or {("V", v)}

    @staticmethod
    def isobject(t):
        return "<" in t and "*" not in t.split(">")[-1] and not re.search(r"iterator|_Node", t)

    def call(self, nid, n, at, seen):
        A = lambda x: self.alts(x, at, seen)
        b = self.P.ext[n["f"]]["base"] if n.get("f") else "?"
        a = n["a"]
        o = n.get("o", -1)
        rec = (self.P.ext[n["f"]].get("rec") or "") if n.get("f") else ""
        if "Graph" in rec:
            if b in ("get_id", "get_node", "get_link") and len(a) == 1:
                return A(a[0])
            if b == "get_endpoints" and len(a) == 1:
                return {("ends", t) for t in A(a[0])}
            if b == "connections" and a:
                d = A(a[1]) if len(a) > 1 else {("enum", "?")}
                return {("conn", x, y) for x, y in product(A(a[0]), d)}
            if b in ("nodes", "links") and not a:
                return {(b,)}
        if b in ("operator*",) and o >= 0 and not a:
            return self.deref(o, at, seen)
        if b in ("operator->", "get", "operator()") and o >= 0 and not a:
            return A(o)
        if b in ("operator[]", "at") and o >= 0 and len(a) == 1:
            return {("ld", m, x) for m, x in product(A(o), A(a[0]))}
        if b == "find" and o >= 0 and len(a) == 1:
            return {("find", m, x) for m, x in product(A(o), A(a[0]))}
        if b in ("end", "cend") and o >= 0:
            return {("end", m) for m in A(o)}
        if b in ("count", "contains") and o >= 0 and len(a) == 1:
            return {("count", m, x) for m, x in product(A(o), A(a[0]))}
        if b in ("size", "empty") and o >= 0:
            return {(b, m) for m in A(o)}
        if b == "infinity" or b.startswith(("__builtin_inf", "__builtin_huge_val")):
            return {("inf",)}
        if b == "isinf" or b.startswith("__builtin_isinf"):
            return {("isinf", x) for x in A(a[0])}
        if b == "round_time" and len(a) >= 2:
            return {("arr", x, y) for x, y in product(A(a[0]), A(a[1]))}
        if b == "min" and len(a) == 2:
            return A(a[0]) | A(a[1])
        if b in ("move", "forward", "cref", "ref") and len(a) == 1:
            return A(a[0])
        if b in ("make_pair",) and len(a) == 2:
            return {("pair", x, y) for x, y in product(A(a[0]), A(a[1]))}
        if b in ("ceil", "round_up_time") and a:
            return {(b, x) for x in A(a[0])}
        return {("call", b, nid)}

    # ------------------------------------------------------------- facts
    def facts(self, c, sense, d=0):
        """[(op, alternatives, alternatives)] that hold when condition node c
        has the given truth value"""
        N = self.N
        if c is None or c < 0 or d > 12:
            return []
        n = N.nodes[c]
        k = n["k"]
        if k == "cast":
            return self.facts(n["e"], sense, d + 1)
        if k == "un" and n["op"] == "!":
            return self.facts(n["e"], not sense, d + 1)
        if k == "bin" and n["op"] in ("&&", "||"):
            if (n["op"] == "&&") == sense:
                return self.facts(n["l"], sense, d + 1) + self.facts(n["r"], sense, d + 1)
            return []
        if k == "var" and N.vkind[n["v"]] == "l" and N.vtype[n["v"]].replace("const ", "") in ("bool", "_Bool"):
            rs = N.reaching(n["v"], c)
            if len(rs) == 1 and rs[0][1] is not None and rs[0][2] in ("decl", "assign"):
                return self.facts(rs[0][1], sense, d + 1)
            return []
        op = l = r = None
        if k == "bin" and n["op"] in ("<", ">", "<=", ">=", "==", "!="):
            op, l, r = n["op"], n["l"], n["r"]
        elif k == "call" and n.get("f"):
            b = self.P.ext[n["f"]]["base"]
            x = ([n["o"]] if n.get("o", -1) >= 0 else []) + list(n["a"])
            if b in ("operator==", "operator!=", "operator<", "operator>") and len(x) == 2:
                op, (l, r) = b[8:], x
        if op is None:
            return [("true" if sense else "false", self.alts(c), set())]
        L, R = self.alts(l, c), self.alts(r, c)
        if not sense:
            op = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}[op]
        if op in ("==", "!=") and d < 12:
            for a, b in ((l, r), (r, l)):
                m = N.nodes[N.skip(b)]
                t = N.nodes[N.skip(a)].get("t", "")
                if m["k"] == "bool" or t.replace("const ", "").rstrip(" &") in ("bool", "_Bool") and m["k"] == "int":
                    one = float(m["val"]) != 0
                    return self.facts(a, (op == "==") == one, d + 1)
        if op in (">", ">="):
            op, L, R = {">": "<", ">=": "<="}[op], R, L
        return [(op, L, R)]

    def last(self, b):
        """the condition a block's branch tests: the right operand of a
        short-circuit whose left one was tested before"""
        B = self.N.blocks[b]
        return self.G.last(self.N, B.tc, B) if B.tc is not None and B.tc >= 0 else None

    def edges(self):
        """[(block, successor, facts)] of all conditional branches"""
        if not hasattr(self, "_edges"):
            self._edges = []
            N = self.N
            for b in N.order():
                B = N.blocks[b]
                if B.tc is None or B.tc < 0 or len(B.succ) != 2 or B.succ[0] == B.succ[1]:
                    continue
                c = self.last(b)
                for i, s in enumerate(B.succ):
                    if s >= 0:
                        self._edges.append((b, s, self.facts(c, i == 0)))
        return self._edges

    def without(self, edge, start=None):
        """blocks reached from start (entry) without the edge"""
        N = self.N
        start = N.entry if start is None else start
        key = (edge, start)
        if key not in self._edge:
            seen, st = {start}, [start]
            while st:
                x = st.pop()
                for s in N.blocks[x].succ:
                    if s >= 0 and (x, s) != edge and s not in seen:
                        seen.add(s)
                        st.append(s)
            self._edge[key] = seen
        return self._edge[key]

    def before(self, h):
        """blocks reached from the entry without going through h"""
        N = self.N
        seen, st = {N.entry}, [N.entry]
        while st:
            x = st.pop()
            if x == h:
                continue
            for s in N.blocks[x].succ:
                if s >= 0 and s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen - {h}

    def guards(self, b, start=None):
        """edges every path from start (entry) to block b takes"""
        return [(x, s, f) for x, s, f in self.edges() if b not in self.without((x, s), start)]

    def holds(self, b, start=None):
        return [f for _, _, fs in self.guards(b, start) for f in fs]

    def passes(self, start, goals, through, skip=()):
        """does every path from block start to a goal block go through one of
        the blocks in `through` (start counts); edges in skip end a path"""
        N = self.N
        if start in through:
            return True
        seen, st = {start}, [start]
        while st:
            x = st.pop()
            if N.aborts(x):
                continue
            for s in N.blocks[x].succ:
                if s < 0 or (x, s) in skip or s in seen:
                    continue
                if s in through:
                    continue
                if s in goals:
                    return False
                seen.add(s)
                st.append(s)
        return True

    def block(self, nid):
        w = self.N.where().get(nid)
        return w[0] if w else None

    def loop_of(self, b):
        for h, body in self.loops:
            if b in body:
                return h, body
        return None

    def chain(self, b):
        """loops around b, innermost first"""
        return [(h, body) for h, body in self.loops if b in body]

    def early(self, h, body):
        """a block where the loop is left other than through its header"""
        N = self.N
        for b in sorted(body):
            if b == h or N.aborts(b):
                continue
            for s in N.blocks[b].succ:
                if s >= 0 and s not in body and not N.aborts(s):
                    return b
        return None

    def traverses(self, h, body):
        """the container term a loop runs over from begin to end, with the
        iterator, or None"""
        N = self.N
        c = self.last(h)
        if c is None:
            return None
        for x in N.walk(c):
            n = N.nodes[x]
            if n["k"] != "var" or N.vkind[n["v"]] != "l":
                continue
            v = n["v"]
            ds = [d for d in N.defs_of()[0] if d[0] == v]
            ups = [e for e in self.steps(v) if self.block(e) in body]
            if len(ups) != 1 or any(d[3] == "assign" and self.block(d[1]) in body for d in ds):
                continue
            for d in ds:
                if d[3] in ("decl", "assign") and d[2] is not None and self.block(d[1]) not in body:
                    cont = self.container(d[2], d[1], ())
                    if cont is not None:
                        return v, cont
        return None
