"""Conditions that hold at a program point on every path to it.

A fact is (op, a, b) over canonical value expressions (lib/vpath), with op one
of <, <=, ==, !=, true, false.  Facts come from the branches that lead to the
point and from the checks that functions called on the way make before they
return (a function that returns only when a condition holds establishes it for
its caller)."""
from .common import natural_loops
from .vpath import VPath, subst, walk

CMP = {"<": ("<", 0), ">": ("<", 1), "<=": ("<=", 0), ">=": ("<=", 1), "==": ("==", 0), "!=": ("!=", 0)}
NEG = {"<": ("<=", 1), "<=": ("<", 1), "==": ("!=", 0), "!=": ("==", 0), "true": ("false", 0), "false": ("true", 0)}
MUTATORS = {"push_back", "pop_back", "push_front", "pop_front", "insert", "erase", "clear", "resize",
            "emplace", "emplace_back", "assign", "swap", "operator=", "operator+=", "operator-=",
            "operator++", "operator--"}


class XPath(VPath):
    """VPath that also sees through small functions with one return"""

    def __init__(self, P):
        super().__init__(P)
        self._ret = {}

    def returns(self, key):
        """canonical value of the single return statement of a function, over
        its parameters and receiver; None when there is none"""
        if key in self._ret:
            return self._ret[key]
        self._ret[key] = None
        G = self.P.funcs.get(key)
        if G is None or not G.blocks or G.kind == "ctor":
            return None
        rs = [n for _, e, n in G.all_elements() if n["k"] == "ret"]
        if len(rs) != 1 or rs[0].get("e", -1) < 0:
            return None
        p = self.path(G, rs[0]["e"])
        for x in walk(p):
            if isinstance(x, tuple) and x and x[0] in ("V", "n", "deep", "?", "C"):
                return None
        self._ret[key] = p
        return p

    def path(self, F, nid, d=0, resolve=True):
        nid = F.skip(nid)
        if nid is not None and nid >= 0:
            n = F.nodes[nid]
            if n["k"] == "var" and F.islambda and F.vowner[n["v"]] != F.key:
                return ("C", F.vowner[n["v"]], F.vname[n["v"]])
            if n["k"] == "call" and n.get("f") in self.P.funcs and d < 28 and \
                    len(self.P.targets(F, nid)) == 1:
                G = self.P.funcs[n["f"]]
                if len(G.nodes) < 200 and not G.islambda:
                    r = self.returns(n["f"])
                    if r is not None:
                        a = tuple(self.path(F, x, d + 1, resolve) for x in n["a"])
                        o = self.path(F, n["o"], d + 1, resolve) if n.get("o", -1) >= 0 else None
                        return subst(r, a, o)
            if n["k"] == "call" and n.get("f") and d < 28:
                b = self.P.ext[n["f"]]["base"]
                if b in ("any_of", "none_of", "find_if", "count_if") and len(n["a"]) == 3:
                    y = self.equals(F, n["a"][2], d, resolve)
                    if y is not None:
                        p = super().path(F, nid, d, resolve)
                        if b in ("find_if", "count_if"):
                            return ("call", b[:-3]) + p[2:5] + (y,)
                        return p[:5] + (("is", y),)
        return super().path(F, nid, d, resolve)

    def equals(self, F, nid, d, resolve):
        """the value Y of a predicate [..] (x) { return x == Y; }"""
        nid = F.skip(nid)
        for _ in range(4):
            n = F.nodes[nid]
            if n["k"] == "var" and self.single(F, n["v"]) is not None:
                nid = F.skip(self.single(F, n["v"]))
            elif n["k"] == "ctor" and n.get("copy") and n["a"]:
                nid = F.skip(n["a"][0])
            else:
                break
        G = self.P.funcs.get(F.nodes[nid].get("f")) if F.nodes[nid]["k"] == "lambda" else None
        if G is None:
            return None
        rs = [n for _, e, n in G.all_elements() if n["k"] == "ret"]
        if len(rs) != 1 or rs[0].get("e", -1) < 0:
            return None
        p = self.path(G, rs[0]["e"])
        if p[:2] not in (("bin", "=="), ("call", "operator==")):
            return None
        z = [w for w in p[2:] if w is not None]
        if len(z) != 2 or ("P", 0) not in z:
            return None
        y = z[1] if z[0] == ("P", 0) else z[0]
        if y[:1] == ("C",):
            for v, nm in enumerate(F.vname):
                if nm == y[2] and F.vowner[v] == y[1] == F.key:
                    s = self.single(F, v)
                    if s is not None and resolve:
                        return self.path(F, s, d + 1, resolve)
                    return ("P", F.vpidx[v]) if F.vkind[v] == "p" else ("V", v)
        if any(isinstance(x, tuple) and x and x[0] in ("P", "V", "C", "n", "deep", "?") for x in walk(y)):
            return None
        return y


def put(p, a, b):
    if p == a:
        return b
    if not isinstance(p, tuple):
        return p
    return tuple(put(x, a, b) for x in p)


def mentions(fact, pred):
    return any(isinstance(x, tuple) and pred(x) for y in fact[1:] for x in walk(y))


def make(op, a, b):
    if op in CMP:
        op, sw = CMP[op]
        if sw:
            a, b = b, a
    if op in ("==", "!=") and repr(b) < repr(a):
        a, b = b, a
    return (op, a, b)


def negate(f):
    op, sw = NEG[f[0]]
    a, b = (f[2], f[1]) if sw else (f[1], f[2])
    return make(op, a, b)


class Guards:
    def __init__(self, P, V=None):
        self.P = P
        self.V = V or XPath(P)
        self._in = {}
        self._post = {}
        self._pred = {}
        self._loops = {}
        self._part = {}
        self._flags = {}
        self._busy = set()

    # --------------------------------------------------------- conditions
    def cond(self, F, nid, sense, d=0):
        nid = F.skip(nid)
        if nid is None or nid < 0 or d > 12:
            return []
        n = F.nodes[nid]
        k = n["k"]
        if k == "un" and n["op"] == "!":
            return self.cond(F, n["e"], not sense, d + 1)
        if k == "bin" and n["op"] in ("&&", "||"):
            if (n["op"] == "&&") == sense:
                return self.cond(F, n["l"], sense, d + 1) + self.cond(F, n["r"], sense, d + 1)
            return []
        l = r = op = None
        if k == "bin" and n["op"] in CMP:
            op, l, r = n["op"], n["l"], n["r"]
        elif k == "call" and n.get("f"):
            b = self.P.ext[n["f"]]["base"]
            if b.startswith("operator") and b[8:] in CMP:
                x = ([n["o"]] if n.get("o", -1) >= 0 else []) + list(n["a"])
                if len(x) == 2:
                    op, (l, r) = b[8:], x
        if op:
            a, b = self.V.path(F, l), self.V.path(F, r)
            if op in ("==", "!="):
                for x, y in ((a, b), (b, a)):
                    if y == ("c", "0") and x[:2] in (("bin", "-"), ("call", "operator-")):
                        z = [w for w in x[2:] if w is not None]
                        if len(z) == 2:
                            a, b = z
            f = make(op, a, b)
            return [f if sense else negate(f)]
        if k == "var" and F.vkind[n["v"]] == "l":
            s = self.V.single(F, n["v"])
            if s is not None:
                return self.cond(F, s, sense, d + 1)
        if k == "call" and n.get("f") in self.P.funcs and len(self.P.targets(F, nid)) == 1:
            out = self.predicate(n["f"], sense)
            if out:
                a = [self.V.path(F, x) for x in n["a"]]
                o = self.V.path(F, n["o"]) if n.get("o", -1) >= 0 else None
                return [self.inst(f, a, o) for f in out]
        p = self.V.path(F, nid)
        if p[:2] in (("call", "any_of"), ("call", "none_of")) and len(p) == 6 and \
                isinstance(p[5], tuple) and p[5][:1] == ("is",):
            found = sense == (p[1] == "any_of")
            return [make("!=" if found else "==", ("call", "find") + p[2:5] + (p[5][1],), p[4])]
        return [("true" if sense else "false", p, ("c", "0"))]

    def predicate(self, key, sense):
        """facts that follow from a boolean function returning `sense`"""
        G = self.P.funcs[key]
        if not G.blocks or key in self._busy or len(self._busy) > 6:
            return []
        if (key, sense) in self._pred:
            return self._pred[(key, sense)]
        self._pred[(key, sense)] = []
        out = None
        self._busy.add(key)
        for _, e, n in G.all_elements():
            if n["k"] != "ret":
                continue
            if n.get("e", -1) < 0:
                out = set()
                break
            x = G.skip(n["e"])
            if G.nodes[x]["k"] in ("bool", "int"):
                if bool(int(G.nodes[x]["val"])) != sense:
                    continue
                fs = set(self.at(G, e))
            elif G.nodes[x]["k"] == "var" and G.nodes[x]["v"] in self.flags(G):
                fs = self.at_flag(G, e, G.nodes[x]["v"], sense)
                if fs is None:
                    continue
            else:
                fs = set(self.at(G, e)) | set(self.cond(G, x, sense))
            out = fs if out is None else out & fs
        self._busy.discard(key)
        self._pred[(key, sense)] = sorted((f for f in out or () if self.closed(f)), key=repr)
        return self._pred[(key, sense)]

    @staticmethod
    def closed(f):
        return not mentions(f, lambda x: x and x[0] in ("V", "n", "deep", "?"))

    def inst(self, f, a, o):
        return make(f[0], subst(f[1], a, o), subst(f[2], a, o))

    def last(self, F, nid, blk=None):
        """the operand a branch block evaluates last"""
        while True:
            s = F.skip(nid)
            if s is None or s < 0:
                return nid
            n = F.nodes[s]
            if n["k"] == "bin" and n["op"] in ("&&", "||"):
                if blk is not None and s in blk.els:
                    return s            # the value of the whole condition is tested here
                nid = n["r"]
            else:
                return s

    # ------------------------------------------------------------ data flow
    def step(self, F, e, s):
        """facts after element e"""
        n = F.nodes[e]
        k = n["k"]
        kill = []
        if k == "decl":
            for v, init, st in n["d"]:
                kill.append(("V", v))
        elif k == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            kill.append(self.place(F, n["l"]))
        elif k == "un" and n["op"] in ("++", "--", "post++", "post--"):
            kill.append(self.place(F, n["e"]))
        elif k == "call" and n.get("f"):
            b = self.P.ext[n["f"]]["base"]
            if b in MUTATORS and n.get("o", -1) >= 0:
                kill.append(self.place(F, n["o"]))
            for a in n["a"]:
                an = F.nodes[a] if a >= 0 else None
                if an is None:
                    continue
                if an["k"] == "un" and an["op"] == "&":
                    kill.append(self.place(F, an["e"]))
                elif an["k"] == "var" and F.vkind[an["v"]] == "l" and \
                        not self.P.param_readonly(n["f"], n["a"].index(a)):
                    kill.append(("V", an["v"]))
        for x in kill:
            if x is None:
                continue
            if x[0] == "V":
                s = frozenset(f for f in s if not mentions(f, lambda y: y == x))
            else:
                s = frozenset(f for f in s if not mentions(f, lambda y: len(y) == 3 and y[0] == "mem" and y[2] == x[1]))
        if k == "call" and n.get("f") in self.P.funcs:
            post = self.post(n["f"]) if len(self.P.targets(F, e)) == 1 else ()
            if post:
                G = self.P.funcs[n["f"]]
                a = [self.V.path(F, x) for x in n["a"]]
                o = self.V.path(F, n["o"]) if n.get("o", -1) >= 0 else None
                add = [self.inst(f, a, o) for f in post]
                if G.islambda:
                    add = [self.capture(F, f) for f in add]
                s = s | frozenset(add)
        return s

    def capture(self, F, f):
        """captured variables of a lambda, seen from the function around it"""
        def tr(p):
            if not isinstance(p, tuple) or not p:
                return p
            if p[0] == "C" and len(p) == 3:
                if p[1] != F.key:
                    return p
                for v, nm in enumerate(F.vname):
                    if nm == p[2] and F.vowner[v] == F.key:
                        sgl = self.V.single(F, v)
                        if sgl is not None:
                            return self.V.path(F, sgl)
                        return ("P", F.vpidx[v]) if F.vkind[v] == "p" else ("V", v)
                return p
            return tuple(tr(x) for x in p)
        return make(f[0], tr(f[1]), tr(f[2]))

    def place(self, F, nid):
        nid = F.skip(nid)
        d = 0
        while nid is not None and nid >= 0 and d < 8:
            d += 1
            n = F.nodes[nid]
            if n["k"] == "var":
                return ("V", n["v"])
            if n["k"] == "mem":
                return ("mem", n["n"])
            if n["k"] == "idx":
                return None
            if n["k"] == "un" and n["op"] in ("*", "&"):
                nid = F.skip(n["e"])
                continue
            return None
        return None

    def post(self, key):
        """facts that hold whenever the function returns"""
        if key in self._post:
            return self._post[key]
        self._post[key] = ()
        G = self.P.funcs.get(key)
        if G is None or not G.blocks or len(self._busy) > 6 or key in self._busy:
            return ()
        if not any(n["k"] == "throw" for n in G.nodes) and not any(
                n["k"] == "call" and n.get("f") in self.P.funcs for n in G.nodes):
            return ()
        self._busy.add(key)
        IN = self.entry(G)
        self._busy.discard(key)
        s = IN.get(G.exit)
        out = tuple(sorted((f for f in (s or ()) if self.closed(f)), key=repr))
        self._post[key] = out
        return out

    def counted(self, F):
        """loops over one counter: (header, body, variable, node of its
        increment, bound, does the first branch of the header stay inside)"""
        if F.key in self._loops:
            return self._loops[F.key]
        out = []
        for h, body in natural_loops(F):
            blk = F.blocks[h]
            if blk.tc is None or blk.tc < 0 or len(blk.succ) != 2:
                continue
            ins = [x in body for x in blk.succ]
            if ins[0] == ins[1]:
                continue
            for f in self.cond(F, self.last(F, blk.tc, blk), ins[0]):
                if f[0] == "<" and f[1][0] == "V":
                    v, U = f[1][1], f[2]
                elif f[0] == "!=" and f[1][0] == "V":
                    v, U = f[1][1], f[2]
                elif f[0] == "!=" and f[2][0] == "V":
                    v, U = f[2][1], f[1]
                else:
                    continue
                if U[:2] in (("call", "end"), ("call", "cend")) and len(U) > 2:
                    inc = self.visits(F, body, v, U[2])
                    if inc is not None and all(F.dominates(F.where()[inc][0], b) for b in body
                                               if h in F.blocks[b].succ):
                        out.append((h, body, v, inc, ("call", "end", U[2])))
                    continue
                ups = [(n, kind) for (dv, n, val, kind) in F.defs_of()[0] if dv == v and kind != "escape"
                       and n in F.where() and F.where()[n][0] in body]
                ini = [val for (dv, n, val, kind) in F.defs_of()[0] if dv == v and kind in ("decl", "assign")
                       and val is not None and n in F.where() and F.where()[n][0] not in body]
                if len(ups) != 1 or ups[0][1] != "update" or len(ini) != 1 or \
                        self.V.path(F, ini[0]) != ("c", "0"):
                    continue
                w = F.where()[ups[0][0]][0]
                if all(F.dominates(w, b) for b in body if h in F.blocks[b].succ):
                    out.append((h, body, v, ups[0][0], U))
        self._loops[F.key] = out
        return out

    def visits(self, F, body, v, C):
        """the only step of iterator v in a loop that visits every element of C"""
        ini, incs = [], []
        for (dv, n, val, kind) in F.defs_of()[0]:
            if dv != v:
                continue
            if kind in ("decl", "assign") and val is not None:
                ini.append(self.V.path(F, val))
            elif kind == "decl":
                continue
            elif n in F.where() and F.where()[n][0] in body and self.increments(F, n, v):
                incs.append(n)
            else:
                return None
        for _, e, n in F.all_elements():
            if e not in incs and F.where()[e][0] in body and self.increments(F, e, v):
                incs.append(e)
        if len(incs) == 1 and len(set(ini)) == 1 and ini[0][:2] in (("call", "begin"), ("call", "cbegin")) and \
                len(ini[0]) > 2 and ini[0][2] == C:
            return incs[0]
        return None

    def increments(self, F, e, v):
        n = F.nodes[e]
        if n["k"] == "un" and "++" in n["op"]:
            return F.local_of(F.skip(n["e"])) == v
        if n["k"] == "call" and n.get("f") and self.P.ext[n["f"]]["base"] == "operator++":
            x = n["o"] if n.get("o", -1) >= 0 else (n["a"][0] if n["a"] else -1)
            return x >= 0 and F.local_of(F.skip(x)) == v
        return False

    # ------------------------------------------------------------ flags
    def flags(self, F):
        """local variables that only say yes or no: every definition gives a
        constant, a condition, or combines the variable with a condition, and
        some branch (or return) tests the variable.  var -> {node: what}"""
        if F.key in self._flags:
            return self._flags[F.key]
        self._flags[F.key] = {}
        tested = set()
        for b in F.blocks.values():
            if b.tc is not None and b.tc >= 0 and len(b.succ) == 2 and b.tk not in ("SwitchStmt", "CXXForRangeStmt"):
                v = self.tested(F, self.last(F, b.tc, b))
                if v:
                    tested.add(v[0])
        for _, e, n in F.all_elements():
            if n["k"] == "ret" and n.get("e", -1) >= 0 and F.nodes[F.skip(n["e"])]["k"] == "var":
                tested.add(F.nodes[F.skip(n["e"])]["v"])
        out = {}
        for v in sorted(tested):
            if F.vkind[v] != "l" or F.vowner[v] != F.key:
                continue
            what = {}
            for (dv, n, val, kind) in F.defs_of()[0]:
                if dv != v:
                    continue
                w = None
                if kind in ("decl", "assign") and val is not None and n in F.where():
                    w = self.verdict(F, v, val)
                elif kind == "update" and n in F.where() and F.nodes[n]["k"] == "bin" and \
                        F.nodes[n]["op"] in ("&=", "|="):
                    w = (F.nodes[n]["op"][0] * 2, F.nodes[n]["r"])
                if w is None:
                    what = None
                    break
                what[n] = w
            if what and len(what) > 1 and len(out) < 3:
                out[v] = what
        self._flags[F.key] = out
        return out

    def verdict(self, F, v, val):
        x = F.skip(val)
        n = F.nodes[x]
        k = n["k"]
        if k in ("bool", "int"):
            return ("const", bool(int(n["val"])))
        if k in ("null", "zero"):
            return ("const", False)
        if k == "str":
            return ("const", True)
        if k == "bin" and n["op"] in ("&&", "||"):
            l = F.nodes[F.skip(n["l"])]
            if l["k"] == "var" and l["v"] == v:
                return (n["op"], n["r"])
        if F.vtype[v].replace("const ", "") == "bool" and not any(
                F.nodes[y]["k"] == "var" and F.nodes[y]["v"] == v for y in F.walk(x)):
            return ("cond", x)
        return None

    def tested(self, F, nid):
        """(variable, value it has when the condition is true)"""
        nid = F.skip(nid)
        sense = True
        for _ in range(6):
            if nid is None or nid < 0:
                return None
            n = F.nodes[nid]
            if n["k"] == "un" and n["op"] == "!":
                sense = not sense
                nid = F.skip(n["e"])
                continue
            if n["k"] == "bin" and n["op"] in ("==", "!="):
                a, b = F.skip(n["l"]), F.skip(n["r"])
                if F.nodes[a]["k"] != "var":
                    a, b = b, a
                m = F.nodes[b]
                if m["k"] in ("null", "zero") or (m["k"] in ("int", "bool") and int(m["val"]) == 0):
                    sense = sense != (n["op"] == "==")
                    nid = a
                    continue
                if m["k"] == "bool" and int(m["val"]) == 1:
                    sense = sense != (n["op"] == "!=")
                    nid = a
                    continue
                return None
            if n["k"] == "var":
                return n["v"], sense
            return None
        return None

    def advance(self, F, e, st):
        """partitioned facts after element e: {values of the flags: facts}"""
        fl = self.flags(F)
        hit = [v for v in fl if e in fl[v]]
        if not hit:
            return {k: self.step(F, e, s) for k, s in st.items()}
        out = {}

        def put_in(k, s):
            out[k] = s if k not in out else out[k] & s
        for k, s in st.items():
            after = self.step(F, e, s)
            for v in hit:
                what, arg = fl[v][e]
                old = dict(k).get(v)
                pos = neg = True
                if what == "const":
                    pos, neg, arg = arg, not arg, None
                elif what == "&&" and old is False:
                    pos, arg = False, None
                elif what == "||" and old is True:
                    neg, arg = False, None
                rest = tuple(x for x in k if x[0] != v)
                mine = lambda fs: frozenset(f for f in fs if not mentions(f, lambda y: y == ("V", v)))
                if pos:
                    add = self.cond(F, arg, True) if arg is not None and not (what == "||" and old is not False) else ()
                    put_in(tuple(sorted(rest + ((v, True),))), after | mine(add))
                if neg:
                    add = self.cond(F, arg, False) if arg is not None and not (what == "&&" and old is not True) else ()
                    put_in(tuple(sorted(rest + ((v, False),))), after | mine(add))
                break
        return out

    @staticmethod
    def merge(st):
        s = None
        for x in (st or {}).values():
            s = x if s is None else s & x
        return s if s is not None else frozenset()

    def at_flag(self, F, nid, v, sense):
        w = F.where().get(nid)
        if w is None:
            return set()
        self.entry(F)
        st = self._part[F.key].get(w[0], {})
        for e in F.blocks[w[0]].els[:w[1]]:
            st = self.advance(F, e, st)
        s = None
        for k, x in st.items():
            if dict(k).get(v, sense) == sense:
                s = x if s is None else s & x
        return None if s is None else set(s)

    def entry(self, F):
        if F.key in self._in:
            return self._in[F.key]
        extra = {}

        def keep(part):
            self._part[F.key] = part
            self._in[F.key] = {b: self.merge(st) for b, st in part.items()}
        keep(self.solve(F, extra))
        for _ in range(2):
            new = {}
            for (h, body, v, inc, U) in self.counted(F):
                a = ("V", v)
                w = F.where()[inc]
                st = self._part[F.key].get(w[0], {})
                for e in F.blocks[w[0]].els[:w[1]]:
                    st = self.advance(F, e, st)
                groups = {(): self.merge(st)}
                for k, x in st.items():
                    # the value was the same in all iterations when the loop
                    # only ever changes it to the other one
                    if k and all(all(n not in F.where() or F.where()[n][0] not in body or
                                     what == ("const", not val) or
                                     what[0] == ("&&" if val else "||")
                                     for n, what in self.flags(F)[fv].items()) for fv, val in k):
                        groups[k] = x
                for k, facts in groups.items():
                    fs = set()
                    for f in facts:
                        if not mentions(f, lambda x: x == a):
                            continue
                        g = make(f[0], put(f[1], a, ("A", U)), put(f[2], a, ("A", U)))
                        if not mentions(g, lambda x: x and x[0] == "V" and len(x) == 2 and x[1] != v
                                        and self.changes(F, x[1], body)):
                            fs.add(g)
                    # facts about all elements that an inner loop established
                    if fs:
                        new.setdefault(h, (body, {}))[1][k] = frozenset(fs)
            if new == extra:
                break
            extra = new
            keep(self.solve(F, extra))
        return self._in[F.key]

    def changes(self, F, v, body):
        return any(dv == v and n in F.where() and F.where()[n][0] in body
                   for (dv, n, val, kind) in F.defs_of()[0])

    def solve(self, F, extra):
        fl = self.flags(F)
        IN = {F.entry: {(): frozenset()}}
        # must-analysis: start from the top element (absent) and intersect
        work = [F.entry]
        it = 0
        while work:
            it += 1
            if it > 60 * (len(F.blocks) + 5):
                break
            b = work.pop(0)
            blk = F.blocks[b]
            st = IN[b]
            for e in blk.els:
                st = self.advance(F, e, st) if fl else {k: self.step(F, e, s) for k, s in st.items()}
            thrown = F.aborts(b)
            for i, t in enumerate(blk.succ):
                if t < 0 or (thrown and t == F.exit):
                    continue
                o = st
                if blk.tc is not None and blk.tc >= 0 and len(blk.succ) == 2 and blk.tk != "SwitchStmt" \
                        and blk.tk != "CXXForRangeStmt":
                    c = self.last(F, blk.tc, blk)
                    add = frozenset(self.cond(F, c, i == 0))
                    q = self.tested(F, c) if fl else None
                    if q and q[0] in fl:
                        want = q[1] == (i == 0)
                        o = {k: s | add for k, s in st.items() if dict(k).get(q[0], want) == want}
                        if not o:
                            continue
                    else:
                        o = {k: s | add for k, s in st.items()}
                if b in extra and t not in extra[b][0]:
                    ex = extra[b][1]
                    o = {k: s | ex.get((), frozenset()) | ex.get(k, frozenset()) for k, s in o.items()}
                if t not in IN:
                    IN[t] = dict(o)
                    work.append(t)
                else:
                    ch = False
                    for k, s in o.items():
                        if k not in IN[t]:
                            IN[t][k] = s
                            ch = True
                        else:
                            m = IN[t][k] & s
                            if m != IN[t][k]:
                                IN[t][k] = m
                                ch = True
                    if ch:
                        work.append(t)
        return IN

    def at(self, F, nid):
        """facts that hold just before node nid is evaluated"""
        w = F.where().get(nid)
        if w is None:
            return frozenset()
        s = self.entry(F).get(w[0], frozenset())
        for e in F.blocks[w[0]].els[:w[1]]:
            s = self.step(F, e, s)
        return s
