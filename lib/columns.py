"""Where the numbers of input files go: values of expressions as rational
functions of file columns and settings, followed through factories and
constructors into the members of the objects made.

A value is a set of alternatives; an alternative is the vector of its values at
a few fixed sample points (every column, setting and opaque quantity has a
fixed, distinct sample value), together with the quantities it depends on.  Two
expressions that agree at all points are taken for the same rational function
(exact arithmetic)."""
import hashlib
from fractions import Fraction
from itertools import product

K = 3
CAP = 40
LOOK = {"get_node", "get_link", "get_busstop", "get_origin", "get_destination", "get_transit_link"}
PARSE = {"stoi", "stod", "stof", "stol", "stold", "stoll", "atoi", "atof", "strtod"}
TEXT = {"trim", "basic_string"}
CONF = {"get_float", "get_int", "get_string", "get_int_or", "get_float_or"}
ROUND = {"floor", "ceil", "round", "round_down_time", "round_up_time", "abs", "fabs", "trunc", "lround"}
SAME = {"move", "forward", "operator()", "c_str", "str"}


def sample(atom):
    h = hashlib.sha256(repr(atom).encode()).digest()
    return tuple(Fraction(1009 + int.from_bytes(h[4 * i:4 * i + 3], "big") % 60000, 64 + h[20 + i])
                 for i in range(K))


def atom(*a):
    return (sample(a), frozenset([a]))


def const(x):
    f = Fraction(str(x)) if not isinstance(x, Fraction) else x
    return ((f,) * K, frozenset())


def arith(op, x, y):
    v = []
    for a, b in zip(x[0], y[0]):
        if op == "+":
            v.append(a + b)
        elif op == "-":
            v.append(a - b)
        elif op == "*":
            v.append(a * b)
        else:
            if b == 0:
                return atom("nan")
            v.append(a / b)
    return tuple(v), x[1] | y[1]


def same(x, y):
    return all(abs(a - b) <= Fraction(1, 10 ** 9) * max(abs(a), abs(b), Fraction(1, 10 ** 30))
               for a, b in zip(x[0], y[0]))


class Expr:
    """rational functions written in a table"""

    def __init__(self, v):
        self.v = v

    def _b(self, o, op, r=False):
        o = o.v if isinstance(o, Expr) else const(o)
        return Expr(arith(op, o, self.v) if r else arith(op, self.v, o))

    def __add__(self, o): return self._b(o, "+")
    def __radd__(self, o): return self._b(o, "+", True)
    def __sub__(self, o): return self._b(o, "-")
    def __rsub__(self, o): return self._b(o, "-", True)
    def __mul__(self, o): return self._b(o, "*")
    def __rmul__(self, o): return self._b(o, "*", True)
    def __truediv__(self, o): return self._b(o, "/")
    def __rtruediv__(self, o): return self._b(o, "/", True)


def fn(name, x):
    x = x.v if isinstance(x, Expr) else x
    return Expr((sample(("fn", name, x[0])), x[1] | {("fn", name)}))


def at(x, y):
    """what a map holds under a key"""
    return (sample(("at", x[0], y[0])), x[1] | y[1] | {("fn", "at")})


class Frame:
    """one function with its arguments known"""

    def __init__(self, E, F, env, fields, depth):
        self.E, self.P, self.F, self.env, self.depth = E, E.P, F, env, depth
        self.fields = fields        # of the object `this`: {name: set of alternatives}
        self.memo = {}
        self.over = {}
        self._feas = None

    # ------------------------------------------------------- feasibility
    def word(self, i):
        """the one name or text an expression stands for"""
        v = self.value(i)
        if len(v) != 1:
            return None
        x = next(iter(v))
        if len(x[1]) != 1:
            return None
        a = next(iter(x[1]))
        if x[0] != sample(a):
            return None
        if a in self.E.assume:
            a = ("str", self.E.assume[a])
        return a if a[0] in ("str", "enum") else None

    def truth(self, i):
        F = self.F
        n = F.nodes[i]
        k = n["k"]
        if k == "cast" or k in ("init", "ctor") and len(n.get("a", ())) == 1:
            return self.truth(n["e"] if k == "cast" else n["a"][0])
        if k == "un" and n["op"] == "!":
            t = self.truth(n["e"])
            return None if t is None else not t
        l = r = None
        if k == "bin" and n["op"] in ("==", "!="):
            op, l, r = n["op"], n["l"], n["r"]
        elif k == "bin" and n["op"] in ("&&", "||"):
            a, b = self.truth(n["l"]), self.truth(n["r"])
            stop = n["op"] == "||"
            if stop in (a, b):
                return stop
            return None if None in (a, b) else not stop
        elif k == "call" and n.get("f"):
            b = self.P.ext[n["f"]]["base"]
            x = ([n["o"]] if n.get("o", -1) >= 0 else []) + list(n["a"])
            if b in ("operator==", "operator!=") and len(x) == 2:
                op, (l, r) = b[8:], x
        if l is None:
            return None
        a, b = self.word(l), self.word(r)
        if a is None or b is None or a[0] != b[0]:
            return None
        return (a == b) == (op == "==")

    def feasible(self):
        """blocks that can run under what is assumed"""
        if self._feas is not None:
            return self._feas
        F = self.F
        self._feas = set(F.blocks)
        self.edges = None
        self.undecided = False
        edges = set()
        seen, work = set(), [F.entry]
        while work:
            b = work.pop()
            if b in seen or b < 0:
                continue
            seen.add(b)
            B = F.blocks[b]
            nxt = [s for s in B.succ if s >= 0]
            if B.tc is not None and B.tc >= 0 and B.tk == "SwitchStmt":
                w = self.word(B.tc)
                if w is None:
                    self.undecided = True
                else:
                    hit = [s for s in nxt if isinstance(F.blocks[s].case, int) and F.blocks[s].case >= 0
                           and self.word(F.blocks[s].case) == w]
                    nxt = hit or [s for s in nxt if not (isinstance(F.blocks[s].case, int) and
                                                         F.blocks[s].case >= 0)]
            elif B.tc is not None and B.tc >= 0 and len(B.succ) == 2 and B.tk != "CXXForRangeStmt":
                t = self.truth(B.tc)
                if t is not None:
                    nxt = [B.succ[0 if t else 1]]
            work += nxt
            edges |= {(b, s) for s in nxt}
        self._feas = seen
        if any((b, s) not in edges for b in seen for s in F.blocks[b].succ if s >= 0):
            self.edges = edges
        self.memo = {}
        return seen

    def reaching(self, v, at):
        """definitions that reach a use along edges that can be taken"""
        F = self.F
        w = F.where().get(at)
        if getattr(self, "edges", None) is None or w is None:
            return F.reaching(v, at)
        defs, gen, IN, byvar = F.defs_of()
        out, seen = set(), set()
        work = [(w[0], w[1])]
        while work:
            b, upto = work.pop()
            stop = False
            for i, x, d, strong in reversed([g for g in gen[b] if g[1] == v]):
                if upto is not None and i >= upto:
                    continue
                out.add(d)
                if strong:
                    stop = True
                    break
            if stop:
                continue
            if b == F.entry:
                out |= {d for d in byvar[v] if defs[d][3] == "param"}
            for p in F.blocks[b].pred:
                if (p, b) in self.edges and p not in seen:
                    seen.add(p)
                    work.append((p, None))
        return [defs[d][1:] for d in out]

    # ----------------------------------------------------------- clamps
    def clamped(self, target, new, e):
        """is the assignment of `new` to the target at e a bound: made under a
        comparison of the target that it turns into equality? +1 an upper
        bound, -1 a lower bound, 0 neither"""
        F = self.F
        w = F.where().get(e)
        if w is None:
            return 0
        b = w[0]
        dom = F.dominators()
        while b in dom and b != F.entry:
            p = dom[b]
            B = F.blocks[p]
            if len(B.succ) == 2 and B.tc is not None and B.tc >= 0 and B.tk not in ("SwitchStmt", "CXXForRangeStmt"):
                side = [j for j, s in enumerate(B.succ) if s >= 0 and F.dominates(s, w[0]) and
                        len(F.blocks[s].pred) == 1]
                if len(side) == 1:
                    r = self.bound(B.tc, side[0] == 0, target, new)
                    if r:
                        return r
            b = p
        return 0

    def bound(self, c, sense, target, new):
        F = self.F
        n = F.nodes[F.skip(c)]
        while n["k"] == "un" and n["op"] == "!":
            sense = not sense
            n = F.nodes[F.skip(n["e"])]
        if n["k"] != "bin" or n["op"] not in ("<", "<=", ">", ">="):
            return 0
        inl, inr = self.mentions(n["l"], target), self.mentions(n["r"], target)
        if inl == inr:
            return 0
        keep = self.memo, self.over
        self.memo, self.over = {}, {target: new}
        l, r = self.value(n["l"]), self.value(n["r"])
        self.memo, self.over = keep
        if not all(any(same(x, y) for y in r) for x in l):
            return 0
        up = (n["op"][0] == ">") == inl
        return 1 if up == sense else -1

    def mentions(self, i, target):
        F = self.F
        for y in F.walk(i):
            m = F.nodes[y]
            if target[0] == "v" and m["k"] == "var" and m["v"] == target[1]:
                return True
            if target[0] == "m" and m["k"] == "mem" and m["n"] == target[1] and \
                    F.nodes[F.skip(m["b"])]["k"] == "this":
                return True
        return False

    # ----------------------------------------------------------- values
    def value(self, i, seen=()):
        if i is None or i < 0:
            return frozenset([atom("?")])
        if i in self.memo and not seen:
            return self.memo[i]
        r = frozenset(list(self._value(i, seen))[:CAP])
        if not seen:
            self.memo[i] = r
        return r

    def _value(self, i, seen):
        F = self.F
        n = F.nodes[i]
        k = n["k"]
        V = lambda x: self.value(x, seen)
        if k == "cast":
            v = V(n["e"])
            if n.get("ck") == "FloatingToIntegral":
                return {x if x[1] & {("fn", f) for f in ROUND} or x[1] and all(a[0] == "cfg" for a in x[1]) and
                        len(x[1]) == 1 and x[0] == sample(next(iter(x[1]))) else
                        (sample(("fn", "trunc", x[0])), x[1] | {("fn", "trunc")}) if x[1] else x for x in v}
            return v
        if k in ("init", "ctor") and len(n["a"]) == 1:
            return V(n["a"][0])
        if k == "ctor" and n["a"] and n.get("f") and self.P.ext[n["f"]]["base"] in ("basic_string", "#ctor") and \
                F.nodes[F.skip(n["a"][0])]["k"] == "str":
            return V(n["a"][0])
        if k in ("int", "flt"):
            try:
                return {const(repr(float(n["val"])) if k == "flt" else int(n["val"]))}
            except (TypeError, ValueError):
                return {atom("n", F.key, i)}
        if k == "bool":
            return {const(int(float(n["val"])))}
        if k == "enum":
            return {atom("enum", n["n"].split("::")[-1])}
        if k == "str":
            return {atom("str", n["val"])}
        if k == "bin":
            if n["op"] in ("+", "-", "*", "/"):
                return {arith(n["op"], a, b) for a, b in product(V(n["l"]), V(n["r"]))}
            if n["op"] == "=":
                return V(n["r"])
            if n["op"] == ",":
                return V(n["r"])
            return {atom("n", F.key, i)}
        if k == "un":
            if n["op"] == "-":
                return {arith("-", const(0), a) for a in V(n["e"])}
            if n["op"] in ("+", "&", "*"):
                return V(n["e"])
            return {atom("n", F.key, i)}
        if k == "cond":
            t = self.truth(n["c"])
            if t is not None:
                return V(n["l"] if t else n["r"])
            return self.pick(V(n["l"]), V(n["r"]), n["c"], seen)
        if k == "var":
            return self.var(n["v"], i, seen)
        if k == "mem":
            return self.member(n, i, seen)
        if k == "call":
            return self.call(n, i, seen)
        if k == "idx":
            c = self.column(i)
            if c is not None:
                return {c}
        return {atom("n", F.key, i)}

    def pick(self, a, b, c, seen):
        """c ? a : b, where the smaller of a quantity and a fixed number is
        that quantity"""
        m = self.F.nodes[self.F.skip(c)]
        if m["k"] == "bin" and m["op"][0] in "<>":
            l, r = self.value(m["l"], seen), self.value(m["r"], seen)
            lo = (a == l and b == r and m["op"][0] == "<") or (a == r and b == l and m["op"][0] == ">")
            if lo:
                return self.least(a, b)
        return a | b

    @staticmethod
    def least(a, b):
        fixed = lambda v: all(not x[1] for x in v)
        if fixed(a) != fixed(b):
            return b if fixed(a) else a
        return a | b

    def var(self, v, i, seen):
        F = self.F
        if ("v", v) in self.over:
            return self.over[("v", v)]
        if (v, i) in seen or len(seen) > 24:
            return {atom("loop", F.key, v)}
        s = seen + ((v, i),)
        out = set()
        rs = self.reaching(v, i)
        if F.vkind[v] == "p" and not rs:
            return self.env.get(F.vpidx[v], {atom("p", F.key, v)})
        feas = self._feas
        for node, val, kind in rs:
            w = F.where().get(node) if kind != "param" else None
            if w is not None and feas is not None and w[0] not in feas:
                continue
            if kind == "param":
                out |= set(self.env.get(F.vpidx[v], {atom("p", F.key, v)}))
            elif kind in ("decl", "assign"):
                if val is None or val < 0:
                    continue
                new = self.value(val, s)
                if kind == "assign" and not self.over and not any(x[1] for x in new) and \
                        self.clamped(("v", v), new, node) == 1:
                    continue
                out |= set(new)
            elif kind == "update":
                m = F.nodes[node]
                if m["k"] == "bin" and m["op"] in ("+=", "-=", "*=", "/="):
                    out |= {arith(m["op"][0], a, b)
                            for a, b in product(self.var(v, node, s), self.value(m["r"], s))}
                else:
                    out.add(atom("v", F.key, v))
            elif kind == "escape":
                # filled by a call (a stream, getline): opaque
                if not F.vtype[v].replace("const ", "").rstrip(" &") in ("int", "double", "float", "long"):
                    out.add(atom("v", F.key, v))
        if not out and F.vkind[v] == "p":
            return self.env.get(F.vpidx[v], {atom("p", F.key, v)})
        return out or {atom("v", F.key, v)}

    def member(self, n, i, seen):
        F = self.F
        b = F.nodes[F.skip(n["b"])]
        if n["n"] == "second":
            v = self.value(n["b"], seen)
            if any(("fn", "at") in x[1] for x in v):
                return v
            return {atom("mem", n["r"], n["n"])}
        if n["n"] == "first":
            k = self.placed(n["b"])
            if k is not None:
                return {at(x, y) for x, y in product(self.value(k[0], seen), self.value(k[1], seen))}
            return {atom("mem", n["r"], n["n"])}
        if b["k"] == "this":
            if ("m", n["n"]) in self.over:
                return self.over[("m", n["n"])]
            t = self.E.spec(n["r"], n["n"], self.fields)
            if t is not None:
                return {t}
            if n["n"] in self.fields:
                return self.fields[n["n"]]
            return {atom("mem", n["n"])}
        return {atom("mem", n["r"], n["n"])}

    def placed(self, i):
        """the container and the key of what insert or emplace put there"""
        F, P = self.F, self.P
        n = F.nodes[F.skip(i)]
        while n["k"] in ("ctor", "init") and len(n["a"]) == 1:
            n = F.nodes[F.skip(n["a"][0])]
        if n["k"] == "var":
            rs = self.reaching(n["v"], i)
            if len(rs) == 1 and rs[0][2] in ("decl", "assign") and rs[0][1] is not None and rs[0][1] >= 0:
                return self.placed(rs[0][1])
        if n["k"] != "call" or not n.get("f") or n.get("o", -1) < 0 or not n["a"]:
            return None
        b = P.ext[n["f"]]["base"]
        if b in ("emplace", "try_emplace") and len(n["a"]) == 2:
            return n["o"], n["a"][0]
        if b == "insert" and len(n["a"]) == 1:
            j = F.skip(n["a"][0])
            m = F.nodes[j]
            while m["k"] in ("ctor", "init") and len(m["a"]) == 1:
                j = F.skip(m["a"][0])
                m = F.nodes[j]
            if m["k"] in ("ctor", "init") and len(m["a"]) == 2 or \
                    m["k"] == "call" and m.get("f") and P.ext[m["f"]]["base"] == "make_pair" and len(m["a"]) == 2:
                return n["o"], m["a"][0]
        return None

    def column(self, i):
        """words[k]"""
        F = self.F
        n = F.nodes[F.skip(i)]
        if n["k"] == "call" and n.get("f") and self.P.ext[n["f"]]["base"] in ("operator[]", "at") and \
                n.get("o", -1) >= 0 and len(n["a"]) == 1:
            o, x = n["o"], n["a"][0]
        else:
            return None
        if "string" not in F.nodes[F.skip(o)].get("t", ""):
            return None
        c = self.value(x)
        if len(c) == 1 and not next(iter(c))[1]:
            f = next(iter(c))[0][0]
            if f.denominator == 1:
                return atom("col", int(f))
        return None

    def call(self, n, i, seen):
        F, P = self.F, self.P
        b = P.ext[n["f"]]["base"] if n.get("f") else "?"
        V = lambda x: self.value(x, seen)
        if b in ("operator[]", "at"):
            c = self.column(i)
            if c is not None:
                return {c}
        if b in PARSE and n["a"]:
            v = V(n["a"][0])
            if b in ("stoi", "stol", "atoi", "stoll"):
                return {self.E.whole(x) for x in v}
            return v
        if b in TEXT and len(n["a"]) == 1:
            return V(n["a"][0])
        if b in SAME:
            return V(n["o"]) if n.get("o", -1) >= 0 else V(n["a"][0]) if n["a"] else {atom("?")}
        if b in CONF and n["a"]:
            for y in F.walk(n["a"][0]):
                if F.nodes[y]["k"] == "str":
                    return {atom("cfg", F.nodes[y]["val"])}
        if b in ("max", "min", "fmax", "fmin") and len(n["a"]) == 2:
            x, y = V(n["a"][0]), V(n["a"][1])
            return self.least(x, y) if "min" in b else x | y
        if b in ("find", "at", "operator[]") and n.get("o", -1) >= 0 and len(n["a"]) == 1:
            return {at(x, y) for x, y in product(V(n["o"]), V(n["a"][0]))}
        if b in ("operator->", "operator*") and n.get("o", -1) >= 0 and not n["a"]:
            return V(n["o"])
        if b in LOOK and n["a"]:
            return {(sample(("fn", b, x[0])), x[1] | {("fn", b)}) for x in V(n["a"][0])}
        if b in ROUND and n["a"]:
            return {(sample(("fn", b, x[0])), x[1] | {("fn", b)}) for x in V(n["a"][0])}
        if b.startswith("operator") and b[8:] in ("+", "-", "*", "/"):
            x = ([n["o"]] if n.get("o", -1) >= 0 else []) + list(n["a"])
            if len(x) == 2:
                return {arith(b[8:], p, q) for p, q in product(V(x[0]), V(x[1]))}
        # a helper of the repository that computes a number
        H = P.funcs.get(n.get("f"))
        if H is not None and H.blocks and self.depth < 6 and not seen[8:]:
            t = [P.funcs[t] for t in P.targets(F, i) if t in P.funcs] if not isinstance(H, str) else []
            if len(t) == 1 and t[0] is H and (P.ext[n["f"]].get("ret") or "").replace("const ", "").rstrip(" &") in \
                    ("int", "double", "float", "TFlt", "TInt", "std::string"):
                G = Frame(self.E, H, self.bind(H, n["a"], seen), self.fields if self.onthis(n) else {}, self.depth + 1)
                out = set()
                for _, e, m in H.all_elements():
                    if m["k"] == "ret" and m.get("e", -1) >= 0:
                        out |= set(G.value(m["e"]))
                if out:
                    return out
        return {atom("call", F.key, i)}

    def onthis(self, n):
        return n.get("o", -1) >= 0 and self.F.nodes[self.F.skip(n["o"])]["k"] == "this"

    def bind(self, H, args, seen=()):
        env = {}
        for j, p in enumerate(sorted(H.params, key=lambda p: H.vpidx[p])):
            if j < len(args):
                env[H.vpidx[p]] = self.value(args[j], seen)
        return env

    # ------------------------------------------------------------ effects
    def run(self):
        """stores into members, objects made and helpers called, in order"""
        F, P, E = self.F, self.P, self.E
        feas = self.feasible()
        for bid in F.order():
            if bid not in feas:
                continue
            B = F.blocks[bid]
            for e in B.els:
                n = F.nodes[e]
                k = n["k"]
                if k == "cinit":
                    if n.get("basec"):
                        m = F.nodes[n["e"]]
                        if m["k"] == "ctor" and m.get("f") in P.funcs:
                            H = P.funcs[m["f"]]
                            Frame(E, H, self.bind(H, m["a"]), self.fields, self.depth + 1).run()
                    elif n.get("e", -1) >= 0 and n.get("written"):
                        self.store(n["r"], n["n"], self.value(n["e"]), e, True)
                elif k == "bin" and n["op"] == "=" or k == "call" and n.get("f") and \
                        P.ext[n["f"]]["base"] == "operator=" and n.get("o", -1) >= 0 and n["a"]:
                    l, r = (n["l"], n["r"]) if k == "bin" else (n["o"], n["a"][0])
                    m = F.nodes[F.skip(l)]
                    if m["k"] == "mem":
                        own = F.nodes[F.skip(m["b"])]["k"] == "this"
                        self.memo = {}
                        self.store(m["r"], m["n"], self.value(r), e, own, m["b"])
                elif k == "bin" and n["op"] in ("+=", "-=", "*=", "/="):
                    m = F.nodes[F.skip(n["l"])]
                    if m["k"] == "mem":
                        own = F.nodes[F.skip(m["b"])]["k"] == "this"
                        self.store(m["r"], m["n"], {arith(n["op"][0], a, b) for a, b in product(
                            self.value(n["l"]), self.value(n["r"]))}, e, own, m["b"])
                elif k == "cast" and n.get("ck") == "LValueToRValue":
                    m = F.nodes[n["e"]]
                    if m["k"] == "mem" and F.nodes[F.skip(m["b"])]["k"] == "this" and \
                            E.spec(m["r"], m["n"], self.fields) == atom("unset", m["n"]):
                        E.unset(self, m, e)
                elif k == "new":
                    self.made(n, e)
                elif k == "call" and n.get("f"):
                    self.follow(n, e)

    def store(self, rec, name, val, e, own, base=-1):
        c = self.clamped(("m", name), frozenset(val), e) if own and base >= 0 else 0
        if own:
            self.memo = {}
            self.fields[name] = frozenset(self.fields.get(name, frozenset()) | frozenset(val))
        self.E.stored(self, rec, name, val, e, own, base, c)

    def made(self, n, e):
        F, P, E = self.F, self.P, self.E
        i = n.get("init", -1)
        if i < 0:
            return
        m = F.nodes[F.skip(i)]
        if m["k"] != "ctor" or m.get("f") not in P.funcs or self.depth > 6:
            return
        H = P.funcs[m["f"]]
        env = self.bind(H, m["a"])
        obj = E.begin(self, H, e)
        if obj is False:
            return
        Frame(E, H, env, obj, self.depth + 1).run()
        E.end(self, H, e, obj)

    def follow(self, n, e):
        F, P, E = self.F, self.P, self.E
        if self.depth > 6 or not E.enter(self, n, e):
            return
        for t in P.targets(F, e):
            H = P.funcs.get(t)
            if H is None or not H.blocks:
                continue
            own = self.onthis(n)
            obj = self.fields if own else E.open(self, H, n, e)
            if obj is None:
                continue
            Frame(E, H, self.bind(H, n["a"]), obj, self.depth + 1).run()
            self.memo = {}
            if not own:
                E.close(self, H, n, e, obj)
