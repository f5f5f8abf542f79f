"""Vehicle-class discipline: which class (car / truck) a quantity belongs to.

The class of a value is read from the declarations it is computed from (members,
functions, parameters whose name carries the class) and from the class tests
under which it is counted up; names of locals play no part."""
import re
from collections import defaultdict

from .common import is_assign

TOK = {"car": "car", "cars": "car", "truck": "truck", "trucks": "truck"}
SKIP = ("pnr", "carpool", "cartruck", "parked")


def token(name):
    """car / truck / None"""
    if not name:
        return None
    low = name.lower()
    parts = [p for p in re.split(r"[_\W]+", low) if p]
    if any(s in low for s in SKIP):
        return None
    t = {TOK[p] for p in parts if p in TOK}
    return t.pop() if len(t) == 1 else None


class Classes:
    """value-flow of a naming dimension given by token function `tok`"""

    def __init__(self, P, tok=token, tests=True):
        self.P = P
        self.tok = tok
        self.tests = tests
        self._facts = {}
        self._single = {}
        self._cs = None

    # ------------------------------------------------------ class test facts
    def test(self, F, nid, d=0):
        """(class, sense) if the expression is a class test: sense True means
        that the test holds iff the vehicle is of that class"""
        P = self.P
        nid = F.skip(nid)
        if nid is None or nid < 0 or d > 6:
            return None
        n = F.nodes[nid]
        k = n["k"]
        if k == "un" and n["op"] == "!":
            t = self.test(F, n["e"], d + 1)
            return (t[0], not t[1]) if t else None
        if k == "var" and F.vkind[n["v"]] == "l":
            vals = self.onedef(F, n["v"])
            return self.test(F, vals, d + 1) if vals is not None else None
        l = r = op = None
        if k == "bin" and n["op"] in ("==", "!="):
            l, r, op = n["l"], n["r"], n["op"]
        elif k == "call" and n.get("f") and P.ext[n["f"]]["base"] in ("operator==", "operator!="):
            op = P.ext[n["f"]]["base"][-2:]
            x = ([n["o"]] if n.get("o", -1) >= 0 else []) + list(n["a"])
            if len(x) != 2:
                return None
            l, r = x
        else:
            return None
        for a, b in ((l, r), (r, l)):
            if self.isclass(F, a):
                c = self.const(F, b)
                if c in (0, 1):
                    return ("car" if c == 0 else "truck", op == "==")
        return None

    def onedef(self, F, v):
        key = (F.key, v)
        if key not in self._single:
            ds = [x for x in F.defs_of()[0] if x[0] == v]
            vals = [x for x in ds if x[2] is not None]
            self._single[key] = vals[0][2] if len(vals) == 1 and len(ds) == 1 and \
                vals[0][3] in ("decl", "assign") else None
        return self._single[key]

    def isclass(self, F, nid, d=0):
        nid = F.skip(nid)
        if nid is None or nid < 0 or d > 5:
            return False
        n = F.nodes[nid]
        if n["k"] == "mem":
            return n["n"] == "m_class"
        if n["k"] == "call" and n.get("f"):
            b = self.P.ext[n["f"]]["base"]
            if b == "get_class":
                return True
            if b in ("operator int", "operator()") and n.get("o", -1) >= 0:
                return self.isclass(F, n["o"], d + 1)
            return False
        if n["k"] == "ctor" and len(n["a"]) == 1:
            return self.isclass(F, n["a"][0], d + 1)
        if n["k"] == "var" and F.vkind[n["v"]] == "p":
            return bool(re.search(r"class|cls", F.vname[n["v"]].lower())) and \
                re.sub(r"[^A-Za-z]|const", "", F.vtype[n["v"]]) in ("TInt", "int", "TIntconst")
        if n["k"] == "var" and F.vkind[n["v"]] == "l":
            o = self.onedef(F, n["v"])
            return o is not None and self.isclass(F, o, d + 1)
        return False

    def const(self, F, nid, d=0):
        nid = F.skip(nid)
        if nid is None or nid < 0 or d > 4:
            return None
        n = F.nodes[nid]
        if n["k"] == "int":
            return int(n["val"])
        if n["k"] in ("ctor", "init") and len(n["a"]) == 1:
            return self.const(F, n["a"][0], d + 1)
        return None

    def facts(self, F):
        """block -> 'car'/'truck' known on every path to it"""
        if F.key in self._facts:
            return self._facts[F.key]
        # forward must-analysis over {car, truck} possibilities
        ALL = frozenset(("car", "truck"))
        tests = {}
        for b in F.blocks.values():
            if b.tc is not None and b.tc >= 0 and len(b.succ) == 2 and b.tk != "SwitchStmt":
                t = self.test(F, b.tc)
                if t:
                    tests[b.id] = t
        switches = {}
        for b in F.blocks.values():
            if b.tk == "SwitchStmt" and b.tc is not None and b.tc >= 0 and self.isclass(F, b.tc):
                switches[b.id] = True
        out = {}
        if tests or switches:
            # possible classes at block entry; None = not visited. A class
            # fact dies where the vehicle changes: approximated by the loop
            # head (the fact must hold on all entering edges)
            IN = {F.entry: ALL}
            work = [F.entry]
            while work:
                b = work.pop(0)
                s = IN[b]
                blk = F.blocks[b]
                # a new vehicle taken in this block ends the fact
                for i, t in enumerate(blk.succ):
                    if t < 0:
                        continue
                    o = s
                    if b in tests:
                        c, sense = tests[b]
                        here = (i == 0) == sense
                        o = frozenset((c,)) if here else ALL - {c}
                    elif b in switches:
                        cv = F.blocks[t].case
                        v = self.const(F, cv) if isinstance(cv, int) else None
                        if v in (0, 1):
                            o = frozenset(("car" if v == 0 else "truck",))
                        else:
                            o = ALL
                    new = IN.get(t, frozenset()) | o
                    if t not in IN or new != IN[t]:
                        IN[t] = new
                        work.append(t)
            out = {b: next(iter(s)) for b, s in IN.items() if len(s) == 1}
        self._facts[F.key] = out
        return out

    def fact_at(self, F, nid, depth=0):
        """class established by the tests that lead to nid, in F or around
        every call of F"""
        w = F.where().get(nid)
        if w is None or not self.tests:
            return None
        f = self.facts(F).get(w[0])
        if f or depth > 3:
            return f
        cs = self.call_sites(F)
        fs = {self.fact_at(G, i, depth + 1) for G, i in cs}
        return fs.pop() if len(fs) == 1 else None

    def call_sites(self, F):
        if self._cs is None:
            cs = defaultdict(list)
            for G in self.P.funcs.values():
                for i, n in enumerate(G.nodes):
                    if n["k"] == "call" and n.get("f"):
                        for t in self.P.targets(G, i):
                            cs[t].append((G, i))
            self._cs = cs
        return self._cs.get(F.key, [])

    # ------------------------------------------------------- class of a value
    def deps(self, F, nid, at=None, seen=None, d=0):
        """{(class, why)} the value is computed from"""
        P = self.P
        out = set()
        seen = set() if seen is None else seen
        if nid is None or nid < 0 or d > 30:
            return out
        n = F.nodes[nid]
        k = n["k"]
        if k == "mem":
            t = self.tok(n["n"])
            if t:
                out.add((t, n["n"]))
                return out
        elif k == "var":
            v = n["v"]
            if F.vkind[v] == "p":
                t = self.tok(F.vname[v])
                if t:
                    out.add((t, F.vname[v]))
                return out
            for (dn, val, kind) in F.reaching(v, at if at in F.where() else nid):
                if kind == "param":
                    continue
                out |= self._def(F, v, dn, val, kind, seen, d)
            return out
        elif k == "call" and n.get("f"):
            e = P.ext[n["f"]]
            t = self.tok(e["base"])
            if t:
                out.add((t, e["base"] + "()"))
                return out
        elif k == "str":
            t = self.tok(n.get("val"))
            if t:
                out.add((t, '"%s"' % n["val"]))
            return out
        elif k == "cond":
            # value operands only
            ch = F.children(nid)
            for c in ch:
                if c != n.get("c"):
                    out |= self.deps(F, c, at, seen, d + 1)
            return out
        elif k == "idx":
            out |= self.deps(F, n["b"], at, seen, d + 1)
            return out
        for c in F.children(nid):
            out |= self.deps(F, c, at, seen, d + 1)
        return out

    def _def(self, F, v, dn, val, kind, seen, d):
        out = set()
        if (v, dn) in seen:
            return out
        seen.add((v, dn))
        if val is not None:
            out |= self.deps(F, val, dn, seen, d + 1)
        if kind == "update":
            # the old value stays part of the new one
            for (dn2, val2, kind2) in F.reaching(v, dn):
                if kind2 != "param":
                    out |= self._def(F, v, dn2, val2, kind2, seen, d + 1)
            f = self.fact_at(F, dn)
            if f and not out:
                out.add((f, "counted under the class test"))
        return out

    def target(self, F, nid):
        """(class, name) of a written lvalue"""
        nid = F.skip(nid)
        d = 0
        while nid is not None and nid >= 0 and d < 10:
            d += 1
            n = F.nodes[nid]
            k = n["k"]
            if k == "mem":
                t = self.tok(n["n"])
                if t:
                    return t, n["n"]
                nid = F.skip(n["b"])
                continue
            if k == "idx":
                nid = F.skip(n["b"])
                continue
            if k == "un":
                nid = F.skip(n["e"])
                continue
            if k == "call" and n.get("o", -1) >= 0:
                nid = F.skip(n["o"])
                continue
            if k == "var" and F.vkind[n["v"]] == "p":
                t = self.tok(F.vname[n["v"]])
                return (t, F.vname[n["v"]]) if t else None
            return None
        return None


ADD = ("operator=", "operator+=", "operator-=", "push_back", "push_front", "insert",
       "emplace", "emplace_back", "add_increment", "add_flow")


def null_tested(P, F):
    """nodes that are only compared with null"""
    out = set()
    for n in F.nodes:
        l = r = None
        if n["k"] == "bin" and n["op"] in ("==", "!="):
            l, r = F.skip(n["l"]), F.skip(n["r"])
        if l is not None and r is not None:
            for a, b in ((l, r), (r, l)):
                if b >= 0 and F.nodes[b]["k"] in ("null", "int") and a >= 0:
                    if F.nodes[b]["k"] == "null" or F.nodes[a].get("t", "").rstrip().endswith("*"):
                        out.add(a)
    return out


def references(P, C, F):
    """(class, what, node) of every member, function of the dimension that F
    reads other than to compare it with null"""
    nt = null_tested(P, F)
    for i, n in enumerate(F.nodes):
        if i in nt:
            continue
        w = None
        if n["k"] == "mem":
            w = n["n"]
        elif n["k"] == "call" and n.get("f"):
            w = P.ext[n["f"]]["base"]
        if w and C.tok(w):
            yield C.tok(w), w, i


def sinks(P, C, F, e, n, ft):
    k = n["k"]
    if is_assign(n):
        t = C.target(F, n["l"])
        if t:
            yield t, [n["r"]], "assign" if n["op"] == "=" else "count"
    elif k == "un" and n["op"] in ("++", "--", "post++", "post--"):
        t = C.target(F, n["e"])
        if t:
            yield t, [], "count"
    elif k == "cinit":
        t = C.tok(n.get("n"))
        if t:
            yield (t, n["n"]), F.children(e), "init"
    elif k == "call" and n.get("f"):
        x = P.ext[n["f"]]
        b = x["base"]
        if b in ADD and n.get("o", -1) >= 0:
            t = C.target(F, n["o"])
            if t:
                yield t, n["a"], "count" if b in ("operator+=", "operator-=") else b
        elif C.tok(b):
            yield (C.tok(b), b + "()"), n["a"], "arg"
        elif x.get("repo") and n["f"] in P.funcs:
            yield from params(P, C, F, n, b)
    elif k == "ctor" and n.get("f") in P.funcs:
        yield from params(P, C, F, n, P.ext[n["f"]].get("rec") or "?")
    elif k == "ret" and ft and n.get("e", -1) >= 0:
        yield (ft, F.base), [n["e"]], "ret"


def params(P, C, F, n, b):
    G = P.funcs[n["f"]]
    for p in G.params:
        i = G.vpidx[p]
        t = C.tok(G.vname[p])
        if t and i < len(n["a"]):
            yield (t, "parameter %s of %s" % (G.vname[p], b)), [n["a"][i]], "arg"
