"""Accesses of the bindings to NumPy arrays: arguments and results."""
import re

from . import poly
from .common import is_assign, natural_loops
from .guards import Guards, XPath, make, put
from .vpath import walk

ARR = re.compile(r"^(const )?(pybind11::)?array(_t)?\b|^(const )?pybind11::array_t<")


class Access:
    __slots__ = ("F", "nid", "root", "index", "write", "elem", "val")

    def __init__(self, F, nid, root, index, write, elem, val):
        self.F, self.nid, self.root, self.index = F, nid, root, index
        self.write, self.elem, self.val = write, elem, val


class Arrays:
    def __init__(self, P):
        self.P = P
        self.V = XPath(P)
        self.G = Guards(P, self.V)
        self._acc = {}
        self._facts = {}

    # -------------------------------------------------------- normal forms
    def isarr(self, F, x):
        """is x an array object (argument or local result)"""
        if not isinstance(x, tuple):
            return False
        if x[0] == "ctor":
            return "array_t<" in x[1]
        if x[0] == "P":
            for p in F.params:
                if F.vpidx[p] == x[1]:
                    return "array_t<" in F.vtype[p] or "pybind11::array" in F.vtype[p]
        if x[0] == "V":
            return "array_t<" in F.vtype[x[1]]
        return False

    def norm(self, F, p):
        if not isinstance(p, tuple) or not p:
            return p
        q = tuple(self.norm(F, x) if isinstance(x, tuple) else x for x in p)
        if q[0] == "call" and q[1] == "request" and self.isarr(F, q[2]):
            return ("buf", q[2])
        if q[0] == "mem" and isinstance(q[1], tuple) and q[1] and q[1][0] == "buf":
            if q[2] == "ptr":
                return ("ptr", q[1][1])
            if q[2] in ("ndim", "size"):
                return (q[2], q[1][1])
            if q[2] == "shape":
                return ("shapes", q[1][1])
        if q[0] == "call" and len(q) >= 3 and q[2] is not None and self.isarr(F, q[2]):
            if q[1] in ("data", "mutable_data") and len(q) == 3:
                return ("ptr", q[2])
            if q[1] in ("ndim", "size"):
                return (q[1], q[2])
            if q[1] == "shape" and len(q) == 4:
                return self.dim(F, q[2], q[3])
            if q[1] == "shape" and len(q) == 3:
                return ("shapes", q[2])
        if q[0] == "idx" and isinstance(q[1], tuple) and q[1] and q[1][0] == "shapes":
            return self.dim(F, q[1][1], q[2])
        if q[0] == "idx" and isinstance(q[1], tuple) and q[1][0] == "init" and q[2][0] == "c":
            k = int(q[2][1])
            if k + 1 < len(q[1]):
                return q[1][k + 1]
        return q

    def dim(self, F, x, k):
        if x[0] == "ctor" and k[0] == "c":
            d = self.dims(x)
            if d and int(k[1]) < len(d):
                return d[int(k[1])]
        return ("shape", x, k)

    @staticmethod
    def dims(x):
        """extents of an array created here"""
        if x[0] != "ctor" or len(x) < 3:
            return None
        a = x[2]
        if isinstance(a, tuple) and a[0] == "init":
            return list(a[1:])
        if isinstance(a, tuple) and a[0] == "ctor":
            for y in a[2:]:
                if isinstance(y, tuple) and y[0] == "init":
                    return list(y[1:])
            return None
        return [a]

    def path(self, F, nid):
        return self.norm(F, self.V.path(F, nid))

    def facts(self, F, nid):
        return {make(f[0], self.norm(F, f[1]), self.norm(F, f[2])) for f in self.G.at(F, nid)}

    def facts_of(self, F, nid, y):
        """facts at nid, with what is known of all elements said of element y"""
        fs = self.facts(F, nid)
        out = set(fs)
        eqs, low = self.equal(fs), self.lower(fs)
        for f in fs:
            us = {x for z in f[1:] for x in walk(z) if isinstance(x, tuple) and x and x[0] == "A"}
            if len(us) != 1:
                continue
            u = us.pop()
            bs = self.bounds(F, y, fs)
            if not bs or any(self.leq(poly.add(b, poly.const(1)), poly.of(u[1]), eqs, low) for b in bs):
                out.add(make(f[0], put(f[1], u, y), put(f[2], u, y)))
        return out

    # ------------------------------------------------------------ accesses
    def accesses(self, F):
        if F.key in self._acc:
            return self._acc[F.key]
        out = []
        idx = [(i, n) for i, n in enumerate(F.nodes) if n["k"] == "idx"]
        if idx:
            wr, elem = {}, {}
            for _, e, n in F.all_elements():
                if is_assign(n):
                    l = F.skip(n["l"])
                    wr[l] = (e, n["r"], n["op"])
                for x in F.walk(e):
                    elem.setdefault(x, e)
            for i, n in idx:
                b = self.path(F, n["b"])
                if b[0] != "ptr":
                    continue
                w = wr.get(i)
                where = i if i in F.where() else elem.get(i, -1)
                out.append(Access(F, i, b[1], self.path(F, n["i"]), bool(w), where, w[1] if w else None))
        self._acc[F.key] = out
        return out

    # --------------------------------------------------------------- bounds
    def counter(self, F, a):
        """is the local a counter that starts at a constant >= 0 and only
        grows by one"""
        if a[0] != "V":
            return False
        for (v, n, val, kind) in F.defs_of()[0]:
            if v != a[1]:
                continue
            if kind in ("decl", "assign"):
                if val is None:
                    continue
                p = self.path(F, val)
                if not (p[0] == "c" and p[1].lstrip("-").isdigit() and int(p[1]) >= 0) \
                        and not self.sizelike(p):
                    return False
            elif kind == "update":
                nd = F.nodes[n]
                if nd["k"] == "un" and "--" in nd["op"]:
                    return False
                if nd["k"] == "bin" and nd["op"] != "+=":
                    return False
            elif kind == "escape" and n >= 0 and F.nodes[n]["k"] == "call" and \
                    (F.nodes[n].get("f") or "").startswith("std::"):
                continue
            else:
                return False
        return True

    def runs(self, F, a, at):
        """is the counter stepped in an innermost loop around this place"""
        w = F.where()
        if at not in w:
            return False
        around = [body for h, body in natural_loops(F) if w[at][0] in body]
        if not around:
            return False
        # iteration by iterators or over a range bounds it in other ways
        body = min(around, key=len)
        if any(F.blocks[b].tc is not None and b in body and any(t not in body for t in F.blocks[b].succ if t >= 0)
               and not F.aborts(b) and not all(F.aborts(t) for t in F.blocks[b].succ if t >= 0 and t not in body)
               for b in body):
            return False
        return any(v == a[1] and kind == "update" and n in w and w[n][0] in body
                   for (v, n, val, kind) in F.defs_of()[0])

    def bounds(self, F, a, facts):
        """upper bounds (inclusive) of an expression, as polynomials"""
        out = []
        for f in facts:
            if f[0] == "<" and f[1] == a:
                out.append(poly.add(poly.of(f[2]), poly.const(-1)))
            elif f[0] == "<=" and f[1] == a:
                out.append(poly.of(f[2]))
            elif f[0] in ("<", "<=") and a[0] == "V":
                d = poly.add(poly.of(f[2]), poly.of(f[1]), -1)
                if d.get((a,)) == -1:
                    r = poly.add(d, poly.atom(a))
                    if a not in poly.atoms(r):
                        out.append(poly.add(r, poly.const(-1)) if f[0] == "<" else r)
        return out

    def equal(self, facts):
        """atom -> polynomial rewritings"""
        out = []
        for f in facts:
            if f[0] != "==":
                continue
            for a, b in ((f[1], f[2]), (f[2], f[1])):
                pa = poly.of(a)
                if len(pa) == 1:
                    (m, c), = pa.items()
                    if c == 1 and len(m) == 1:
                        out.append((m[0], poly.of(b)))
        return out

    def extents(self, F, root, facts):
        """(list of polynomial extents, reason when unknown)"""
        if root[0] == "ctor":
            d = self.dims(root)
            return ([poly.of(x) for x in d], None) if d else (None, "unknown shape")
        nd = None
        for f in facts:
            if f[0] == "==":
                for a, b in ((f[1], f[2]), (f[2], f[1])):
                    if a == ("ndim", root) and b[0] == "c":
                        nd = int(b[1])
        if nd is None:
            return None, "ndim"
        return [poly.atom(("shape", root, ("c", str(k)))) for k in range(nd)], None

    def inside(self, a):
        """(verdict, text): True in bounds, False out of bounds possible, None
        unresolved"""
        F = a.F
        facts = self.facts(F, a.elem)
        E = poly.of(a.index)
        shape = {y for y in walk(a.root) if isinstance(y, tuple)}
        vs = [x for x in poly.atoms(E) if x[0] == "V" and x not in shape]
        for x in vs:
            if not self.counter(F, x):
                return None, "index variable is not a counter"
            if not self.bounds(F, x, facts):
                if not any(x in set(walk(z)) for f in facts for z in f[1:]) and self.runs(F, x, a.elem):
                    return False, "the index grows without being compared with anything"
                return None, "no bound of the index variable"
        if any(x[0] not in ("V", "c", "shape", "size", "call", "mem", "P", "idx") for x in poly.atoms(E)):
            return None, "index is not affine"
        Es = self.maxima(F, E, vs, facts)
        for f in facts:
            if f[0] in ("<", "<=") and f[1][0] != "V" and poly.of(f[1]) == E:
                Es.insert(0, poly.add(poly.of(f[2]), poly.const(-1 if f[0] == "<" else 0)))
        total = poly.atom(("size", a.root))
        ext, why = self.extents(F, a.root, facts)
        eqs = self.equal(facts)
        low = self.lower(facts)
        goals = [total]
        if ext is not None:
            t = poly.const(1)
            for d in ext:
                t = poly.mul(t, d)
            goals.append(t)
        for e in Es:
            for g in goals:
                if self.leq(poly.add(e, poly.const(1)), g, eqs, low):
                    return True, ""
        if ext is None:
            if why == "ndim":
                return False, "the number of dimensions of the array argument is not checked before it is indexed"
            return None, why
        # is the index made of things that could be bounded at all?
        if any(not self.sizelike(x) for x in poly.atoms(E) if x[0] not in ("V",)):
            return False, "the index is computed from data and not compared with the extent of the array"
        return False, "index up to %s is not known to be below %s" % (
            poly.show(Es[0]), poly.show(goals[-1]))

    @staticmethod
    def sizelike(x):
        return x[0] in ("shape", "size", "c") or (x[0] == "call" and x[1] in ("size", "length"))

    def maxima(self, F, E, vs, facts):
        out = [E]
        for x in vs:
            nxt = []
            for e in out:
                for b in self.bounds(F, x, facts):
                    nxt.append(poly.subst(e, x, b))
            out = nxt or out
        return out[:24]

    def lower(self, facts):
        """atom -> constant it is at least"""
        out = {}
        for f in facts:
            c, a = f[1], f[2]
            if f[0] in ("<", "<=") and c[0] == "c" and c[1].lstrip("-").isdigit():
                out[a] = max(out.get(a, 0), int(c[1]) + (f[0] == "<"))
            if f[0] == "!=":
                for c, a in ((f[1], f[2]), (f[2], f[1])):
                    if c == ("c", "0"):
                        out[a] = max(out.get(a, 0), 1)
        return out

    def leq(self, e, g, eqs, low, d=0):
        diff = poly.add(g, e, -1)
        for a in poly.atoms(diff):
            if low.get(a):
                diff = poly.subst(diff, a, poly.add(poly.atom(a), poly.const(low[a])))
        if poly.nonneg(diff):
            return True
        if d >= 3:
            return False
        at = poly.atoms(e) | poly.atoms(g)
        for a, p in eqs:
            if a in at and a not in poly.atoms(p):
                if self.leq(poly.subst(e, a, p), poly.subst(g, a, p), eqs, low, d + 1):
                    return True
        return False


class Coverage:
    """which elements of a result array are assigned on every path to its
    return.  Works on intervals [lo, hi) of the flat index, with polynomials
    as ends; a loop over a counter turns an interval that moves by its own
    length into one interval."""

    def __init__(self, A, F):
        self.A, self.F = A, F
        self.loops = natural_loops(F)
        self.depth = sorted(self.loops, key=lambda x: len(x[1]))

    def inner(self, b):
        for h, body in self.depth:
            if b in body:
                return h
        return None

    def counter(self, h, body):
        """(variable, initial value, bound, step block ok) of a counted loop"""
        F, A = self.F, self.A
        blk = F.blocks[h]
        if blk.tc is None or blk.tc < 0 or len(blk.succ) != 2:
            return None
        inside = [s in body for s in blk.succ]
        if inside[0] == inside[1]:
            return None
        fs = A.G.cond(F, A.G.last(F, blk.tc), inside[0])
        for f in fs:
            a, b = A.norm(F, f[1]), A.norm(F, f[2])
            if f[0] in ("<", "<=", "!=") and a[0] != "V" and b[0] != "V":
                # v + c < U
                d = poly.add(poly.of(b), poly.of(a), -1)
                vs = [x for x in poly.atoms(d) if x[0] == "V" and d.get((x,)) == -1]
                if len(vs) != 1:
                    continue
                a, b = vs[0], poly.add(d, poly.atom(vs[0]))
                if a in poly.atoms(b):
                    continue
            else:
                b = poly.of(b) if b[0] != "V" or a[0] == "V" else b
            if f[0] == "<" and a[0] == "V":
                v, U = a[1], b
            elif f[0] == "!=" and (a[0] == "V" or b[0] == "V"):
                v, U = (a[1], b) if a[0] == "V" else (b[1], poly.of(a))
            elif f[0] == "<=" and a[0] == "V":
                v, U = a[1], poly.add(b, poly.const(1))
            else:
                continue
            init, ups = [], []
            for (dv, n, val, kind) in F.defs_of()[0]:
                if dv != v:
                    continue
                w = F.where().get(n)
                ins = w is not None and w[0] in body
                if kind == "escape":
                    continue
                if ins:
                    ups.append((n, val, kind))
                elif kind in ("decl", "assign"):
                    # the definition that enters this loop
                    if val is not None and w is not None and F.dominates(w[0], h):
                        init.append((n, val, w[0]))
                    elif val is not None and w is not None:
                        pass
            if len(ups) != 1 or not init:
                return None
            n, val, kind = ups[0]
            nd = F.nodes[n]
            one = nd["k"] == "un" and "++" in nd["op"] or \
                (nd["k"] == "bin" and nd["op"] == "+=" and A.path(F, nd["r"]) == ("c", "1"))
            if not one:
                return None
            # innermost dominating initialisation
            best = init[0]
            for x in init[1:]:
                if F.dominates(best[2], x[2]):
                    best = x
            w = F.where()[n]
            # exactly once per iteration
            if not all(F.dominates(w[0], b) for b in body if h in F.blocks[b].succ):
                return None
            if any(w[0] in b2 for h2, b2 in self.loops if h2 != h and b2 < body):
                return None
            return v, poly.of(A.path(F, best[1])), U
        return None

    @staticmethod
    def key(p):
        return frozenset(p.items())

    @classmethod
    def absorb(cls, box):
        """(base, block, dims): a dimension whose stride is the block length
        makes the block longer"""
        base, block, dims = box
        ch = True
        while ch:
            ch = False
            for st, n in dims:
                if st == block:
                    block = cls.key(poly.mul(dict(block), dict(n)))
                    dims = dims - {(st, n)}
                    ch = True
                    break
        return base, block, dims

    @classmethod
    def merge(cls, s):
        """closure under joining adjacent boxes of the same kind"""
        cur = {cls.absorb(x) for x in s}
        changed = True
        while changed and len(cur) < 80:
            changed = False
            for a in list(cur):
                for b in list(cur):
                    if a is not b and a[2] == b[2] and cls.key(poly.add(dict(a[0]), dict(a[1]))) == b[0]:
                        n = cls.absorb((a[0], cls.key(poly.add(dict(a[1]), dict(b[1]))), a[2]))
                        if n not in cur:
                            cur.add(n)
                            changed = True
        return frozenset(cur)

    def opaque(self, root):
        """is the array also written in ways this analysis does not follow: its
        data pointer or itself handed to a call, captured by a lambda, moved
        through a pointer variable or indexed through accessors"""
        F, A = self.F, self.A
        par = {}
        for i, n in enumerate(F.nodes):
            for c in F.children(i):
                par.setdefault(c, i)
        for i, n in enumerate(F.nodes):
            if n["k"] == "lambda":
                L = A.P.funcs.get(n.get("f"))
                names = {F.vname[m["v"]] for j, m in enumerate(F.nodes) if m["k"] == "var"
                         and F.vowner[m["v"]] == F.key
                         and A.path(F, j) in (root, ("ptr", root), ("buf", root))}
                if L is None or any(m["k"] == "var" and L.vowner[m["v"]] == F.key and
                                    L.vname[m["v"]] in names for m in L.nodes):
                    return True
                continue
            if n["k"] not in ("var", "mem", "call", "ctor"):
                continue
            p = A.path(F, i)
            if p not in (root, ("ptr", root), ("buf", root)):
                continue
            j = par.get(i, -1)
            while j >= 0 and (F.nodes[j]["k"] == "cast" or F.nodes[j].get("copy")):
                j = par.get(j, -1)
            if j < 0:
                continue
            m = F.nodes[j]
            if m["k"] in ("idx", "mem", "ret"):
                continue
            if m["k"] == "decl":
                for v, init, st in m["d"]:
                    if init >= 0 and i in set(F.walk(init)) and A.V.single(F, v) is None:
                        return True
                continue
            if m["k"] in ("meth", "call") and m.get("f") and A.P.ext[m["f"]]["base"] in (
                    "request", "data", "mutable_data", "size", "shape", "ndim"):
                continue
            return True
        return False

    def run(self, root, acc):
        """'ok', 'unknown' or (block, text)"""
        F, A = self.F, self.A
        key = self.key
        d = A.dims(root)
        if d is None or any(x[0] in ("V", "n", "deep", "?", "C") for y in d for x in poly.atoms(poly.of(y))):
            return "unknown"
        if any(a.write and A.inside(a)[0] is None for a in acc) or self.opaque(root):
            return "unknown"
        at = {}
        for a in acc:
            if a.write:
                E = poly.of(a.index)
                at.setdefault(a.elem, []).append((key(E), key(poly.const(1)), frozenset()))
        self.sum = {}
        for h, body in self.depth:
            self.loop(h, body, at, key)
        IN = self.flow(F.entry, set(F.blocks), at, None)
        t = poly.const(1)
        for x in d:
            t = poly.mul(t, poly.of(x))
        want = (key({}), key(t), frozenset())
        bad = None
        nret = 0
        for b in F.blocks.values():
            for e in b.els:
                n = F.nodes[e]
                if n["k"] == "ret" and n.get("e", -1) >= 0 and b.id in IN:
                    p = A.norm(F, A.V.path(F, n["e"]))
                    if p != root:
                        continue
                    nret += 1
                    s = self.through(b.id, IN[b.id], at)
                    if want not in self.merge(s) and not self.none(t, A.facts(F, e)):
                        bad = (e, "not every element of the returned array (%s elements) is assigned on every path" % poly.show(t))
        if nret == 0:
            return "unknown"
        return bad or "ok"

    @staticmethod
    def none(t, facts):
        """is the number of elements known to be zero"""
        for f in facts:
            z = None
            if f[0] == "true" and isinstance(f[1], tuple) and f[1][:2] == ("call", "empty"):
                z = ("call", "size", f[1][2])
            elif f[0] == "==" and ("c", "0") in f[1:]:
                z = f[1] if f[2] == ("c", "0") else f[2]
            elif f[0] == "<=" and f[2] == ("c", "0"):
                z = f[1]
            elif f[0] == "<" and f[2] == ("c", "1"):
                z = f[1]
            if z is not None:
                t = poly.subst(t, z, poly.const(0))
        return not t

    def flow(self, start, blocks, at, header):
        """must-written intervals at block entry, inner loops collapsed"""
        F = self.F
        IN = {start: frozenset()}
        work = [start]
        it = 0
        while work and it < 5000:
            it += 1
            b = work.pop(0)
            s = self.through(b, IN[b], at)
            if F.aborts(b):
                continue
            h = b if b != header and b in self.heads() else None
            for t in F.blocks[b].succ:
                if t < 0 or t not in blocks or t == header:
                    continue
                o = s
                if h is not None and t not in dict(self.loops)[h]:
                    o = s | self.sum.get(h, frozenset())
                o = self.merge(o)
                if t not in IN:
                    IN[t] = o
                    work.append(t)
                else:
                    m = IN[t] & o
                    if m != IN[t]:
                        IN[t] = m
                        work.append(t)
        return IN

    @classmethod
    def shift(cls, box, a, k):
        """the box with the variable replaced by itself plus k"""
        f = lambda p: cls.key(poly.subst(dict(p), a, poly.add(poly.atom(a), poly.const(k))))
        return f(box[0]), f(box[1]), frozenset((f(x), f(y)) for x, y in box[2])

    def through(self, b, s, at):
        """boxes after a block; they are kept in terms of the current values of
        the counters"""
        F = self.F
        if not hasattr(self, "steps"):
            self.steps, self.sets = {}, {}
            for (v, n, val, kind) in F.defs_of()[0]:
                if kind == "update":
                    nd = F.nodes[n]
                    one = nd["k"] == "un" and "++" in nd["op"] or nd["k"] == "bin" and nd["op"] == "+=" \
                        and self.A.path(F, nd["r"]) == ("c", "1")
                    self.steps.setdefault(n, []).append((v, one))
                elif kind in ("decl", "assign"):
                    self.sets.setdefault(n, []).append(v)
        for e in F.blocks[b].els:
            if e in at:
                s = s | frozenset(at[e])
            for v, one in self.steps.get(e, ()):
                a = ("V", v)
                s = frozenset(self.shift(x, a, -1) if self.has(x, a) else x for x in s
                              if one or not self.has(x, a))
            for v in self.sets.get(e, ()):
                a = ("V", v)
                s = frozenset(x for x in s if not self.has(x, a))
        return s

    @staticmethod
    def has(box, a):
        return any(a in poly.atoms(dict(p)) for p in (box[0], box[1]) + tuple(y for x in box[2] for y in x))

    def heads(self):
        return {h for h, _ in self.loops}

    def loop(self, h, body, at, key):
        F = self.F
        IN = self.flow(h, body, at, h)
        out = None
        for b in body:
            if h in F.blocks[b].succ and b in IN and not F.aborts(b):
                s = self.merge(self.through(b, IN[b], at))
                out = s if out is None else out & s
        c = self.counter(h, body)
        res = set()
        if c and out:
            v, init, U = c
            a = ("V", v)
            n = poly.add(U, init, -1)
            for box in out:
                # in terms of the counter during the iteration
                base, block, dims = self.shift(box, a, 1)
                lo = dict(base)
                st = poly.add(poly.subst(lo, a, poly.add(poly.atom(a), poly.const(1))), lo, -1)
                if not st or a in poly.atoms(st) or a in poly.atoms(dict(block)) or any(
                        a in poly.atoms(dict(x)) for d in dims for x in d):
                    continue
                res.add(self.absorb((key(poly.subst(lo, a, init)), block,
                                     dims | {(key(st), key(n))})))
        self.sum[h] = self.merge(res)


def skipped(A, F, acc):
    """writes to row v outside the loop that counts v: (node, text)"""
    loops = sorted(natural_loops(F), key=lambda x: len(x[1]))
    out = []
    for a in acc:
        if not a.write or a.elem not in F.where():
            continue
        w = F.where()[a.elem][0]
        for v in poly.atoms(poly.of(a.index)):
            if v[0] != "V" or not A.counter(F, v):
                continue
            ups = [n for (dv, n, val, kind) in F.defs_of()[0] if dv == v[1] and kind == "update" and n in F.where()]
            ini = [n for (dv, n, val, kind) in F.defs_of()[0] if dv == v[1] and kind in ("decl", "assign")
                   and val is not None and n in F.where()]
            if len(ups) != 1:
                continue
            u = F.where()[ups[0]][0]
            L = next((body for h, body in loops if u in body), None)
            if L is None or w in L:
                continue
            for h, body in loops:
                if body > L and w in body and not any(F.where()[n][0] in body for n in ini):
                    out.append((a.nid, "element %s of the result is assigned once while the row counter moves on "
                                       "in an inner loop" % poly.show(poly.of(a.index))))
                    break
    return out


def value_elements(A, F, nid, at):
    """element accesses X[y] the value is computed from, following the
    definitions of locals: (container, index, node)"""
    out, seen = [], set()
    st = [(nid, at, 0)]
    while st:
        x, pos, d = st.pop()
        if x is None or x < 0 or (x, pos) in seen or d > 25:
            continue
        seen.add((x, pos))
        n = F.nodes[x]
        if n["k"] == "var" and F.vkind[n["v"]] == "l":
            for (dn, val, kind) in F.reaching(n["v"], pos if pos in F.where() else x):
                if val is not None and kind in ("decl", "assign"):
                    st.append((val, dn if dn >= 0 else pos, d + 1))
            continue
        if n["k"] == "idx":
            out.append((A.path(F, n["b"]), A.path(F, n["i"]), x))
        elif n["k"] == "call" and n.get("f") and A.P.ext[n["f"]]["base"] in ("operator[]", "at") \
                and n.get("o", -1) >= 0 and n["a"]:
            out.append((A.path(F, n["o"]), A.path(F, n["a"][0]), x))
        for c in F.children(x):
            st.append((c, pos, d + 1))
    return out


def extent_of(A, F, X):
    """number of elements of a container expression"""
    if X[0] == "ptr":
        return ("shape", X[1], ("c", "0"))
    return ("call", "size", X)


def align(A, a):
    """list of (node, text) misalignments of a write to a two-dimensional
    result, None when the layout is not understood"""
    F = a.F
    d = A.dims(a.root)
    if d is None or len(d) not in (1, 2):
        return None
    facts = A.facts(F, a.elem)
    eqs = A.equal(facts)

    def canon(p):
        p = dict(p)
        for _ in range(3):
            for x, q in sorted(eqs, key=lambda y: repr(y)):
                if x in poly.atoms(p) and x not in poly.atoms(q) and repr(sorted(q.items(), key=repr)) < repr(x):
                    p = poly.subst(p, x, q)
        return frozenset(p.items())
    D = [canon(poly.of(x)) for x in d]
    E = poly.of(a.index)
    vs = [x for x in poly.atoms(E) if x[0] == "V" and A.counter(F, x) and A.bounds(F, x, facts)]
    if len(d) == 2 and D[0] == D[1]:
        return None
    roles = {}
    bad = []
    for v in vs:
        k = poly.add(poly.subst(E, v, poly.add(poly.atom(v), poly.const(1))), E, -1)
        if v in poly.atoms(k):
            return None
        ub = {canon(poly.add(b, poly.const(1))) for b in A.bounds(F, v, facts)}
        k = canon(k)
        if len(d) == 2:
            if k == D[1]:
                roles[v] = 0
            elif k == canon(poly.const(1)):
                roles[v] = 1
            elif k == D[0]:
                bad.append((a.nid, "the stride of the row index is the number of rows"))
                continue
            else:
                return None
        else:
            if k != canon(poly.const(1)):
                return None
            roles[v] = 0
    for X, y, n in value_elements(A, F, a.val, a.elem):
        py = poly.of(y)
        cs = [x for x in poly.atoms(py) if x[0] == "V" and A.counter(F, x)]
        if len(cs) != 1 or A.path(F, a.nid) == ("idx", X, y):
            continue
        S = canon(poly.of(extent_of(A, F, X)))
        for j, Dj in enumerate(D):
            if S != Dj:
                continue
            want = [v for v, r in roles.items() if r == j]
            if cs[0] not in roles and not want:
                continue
            if len(want) == 1 and canon(py) != canon(poly.atom(want[0])):
                # the same element read with another index
                bad.append((n, "element %s of the request is used for %s %s of the result" % (
                    poly.show(py), "row" if j == 0 else "column", poly.show(poly.atom(want[0])))))
    return bad
