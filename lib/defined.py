"""Definite assignment: which scalar fields of an object have been given a
value when a function reaches its end, and which variables are read before.

The state at a program point is the set of names that have been assigned on
every path that reaches it; paths that end in a throw or an abort do not
count.  Functions called on the object under construction contribute their
own set (calls are resolved for the class being constructed).
"""
from .common import is_assign
from .guards import Guards, NEG
from .vpath import walk

TOP = None      # "every name": the state of a point not reached yet


def meet(a, b):
    if a is TOP:
        return b
    if b is TOP:
        return a
    return a & b


def scalar(f):
    return (f["scalar"] or f["ptr"]) and not f["ref"]


class Defined:
    def __init__(self, P):
        self.P = P
        self._sum = {}
        self._use = {}
        self._fields = {}
        self.G = None

    # -- classes --------------------------------------------------------

    def bases(self, rec):
        out, todo = [], [rec]
        while todo:
            r = todo.pop()
            if r in self.P.records and r not in out:
                out.append(r)
                todo += [b[0] for b in self.P.records[r]["bases"]]
        return out

    def fields(self, rec):
        if rec not in self._fields:
            self._fields[rec] = {(r, f["n"]) for r in self.bases(rec)
                                 for f in self.P.records[r]["fields"] if scalar(f)}
        return self._fields[rec]

    # -- how a node is used -----------------------------------------------

    def uses(self, F):
        """node -> how it is used: set (target of a plain assignment), got
        (its value is taken), both (++, +=), lent (handed over by reference or
        address for writing)"""
        if F.key in self._use:
            return self._use[F.key]
        out = {}

        def mark(e, how):
            if e is None or e < 0:
                return
            n = F.nodes[e]
            if n["k"] in ("mem", "var"):
                out[e] = how
            elif n["k"] == "cast" and how == "lent" and n.get("ck") not in ("LValueToRValue",):
                mark(n["e"], how)
            elif n["k"] == "cond":
                mark(n["l"], how)
                mark(n["r"], how)

        for i, n in enumerate(F.nodes):
            k = n["k"]
            if is_assign(n):
                mark(n["l"], "set" if n["op"] == "=" else "both")
            elif k == "un" and n["op"] in ("++", "--", "post++", "post--"):
                mark(n["e"], "both")
            elif k == "un" and n["op"] == "&":
                mark(n["e"], "lent")
            elif k == "cast" and n.get("ck") == "LValueToRValue":
                mark(n["e"], "got")
            elif k == "decl":
                for v, init, st in n["d"]:
                    if "&" in (F.vtype[v] or "") and init is not None and init >= 0 \
                            and "const" not in F.vtype[v]:
                        mark(init, "lent")
            elif k in ("call", "ctor"):
                f = n.get("f")
                for j, a in enumerate(n["a"]):
                    if not self.readonly(f, j):
                        mark(a, "lent")
                if k == "call" and n.get("o", -1) >= 0 and f and self.P.ext[f]["base"] == "operator>>":
                    for a in n["a"]:
                        mark(a, "lent")
            elif k == "lambda":
                for c in n.get("caps", []):
                    pass
        self._use[F.key] = out
        return out

    def readonly(self, f, j):
        if not f:
            return False
        ps = self.P.ext[f].get("params") or []
        if j >= len(ps):
            return True
        t = ps[j]
        if "&" not in t and "*" not in t:
            return True
        if "&" in t:
            return t.strip().startswith("const ") and t.count("*") == 0 or "*const &" in t
        return True         # a pointer: the pointer itself is passed by value

    # -- the object -----------------------------------------------------

    def resolve(self, F, nid, cls):
        """the functions a call on an object of class cls can reach"""
        ts = self.P.targets(F, nid)
        if len(ts) <= 1:
            return ts
        up = self.bases(cls)
        best = None
        for t in ts:
            r = self.P.ext[t].get("rec")
            if r in up and (best is None or up.index(r) < up.index(self.P.ext[best].get("rec"))):
                best = t
        return {best} if best else ts

    def summary(self, key, cls):
        """(names assigned on every path, {name: node} of names read before
        they are) of a function run on an object of class cls"""
        if (key, cls) in self._sum:
            return self._sum[key, cls]
        self._sum[key, cls] = (frozenset(), {})
        F = self.P.funcs.get(key)
        if F is None:
            return self._sum[key, cls]
        r = self.flow(F, cls, lambda e: F.nodes[e]["k"] == "this")
        self._sum[key, cls] = r[:2]
        return self._sum[key, cls]

    def implicit(self, key, cls, zi):
        """an implicit constructor: in-class initialisers and base classes"""
        rec = self.P.ext[key].get("rec")
        if rec not in self.P.records:
            return frozenset()
        if zi:
            return frozenset(self.fields(rec))
        out = set()
        for r in self.bases(rec):
            if r == rec or not self.P.records[r]["userctor"]:
                out |= {(r, f["n"]) for f in self.P.records[r]["fields"] if f["init"]}
            else:
                k = r + "::#ctor()"
                if k in self.P.funcs:
                    out |= self.summary(k, cls)[0]
        return frozenset(out)

    def constructed(self, F, e, cls):
        """names assigned by the constructor node e"""
        n = F.nodes[e]
        if n["k"] == "init" or n["k"] == "zero":
            return frozenset(self.fields(cls))
        if n["k"] != "ctor" or not n.get("f"):
            return frozenset(self.fields(cls))
        if n.get("copy"):
            return frozenset(self.fields(cls))
        f = n["f"]
        if f in self.P.funcs:
            # while a base is under construction, calls reach the base's own
            out = self.summary(f, self.P.ext[f].get("rec") or cls)[0]
            if n.get("zi"):
                out = out | self.fields(cls)
            return out
        rec = self.P.ext[f].get("rec")
        if rec in self.P.records and not (self.P.ext[f].get("params") or []):
            return self.implicit(f, cls, n.get("zi"))
        return frozenset(self.fields(cls))      # inherited or library: taken as complete

    def flow(self, F, cls, isobj, start=None, first=frozenset()):
        """must-assign over the body.  start: element the object is created at
        (None: the entry).  Returns (assigned at the end, names read before,
        uses of the object itself: [(node, assigned then)])"""
        use = self.uses(F)

        def obj(e):
            while e is not None and e >= 0:
                if isobj(e):
                    return True
                n = F.nodes[e]
                if n["k"] == "cast" or n["k"] == "un" and n["op"] in ("*", "&"):
                    e = n["e"]
                else:
                    return False
            return False

        early, handed = {}, []
        IN = {F.entry: frozenset() if start is None else TOP}
        where = F.where()

        def step(b, s, note):
            for e in b.els:
                n = F.nodes[e]
                k = n["k"]
                if start is not None and e == start:
                    s = frozenset(first)
                    continue
                if s is TOP:
                    continue
                if k == "cinit":
                    if "n" in n:
                        s = s | {(n["r"], n["n"])}
                    elif n.get("e", -1) >= 0:
                        c = F.nodes[n["e"]]
                        if c["k"] == "ctor" and c.get("f"):
                            s = s | self.constructed(F, n["e"], cls)
                        else:
                            r = n.get("basec")
                            s = s | (self.fields(r) if r in self.P.records else set())
                elif is_assign(n):
                    l = F.nodes[n["l"]] if n["l"] >= 0 else None
                    if l and l["k"] == "mem" and obj(l["b"]):
                        s = s | {(l["r"], l["n"])}
                elif k == "mem" and n.get("b", -1) >= 0 and obj(n["b"]):
                    how = use.get(e)
                    f = (n["r"], n["n"])
                    if how in ("got", "both") and f not in s and note:
                        early.setdefault(f, e)
                    if how == "lent":
                        s = s | {f}
                elif k == "call" and n.get("o", -1) >= 0 and obj(n["o"]):
                    ts = self.resolve(F, e, cls)
                    got = TOP
                    for t in ts:
                        a, r = self.summary(t, cls)
                        got = meet(got, a)
                        if note:
                            for f, x in r.items():
                                if f not in s:
                                    early.setdefault(f, e)
                    s = s | (got or frozenset())
                if note and k in ("call", "ctor", "ret", "bin", "init"):
                    args = list(n.get("a") or [])
                    if k == "ret":
                        args = [n.get("e", -1)]
                    if k == "bin":
                        args = [n["r"]] if is_assign(n) else []
                    for a in args:
                        if a is not None and a >= 0 and obj(a):
                            handed.append((e, s))
            return s

        order = F.order()
        OUT = {}
        change = True
        while change:
            change = False
            for b in order:
                if b == F.entry:
                    s = IN[F.entry]
                else:
                    s = TOP
                    for p in F.blocks[b].pred:
                        if p in OUT:
                            s = meet(s, OUT[p])
                IN[b] = s
                o = step(F.blocks[b], s, False)
                if b not in OUT or OUT[b] != o:
                    OUT[b] = o
                    change = True
        for b in order:
            step(F.blocks[b], IN[b], True)
        end = TOP
        for p in F.blocks[F.exit].pred:
            if p in OUT and not F.aborts(p):
                end = meet(end, OUT[p])
        if end is TOP:
            end = frozenset(self.fields(cls)) if start is None else first
        return frozenset(end), early, handed

    # -- what the creator does after construction --------------------------

    def callers(self, key):
        if not hasattr(self, "_callers"):
            self._callers = {}
            for F in self.P.funcs.values():
                for i, n in enumerate(F.nodes):
                    if n["k"] == "call" and n.get("f"):
                        for t in self.P.targets(F, i):
                            self._callers.setdefault(t, []).append((F, i))
        return self._callers.get(key, [])

    def parents(self, F):
        if not hasattr(F, "_parents"):
            F._parents = {}
            for i in range(len(F.nodes)):
                for c in F.children(i):
                    F._parents.setdefault(c, []).append(i)
        return F._parents

    def holders(self, F, e):
        """the local variables an object created at e is held in, and whether
        it is returned as it stands"""
        P, out, ret, todo, seen = self.parents(F), set(), False, [e], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for p in P.get(x, []):
                n = F.nodes[p]
                k = n["k"]
                if k == "cast" or k == "cond":
                    todo.append(p)
                elif k == "decl":
                    for v, init, st in n["d"]:
                        if init == x:
                            out.add(v)
                elif is_assign(n) and n["r"] == x:
                    l = F.nodes[F.skip(n["l"])]
                    if l["k"] == "var":
                        out.add(l["v"])
                    todo.append(p)
                elif k == "ret":
                    ret = True
                elif k == "ctor" and n.get("copy"):
                    todo.append(p)
        return out, ret

    def alias(self, F, vs):
        """variables that only ever hold what one of vs holds"""
        vs = set(vs)
        grew = True
        while grew:
            grew = False
            defs = F.defs_of()[0]
            for v in {d[0] for d in defs} - vs:
                ds = [d for d in defs if d[0] == v and d[2] is not None]
                if ds and all(d[3] in ("decl", "assign")
                              and F.nodes[F.skip(d[2])]["k"] == "var"
                              and F.nodes[F.skip(d[2])]["v"] in vs for d in ds):
                    vs.add(v)
                    grew = True
        return vs

    def completed(self, F, e, cls, missing, depth=0):
        """the names of missing that the code that creates an object (at e of
        F) does not settle, with the place that should have"""
        vs, ret = self.holders(F, e)
        left = set(missing)
        if vs:
            al = self.alias(F, vs)
            end, early, handed = self.flow(
                F, cls, lambda x: F.nodes[x]["k"] == "var" and F.nodes[x]["v"] in al,
                start=e, first=frozenset())
            left -= end
            for x, s in handed:
                if F.nodes[x]["k"] == "ret":
                    ret = True
        if not left:
            return []
        if ret and depth < 4:
            out = []
            for G, i in self.callers(F.key):
                out += self.completed(G, i, cls, left, depth + 1)
            return out
        return [(F, e, f) for f in sorted(left)]

    # -- local variables ------------------------------------------------

    def locals(self, F):
        """([(variable, node)], number of variables): reads of a local number
        or flag that some path reaches without a value, and reads of a local
        pointer that no path gives a value.  Branches that contradict a
        condition known at the read (over unchanged parameters) are left
        out."""
        bare = set()
        for i, n in enumerate(F.nodes):
            if n["k"] == "decl":
                for v, init, st in n["d"]:
                    if (init is None or init < 0) and not st and self.plain(F.vtype[v]):
                        bare.add(v)
        if not bare:
            return [], 0
        bad = []
        for v, e in self._reads(F, bare, lambda b, s: False, True):
            if F.vtype[v].endswith("*"):
                continue
            if (v, e) in self._reads(F, {v}, self.contrary(F, e), True) and not self.flagged(F, v, e):
                bad.append((v, e))
        ptr = {v for v in bare if F.vtype[v].endswith("*")}
        if ptr:
            bad += self._reads(F, ptr, lambda b, s: False, False)
        return bad, len(bare)

    def _reads(self, F, bare, cut, must):
        use = self.uses(F)
        IN, OUT = {F.entry: frozenset()}, {}

        def step(b, s, out):
            for e in b.els:
                n = F.nodes[e]
                k = n["k"]
                if k == "decl":
                    for v, init, st in n["d"]:
                        if v in bare:
                            s = s - {v} if init is None or init < 0 else s | {v}
                elif k == "var" and n["v"] in bare:
                    how = use.get(e)
                    if how in ("got", "both") and n["v"] not in s and out is not None:
                        out.append((n["v"], e))
                    if how == "lent" or how == "both" and must:
                        s = s | {n["v"]}
                elif is_assign(n) and n["op"] == "=" and n["l"] >= 0 and F.nodes[n["l"]]["k"] == "var":
                    s = s | {F.nodes[n["l"]]["v"]}
                elif k == "lambda":
                    s = s | bare        # captured: not followed
            return s

        order = F.order()
        change = True
        while change:
            change = False
            for b in order:
                s = IN[F.entry] if b == F.entry else TOP
                if b != F.entry:
                    for p in F.blocks[b].pred:
                        if p not in OUT or F.aborts(p) or cut(F.blocks[p], b):
                            continue
                        s = meet(s, OUT[p]) if must or s is TOP else s | OUT[p]
                IN[b] = s
                if s is TOP:
                    continue
                o = step(F.blocks[b], s, None)
                if OUT.get(b) != o:
                    OUT[b] = o
                    change = True
        bad = []
        for b in order:
            if IN[b] is not TOP:
                step(F.blocks[b], IN[b], bad)
        return bad

    def contrary(self, F, e):
        """edge test: the branch taken contradicts what is known at e, over
        parameters that are never changed"""
        if self.G is None:
            self.G = Guards(self.P)
        G = self.G
        changed = {F.vpidx[d[0]] for d in F.defs_of()[0]
                   if d[3] != "param" and F.vkind[d[0]] == "p"}

        def stable(f):
            for x in walk(f):
                if isinstance(x, tuple) and x and x[0] in ("V", "T", "mem", "idx", "call", "n", "C", "deep", "?"):
                    return False
                if isinstance(x, tuple) and x and x[0] == "P" and x[1] in changed:
                    return False
            return True

        here = {f for f in G.at(F, e) if stable(f)}

        def neg(f):
            op, sw = NEG[f[0]]
            return (op, f[2], f[1]) if sw else (op,) + tuple(f[1:])

        def cut(p, b):
            if p.tc is None or p.tc < 0 or len(p.succ) != 2 or p.succ[0] == p.succ[1] or not here:
                return False
            return any(f[0] in NEG and neg(f) in here for f in G.cond(F, p.tc, b == p.succ[0]))
        return cut

    def flagged(self, F, v, e):
        """the read is made only when a local flag says so, and the flag is
        changed only where the variable has its value"""
        w = F.where().get(e)
        if w is None:
            return False
        sets = {F.where()[d[1]][0] for d in F.defs_of()[0]
                if d[0] == v and d[3] in ("assign", "escape") and d[1] in F.where()}
        for b in F.blocks.values():
            if b.tc is None or b.tc < 0 or len(b.succ) != 2 or not F.dominates(b.id, w[0]):
                continue
            for x in F.walk(b.tc):
                n = F.nodes[x]
                if n["k"] != "var" or n["v"] == v or F.vkind[n["v"]] != "l":
                    continue
                ds = [d for d in F.defs_of()[0] if d[0] == n["v"] and d[3] != "decl"]
                if ds and all(d[1] in F.where() and any(
                        s == F.where()[d[1]][0] or F.dominates(s, F.where()[d[1]][0]) for s in sets)
                        for d in ds):
                    return True
        return False

    def plain(self, t):
        t = (t or "").replace("const ", "").strip()
        return t.endswith("*") or t in ("int", "double", "float", "bool", "long", "char",
                                        "unsigned int", "unsigned long", "short", "long long",
                                        "unsigned char") or t in self.P.enums
