"""Optional pointers: members that are null until something is installed.

A use (dereference) of such a pointer needs a check for null on every path to
it; the check may be of another pointer of the same object that is installed
together with it, may be made by a function called on the way, or by all the
callers (the need is handed to the callers in terms of their arguments)."""
from .guards import Guards
from .vpath import subst, walk

NULL = ("c", "null")


class Optional:
    def __init__(self, P, wanted):
        """wanted(type string) tells which pointer types are optional"""
        self.P = P
        self.wanted = wanted
        self.G = Guards(P)
        self.V = self.G.V
        self._sets = {}
        self.members()
        self.sites = 0
        self.checked = 0
        self.other = 0
        self.diag = 0

    # ----------------------------------------------------------- members
    def members(self):
        P = self.P
        self.mem = {}                 # (record, member) -> installers
        for r in P.records.values():
            for f in r["fields"]:
                if self.wanted(f["t"]):
                    self.mem[(r["name"], f["n"])] = set()
        # functions that install (assign something else than null)
        self.inst = {}
        for F in P.funcs.values():
            for i, n in enumerate(F.nodes):
                m = self.assigned(F, n)
                if m and m[0] in self.mem and not self.isnull(F, m[1]):
                    self.inst.setdefault(F.key, set()).add(m[0])
                    self.mem[m[0]].add(F.key)
        # always there after construction?
        self.always = set()
        for (r, m) in self.mem:
            cs = [F for F in P.byname.get(r + "::#ctor", []) if not self.copying(F)]
            if cs and all(self.set_by(F.key, m, 0) for F in cs) and not self.cleared((r, m)):
                self.always.add((r, m))
        # groups: same record, installed by the same functions, all on every path
        self.group = {}
        for k in self.mem:
            g = [x for x in self.mem if x[0] == k[0] and self.mem[x] == self.mem[k] and self.mem[k]
                 and all(self.set_by(fk, y[1], 0, weak=True) for fk in self.mem[k] for y in (x, k))
                 and not self.cleared(x) and not self.cleared(k)]
            self.group[k] = {x[1] for x in g} | {k[1]}

    def copying(self, F):
        return len(F.params) == 1 and F.rec and F.rec + " &" in (self.P.ext.get(F.key, {}).get("params") or [""])[0]

    def cleared(self, k):
        """set to null anywhere but in a constructor (or destructor)"""
        for F in self.P.funcs.values():
            if F.kind in ("ctor", "dtor"):
                continue
            for n in F.nodes:
                m = self.assigned(F, n)
                if m and m[0] == k and self.isnull(F, m[1]):
                    return True
        return False

    def assigned(self, F, n):
        if n["k"] == "bin" and n["op"] == "=":
            l = F.nodes[F.skip(n["l"])]
            if l["k"] == "mem":
                return (l["r"], l["n"]), n["r"]
        if n["k"] == "cinit" and n.get("e", -1) >= 0 and n.get("r"):
            return (n["r"], n["n"]), n["e"]
        return None

    def isnull(self, F, nid):
        nid = F.skip(nid)
        n = F.nodes[nid]
        return n["k"] == "null" or (n["k"] == "int" and str(n.get("val")) == "0")

    def nonnull_value(self, F, nid):
        n = F.nodes[F.skip(nid)]
        return n["k"] in ("new", "this") or (n["k"] == "un" and n["op"] == "&")

    def set_by(self, key, m, d, weak=False):
        """does every path through the function leave this->m non-null?"""
        if (key, m) in self._sets:
            return self._sets[(key, m)]
        self._sets[(key, m)] = False
        F = self.P.funcs.get(key)
        if F is None or not F.blocks or d > 5:
            return False

        def eff(e):
            n = F.nodes[e]
            a = self.assigned(F, n)
            if a and a[0][1] == m:
                return self.nonnull_value(F, a[1])
            if n["k"] == "call" and n.get("f") in self.P.funcs and len(self.P.targets(F, e)) >= 1 and \
                    n.get("o", -1) >= 0 and F.nodes[F.skip(n["o"])]["k"] == "this":
                # inside a constructor a virtual call goes to the class's own version
                ts = [n["f"]] if F.kind == "ctor" else list(self.P.targets(F, e))
                if all(self.set_by(t, m, d + 1) for t in ts):
                    return True
            return None
        IN = {F.entry: False}
        work = [F.entry]
        res = None
        seen = set()
        while work:
            b = work.pop()
            s = IN[b]
            for e in F.blocks[b].els:
                x = eff(e)
                if x is not None:
                    s = x
            if F.aborts(b):
                continue
            for t in F.blocks[b].succ:
                if t < 0:
                    continue
                if t not in IN:
                    IN[t] = s
                    work.append(t)
                elif IN[t] and not s:
                    IN[t] = False
                    work.append(t)
        ok = bool(IN.get(F.exit))
        self._sets[(key, m)] = ok
        return ok

    # -------------------------------------------------------------- uses
    def derefs(self, F):
        """(node, pointer expression) for every use of an optional pointer"""
        for i, n in enumerate(F.nodes):
            b = None
            if n["k"] == "mem" and n.get("b", -1) >= 0:
                b = n["b"]
            elif n["k"] == "call" and n.get("o", -1) >= 0:
                b = n["o"]
            elif n["k"] == "un" and n["op"] == "*":
                b = n["e"]
            elif n["k"] == "idx":
                b = n["b"]
            if b is None or b < 0:
                continue
            x = F.skip(b)
            if x is None or x < 0:
                continue
            if F.nodes[x]["k"] == "un" and F.nodes[x]["op"] == "*":
                continue
            if self.wanted(F.nodes[x].get("t", "")):
                yield i, x

    def satisfied(self, p, facts):
        names = {p}
        if p[0] == "mem":
            for (r, m), g in self.group.items():
                if m == p[2]:
                    names |= {("mem", p[1], x) for x in g}
        for f in facts:
            if f[0] == "!=" and NULL in f[1:] and (f[1] in names or f[2] in names):
                return True
            if f[0] == "true" and f[1] in names:
                return True
        return False

    def exempt(self, F, x, p):
        """the pointer cannot be null by construction"""
        n = F.nodes[F.skip(x)]
        if self.nonnull_value(F, x):
            return True
        if n["k"] == "mem" and (n["r"], n["n"]) in self.always:
            return True
        if n["k"] == "mem" and n["n"] and self.fresh(F, x, p):
            return True
        if n["k"] == "var":
            ds = [d for d in F.reaching(n["v"], x)]
            if ds and all(k in ("decl", "assign") and v is not None and
                          (self.nonnull_value(F, v) or
                           (F.nodes[F.skip(v)]["k"] == "mem" and
                            (F.nodes[F.skip(v)]["r"], F.nodes[F.skip(v)]["n"]) in self.always))
                          for (_, v, k) in ds):
                return True
        return False

    def fresh(self, F, x, p):
        """assigned a new object on every path to the use, in this function"""
        w = F.where().get(x)
        if w is None:
            for i, n in enumerate(F.nodes):
                if x in F.walk(i) and i in F.where():
                    w = F.where()[i]
                    break
        if w is None:
            return False

        def scan(els):
            for e in reversed(els):
                n = F.nodes[e]
                a = self.assigned(F, n)
                if a and a[0][1] == p[2]:
                    q = ("mem", ("T",), a[0][1]) if n["k"] == "cinit" else self.V.path(F, n["l"])
                    if q == p:
                        return self.nonnull_value(F, a[1])
                if n["k"] == "call" and n.get("f") in self.P.funcs and n.get("o", -1) >= 0:
                    ts = [n["f"]] if F.kind == "ctor" else list(self.P.targets(F, e))
                    if self.V.path(F, n["o"]) == p[1] and all(self.set_by(t, p[2], 0) for t in ts):
                        return True
            return None
        r = scan(F.blocks[w[0]].els[:w[1]])
        if r is not None:
            return r
        seen, st = set(), list(F.blocks[w[0]].pred)
        if w[0] == F.entry:
            return False
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            r = scan(F.blocks[b].els)
            if r is False:
                return False
            if r is True:
                continue
            if b == F.entry:
                return False
            st += F.blocks[b].pred
        return True

    @staticmethod
    def closed(p):
        return not any(isinstance(x, tuple) and x and x[0] in ("V", "n", "deep", "?", "C") for x in walk(p))

    def element(self, F, nid):
        """a CFG element that is, or contains, the node"""
        if nid in F.where():
            return nid
        par = F.__dict__.get("_elof")
        if par is None:
            par = {}
            for b in F.blocks.values():
                for e in b.els:
                    for y in F.walk(e):
                        par.setdefault(y, e)
            F.__dict__["_elof"] = par
        return par.get(nid, nid)

    def needs(self):
        """(function key, path, site) of every use without a check inside the
        function, closed under the callers.  Returns the ones that reach a
        function nobody in the repository calls, or that cannot be named."""
        P = self.P
        out = []
        req = {}                                   # key -> {path: (F, node, chain)}
        work = []
        for F in P.funcs.values():
            if not F.blocks:
                continue
            for i, x in self.derefs(F):
                self.sites += 1
                p = self.V.path(F, x)
                if self.exempt(F, x, p):
                    self.checked += 1
                    continue
                if self.satisfied(p, self.G.at(F, self.element(F, i))):
                    self.checked += 1
                    continue
                if p[0] not in ("P", "T") and not (p[0] == "mem" and any(m == p[2] for _, m in self.mem)):
                    self.other += 1            # element of a container, result of a call
                    continue
                if self.doomed(F, self.element(F, i)):
                    self.diag += 1
                    continue
                if self.closed(p) and p[0] in ("P", "mem", "T"):
                    self.add(req, work, F.key, p, (F, i, (F.name,)))
                else:
                    out.append((F, i, p, (F.name,)))
        rev = P.callers()
        while work:
            key, p = work.pop()
            F0, i0, ch = req[key][p]
            G = P.funcs[key]
            cs = [c for c in rev.get(key, ()) if c in P.funcs]
            used = False
            for c in cs:
                C = P.funcs[c]
                for j, n in enumerate(C.nodes):
                    if n["k"] not in ("call", "ctor") or not n.get("f") or key not in P.targets(C, j):
                        continue
                    used = True
                    a = [self.V.path(C, y) for y in n["a"]]
                    o = self.V.path(C, n["o"]) if n.get("o", -1) >= 0 else ("T",)
                    q = subst(p, a, o)
                    if p[0] == "P" and p[1] < len(n["a"]) and self.exempt(C, n["a"][p[1]], q):
                        continue
                    if self.satisfied(q, self.G.at(C, self.element(C, j))):
                        continue
                    if q[0] == "mem" and (self.owner_always(q)):
                        continue
                    if self.closed(q) and q[0] in ("P", "mem") and len(ch) < 8:
                        self.add(req, work, c, q, (F0, i0, (C.name,) + ch))
                    else:
                        out.append((C, j, q, (C.name,) + ch))
            if not used:
                out.append((G, i0 if G is F0 else None, p, ch))
        return out

    def doomed(self, F, e):
        """every path from the node ends in a throw: a diagnostic message"""
        w = F.where().get(e)
        if w is None:
            return False
        d = F.__dict__.setdefault("_doomed", {})
        if w[0] not in d:
            seen, st, ok = set(), [w[0]], True
            while st and ok:
                b = st.pop()
                if b in seen:
                    continue
                seen.add(b)
                if F.aborts(b):
                    continue
                if b == F.exit:
                    ok = False
                st += [x for x in F.blocks[b].succ if x >= 0]
            d[w[0]] = ok
        return d[w[0]]

    def owner_always(self, q):
        return all((r, m) in self.always for (r, m) in self.mem if m == q[2]) and \
            any(m == q[2] for (r, m) in self.mem)

    def add(self, req, work, key, p, v):
        d = req.setdefault(key, {})
        if p not in d:
            d[p] = v
            work.append((key, p))
