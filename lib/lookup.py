"""Look-ups of a key in an associative container and the checks made on it.

A use is a dereference of the iterator that find(key) returned, or the value of
map[key] for a map of pointers (which is null for an absent key).  It is
checked when on every path to it find(key) was compared with end(), count(key)
or contains(key) was tested, at(key) succeeded, or key was just inserted - for
that key in any container.  A use of an unchecked parameter becomes a
requirement on every caller."""
import re

from .guards import Guards
from .vpath import walk

MAPS = re.compile(r"^(const )?std::(unordered_)?(multi)?(map|set)<")


def key_of(p, maps=None):
    """(container, key) when p is the result of a search"""
    if isinstance(p, tuple) and len(p) == 4 and p[0] == "call" and p[1] in ("find", "lower_bound") and p[2] is not None:
        return p[2], p[3]
    return None


class Lookup:
    def __init__(self, P, G=None):
        self.P = P
        self.G = G or Guards(P)
        self.V = self.G.V
        self.sites = 0
        self.checked = 0
        self._null = {}

    # -------------------------------------------------------------- facts
    def found(self, facts):
        """keys known to be present"""
        out = set()
        for f in facts:
            if f[0] in ("!=",):
                for a, b in ((f[1], f[2]), (f[2], f[1])):
                    k = key_of(a)
                    if k and isinstance(b, tuple) and b[:2] in (("call", "end"), ("call", "cend")):
                        out.add(k[1])
            if f[0] in ("!=", "<", "<=", "==", "true"):
                for x in (f[1], f[2]):
                    if isinstance(x, tuple) and len(x) == 4 and x[0] == "call" and x[1] in ("count", "contains"):
                        o = f[2] if x == f[1] else f[1]
                        if f[0] == "true" or (f[0] == "!=" and o == ("c", "0")) or \
                                (f[0] == "<" and x == f[2] and num(o) is not None and num(o) >= 0) or \
                                (f[0] == "<=" and x == f[2] and num(o) is not None and num(o) >= 1) or \
                                (f[0] == "==" and num(o) is not None and num(o) >= 1):
                            out.add(x[3])
        return out

    def at(self, F, nid):
        fs = set(self.G.at(F, nid))
        # a pointer known not to be null that has one definition that is not
        # null: what was known at that definition holds
        for f in list(fs):
            if f[0] not in ("!=", "true"):
                continue
            for x, o in ((f[1], f[2]), (f[2], f[1])):
                if isinstance(x, tuple) and x[0] == "V" and len(x) == 2 and \
                        (o == ("c", "null") or (f[0] == "true" and x == f[1])):
                    fs |= self.when_set(F, x[1])
        return self.found(fs)

    def when_set(self, F, v):
        k = (F.key, v)
        if k not in self._null:
            self._null[k] = set()
            ds = [(n, val) for (dv, n, val, kind) in F.defs_of()[0] if dv == v and val is not None
                  and self.V.path(F, val) != ("c", "null")]
            if len(ds) == 1 and ds[0][0] >= 0 and not any(
                    dv == v and kind in ("escape", "update") for (dv, n, val, kind) in F.defs_of()[0]):
                self._null[k] = {f for f in self.G.at(F, ds[0][0])
                                 if not any(isinstance(y, tuple) and y and y[0] == "V" and self.multi(F, y[1])
                                            for z in f[1:] for y in walk(z))}
        return self._null[k]

    def multi(self, F, v):
        return isinstance(v, int) and v < len(F.vkind) and F.vkind[v] == "l" and self.V.single(F, v) is None

    # --------------------------------------------------------------- uses
    def uses(self, F):
        """(node, key, container, how)"""
        w = F.where()
        for i, n in enumerate(F.nodes):
            if i not in w:
                continue
            if n["k"] == "mem" and n["n"] in ("second", "first"):
                k = key_of(self.V.path(F, n["b"]))
                if k and MAPS.match(self.rec(F, n["b"]) or "std::map<"):
                    yield i, k[1], k[0], "find"
            elif n["k"] == "call" and n.get("f") and n.get("o", -1) >= 0 and n["a"]:
                e = self.P.ext[n["f"]]
                if e["base"] == "operator[]" and MAPS.match(e.get("rec") or "") and "*" in (e.get("ret") or "") \
                        and not self.assigned(F, i):
                    yield i, self.V.path(F, n["a"][0]), self.V.path(F, n["o"]), "index"

    def rec(self, F, nid):
        for x in F.walk(nid):
            n = F.nodes[x]
            if n["k"] == "call" and n.get("f") and self.P.ext[n["f"]]["base"] == "find" and n.get("o", -1) >= 0:
                return self.P.ext[n["f"]].get("rec")
        return None

    def assigned(self, F, i):
        c = F.__dict__.setdefault("_lk_assigned", None)
        if c is None:
            c = set()
            for n in F.nodes:
                if n["k"] == "bin" and n["op"] == "=":
                    c.add(F.skip(n["l"]))
                elif n["k"] == "call" and "::operator=(" in (n.get("f") or "") and n.get("o", -1) >= 0:
                    c.add(F.skip(n["o"]))
            F._lk_assigned = c
        return i in c

    # ---------------------------------------------------------- obligations
    def solve(self, isleaf):
        """unchecked uses of a key for which isleaf(F, key) holds:
        list of (F, node, key, chain of function names)"""
        bad, req, work = [], {}, []
        for F in self.P.funcs.values():
            for i, key, cont, how in self.uses(F):
                self.sites += 1
                if key in self.at(F, i):
                    self.checked += 1
                    continue
                self.need(F, i, key, (F.name,), isleaf, bad, req, work)
        done = set()
        sites = self.callsites()
        while work:
            fk, j = work.pop()
            if (fk, j) in done:
                continue
            done.add((fk, j))
            for C, nid in sites.get(fk, ()):
                a = C.nodes[nid]["a"]
                if j >= len(a):
                    continue
                key = self.V.path(C, a[j])
                if key in self.at(C, nid):
                    continue
                self.need(C, nid, key, (C.name,) + req[(fk, j)], isleaf, bad, req, work)
        return bad

    def need(self, F, i, key, chain, isleaf, bad, req, work):
        if isleaf(F, key):
            bad.append((F, i, key, chain))
        if isinstance(key, tuple) and len(key) == 2 and key[0] == "P":
            if (F.key, key[1]) not in req:
                req[(F.key, key[1])] = chain
                work.append((F.key, key[1]))

    def callsites(self):
        out = {}
        for F in self.P.funcs.values():
            for i, n in enumerate(F.nodes):
                if n["k"] in ("call", "ctor") and n.get("f") and i in F.where():
                    for t in self.P.targets(F, i):
                        if t in self.P.funcs:
                            out.setdefault(t, []).append((F, i))
        return out


def num(p):
    if isinstance(p, tuple) and len(p) == 2 and p[0] == "c":
        try:
            return float(p[1])
        except (TypeError, ValueError):
            return None
    return None
