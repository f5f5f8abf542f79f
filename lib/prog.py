"""Program model over the lowered form (see tool/mdump.cpp)."""
import json
import re
from collections import defaultdict

from . import front
from .front import AnalysisBroken


class Block:
    __slots__ = ("id", "els", "succ", "pred", "tk", "tc", "nr", "case",
                 "default", "catch", "cl", "top", "tl")

    def __init__(self, d):
        self.id = d["id"]
        els, seen = [], set()
        for e in d["e"]:
            if e not in seen:
                seen.add(e)
                els.append(e)
        self.els = els
        self.succ = d["s"]
        self.pred = []
        self.tk = d.get("tk")
        self.tc = d.get("tc")
        self.top = d.get("top")
        self.tl = d.get("tl")
        self.nr = d.get("nr", 0)
        self.case = d.get("case")
        self.default = d.get("default", 0)
        self.catch = d.get("catch")
        self.cl = d.get("cl")


class Func:
    def __init__(self, d, tu):
        self.key = d["key"]
        self.name = d["name"]
        self.base = d["base"]
        self.file = d["file"]
        self.line = d["line"]
        self.endline = d.get("endline")
        self.kind = d["kind"]
        self.rec = d.get("rec")
        self.const = d.get("const", False)
        self.static = d.get("static", False)
        self.virtual = d.get("virtual", False)
        self.islambda = d.get("lambda", False)
        self.noexcept = d.get("noexcept", False)
        self.params = d["params"]
        self.ret = tu["types"][d["ret"]] if d["ret"] >= 0 else "void"
        self.tu = tu
        self.nocfg = d.get("nocfg", False)
        self.tries = d.get("try", [])
        self.vars = d.get("vars", [])
        self.nodes = d.get("nodes", [])
        self.blocks = {}
        for b in d.get("blocks", []):
            self.blocks[b["id"]] = Block(b)
        self.entry = d.get("entry")
        self.exit = d.get("exit")
        for b in self.blocks.values():
            for s in b.succ:
                if s >= 0 and s in self.blocks:
                    self.blocks[s].pred.append(b.id)
        # resolve interned strings
        S, T = tu["strs"], tu["types"]
        for n in self.nodes:
            if "f" in n:
                n["f"] = S[n["f"]] if isinstance(n["f"], int) and n["f"] >= 0 else None
            if n["k"] in ("mem", "cinit") and "r" in n and isinstance(n["r"], int):
                n["r"] = S[n["r"]]
            if "t" in n:
                n["t"] = T[n["t"]]
            if "t2" in n and isinstance(n["t2"], int):
                n["t2"] = T[n["t2"]] if n["t2"] >= 0 else ""
        self.vname = [v[0] for v in self.vars]
        self.vkind = [v[1] for v in self.vars]
        self.vtype = [T[v[2]] if v[2] >= 0 else "" for v in self.vars]
        self.vpidx = [v[3] for v in self.vars]
        self.vowner = [S[v[5]] for v in self.vars]
        self._where = None
        self._rd = None

    def __repr__(self):
        return "<Func %s>" % self.key

    def loc(self, nid=None):
        l = self.line
        if nid is not None and nid >= 0:
            l = self.nodes[nid].get("L", self.line)
        return "%s:%d" % (self.file, l)

    def where(self):
        """node id -> (block id, index) for nodes that are CFG elements"""
        if self._where is None:
            w = {}
            for b in self.blocks.values():
                for i, e in enumerate(b.els):
                    w.setdefault(e, (b.id, i))
            self._where = w
        return self._where

    def order(self):
        """blocks in reverse post-order from entry"""
        seen, out = set(), []
        st = [(self.entry, iter(self.blocks[self.entry].succ))]
        seen.add(self.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s >= 0 and s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.blocks[s].succ)))
                    break
            else:
                out.append(b)
                st.pop()
        out.reverse()
        return out

    def all_elements(self):
        for bid in self.order():
            b = self.blocks[bid]
            for e in b.els:
                yield bid, e, self.nodes[e]

    def children(self, nid):
        n = self.nodes[nid]
        k = n["k"]
        out = []
        for f in ("o", "callee", "b", "e", "l", "r", "c", "i", "init", "size"):
            v = n.get(f)
            if isinstance(v, int) and not isinstance(v, bool) and v >= 0:
                if f == "r" and k in ("mem", "cinit"):
                    continue
                out.append(v)
        for f in ("a", "place"):
            v = n.get(f)
            if v:
                out.extend(x for x in v if x >= 0)
        if k == "decl":
            out.extend(x[1] for x in n["d"] if x[1] >= 0)
        return out

    def walk(self, nid):
        st, seen = [nid], set()
        while st:
            x = st.pop()
            if x < 0 or x in seen:
                continue
            seen.add(x)
            yield x
            st.extend(self.children(x))

    # --------------------------------------------------- reaching definitions
    def defs_of(self):
        """list of (def id, var, node, value node or None, kind)"""
        if self._rd is not None:
            return self._rd
        defs = []           # (var, node, value, kind)
        gen = {}            # block -> list of (index, var, defid, strong)
        for p in self.params:
            defs.append((p, -1, None, "param"))
        for bid, b in self.blocks.items():
            g = []
            for i, e in enumerate(b.els):
                n = self.nodes[e]
                k = n["k"]
                if k == "decl":
                    for v, init, st in n["d"]:
                        defs.append((v, e, init if init >= 0 else None, "decl"))
                        g.append((i, v, len(defs) - 1, True))
                elif k == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                    v = self.local_of(n["l"])
                    if v is not None:
                        kind = "assign" if n["op"] == "=" else "update"
                        defs.append((v, e, n["r"], kind))
                        g.append((i, v, len(defs) - 1, True))
                elif k == "un" and n["op"] in ("++", "--", "post++", "post--"):
                    v = self.local_of(n["e"])
                    if v is not None:
                        defs.append((v, e, None, "update"))
                        g.append((i, v, len(defs) - 1, True))
                elif k == "call":
                    # assignment operator on local object, or local passed by
                    # non-const reference / address
                    f = n.get("f") or ""
                    if n.get("o", -1) >= 0 and "::operator=(" in f:
                        v = self.local_of(n["o"])
                        if v is not None:
                            defs.append((v, e, n["a"][0] if n["a"] else None, "assign"))
                            g.append((i, v, len(defs) - 1, True))
                    elif n.get("o", -1) >= 0 and ("::operator++" in f or "::operator--" in f):
                        v = self.local_of(n["o"])
                        if v is not None:
                            defs.append((v, e, None, "update"))
                            g.append((i, v, len(defs) - 1, True))
                    for a in n["a"]:
                        v = None
                        an = self.nodes[a] if a >= 0 else None
                        if an is None:
                            continue
                        if an["k"] == "un" and an["op"] == "&":
                            v = self.local_of(an["e"])
                        elif an["k"] == "var" and not self._param_const_ref(f, n["a"].index(a)):
                            v = an["v"]
                        if v is not None:
                            defs.append((v, e, None, "escape"))
                            g.append((i, v, len(defs) - 1, False))
            gen[bid] = g
        byvar = defaultdict(set)
        for d, (v, _, _, _) in enumerate(defs):
            byvar[v].add(d)
        IN = {b: set() for b in self.blocks}
        OUT = {b: set() for b in self.blocks}
        IN[self.entry] = set(i for i, d in enumerate(defs) if d[3] == "param")
        order = self.order()
        changed = True
        while changed:
            changed = False
            for bid in order:
                s = set(IN[bid]) if bid == self.entry else set()
                for p in self.blocks[bid].pred:
                    s |= OUT[p]
                IN[bid] = s
                o = set(s)
                for (_, v, d, strong) in gen[bid]:
                    if strong:
                        o -= byvar[v]
                    o.add(d)
                if o != OUT[bid]:
                    OUT[bid] = o
                    changed = True
        self._rd = (defs, gen, IN, byvar)
        return self._rd

    def _param_const_ref(self, fkey, i):
        """best effort from the key's parameter list: is parameter i by value
        or by const reference?"""
        try:
            return self.prog.param_readonly(fkey, i)
        except AttributeError:
            return True

    def local_of(self, nid):
        """variable index if nid denotes a variable directly (lvalue)"""
        if nid < 0:
            return None
        n = self.nodes[nid]
        if n["k"] == "var":
            return n["v"]
        return None

    def reaching(self, var, at):
        """definitions of var reaching node `at` (a CFG element or an operand
        evaluated in the same block). returns list of (node, value, kind)"""
        defs, gen, IN, byvar = self.defs_of()
        w = self.where().get(at)
        if w is None:
            return [defs[d][1:] for d in byvar[var]]
        bid, idx = w
        cur = set(d for d in IN[bid] if defs[d][0] == var)
        for (i, v, d, strong) in gen[bid]:
            if i >= idx:
                break
            if v == var:
                if strong:
                    cur = {d}
                else:
                    cur = cur | {d}
        return [defs[d][1:] for d in cur]

    def skip(self, nid, casts=True):
        """look through value-preserving wrappers"""
        while nid is not None and nid >= 0:
            n = self.nodes[nid]
            if n["k"] == "cast" and casts:
                nid = n["e"]
            elif n["k"] == "ctor" and n.get("copy") and len(n["a"]) >= 1:
                nid = n["a"][0]
            elif n["k"] == "init" and len(n["a"]) == 1:
                nid = n["a"][0]
            else:
                return nid
        return nid

    # -------------------------------------------------------- dominators etc.
    def dominators(self):
        if getattr(self, "_dom", None) is not None:
            return self._dom
        order = self.order()
        idx = {b: i for i, b in enumerate(order)}
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == self.entry:
                    continue
                new = None
                for p in self.blocks[b].pred:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self._dom = idom
        return idom

    def dominates(self, a, b):
        idom = self.dominators()
        if b not in idom:
            return True
        while True:
            if a == b:
                return True
            if b == self.entry:
                return False
            b = idom[b]

    def reach_from(self, bid):
        seen, st = set(), [bid]
        while st:
            x = st.pop()
            for s in self.blocks[x].succ:
                if s >= 0 and s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen

    def aborts(self, bid):
        """block ends in throw / noreturn"""
        b = self.blocks[bid]
        if b.nr:
            return True
        for e in b.els:
            if self.nodes[e]["k"] == "throw":
                return True
        return False


LOADED = []


class Program:
    def __init__(self):
        self.funcs = {}
        self.records = {}
        self.globals = []
        self.enums = {}
        self.ext = {}
        self.byname = defaultdict(list)
        self.ntu = 0

    @classmethod
    def load(cls, srcs=None):
        P = cls()
        for s, j in front.lower(srcs):
            with open(j) as f:
                d = json.load(f)
            P.add_tu(d, s)
        P.finish()
        LOADED.append(P)
        return P

    def add_tu(self, d, src):
        self.ntu += 1
        tu = {"types": d["types"], "strs": d["strs"], "src": src}
        for f in d["funcs"]:
            if f["key"] in self.funcs:
                continue
            F = Func(f, tu)
            F.prog = self
            self.funcs[F.key] = F
        for r in d["records"]:
            self.records.setdefault(r["name"], r)
        for g in d["globals"]:
            g["tu"] = src
            self.globals.append(g)
        for e in d["enums"]:
            self.enums[e["name"]] = e["vals"]
        for k, v in d["ext"].items():
            if v is None:
                continue
            if k not in self.ext:
                v = dict(v)
                v["params"] = [d["types"][t] if t >= 0 else "" for t in v["params"]]
                v["ret"] = d["types"][v["ret"]] if v["ret"] >= 0 else "void"
                self.ext[k] = v

    def fold(self):
        """put a lambda that a function only calls itself in place of the calls"""
        from .inline import inline
        for F in list(self.funcs.values()):
            if not F.blocks or F.nocfg or not any(n["k"] == "lambda" for n in F.nodes):
                continue
            made, held = {}, {}
            els = {e for b in F.blocks.values() for e in b.els}
            for i, n in enumerate(F.nodes):
                if n["k"] == "lambda" and n.get("f") in self.funcs and i in els:
                    made[i] = n["f"]
            for e in els:
                n = F.nodes[e]
                if n["k"] == "decl":
                    for v, x, *_ in n["d"]:
                        m = self.plain(F, x)
                        if m in made:
                            held[v] = m
            used = {}           # lambda node -> calls, or None
            calls = {}
            for e in els:
                n = F.nodes[e]
                if n["k"] == "call" and n.get("f") in made.values() and n.get("o", -1) >= 0:
                    o = self.plain(F, n["o"])
                    m = o if o in made else held.get(F.nodes[o]["v"]) if F.nodes[o]["k"] == "var" else None
                    if m is not None and made[m] == n["f"]:
                        calls.setdefault(m, set()).add(o)
            good = set()
            for m, os in calls.items():
                vs = {v for v, x in held.items() if x == m}
                reads = {i for i, n in enumerate(F.nodes) if n["k"] == "var" and n["v"] in vs}
                L = self.funcs[made[m]]
                if (L.ret or "").rstrip().endswith("&") or any(
                        n["k"] == "decl" and any(d[2] for d in n["d"]) for n in L.nodes):
                    continue
                if (len(vs) == 1 and reads <= os or not vs and os == {m}) and \
                        sum(f == made[m] for f in made.values()) == 1 and not any(
                            made[m] == n.get("f") for H in self.funcs.values() if H is not F for n in H.nodes
                            if n["k"] in ("call", "lambda")):
                    good.add(m)
            if not good:
                continue
            keys = {made[m] for m in good}
            N = inline(self, F, lambda n, e, H: H.key in keys, 200000)
            if any(n["k"] == "call" and n.get("f") in keys for n in N.nodes):
                continue
            for m in good:
                N.nodes[m] = {"k": "int", "val": 0, "t": "int", "L": N.nodes[m].get("L")}
            self.funcs[F.key] = N
            for k in keys:
                del self.funcs[k]

    def fold_helpers(self):
        """put the helper functions of a source file, which nothing outside it
        can call, in place of the calls"""
        from .inline import inline
        keys = {k for k, F in self.funcs.items() if "@" in k and F.rec is None and not F.islambda and F.blocks
                and not F.nocfg and not k.startswith("pybind11_init") and not F.tries
                and not (F.ret or "").rstrip().endswith("&") and not any(
                    n["k"] == "decl" and any(d[2] for d in n["d"]) for n in F.nodes)}
        if not keys:
            return
        users = {}
        for F in self.funcs.values():
            for n in F.nodes:
                k = n["k"]
                if k == "call" and n.get("f") in keys:
                    users.setdefault(n["f"], set()).add(F.key)
        # functions whose address is taken, and recursive ones, stay
        for F in self.funcs.values():
            cnt = {}
            for n in F.nodes:
                if n.get("f") in keys and n["k"] in ("fn", "call"):
                    cnt[n["f"]] = cnt.get(n["f"], 0) + (1 if n["k"] == "fn" else -1)
            keys -= {k for k, c in cnt.items() if c > 0}
        while True:
            bad = {k for k in keys if k in users and not users[k] - {k}} | {k for k in keys if k not in users}
            for k in list(keys - bad):
                seen, work = set(), [k]
                while work:
                    x = work.pop()
                    for u in users.get(x, ()):
                        if u in keys and u not in seen:
                            seen.add(u)
                            work.append(u)
                if k in seen:
                    bad.add(k)
            if not bad:
                break
            keys -= bad
        if not keys:
            return
        left = set()
        for fk in {u for k in keys for u in users.get(k, ())} - keys:
            F = self.funcs[fk]
            if not F.blocks or F.nocfg:
                left |= keys
                continue
            N = inline(self, F, lambda n, e, H: H.key in keys, 200000)
            left |= {n["f"] for n in N.nodes if n["k"] == "call" and n.get("f") in keys}
            self.funcs[fk] = N
        for k in keys - left:
            del self.funcs[k]

    @staticmethod
    def plain(F, x):
        while x is not None and x >= 0:
            n = F.nodes[x]
            if n["k"] == "cast":
                x = n["e"]
            elif n["k"] == "ctor" and len(n.get("a") or ()) == 1:
                x = n["a"][0]
            else:
                break
        return x

    def finish(self):
        for F in self.funcs.values():
            self.byname[F.name].append(F)
        self.subs = defaultdict(set)      # record -> direct subclasses
        for r in self.records.values():
            for b, _ in r["bases"]:
                self.subs[b].add(r["name"])
        self.overriders = defaultdict(set)
        for k, v in self.ext.items():
            for o in v.get("overrides", []) or []:
                self.overriders[o].add(k)
        self._callees = {}
        self._trans_over = {}
        self.fold()
        self.fold_helpers()
        self._callees = {}
        self.byname.clear()
        for F in self.funcs.values():
            self.byname[F.name].append(F)
        if len(self.funcs) < 100:
            raise AnalysisBroken("only %d functions lowered" % len(self.funcs))

    def param_readonly(self, fkey, i):
        e = self.ext.get(fkey)
        if not e:
            return True
        ps = e["params"]
        if i >= len(ps):
            return True
        t = ps[i]
        if t.endswith("&") and not t.endswith("&&"):
            return t.startswith("const ") or " const &" in t or "*const &" in t
        return True

    def derived(self, rec):
        """rec and all its transitive subclasses"""
        out, st = set(), [rec]
        while st:
            x = st.pop()
            if x in out:
                continue
            out.add(x)
            st.extend(self.subs.get(x, ()))
        return out

    def bases(self, rec):
        out, st = [], [rec]
        while st:
            x = st.pop(0)
            if x in out:
                continue
            out.append(x)
            r = self.records.get(x)
            if r:
                st.extend(b for b, _ in r["bases"])
        return out

    def isa(self, rec, base):
        return base in self.bases(rec)

    def all_overriders(self, key):
        if key in self._trans_over:
            return self._trans_over[key]
        out, st = set(), [key]
        while st:
            x = st.pop()
            if x in out:
                continue
            out.add(x)
            st.extend(self.overriders.get(x, ()))
        self._trans_over[key] = out
        return out

    def targets(self, F, nid):
        """possible callee keys of a call/ctor node"""
        n = F.nodes[nid]
        f = n.get("f")
        if not f:
            return set()
        e = self.ext.get(f, {})
        if n["k"] == "call" and e.get("virtual") and not n.get("qual"):
            return self.all_overriders(f)
        return {f}

    def callees(self, F):
        """keys possibly called from F (incl. lambdas created in it, ctors,
        deletes -> destructors)"""
        if F.key in self._callees:
            return self._callees[F.key]
        out = set()
        for n in F.nodes:
            k = n["k"]
            if k == "call" or k == "ctor":
                f = n.get("f")
                if f:
                    e = self.ext.get(f, {})
                    if k == "call" and e.get("virtual") and not n.get("qual"):
                        out |= self.all_overriders(f)
                    else:
                        out.add(f)
            elif k == "lambda" or k == "fn" or k == "meth":
                f = n.get("f")
                if f:
                    out.add(f)
            elif k == "delete":
                t = F.nodes[n["e"]].get("t", "")
                r = t.rstrip("*& ").replace("const ", "").strip()
                if r in self.records:
                    ks = [r]
                    if self.records[r]["vdtor"]:
                        ks = self.derived(r)
                    for x in ks:
                        out |= self.dtor_keys(x)
        self._callees[F.key] = out
        return out

    def dtor_keys(self, rec):
        return {f.key for b in self.bases(rec) for f in self.byname.get(b + "::~", [])}

    def reachable(self, roots):
        """{key: parent key} over repo functions"""
        par, st = {}, []
        for r in roots:
            if r not in par:
                par[r] = None
                st.append(r)
        while st:
            x = st.pop()
            F = self.funcs.get(x)
            if not F:
                continue
            for c in self.callees(F):
                if c not in par:
                    par[c] = x
                    st.append(c)
        return par

    def callers(self):
        if getattr(self, "_callers", None) is None:
            c = defaultdict(set)
            for F in self.funcs.values():
                for k in self.callees(F):
                    c[k].add(F.key)
            self._callers = c
        return self._callers

    @staticmethod
    def chain(par, k):
        out = []
        while k is not None:
            out.append(k)
            k = par[k]
        return list(reversed(out))


def short(key):
    """readable form of a function key"""
    return re.sub(r"\(.*", "", key)
