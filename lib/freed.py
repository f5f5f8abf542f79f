"""What has been deleted: access paths that may hold the address of an object
that is gone, and containers that may hold such addresses, on every path of
every function, with summaries of what a call deletes.

An item of the state is ("p", X) - the object X points to is gone -
("e", C) - an element of container C points to one that is gone - or

("x", it) - the element iterator it stood at has left its container, or the
container has moved its elements."""
from .guards import negate
from .vpath import subst, walk

ELEM = {"front", "back", "at", "operator[]", "find", "begin", "top", "data", "lower_bound", "upper_bound", "rbegin",
        "cbegin"}
ITER = {"begin", "find", "cbegin", "lower_bound", "upper_bound", "rbegin", "end", "erase"}
DROP = {"clear", "erase", "pop_front", "pop_back", "pop", "assign", "swap", "resize", "remove", "operator=", "extract"}
PUT = {"push_back", "push_front", "insert", "emplace", "emplace_back", "emplace_front", "push", "operator="}
KEYED = {"erase", "find", "count", "at", "operator[]", "contains", "operator==", "operator!=", "size"}


def under(p, q):
    """is q a subterm of p"""
    return p == q or isinstance(p, tuple) and any(under(x, q) for x in p if isinstance(x, tuple))


def root(p):
    while isinstance(p, tuple) and p[0] in ("mem", "elem", "idx"):
        p = p[1]
    if isinstance(p, tuple) and p[0] == "call":
        return root(p[2])
    return p


class Freed:
    def __init__(self, P, G):
        self.P, self.G = P, G
        self._sum = {}
        self._busy = set()
        self._deref = {}
        self._wr = None
        self._null = None
        self._fix = {}
        self.found = {}
        self.lost = {}
        self.calls = P.callers()
        self.checked = 0

    # ------------------------------------------------------------- paths
    def raw(self, F, i, d=0):
        P = self.P
        i = F.skip(i) if i is not None and i >= 0 else -1
        if i is None or i < 0 or d > 30:
            return ("?",)
        n = F.nodes[i]
        k = n["k"]
        R = lambda x: self.raw(F, x, d + 1)
        if k == "this":
            return ("T",)
        if k == "var":
            v = n["v"]
            if F.vkind[v] == "p" and (not F.islambda or F.vowner[v] == F.key):
                return ("P", F.vpidx[v])
            return ("V", v)
        if k == "mem":
            return ("mem", R(n["b"]), n["n"])
        if k == "un" and n["op"] in ("*", "&"):
            return R(n["e"])
        if k in ("ctor", "init", "dref") and len(n.get("a", ())) == 1:
            return R(n["a"][0])
        if k == "idx":
            return ("idx", R(n["b"]), R(n["i"]))
        if k in ("int", "bool", "str", "flt"):
            return ("c", str(n.get("val")))
        if k in ("null", "zero"):
            return ("null",)
        if k == "enum":
            return ("enum", n["n"])
        if k == "call" and n.get("f"):
            b = P.ext[n["f"]]["base"]
            if b in ("operator*", "operator->") and not n["a"]:
                o = R(n["o"])
                # what find and begin give stands for the element
                return ("elem", o)
            if b in ("move", "forward", "get") and n["a"] and n.get("o", -1) < 0:
                return R(n["a"][0])
            if n.get("o", -1) >= 0 and not any(t in P.funcs for t in P.targets(F, i)):
                return ("call", b, R(n["o"])) + tuple(R(x) for x in n["a"])
            g = self.getter(F, i, n)
            if g is not None:
                return subst(g, [R(x) for x in n["a"]], R(n["o"]) if n.get("o", -1) >= 0 else None)
        if k == "bin" and n["op"] in ("+", "-"):
            return ("bin", n["op"], R(n["l"]), R(n["r"]))
        return ("n", F.key, i)

    _get = {}

    def getter(self, F, i, n):
        """the member a function only returns"""
        ts = self.P.targets(F, i)
        if len(ts) != 1:
            return None
        k = ts[0] if isinstance(ts, list) else next(iter(ts))
        if k not in self._get:
            self._get[k] = None
            H = self.P.funcs.get(k)
            if H is not None and H.blocks:
                rs = [m for _, _, m in H.all_elements() if m["k"] == "ret"]
                if len(rs) == 1 and rs[0].get("e", -1) >= 0 and not any(
                        m["k"] in ("bin", "call", "new", "delete", "un") for _, _, m in H.all_elements()):
                    r = self.raw(H, rs[0]["e"])
                    if r[0] == "mem" and not any(isinstance(x, tuple) and x and x[0] in ("V", "n", "?")
                                                 for x in walk(r)):
                        self._get[k] = r
        return self._get[k]

    def nulls(self):
        """members that are never given anything but null"""
        if self._null is None:
            some, seen = set(), set()
            for F in self.P.funcs.values():
                for _, e, n in F.all_elements():
                    k = n["k"]
                    if k == "bin" and n["op"] == "=":
                        m = F.nodes[F.skip(n["l"])]
                        r = n["r"]
                    elif k == "cinit" and n.get("n") and n.get("e", -1) >= 0:
                        m, r = n, n["e"]
                    elif k == "un" and n["op"] == "&" or k == "call":
                        for x in (n.get("a") or []) + ([n["e"]] if k == "un" else []):
                            q = F.nodes[F.skip(x)]
                            if q["k"] == "mem" and k == "un":
                                some.add((q["r"], q["n"]))
                        continue
                    else:
                        continue
                    if m["k"] in ("mem", "cinit"):
                        seen.add((m["r"], m["n"]))
                        if self.raw(F, r) != ("null",):
                            some.add((m["r"], m["n"]))
            self._null = seen - some
        return self._null

    @staticmethod
    def container(p, st):
        """the container an element path belongs to"""
        while isinstance(p, tuple):
            if p[0] == "mem" and p[2] in ("second", "first"):
                p = p[1]
                if p[0] in ("V", "P"):
                    p = ("elem", p)
            elif p[0] == "elem":
                p = p[1]
                if p[0] in ("V", "P"):
                    for a in st:
                        if a[0] == "it" and a[1] == p:
                            return a[2]
                    p = next((a[2] for a in st if a[0] == "al" and a[1] == p), None)
            elif p[0] == "call" and p[1] in ELEM and p[2] is not None:
                return p[2]
            elif p[0] == "idx":
                return p[1]
            else:
                return None
        return None

    # -------------------------------------------------------- what is written
    def writes(self, key):
        """names of members a function may assign or empty, with its callees"""
        if self._wr is None:
            self._wr = {}
            for F in self.P.funcs.values():
                s = set()
                for _, e, n in F.all_elements():
                    k = n["k"]
                    t = -1
                    if k == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                        t = n["l"]
                    elif k == "call" and n.get("f") and n.get("o", -1) >= 0 and self.P.ext[n["f"]]["base"] in DROP:
                        t = n["o"]
                    if t >= 0:
                        for x in walk(self.raw(F, t)):
                            if isinstance(x, tuple) and x and x[0] == "mem":
                                s.add(x[2])
                self._wr[F.key] = s
            change = True
            tg = {F.key: {t for _, e, n in F.all_elements() if n["k"] == "call" and n.get("f")
                          for t in self.P.targets(F, e) if t in self.P.funcs} for F in self.P.funcs.values()}
            while change:
                change = False
                for k, ts in tg.items():
                    for t in ts:
                        if not self._wr[t] <= self._wr[k]:
                            self._wr[k] |= self._wr[t]
                            change = True
        return self._wr.get(key, set())

    def derefs(self, key, i):
        """may the function follow its i-th parameter"""
        if (key, i) in self._deref:
            return self._deref[(key, i)]
        self._deref[(key, i)] = False
        F = self.P.funcs.get(key)
        if F is None:
            return False
        r = False
        for _, e, n in F.all_elements():
            if n["k"] == "mem" and self.raw(F, n["b"]) == ("P", i) or \
                    n["k"] == "call" and n.get("o", -1) >= 0 and self.raw(F, n["o"]) == ("P", i):
                r = True
                break
            if n["k"] == "call" and n.get("f"):
                for j, a in enumerate(n["a"]):
                    if self.raw(F, a) == ("P", i) and any(self.derefs(t, j) for t in self.P.targets(F, e)):
                        r = True
        self._deref[(key, i)] = r
        return r

    # -------------------------------------------------------------- steps
    def put(self, st, item, why):
        st = dict(st)
        st.setdefault(item, why)
        return st

    def loops(self, F):
        c = F.__dict__.get("_fr_loops")
        if c is None:
            from .common import natural_loops
            c = F._fr_loops = natural_loops(F)
        return c

    def ptr(self, F, i):
        """is the expression a pointer"""
        n = F.nodes[F.skip(i)]
        t = (n.get("t") or "").strip()
        if n["k"] == "var":
            t = F.vtype[n["v"]]
        return t.rstrip("const ").rstrip().endswith("*") or t.endswith("* const") or t.endswith("*&") or \
            t.endswith("* &")

    def free(self, F, st, X, why):
        """X is deleted"""
        out = {k: v for k, v in st.items() if not (k[0] == "e" and under(k[1], X))}
        todo, done = [X], set()
        while todo:
            x = todo.pop()
            if x in done:
                continue
            done.add(x)
            out.pop(("o", x), None)
            out[("p", x)] = why
            c = self.container(x, st)
            if c is not None:
                out.setdefault(("e", c), why)
            for a in st:
                if a[0] == "al" and a[1] == x:
                    todo.append(a[2])
                elif a[0] == "al" and a[2] == x:
                    todo.append(a[1])
                elif a[0] in ("in", "at") and a[1] == x and self.together(F, st[a], why):
                    out.setdefault(("e" if a[0] == "in" else "p", a[2]), why)
        # what was reached through the object is gone with it
        for k in list(out):
            if k[0] == "p" and k[1] not in done and any(under(k[1], x) for x in done):
                del out[k]
        return out

    def together(self, F, put, why):
        """can the keeping of a value and its deletion be on one path"""
        if put is None or not F.blocks:
            return True
        for f in why[1]:
            for x in walk(f):
                if isinstance(x, tuple) and len(x) == 2 and x[0] == "V" and isinstance(x[1], int) and \
                        any(d[0] == x[1] and F.where().get(d[1], (None,))[0] in self.between(F, put[0], why[0])
                            for d in F.defs_of()[0]):
                    return False
        return self.feasible(F, why[0], put)

    def kill_var(self, st, v, keep_it=False, F=None):
        out = {}
        for k, w in st.items():
            if k[0] == "it" and keep_it and k[1] == v:
                out[k] = w
                continue
            if any(under(x, v) for x in k[1:] if isinstance(x, tuple)):
                if k[0] == "e":
                    # the container was an element of another: that one now holds what is gone
                    c = self.container(k[1], st)
                    if c is not None and not under(c, v):
                        out.setdefault(("e", c), w)
                if F is not None and k[0] in ("p", "e") and k[1] != v and self.container(k[1], st) is None:
                    self.lost.setdefault((F.key, k), w)
                continue
            out.setdefault(k, w)
        return out

    def kill_path(self, st, p):
        return {k: w for k, w in st.items()
                if not any(isinstance(x, tuple) and under(x, p) for x in k[1:])}

    def kill_drop(self, st, c):
        """elements leave container c"""
        out = {}
        for k, w in st.items():
            if k[0] in ("e", "in") and k[-1] == c:
                continue
            if k[0] == "p" and k[1] != c and under(k[1], c) and self.container(k[1], st) is not None:
                continue
            if k[0] == "al" and any(x != c and (under(x, c) or self.container(x, st) == c) for x in k[1:]):
                continue
            out[k] = w
        return out

    def report(self, F, e, what, path, why):
        if self.quiet:
            return
        if not self.feasible(F, e, why):
            return
        self.found.setdefault((F.key, what, repr(path)), (F, e, what, path, why))

    def feasible(self, F, e, why):
        """can the delete and the use be on one path: are their conditions on
        what never changes compatible"""
        fixed = lambda f: all(self.fixed(F, x, why[0], e) for x in f[1:])
        here = {f for f in self.G.at(F, e) if fixed(f)}
        there = {f for f in why[1] if fixed(f)}
        return not any(negate(f) in there for f in here if f[0] in ("==", "!=", "<", "<=", "true", "false")
                       ) and not any(self.contra(f, g) for f in here for g in there)

    @staticmethod
    def contra(f, g):
        return False

    def between(self, F, a, b):
        """blocks on paths from a to b that do not go round a loop again"""
        k = (F.key, a, b)
        if k not in self._fix:
            back = {(x, h) for h, body in self.loops(F) for x in body if h in F.blocks[x].succ}
            def reach(s, nxt):
                seen, work = set(), [s]
                while work:
                    x = work.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    work += nxt(x)
                return seen
            wa, wb = F.where().get(a), F.where().get(b)
            if wa is None or wb is None:
                return set(F.blocks)
            f = reach(wa[0], lambda x: [s for s in F.blocks[x].succ if s >= 0 and (x, s) not in back])
            g = reach(wb[0], lambda x: [s for s in F.blocks[x].pred if (s, x) not in back])
            self._fix[k] = (f & g) or set(F.blocks)
        return self._fix[k]

    def fixed(self, F, p, a=None, b=None):
        for x in walk(p):
            if isinstance(x, tuple) and x:
                if x[0] == "V" and len(x) == 2 and a is not None:
                    if F.vkind[x[1]] != "l":
                        return False
                    mid = self.between(F, a, b)
                    if any(d[0] == x[1] and F.where().get(d[1], (None,))[0] in mid for d in F.defs_of()[0]):
                        return False
                elif x[0] == "P" and len(x) == 2:
                    v = next((v for v in F.params if F.vpidx[v] == x[1]), None)
                    if v is None or any(d[0] == v and d[3] in ("assign", "update", "escape")
                                        for d in F.defs_of()[0]):
                        return False
                elif x[0] in ("V", "mem", "call", "T", "n", "A"):
                    return False
        return True

    def use(self, F, e, p, st):
        if self.dead(st, p):
            self.report(F, e, "use", p, self.dead(st, p))
            return
        c = self.container(p, st)
        if c is not None and ("e", c) in st:
            why = st[("e", c)]
            self.use_elem(F, e, p, c, why)

    def use_elem(self, F, e, p, c, why):
        # the elements of the same traversal are different ones
        w, u = F.where().get(why[0]), F.where().get(e)
        if w is None or u is None:
            return
        if any(w[0] in b and u[0] in b for h, b in self.loops(F)):
            return
        self.report(F, e, "element", p, why)

    def step(self, F, e, st):
        P = self.P
        n = F.nodes[e]
        k = n["k"]
        if k == "mem":
            if self.live(st):
                B = self.raw(F, n["b"])
                if ("x", B) in st:
                    self.report(F, e, "iterator", B, st[("x", B)])
                self.use(F, e, B, st)
            return st
        if k == "idx":
            if self.live(st) and self.ptr(F, n["b"]):
                self.use(F, e, self.raw(F, n["b"]), st)
            return st
        if k == "delete":
            X = self.raw(F, n["e"])
            m = F.nodes[F.skip(n["e"])]
            if X == ("null",) or m["k"] == "mem" and (m["r"], m["n"]) in self.nulls():
                return st
            self.checked += 1
            if self.dead(st, X):
                self.report(F, e, "twice", X, self.dead(st, X))
            else:
                c = self.container(X, st)
                if c is not None and ("e", c) in st:
                    self.use_elem(F, e, X, c, st[("e", c)])
            why = (e, self.G.at(F, e))
            return self.free(F, st, X, why)
        if k == "ret" and n.get("e", -1) >= 0 and self.live(st):
            X = self.raw(F, n["e"])
            if self.dead(st, X) and self.ptr(F, n["e"]):
                self.report(F, e, "returned", X, self.dead(st, X))
            return st
        if k == "decl":
            for v, i, *_ in n["d"]:
                V = ("V", v)
                st = self.kill_var(st, V, F=F)
                if i is not None and i >= 0:
                    st = self.bind(F, st, V, i, e)
            return st
        if k == "bin" and n["op"] in ("=", "+=", "-=") or k == "un" and n["op"].strip("px") in ("++", "--") or \
                k == "un" and ("++" in n["op"] or "--" in n["op"]):
            l = n["l"] if k == "bin" else n["e"]
            L = self.raw(F, l)
            R = self.raw(F, n["r"]) if k == "bin" and n["op"] == "=" else None
            if L[0] in ("V", "P"):
                st2 = self.kill_var(st, L, F=F)
            else:
                st2 = self.kill_path(st, L)
                c = self.container(L, st)
                if c is not None:
                    st2 = {q: w for q, w in st2.items() if q != ("e", c)}
            if R is not None:
                if ("p", R) in st and ("p", R) in st2 and self.ptr(F, n["r"]):
                    st2 = self.put(st2, ("p", L), st[("p", R)])
                st2 = self.bind(F, st2, L, n["r"], e)
            return st2
        if k == "cinit" and not n.get("basec") and not n.get("deleg") and n.get("e", -1) >= 0 and n.get("n"):
            L = ("mem", ("T",), n["n"])
            return self.bind(F, self.kill_path(st, L), L, n["e"], e)
        if k == "call" and n.get("f"):
            return self.call(F, e, n, st)
        return st

    @staticmethod
    def live(st):
        return any(k[0] in ("p", "e", "o", "x") for k in st)

    def bind(self, F, st, L, r, e):
        """L now has the value of r"""
        R = self.raw(F, r)
        if under(R, L):
            return st
        m = F.nodes[F.skip(r)]
        while m["k"] in ("ctor", "init") and len(m.get("a", ())) == 1:
            m = F.nodes[F.skip(m["a"][0])]
        if m["k"] == "call" and m.get("f") and m.get("o", -1) >= 0 and self.P.ext[m["f"]]["base"] in ITER:
            c = self.raw(F, m["o"])
            if c[0] == "V":
                # the hidden range of a for loop
                for a in st:
                    if a[0] == "al" and a[1] == c:
                        c = a[2]
                        break
            if not under(c, L):
                return self.put(st, ("it", L, c), None)
        for a in list(st):
            if a[0] == "it" and a[1] == R and not under(a[2], L):
                st = self.put(st, ("it", L, a[2]), None)
        if R[0] in ("V", "P") and L[0] == "mem" and self.ptr(F, r):
            st = self.put(st, ("at", R, L), (e, self.G.at(F, e)))
        if R[0] in ("V", "P", "mem", "elem", "call", "idx") and R != L:
            return self.put(st, ("al", L, R), None)
        return st

    def call(self, F, e, n, st):
        P = self.P
        b = P.ext[n["f"]]["base"]
        repo = any(t in P.funcs for t in P.targets(F, e))
        o = n.get("o", -1)
        O = self.raw(F, o) if o >= 0 else None
        if not repo:
            if O is not None:
                if b in ("operator++", "operator--", "operator*", "operator->", "operator+", "operator-") and \
                        ("x", O) in st:
                    self.report(F, e, "iterator", O, st[("x", O)])
                if b in ("operator++", "operator--", "operator+=", "operator-="):
                    return self.kill_var(st, O, keep_it=True, F=F) if O[0] in ("V", "P") else self.kill_path(st, O)
                if self.live(st) and b not in ("operator*", "operator->") and not b.startswith("~"):
                    self.use(F, e, O, st)
                if b == "operator=":
                    if O[0] in ("V", "P"):
                        st = self.kill_var(st, O, F=F)
                    else:
                        st = self.kill_path(st, O)
                        c = self.container(O, st)
                        if c is not None:
                            st = {q: w for q, w in st.items() if q != ("e", c)}
                    return self.bind(F, st, O, n["a"][0], e)
                st = self.moved(F, e, n, b, O, st)
                if b in DROP:
                    st = self.kill_drop(st, O)
                elif b in PUT:
                    for a in n["a"]:
                        for y in self.parts(F, a):
                            X = self.raw(F, y)
                            if X[0] in ("V", "P") and self.ptr(F, y):
                                if self.dead(st, X):
                                    self.report(F, e, "kept", X, self.dead(st, X))
                                st = self.put(st, ("in", X, O), (e, self.G.at(F, e)))
            elif b in ("operator*", "operator->"):
                pass
            # a variable handed over by reference may be given another value
            return st
        # functions of the repository
        args = [self.raw(F, a) for a in n["a"]]
        if self.live(st):
            if O is not None and not P.ext[n["f"]].get("static"):
                self.use(F, e, O, st)
            for j, a in enumerate(args):
                if self.dead(st, a) and self.ptr(F, n["a"][j]) and \
                        any(self.derefs(t, j) for t in P.targets(F, e)):
                    self.report(F, e, "passed", a, self.dead(st, a))
        adds, wr = {}, set()
        for t in P.targets(F, e):
            H = P.funcs.get(t)
            if H is None:
                continue
            wr |= self.writes(t)
            for it, facts in self.summary(t).items():
                x = subst(it[1], args, O)
                if under(x, ("?",)):
                    continue
                need = set()
                skip = False
                for f in facts:
                    g = (f[0],) + tuple(subst(y, args, O) for y in f[1:])
                    if self.false(g):
                        skip = True
                    need.add(g)
                if not skip:
                    adds[(it[0], x)] = need
        if self.live(st) and wr:
            st = {k: w for k, w in st.items() if k[0] not in ("p", "e", "al", "in", "at") or not any(
                isinstance(y, tuple) and y and y[0] == "mem" and y[2] in wr for x in k[1:] for y in walk(x))
                or (k[0], k[-1]) in adds}
        for (kind, x), need in adds.items():
            why = (e, frozenset(self.G.at(F, e)) | frozenset(need))
            if kind == "p":
                if self.dead(st, x):
                    self.report(F, e, "twice", x, self.dead(st, x))
                st = self.free(F, st, x, why)
            else:
                st = self.put(st, (kind, x), why)
        return st

    def parts(self, F, a):
        """the values a pair or the like is made of"""
        if a is None or a < 0:
            return
        a = F.skip(a)
        n = F.nodes[a]
        if n["k"] in ("ctor", "init") or n["k"] == "call" and n.get("o", -1) < 0 and n.get("f") and \
                self.P.ext[n["f"]]["base"] in ("make_pair", "make_tuple", "move", "forward"):
            for x in n.get("a") or ():
                yield from self.parts(F, x)
        else:
            yield a

    def moved(self, F, e, n, b, O, st):
        """iterators that no longer stand for an element"""
        if b not in DROP and b not in PUT and b != "reserve" and b != "rehash":
            return st
        C = O
        if O[0] == "V":
            for a in st:
                if a[0] == "al" and a[1] == O:
                    C = a[2]
                    break
        gone = set()
        t = self.kind(F, n["o"])
        arg = [self.raw(F, a) for a in n["a"]]
        for k in st:
            if k[0] != "it" or k[2] not in (C, O):
                continue
            if b == "erase" and k[1] in arg or b == "clear":
                gone.add(k[1])
            elif t in ("vector", "deque", "basic_string") and b in DROP | PUT and b != "operator=" and \
                    not (t == "deque" and b.startswith("pop")) and not (t == "vector" and b == "pop_back"):
                gone.add(k[1])
            elif t in ("unordered_map", "unordered_set", "unordered_multimap") and b in PUT:
                gone.add(k[1])
        why = (e, self.G.at(F, e))
        for v in gone:
            st = self.put(st, ("x", v), why)
        return st

    def kind(self, F, i):
        n = F.nodes[F.skip(i)]
        t = F.vtype[n["v"]] if n["k"] == "var" else n.get("t") or ""
        t = t.replace("const ", "").replace("std::", "").strip()
        return t.split("<")[0].strip()

    @staticmethod
    def false(f):
        """a condition on constants that does not hold"""
        if len(f) < 3:
            return False
        val = {}
        for x in f[1:]:
            if x in (("c", "0"), ("c", "false"), ("c", "False"), ("c", "0.0")):
                val[x] = 0.0
            elif x in (("c", "1"), ("c", "true"), ("c", "True")):
                val[x] = 1.0
            elif isinstance(x, tuple) and x[0] == "c":
                try:
                    val[x] = float(x[1])
                except (ValueError, TypeError):
                    return False
            else:
                return False
        a, b = val[f[1]], val[f[2]]
        return not {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b}.get(f[0], True)

    # -------------------------------------------------------------- solving
    @staticmethod
    def join(a, b, header=False):
        may = ("p", "e", "x", "o", "in", "at") if header else ("p", "e", "x", "in", "at")
        out = {}
        for k, w in a.items():
            if k[0] in may or k in b:
                out[k] = w
        for k, w in b.items():
            if k[0] in may:
                out.setdefault(k, w)
        return out

    def interesting(self, F):
        for _, e, n in F.all_elements():
            if n["k"] == "delete":
                return True
            if n["k"] == "call" and n.get("f"):
                for t in self.P.targets(F, e):
                    if t in self.P.funcs and self.summary(t):
                        return True
        return False

    def mark(self, F, q, s, st, others):
        """where only some of the paths that meet have kept a value, it is known
        under the conditions of these"""
        out = None
        for k, w in st.items():
            if k[0] in ("in", "at") and not all(k in o for o in others):
                if out is None:
                    out = dict(st)
                    b = F.blocks[q]
                    fs = set(self.G.entry(F).get(q, ()))
                    for e in b.els:
                        fs = self.G.step(F, e, frozenset(fs))
                    fs = set(fs)
                    if b.tc is not None and b.tc >= 0 and len(b.succ) == 2 and b.succ[0] != b.succ[1]:
                        fs |= set(self.G.cond(F, b.tc, b.succ[0] == s))
                    at = b.els[-1] if b.els else None
                if at is None and w is None:
                    continue
                out[k] = (w[0] if w else at, frozenset(fs) | (w[1] if w else frozenset()))
        return st if out is None else out

    def known(self, F):
        """what a comparison has shown to be in a container, by block"""
        out = {}
        for b, fs in self.G.entry(F).items():
            for f in fs:
                if f[0] != "==":
                    continue
                for x, y in ((f[1], f[2]), (f[2], f[1])):
                    if isinstance(x, tuple) and x[0] in ("V", "P"):
                        c = self.container(y, ())
                        if c is not None:
                            out.setdefault(b, []).append(("in", x, c))
        return out

    def run(self, F, start=None, quiet=True):
        IN = {F.entry: dict(start or {})}
        self.quiet_was = getattr(self, "quiet", True)
        self.quiet = True
        work = [F.entry]
        order = {b: i for i, b in enumerate(F.order())}
        n = 0
        OUT = {}
        heads = {h for h, b in self.loops(F)}
        known = self.known(F) if any(m["k"] == "delete" for _, _, m in F.all_elements()) else {}
        while work:
            work.sort(key=lambda b: order.get(b, 0))
            b = work.pop(0)
            n += 1
            if n > 60 * len(F.blocks) + 100:
                break
            st = IN[b]
            if b in known:
                st = dict(st)
                for k in known[b]:
                    st.setdefault(k, None)
            for e in F.blocks[b].els:
                st = self.step(F, e, st)
            OUT[b] = st
            for s in F.blocks[b].succ:
                if s < 0:
                    continue
                new = None
                ts = [(q, self.edge(F, q, s, OUT[q])) for q in F.blocks[s].pred if q in OUT]
                for q, t in ts:
                    if len(ts) > 1:
                        t = self.mark(F, q, s, t, [x for _, x in ts])
                    new = t if new is None else self.join(new, t, s in heads)
                if s not in IN or set(new) != set(IN[s]) or any(
                        k[0] in ("in", "at") and w != IN[s][k] for k, w in new.items()):
                    IN[s] = new
                    if s not in work:
                        work.append(s)
        if not quiet:
            self.quiet = False
            for b in IN:
                st = IN[b]
                if b in known:
                    st = dict(st)
                    for k in known[b]:
                        st.setdefault(k, None)
                for e in F.blocks[b].els:
                    st = self.step(F, e, st)
        self.quiet = self.quiet_was
        out = {}
        for p in F.blocks[F.exit].pred:
            if p in OUT and not F.aborts(p):
                out = self.join(out, self.edge(F, p, F.exit, OUT[p])) if out else dict(OUT[p])
        return {k: w for k, w in out.items() if k[0] in ("p", "e")}

    def edge(self, F, b, s, st):
        """what a turn of a loop deleted is old in the next one: if some path of
        that turn gives the variable a new object, the others are taken to be
        those that cannot happen when it is needed"""
        for h, body in self.loops(F):
            if s == h:
                if any(k[0] == "p" and k[1][0] in ("V", "P") for k in st):
                    st = {(("o",) + k[1:] if k[0] == "p" and k[1][0] in ("V", "P") else k): w
                          for k, w in st.items()}
                break
        return st

    def dead(self, st, p):
        return st.get(("p", p)) or st.get(("o", p))

    def summary(self, key):
        """items rooted at the receiver or parameters that are gone when the
        function returns, with the conditions on parameters"""
        if key in self._sum:
            return self._sum[key]
        if key in self._busy:
            return {}
        F = self.P.funcs[key]
        self._busy.add(key)
        r = {}
        if F.blocks and F.kind != "dtor" and not F.base.startswith("~") and self.interesting(F):
            for k, w in self.run(F).items():
                q = root(k[1])
                if q == ("T",) or q and q[0] == "P":
                    if any(isinstance(x, tuple) and x and x[0] in ("V", "n", "?") for x in walk(k[1])):
                        # an element of something: what holds it
                        continue
                    r[k] = frozenset(f for f in w[1] if self.fixed(F, ("t",) + tuple(f[1:])) and any(
                        isinstance(x, tuple) and x and x[0] == "P" for y in f[1:] for x in walk(y)))
        self._busy.discard(key)
        self._sum[key] = r
        return r
