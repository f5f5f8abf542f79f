"""Agent accounting.

A dataflow analysis that follows every vehicle / passenger pointer through the
containers that hold agents. Each path carries an account: for each agent
token, +1 per container it was put into (or retirement), -1 per container it
was taken from (or creation). An account has to be empty when a function that
cannot be completed by its caller returns.

Tokens
   ('front',C) ('back',C) ('at',C,i)   the element at a position of container C
   ('elem',v)                          the element under iterator variable v
   ('taken',site)                      an element removed at that site
   ('new',site)                        an agent created at that site
   ('P',i) ('T',)                      parameter i / the receiver
   ('all',C) ('range',C,..)            bulk contents
   ('opq',site)                        anything else
   ('stale',site,...)                  a token whose position moved on
Container paths are canonical expressions, see cpath()."""
import re
from collections import defaultdict

from .common import is_assign

CONT_RE = re.compile(r"^(const )?std::(deque|list|vector|unordered_map|map|unordered_multimap)<(.*)>$")
MAXSTATES = 400


def strip_t(t):
    t = t.replace("const ", "").strip()
    while t.endswith(("&", "*")) or t.endswith(" const"):
        t = t[:-6] if t.endswith(" const") else t[:-1]
        t = t.strip()
    return t


class Balance:
    def __init__(self, P, agents=("MNM_Veh", "MNM_Passenger"), secondary=(),
                 retire_field="m_finish_time"):
        self.P = P
        self.agents = set()
        for a in agents:
            self.agents |= P.derived(a)
        self.secondary = set(secondary)
        self.retire_field = retire_field
        self.viol = []
        self.sum = {}
        self.nevents = 0
        self.ninserts = self.nremoves = self.ncreate = self.nretire = 0
        self.containers = set()
        self._ctype = {}
        self.active = self._active()
        self._solve()

    # ----------------------------------------------------------------- types
    def agent_ptr(self, t):
        t = t.replace("const ", "").replace(" const", "").rstrip("& ").strip()
        if not t.endswith("*") or t.endswith("**"):
            return False
        return t[:-1].strip() in self.agents

    def pair_agent(self, t):
        t = t.replace("const ", "").rstrip("& ").strip()
        m = re.match(r"std::pair<(.*?\*)( ?const)?, (int|double)>$", t)
        return bool(m) and self.agent_ptr(m.group(1))

    def agent_val(self, t):
        return self.agent_ptr(t) or self.pair_agent(t)

    def cont(self, t):
        """container of agents that is a place"""
        t = t.rstrip("&* ").strip()
        if t in self._ctype:
            return self._ctype[t]
        r = False
        m = CONT_RE.match(t)
        if m:
            inner = m.group(3)
            kind = m.group(2)
            if kind in ("deque", "list", "vector"):
                r = self.agent_val(inner.strip())
            else:
                mm = re.match(r"(.*?\*), (int|double)$", inner)
                r = bool(mm) and self.agent_ptr(mm.group(1))
        self._ctype[t] = r
        return r

    # ---------------------------------------------------------- active subset
    def _active(self):
        P = self.P
        act = set()
        for F in P.funcs.values():
            if self._direct(F):
                act.add(F.key)
        rev = P.callers()
        work = list(act)
        while work:
            k = work.pop()
            for c in rev.get(k, ()):
                if c not in act:
                    act.add(c)
                    work.append(c)
        return act

    def _direct(self, F):
        for n in F.nodes:
            k = n["k"]
            if k == "call" and n.get("o", -1) >= 0 and n.get("f"):
                o = F.nodes[F.skip(n["o"])]
                if self.cont(o.get("t", "")):
                    b = self.P.ext[n["f"]]["base"]
                    if b in MUT:
                        return True
            elif k == "new" and strip_t(n["t"]) in self.agents:
                return True
            elif is_assign(n) and F.nodes[F.skip(n["l"])]["k"] == "mem" and \
                    F.nodes[F.skip(n["l"])]["n"] == self.retire_field and F.kind != "ctor":
                return True
        return False

    # ------------------------------------------------------- canonical paths
    def cpath(self, F, nid, d=0):
        nid = F.skip(nid)
        if nid is None or nid < 0:
            return ("?",)
        n = F.nodes[nid]
        k = n["k"]
        if d > 12:
            return ("deep", nid)
        if k == "this":
            return ("T",)
        if k == "var":
            v = n["v"]
            s = self._single(F, v)
            if s is not None:
                return self.cpath(F, s, d + 1)
            if F.vkind[v] == "p":
                return ("P", F.vpidx[v])
            return ("V", v)
        if k == "mem":
            return ("mem", self.cpath(F, n["b"], d + 1), n["n"])
        if k == "un" and n["op"] in ("*", "&"):
            return self.cpath(F, n["e"], d + 1)
        if k == "un":
            return ("un", n["op"], self.cpath(F, n["e"], d + 1))
        if k == "bin":
            return ("bin", n["op"], self.cpath(F, n["l"], d + 1), self.cpath(F, n["r"], d + 1))
        if k == "idx":
            return ("idx", self.cpath(F, n["b"], d + 1), self.cpath(F, n["i"], d + 1))
        if k in ("int", "flt", "bool", "str"):
            return ("c", str(n.get("val")))
        if k == "call":
            b = self.P.ext[n["f"]]["base"] if n.get("f") else "?"
            o = self.cpath(F, n["o"], d + 1) if n.get("o", -1) >= 0 else None
            if b in ("operator*", "operator->", "get", "operator int", "operator double") and not n["a"]:
                return o
            a = tuple(self.cpath(F, x, d + 1) for x in n["a"])
            if b in ("operator[]", "at") and a:
                return ("idx", o, a[0])
            if b == "operator()" and not a:      # TInt() value
                return o
            return ("call", b, o) + a
        if k == "ctor" and len(n["a"]) == 1:
            return self.cpath(F, n["a"][0], d + 1)
        if k == "null":
            return ("c", "null")
        return ("n", F.key, nid)

    def _single(self, F, v):
        """initialiser of a local that has exactly one definition with a value
        and denotes an alias (reference, or pointer to something)"""
        c = F.__dict__.setdefault("_singles", {})
        if v in c:
            return c[v]
        c[v] = None
        if F.vkind[v] != "l":
            return None
        t = F.vtype[v]
        if self.agent_val(t) and not t.endswith("&"):
            return None
        if self.agent_val(t):
            return None
        if "iterator" in t or t in ("bool", "int", "unsigned long", "double", "unsigned int"):
            return None
        ds = [x for x in F.defs_of()[0] if x[0] == v]
        vals = [x for x in ds if x[2] is not None and x[3] in ("decl", "assign")]
        other = [x for x in ds if x[3] in ("update",)]
        if len(vals) == 1 and not other:
            n = F.nodes[F.skip(vals[0][2])]
            if n["k"] in ("mem", "var", "idx", "un", "call", "cast", "this"):
                if t.endswith("&") or t.endswith("*"):
                    c[v] = vals[0][2]
                elif self.cont(t) and not self._mutated(F, v):
                    c[v] = vals[0][2]       # a copy that is only read
        return c[v]

    def _mutated(self, F, v):
        for n in F.nodes:
            if n["k"] != "call" or not n.get("f"):
                continue
            if n.get("o", -1) >= 0 and F.local_of(F.skip(n["o"])) == v and \
                    self.P.ext[n["f"]]["base"] in MUT:
                return True
            for a in n["a"]:
                if a >= 0 and F.local_of(F.skip(a)) == v and self.P.ext[n["f"]].get("repo"):
                    return True
        return False

    @staticmethod
    def mentions(path, v):
        if isinstance(path, tuple):
            if len(path) == 2 and path[0] in ("V", "elem") and path[1] == v:
                return True
            return any(Balance.mentions(x, v) for x in path)
        return False

    # -------------------------------------------------------------- analysis
    def summary(self, key, mask):
        return self.sum.get((key, mask), TRIVIAL)

    def _solve(self):
        P = self.P
        self.work = []
        self.queued = set()
        self.users = defaultdict(set)
        for k in sorted(self.active):
            self._need(k, frozenset())
        rounds = 0
        while self.work:
            rounds += 1
            if rounds > 40000:
                break
            it = self.work.pop(0)
            self.queued.discard(it)
            F = P.funcs[it[0]]
            an = FuncRun(self, F, it[1])
            s = an.run()
            if s != self.sum.get(it):
                self.sum[it] = s
                for u in self.users[it]:
                    if u not in self.queued:
                        self.queued.add(u)
                        self.work.append(u)
        self.rounds = rounds
        # final pass: collect violations
        seen = set()
        for it in sorted(self.sum, key=str):
            F = P.funcs[it[0]]
            if it[1] and not any(u for u in self.users[it]):
                continue
            an = FuncRun(self, F, it[1], report=True)
            an.run()
            for v in an.viol:
                k = (v[0], v[1], v[2])
                if k not in seen:
                    seen.add(k)
                    self.viol.append(v)
            if not it[1]:
                self.ninserts += an.ins
                self.nremoves += an.rem
                self.ncreate += an.cre
                self.nretire += an.ret_

    def _need(self, key, mask):
        it = (key, mask)
        if it not in self.sum and it not in self.queued:
            self.sum[it] = TRIVIAL
            self.queued.add(it)
            self.work.append(it)


TRIVIAL = frozenset([(frozenset(), None, None)])
MUT = {"push_back", "push_front", "emplace_back", "emplace_front", "insert",
       "emplace", "pop_front", "pop_back", "erase", "clear", "operator=",
       "resize", "assign", "swap", "insert_or_assign", "try_emplace",
       "emplace_hint", "extract", "merge", "splice"}


class FuncRun:
    def __init__(self, B, F, mask, report=False):
        self.B, self.P, self.F, self.mask = B, B.P, F, mask
        self.report = report
        self.viol = []
        self.site_of = {}
        self.ins = self.rem = self.cre = self.ret_ = 0
        self.counted = set()
        self.itemset = (F.key, mask)
        self.scratch = self._scratch()
        self.bools = {v for v, t in enumerate(F.vtype)
                      if t.replace("const ", "") == "bool" and F.vkind[v] == "l"}
        self.avars = {v for v, t in enumerate(F.vtype)
                      if B.agent_val(t) and F.vkind[v] in ("l", "p")}
        self._live = self._liveness()

    # -------------------------------------------------------------- scratch
    def _scratch(self):
        """local containers of agents whose contents never reach an insertion,
        a return or a retirement"""
        F, B = self.F, self.B
        c = F.__dict__.get("_bal_scratch")
        if c is None:
            loc = {v for v, t in enumerate(F.vtype)
                   if F.vkind[v] == "l" and B.cont(t) and not t.endswith(("&", "*"))}
            used = set()
            if loc:
                for i, n in enumerate(F.nodes):
                    if n["k"] == "call" and n.get("f"):
                        b = self.P.ext[n["f"]]["base"]
                        if b in ("swap", "operator=", "assign", "splice", "merge"):
                            ops = ([n["o"]] if n.get("o", -1) >= 0 else []) + list(n["a"])
                            if any(B.cont(F.nodes[F.skip(x)].get("t", "")) for x in ops):
                                for x in ops:
                                    used |= self._derived_from(x, i, loc, set())
                        if b in INS and n.get("o", -1) >= 0 and B.cont(F.nodes[F.skip(n["o"])].get("t", "")):
                            for a in n["a"]:
                                used |= self._derived_from(a, i, loc, set())
                        elif self.P.ext[n["f"]].get("repo"):
                            for a in n["a"]:
                                if a >= 0 and B.agent_val(F.nodes[F.skip(a)].get("t", "")):
                                    if n["f"] in B.active:
                                        used |= self._derived_from(a, i, loc, set())
                            if n.get("o", -1) >= 0 and B.agent_ptr(F.nodes[F.skip(n["o"])].get("t", "")) \
                                    and n["f"] in B.active:
                                used |= self._derived_from(n["o"], i, loc, set())
                    elif n["k"] == "ret" and n["e"] >= 0 and B.agent_val(F.nodes[F.skip(n["e"])].get("t", "")):
                        used |= self._derived_from(n["e"], i, loc, set())
            byval = {v for v, t in enumerate(F.vtype)
                     if F.vkind[v] == "p" and B.cont(t) and not t.endswith(("&", "*"))}
            c = F._bal_scratch = (loc - used) | byval
        return c

    def _derived_from(self, nid, at, loc, seen, d=0):
        """local containers that the value of nid may be read from"""
        F = self.F
        out = set()
        if d > 8:
            return out
        for x in F.walk(nid):
            n = F.nodes[x]
            if n["k"] == "var":
                v = n["v"]
                if v in loc:
                    out.add(v)
                elif v not in seen:
                    seen.add(v)
                    for dd in F.defs_of()[0]:
                        if dd[0] == v and dd[2] is not None and dd[3] != "escape":
                            out |= self._derived_from(dd[2], dd[1], loc, seen, d + 1)
        return out

    def is_scratch(self, path):
        r = path
        while isinstance(r, tuple) and r and r[0] in ("mem", "idx", "un") and isinstance(r[1], tuple):
            r = r[1]
        if r[0] == "V" and r[1] in self.scratch:
            return True
        if r[0] == "P":
            if r[1] in self.mask and path == r:
                return True
            for v in self.scratch:
                if self.F.vkind[v] == "p" and self.F.vpidx[v] == r[1]:
                    return True
        if path[0] == "mem" and path[2] in self.B.secondary:
            return True
        return False

    # -------------------------------------------------------------- liveness
    def _liveness(self):
        F = self.F
        track = self.bools | self.avars
        use, df = {}, {}
        for bid, b in F.blocks.items():
            u, d = set(), set()
            lhs = set()
            for e in b.els:
                n = F.nodes[e]
                if is_assign(n) and n["op"] == "=":
                    lhs.add(n["l"])
            els = list(b.els)
            for e in els:
                n = F.nodes[e]
                if n["k"] == "var" and n["v"] in track and e not in lhs:
                    if n["v"] not in d:
                        u.add(n["v"])
                elif n["k"] == "decl":
                    for v, init, st in n["d"]:
                        if v in track:
                            d.add(v)
                elif is_assign(n) and n["op"] == "=":
                    v = F.local_of(n["l"])
                    if v in track:
                        d.add(v)
            if b.tc is not None and b.tc >= 0:
                for x in F.walk(b.tc):
                    if F.nodes[x]["k"] == "var" and F.nodes[x]["v"] in track and F.nodes[x]["v"] not in d:
                        u.add(F.nodes[x]["v"])
            use[bid], df[bid] = u, d
        live = {b: set() for b in F.blocks}
        ch = True
        order = list(reversed(F.order()))
        while ch:
            ch = False
            for bid in order:
                o = set()
                for s in F.blocks[bid].succ:
                    if s >= 0:
                        o |= live[s]
                new = use[bid] | (o - df[bid])
                if new != live[bid]:
                    live[bid] = new
                    ch = True
        return live

    # ------------------------------------------------------------------- run
    def run(self):
        F = self.F
        env0 = {}
        for v in self.avars:
            if F.vkind[v] == "p":
                env0[v] = ("P", F.vpidx[v])
        st0 = (frozenset((k, v) for k, v in env0.items() if k in self._live[F.entry]), frozenset())
        IN = defaultdict(set)
        IN[F.entry].add(st0)
        work = [F.entry]
        exits = set()
        prio = {b: i for i, b in enumerate(F.order())}
        done = defaultdict(set)
        while work:
            work.sort(key=lambda b: prio.get(b, 0))
            bid = work.pop(0)
            todo = IN[bid] - done[bid]
            done[bid] |= todo
            for st in todo:
                outs = self.block(bid, st)
                for (env, delta, rt, rc) in outs:
                    if bid == F.exit:
                        continue
                    if F.aborts(bid):
                        continue
                    b = F.blocks[bid]
                    for si, s in enumerate(b.succ):
                        if s < 0:
                            continue
                        if not self.feasible(b, si, env):
                            continue
                        d2 = self.leave(bid, si, delta)
                        if s == F.exit:
                            exits.add((d2, rt, rc))
                            continue
                        env2 = self.refine(b, si, env)
                        ns = (frozenset((k, v) for k, v in env2.items() if k in self._live[s]), d2)
                        if ns not in IN[s]:
                            if len(IN[s]) >= MAXSTATES:
                                self.flag("overflow", None, "too many account states")
                                continue
                            IN[s].add(ns)
                            if s not in work:
                                work.append(s)
        out = set()
        callable_ = self._has_callers()
        for (delta, rt, rc) in exits:
            keep = set()
            for (tok, c) in delta:
                if tok[0] in ("each0", "empty"):
                    continue
                if self.exportable(tok, rt) and callable_:
                    keep.add((tok, c))
                else:
                    self.flag_token(tok, c)
            if rt is not None and not self.exportable(rt, rt):
                rt = None
            out.add((frozenset(keep), rt, rc))
        if not out:
            out = set()     # never returns normally
            return frozenset()
        return frozenset(out)

    def _has_callers(self):
        c = self.P.callers()
        F = self.F
        ks = {F.key}
        e = self.P.ext.get(F.key, {})
        for o in e.get("overrides", []) or []:
            ks.add(o)
        return any(c.get(k) for k in ks) and not F.islambda

    def exportable(self, tok, rt):
        k = tok[0]
        if k in ("P", "T"):
            return True
        if k == "new":
            return rt == tok
        if k == "taken":
            # the position the element was taken from has to be nameable
            return self.nameable(tok[2])
        if k in ("front", "back", "all"):
            return self.nameable(tok[1])
        if k in ("at", "range"):
            return all(self.nameable(x) for x in tok[1:])
        return False

    def nameable(self, p):
        if not isinstance(p, tuple):
            return True
        if p and p[0] in ("V", "n", "?", "deep", "elem", "stale", "opq"):
            return False
        return all(self.nameable(x) for x in p[1:])

    def flag_token(self, tok, c):
        site = self.site_of.get(tok)
        what = self.tokname(tok)
        if c > 0:
            msg = ("%s is put into a queue (or retired) %s without being taken from where it was"
                   % (what, "once more" if c == 1 else "%d more times" % c))
        else:
            msg = "%s is removed (or created) on some path without being put anywhere" % what
        self.flag("unbalanced", site, msg)

    def flag(self, kind, site, msg):
        if self.report:
            self.viol.append((kind, self.F.name, self.F.loc(site) if site is not None else self.F.loc(), msg))

    def tokname(self, t):
        k = t[0]
        if k in ("front", "back", "at"):
            return "the agent at %s of %s" % (k, self.pname(t[1]))
        if k == "elem":
            return "the agent under iterator '%s'" % (self.F.vname[t[1]] if isinstance(t[1], int) else "?")
        if k == "taken":
            return "the agent taken from %s" % (self.tokname(t[2]) if isinstance(t[2], tuple) else "?")
        if k == "new":
            return "the newly created agent"
        if k == "P":
            v = [x for x in self.F.params if self.F.vpidx[x] == t[1]]
            return "agent '%s'" % (self.F.vname[v[0]] if v else t[1])
        if k == "stale":
            return self.tokname(t[2]) if len(t) > 2 and isinstance(t[2], tuple) else "an agent"
        if k in ("all", "range"):
            return "the contents of %s" % self.pname(t[1])
        return "an agent"

    def pname(self, p):
        if p[0] == "mem":
            b = self.pname(p[1])
            return (b + "." if b != "this" else "") + p[2]
        if p[0] == "T":
            return "this"
        if p[0] == "V":
            return self.F.vname[p[1]]
        if p[0] == "P":
            v = [x for x in self.F.params if self.F.vpidx[x] == p[1]]
            return self.F.vname[v[0]] if v else "param%d" % p[1]
        if p[0] == "idx":
            return self.pname(p[1]) + "[..]"
        if p[0] == "call":
            return "%s()" % p[1]
        return "container"

    # ------------------------------------------------------------ conditions
    def cond_var(self, nid):
        """(var, value when condition true) for simple boolean conditions"""
        F = self.F
        neg = False
        while nid is not None and nid >= 0:
            nid = F.skip(nid)
            n = F.nodes[nid]
            if n["k"] == "un" and n["op"] == "!":
                neg = not neg
                nid = n["e"]
                continue
            if n["k"] == "bin" and n["op"] in ("&&", "||"):
                nid = n["r"]
                continue
            if n["k"] == "bin" and n["op"] in ("==", "!="):
                r = F.nodes[F.skip(n["r"])]
                if r["k"] == "bool":
                    if (n["op"] == "==") != bool(r.get("val")):
                        neg = not neg
                    nid = n["l"]
                    continue
                return None
            if n["k"] == "var" and n["v"] in self.bools:
                return n["v"], not neg
            return None
        return None

    def feasible(self, b, si, env):
        if len(b.succ) != 2 or b.tc is None or b.tc < 0 or b.tk == "SwitchStmt":
            return True
        cv = self.cond_var(b.tc)
        if cv and cv[0] in env and env[cv[0]] in (True, False):
            want = cv[1] if si == 0 else not cv[1]
            return env[cv[0]] == want
        return True

    def refine(self, b, si, env):
        if len(b.succ) != 2 or b.tc is None or b.tc < 0 or b.tk == "SwitchStmt":
            return env
        cv = self.cond_var(b.tc)
        if cv:
            env = dict(env)
            env[cv[0]] = cv[1] if si == 0 else not cv[1]
        return env

    # ----------------------------------------------------------------- block
    def block(self, bid, st):
        env, delta = dict(st[0]), st[1]
        states = [(env, delta, None, None)]
        for e in self.F.blocks[bid].els:
            nxt = []
            for s in states:
                nxt.extend(self.step(e, s))
            # dedupe
            seen, states = set(), []
            for s in nxt:
                k = (frozenset(s[0].items()), s[1], s[2], s[3])
                if k not in seen:
                    seen.add(k)
                    states.append(s)
        return states

    # ---------------------------------------------------------------- tokens
    def token(self, nid, env):
        F, B = self.F, self.B
        nid = F.skip(nid)
        if nid is None or nid < 0:
            return None
        n = F.nodes[nid]
        k = n["k"]
        if k == "var":
            v = n["v"]
            if v in env:
                return env[v]
            if F.vkind[v] == "p":
                return ("P", F.vpidx[v])
            return ("opq", v)
        if k == "this":
            return ("T",)
        if k == "mem" and n["n"] == "first":
            return self.token(n["b"], env)
        if k == "un" and n["op"] in ("*", "&"):
            return self.token(n["e"], env)
        if k == "bool":
            return bool(n.get("val"))
        if k == "new":
            return ("new", nid)
        if k == "cond":
            return ("opq", nid)
        if k == "ctor":
            for a in n["a"]:
                if a >= 0 and B.agent_val(F.nodes[F.skip(a)].get("t", "")):
                    return self.token(a, env)
            return ("opq", nid)
        if k == "init":
            return self.token(n["a"][0], env) if n["a"] else ("opq", nid)
        if k == "idx":
            return self.place(B.cpath(F, n["b"]), B.cpath(F, n["i"]))
        if k == "call":
            res = env.get(("call", nid))
            if res is not None:
                return res
            f = n.get("f")
            b = self.P.ext[f]["base"] if f else "?"
            o = n.get("o", -1)
            if o >= 0:
                ot = F.nodes[F.skip(o)].get("t", "")
                if B.cont(ot):
                    C = B.cpath(F, o)
                    if b == "front":
                        return ("front", C)
                    if b == "back":
                        return ("back", C)
                    if b in ("operator[]", "at") and n["a"]:
                        return self.place(C, B.cpath(F, n["a"][0]))
                if b in ("operator*", "operator->"):
                    return self.itok(o, env)
            if b in ("make_pair", "std::make_pair", "move", "forward"):
                return self.token(n["a"][0], env) if n["a"] else ("opq", nid)
            return ("opq", nid)
        return ("opq", nid)

    @staticmethod
    def place(C, i):
        if i == ("c", "0"):
            return ("front", C)
        if i[:2] == ("bin", "-") and i[2:4] == (("call", "size", C), ("c", "1")):
            return ("back", C)
        return ("at", C, i)

    def itok(self, nid, env):
        """token of the element under an iterator expression"""
        F, B = self.F, self.B
        nid = F.skip(nid)
        n = F.nodes[nid]
        if n["k"] == "ctor" and len(n["a"]) == 1:
            return self.itok(n["a"][0], env)
        if n["k"] == "var":
            return ("elem", n["v"])
        if n["k"] == "call" and n.get("f"):
            b = self.P.ext[n["f"]]["base"]
            o = n.get("o", -1)
            if o >= 0 and B.cont(F.nodes[F.skip(o)].get("t", "")):
                C = B.cpath(F, o)
                if b in ("begin", "cbegin"):
                    return ("front", C)
                if b == "find" and n["a"]:
                    return self.token(n["a"][0], env)
            if b in ("operator+",) and (o >= 0 or len(n["a"]) == 2):
                base = o if o >= 0 else n["a"][0]
                off = n["a"][-1]
                bn = F.nodes[F.skip(base)]
                if bn["k"] == "call" and bn.get("f") and self.P.ext[bn["f"]]["base"] in ("begin", "cbegin"):
                    C = B.cpath(F, bn["o"])
                    return self.place(C, B.cpath(F, off))
            if b in ("prev",) or b == "operator-":
                base = o if o >= 0 else n["a"][0]
                bn = F.nodes[F.skip(base)]
                if bn["k"] == "call" and bn.get("f") and self.P.ext[bn["f"]]["base"] in ("end", "cend"):
                    return ("back", B.cpath(F, bn["o"]))
            if b == "find" and o < 0 and len(n["a"]) == 3:
                return self.token(n["a"][2], env)
            if b.startswith("operator++") or b.startswith("operator--"):
                return self.itok(o if o >= 0 else n["a"][0], env)
        return ("opq", nid)

    # ---------------------------------------------------------------- events
    @staticmethod
    def add(delta, tok, c):
        d = dict(delta)
        d[tok] = d.get(tok, 0) + c
        if d[tok] == 0:
            del d[tok]
        return frozenset(d.items())

    def put(self, st, tok, nid):
        env, delta, rt, rc = st
        if tok and tok[0] == "all" and tok[1][0] == "V" and len(tok[1]) == 2:
            return st       # all of a local container: it ends with the scope
        if tok is None:
            tok = ("opq", nid)
        if nid not in self.counted:
            self.counted.add(nid)
            self.ins += 1
        self.site_of[tok] = nid
        d = self.add(delta, tok, +1)
        if any(abs(c) > 2 for _, c in d):
            self.flag_token(tok, 2)
            d = frozenset((t, max(-2, min(2, c))) for t, c in d)
        return (env, d, rt, rc)

    def take(self, st, pos, nid):
        """the element at position token pos leaves its container"""
        env, delta, rt, rc = st
        if nid not in self.counted:
            self.counted.add(nid)
            self.rem += 1
        K = ("taken", nid, pos)
        self.site_of[K] = nid
        if pos[0] in ("P", "T", "opq", "new", "taken", "stale"):
            # erased by value/key
            self.site_of.setdefault(pos, nid)
            return (env, self.add(delta, pos, -1), rt, rc)
        d = dict(delta)
        old = d.pop(pos, 0)
        d[K] = d.get(K, 0) + old - 1
        if d[K] == 0:
            del d[K]
        if d.get(K, 0) < -2:
            d[K] = -2
        env = {k: (K if v == pos else v) for k, v in env.items()}
        return (env, frozenset(d.items()), rt, rc)

    # ------------------------------------------- loops over a whole container
    def _fullloops(self):
        """variable -> (container path, header block, exit successor) of loops
        that visit every element of a container once"""
        F, B = self.F, self.B
        c = F.__dict__.get("_fullloops")
        if c is not None:
            return c
        c = F._fullloops = {}
        from .common import natural_loops
        heads = {h for h, _ in natural_loops(F)}

        def meth(nid, names, d=0):
            nid = F.skip(nid)
            if nid is None or nid < 0 or d > 4:
                return None
            n = F.nodes[nid]
            if n["k"] == "ctor" and len(n["a"]) == 1:
                return meth(n["a"][0], names, d + 1)
            if n["k"] == "call" and n.get("f") and n.get("o", -1) >= 0 and \
                    self.P.ext[n["f"]]["base"] in names and \
                    B.cont(F.nodes[F.skip(n["o"])].get("t", "")):
                return B.cpath(F, n["o"])
            if n["k"] == "var":
                ds = [x for x in F.defs_of()[0] if x[0] == n["v"]]
                if len(ds) == 1 and ds[0][2] is not None:
                    return meth(ds[0][2], names, d + 1)
            return None
        for h in heads:
            b = F.blocks[h]
            if len(b.succ) != 2 or b.tc is None or b.tc < 0:
                continue
            n = F.nodes[F.skip(b.tc)]
            if n["k"] == "bin" and n["op"] in ("<", "!="):
                l, r = n["l"], n["r"]
            elif n["k"] == "call" and n.get("f") and self.P.ext[n["f"]]["base"] == "operator!=":
                ab = ([n["o"]] if n.get("o", -1) >= 0 else []) + list(n["a"])
                if len(ab) != 2:
                    continue
                l, r = ab
            else:
                continue
            v = F.local_of(F.skip(l))
            if v is None:
                continue
            inits = [x for x in F.defs_of()[0] if x[0] == v and x[3] == "decl"]
            if len(inits) != 1 or inits[0][2] is None:
                continue
            C = meth(r, ("end", "cend"))
            if C is not None:
                if meth(inits[0][2], ("begin", "cbegin")) != C:
                    continue
            else:
                C = meth(r, ("size",))
                z = F.nodes[F.skip(inits[0][2])]
                if C is None or str(z.get("val")) != "0":
                    continue
            if self.is_scratch(C):
                continue
            c[v] = (C, h, 1)
        return c

    def leave(self, bid, si, delta):
        for v, (C, h, xs) in self._fullloops().items():
            if h != bid or si != xs:
                continue
            d = dict(delta)
            E, Z = ("each", v, C), ("each0", v, C)
            if E in d:
                self.site_of[("all", C)] = self.site_of.get(E)
                del d[E]
                if C[0] == "V" and len(C) == 2:
                    delta = frozenset(d.items())
                    continue        # contents of a local: it ends with the scope
                d[("all", C)] = d.get(("all", C), 0) + 1
                if d[("all", C)] == 0:
                    del d[("all", C)]
            elif Z in d:
                del d[Z]
            else:
                d[("empty", C)] = 1
            delta = frozenset(d.items())
        return delta

    def each(self, delta, v, nid):
        """loop variable v of a whole-container loop moves on"""
        fl = self._fullloops().get(v)
        if not fl:
            return delta
        C = fl[0]
        toks = (("elem", v), ("at", C, ("V", v)))
        d = dict(delta)
        cnt = sum(d.get(t, 0) for t in toks)
        E, Z = ("each", v, C), ("each0", v, C)
        if cnt == 0:
            if E in d:
                return delta            # partial: stays unresolved
            d[Z] = 1
            return frozenset(d.items())
        if cnt == 1 and Z not in d:
            for t in toks:
                if t in d:
                    self.site_of[E] = self.site_of.get(t, nid)
                    del d[t]
            d[E] = 1
            return frozenset(d.items())
        return delta

    def stale(self, st, v_, nid, var=None):
        B = self.B
        self._stalevar = v_

        def pred(t):
            return t[0] not in NOSTALE and B.mentions(t, v_)
        env, delta, rt, rc = st
        if var is not None:
            delta = self.each(delta, var, nid)
            st = (env, delta, rt, rc)
        if any(t[0] in ("each0", "empty") for t, _ in delta):
            vv = self._stalevar
            d = frozenset((t, c) for t, c in delta
                          if not (t[0] in ("each0", "empty") and self.B.mentions(t[-1], vv)))
            delta = d
            st = (env, delta, rt, rc)
        if not any(pred(v) for v in env.values() if isinstance(v, tuple)) and \
           not any(pred(t) for t, _ in delta):
            return st
        def ren(t):
            return ("stale", nid, self.unstale(t)) if isinstance(t, tuple) and pred(t) else t
        env = {k: ren(v) for k, v in env.items()}
        d = {}
        for t, c in delta:
            r = ren(t)
            if r is not t:
                self.site_of[r] = self.site_of.get(t, nid)
            d[r] = d.get(r, 0) + c
        d = {t: max(-2, min(2, c)) for t, c in d.items() if c}
        return (env, frozenset(d.items()), rt, rc)

    @staticmethod
    def unstale(t):
        return t[2] if t[0] == "stale" else t

    # ------------------------------------------------------------------ step
    def step(self, e, st):
        F, B, P = self.F, self.B, self.P
        n = F.nodes[e]
        k = n["k"]
        if k == "decl":
            for v, init, _ in n["d"]:
                if v in self.avars or v in self.bools:
                    env = dict(st[0])
                    if init >= 0:
                        t = self.token(init, env)
                        if v in self.bools:
                            if t in (True, False):
                                env[v] = t
                            else:
                                env.pop(v, None)
                        else:
                            env[v] = t
                    else:
                        env.pop(v, None)
                    st = (env,) + st[1:]
                else:
                    st = self.stale(st, v, e)
                    if init >= 0 and B.cont(F.vtype[v]) and not F.vtype[v].endswith(("&", "*")) \
                            and v not in self.scratch and B._single(F, v) is None:
                        C = B.cpath(F, init)
                        if B.cont(F.nodes[F.skip(init)].get("t", "")) and C[0] in ("mem", "idx", "P") \
                                and not self.is_scratch(C):
                            st = self._bulk(st, ("all", C), +1, e)
            return [st]
        if is_assign(n):
            v = F.local_of(n["l"])
            if v is not None:
                if v in self.avars or v in self.bools:
                    env = dict(st[0])
                    t = self.token(n["r"], env) if n["op"] == "=" else None
                    if v in self.bools and t not in (True, False):
                        env.pop(v, None)
                    else:
                        env[v] = t
                    return [(env,) + st[1:]]
                return [self.stale(st, v, e)]
            ln = F.nodes[F.skip(n["l"])]
            if ln["k"] == "mem" and ln["n"] == B.retire_field and F.kind != "ctor":
                bt = F.nodes[F.skip(ln["b"])].get("t", "")
                if strip_t(bt) in B.agents:
                    if e not in self.counted:
                        self.ret_ += 1
                    return [self.put(st, self.token(ln["b"], st[0]), e)]
            if n["op"] == "=" and B.agent_ptr(ln.get("t", "")) and ln["k"] in ("call", "un", "idx"):
                # overwriting an element of a container, or m[v] = x
                tok = self.token(n["l"], st[0])
                if tok and tok[0] in ("front", "back", "at", "elem") and not self.tok_scratch(tok):
                    st = self.take(st, tok, e)
                    return [self.put(st, self.token(n["r"], st[0]), -e - 10)]
            if n["op"] == "=" and ln["k"] == "call" and ln.get("f") and \
                    P.ext[ln["f"]]["base"] == "operator[]" and ln.get("o", -1) >= 0:
                if B.cont(F.nodes[F.skip(ln["o"])].get("t", "")) and ln["a"] and \
                        B.agent_ptr(F.nodes[F.skip(ln["a"][0])].get("t", "")):
                    if not self.is_scratch(B.cpath(F, ln["o"])):
                        return [self.put(st, self.token(ln["a"][0], st[0]), e)]
            return [st]
        if k == "un" and n["op"] in ("++", "--", "post++", "post--"):
            v = F.local_of(n["e"])
            if v is not None:
                return [self.stale(st, v, e,
                                   v if "++" in n["op"] else None)]
            return [st]
        if k == "new" and strip_t(n["t"]) in B.agents:
            tok = ("new", e)
            if e not in self.counted:
                self.counted.add(e)
                self.cre += 1
            self.site_of[tok] = e
            env, delta, rt, rc = st
            d = self.add(delta, tok, -1)
            d = frozenset((t, max(-2, c)) for t, c in d)
            return [(env, d, rt, rc)]
        if k == "ret":
            env, delta, rt, rc = st
            if n["e"] >= 0:
                t = F.nodes[F.skip(n["e"])].get("t", "")
                if B.agent_val(F.ret):
                    rt = self.token(n["e"], env)
                elif F.ret == "bool":
                    x = self.token(n["e"], env)
                    rc = x if x in (True, False) else None
            return [(env, delta, rt, rc)]
        if k in ("call", "ctor"):
            return self.call(e, n, st)
        return [st]

    def tok_scratch(self, tok):
        if tok[0] in ("front", "back", "at", "all", "range"):
            return self.is_scratch(tok[1])
        return False

    def cont_of_iter(self, v):
        """container path an iterator variable walks over"""
        F = self.F
        c = F.__dict__.setdefault("_iterc", {})
        if v in c:
            return c[v]
        c[v] = None
        for d in F.defs_of()[0]:
            if d[0] == v and d[2] is not None:
                for x in F.walk(d[2]):
                    m = F.nodes[x]
                    if m["k"] == "call" and m.get("o", -1) >= 0 and \
                            self.B.cont(F.nodes[F.skip(m["o"])].get("t", "")):
                        c[v] = self.B.cpath(F, m["o"])
                        return c[v]
        return None

    def call(self, e, n, st):
        F, B, P = self.F, self.B, self.P
        f = n.get("f")
        if not f:
            return [st]
        ext = P.ext[f]
        b = ext["base"]
        o = n.get("o", -1)
        # iterator ++/--/=/+=
        if o >= 0 and b in ("operator++", "operator--", "operator+=", "operator-=", "operator="):
            v = F.local_of(o)
            if v is not None and not B.cont(F.vtype[v]):
                if v in self.avars:
                    env = dict(st[0])
                    env[v] = self.token(n["a"][0], env) if n["a"] else None
                    return [(env,) + st[1:]]
                return [self.stale(st, v, e,
                                   v if b == "operator++" else None)]
        if n["k"] == "call" and o >= 0 and B.cont(F.nodes[F.skip(o)].get("t", "")) and b in MUT:
            return [self.container_op(e, n, b, st)]
        nm = ext.get("name", "")
        if n["k"] == "call" and not ext.get("repo") and b in ("copy", "copy_n", "move", "copy_if") and len(n["a"]) >= 3:
            # algorithm into an inserter
            dst = n["a"][2]
            for x in F.walk(dst):
                m = F.nodes[x]
                if m["k"] == "call" and m.get("f") and P.ext[m["f"]]["base"] in ("back_inserter", "front_inserter", "inserter"):
                    if m["a"] and B.cont(F.nodes[F.skip(m["a"][0])].get("t", "")):
                        if self.is_scratch(B.cpath(F, m["a"][0])):
                            return [st]
                        rtok = self.range_tok(n["a"][0], n["a"][1], st[0])
                        return [self.put(st, rtok, e)]
            return [st]
        if not ext.get("repo"):
            return [st]
        # repository function
        if n["k"] == "ctor":
            tg = {f}
        else:
            tg = P.targets(F, e)
        outs = []
        tg = [t for t in tg if t in B.active and t in P.funcs]
        if not tg:
            return [st]
        mask = frozenset(i for i, a in enumerate(n["a"])
                         if a >= 0 and B.cont(F.nodes[F.skip(a)].get("t", "").rstrip("*& "))
                         and self.is_scratch(B.cpath(F, a)))
        # also containers passed by address
        for t in tg:
            m = mask
            if n["k"] == "ctor" and P.funcs[t].kind != "ctor":
                continue
            B._need(t, m)
            B.users[(t, m)].add(self.itemset)
            S = B.summary(t, m)
            for (d, rt, rc) in S:
                outs.append(self.apply(e, n, t, d, rt, rc, st))
        if not outs:
            return []       # no target returns
        return outs

    def apply(self, e, n, t, d, rt, rc, st):
        F, B = self.F, self.B
        if not d and rt is None and rc is None:
            return st
        args = n["a"]
        o = n.get("o", -1)

        def sp(p):
            """substitute a container path"""
            if not isinstance(p, tuple):
                return p
            if p[0] == "P" and len(p) == 2:
                return B.cpath(F, args[p[1]]) if p[1] < len(args) else ("?",)
            if p[0] == "T" and len(p) == 1:
                return B.cpath(F, o) if o >= 0 else ("?",)
            return tuple(sp(x) for x in p)
        newmap = {}

        def stok(tok, env):
            k = tok[0]
            if k == "P":
                return self.token(args[tok[1]], env) if tok[1] < len(args) else ("opq", e)
            if k == "T":
                return self.token(o, env) if o >= 0 else ("opq", e)
            if k == "new":
                return ("new", e)
            if k == "taken":
                return ("taken", e, stok(tok[2], env))
            return tuple(sp(x) if i else x for i, x in enumerate(tok))
        # removals first
        for (tok, c) in sorted(d, key=str):
            if tok[0] == "taken":
                pos = stok(tok[2], st[0])
                for _ in range(-c):
                    if not self.tok_scratch(pos):
                        st = self.take(st, pos, e)
        for (tok, c) in sorted(d, key=str):
            if tok[0] == "taken":
                if c > 0:
                    for _ in range(c):
                        st = self.put(st, stok(tok, st[0]), e)
            elif tok[0] == "new":
                tk = ("new", e)
                self.site_of[tk] = e
                env, dl, a, bb = st
                dl = self.add(dl, tk, c)
                st = (env, frozenset((x, max(-2, min(2, y))) for x, y in dl), a, bb)
            elif c > 0:
                for _ in range(c):
                    st = self.put(st, stok(tok, st[0]), e)
            else:
                for _ in range(-c):
                    st = self.take(st, stok(tok, st[0]), e)
        env = dict(st[0])
        if rt is not None:
            r = stok(rt, env)
            env[("call", e)] = r
        elif rc is not None:
            env[("call", e)] = rc
        else:
            env.pop(("call", e), None)
        return (env,) + st[1:]

    def range_tok(self, a, b, env):
        F, B = self.F, self.B
        def end(nid):
            x = F.nodes[F.skip(nid)]
            if x["k"] == "call" and x.get("f"):
                bb = self.P.ext[x["f"]]["base"]
                if bb in ("begin", "end", "cbegin", "cend") and x.get("o", -1) >= 0:
                    return (bb.lstrip("c"), B.cpath(F, x["o"]))
                if bb == "make_move_iterator" and x["a"]:
                    return end(x["a"][0])
            if x["k"] == "ctor" and len(x["a"]) == 1:
                return end(x["a"][0])
            return None
        ea, eb = end(a), end(b)
        if ea and eb and ea[0] == "begin" and eb[0] == "end" and ea[1] == eb[1]:
            return ("all", ea[1])
        return ("range", B.cpath(F, a), B.cpath(F, b))

    def container_op(self, e, n, b, st):
        F, B = self.F, self.B
        C = B.cpath(F, n["o"])
        if self.is_scratch(C):
            return st
        self.B.containers.add(F.nodes[F.skip(n["o"])].get("n") or "local")
        a = n["a"]
        islocal = C[0] == "V"
        if b in ("push_back", "push_front", "emplace_back", "emplace_front"):
            tok = self.token(a[0], st[0]) if a else ("opq", e)
            st = self.put(st, tok, e)
            return st
        if b in ("insert", "emplace", "try_emplace", "insert_or_assign", "emplace_hint"):
            if len(a) == 3 and "iterator" in F.nodes[F.skip(a[1])].get("t", "") or \
               len(a) == 2 and "iterator" in F.nodes[F.skip(a[0])].get("t", "") and \
               "iterator" in F.nodes[F.skip(a[1])].get("t", ""):
                return self.put(st, self.range_tok(a[-2], a[-1], st[0]), e)
            for x in a:
                if B.agent_val(F.nodes[F.skip(x)].get("t", "")):
                    return self.put(st, self.token(x, st[0]), e)
            return self.put(st, ("opq", e), e)
        if b == "pop_front":
            return self.take(st, ("front", C), e)
        if b == "pop_back":
            return self.take(st, ("back", C), e)
        if b == "erase":
            if len(a) == 2:
                tok = self.range_tok(a[0], a[1], st[0])
                # remove-erase idiom
                x = F.nodes[F.skip(a[0])]
                for y in F.walk(a[0]):
                    m = F.nodes[y]
                    if m["k"] == "call" and m.get("f") and self.P.ext[m["f"]]["base"] == "remove" and len(m["a"]) == 3:
                        return self.take(st, self.token(m["a"][2], st[0]), e)
                return self._bulk(st, tok, -1, e)
            if a and B.agent_ptr(F.nodes[F.skip(a[0])].get("t", "")):
                return self.take(st, self.token(a[0], st[0]), e)
            tok = self.itok(a[0], st[0]) if a else ("opq", e)
            return self.take(st, tok, e)
        if b == "clear":
            if F.kind in ("dtor", "ctor") or islocal:
                return st
            return self._bulk(st, ("all", C), -1, e)
        if b in ("operator=", "assign", "resize"):
            if F.kind in ("dtor", "ctor") or islocal and b != "resize":
                return st
            src = F.nodes[F.skip(a[0])] if a else None
            while src is not None and src["k"] == "call" and src.get("f") and src["a"] and \
                    self.P.ext[src["f"]]["base"] == "move":
                src = F.nodes[F.skip(src["a"][0])]
            loc = src is not None and src["k"] == "var" and F.vkind[src["v"]] == "l" and \
                not F.vtype[src["v"]].endswith(("&", "*"))
            if src is not None and not loc and B.cont(src.get("t", "")) and src["k"] in ("var", "mem", "un"):
                st = self._bulk(st, ("all", B.cpath(F, a[0])), +1, e)
            return self._bulk(st, ("all", C), -1, e)
        if b == "swap":
            x = B.cpath(F, a[0]) if a else ("?",)
            for c_ in (C, x):
                if dict(st[1]).get(("all", c_), 0) > 0:
                    return self._bulk(st, ("all", c_), -1, e)
            return st
        return self._bulk(st, ("all", C), -1, e)

    def _bulk(self, st, tok, c, e):
        env, delta, rt, rc = st
        self.site_of[tok] = e
        if e not in self.counted:
            self.counted.add(e)
            self.rem += 1
        if c < 0 and tok[0] == "all" and ("empty", tok[1]) in dict(delta):
            return (env, frozenset(x for x in delta if x[0] != ("empty", tok[1])), rt, rc)
        d = self.add(delta, tok, c)
        d = frozenset((x, max(-2, min(2, y))) for x, y in d)
        return (env, d, rt, rc)


NOSTALE = ("taken", "each", "each0", "empty")
INS = {"push_back", "push_front", "emplace_back", "emplace_front", "insert",
       "emplace", "try_emplace", "insert_or_assign", "emplace_hint"}
