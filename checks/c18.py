"""C18: incomplete and malformed input files are rejected."""
import re

from lib import poly
from lib.arrays import Arrays
from lib.common import natural_loops
from lib.guards import Guards, XPath, negate
from lib.prog import Program
from lib.vpath import subst, walk

WORDS = re.compile(r"^(const )?std::vector<(std::)?(__cxx11::)?(basic_string<char>|string)>")
TEXT = re.compile(r"^(const )?(std::)?(__cxx11::)?(basic_string<char\b|string\b)")


class Paths(XPath):
    """values read from the configuration stay opaque"""

    def returns(self, key):
        F = self.P.funcs.get(key)
        if F is not None and (F.rec or "").startswith(("MNM_ConfReader", "ConfigFile")):
            return None
        return super().returns(key)


def run(rep, tier):
    P = Program.load()
    A = Arrays(P)
    A.V = Paths(P)
    A.G = Guards(P, A.V)
    ends(rep, P, A)
    fields(rep, P, A)
    lost(rep, P, A)
    S = Stores(P)
    files(rep, P, A, S)
    stored(rep, P, A, S)
    counted(rep, P, A)
    stale(rep, P, A)
    other_record(rep, P, A)
    comments(rep, P, A)
    nonempty(rep, P, A)


def own(F):
    return F.file.startswith("src/") and "pybind11" not in F.file


def base(P, n):
    return P.ext[n["f"]]["base"] if n.get("f") else None


# ------------------------------------------------------------ end of file
class Reader:
    """what happens when a call that reads a line meets the end of the file"""

    def __init__(self, P, A):
        self.P, self.A, self.G = P, A, A.G
        self.busy = set()
        self.memo = {}

    def reads(self, F):
        """calls of F that read a line and only tell so by their result"""
        w = F.where()
        out = []
        for i, n in enumerate(F.nodes):
            if n["k"] != "call" or not n.get("f") or i not in w:
                continue
            e = self.P.ext[n["f"]]
            if e.get("name") == "std::getline":
                out.append(i)
            elif n["f"] in self.P.funcs and self.kind(n["f"]) in ("status", "silent"):
                out.append(i)
        return out

    def kind(self, key):
        """of a function that reads one line outside of a loop: 'throws' when
        it raises at the end of the file, 'status' when its result tells,
        'silent' when nothing does, None when it is no such function"""
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return None
        F = self.P.funcs[key]
        if not own(F) or not any("stream" in F.vtype[p] and "&" in F.vtype[p] for p in F.params):
            self.memo[key] = None
            return None
        self.busy.add(key)
        rs = self.reads(F)
        self.busy.discard(key)
        body = {b for h, bs in natural_loops(F) for b in bs}
        rs = [i for i in rs if F.where()[i][0] not in body and self.stream(F, i)]
        k = None
        for i in rs:
            x = self.after(F, i)
            if x == "throws":
                k = k or "throws"
            elif self.result(F, i):
                k = "status"
            else:
                k = "silent"
                break
        self.memo[key] = k
        return k

    def stream(self, F, i):
        """is the stream a parameter of F"""
        n = F.nodes[i]
        return any(F.nodes[F.skip(a)]["k"] == "var" and F.vkind[F.nodes[F.skip(a)]["v"]] == "p"
                   and "stream" in F.vtype[F.nodes[F.skip(a)]["v"]] for a in n["a"] if F.skip(a) is not None)

    def result(self, F, i):
        """does F return the result of the call"""
        for _, e, n in F.all_elements():
            if n["k"] == "ret" and n.get("e", -1) >= 0:
                if i in F.walk(n["e"]):
                    return True
                for x in F.walk(n["e"]):
                    if F.nodes[x]["k"] == "var":
                        for (dv, dn, val, kind) in F.defs_of()[0]:
                            if dv == F.nodes[x]["v"] and val is not None and i in F.walk(val):
                                return True
        return False

    def test(self, F, i):
        """(block, index of the successor taken at the end of the file) of the
        branch that tests the call"""
        holders = {i}
        vars_ = set()
        for (dv, dn, val, kind) in F.defs_of()[0]:
            if val is not None and i in set(F.walk(val)):
                vars_.add(dv)
        out = []
        for b in F.blocks.values():
            if len(b.succ) != 2 or b.tc is None or b.tc < 0:
                continue
            c = self.G.last(F, b.tc, b)
            r = self.sense(F, c, holders, vars_, i)
            if r is not None:
                out.append((b.id, 0 if r else 1))
        return out

    def sense(self, F, c, holders, vars_, i):
        """truth value of condition c at the end of the file; None when c is
        no test of the read"""
        c = F.skip(c)
        if c is None or c < 0:
            return None
        n = F.nodes[c]
        if c in holders:
            return False
        if n["k"] == "un" and n["op"] == "!":
            r = self.sense(F, n["e"], holders, vars_, i)
            return None if r is None else not r
        if n["k"] == "var" and n["v"] in vars_:
            return False
        if n["k"] == "call" and n.get("f"):
            b = base(self.P, n)
            if b in ("operator bool", "good") and n.get("o", -1) >= 0:
                o = F.skip(n["o"])
                if o in holders or (b == "operator bool" and self.same(F, o, i)) or self.same(F, o, i):
                    return False
                return self.sense(F, n["o"], holders, vars_, i)
            if b in ("operator!", "fail", "eof", "bad") and n.get("o", -1) >= 0:
                o = F.skip(n["o"])
                if b != "bad" and (o in holders or self.same(F, o, i)):
                    return True
        return None

    def same(self, F, o, i):
        """is o the stream that call i reads"""
        a = F.skip(F.nodes[i]["a"][0]) if F.nodes[i]["a"] else -1
        if a is None or a < 0 or o is None or o < 0:
            return False
        x, y = F.nodes[a], F.nodes[o]
        if y["k"] == "var" and x["k"] == "var":
            return x["v"] == y["v"]
        return self.A.path(F, a) == self.A.path(F, o)

    def after(self, F, i):
        """what F does when call i meets the end of the file: 'throws',
        'leaves' (the loop, and the line is not used), or a complaint"""
        w = F.where()[i]
        tests = self.test(F, i)
        # the test comes before anything else happens: follow from the call
        loops = [bs for h, bs in natural_loops(F) if w[0] in bs]
        inner = min(loops, key=len) if loops else None
        starts = []
        for (b, k) in tests:
            if b == w[0] or F.dominates(w[0], b):
                starts.append((b, k))
        if not starts:
            return "untested"
        # is the tested branch the first that follows the call
        b, k = min(starts, key=lambda s: len(F.dominators()[s[0]]) if isinstance(F.dominators().get(s[0]), (set, frozenset)) else s[0])
        blk = F.blocks[b]
        facts = set(self.G.entry(F).get(b, ()))
        for e in blk.els:
            facts = set(self.G.step(F, e, frozenset(facts)))
        st = [(blk.succ[k], frozenset(facts))]
        seen = set()
        retry = out = left = False
        while st:
            x, fs = st.pop()
            if x < 0 or (x, fs) in seen or len(seen) > 4000:
                continue
            seen.add((x, fs))
            B = F.blocks[x]
            if x == w[0] or any(e == i for e in B.els):
                retry = True
                continue
            if x == F.exit:
                out = True
                continue
            s = fs
            for e in B.els:
                s = self.G.step(F, e, s)
            if F.aborts(x):
                continue
            for j, t in enumerate(B.succ):
                if t < 0:
                    continue
                o = s
                if B.tc is not None and B.tc >= 0 and len(B.succ) == 2 and \
                        B.tk not in ("SwitchStmt", "CXXForRangeStmt"):
                    c = self.G.cond(F, self.G.last(F, B.tc, B), j == 0)
                    if any(negate(f) in s for f in c):
                        continue
                    o = s | frozenset(c)
                st.append((t, frozenset(o)))
        if retry:
            return "retries"
        if not out:
            return "throws"
        return "leaves"


def ends(rep, P, A):
    rep.rule("a call that reads a line in a loop is followed by a test of the stream; at the end of the file a loop that "
             "reads an announced number of records raises an error, and no loop goes on reading or uses the line")
    R = Reader(P, A)
    n = nt = 0
    for F in P.funcs.values():
        if not own(F):
            continue
        loops = natural_loops(F)
        w = F.where()
        for i in R.reads(F):
            b = w[i][0]
            inl = [(h, bs) for h, bs in loops if b in bs]
            if not inl:
                continue
            n += 1
            key = "end:%s" % F.name
            k = R.after(F, i)
            if k == "throws":
                continue
            if k == "untested":
                rep.violation(key, F.loc(i), "%s reads a line in a loop without testing for the end of the file"
                              % F.name)
            elif k == "retries":
                rep.violation(key, F.loc(i), "%s goes on reading after the end of the file" % F.name)
            elif k == "leaves":
                h, bs = min(inl, key=lambda x: len(x[1]))
                c = counter(A, F, h, bs, i)
                if c:
                    rep.violation(key, F.loc(i), "%s stops without an error when the file ends before the announced "
                                  "number of records (%s)" % (F.name, c))
        for i, nd in enumerate(F.nodes):
            if nd["k"] == "call" and nd.get("f") in P.funcs and i in w and R.kind(nd["f"]) == "throws" and \
                    any(w[i][0] in bs for h, bs in loops):
                nt += 1
    rep.require("reads in loops tested in place or by a function that raises", n + nt, 40)


def counter(A, F, h, body, i):
    """the announced number that bounds the loop, as text"""
    for b in body:
        blk = F.blocks[b]
        if len(blk.succ) != 2 or blk.tc is None or blk.tc < 0:
            continue
        if all(x in body for x in blk.succ):
            continue
        for s in (True, False):
            for f in A.G.cond(F, A.G.last(F, blk.tc, blk), s):
                if f[0] in ("<", "<=", "!=", "=="):
                    for a, o in ((f[1], f[2]), (f[2], f[1])):
                        if a[0] == "V" and any(dv == a[1] and kind == "update" and nn in F.where()
                                               and F.where()[nn][0] in body
                                               for (dv, nn, val, kind) in F.defs_of()[0]):
                            return poly.pp(o)
    return None


# ---------------------------------------------------------------- fields
def words_vars(F):
    return [v for v in range(len(F.vname)) if WORDS.search(F.vtype[v] or "") and
            F.vowner[v] == F.key]


class Low:
    """constant lower bounds of the sizes of the word vectors of a function"""

    def __init__(self, A, F):
        self.A, self.F = A, F
        G = A.G
        IN = {F.entry: {}}
        work = [F.entry]
        it = 0
        while work and it < 40 * (len(F.blocks) + 5):
            it += 1
            b = work.pop(0)
            blk = F.blocks[b]
            s = dict(IN[b])
            for e in blk.els:
                self.step(e, s)
            thrown = F.aborts(b)
            for j, t in enumerate(blk.succ):
                if t < 0 or (thrown and t == F.exit):
                    continue
                o = dict(s)
                if blk.tc is not None and blk.tc >= 0 and len(blk.succ) == 2 and \
                        blk.tk not in ("SwitchStmt", "CXXForRangeStmt"):
                    for f in G.cond(F, G.last(F, blk.tc, blk), j == 0):
                        self.learn(f, o)
                if t not in IN:
                    IN[t] = o
                    work.append(t)
                else:
                    m = {k: min(v, o[k]) for k, v in IN[t].items() if k in o}
                    if m != IN[t]:
                        IN[t] = m
                        work.append(t)
        self.IN = IN

    def step(self, e, s):
        F = self.F
        n = F.nodes[e]
        kill = None
        if n["k"] == "decl":
            for v, init, st in n["d"]:
                s.pop(("V", v), None)
        elif n["k"] == "bin" and n["op"] == "=":
            kill = self.A.G.place(F, n["l"])
        elif n["k"] == "call" and n.get("f"):
            b = base(self.A.P, n)
            if b in ("operator=", "clear", "resize", "pop_back", "erase", "swap", "assign") and n.get("o", -1) >= 0:
                kill = self.A.G.place(F, n["o"])
            for j, a in enumerate(n["a"]):
                x = F.skip(a)
                if x is not None and x >= 0 and F.nodes[x]["k"] == "var" and ("V", F.nodes[x]["v"]) in s and \
                        not self.A.P.param_readonly(n["f"], j):
                    s.pop(("V", F.nodes[x]["v"]), None)
        if kill is not None:
            s.pop(kill, None)

    def learn(self, f, s):
        def num(x):
            return int(x[1]) if x[0] == "c" and re.fullmatch(r"\d+", str(x[1])) else None
        if f[0] in ("<", "<=", "=="):
            for a, b in ((f[1], f[2]),) + (((f[2], f[1]),) if f[0] == "==" else ()):
                c = num(a)
                if c is not None and b[0] == "call" and b[1] == "size" and len(b) >= 3 and b[2]:
                    s[b[2]] = max(s.get(b[2], 0), c + (f[0] == "<"))
        if f[0] == "!=" :
            for a, b in ((f[1], f[2]), (f[2], f[1])):
                if num(a) == 0 and b[0] == "call" and b[1] == "size" and b[2]:
                    s[b[2]] = max(s.get(b[2], 0), 1)
        if f[0] == "false" and f[1][0] == "call" and f[1][1] == "empty" and f[1][2]:
            s[f[1][2]] = max(s.get(f[1][2], 0), 1)

    def at(self, nid, root):
        w = self.F.where().get(nid)
        if w is None or w[0] not in self.IN:
            return 0
        s = dict(self.IN[w[0]])
        for e in self.F.blocks[w[0]].els[:w[1]]:
            self.step(e, s)
        return s.get(root, 0)


class Fields:
    def __init__(self, P, A):
        self.P, self.A = P, A
        self.low = {}
        self.callers = None

    def sites(self, F):
        w = F.where()
        for i, n in enumerate(F.nodes):
            if i not in w or n["k"] != "call" or not n.get("f"):
                continue
            e = self.P.ext[n["f"]]
            if not WORDS.search(e.get("rec") or ""):
                continue
            if e["base"] == "operator[]":
                o = n["o"] if n.get("o", -1) >= 0 else n["a"][0]
                yield i, self.A.path(F, o), self.A.path(F, n["a"][-1])
            elif e["base"] in ("front", "back"):
                yield i, self.A.path(F, n["o"]), ("c", "0")

    def call_sites(self, key):
        if self.callers is None:
            self.callers = {}
            for F in self.P.funcs.values():
                w = F.where()
                for i, n in enumerate(F.nodes):
                    if n["k"] == "call" and n.get("f") in self.P.funcs and i in w:
                        self.callers.setdefault(n["f"], []).append((F, i))
        return self.callers.get(key, [])

    def holds(self, F, i, root, E, d=0):
        """is polynomial E, the largest index, below the size of root before node i"""
        A = self.A
        facts = [f for f in A.facts(F, i)
                 if not any(isinstance(x, tuple) and x and x[0] == "A" for y in f[1:] for x in walk(y))]
        vs = [x for x in poly.atoms(E) if x[0] == "V"]
        Es = []
        for f in facts:
            if f[0] in ("<", "<=") and poly.of(f[1]) == E:
                Es.append(poly.add(poly.of(f[2]), poly.const(-1 if f[0] == "<" else 0)))
        if all(A.bounds(F, x, facts) for x in vs):
            Es += A.maxima(F, E, vs, facts)
        low = dict(A.lower(facts))
        size = ("call", "size", root)
        if F.key not in self.low:
            self.low[F.key] = Low(A, F)
        c = self.low[F.key].at(i, root)
        low[size] = max(low.get(size, 0), c)
        eqs = A.equal(facts)
        ups = []
        for f in facts:       # e <= size
            if f[0] in ("<", "<=") and f[2] == size and f[1] != size:
                ups.append(poly.add(poly.of(f[1]), poly.const(1 if f[0] == "<" else 0)))
        goals = [poly.atom(size)] + ups
        for e in Es:
            for g in goals:
                if A.leq(poly.add(e, poly.const(1)), g, eqs, low):
                    return True
        if d < 3 and root[0] == "P":
            cs = self.call_sites(F.key)
            if cs:
                for e in Es:
                    if any(x[0] not in ("P", "c") for x in poly.atoms(e)):
                        continue
                    ok = True
                    for (C, j) in cs:
                        n = C.nodes[j]
                        a = [A.path(C, x) for x in n["a"]]
                        if root[1] >= len(a):
                            ok = False
                            break
                        q = {}
                        for m, k in e.items():
                            t = poly.const(k)
                            for x in m:
                                t = poly.mul(t, poly.of(subst(x, a, None)))
                            q = poly.add(q, t)
                        if not self.holds(C, j, a[root[1]], q, d + 1):
                            ok = False
                            break
                    if ok:
                        return True
        return False


def fields(rep, P, A):
    rep.rule("a field of an input line is used only where the tests made on every path imply that the line has that "
             "many fields (configured counts are not negative)")
    X = Fields(P, A)
    n = 0
    for F in P.funcs.values():
        if not own(F):
            continue
        for i, root, ix in X.sites(F):
            if X.holds(F, i, root, poly.of(ix)):
                n += 1
            else:
                rep.violation("field:%s" % F.name, F.loc(i), "%s uses a field of an input line without a test that the "
                              "line has it" % F.name)
    rep.require("field uses", n, 150)


# ----------------------------------------------------------- lost records
def is_split(P, F, nid):
    """does the value come from splitting a line"""
    for x in F.walk(nid):
        n = F.nodes[x]
        if n["k"] == "call" and n.get("f") and base(P, n) == "split":
            return True
    return False


def lost(rep, P, A):
    rep.rule("a line that was split into fields is used or an error is raised: no path goes on to the next line with "
             "the fields untouched (blank lines excepted)")
    n = 0
    for F in P.funcs.values():
        if not own(F):
            continue
        gens = {}
        for (dv, node, val, kind) in F.defs_of()[0]:
            if kind in ("decl", "assign") and val is not None and node in F.where() and \
                    WORDS.search(F.vtype[dv] or "") and is_split(P, F, val):
                gens[node] = dv
        if not gens:
            continue
        n += len(gens)
        for node, v in pending(P, A, F, gens):
            rep.violation("lost:%s" % F.name, F.loc(node), "%s can go on to the next line without using or rejecting the "
                          "fields of this one (%s)" % (F.name, F.vname[v]))
    rep.require("lines split into fields", n, 40)


def pending(P, A, F, gens):
    """(node, variable) of splits whose fields may stay unused"""
    G = A.G
    vs = set(gens.values())
    out = []
    loops = natural_loops(F)

    def consumed(e):
        """variables whose fields element e uses"""
        n = F.nodes[e]
        c = set()
        if n["k"] == "call" and n.get("f"):
            b = base(P, n)
            if n.get("o", -1) >= 0 and b not in ("size", "empty", "operator=", "clear"):
                x = F.skip(n["o"])
                if x is not None and x >= 0 and F.nodes[x]["k"] == "var" and F.nodes[x]["v"] in vs:
                    c.add(F.nodes[x]["v"])
            if b not in ("operator=", "size", "empty"):
                for a in n["a"]:
                    x = F.skip(a)
                    if x is not None and x >= 0 and F.nodes[x]["k"] == "var" and F.nodes[x]["v"] in vs:
                        c.add(F.nodes[x]["v"])
        elif n["k"] == "decl":
            for v, init, st in n["d"]:
                if init is not None and init >= 0:
                    x = F.skip(init)
                    if x is not None and x >= 0 and F.nodes[x]["k"] == "var" and F.nodes[x]["v"] in vs:
                        c.add(F.nodes[x]["v"])
        return c

    def walkon(v, start, found):
        """blocks and elements from start in the same line's processing;
        found(kind, block): kind 'use', 'next', 'exit'"""
        st = [start]
        seen = set()
        while st:
            b, p = st.pop()
            if (b, p) in seen:
                continue
            seen.add((b, p))
            blk = F.blocks[b]
            stop = False
            for e in blk.els[p:]:
                nn = F.nodes[e]
                if v in consumed(e):
                    found("use", b)
                    stop = True
                    break
                if (e in gens and gens[e] == v) or \
                        (nn["k"] == "call" and nn.get("f") and base(P, nn) in ("getline", "next_line")):
                    found("next", b)
                    stop = True
                    break
            if stop or F.aborts(b):
                continue
            if b == F.exit:
                found("exit", b)
                continue
            for j, t in enumerate(blk.succ):
                if t >= 0 and found("edge", (b, j)) is not False:
                    st.append((t, 0))

    for g, v in gens.items():
        gb, gp = F.where()[g]
        tests = []

        def first(kind, x):
            if kind != "edge":
                return None
            b, j = x
            blk = F.blocks[b]
            if blk.tc is None or blk.tc < 0 or len(blk.succ) != 2 or blk.tk in ("SwitchStmt", "CXXForRangeStmt"):
                return None
            c = G.last(F, blk.tc, blk)
            if ("call", "size", ("V", v)) in walk(G.V.path(F, c)) or ("call", "empty", ("V", v)) in walk(G.V.path(F, c)):
                tests.append(b)
            return None
        walkon(v, (gb, gp + 1), first)
        for b in sorted(set(tests)):
            blk = F.blocks[b]
            kinds = []
            for j in (0, 1):
                ks = set()
                if blk.succ[j] >= 0:
                    walkon(v, (blk.succ[j], 0), lambda k, x: ks.add(k))
                ks.discard("edge")
                kinds.append(ks)
            for j in (0, 1):
                if "use" in kinds[1 - j] and "use" not in kinds[j] and kinds[j]:
                    fs = G.cond(F, G.last(F, blk.tc, blk), j == 0)
                    if any(nothing(f, v) for f in fs) or b in (h for h, bs in loops):
                        continue
                    out.append((g, v))
    return out


def nothing(f, v):
    """does the fact say that the vector is empty"""
    s = ("call", "size", ("V", v))
    if f[0] == "==" and {f[1], f[2]} == {s, ("c", "0")}:
        return True
    if f[0] == "<=" and f[1] == s and f[2] == ("c", "0"):
        return True
    if f[0] == "<" and f[1] == s and f[2] == ("c", "1"):
        return True
    return f[0] == "true" and f[1][:3] == ("call", "empty", ("V", v))


# --------------------------------------------- what the readers have to build
STORE = {"m_node_map", "m_link_map", "m_origin_map", "m_destination_map", "m_busstop_map", "m_parking_lot_map",
         "m_transit_link_map", "m_demand", "m_demand_car", "m_demand_truck", "m_demand_bus", "m_demand_pnr_car",
         "m_demand_passenger_bus", "m_demand_multi_OD_seq", "m_path_vec", "m_origin_node", "m_dest_node"}
ADD = {"insert", "emplace", "push_back", "emplace_back", "operator[]", "try_emplace", "insert_or_assign", "push_front"}
# files that a model may leave out
OPTIONAL = {"build_demand_multi_OD_seq", "add_charging_station_node", "load_candidate_poi_table",
            "build_passenger_demand", "build_vehicle_demand_multimodal", "build_pnr_demand",
            "build_bustransit_demand"}


class Stores:
    """functions that, directly or through calls, add to the objects of the
    model"""

    def __init__(self, P):
        self.P = P
        self.funcs = set()
        callers = {}
        for F in P.funcs.values():
            if not own(F):
                continue
            for i, n in enumerate(F.nodes):
                if self.local(F, n):
                    self.funcs.add(F.key)
                if n["k"] == "call" and n.get("f") in P.funcs:
                    for t in P.targets(F, i):
                        callers.setdefault(t, set()).add(F.key)
        work = list(self.funcs)
        while work:
            k = work.pop()
            for c in callers.get(k, ()):
                if c not in self.funcs:
                    self.funcs.add(c)
                    work.append(c)

    def local(self, F, n):
        if n["k"] == "call" and n.get("f") and n.get("o", -1) >= 0 and base(self.P, n) in ADD:
            x = F.skip(n["o"])
            if base(self.P, n) == "operator[]" and not any(
                    m["k"] == "bin" and m["op"].endswith("=") and F.nodes[F.skip(m["l"])] is n or
                    m["k"] == "call" and m.get("o", -1) >= 0 and m.get("f") and m is not n and
                    F.nodes[F.skip(m["o"])] is n for m in F.nodes):
                return False        # read only
            return x is not None and x >= 0 and F.nodes[x]["k"] == "mem" and F.nodes[x]["n"] in STORE
        if n["k"] == "bin" and n["op"] == "=":
            x = F.skip(n["l"])
            return x is not None and x >= 0 and F.nodes[x]["k"] == "mem" and \
                F.nodes[x]["n"] in ("m_origin_node", "m_dest_node")
        return False

    def at(self, F, i):
        n = F.nodes[i]
        if self.local(F, n):
            return True
        return n["k"] == "call" and n.get("f") in self.P.funcs and \
            any(t in self.funcs for t in self.P.targets(F, i))


def escapes(F, b):
    """can block b reach the end of the function without an error"""
    st, seen = [b], set()
    while st:
        x = st.pop()
        if x in seen or x < 0:
            continue
        seen.add(x)
        if x == F.exit:
            return True
        if F.aborts(x):
            continue
        st += F.blocks[x].succ
    return False


def files(rep, P, A, S):
    rep.rule("a function that adds nodes, links, origins, destinations, demand or paths from a file raises an error when "
             "the file cannot be opened")
    n = 0
    for F in P.funcs.values():
        if not own(F) or F.name.split("::")[-1] in OPTIONAL:
            continue
        for b in F.blocks.values():
            if len(b.succ) != 2 or b.tc is None or b.tc < 0:
                continue
            c = A.G.last(F, b.tc, b)
            p = A.G.V.path(F, c)
            r = opened(p)
            if r is None:
                continue
            no = b.succ[0 if not r else 1]
            yes = b.succ[1 if not r else 0]
            if no < 0 or yes < 0:
                continue
            after = F.reach_from(yes) | {yes}
            if not any(S.at(F, e) for x in after for e in F.blocks[x].els):
                continue
            n += 1
            if escapes(F, no):
                rep.violation("file:%s" % F.name, F.loc(c), "%s goes on without an error when a file it needs is missing"
                              % F.name)
    rep.require("tests of required files", n, 10)


def opened(p):
    """truth of the condition when the file is open; None if it is no such test"""
    if p[0] == "call" and p[1] in ("is_open", "good") :
        return True
    if p[0] == "call" and p[1] in ("operator bool",) and p[2] is not None:
        return None
    if p[0] == "call" and p[1] in ("fail", "operator!"):
        return False if p[1] == "fail" else None
    if p[0] == "un" and p[1] == "!":
        r = opened(p[2])
        return None if r is None else not r
    return None


def stored(rep, P, A, S):
    rep.rule("every record of a file of nodes, links, origins, destinations, demand or paths is added or rejected: no path "
             "from the use of its fields to the next line avoids both")
    n = 0
    for F in P.funcs.values():
        if not own(F):
            continue
        w = F.where()
        reads = [i for i, nd in enumerate(F.nodes) if i in w and nd["k"] == "call" and nd.get("f")
                 and base(P, nd) in ("getline", "next_line")]
        if not reads:
            continue
        loops = natural_loops(F)
        for i, root, ix in Fields(P, A).sites(F):
            inl = [(h, bs) for h, bs in loops if w[i][0] in bs and any(w[r][0] in bs for r in reads)]
            if not inl or ix != ("c", "0"):
                continue
            h, bs = min(inl, key=lambda x: len(x[1]))
            if not any(S.at(F, e) for b in bs for e in F.blocks[b].els):
                continue
            n += 1
            st = [(w[i][0], w[i][1] + 1)]
            seen = set()
            bad = None
            while st and bad is None:
                b, p = st.pop()
                if (b, p) in seen:
                    continue
                seen.add((b, p))
                blk = F.blocks[b]
                if any(S.at(F, e) for e in blk.els[p:]):
                    continue
                if F.aborts(b):
                    continue
                if p == 0 and (b == h or b == F.exit):
                    bad = b
                    continue
                inner = [bs2 for h2, bs2 in loops if h2 == b]
                for t in blk.succ:
                    if t < 0:
                        continue
                    # an inner loop that adds: it is taken to run
                    if inner and t not in inner[0] and any(S.at(F, e) for x in inner[0] for e in F.blocks[x].els):
                        continue
                    st.append((t, 0))
            for b in sorted(bs):
                if b == h or not F.dominates(w[i][0], b):
                    continue
                for t in F.blocks[b].succ:
                    if t >= 0 and t not in bs and not always_aborts(F, t):
                        rep.violation("left:%s" % F.name, F.loc(A.G.last(F, F.blocks[b].tc, F.blocks[b])
                                                               if F.blocks[b].tc is not None and F.blocks[b].tc >= 0
                                                               else i),
                                      "%s can stop after a record although others may follow" % F.name)
            if bad is not None:
                rep.violation("stored:%s" % F.name, F.loc(i), "%s can go on to the next line without adding or rejecting "
                              "the record" % F.name)
    rep.require("records followed", n, 18)


def always_aborts(F, b):
    """every path from b ends in an exception"""
    st, seen = [b], set()
    while st:
        x = st.pop()
        if x == F.exit:
            return False
        if x in seen or F.aborts(x):
            continue
        seen.add(x)
        st.extend(s for s in F.blocks[x].succ if s >= 0)
    return True


# ---------------------------------------------------------- number of records
def counted(rep, P, A):
    rep.rule("a loop over an announced number of records starts at zero, ends at that number, and counts every record "
             "once and blank and comment lines not at all")
    n = 0
    for F in P.funcs.values():
        if not own(F):
            continue
        w = F.where()
        loops = natural_loops(F)
        D = F.defs_of()[0]
        reads = [i for i, nd in enumerate(F.nodes) if i in w and nd["k"] == "call" and nd.get("f")
                 and base(P, nd) in ("getline", "next_line")]
        for h, body in loops:
            rs = [r for r in reads if w[r][0] in body and
                  min((bs for _, bs in loops if w[r][0] in bs), key=len) is body]
            blk = F.blocks[h]
            if not rs or blk.tc is None or blk.tc < 0 or len(blk.succ) != 2:
                continue
            ins = [x in body for x in blk.succ]
            if ins[0] == ins[1]:
                continue
            c = A.G.last(F, blk.tc, blk)
            for f in A.G.cond(F, c, ins[0]):
                if f[0] not in ("<", "<=", "!="):
                    continue
                for v, bound in ((f[1], f[2]),) + (((f[2], f[1]),) if f[0] == "!=" else ()):
                    if v[0] != "V":
                        continue
                    v = v[1]
                    ups = [d for d in D if d[0] == v and d[1] in w and w[d[1]][0] in body and d[3] != "escape"]
                    if not ups or any(d[3] != "update" for d in ups):
                        continue
                    n += 1
                    ini = [d for d in F.reaching(v, c) if not (d[0] in w and w[d[0]][0] in body)]
                    if len(ini) == 1 and ini[0][1] is not None:
                        k = poly.add(poly.of(bound), poly.of(A.path(F, ini[0][1])), -1)
                        if f[0] == "<=":
                            k = poly.add(k, poly.const(1))
                        if len(k) >= 1 and k.get((), 0) != 0:
                            rep.violation("count:%s" % F.name, F.loc(c), "%s reads %s records, not the announced number"
                                          % (F.name, poly.show(k)))
                    for text in steps(P, A, F, h, body, rs, v, ups):
                        rep.violation("count:%s" % F.name, F.loc(rs[0]), "%s %s" % (F.name, text))
    rep.require("loops over an announced number of records", n, 20)


def steps(P, A, F, h, body, rs, v, ups):
    """complaints about the number of times the counter is increased from one
    read to the next"""
    w = F.where()
    at = {}
    for d in ups:
        nd = F.nodes[d[1]]
        s = 1
        if nd["k"] == "un" and "--" in nd["op"]:
            s = -1
        if nd["k"] == "bin":
            x = F.nodes[F.skip(nd["r"])]
            s = int(x["val"]) if x["k"] == "int" else 99
            if nd["op"] == "-=":
                s = -s
        at[d[1]] = s
    out = []
    lines = {A.path(F, a) for r in rs for a in F.nodes[r]["a"]}
    first = min(rs, key=lambda r: w[r])
    # state: (increments, comment seen)
    st = [(w[first][0], w[first][1] + 1, 0, False)]
    seen = set()
    ends = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        b, p, k, com = x
        blk = F.blocks[b]
        for e in blk.els[p:]:
            if e in at:
                k = min(k + at[e], 3)
        if F.aborts(b):
            continue
        for j, t in enumerate(blk.succ):
            if t < 0 or t not in body:
                continue
            c2 = com
            if blk.tc is not None and blk.tc >= 0 and len(blk.succ) == 2 and \
                    blk.tk not in ("SwitchStmt", "CXXForRangeStmt") and b != h:
                if any(blank(f, lines) for f in A.G.cond(F, A.G.last(F, blk.tc, blk), j == 0)):
                    c2 = True
            if t == h:
                kk = k
                for e in F.blocks[h].els:
                    if e in at:
                        kk = min(kk + at[e], 3)
                ends.add((kk, c2))
            else:
                st.append((t, 0, k, c2))
    for k, com in sorted(ends):
        if com and k != 0:
            out.append("counts a blank or comment line as a record")
        if not com and k != 1:
            out.append("counts a record %d times" % k)
    return out


def blank(f, lines):
    """does the fact say that one of the lines is blank or a comment"""
    if not any(x in lines for y in f[1:] for x in walk(y)):
        return False
    if f[0] == "true" and f[1][:2] == ("call", "empty"):
        return True
    if f[0] == "==":
        for x, y in ((f[1], f[2]), (f[2], f[1])):
            if y[0] == "c" and str(y[1]) in ("35", "#", "'#'"):
                return True
            if y == ("c", "0") and x[0] == "call" and x[1] in ("size", "length"):
                return True
    return False


# -------------------------------------------------------- stale search results
def stale(rep, P, A):
    rep.rule("what a search over the network found for one record is not used for the next: after the search the value "
             "was assigned in the same iteration")
    n = 0
    for F in P.funcs.values():
        if not own(F) or not any(nd["k"] == "call" and nd.get("f") and base(P, nd) == "split" for nd in F.nodes):
            continue
        loops = natural_loops(F)
        w = F.where()
        D = F.defs_of()[0]
        for h, body in loops:
            for h2, b2 in loops:
                if not set(b2) < set(body):
                    continue
                for (dv, nd, val, kind) in D:
                    if kind != "assign" or nd not in w or w[nd][0] not in body:
                        continue
                    if w[nd][0] not in b2 and not any(x != h2 and F.dominates(x, w[nd][0]) for x in b2):
                        continue        # neither in the search nor where it is left
                    if not re.match(r"(const )?(int|long|unsigned|std::size_t|size_t|TInt|double|TFlt|.*\*$)",
                                    F.vtype[dv] or ""):
                        continue
                    # only assignments made when something was found
                    if F.dominates(h2, w[nd][0]) and not conditional(F, h2, b2, w[nd][0]):
                        continue
                    others = [x[1] for x in D if x[0] == dv and x[1] in w and x[1] != nd]
                    defb = {w[x][0] for x in others}
                    uses = [i for i, q in enumerate(F.nodes) if q["k"] == "var" and q["v"] == dv and i in w
                            and w[i][0] in body and F.dominates(h2, w[i][0]) and w[i][0] not in b2]
                    uses = [u for u in uses if not any(F.nodes[x].get("l") == u or F.nodes[x].get("o") == u
                                                       for x in [nd] + others)]
                    if not uses:
                        continue
                    if any(x in F.where() and F.nodes[x]["k"] == "decl" and w[x][0] in body for x in others):
                        continue
                    if not goes(F, h, {h2}, defb - {h2}, set(body)):
                        continue
                    alld = defb | {w[nd][0]}
                    for u in uses:
                        if w[u][0] in alld:
                            continue
                        n += 1
                        if goes(F, h2, {w[u][0]}, alld, set(body)) and not flagged(A, F, u, dv, alld, h, h2, body):
                            rep.violation("stale:%s:%s" % (F.name, F.vname[dv]), F.loc(u),
                                          "%s uses the value of %s that the search for an earlier record found"
                                          % (F.name, F.vname[dv]))
                            break
    rep.require("uses of search results", n, 1)


def other_record(rep, P, A):
    rep.rule("a field, or a value taken from a field, is used only for the line it was read from: where it is used in a "
             "loop over lines, it was assigned in the same iteration")
    n = 0
    for F in P.funcs.values():
        if not own(F) or not any(nd["k"] == "call" and nd.get("f") and base(P, nd) == "split" for nd in F.nodes):
            continue
        w = F.where()
        loops = natural_loops(F)
        reads = [i for i, nd in enumerate(F.nodes) if i in w and nd["k"] == "call" and nd.get("f")
                 and base(P, nd) in ("getline", "next_line")]
        rows = []
        for h, body in loops:
            if any(w[r][0] in body and min((bs for _, bs in loops if w[r][0] in bs), key=len) is body for r in reads):
                rows.append((h, set(body)))
        if not rows:
            continue
        sites = {i for i, _, _ in Fields(P, A).sites(F)}
        D = F.defs_of()[0]
        taken = {}
        for (dv, nd, val, kind) in D:
            if kind in ("decl", "assign") and val is not None and nd in w and \
                    (any(x in sites for x in F.walk(val)) or WORDS.search(F.vtype[dv] or "") and is_split(P, F, val)):
                taken.setdefault(dv, set()).add(nd)
        done = set()
        for h, body in rows:
            for u, q in enumerate(F.nodes):
                if q["k"] != "var" or q["v"] not in taken or u not in w or w[u][0] not in body:
                    continue
                v = q["v"]
                defs = [x[1] for x in D if x[0] == v and x[1] in w]
                if any(F.nodes[x].get("l") == u or F.nodes[x].get("o") == u for x in defs if w[x][0] == w[u][0]):
                    continue
                n += 1
                rs = [x[0] for x in F.reaching(v, u)]
                if any(x in taken[v] and w[x][0] not in body and
                       any(w[x][0] in b2 and not b2 & body for _, b2 in rows) for x in rs):
                    why = "other line of the file"
                elif any(x in taken[v] and w[x][0] in body for x in rs) and \
                        all(x in taken[v] for x in defs if w[x][0] in body) and \
                        not any(same_case(A, F, x, u, h) for x in defs if w[x][0] in body) and not any(w[x][0] == w[u][0] and w[x][1] < w[u][1] for x in defs) and \
                        goes(F, h, {w[u][0]}, {w[x][0] for x in defs if w[x][0] in body}, body):
                    why = "earlier line"
                else:
                    continue
                if (F.key, v) not in done:
                    done.add((F.key, v))
                    rep.violation("record:%s:%s" % (F.name, F.vname[v]), F.loc(u), "%s uses %s of an %s"
                                  % (F.name, F.vname[v], why))
    rep.require("uses of fields in loops over lines", n, 50)


def same_case(A, F, d, u, h):
    """what is known at d (and was not before the iteration) is also known at u"""
    w = F.where()
    els = F.blocks[h].els
    before = set(A.G.at(F, els[0])) if els else set()
    fs = {f for f in A.G.at(F, d) if f not in before}
    fs = {f for f in fs if any(isinstance(y, tuple) and y[:1] == ("P",) for x in f[1:] for y in walk(x))
          and not any(isinstance(y, tuple) and y[:1] == ("V",) for x in f[1:] for y in walk(x))}
    return bool(fs) and fs <= set(A.G.at(F, u)) and w[d][0] != w[u][0]


def conditional(F, h2, b2, b):
    """does the block run only in some iterations of the loop"""
    ls = [x for x in b2 if h2 in F.blocks[x].succ]
    return not (b in b2 and all(F.dominates(b, x) for x in ls))


def goes(F, a, goals, avoid, inside):
    st, seen = [a], set()
    while st:
        x = st.pop()
        if x in seen or x < 0 or x not in inside:
            continue
        seen.add(x)
        if x in goals:
            return True
        if x in avoid and x != a:
            continue
        st += F.blocks[x].succ
    return False


def flagged(A, F, u, dv, alld, h, h2, body):
    """is there a flag, known to be set at u, that is cleared before the search
    and set only together with the variable"""
    w = F.where()
    for f in A.G.at(F, u):
        fv = None
        for x in f[1:]:
            if isinstance(x, tuple) and x and x[0] == "V":
                fv = x[1]
        if fv is None or fv == dv:
            continue
        sets = [d for d in F.defs_of()[0] if d[0] == fv and d[1] in w and w[d[1]][0] in body and d[3] != "escape"]
        inside = [d for d in sets if F.dominates(h2, w[d[1]][0]) and w[d[1]][0] != h2]
        before = [d for d in sets if d not in inside]
        if inside and before and all(w[d[1]][0] in alld for d in inside) and \
                not goes(F, h, {h2}, {w[d[1]][0] for d in before}, set(body)):
            # the value before the search contradicts the fact
            if f[0] in ("true", "false"):
                vals = {A.G.V.path(F, d[2]) for d in before if d[2] is not None}
                if all(str(v[1]).lower() in (("false", "0") if f[0] == "true" else ("true", "1"))
                       for v in vals if v[0] == "c") and vals:
                    return True
            else:
                return True
    return False


# ------------------------------------------------------------ comment lines
def comments(rep, P, A):
    rep.rule("a test for a comment line is made on the line that the same loop reads")
    n = 0
    for F in P.funcs.values():
        if not own(F):
            continue
        w = F.where()
        loops = natural_loops(F)
        into = []
        for i, nd in enumerate(F.nodes):
            if i in w and nd["k"] == "call" and nd.get("f") and nd["a"] and \
                    (P.ext[nd["f"]].get("name") == "std::getline" or base(P, nd) == "next_line"):
                into.append((i, A.path(F, nd["a"][-1] if base(P, nd) == "next_line" else nd["a"][1])))
        if not into:
            continue
        for i, nd in enumerate(F.nodes):
            if nd["k"] != "bin" or nd["op"] not in ("==", "!=") or i not in w:
                continue
            l, r = A.path(F, nd["l"]), A.path(F, nd["r"])
            for x, y in ((l, r), (r, l)):
                if y[0] == "c" and str(y[1]) in ("35", "#", "'#'") and x[0] in ("idx", "call"):
                    s = x[1] if x[0] == "idx" else x[2]
                    inl = [bs for h, bs in loops if w[i][0] in bs]
                    if not inl:
                        continue
                    n += 1
                    bs = min(inl, key=len)
                    rd = [p for j, p in into if w[j][0] in bs]
                    if rd and s not in rd:
                        rep.violation("comment:%s" % F.name, F.loc(i), "%s tests a line that the loop does not read"
                                      % F.name)
    rep.require("tests for comment lines", n, 8)


# ----------------------------------------------------- sequences without elements
def nonempty(rep, P, A):
    rep.rule("where a record's sequence is walked up to its last element but one, the record has at least one element")
    n = 0
    for F in P.funcs.values():
        if not own(F):
            continue
        loops = natural_loops(F)
        w = F.where()
        low = None
        for h, body in loops:
            blk = F.blocks[h]
            if blk.tc is None or blk.tc < 0:
                continue
            p = A.path(F, A.G.last(F, blk.tc, blk))
            if p[0] != "bin" or p[1] not in ("<", "!="):
                continue
            q = p[3]
            if not (q[0] == "bin" and q[1] == "-" and q[3] == ("c", "1") and q[2][0] == "call" and q[2][1] == "size"):
                continue
            seq = q[2][2]
            src = filled(P, A, F, seq, loops)
            if src is None:
                continue
            n += 1
            words, k, at = src
            low = low or Low(A, F)
            if low.at(at, words) < k + 1:
                rep.violation("empty:%s" % F.name, F.loc(blk.tc), "%s walks a sequence that has no elements when the line "
                              "has only %d fields" % (F.name, k))
    rep.require("sequences walked", n, 1)


def filled(P, A, F, seq, loops):
    """(word vector, first field, node) of the loop that fills the sequence from
    the fields of a line"""
    w = F.where()
    for i, nd in enumerate(F.nodes):
        if i not in w or nd["k"] != "call" or not nd.get("f") or base(P, nd) not in ("push_back", "emplace_back"):
            continue
        if nd.get("o", -1) < 0 or A.path(F, nd["o"]) != seq:
            continue
        for h, body in sorted(loops, key=lambda x: len(x[1])):
            if w[i][0] not in body:
                continue
            blk = F.blocks[h]
            if blk.tc is None or blk.tc < 0:
                break
            for v in words_vars(F):
                s = ("V", v)
                if F.vkind[v] == "p":
                    s = ("P", F.vpidx[v])
                c = A.path(F, A.G.last(F, blk.tc, blk))
                if c[0] == "bin" and c[1] in ("<", "!=") and c[3] == ("call", "size", s) and c[2][0] == "V":
                    ini = [d for d in F.defs_of()[0] if d[0] == c[2][1] and d[3] in ("decl", "assign")
                           and d[2] is not None and d[1] in w and w[d[1]][0] not in body]
                    if len(ini) == 1:
                        k = A.path(F, ini[0][2])
                        if k[0] == "c" and str(k[1]).isdigit():
                            return s, int(k[1]), ini[0][1]
            break
    return None
