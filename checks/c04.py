"""C04: results are a function of inputs and the seed."""
import ast
import glob
import os
import re

from lib import front
from lib.prog import Program, short
from lib.common import bindings, ident, natural_loops

ENTROPY = {
    "time", "std::time", "clock", "std::clock", "gettimeofday", "clock_gettime",
    "times", "getpid", "getppid", "gettid", "getenv", "std::getenv", "secure_getenv",
    "random", "drand48", "lrand48", "mrand48", "getrandom", "getentropy", "arc4random",
    "std::this_thread::get_id", "pthread_self", "gethostname", "uname", "getuid",
    "localtime", "std::localtime", "gmtime", "std::gmtime", "ftime", "getrusage",
    "rand_r", "tmpnam", "std::tmpnam", "mkstemp", "__builtin_readcyclecounter",
    "__builtin_ia32_rdtsc", "std::filesystem::directory_iterator", "opendir", "readdir",
    "std::async", "pthread_create", "timespec_get", "std::timespec_get",
}
ENTROPY_REC = ("std::random_device", "std::chrono::", "std::thread")
ENGINE = ("mersenne_twister_engine", "linear_congruential_engine",
          "subtract_with_carry_engine", "discard_block_engine", "shuffle_order_engine")

# pointer-keyed containers whose traversal order cannot be observed; one line of
# reason each (read on the pinned tree)
ORDER_FREE = {
    ("src/multimodal.cpp", "MNM_Dlink_Pq_Multimodal::m_busstop_timeloc_map"):
        "the loops look for the stops whose location equals a given position; "
        "the per-stop actions are independent of each other",
    ("src/marginal_cost.cpp", "MNM_Link_Tt::m_tt_map"):
        "debug print only",
    ("src/realtime_dta.cpp", "MNM_Link_Tt::m_tt_map"):
        "each entry adds to the total of its own link only",
    ("src/cc_tree.cpp", "MNM_Tree_Cumulative_Curve::m_record"):
        "destructor and debug print only",
}


def order_insensitive(P, F, body):
    """the loop over the container only deletes, clears, or prints"""
    for b in body:
        for e in F.blocks[b].els:
            n = F.nodes[e]
            k = n["k"]
            if k == "delete":
                continue
            if k == "new" or k == "throw":
                return False
            if k == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                # resetting to null / constant is fine
                r = F.nodes[F.skip(n["r"])]
                if r["k"] not in ("null", "int", "bool", "flt"):
                    return False
            if k == "call" and n.get("f"):
                e2 = P.ext[n["f"]]
                base = e2.get("base", "")
                if e2.get("repo"):
                    return False
                if base in ("push_back", "push_front", "insert", "emplace", "emplace_back",
                            "emplace_front", "operator[]", "push", "operator=", "append",
                            "operator<<", "pop_front", "pop_back", "erase"):
                    return False
                if e2.get("name") in ("rand", "std::rand", "std::random_shuffle", "std::shuffle"):
                    return False
            if k == "ret":
                return False
    return True


def run(rep, tier):
    P = Program.load()
    rep.rule("(a) no clock, entropy, environment, process-identity, thread or "
             "directory-order source is used anywhere, except the one "
             "random_device draw whose value only seeds the generator at import; "
             "(b) generators are seeded only through set_random_state with its "
             "argument, and every draw comes from a generator that call seeds; "
             "(c) no traversal, sort or ordered comparison of objects by address "
             "whose order can be observed; (d) Python layer: no time/random/"
             "uuid/os.urandom/id()/hash() ")
    # the seeding entry point
    seeders = [b for b in bindings(P) if b.name == "set_random_state"]
    rep.require("seeding_entry_points", len(seeders), 1)
    seed_reach = set()
    seed_tu = set()
    for b in seeders:
        if b.target in P.funcs:
            seed_reach |= set(P.reachable([b.target]))
            seed_tu.add(b.F.tu["src"])
    drawn = set()
    ncalls = nent = 0
    for F in P.funcs.values():
        for i, n in enumerate(F.nodes):
            k = n["k"]
            if k in ("call", "ctor") and n.get("f"):
                ncalls += 1
                e = P.ext.get(n["f"], {})
                name, rec = e.get("name", ""), e.get("rec", "") or ""
                base = e.get("base", "")
                bad = None
                if name in ENTROPY and not e.get("repo"):
                    bad = name
                elif any(rec.startswith(x) for x in ENTROPY_REC) or any(name.startswith(x) for x in ENTROPY_REC):
                    if rec.startswith("std::chrono::") and base != "now":
                        bad = None
                    else:
                        bad = rec or name
                elif name in ("fopen", "open", "std::fopen") or "basic_ifstream" in rec:
                    for a in n["a"]:
                        s = F.nodes[F.skip(a)] if a >= 0 else {}
                        if s.get("k") == "str" and str(s.get("val", "")).startswith(("/dev/", "/proc/")):
                            bad = s["val"]
                if bad:
                    nent += 1
                    if seed_only(P, F, i, seeders):
                        continue
                    rep.violation("entropy:%s:%s" % (F.file, bad.split("<")[0]), F.loc(i),
                                  "%s draws from %s, which the seed does not control" % (F.name, bad))
                if name in ("srand", "std::srand", "srandom") or (base == "seed" and any(x in rec for x in ENGINE)):
                    rep.count("seeding_calls")
                    if F.key not in seed_reach:
                        rep.violation("reseed:%s:%s" % (F.file, short(F.key)), F.loc(i),
                                      "%s reseeds the generator outside set_random_state" % F.name)
                    elif not from_param(F, n["a"][0] if n["a"] else -1) or \
                            not lossless(F, n["a"][0]):
                        rep.violation("seedvalue:%s:%s" % (F.file, short(F.key)), F.loc(i),
                                      "the seed passed here is not set_random_state's argument")
                if name in ("std::shuffle", "std::sample") or (name == "std::random_shuffle" and len(n["a"]) == 3):
                    rep.count("engine_draws")
                    check_engine(rep, P, F, i, n["a"][-1], seed_tu, drawn)
                if base == "operator()" and n.get("o", -1) >= 0 and "_distribution" in rec and n["a"]:
                    rep.count("engine_draws")
                    check_engine(rep, P, F, i, n["a"][0], seed_tu, drawn)
                if base == "operator()" and any(x in rec for x in ENGINE):
                    rep.count("engine_draws")
                    check_engine(rep, P, F, i, n["o"], seed_tu, drawn)
                # sorting by address
                if name in ORDERING:
                    rep.count("orderings")
                    t = F.nodes[n["a"][0]].get("t", "")
                    last = F.nodes[n["a"][-1]].get("t", "")
                    natural = ADDR_LESS.search(last) if re.match(r"(const )?std::(less|greater)", last) \
                        else "iterator" in last.lower() or last.endswith("*")
                    if natural and ptr_elem(t):
                        rep.violation("addr-sort:%s:%s" % (F.file, ident(P, F, n["a"][0])), F.loc(i),
                                      "%s orders pointers by address" % name)
                if base in ("operator()", "operator<", "operator>", "operator<=", "operator>=", "operator<=>") \
                        and ADDR_LESS.search(rec) and k == "call":
                    rep.violation("addr-cmp:%s:%s" % (F.file, short(F.key)), F.loc(i),
                                  "%s orders or hashes an object by its address" % F.name)
                elif not e.get("repo") and base in ("operator<", "operator>", "operator<=", "operator>=", "operator<=>", "operator()") \
                        and (base != "operator()" or re.match(r"std::(less|greater)", rec)):
                    ts = [F.nodes[a].get("t", "") for a in n["a"] if a >= 0]
                    if ts and all(has_obj_ptr(t) and not re.search(r"terator", t) for t in ts):
                        rep.violation("addr-cmp:%s:%s" % (F.file, short(F.key)), F.loc(i),
                                      "%s orders two objects by address" % F.name)
                if k == "call" and rec.startswith("std::priority_queue<") and base in ("top", "pop"):
                    rep.count("heaps")
                    ta = targs(rec)
                    if has_obj_ptr(ta[0]) and (len(ta) < 3 or ADDR_LESS.search(ta[2]) or re.match(r"std::(less|greater)<void>", ta[2])):
                        rep.violation("addr-heap:%s:%s" % (F.file, ident(P, F, n["o"])), F.loc(i),
                                      "%s takes pointers from a heap ordered by address" % F.name)
            if k == "mem" and re.match(r"st_([amc]tim|ino|dev)", n.get("n", "")):
                rep.violation("entropy:%s:%s" % (F.file, n["n"]), F.loc(i),
                              "%s uses a time stamp of a file" % F.name)
            # pointer turned into a number
            if k == "cast" and n.get("ck") == "PointerToIntegral":
                rep.violation("addr-int:%s:%s" % (F.file, short(F.key)), F.loc(i),
                              "%s turns an address into a number" % F.name)
            if k == "bin" and n["op"] in ("<", ">", "<=", ">="):
                lt = F.nodes[n["l"]].get("t", "")
                rt = F.nodes[n["r"]].get("t", "")
                if lt.endswith("*") and rt.endswith("*") and "char" not in lt and \
                        re.match(r"(const )?MNM_|(const )?Ctm", lt):
                    rep.violation("addr-cmp:%s:%s" % (F.file, short(F.key)), F.loc(i),
                                  "%s orders two objects by address" % F.name)
    for b in seeders:
        T = P.funcs.get(b.target)
        if T is None:
            continue
        got = must_seed(P, T)
        for g in ["rand"] + sorted(drawn):
            rep.count("generators")
            if g not in got:
                rep.violation("unseeded:%s" % g, T.loc(),
                              "%s can return without seeding %s" %
                              (T.name, "the C generator" if g == "rand" else "the generator '%s'" % g))
    rep.require("calls", ncalls, 5000)
    rep.require("import_time_entropy", nent, 0)
    # (c) address-ordered traversal
    nit = 0
    for F in P.funcs.values():
        loops = None
        for i, n in enumerate(F.nodes):
            if n["k"] != "call" or not n.get("f"):
                continue
            e = P.ext[n["f"]]
            if e["base"] not in ("begin", "cbegin", "rbegin", "crbegin", "lower_bound", "upper_bound"):
                continue
            if not re.match(r"std::(?:unordered_)?(?:multi)?(?:map|set)<", e.get("rec", "")):
                continue
            if not has_obj_ptr(targs(e["rec"])[0]):
                continue
            if custom_order(e["rec"]):
                rep.count("id_ordered_traversals")
                continue
            nit += 1
            cid = held_in(P, F, n["o"])
            if F.kind == "dtor":
                continue
            if any(F.file == f and cid == c for f, c in ORDER_FREE):
                continue
            if loops is None:
                loops = natural_loops(F)
            w = F.where().get(i)
            if w:
                # innermost loop whose header is entered right after the begin()
                cand = [body for h, body in loops if w[0] not in body and
                        any(p not in body and F.dominates(w[0], p) for p in F.blocks[h].pred)]
                if cand:
                    body = min(cand, key=lambda b: dist(F, w[0], b))
                    if order_insensitive(P, F, body):
                        continue
            rep.violation("addr-order:%s:%s" % (F.file, norm(cid)), F.loc(i),
                          "%s traverses %s, which is ordered by object address"
                          % (F.name, cid))
    rep.require("address_keyed_traversals", nit, 10)
    python_side(rep)


ORDERING = {"std::sort", "std::stable_sort", "std::partial_sort", "std::nth_element",
            "std::min_element", "std::max_element", "std::minmax_element", "std::make_heap",
            "std::push_heap", "std::pop_heap", "std::sort_heap", "std::inplace_merge",
            "std::lexicographical_compare"}
ADDR_LESS = re.compile(r"std::(less|greater|less_equal|greater_equal|hash)<(?!void).*\*\s*(const)?\s*>")


def has_obj_ptr(t):
    """a value of type t carries the address of an object that is compared when
    values of the type are"""
    t = re.sub(r"\bconst\b|&", "", t).strip()
    if t.endswith("*"):
        return "char" not in t
    m = re.match(r"std::(pair|tuple|vector|array|deque|list|shared_ptr|unique_ptr)<", t)
    if m:
        if m.group(1) in ("shared_ptr", "unique_ptr"):
            return True
        return any(has_obj_ptr(x) for x in targs(t)[:None if m.group(1) in ("pair", "tuple") else 1])
    return False


def targs(rec):
    """the template arguments of the outermost template"""
    i = rec.find("<")
    args, d, cur = [], 0, ""
    for ch in rec[i + 1:]:
        if ch in "<(":
            d += 1
        elif ch in ">)":
            if d == 0:
                break
            d -= 1
        if ch == "," and d == 0:
            args.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return args + [cur.strip()]


def custom_order(rec):
    """ordered container with a comparator of its own (which the pointer
    comparison rule judges)"""
    m = re.match(r"std::(multi)?(map|set)<(.*)>$", rec)
    if not m:
        return False
    args = targs(rec)
    i = 2 if m.group(2) == "map" else 1
    return len(args) > i and not re.match(r"std::(less|greater)<", args[i])


def held_in(P, F, nid, d=0):
    """identity of a container; one passed as an argument is named by what the
    callers pass"""
    c = ident(P, F, nid)
    if not c.startswith("local ") or d > 3:
        return c
    x = F.skip(nid)
    while F.nodes[x]["k"] in ("un", "cast"):
        x = F.skip(F.nodes[x]["e"])
    n = F.nodes[x]
    for _ in range(6):
        if n["k"] == "var" and F.vkind[n["v"]] != "p":
            ds = [v for _, v, _k in F.reaching(n["v"], x) if v is not None]
            if len(ds) == 1:
                x = F.skip(ds[0])
                while F.nodes[x]["k"] in ("un", "cast"):
                    x = F.skip(F.nodes[x]["e"])
                n = F.nodes[x]
    if n["k"] != "var" or F.vkind[n["v"]] != "p":
        return c
    names = set()
    for G in P.funcs.values():
        for m in G.nodes:
            if m["k"] == "call" and m.get("f") == F.key and F.vpidx[n["v"]] < len(m["a"]):
                names.add(held_in(P, G, m["a"][F.vpidx[n["v"]]], d + 1))
    names = {x for x in names if not x.startswith("local ")}
    return min(names) if names else c


def norm(c):
    return re.sub(r"\s+", "", c)[:90]


def dist(F, b, body):
    # breadth-first distance from block b to the body
    seen, cur, d = {b}, [b], 0
    while cur:
        nxt = []
        for x in cur:
            if x in body:
                return d
            for s in F.blocks[x].succ:
                if s >= 0 and s not in seen:
                    seen.add(s)
                    nxt.append(s)
        cur, d = nxt, d + 1
    return 10 ** 6


def ptr_elem(t):
    t = re.sub(r"^const ", "", t).rstrip("& ")
    m = re.match(r"__gnu_cxx::__normal_iterator<", t)
    if m:
        return has_obj_ptr(re.sub(r"\s*\*(\s*const)?$", "", targs(t)[0]))
    if t.startswith("std::_Deque_iterator<"):
        return has_obj_ptr(targs(t)[0])
    return t.endswith("*") and has_obj_ptr(t[:-1])


def lossless(F, nid, depth=0):
    """different arguments give different seeds: the argument itself, or its sum
    or xor with something"""
    nid = F.skip(nid)
    n = F.nodes[nid]
    if n["k"] == "var":
        if F.vkind[n["v"]] == "p":
            return True
        ds = F.reaching(n["v"], nid)
        return bool(ds) and depth < 5 and all(val is not None and lossless(F, val, depth + 1) for _, val, _k in ds)
    if n["k"] in ("cast", "ctor") and (n.get("e") is not None or len(n.get("a", [])) == 1):
        return lossless(F, n["e"] if n.get("e") is not None else n["a"][0], depth + 1)
    if n["k"] == "call" and not n.get("a") and n.get("o", -1) >= 0:
        return lossless(F, n["o"], depth + 1)
    if n["k"] == "bin" and n["op"] in ("+", "-", "^"):
        return lossless(F, n["l"], depth + 1) or lossless(F, n["r"], depth + 1)
    return False


def from_param(F, nid):
    if nid < 0:
        return False
    vs = [F.nodes[x] for x in F.walk(nid) if F.nodes[x]["k"] == "var"]
    if not vs:
        return False
    for v in vs:
        if F.vkind[v["v"]] == "p":
            continue
        ds = F.reaching(v["v"], nid)
        if not ds or not all(val is not None and from_param(F, val) for _, val, _k in ds):
            return False
    return True


def seed_only(P, F, i, seeders):
    """the entropy value is only used as the argument of the seeding entry
    point, in module initialisation"""
    n = F.nodes[i]
    if not F.name.startswith("pybind11_init_") and "pybind11_init" not in F.name:
        return False
    e = P.ext[n["f"]]
    if n["k"] == "ctor":
        return True     # the device object itself; its draws are judged below
    tg = {b.target for b in seeders}
    for j, m in enumerate(F.nodes):
        if m["k"] == "call" and m.get("f") in tg and any(i in F.walk(a) for a in m["a"]):
            return True
        if m["k"] == "decl":
            for v, init, st in m["d"]:
                if init >= 0 and i in set(F.walk(init)):
                    # a variable that only flows into the seeding call
                    return all(in_seed_call(F, u, tg) for u, x in enumerate(F.nodes)
                               if x["k"] == "var" and x["v"] == v)
    return False


def in_seed_call(F, u, tg):
    for m in F.nodes:
        if m["k"] == "call" and m.get("f") in tg and any(u in F.walk(a) for a in m["a"]):
            return True
    return False


def must_seed(P, F, stack=()):
    """generators that F seeds on every path to its return"""
    if F.key in stack:
        return set()
    gen = {}
    for bid, b in F.blocks.items() if hasattr(F.blocks, "items") else enumerate(F.blocks):
        s = set()
        for e in b.els:
            n = F.nodes[e]
            if n["k"] != "call" or not n.get("f"):
                continue
            x = P.ext.get(n["f"], {})
            if x.get("name") in ("srand", "std::srand"):
                s.add("rand")
            elif x.get("base") == "seed" and any(y in (x.get("rec") or "") for y in ENGINE):
                o = F.nodes[F.skip(n["o"])] if n.get("o", -1) >= 0 else {}
                if o.get("k") == "var":
                    s.add(F.vname[o["v"]])
            elif n["f"] in P.funcs:
                s |= must_seed(P, P.funcs[n["f"]], stack + (F.key,))
        gen[bid] = s
    allg = set().union(*gen.values()) if gen else set()
    out = {b: set(allg) for b in gen}
    ent = F.entry
    work = True
    while work:
        work = False
        for b in gen:
            ps = [p for p in F.blocks[b].pred if p in gen]
            i = set() if b == ent or not ps else set.intersection(*[out[p] for p in ps])
            o = i | gen[b]
            if o != out[b]:
                out[b] = o
                work = True
    return out.get(F.exit, set())


def seeded_init(P, F, init, at, seed_tu):
    """the initial state of a local generator comes from a seeded one or from
    the caller"""
    for x in F.walk(init):
        n = F.nodes[x]
        if n["k"] == "var" and F.vkind[n["v"]] == "p":
            return True
        if n["k"] == "var" and F.vkind[n["v"]] == "g" and any(y in n.get("t", "") for y in ENGINE):
            return F.tu["src"] in seed_tu
        if n["k"] == "var" and F.vkind[n["v"]] not in ("p", "g", "s"):
            for _, val, _k in F.reaching(n["v"], x):
                if val is not None and val != init and seeded_init(P, F, val, at, seed_tu):
                    return True
        if n["k"] == "call" and n.get("f"):
            e = P.ext.get(n["f"], {})
            if e.get("repo") or e.get("name") in ("rand", "std::rand") or e.get("base") == "operator()":
                return True
    return False


def check_engine(rep, P, F, at, eng, seed_tu, drawn):
    nid = F.skip(eng)
    n = F.nodes[nid]
    if "random_device" in n.get("t", ""):
        return      # reported as entropy
    if n["k"] == "var":
        v = n["v"]
        kind = F.vkind[v]
        if kind == "s":
            rep.violation("engine:%s:%s" % (F.file, F.vname[v]), F.loc(at),
                          "%s draws from a generator that keeps its state across "
                          "set_random_state calls" % F.name)
        elif kind == "g":
            if F.tu["src"] not in seed_tu:
                rep.violation("engine:%s:%s" % (F.file, F.vname[v]), F.loc(at),
                              "%s draws from this file's own copy of '%s', which "
                              "set_random_state does not seed" % (F.name, F.vname[v]))
            drawn.add(F.vname[v])
        elif kind == "p":
            # judged at callers that name the engine; arguments are walked there
            for G in P.funcs.values():
                for j, m in enumerate(G.nodes):
                    if m["k"] == "call" and m.get("f") == F.key:
                        pi = F.vpidx[v]
                        if 0 <= pi < len(m["a"]):
                            if G.key != F.key:
                                check_engine(rep, P, G, j, m["a"][pi], seed_tu, drawn)
        else:
            # a local engine: its state starts from what its initialiser gives
            # (the entropy rule covers draws in it)
            ini = [i for m in F.nodes if m["k"] == "decl" for w, i, st in m["d"] if w == v]
            seeded = any(i >= 0 and seeded_init(P, F, i, at, seed_tu) for i in ini) or any(
                m["k"] == "call" and P.ext.get(m.get("f"), {}).get("base") == "seed" and
                F.nodes[F.skip(m["o"])].get("v") == v and m["a"] and seeded_init(P, F, m["a"][0], at, seed_tu)
                for m in F.nodes if m["k"] == "call" and m.get("f") and m.get("o", -1) >= 0)
            if ini and not seeded:
                rep.violation("engine:%s:%s" % (F.file, F.vname[v]), F.loc(at),
                              "%s draws from a generator of its own that set_random_state "
                              "does not seed" % F.name)
    elif n["k"] == "mem":
        # an engine kept in an object must be re-seedable: accept only when
        # some function reachable from set_random_state seeds it
        rep.violation("engine:%s:%s::%s" % (F.file, n["r"], n["n"]), F.loc(at),
                      "%s draws from a generator stored in an object, which "
                      "set_random_state does not seed" % F.name)


PYBAD_MOD = {"random", "time", "uuid", "secrets", "datetime"}


def python_side(rep):
    files = sorted(glob.glob(front.REPO + "/macposts/*.py"))
    rep.require("python_modules", len(files), 3)
    for f in files:
        rel = os.path.relpath(f, front.REPO)
        tree = ast.parse(open(f).read())
        for n in ast.walk(tree):
            bad = None
            if isinstance(n, ast.Import):
                bad = next((a.name for a in n.names if a.name.split(".")[0] in PYBAD_MOD), None)
            if isinstance(n, ast.ImportFrom) and (n.module or "").split(".")[0] in PYBAD_MOD:
                bad = n.module
            if isinstance(n, ast.Call):
                d = dotted(n.func)
                if d.split(".")[0] in PYBAD_MOD:
                    bad = d
                if ".random." in "." + d + "." or d in ("os.urandom", "os.getpid", "os.listdir", "id", "hash", "os.scandir",
                                                        "os.getenv", "glob.glob"):
                    bad = d
            if isinstance(n, ast.Attribute) and dotted(n) == "os.environ":
                bad = "os.environ"
            if bad:
                rep.violation("pyentropy:%s:%s" % (rel, bad), "%s:%d" % (rel, n.lineno),
                              "the Python layer consults %s" % bad)


def dotted(e):
    if isinstance(e, ast.Attribute):
        return dotted(e.value) + "." + e.attr
    if isinstance(e, ast.Name):
        return e.id
    return "?"
