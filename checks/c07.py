"""C07: failures surface as exceptions; no library call ends the process."""
import re

from lib.prog import Program, short
from lib.common import binding_roots
from lib.front import AnalysisBroken, REPO

KILL = {"exit", "std::exit", "_exit", "_Exit", "std::_Exit", "quick_exit",
        "std::quick_exit", "abort", "std::abort", "terminate", "std::terminate",
        "raise", "std::raise", "kill", "__assert_fail", "__builtin_trap",
        "__builtin_unreachable", "__builtin_abort", "execv", "execve", "execl",
        "std::unexpected", "Py_FatalError", "Py_Exit", "longjmp", "std::longjmp",
        "__cxa_pure_virtual", "_Py_FatalErrorFunc", "at_quick_exit"}

# library functions that throw on bad input; counted in destructors and
# non-throwing functions
THROWING = re.compile(r"^std::(__cxx11::)?(stoi|stol|stoll|stoul|stoull|stof|stod|stold|"
                      r"rethrow_exception|any_cast|basic_string<.*>::(substr|at|replace|erase|insert|compare)|"
                      r"(vector|deque|array|map|unordered_map|basic_string|basic_string_view|optional|"
                      r"bitset|variant)\b.*::(at|value))$")
# starting a thread whose function lets an exception escape ends the process
THREADS = re.compile(r"^std::(thread|jthread)\b")

STDEXC = {"std::runtime_error", "std::invalid_argument", "std::logic_error",
          "std::out_of_range", "std::domain_error", "std::length_error",
          "std::range_error", "std::overflow_error", "std::underflow_error",
          "std::exception", "std::bad_alloc", "std::ios_base::failure",
          "std::system_error", "std::bad_cast", "std::invalid_argument"}


def site_types(P, F, i):
    """types of the exceptions the node itself can raise"""
    n = F.nodes[i]
    if n["k"] == "throw" and not n.get("rethrow"):
        return (plain(n.get("t2")),)
    if n["k"] == "call" and n.get("f"):
        e = P.ext[n["f"]]
        if not e.get("repo") and THROWING.match(qual(e)):
            return ("std::out_of_range", "std::invalid_argument") \
                if e.get("base", "").startswith("sto") else ("std::out_of_range",)
    if n["k"] == "cast" and n.get("ck") == "Dynamic" and not (n.get("t") or "").rstrip().endswith("*"):
        return ("std::bad_cast",)
    return ()


def may_throw(P):
    """function -> {type: call or throw site} of the exceptions that can escape
    it: repository throws, standard library calls that reject bad input and
    reference casts, followed up the call graph through the handlers"""
    out, via = {}, {}
    for F in P.funcs.values():
        for i, n in enumerate(F.nodes):
            if i not in F.where():
                continue
            for t in site_types(P, F, i):
                if not handled(P, F, i, t):
                    out.setdefault(F.key, {}).setdefault(t, i)
    rev = P.callers()
    work = list(out)
    while work:
        k = work.pop()
        for c in rev.get(k, ()):
            G = P.funcs.get(c)
            if not G:
                continue
            sites = call_sites(P, G, k)
            grew = False
            for t in out[k]:
                if t in out.get(c, ()):
                    continue
                for i in sites:
                    if not handled(P, G, i, t):
                        out.setdefault(c, {})[t] = i
                        via[c, t] = k
                        grew = True
                        break
            if grew:
                work.append(c)
    return out, via


def qual(e):
    nm = e.get("name", "")
    if e.get("rec") and not nm.startswith(e["rec"]):
        return "%s::%s" % (e["rec"], nm.split("::")[-1])
    return nm


def call_sites(P, G, k):
    out = []
    for i, n in enumerate(G.nodes):
        if n["k"] in ("call", "ctor") and n.get("f"):
            if k in P.targets(G, i):
                out.append(i)
        elif n["k"] == "delete":
            out.append(i)
    return out


BASE = {"std::runtime_error": "std::exception", "std::logic_error": "std::exception",
        "std::invalid_argument": "std::logic_error", "std::domain_error": "std::logic_error",
        "std::length_error": "std::logic_error", "std::out_of_range": "std::logic_error",
        "std::range_error": "std::runtime_error", "std::overflow_error": "std::runtime_error",
        "std::underflow_error": "std::runtime_error", "std::system_error": "std::runtime_error",
        "std::ios_base::failure": "std::system_error", "std::bad_alloc": "std::exception",
        "std::bad_cast": "std::exception"}
ALL = ("...", "", "std::exception")


def plain(t):
    return re.sub(r"\bconst\b", "", t or "").replace("&", "").strip()


def catches(P, h, t):
    """does a handler of type h catch a thrown t?"""
    h, t = plain(h), plain(t)
    if h in ALL:
        return True
    seen = set()
    work = [t]
    while work:
        x = work.pop()
        if x == h:
            return True
        if x in seen:
            continue
        seen.add(x)
        if x in BASE:
            work.append(BASE[x])
        if x in P.records:
            work += list(P.bases(x))
    return False


def around(F, nid):
    l = F.nodes[nid].get("L", -1)
    return [T for T in F.tries if T["b"] <= l <= T["e"]]


def handled(P, F, nid, t):
    """inside a try with a handler for t that does not throw again"""
    for T in around(F, nid):
        for h in T["h"]:
            if catches(P, h["t"], t):
                b = [x for x in F.blocks.values() if x.catch is not None and x.cl == h["L"]]
                if b and not any(throws_again(F, x.id) for x in b):
                    return True
                break
    return False


def throws_again(F, bid):
    """can the handler starting at block bid leave by a throw?"""
    seen, st = set(), [bid]
    while st:
        x = st.pop()
        if x in seen or x == F.exit:
            continue
        seen.add(x)
        if any(F.nodes[e]["k"] == "throw" for e in F.blocks[x].els):
            return True
        st += [s for s in F.blocks[x].succ if s >= 0]
    return False


def absorbed(P, F, T, h, throws):
    """throw sites whose exception the handler h of T can catch"""
    out, work, seen = set(), [], set()
    for i, n in enumerate(F.nodes):
        if i not in F.where() or not T["b"] <= n.get("L", -1) <= T["e"]:
            continue
        if any(catches(P, h["t"], t) for t in site_types(P, F, i)):
            out.add((F.key, i))
        if n["k"] in ("call", "ctor") and n.get("f"):
            work += [k for k in P.targets(F, i) if k in P.funcs]
    while work:
        k = work.pop()
        if k in seen:
            continue
        seen.add(k)
        G = P.funcs[k]
        for i, t in throws.get(k, ()):
            if catches(P, h["t"], t) and not any(
                    catches(P, g["t"], t) for U in around(G, i) for g in U["h"]):
                out.add((k, i))
        for i, n in enumerate(G.nodes):
            if n["k"] in ("call", "ctor") and n.get("f"):
                work += [x for x in P.targets(G, i) if x in P.funcs]
    return out


PYKILL = {"sys.exit", "os._exit", "os.abort", "os.kill", "signal.raise_signal"}
WIDE = {"Exception", "BaseException", "RuntimeError", "ValueError"}
PROBES = {"fileno", "fstat", "isatty", "get_terminal_size"}


def python_rules(rep):
    """handlers and finally blocks of the Python layer"""
    import ast
    import glob
    n = 0
    for f in sorted(glob.glob(REPO + "/macposts/*.py")):
        rel = f[len(REPO) + 1:]
        with open(f) as fh:
            tree = ast.parse(fh.read())
        for t in ast.walk(tree):
            if isinstance(t, (ast.Call, ast.Attribute, ast.Name)):
                fn = ast.unparse(t.func if isinstance(t, ast.Call) else t)
                if fn in PYKILL or (isinstance(t, ast.Call) and fn in ("exit", "quit")):
                    rep.violation("pykill:%s:%s" % (rel, fn), "%s:%d" % (rel, t.lineno),
                                  "%s ends the process" % fn)
                if isinstance(t, ast.Call) and fn.split(".")[-1] == "suppress":
                    ns = {ast.unparse(a) for a in t.args}
                    if ns & WIDE or any(isinstance(a, ast.Starred) for a in t.args):
                        rep.violation("pysuppress:%s" % rel, "%s:%d" % (rel, t.lineno),
                                      "every exception raised in the with block is dropped")
            if isinstance(t, ast.Raise) and t.exc is not None:
                e = t.exc.func if isinstance(t.exc, ast.Call) else t.exc
                if ast.unparse(e) in ("SystemExit", "KeyboardInterrupt", "GeneratorExit"):
                    rep.violation("pyraise:%s" % rel, "%s:%d" % (rel, t.lineno),
                                  "raises %s, which ends the process unless caught by name" % ast.unparse(e))
            if isinstance(t, ast.FunctionDef) and t.name == "__exit__":
                for x in ast.walk(t):
                    if isinstance(x, ast.Return) and x.value is not None and not (
                            isinstance(x.value, ast.Constant) and not x.value.value):
                        rep.violation("pyexit:%s" % rel, "%s:%d" % (rel, x.lineno),
                                      "__exit__ may return a true value, which drops the exception "
                                      "raised in the with block")
            if not isinstance(t, ast.Try):
                continue
            n += 1
            for x in leaving(t.finalbody):
                rep.violation("finally:%s:%s" % (rel, type(x).__name__.lower()), "%s:%d" % (rel, x.lineno),
                              "a finally block leaves by %s and discards the exception being raised"
                              % type(x).__name__.lower())
            for h in t.handlers:
                names = [ast.unparse(x) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else
                                                  [h.type] if h.type else [])]
                if h.type is not None and not set(names) & WIDE:
                    continue
                if any(isinstance(x, ast.Raise) for s in h.body for x in ast.walk(s)) and raises(h.body):
                    continue
                bad = None
                for s in t.body:
                    for x in ast.walk(s):
                        if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)):
                            bad = x
                        if isinstance(x, ast.Call):
                            fn = x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", "?")
                            if fn not in PROBES:
                                bad = x
                if bad is not None:
                    rep.violation("pyswallow:%s" % rel, "%s:%d" % (rel, h.lineno),
                                  "every exception raised at line %d is caught and dropped" % bad.lineno)
    rep.cov["python_try_statements"] = n


def leaving(body):
    """return/break/continue statements that leave the block"""
    import ast
    out = []

    def walk(x, inloop):
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)):
            return
        if isinstance(x, ast.Return) or (isinstance(x, (ast.Break, ast.Continue)) and not inloop):
            out.append(x)
        for c in ast.iter_child_nodes(x):
            walk(c, inloop or isinstance(x, (ast.For, ast.While)))
    for s in body:
        walk(s, False)
    return out


def raises(body):
    """every path through the statement list ends in raise"""
    import ast
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If) and s.orelse and raises(s.body) and raises(s.orelse):
            return True
        if isinstance(s, ast.With) and raises(s.body):
            return True
    return False


def run(rep, tier):
    P = Program.load()
    rep.rule("(a) no process-ending call (exit, abort, terminate, ...) in any "
             "function of the library or the extension; (b) no exception can "
             "escape a destructor or a noexcept function; (c) every thrown type "
             "derives from std::exception, so Python sees the message; (d) no "
             "handler drops more than one kind of failure and continues (C++), "
             "no Python handler or finally block drops the exceptions of the library")
    bs, roots = binding_roots(P)
    rep.require("python_bindings", len(bs), 150)
    par = P.reachable(roots)
    nthrow = 0
    for F in P.funcs.values():
        for i, n in enumerate(F.nodes):
            if n["k"] in ("call", "fn") and n.get("f") in P.ext:
                e = P.ext[n["f"]]
                nm = e.get("name", "")
                if nm in KILL or (e.get("noreturn") and not e.get("repo")
                                  and not nm.startswith("std::__throw")
                                  and not nm.startswith("std::rethrow")
                                  and not nm.startswith("pybind11::")
                                  and not nm.startswith("std::throw_with_nested")):
                    how = "reachable from Python: " + " -> ".join(
                        short(x) for x in P.chain(par, F.key)) if F.key in par else \
                        "in library code"
                    rep.violation("kill:%s:%s" % (F.name, nm), F.loc(i),
                                  "%s ends the process in %s (%s)" % (nm, F.name, how))
            if n["k"] == "ctor" and THREADS.match(P.ext.get(n.get("f"), {}).get("rec") or ""):
                rep.violation("thread:%s" % F.name, F.loc(i),
                              "%s starts a thread: an exception leaving its function ends the process "
                              "and never reaches the caller" % F.name)
            if n["k"] == "throw":
                t = (n.get("t2") or "").replace("const ", "").rstrip("& ")
                nthrow += 1
                if t and t not in STDEXC and not t.startswith("pybind11::"):
                    if t in P.records and any(b in STDEXC for b in P.bases(t)):
                        continue
                    rep.violation("thrown:%s:%s" % (F.name, t), F.loc(i),
                                  "%s throws %s, which is not a std::exception" % (F.name, t))
    rep.require("throw_sites", nthrow, 300)
    rep.cov["functions_reachable_from_python"] = sum(k in P.funcs for k in par)
    # (b)
    mt, via = may_throw(P)
    nd = 0
    for F in P.funcs.values():
        if F.kind == "dtor" or F.noexcept:
            if F.file.startswith("macposts/_ext") and F.islambda:
                continue
            nd += 1
            if F.key in mt:
                t = sorted(mt[F.key])[0]
                ch, k = [F.name], F.key
                while (k, t) in via:
                    k = via[k, t]
                    ch.append(P.funcs[k].name)
                rep.violation("dtor-throw:%s" % F.name, F.loc(mt[F.key][t]),
                              "an exception (%s) can leave %s: %s (terminates the process)"
                              % (t, F.name, " -> ".join(ch)))
    rep.require("destructors_and_noexcept_functions", nd, 60)
    # (d)
    throws = {}
    for F in P.funcs.values():
        for i, n in enumerate(F.nodes):
            if i in F.where():
                for t in site_types(P, F, i):
                    throws.setdefault(F.key, []).append((i, t))
    nc = 0
    for F in P.funcs.values():
        for T in F.tries:
            for h in T["h"]:
                nc += 1
                if F.name.startswith("PyInit_"):
                    continue
                bs = [x for x in F.blocks.values() if x.catch is not None and x.cl == h["L"]]
                if bs and all(rethrows(F, x.id) for x in bs):
                    continue
                if plain(h["t"]) in ALL:
                    rep.violation("swallow:%s" % F.name, "%s:%d" % (F.file, h["L"]),
                                  "%s catches every exception and continues" % F.name)
                    continue
                sites = absorbed(P, F, T, h, throws)
                # the look-ups of one function are one failure
                sites = set({(P.funcs[k].name, i if P.funcs[k].nodes[i]["k"] == "throw" else None): (k, i)
                             for k, i in sorted(sites)}.values())
                if len(sites) > 1:
                    ex = sorted("%s (%s)" % (P.funcs[k].loc(i), P.funcs[k].name) for k, i in sites)
                    rep.violation("absorb:%s" % F.name, "%s:%d" % (F.file, h["L"]),
                                  "%s drops %d different errors and continues, e.g. %s"
                                  % (F.name, len(sites), ", ".join(ex[:3])))
    rep.require("handlers", nc, 5)
    python_rules(rep)


def rethrows(F, bid):
    seen, st = set(), [bid]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if F.aborts(x):
            continue
        if x == F.exit:
            return False
        for s in F.blocks[x].succ:
            if s >= 0:
                st.append(s)
    return True
