"""C05: simulation objects are independent of each other: there is no mutable
storage shared between instances except the seeded random generator."""
import ast
import glob
import os
import re

from lib import front
from lib.prog import Program
from lib.common import bindings

ENGINE = ("mersenne_twister_engine", "linear_congruential_engine",
          "subtract_with_carry_engine")


def run(rep, tier):
    P = Program.load()
    rep.rule("no variable with static storage duration (namespace scope, static "
             "member, static local, thread_local) is mutable, except the random "
             "engine seeded by set_random_state and the extension's module "
             "descriptor; same for module- and class-level mutable state in "
             "macposts/*.py")
    bs = bindings(P)
    seeders = [b for b in bs if b.name == "set_random_state" and b.target in P.funcs]
    seed_reach = set(P.reachable([b.target for b in seeders]))
    seed_tu = {b.F.tu["src"] for b in seeders}
    seen = set()
    nconst = 0
    for g in P.globals:
        key = (g["file"], g["name"])
        if key in seen:
            continue
        seen.add(key)
        if g["const"]:
            nconst += 1
        if g["type"] in ("PyModuleDef", "struct PyModuleDef"):
            continue
        if any(x in g["type"] for x in ENGINE) and not g["staticlocal"]:
            w = modified(P, g, seed_reach, seed_tu)
            if not w:
                continue
            rep.violation("engine:%s:%s" % (g["file"], g["name"]), w,
                          "'%s' is a generator shared by all instances that set_random_state does "
                          "not seed in this file" % g["name"])
            continue
        # a never-modified declaration is harmless: look for a use that is
        # anything but a read
        if not modified(P, g):
            continue
        rep.violation("static:%s:%s" % (g["file"], g["name"]),
                      "%s:%d" % (g["file"], g["line"]),
                      "'%s' (%s) is mutable storage shared by all instances%s"
                      % (g["name"], g["type"],
                         " (function-local static)" if g["staticlocal"] else ""))
    rep.cov["static_variables"] = len(seen)
    rep.cov["immutable_static_variables"] = nconst
    # mutable fields reachable through shared objects: static data members are
    # globals above.  Records: no pointer members set from a global's address.
    rep.cov["functions"] = len(P.funcs)
    rep.require("records", len(P.records), 100)
    rep.require("python_bindings", len(bs), 100)
    # classes bound with a custom holder or a singleton factory
    for b in bs:
        if b.name == "__init__" and b.target in P.funcs:
            pass
    for F in P.funcs.values():
        for i, n in enumerate(F.nodes):
            if n["k"] == "call" and n.get("f"):
                x = P.ext[n["f"]]
                if (x.get("name") in ("srand", "std::srand", "srandom") or
                        (x.get("base") == "seed" and any(y in (x.get("rec") or "") for y in ENGINE))):
                    rep.count("seeding_calls")
                    if F.key not in seed_reach:
                        rep.violation("reseed:%s" % F.name, F.loc(i),
                                      "%s reseeds the generator that all instances share" % F.name)
                nm = P.ext[n["f"]].get("name", "")
                if nm in ("setenv", "putenv", "std::setlocale", "setlocale", "chdir",
                          "umask", "signal", "std::signal", "sigaction",
                          "std::locale::global", "std::atexit", "atexit",
                          "std::set_new_handler", "std::set_terminate", "dup2",
                          "freopen", "std::freopen"):
                    rep.violation("process:%s:%s" % (F.file, nm), F.loc(i),
                                  "%s changes process-wide state in %s" % (nm, F.name))
    first_caller_statics(P, rep)
    python_side(rep)


def first_caller_statics(P, rep):
    """a function-local static, const or not, whose initialiser reads the
    caller's arguments, its object or run-time state keeps the first
    instance's value for all later ones"""
    n = 0
    for F in P.funcs.values():
        for i, d in enumerate(F.nodes):
            if d["k"] != "decl":
                continue
            for v, init, st in d["d"]:
                if not st or init < 0:
                    continue
                n += 1
                for x in F.walk(init):
                    m = F.nodes[x]
                    bad = None
                    if m["k"] == "this" or m["k"] == "mem":
                        bad = "a member of the object"
                    elif m["k"] == "var" and F.vkind[m["v"]] not in ("g", "s"):
                        bad = "'%s'" % F.vname[m["v"]]
                    elif m["k"] == "call" and m.get("f") and P.ext[m["f"]].get("repo") and m["a"]:
                        bad = None
                    if bad:
                        rep.violation("static-init:%s:%s" % (F.name, F.vname[v]), F.loc(i),
                                      "static local '%s' of %s is initialised once per process from %s, "
                                      "so later instances see the first one's value"
                                      % (F.vname[v], F.name, bad))
                        break
    rep.cov["static_local_initialisers"] = n


def modified(P, g, skip=(), tus=()):
    """some use of the variable is not provably a read"""
    short = g["name"].split("::")[-1]
    for F in P.funcs.values():
        if F.key in skip or F.tu["src"] in tus:
            continue
        for i, n in enumerate(F.nodes):
            if n["k"] != "var" or F.vkind[n["v"]] not in ("g", "s"):
                continue
            nm = F.vname[n["v"]]
            if g["staticlocal"]:
                if F.vkind[n["v"]] != "s" or nm.split("::")[-1] != short or F.file != g["file"]:
                    continue
            elif nm != g["name"] and ("::" in nm or nm != short):
                continue
            elif F.vkind[n["v"]] == "s":
                continue
            if not only_read(P, F, i):
                return F.loc(i)
    return None


def parents(F):
    par = getattr(F, "_par", None)
    if par is None:
        par = {}
        for i in range(len(F.nodes)):
            for c in F.children(i):
                par.setdefault(c, []).append(i)
        F._par = par
    return par


STORE = {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="}
CONSTY = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "at", "size", "empty", "count",
          "front", "back", "lower_bound", "upper_bound", "operator[]", "data"}


def only_read(P, F, i, d=0):
    """the object that lvalue node i denotes is not changed through this use"""
    if d > 12:
        return False
    const = F.nodes[i].get("t", "").startswith("const ")
    for p in parents(F).get(i, []):
        n = F.nodes[p]
        k = n["k"]
        if k == "cast":
            if n.get("ck") == "LValueToRValue":
                t = n.get("t", "")
                if t.endswith("*") or t.endswith("*const"):
                    if not ptr_read(P, F, p, d + 1):
                        return False
                continue
            if n.get("ck") == "ArrayToPointerDecay":
                if not const and not ptr_read(P, F, p, d + 1):
                    return False
                continue
            if not only_read(P, F, p, d + 1):
                return False
        elif k == "bin" and n["op"] in STORE and n["l"] == i:
            return False
        elif k == "un" and n["op"] in ("++", "--", "post++", "post--"):
            return False
        elif k == "un" and n["op"] == "&":
            if not const and not ptr_read(P, F, p, d + 1):
                return False
        elif k in ("mem", "idx", "cond", "un"):
            if not only_read(P, F, p, d + 1):
                return False
        elif k == "call" and n.get("o") == i:
            e = P.ext.get(n.get("f") or "", {})
            base = e.get("base", "")
            rec = e.get("rec") or ""
            if re.match(r"std::(unique_ptr|shared_ptr|optional|atomic|reference_wrapper)", rec) and \
                    base in ("operator->", "operator*", "get", "value"):
                if not (only_read(P, F, p, d + 1) if base != "get" else ptr_read(P, F, p, d + 1)):
                    return False
            elif e.get("const"):
                continue
            elif base in CONSTY and not (base == "operator[]" and re.match(r"std::(unordered_)?map", rec)):
                # what it hands out is a reference or an iterator to the content
                if not only_read(P, F, p, d + 1):
                    return False
            else:
                return False
        elif k in ("call", "ctor"):
            if i in n["a"]:
                q = n["a"].index(i)
                if k == "call" and P.ext.get(n.get("f") or "", {}).get("rec") and n.get("op") and \
                        len(n["a"]) > len(P.ext[n["f"]].get("params", [])):
                    q -= 1
                if not P.param_readonly(n.get("f"), max(q, 0)):
                    return False
        elif k == "decl":
            for v, init, st in n["d"]:
                if init == i:
                    t = F.vtype[v]
                    if t.endswith("&") and not t.startswith("const ") and " const &" not in t:
                        return False
        elif k == "ret":
            t = ret_type(P, F)
            if t.endswith("&") and not t.startswith("const "):
                return False
        elif k in ("lambda", "init"):
            if k == "lambda":
                return False
    return True


def ret_type(P, F):
    return P.ext.get(F.key, {}).get("ret", "") or getattr(F, "ret", "") or ""


def ptr_read(P, F, i, d=0):
    """nothing is changed through the pointer value i"""
    if d > 12:
        return False
    t = F.nodes[i].get("t", "")
    if t.startswith("const ") or " const *" in t:
        return True
    for p in parents(F).get(i, []):
        n = F.nodes[p]
        k = n["k"]
        if k == "cast":
            if n.get("ck") in ("PointerToBoolean", "ToVoid"):
                continue
            if not ptr_read(P, F, p, d + 1):
                return False
        elif k in ("mem", "idx") or (k == "un" and n["op"] == "*"):
            if not only_read(P, F, p, d + 1):
                return False
        elif k == "un" and n["op"] == "!":
            continue
        elif k == "bin" and n["op"] in ("==", "!=", "<", ">", "<=", ">=", "&&", "||"):
            continue
        elif k == "bin" and n["op"] in ("+", "-"):
            if not ptr_read(P, F, p, d + 1):
                return False
        elif k == "call" and n.get("o") == i:
            e = P.ext.get(n.get("f") or "", {})
            if e.get("const"):
                continue
            if e.get("base") in CONSTY and not (e["base"] == "operator[]" and re.match(r"std::(unordered_)?map", e.get("rec") or "")):
                if not only_read(P, F, p, d + 1):
                    return False
            else:
                return False
        elif k in ("call", "ctor"):
            e = P.ext.get(n.get("f") or "", {})
            ps = e.get("params", [])
            q = n["a"].index(i) if i in n["a"] else -1
            if not (0 <= q < len(ps) and (ps[q].startswith("const ") or " const *" in ps[q])) and \
                    e.get("name") not in ("printf", "fprintf", "snprintf"):
                return False
        else:
            return False
    return True


MUT = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)
MUTCALLS = {"list", "dict", "set", "defaultdict", "OrderedDict", "deque", "Counter",
            "WeakKeyDictionary", "WeakValueDictionary", "bytearray", "count"}


def mutable_value(v):
    if isinstance(v, MUT):
        return True
    if isinstance(v, ast.Call):
        f = v.func
        nm = f.id if isinstance(f, ast.Name) else getattr(f, "attr", "")
        if nm in MUTCALLS:
            return True
        if nm in ("empty", "zeros", "ones", "array"):
            return True
    return False


def python_side(rep):
    files = sorted(glob.glob(front.REPO + "/macposts/*.py"))
    rep.require("python_modules", len(files), 3)
    MUTATORS = {"append", "extend", "insert", "add", "update", "pop", "remove",
                "clear", "setdefault", "popitem", "discard", "sort", "reverse",
                "__setitem__", "appendleft"}
    for f in files:
        src = open(f).read()
        try:
            tree = ast.parse(src)
        except SyntaxError as e:
            raise front.AnalysisBroken("cannot parse %s: %s" % (f, e))
        rel = os.path.relpath(f, front.REPO)
        # names of mutable module-level / class-level values
        shared = {}
        for st in tree.body:
            for t, v in targets(st):
                if mutable_value(v):
                    shared[t] = st.lineno
            if isinstance(st, ast.ClassDef):
                for s2 in st.body:
                    for t, v in targets(s2):
                        if mutable_value(v):
                            shared[t] = s2.lineno
        classes = {n.name for n in ast.walk(tree) if isinstance(n, ast.ClassDef)}
        for fn in [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda))]:
            args = fn.args
            defaults = dict(zip([a.arg for a in args.args[len(args.args) - len(args.defaults):]], args.defaults))
            defaults.update({a.arg: d for a, d in zip(args.kwonlyargs, args.kw_defaults) if d is not None})
            muts = {a for a, d in defaults.items() if mutable_value(d)}
            locs = set()
            body = fn.body if isinstance(fn.body, list) else [fn.body]
            for n in [x for b in body for x in ast.walk(b)]:
                if isinstance(n, ast.Global):
                    rep.violation("pyglobal:%s:%s" % (rel, ",".join(n.names)), "%s:%d" % (rel, n.lineno),
                                  "function rebinds module-level name(s) %s shared by all instances" % ", ".join(n.names))
                nm = None
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and n.args:
                    r = n.args[0]
                    if (isinstance(r, ast.Name) and (r.id == "cls" or r.id in classes)) or \
                            (isinstance(r, ast.Call) and getattr(r.func, "id", "") == "type") or \
                            (isinstance(r, ast.Attribute) and r.attr == "__class__"):
                        rep.violation("pyclassattr:%s:setattr" % rel, "%s:%d" % (rel, n.lineno),
                                      "assignment to a class attribute shared by all instances")
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("globals", "vars") and not n.args:
                    rep.violation("pyglobals:%s" % rel, "%s:%d" % (rel, n.lineno),
                                  "module-level names are reached through %s()" % n.func.id)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    nm = root(n.func.value)
                elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                    ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                    for t in ts:
                        if isinstance(t, ast.Subscript):
                            nm = root(t.value)
                        elif isinstance(t, ast.Attribute):
                            r = t.value
                            # cls.x = / ClassName.x = / type(self).x =
                            if isinstance(r, ast.Name) and (r.id == "cls" or r.id in classes):
                                rep.violation("pyclassattr:%s:%s" % (rel, t.attr), "%s:%d" % (rel, n.lineno),
                                              "assignment to class attribute '%s' shared by all instances" % t.attr)
                            if isinstance(r, ast.Call) and getattr(r.func, "id", "") == "type":
                                rep.violation("pyclassattr:%s:%s" % (rel, t.attr), "%s:%d" % (rel, n.lineno),
                                              "assignment to class attribute '%s' shared by all instances" % t.attr)
                            if isinstance(r, ast.Attribute) and r.attr == "__class__":
                                rep.violation("pyclassattr:%s:%s" % (rel, t.attr), "%s:%d" % (rel, n.lineno),
                                              "assignment to class attribute '%s' shared by all instances" % t.attr)
                if nm in muts:
                    rep.violation("pydefault:%s:%s" % (rel, nm), "%s:%d" % (rel, n.lineno),
                                  "mutable default argument '%s' is modified: state leaks between calls" % nm)
                if nm in shared:
                    rep.violation("pyshared:%s:%s" % (rel, nm), "%s:%d" % (rel, n.lineno),
                                  "module/class level container '%s' is modified: state shared by all instances" % nm)
            if not isinstance(fn, ast.Lambda):
                for d in fn.decorator_list:
                    nm = d.func if isinstance(d, ast.Call) else d
                    nm = getattr(nm, "attr", getattr(nm, "id", ""))
                    if nm in ("lru_cache", "cache"):
                        rep.violation("pycache:%s:%s" % (rel, fn.name), "%s:%d" % (rel, fn.lineno),
                                      "%s is memoised across instances and calls" % fn.name)
        rep.count("python_functions", sum(isinstance(n, ast.FunctionDef) for n in ast.walk(tree)))


def targets(st):
    if isinstance(st, ast.Assign):
        for t in st.targets:
            if isinstance(t, ast.Name):
                yield t.id, st.value
    elif isinstance(st, ast.AnnAssign) and st.value is not None and isinstance(st.target, ast.Name):
        yield st.target.id, st.value


def root(e):
    """container name for X, self.X, cls.X"""
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        return e.attr
    if isinstance(e, ast.Subscript):
        return root(e.value)
    return None
