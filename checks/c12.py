"""C12: array arguments are validated before they are read."""
import re

from lib import poly
from lib.arrays import Access, Arrays
from lib.common import bindings
from lib.prog import Program
from lib.vpath import walk


def run(rep, tier):
    P = Program.load()
    A = Arrays(P)
    rep.rule("at every read of an array argument, the checks made on every path to it fix its number of dimensions "
             "and imply that the index is below its extent")
    rep.rule("an array argument read through its raw data pointer is declared C-contiguous")
    n = nu = 0
    ptr = {}
    for F in P.funcs.values():
        if "macposts/_ext" not in F.file:
            continue
        for a in A.accesses(F):
            if a.root[0] == "ctor":
                continue
            ok, text = A.inside(a)
            name = argname(F, a.root)
            if ok is None:
                nu += 1
            elif ok:
                n += 1
            else:
                rep.violation("argument:%s:%s" % (F.name, name), F.loc(a.nid),
                              "%s: argument %s: %s" % (F.name, name, text))
            t = argtype(F, a.root)
            m = t and re.search(r"array_t<\s*(\w+)\s*(?:,\s*(\d+))?\s*>", t)
            if m and not (int(m.group(2) or 16) & 1):
                ptr.setdefault(m.group(1), []).append((F, a))
    n += handed(rep, P, A)
    types(rep, P, A)
    rep.require("argument reads shown in bounds", n, 200)
    rep.count("argument reads not understood", nu)
    for t, acc in sorted(ptr.items()):
        F, a = acc[0]
        rep.violation("contiguous:%s" % t, F.loc(a.nid),
                      "%d reads of %s array arguments through the data pointer, which is wrong for a strided view "
                      "(for example %s)" % (len(acc), t, F.name))


def handed(rep, P, A):
    """elements read by a function that is given the data pointer of an array"""
    rep.rule("where the data pointer of an array argument is handed to a function, every element that function reads "
             "is below the extent, by the checks made there and before the call")
    reads = {}      # key -> [(pointer parameter, index, nid)]
    for F in P.funcs.values():
        ptr = {("P", F.vpidx[p]) for p in F.params if re.match(r"(const )?(double|int|float|long|size_t) \*", F.vtype[p])}
        if not ptr:
            continue
        for i, nd in enumerate(F.nodes):
            if nd["k"] == "idx":
                b = A.path(F, nd["b"])
                if b in ptr:
                    reads.setdefault(F.key, []).append((b[1], i, nd["i"]))
    need = {}
    for key, rs in reads.items():
        F = P.funcs[key]
        elem = {x: e for _, e, _ in F.all_elements() for x in F.walk(e)}
        for k, nid, ind in rs:
            at = nid if nid in F.where() else elem.get(nid, -1)
            need.setdefault(key, []).append((k, F, nid, bound(A, F, A.path(F, ind), A.facts(F, at))))
    done = set()
    work = list(need.items())
    n = 0
    while work:
        key, reqs = work.pop()
        if key in done:
            continue
        done.add(key)
        for C in P.funcs.values():
            for i, nd in enumerate(C.nodes):
                if nd["k"] != "call" or key not in P.targets(C, i):
                    continue
                args = [A.path(C, a) for a in nd["a"]]
                for k, F, nid, ub in reqs:
                    if k >= len(args):
                        continue
                    if args[k][0] == "ptr" and A.isarr(C, args[k][1]) and args[k][1][0] != "ctor":
                        name = argname(C, args[k][1])
                        if ub is None:
                            continue
                        if ub is False:
                            ok, text = False, "the index is computed from data and not compared with the extent"
                        else:
                            ix = put_args(ub, args)
                            elem = {x: e for _, e, _ in C.all_elements() for x in C.walk(e)}
                            at = i if i in C.where() else elem.get(i, -1)
                            ok, text = A.inside(Access(C, i, args[k][1], ix, False, at, None))
                        if ok:
                            n += 1
                        elif ok is False:
                            rep.violation("argument:%s:%s:%s" % (C.name, name, F.name), F.loc(nid),
                                          "%s hands the elements of argument %s to %s: %s" % (C.name, name, F.name, text))
                    elif args[k][0] == "P" and C.key not in done:
                        u = ub if not isinstance(ub, tuple) else put_args(ub, args)
                        if isinstance(u, tuple):
                            elem = {x: e for _, e, _ in C.all_elements() for x in C.walk(e)}
                            u = bound(A, C, u, A.facts(C, i if i in C.where() else elem.get(i, -1)))
                        work.append((C.key, [(args[k][1], F, nid, u)]))
    return n


def put_args(x, args):
    if isinstance(x, tuple) and x and x[0] == "P" and len(x) == 2:
        return args[x[1]] if x[1] < len(args) else ("?",)
    return tuple(put_args(y, args) if isinstance(y, tuple) else y for y in x)


def params_only(x):
    ls = [y for y in walk(x) if isinstance(y, tuple) and y and y[0] in ("V", "T", "mem", "call", "idx", "n", "cond", "P", "ctor")]
    return bool(ls) and all(y[0] == "P" for y in ls) or (isinstance(x, tuple) and x[0] == "c")


def bound(A, F, ix, facts):
    """the largest index, in terms of the parameters; False if it comes from
    data and is not bounded at all, None if not understood"""
    if params_only(ix):
        return ix
    some = False
    for f in facts:
        if f[0] in ("<", "<=") and f[1] == ix:
            some = True
            if params_only(f[2]):
                return ("bin", "-", f[2], ("c", "1")) if f[0] == "<" else f[2]
    if some or ix[0] == "V" and A.counter(F, ix):
        return None
    E = poly.of(ix)
    if any(x[0] == "V" and A.bounds(F, x, facts) for x in poly.atoms(E)):
        return None
    return False


def types(rep, P, A):
    """the data pointer of an array is read as elements of the array's type"""
    rep.rule("the data pointer of an array of T is converted to a pointer to T only")
    n = 0
    for F in P.funcs.values():
        if "macposts/_ext" not in F.file:
            continue
        for i, nd in enumerate(F.nodes):
            if nd["k"] != "cast":
                continue
            c = re.match(r"(?:const )?(\w[\w ]*\w|\w) \*", nd.get("t") or "")
            if not c or c.group(1) == "void":
                continue
            p = A.path(F, nd["e"])
            if p[0] != "ptr":
                continue
            t = elem(F, p[1])
            if t is None:
                continue
            n += 1
            if t != c.group(1):
                rep.violation("elements:%s:%s" % (F.name, argname(F, p[1])), F.loc(i),
                              "%s reads the elements of an array of %s as %s" % (F.name, t, c.group(1)))
    rep.require("data pointer conversions", n, 250)


def elem(F, root):
    t = root[1] if root[0] == "ctor" else argtype(F, root)
    m = t and re.search(r"array_t<\s*([\w ]+?)\s*(?:,\s*\d+)?\s*>", t)
    return m.group(1) if m else None


def argvar(F, root):
    if root[0] == "P":
        return [p for p in F.params if F.vpidx[p] == root[1]][0]
    if root[0] == "V":
        return root[1]
    return None


def argname(F, root):
    v = argvar(F, root)
    return F.vname[v] if v is not None else "?"


def argtype(F, root):
    v = argvar(F, root)
    return F.vtype[v] if v is not None else None
