"""Interprocedural side-effect analysis.

For every function of the repository: the set of locations it may write that
outlive the call. A location is
   ('F', record, field, R)   member `field` of an object reached from R
   ('O', R)                  the object R itself (whole-object write)
   ('G', name)               a global or static variable
   ('X', name)               an external effect (rand, fopen, ...)
where R = ('T', d) the receiver, ('P', i, d) parameter i, ('U',) unknown;
d = 0: the very object, 1: something reached through pointers inside it.
Objects created during the call (locals, temporaries, `new` objects, freshly
built arrays) are not effects; what their pointers reach is followed."""
import re
from collections import defaultdict

FRESH = ("fresh",)

MAPS = re.compile(r"std::(unordered_)?map<")
STD_NONMUT = {
    "begin", "end", "rbegin", "rend", "cbegin", "cend", "find", "at", "front",
    "back", "data", "lower_bound", "upper_bound", "equal_range", "get", "size",
    "empty", "count", "c_str", "str", "operator*", "operator->", "operator!=",
    "operator==", "operator-", "operator+", "operator<", "operator bool",
    "base", "is_open", "good", "eof", "fail", "substr", "length", "rdbuf",
    "coeff", "rows", "cols", "transpose", "request", "ptr", "shape", "ndim",
    "mutable_data", "key_comp", "what", "max_size", "capacity", "unchecked",
    "mutable_unchecked", "nonZeros", "outerSize", "innerSize", "operator()",
    "load_factor", "bucket_count", "hash_function", "itemsize", "strides",
    "top", "reserve",
}
INSERTERS = {"push_back", "push_front", "insert", "emplace", "emplace_back",
             "emplace_front", "operator=", "assign", "push", "operator[]",
             "append", "swap", "operator+="}
MAP_RE = re.compile(r"^std::(unordered_)?(multi)?map<")
ALGO_MUT_RANGE = {"std::sort", "std::random_shuffle", "std::shuffle",
                  "std::reverse", "std::fill", "std::iota", "std::remove",
                  "std::remove_if", "std::unique", "std::rotate",
                  "std::stable_sort", "std::partial_sort", "std::swap_ranges",
                  "std::fill_n", "std::nth_element", "std::replace",
                  "std::make_heap", "std::push_heap", "std::pop_heap"}
ALGO_MUT_FIRST = {"memset", "memcpy", "memmove", "strcpy", "std::memset",
                  "std::memcpy"}
XOK = {"printf", "fflush", "round", "floor", "ceil", "fabs", "pow", "sqrt",
       "exp", "log", "atof", "atoi", "fmod", "abs", "log10", "sin", "cos",
       "isnan", "isinf", "strlen", "strcmp", "puts", "putchar", "fprintf",
       "max", "min", "snprintf", "sprintf", "__builtin_expect", "toupper", "tolower"}


def is_ptr(t):
    t = t.replace(" const", "").strip()
    return t.endswith("*")


def is_iter(t):
    return "iterator" in t or "_Node_" in t


def followed(F):
    """nodes whose pointer value is dereferenced or overwritten right away"""
    c = F.__dict__.get("_followed")
    if c is None:
        c = set()
        for n in F.nodes:
            if n["k"] == "idx":
                c.add(F.skip(n["b"]))
            elif n["k"] == "mem" and n.get("b", -1) >= 0:
                b = F.skip(n["b"])
                if F.nodes[b].get("t", "").rstrip("& ").endswith("*") or F.nodes[n["b"]].get("t", "").rstrip("& ").endswith("*"):
                    c.add(b)
            elif n["k"] == "un" and n["op"] == "*":
                c.add(F.skip(n["e"]))
            elif n["k"] == "call" and n.get("o", -1) >= 0:
                if F.nodes[n["o"]].get("t", "").rstrip("& ").endswith("*"):
                    c.add(F.skip(n["o"]))
        # held in a local that is followed and never compared
        deref = {F.nodes[x]["v"] for x in c if F.nodes[x]["k"] == "var"}
        for n in F.nodes:
            if n["k"] == "bin" and n["op"] in ("==", "!=", "&&", "||") or n["k"] == "un" and n["op"] == "!":
                for f in ("l", "r", "e"):
                    if n.get(f, -1) >= 0:
                        x = F.nodes[F.skip(n[f])]
                        if x["k"] == "var":
                            deref.discard(x["v"])
            if n["k"] == "cast" and n.get("ck") == "PointerToBoolean":
                x = F.nodes[F.skip(n["e"])]
                if x["k"] == "var":
                    deref.discard(x["v"])
        for n in F.nodes:
            if n["k"] == "decl":
                for v, init, st in n["d"]:
                    if v in deref and init >= 0 and not st:
                        c.add(F.skip(init))
            elif n["k"] == "bin" and n["op"] == "=":
                x = F.nodes[F.skip(n["l"])]
                if x["k"] == "var" and x["v"] in deref:
                    c.add(F.skip(n["r"]))
        F._followed = c
    return c


class Effects:
    def __init__(self, P):
        self.P = P
        self.ret = {}           # key -> set of storages (for pointer/ref returns)
        self._solve()

    def present(self, F, e):
        """has the key of map[key] been found in the map before"""
        if getattr(self, "_guards", None) is None:
            from .guards import Guards
            self._guards = Guards(self.P)
        G = self._guards
        n = F.nodes[e]
        if not n.get("a"):
            return False
        m, k = G.V.path(F, n["o"]), G.V.path(F, n["a"][0])
        find, cnt, end = ("call", "find", m, k), ("call", "count", m, k), ("call", "end", m)
        for f in G.at(F, e):
            s = set(f[1:])
            if f[0] == "!=" and {find, end} <= s:
                return True
            if f[0] == "!=" and cnt in s and any(x in (("c", "0"), ("null",)) for x in s):
                return True
            if f[0] == "true" and f[1] == cnt:
                return True
            if f[0] in ("<", "<=") and f[2] == cnt and f[1] == ("c", "1" if f[0] == "<=" else "0"):
                return True
            if f[0] == "==" and cnt in s and ("c", "1") in s:
                return True
        return False

    # ---------------------------------------------------------- root algebra
    @staticmethod
    def deepen(R):
        if R[0] == "T":
            return ("T", 1)
        if R[0] == "P":
            return ("P", R[1], 1)
        return R

    @classmethod
    def obj_under(cls, S):
        """objects reachable through pointers stored in storage S"""
        if S[0] == "F":
            return ("O", cls.deepen(S[3]))
        if S[0] == "O":
            return ("O", cls.deepen(S[1]))
        return S

    # --------------------------------------------------------------- storage
    def stor(self, F, nid):
        """storages denoted by lvalue nid"""
        return self._memo(F, "s", nid, self._stor)

    def pts(self, F, nid):
        """objects that pointers inside the value of nid may point to"""
        return self._memo(F, "p", nid, self._pts)

    def _memo(self, F, kind, nid, fn):
        if nid is None or nid < 0:
            return frozenset((FRESH,))
        key = (kind, nid)
        m = F.__dict__.setdefault("_effmemo", {})
        if key in m:
            return m[key] if m[key] is not None else frozenset()
        m[key] = None
        r = frozenset(fn(F, nid))
        # results computed inside a cycle may be partial: keep only when the
        # outermost query is done
        self._depth_cycle = False
        m[key] = r
        return r

    def _stor(self, F, nid):
        n = F.nodes[nid]
        k = n["k"]
        if k == "this":
            return {("O", ("T", 0))}
        if k == "var":
            v = n["v"]
            kind, t = F.vkind[v], F.vtype[v]
            if kind in ("g", "s"):
                return {("G", F.vname[v])}
            if F.islambda and F.vowner[v] and F.vowner[v] != F.key:
                return {("O", ("U",))}
            if t.endswith("&"):
                if kind == "p":
                    return {("O", ("P", F.vpidx[v], 0))}
                out = set()
                for d in self.vdefs(F, v):
                    if d[3] == "decl" and d[2] is not None:
                        out |= self.stor(F, d[2])
                return out or {FRESH}
            return {FRESH}
        if k == "mem":
            base = self.pts(F, n["b"]) if n.get("arrow") else self.stor(F, n["b"])
            bt = F.nodes[n["b"]]
            out = set()
            for S in base:
                if S == FRESH:
                    out.add(FRESH)
                elif S[0] == "G":
                    out.add(S)
                elif n["r"].startswith("std::"):
                    out.add(S)          # pair::first/second: the element
                elif S[0] == "F":
                    # nested class-typed member
                    out.add(("F", n["r"], n["n"], S[3]) if not n["r"].startswith("std::") else S)
                else:
                    out.add(("F", n["r"], n["n"], S[1]))
            return out
        if k == "idx":
            bt = F.nodes[n["b"]].get("t", "")
            if is_ptr(bt):
                return self.pts(F, n["b"])
            return self.stor(F, n["b"])
        if k == "un" and n["op"] == "*":
            return self.pts(F, n["e"])
        if k == "un" and n["op"] in ("++", "--", "post++", "post--"):
            return self.stor(F, n["e"])
        if k == "cast":
            return self.stor(F, n["e"])
        if k == "bin":
            if n["op"] == ",":
                return self.stor(F, n["r"])
            if n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                return self.stor(F, n["l"])
            return {FRESH}
        if k == "cond":
            return self.stor(F, n["l"]) | self.stor(F, n["r"])
        if k == "call":
            f = n.get("f")
            e = self.P.ext.get(f or "", {})
            ret, base = e.get("ret", ""), e.get("base", "")
            o = n.get("o", -1)
            if not ret.endswith("&"):
                # by value or pointer: a temporary
                if "array_t" in ret or "buffer_info" in ret or "unchecked" in ret:
                    return self.stor(F, o) if o >= 0 else {FRESH}
                return {FRESH}
            if e.get("repo"):
                return self._call_ret(F, nid)
            if o >= 0:
                ot = F.nodes[F.skip(o)].get("t", "")
                if base in ("operator*", "operator->") or is_iter(e.get("rec", "")):
                    return self.pts(F, o)
                if is_ptr(F.nodes[o].get("t", "")):
                    return self.pts(F, o)
                return self.stor(F, o)
            out = set()
            for a in n["a"]:
                at = F.nodes[a].get("t", "") if a >= 0 else ""
                out |= self.stor(F, a)
                if is_iter(at) or is_ptr(at):
                    out |= self.pts(F, a)
            return out or {FRESH}
        if k == "other":
            out = set()
            for a in n.get("a", []):
                out |= self.stor(F, a)
            return out or {FRESH}
        return {FRESH}

    def vdefs(self, F, v):
        defs, gen, IN, byvar = F.defs_of()
        return [(d,) + defs[d][1:] if False else (defs[d][0], defs[d][1], defs[d][2], defs[d][3]) for d in byvar[v]]

    def _pts(self, F, nid):
        n = F.nodes[nid]
        k = n["k"]
        t = n.get("t", "")
        if k == "this":
            return {("O", ("T", 0))}
        if k == "var":
            return self._var_pts(F, n["v"], nid)
        if k == "mem":
            out = set()
            base = self.pts(F, n["b"]) if n.get("arrow") else self.stor(F, n["b"])
            for S in base:
                if S == FRESH:
                    # contents of a local aggregate / fresh object
                    if n.get("arrow"):
                        out |= self._contents_of_ptr(F, n["b"])
                    else:
                        out |= self.pts(F, n["b"])
                else:
                    out.add(self.obj_under(S))
            return out
        if k == "idx":
            bt = F.nodes[n["b"]].get("t", "")
            base = self.pts(F, n["b"]) if is_ptr(bt) else self.stor(F, n["b"])
            out = set()
            for S in base:
                if S == FRESH:
                    out |= self._contents_of_ptr(F, n["b"]) if is_ptr(bt) else self.pts(F, n["b"])
                else:
                    out.add(self.obj_under(S))
            return out
        if k == "un":
            if n["op"] == "&":
                return self.stor(F, n["e"])
            if n["op"] == "*":
                out = set()
                for S in self.pts(F, n["e"]):
                    if S == FRESH:
                        out |= self._contents_of_ptr(F, n["e"])
                    else:
                        out.add(self.obj_under(S))
                return out
            return self.pts(F, n["e"])
        if k == "cast":
            return self.pts(F, n["e"])
        if k == "bin":
            if n["op"] in ("+", "-", "="):
                l = self._value_pts(F, n["l"]) if n["op"] != "=" else set()
                return l | self._value_pts(F, n["r"])
            if n["op"] == ",":
                return self.pts(F, n["r"])
            return {FRESH}
        if k == "cond":
            return self.pts(F, n["l"]) | self.pts(F, n["r"])
        if k == "new":
            return {FRESH}
        if k in ("ctor", "init"):
            out = {FRESH}
            for a in n["a"]:
                if a >= 0:
                    out |= self._value_pts(F, a)
            return out
        if k == "call":
            f = n.get("f")
            e = self.P.ext.get(f or "", {})
            ret, base, rec = e.get("ret", ""), e.get("base", ""), e.get("rec", "") or ""
            o = n.get("o", -1)
            if e.get("repo"):
                if is_ptr(ret) or is_iter(ret):
                    return self._call_ret(F, nid)
                if ret.endswith("&"):
                    return {self.obj_under(S) for S in self._call_ret(F, nid)}
                # class by value: may hold what its inputs reach
                out = {FRESH}
                if o >= 0:
                    out |= {self.obj_under(S) for S in self._objs(F, o)}
                for a in n["a"]:
                    out |= self._value_pts(F, a)
                return out
            if ret.endswith("&"):
                out = set()
                for S in self.stor(F, nid):
                    if S == FRESH:
                        if o >= 0:
                            if base in ("operator*", "operator->") or is_iter(rec) or is_ptr(F.nodes[o].get("t", "")):
                                out |= self._contents_of_ptr(F, o)
                            else:
                                out |= self.pts(F, o)
                        else:
                            out.add(FRESH)
                    else:
                        out.add(self.obj_under(S))
                return out
            if o >= 0:
                if is_iter(rec) or base in ("operator->", "operator*"):
                    return self.pts(F, o)      # ++it, it + n, operator-> result
                if is_iter(ret) or is_ptr(ret):
                    # iterator / pointer into the container
                    if is_ptr(F.nodes[o].get("t", "")):
                        return self.pts(F, o)
                    st = self.stor(F, o)
                    out = set()
                    for S in st:
                        out.add(S)
                    return out
                if "array_t" in ret or "buffer_info" in ret or "unchecked" in ret:
                    return self.stor(F, o) | self.pts(F, o)
                out = set(self.pts(F, o))
                return out or {FRESH}
            out = {FRESH}
            for a in n["a"]:
                out |= self._value_pts(F, a)
            return out
        if k == "lambda":
            return {FRESH}
        if k == "other":
            out = {FRESH}
            for a in n.get("a", []):
                out |= self.pts(F, a)
            return out
        return {FRESH}

    def _value_pts(self, F, a):
        """what a value handed to a constructor / container can point to"""
        if a < 0:
            return {FRESH}
        t = F.nodes[a].get("t", "")
        if re.match(r"^(const )?(int|double|float|bool|unsigned|long|char|std::basic_string|size_t)[^*]*$", t):
            return {FRESH}
        return set(self.pts(F, a))

    def _objs(self, F, o):
        """the object(s) a call's receiver expression denotes"""
        if is_ptr(F.nodes[o].get("t", "")) or F.nodes[F.skip(o)]["k"] == "this":
            return self.pts(F, o)
        return self.stor(F, o)

    def _contents_of_ptr(self, F, nid):
        """things reachable through pointers held in the fresh object nid
        points to"""
        nid = F.skip(nid)
        n = F.nodes[nid]
        if n["k"] == "var":
            return self._var_contents(F, n["v"])
        if n["k"] == "new":
            return self._new_contents(F, nid)
        if n["k"] == "call" and n.get("o", -1) >= 0:
            o = F.nodes[F.skip(n["o"])]
            if o["k"] == "var":
                return self._var_contents(F, o["v"])
        return {FRESH}

    def _new_contents(self, F, nid):
        n = F.nodes[nid]
        out = {FRESH}
        if n.get("init", -1) >= 0:
            i = F.nodes[n["init"]]
            for a in i.get("a", []):
                out |= self._value_pts(F, a)
        return out

    def _var_contents(self, F, v):
        """flow-insensitive contents of a local object (or of the fresh object
        a local pointer points to): everything ever stored into it"""
        m = F.__dict__.setdefault("_effvc", {})
        if v in m:
            return m[v] if m[v] is not None else {FRESH}
        m[v] = None
        out = {FRESH}
        for d in self.vdefs(F, v):
            if d[2] is not None and d[3] in ("decl", "assign"):
                x = F.skip(d[2])
                xn = F.nodes[x]
                if xn["k"] == "new":
                    out |= self._new_contents(F, x)
                elif is_ptr(F.vtype[v]) or is_iter(F.vtype[v]):
                    for S in self.pts(F, d[2]):
                        if S == FRESH:
                            if xn["k"] == "un" and xn["op"] == "&":
                                vv = F.local_of(F.skip(xn["e"]))
                                if vv is not None:
                                    out |= self._var_contents(F, vv)
                            elif xn["k"] == "call" and xn.get("o", -1) >= 0:
                                vv = F.local_of(F.skip(xn["o"]))
                                if vv is not None:
                                    out |= self._var_contents(F, vv)
                        else:
                            out.add(self.obj_under(S))
                else:
                    out |= self.pts(F, d[2])
        for i, n in enumerate(F.nodes):
            if n["k"] == "call" and n.get("o", -1) >= 0:
                if self._rootvar(F, n["o"]) == v:
                    e = self.P.ext.get(n.get("f") or "", {})
                    if e.get("base") in INSERTERS or (e.get("repo") and not e.get("const")):
                        for a in n["a"]:
                            out |= self._value_pts(F, a)
            elif n["k"] == "bin" and n["op"] == "=" and F.nodes[n["l"]]["k"] != "var":
                if self._rootvar(F, n["l"]) == v:
                    out |= self._value_pts(F, n["r"])
        m[v] = frozenset(out)
        return m[v]

    def _rootvar(self, F, nid, d=0):
        nid = F.skip(nid)
        if nid is None or nid < 0 or d > 12:
            return None
        n = F.nodes[nid]
        if n["k"] == "var":
            return n["v"]
        if n["k"] == "mem":
            return self._rootvar(F, n["b"], d + 1)
        if n["k"] == "idx":
            return self._rootvar(F, n["b"], d + 1)
        if n["k"] == "un":
            return self._rootvar(F, n["e"], d + 1)
        if n["k"] == "call" and n.get("o", -1) >= 0:
            return self._rootvar(F, n["o"], d + 1)
        return None

    def _var_pts(self, F, v, at):
        kind, t = F.vkind[v], F.vtype[v]
        if kind in ("g", "s"):
            return {("G", F.vname[v])}
        if F.islambda and F.vowner[v] and F.vowner[v] != F.key:
            return {("O", ("U",))}
        if t.endswith("&"):
            S0 = self._stor(F, at)
            out = set()
            for S in S0:
                if S == FRESH:
                    for d in self.vdefs(F, v):
                        if d[3] == "decl" and d[2] is not None:
                            out |= self.pts(F, d[2])
                else:
                    out.add(self.obj_under(S))
            return out or {FRESH}
        if is_ptr(t) or is_iter(t):
            out = set()
            if kind == "p":
                out.add(("O", ("P", F.vpidx[v], 0)))
            for (dn, val, dk) in F.reaching(v, at):
                if dk in ("decl", "assign") and val is not None:
                    out |= self.pts(F, val)
                elif dk == "decl" and val is None:
                    out.add(FRESH)
                elif dk in ("update", "escape"):
                    for d in self.vdefs(F, v):
                        if d[3] in ("decl", "assign") and d[2] is not None:
                            out |= self.pts(F, d[2])
            return out or {FRESH}
        # class-typed value
        if kind == "p":
            if "array_t" in t or "py::" in t or "pybind11::" in t:
                return {("O", ("P", F.vpidx[v], 0))}
            return {("O", ("P", F.vpidx[v], 1)), FRESH} | self._var_contents(F, v)
        return set(self._var_contents(F, v))

    def _call_ret(self, F, nid):
        n = F.nodes[nid]
        out = set()
        for tk in self.P.targets(F, nid):
            for S in self.ret.get(tk, ()):
                out |= self._inst_storage(F, n, S)
        return out or {FRESH}

    def _inst_storage(self, F, n, S):
        if S == FRESH or S[0] == "G":
            return {S}
        R = S[3] if S[0] == "F" else S[1]
        out = set()
        for R2 in self._inst_root(F, n, R):
            if R2 == FRESH:
                out.add(FRESH)
            elif S[0] == "F":
                out.add(("F", S[1], S[2], R2))
            else:
                out.add(("O", R2))
        return out

    def _inst_root(self, F, n, R, dtor=False):
        """roots in the caller for callee root R at call node n"""
        if R[0] == "U":
            return {R}
        if R[0] == "T":
            o = n.get("o", -1)
            if n["k"] == "delete":
                o = n["e"]
                objs = self.pts(F, o)
            elif n["k"] == "ctor":
                if self._is_base_init(F, n):
                    return {R}
                return {FRESH} if R[1] == 0 else self._roots_of(self._ctor_args(F, n), deep=True)
            elif o < 0:
                return {("T", R[1])} if F.rec else {("U",)}
            else:
                objs = self._objs(F, o)
            d = R[1]
            out = set()
            for S in objs:
                if S == FRESH:
                    if d == 0 or dtor:
                        out.add(FRESH)
                    else:
                        c = self._contents_of_ptr(F, o) if is_ptr(F.nodes[o].get("t", "")) else self.pts(F, o)
                        out |= self._roots_of(c, deep=True)
                else:
                    out |= self._roots_of({S}, deep=d == 1)
            return out
        # parameter
        i, d = R[1], R[2]
        if i >= len(n.get("a", [])):
            return set()
        a = n["a"][i]
        if a < 0:
            return set()
        pt = ""
        e = self.P.ext.get(n.get("f") or "", {})
        if i < len(e.get("params", [])):
            pt = e["params"][i]
        out = set()
        if is_ptr(pt) or is_iter(pt):
            objs = self.pts(F, a)
            cont = lambda: self._contents_of_ptr(F, a)
        elif pt.endswith("&"):
            objs = self.stor(F, a)
            cont = lambda: self.pts(F, a)
        else:
            # class by value: only what it points to matters
            if "array_t" in pt:
                objs = self.stor(F, a) | self.pts(F, a)
                cont = lambda: {FRESH}
            else:
                return self._roots_of(self._value_pts(F, a), deep=False)
        for S in objs:
            if S == FRESH:
                if d == 0:
                    out.add(FRESH)
                else:
                    out |= self._roots_of(cont(), deep=True)
            else:
                out |= self._roots_of({S}, deep=d == 1)
        return out

    def _ctor_args(self, F, n):
        out = {FRESH}
        for a in n["a"]:
            out |= self._value_pts(F, a)
        return out

    def _roots_of(self, Ss, deep):
        out = set()
        for S in Ss:
            if S == FRESH:
                out.add(FRESH)
            elif S[0] == "G":
                out.add(("U",))
            else:
                R = S[3] if S[0] == "F" else S[1]
                if deep or S[0] == "F":
                    R = self.deepen(R)
                out.add(R)
        return out

    # ------------------------------------------------------------ per function
    def _local(self, F):
        out, calls = [], []

        def w(lv, nid, through=False):
            for S in (self.pts(F, lv) if through else self.stor(F, lv)):
                if S != FRESH:
                    out.append((S, nid))

        for bid, e, n in F.all_elements():
            k = n["k"]
            if k == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                w(n["l"], e)
            elif k == "un" and n["op"] in ("++", "--", "post++", "post--"):
                w(n["e"], e)
            elif k == "cinit":
                if "n" in n:
                    out.append((("F", n["r"], n["n"], ("T", 0)), e))
            elif k == "delete":
                w(n["e"], e, True)
                calls.append(e)
            elif k == "call" or k == "ctor":
                f = n.get("f")
                ext = self.P.ext.get(f or "", {})
                if ext.get("repo"):
                    calls.append(e)
                    continue
                base, rec = ext.get("base", ""), ext.get("rec", "") or ""
                name = ext.get("name", "")
                if k == "call" and n.get("o", -1) >= 0:
                    mut = not ext.get("const") and not ext.get("static")
                    if base in STD_NONMUT:
                        mut = False
                    if base == "operator[]":
                        # what is stored through it is a write of its own; an
                        # absent key is inserted by a map, which cannot be
                        # observed if the (null) pointer found is followed
                        mut = bool(MAPS.match(rec)) and e not in followed(F) and not self.present(F, e)
                    if is_iter(rec) and base not in ("operator=",):
                        # advancing an iterator writes the iterator object
                        mut = base in ("operator++", "operator--", "operator+=", "operator-=")
                    if re.match(r"std::basic_[io]?f?stream|std::basic_[io]stringstream|std::basic_stringstream|std::basic_ios|std::ios", rec):
                        mut = False
                    if mut:
                        if is_ptr(F.nodes[n["o"]].get("t", "")):
                            w(n["o"], e, True)
                        else:
                            w(n["o"], e)
                if k == "call" and not n.get("o", -1) >= 0:
                    if name in ALGO_MUT_RANGE:
                        w(n["a"][0], e, True)
                    elif name in ALGO_MUT_FIRST:
                        w(n["a"][0], e, True)
                    elif name == "std::copy" and len(n["a"]) == 3:
                        w(n["a"][2], e, True)
                    elif name == "std::iter_swap":
                        for a in n["a"]:
                            w(a, e, True)
                    elif name in ("std::swap", "std::back_inserter", "std::move"):
                        for a in n["a"]:
                            w(a, e)
                    elif name.startswith("std::getline"):
                        w(n["a"][1], e)
                    if name in ("std::random_shuffle", "std::rand", "std::srand",
                                "std::exit", "std::shuffle", "std::remove" if len(n["a"]) == 1 else "-"):
                        out.append((("X", name), e))
                    elif name and not name.startswith(("std::", "pybind11::", "Eigen::", "operator", "__gnu_cxx::", "__builtin")) and not rec \
                            and name not in XOK:
                        out.append((("X", name), e))
                if "basic_ofstream" in rec and (base == "open" or k == "ctor" and n["a"]):
                    out.append((("X", "file-write"), e))
        return out, calls

    def dtor_types(self, F, nid):
        """record types a deleted pointer may have"""
        n = F.nodes[nid]
        t = F.nodes[n["e"]].get("t", "").rstrip("*& ").replace("const ", "").strip()
        if t not in self.P.records:
            return []
        exact = self._alloc_types(F, n["e"])
        if exact:
            return exact
        return self.P.derived(t) if self.P.records[t]["vdtor"] else [t]

    def _alloc_types(self, F, nid):
        """exact record types when every definition is a `new`"""
        nid = F.skip(nid)
        n = F.nodes[nid]
        if n["k"] == "new":
            t = n.get("t", "").rstrip("*& ").strip()
            return {t} if t in self.P.records else set()
        if n["k"] == "var" and F.vkind[n["v"]] not in ("p", "g", "s"):
            out = set()
            for (dn, val, dk) in F.reaching(n["v"], nid):
                if dk == "decl" and val is None:
                    continue
                if dk in ("decl", "assign") and val is not None:
                    x = F.nodes[F.skip(val)]
                    if x["k"] == "null":
                        continue
                    s = self._alloc_types(F, val) if x["k"] == "new" else set()
                    if not s:
                        return set()
                    out |= s
                else:
                    return set()
            return out
        return set()

    def call_targets(self, F, e):
        n = F.nodes[e]
        ts = self.P.targets(F, e)
        if len(ts) > 1 and n.get("o", -1) >= 0:
            ex = self._alloc_types(F, n["o"])
            if ex:
                keep = set()
                for x in ex:
                    bases = self.P.bases(x)
                    cand = [t for t in ts if t in self.P.funcs and self.P.funcs[t].rec in bases]
                    if cand:
                        cand.sort(key=lambda t: bases.index(self.P.funcs[t].rec))
                        keep.add(cand[0])
                if keep:
                    return keep
            else:
                # narrow by the static type of the receiver
                t = F.nodes[n["o"]].get("t", "").rstrip("*& ").replace("const ", "").strip()
                if t in self.P.records:
                    ok = self.P.derived(t) | set(self.P.bases(t))
                    ts2 = {x for x in ts if x not in self.P.funcs or self.P.funcs[x].rec in ok}
                    return ts2 or ts
        return ts

    def _solve(self):
        P = self.P
        ptrret = [F for F in P.funcs.values()
                  if F.ret.endswith("&") or is_ptr(F.ret) or is_iter(F.ret)]
        for F in ptrret:
            self.ret[F.key] = set()
        for _ in range(6):
            ch = False
            for F in P.funcs.values():
                F.__dict__.pop("_effmemo", None)
                F.__dict__.pop("_effvc", None)
            for F in ptrret:
                s = set()
                for bid, e, n in F.all_elements():
                    if n["k"] == "ret" and n["e"] >= 0:
                        s |= self.stor(F, n["e"]) if F.ret.endswith("&") else self.pts(F, n["e"])
                if s != self.ret[F.key]:
                    self.ret[F.key] = s
                    ch = True
            if not ch:
                break
        S = {k: set() for k in P.funcs}
        self.sites = {k: {} for k in P.funcs}
        edges, rev = {}, defaultdict(set)
        for k, F in P.funcs.items():
            o, c = self._local(F)
            for eff, nid in o:
                S[k].add(eff)
                self.sites[k].setdefault(eff, (nid, None))
            edges[k] = []
            for e in c:
                n = F.nodes[e]
                if n["k"] == "delete":
                    for x in self.dtor_types(F, e):
                        for dk in P.dtor_keys(x):
                            if dk in P.funcs:
                                edges[k].append((dk, e, True))
                else:
                    for t in self.call_targets(F, e):
                        if t in P.funcs:
                            edges[k].append((t, e, False))
            for (t, _, _) in edges[k]:
                rev[t].add(k)
        work = set(P.funcs)
        self.inst_cache = {}
        while work:
            k = work.pop()
            F = P.funcs[k]
            new = set()
            for (t, e, dt) in edges[k]:
                n = F.nodes[e]
                for eff in S[t]:
                    if eff[0] in ("G", "X"):
                        insts = {eff}
                    else:
                        R = eff[3] if eff[0] == "F" else eff[1]
                        ck = (k, e, R, dt)
                        if ck not in self.inst_cache:
                            self.inst_cache[ck] = self._inst_root(F, n, R, dt)
                        insts = set()
                        for R2 in self.inst_cache[ck]:
                            if R2 == FRESH:
                                continue
                            insts.add(("F", eff[1], eff[2], R2) if eff[0] == "F" else ("O", R2))
                    for x in insts:
                        if x not in S[k]:
                            new.add(x)
                            self.sites[k].setdefault(x, (e, (t, eff)))
            if new - S[k]:
                S[k] |= new
                for r in rev[k]:
                    work.add(r)
        self.sum = S
        self.edges = edges

    def _is_base_init(self, F, n):
        s = F.__dict__.get("_baseinit")
        if s is None:
            s = set()
            for m in F.nodes:
                if m["k"] == "cinit" and ("basec" in m or "deleg" in m):
                    s.add(m["e"])
            F._baseinit = s
        return F.kind == "ctor" and any(F.nodes[x] is n for x in s)

    def explain(self, key, eff, depth=0):
        """call chain to the primitive write"""
        out = []
        while True:
            s = self.sites.get(key, {}).get(eff)
            F = self.P.funcs[key]
            if s is None:
                out.append("%s ?" % F.name)
                return out
            nid, via = s
            out.append("%s (%s)" % (F.name, F.loc(nid)))
            if via is None or depth > 30:
                return out
            key, eff = via
            depth += 1
