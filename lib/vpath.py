"""Canonical value expressions: like Balance.cpath, and locals with one
definition are replaced by it when nothing it reads can have changed (scalars
are treated as snapshots)."""
from .prog import short


class VPath:
    def __init__(self, P):
        self.P = P

    def single(self, F, v):
        c = F.__dict__.setdefault("_vp_single", {})
        if v in c:
            return c[v]
        c[v] = None
        if F.vkind[v] != "l":
            return None
        ds = [x for x in F.defs_of()[0] if x[0] == v]
        vals = [x for x in ds if x[3] in ("decl", "assign", "update") and (x[2] is not None or x[3] == "update")]
        if len(vals) == 1 and vals[0][3] in ("decl", "assign") and vals[0][2] is not None:
            if not any(x[3] == "escape" for x in ds):
                c[v] = vals[0][2]
        return c[v]

    def path(self, F, nid, d=0, resolve=True):
        P = self.P
        nid = F.skip(nid)
        if nid is None or nid < 0:
            return ("?",)
        n = F.nodes[nid]
        k = n["k"]
        if d > 40:
            return ("deep", nid)
        R = lambda x: self.path(F, x, d + 1, resolve)
        if k == "this":
            return ("T",)
        if k == "var":
            v = n["v"]
            if resolve:
                s = self.single(F, v)
                if s is not None:
                    return R(s)
            if F.vkind[v] == "p":
                return ("P", F.vpidx[v])
            return ("V", v)
        if k == "mem":
            return ("mem", R(n["b"]), n["n"])
        if k == "un" and n["op"] in ("*", "&", "+"):
            return R(n["e"])
        if k == "un":
            return ("un", n["op"], R(n["e"]))
        if k == "bin":
            return ("bin", n["op"], R(n["l"]), R(n["r"]))
        if k == "idx":
            return ("idx", R(n["b"]), R(n["i"]))
        if k in ("int", "flt", "bool", "str"):
            v = n.get("val")
            try:
                f = float(v)
                if f == int(f):
                    v = int(f)
            except (TypeError, ValueError):
                pass
            return ("c", str(v))
        if k == "call":
            b = P.ext[n["f"]]["base"] if n.get("f") else "?"
            o = R(n["o"]) if n.get("o", -1) >= 0 else None
            if b in ("operator*", "operator->", "get", "operator int", "operator double") and not n["a"]:
                return o
            a = tuple(R(x) for x in n["a"])
            if b in ("operator[]", "at") and a:
                return ("idx", o, a[0])
            if b == "operator()" and not a:
                return o
            if b in ("move", "forward") and o is None and len(a) == 1:
                return a[0]
            return ("call", b, o) + a
        if k == "ctor":
            if len(n["a"]) == 1:
                return R(n["a"][0])
            return ("ctor", short(n.get("f") or "?")) + tuple(R(x) for x in n["a"])
        if k == "init":
            if len(n["a"]) == 1:
                return R(n["a"][0])
            return ("init",) + tuple(R(x) for x in n["a"])
        if k == "enum":
            return ("enum", n["n"].split("::")[-1])
        if k == "null":
            return ("c", "null")
        if k == "cond":
            return ("cond",) + tuple(R(x) for x in F.children(nid))
        return ("n", F.key, nid)


def subst(p, args, recv):
    """replace parameter / receiver roots"""
    if not isinstance(p, tuple) or not p:
        return p
    if p[0] == "P" and len(p) == 2 and isinstance(p[1], int):
        return args[p[1]] if p[1] < len(args) else ("?",)
    if p == ("T",):
        return recv if recv is not None else ("?",)
    return tuple(subst(x, args, recv) for x in p)


def walk(p):
    yield p
    if isinstance(p, tuple):
        for x in p:
            if isinstance(x, tuple):
                yield from walk(x)


def fields(p):
    return {x[2] for x in walk(p) if isinstance(x, tuple) and len(x) == 3 and x[0] == "mem"}


def linear(p):
    """{atom: coeff} with atom None for the constant, or None"""
    if not isinstance(p, tuple):
        return None
    if p[0] == "c":
        try:
            return {None: float(p[1])}
        except ValueError:
            return None
    if p[0] == "bin" and p[1] in ("+", "-"):
        a, b = linear(p[2]), linear(p[3])
        if a is None or b is None:
            return None
        s = 1 if p[1] == "+" else -1
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, 0) + s * v
        return {k: v for k, v in out.items() if v}
    if p[0] == "call" and p[1] in ("operator+", "operator-"):
        x = [y for y in p[2:] if y is not None]
        if len(x) == 2:
            return linear(("bin", p[1][-1], x[0], x[1]))
    if p[0] == "bin" and p[1] == "*":
        a, b = linear(p[2]), linear(p[3])
        if a is not None and set(a) <= {None}:
            return {k: v * a.get(None, 0) for k, v in (b or {}).items()} if b is not None else None
        if b is not None and set(b) <= {None}:
            return {k: v * b.get(None, 0) for k, v in (a or {}).items()} if a is not None else None
        return {p: 1.0}
    if p[0] == "un" and p[1] == "-":
        a = linear(p[2])
        return {k: -v for k, v in a.items()} if a is not None else None
    return {p: 1.0}
