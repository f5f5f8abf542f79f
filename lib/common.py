"""Helpers shared by the checks."""
import re

from .prog import short
from .front import AnalysisBroken

PYB_DEF = ("def", "def_property_readonly", "def_static", "def_property",
           "def_readonly", "def_readwrite")


class Binding:
    __slots__ = ("cls", "name", "target", "where", "F", "node")

    def __init__(self, cls, name, target, where, F, node):
        self.cls, self.name, self.target = cls, name, target
        self.where, self.F, self.node = where, F, node

    def __repr__(self):
        return "%s.%s" % (self.cls, self.name)


def bindings(P):
    """the table of Python-visible functions, from the pybind11 def calls"""
    out = []
    for F in P.funcs.values():
        for i, n in enumerate(F.nodes):
            if n["k"] != "call" or not n.get("f"):
                continue
            e = P.ext[n["f"]]
            rec = e.get("rec", "")
            if e["base"] in PYB_DEF and rec.startswith("pybind11::"):
                if len(n["a"]) < 2:
                    continue
                nm = F.nodes[F.skip(n["a"][0])]
                tgt = None
                for x in F.walk(n["a"][1]):
                    m = F.nodes[x]
                    if m["k"] in ("fn", "lambda", "meth") and m.get("f"):
                        tgt = m["f"]
                        break
                c = re.match(r"pybind11::class_<(.*)>", rec)
                cls = c.group(1).split("::")[-1] if c else "module"
                out.append(Binding(cls, nm.get("val"), tgt, F.loc(i), F, i))
    # pybind11 class_<T>(...).def(py::init<..>()) has the constructor behind a
    # template: the record's constructors are roots as well
    return out


def binding_roots(P):
    bs = [b for b in bindings(P)]
    roots = {b.target for b in bs if b.target in P.funcs}
    for r in list(P.records):
        if r.startswith("macposts::") and r.split("::")[-1] in ("Dta", "Mcdta", "Mmdta", "Tdsp"):
            for F in P.byname.get(r + "::#ctor", []):
                roots.add(F.key)
            for F in P.byname.get(r + "::~", []):
                roots.add(F.key)
    return bs, roots


def ident(P, F, nid, d=0):
    """stable identity of a container/lvalue expression: the member that holds
    it, or the type of the local"""
    nid = F.skip(nid)
    if nid is None or nid < 0:
        return "?"
    n = F.nodes[nid]
    k = n["k"]
    if k == "mem":
        return n["r"] + "::" + n["n"]
    if k == "var":
        v = n["v"]
        if d < 6:
            for (nd, val, kind) in F.reaching(v, nid):
                if val is not None and kind in ("decl", "assign"):
                    x = ident(P, F, val, d + 1)
                    if x != "?":
                        return x
        return "local " + F.vtype[v]
    if k == "call":
        if n.get("o", -1) >= 0:
            return ident(P, F, n["o"], d + 1)
        return "call " + short(n["f"] or "?")
    if k in ("un", "cast"):
        return ident(P, F, n["e"], d + 1)
    if k == "bin":
        return ident(P, F, n["l"], d + 1)
    if k == "idx":
        return ident(P, F, n["b"], d + 1)
    return "?"


def argvars(F, nid):
    return {F.nodes[x]["v"] for x in F.walk(nid) if F.nodes[x]["k"] == "var"}


def is_assign(n):
    return (n["k"] == "bin" and n["op"].endswith("=")
            and n["op"] not in ("==", "!=", "<=", ">="))


def natural_loops(F):
    """list of (header block, set of blocks)"""
    out = {}
    for b in F.blocks.values():
        for s in b.succ:
            if s >= 0 and F.dominates(s, b.id) and b.id in F.dominators():
                body, st = {s}, [b.id]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(F.blocks[x].pred)
                out.setdefault(s, set()).update(body)
    return sorted(out.items())
