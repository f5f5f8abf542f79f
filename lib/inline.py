"""Copies of a function with the bodies of the functions it calls put in place
of the calls, so that an analysis of one body sees what a helper does.

Parameters become locals defined by the arguments, a return becomes an
assignment to a fresh local that stands for the call, and the receiver stands
for `this`.  Only calls with exactly one possible target are expanded."""
import copy

from .prog import Block, Func

ATTRS = ("key", "name", "base", "file", "line", "endline", "kind", "rec", "const", "static", "virtual",
         "islambda", "noexcept", "ret", "tu", "nocfg", "tries")


def clone(F):
    N = Func.__new__(Func)
    for a in ATTRS:
        setattr(N, a, getattr(F, a))
    N.params = list(F.params)
    N.nodes = [dict(n) for n in F.nodes]
    for a in ("vars", "vname", "vkind", "vtype", "vpidx", "vowner"):
        setattr(N, a, list(getattr(F, a)))
    N.blocks = {}
    for b in F.blocks.values():
        c = copy.copy(b)
        c.els, c.succ, c.pred = list(b.els), list(b.succ), list(b.pred)
        N.blocks[b.id] = c
    N.entry, N.exit = F.entry, F.exit
    N._where = N._rd = None
    N.prog = getattr(F, "prog", None)
    N.origin = [(F.key, i) for i in range(len(F.nodes))]
    tidy(N)
    return N


def repred(N):
    for b in N.blocks.values():
        b.pred = []
    for b in N.blocks.values():
        for s in b.succ:
            if s >= 0 and s in N.blocks:
                N.blocks[s].pred.append(b.id)


def decided(N, root, q, v):
    """value of a condition whose evaluation stops after operand q gave v"""
    def up(x):
        n = N.nodes[x]
        if x == q:
            return (v,)
        if n["k"] == "cast":
            return up(n["e"])
        if n["k"] == "un" and n["op"] == "!":
            r = up(n["e"])
            return (not r[0],) if r else None
        if n["k"] == "bin" and n["op"] in ("&&", "||"):
            r = up(n["l"])
            if r is not None:
                stop = n["op"] == "||"
                return r if r[0] == stop else None
            return up(n["r"])
        return None
    r = up(root)
    return r[0] if r else None


def tidy(N):
    """branches on constants lose their dead edge; a block that only joins the
    operands of && and || and branches on the result is taken apart"""
    for B in N.blocks.values():
        if B.tc is not None and B.tc >= 0 and len(B.succ) == 2:
            n = N.nodes[N.skip(B.tc)]
            if n["k"] in ("bool", "int") and "val" in n:
                B.succ = [B.succ[0 if float(n["val"]) != 0 else 1]]
                B.tc = B.tk = None
    repred(N)
    for j in sorted(N.blocks):
        J = N.blocks[j]
        if J.tc is None or J.tc < 0 or len(J.succ) != 2 or not J.els or J.catch is not None:
            continue
        root = J.tc
        inner = set()
        st = [root]
        while st:
            x = st.pop()
            n = N.nodes[x]
            inner.add(x)
            if n["k"] == "cast":
                st.append(n["e"])
            elif n["k"] == "un" and n["op"] == "!":
                st.append(n["e"])
            elif n["k"] == "bin" and n["op"] in ("&&", "||"):
                st += [n["l"], n["r"]]
        if not all(e in inner and (N.nodes[e]["k"] in ("cast", "un") or N.nodes[e].get("op") in ("&&", "||"))
                   for e in J.els):
            continue
        plan = []
        for p in set(J.pred):
            B = N.blocks[p]
            if len(B.succ) == 2 and B.tc is not None and B.tc >= 0:
                for i, s in enumerate(B.succ):
                    if s == j:
                        q = [x for x in inner if x in B.els and not (N.nodes[x]["k"] == "cast")]
                        v = None
                        c = B.tc
                        while N.nodes[c]["k"] == "bin" and N.nodes[c]["op"] in ("&&", "||") and c not in B.els:
                            c = N.nodes[c]["r"]
                        for q in (c, N.skip(c)):
                            if v is None:
                                v = decided(N, root, q, i == 0)
                        if v is None:
                            break
                        plan.append((p, i, v))
                else:
                    continue
                break
            elif len(B.succ) == 1:
                # evaluates the last operand
                q = [x for x in inner if x in B.els and x not in J.els]
                r = root
                while True:
                    n = N.nodes[r]
                    if n["k"] == "cast" or n["k"] == "un" and n["op"] == "!":
                        r = n["e"]
                    elif n["k"] == "bin" and n["op"] in ("&&", "||"):
                        r = n["r"]
                    else:
                        break
                if r not in B.els and not q:
                    break
                vt, vf = decided(N, root, r, True), decided(N, root, r, False)
                if vt is None or vf is None:
                    break
                plan.append((p, None, (r, vt, vf)))
            else:
                break
        else:
            for p, i, v in plan:
                B = N.blocks[p]
                if i is None:
                    r, vt, vf = v
                    B.tc, B.tk = r, "IfStmt"
                    B.succ = [J.succ[0 if vt else 1], J.succ[0 if vf else 1]]
                else:
                    B.succ[i] = J.succ[0 if v else 1]
            repred(N)


SKIP = {"L", "t", "t2", "k", "f", "op", "n", "val", "ck", "v", "copy", "arrow", "hasinit"}


def shift(n, off):
    """copy of a node with the ids of its operands moved by off"""
    m = dict(n)
    k = n["k"]
    for f in ("o", "callee", "b", "e", "l", "r", "c", "i", "init", "size"):
        v = n.get(f)
        if isinstance(v, int) and not isinstance(v, bool) and v >= 0:
            if f == "r" and k in ("mem", "cinit"):
                continue
            m[f] = v + off
    for f in ("a", "place"):
        if n.get(f):
            m[f] = [x + off if isinstance(x, int) and x >= 0 else x for x in n[f]]
    if k == "decl":
        m["d"] = [[v, i + off if i >= 0 else i, s] for v, i, s in n["d"]]
    return m


def newnode(N, n, org):
    N.nodes.append(n)
    N.origin.append(org)
    return len(N.nodes) - 1


def newvar(N, name, typ, owner):
    N.vars.append([name, "l", -1, -1, 0, 0])
    N.vname.append(name)
    N.vkind.append("l")
    N.vtype.append(typ)
    N.vpidx.append(-1)
    N.vowner.append(owner)
    return len(N.vars) - 1


def expand(P, N, bid, pos, call, H):
    """put H in place of the call at element `pos` of block `bid`"""
    H = clone(H)
    n = N.nodes[call]
    B = N.blocks[bid]
    fresh = max(N.blocks) + 1
    # variables
    vmap = {}
    place = {}
    for v in range(len(H.vars)):
        if H.islambda and H.vowner[v] != H.key:
            w = next((w for w in range(len(N.vars)) if N.vname[w] == H.vname[v] and N.vowner[w] == H.vowner[v]
                      and (len(N.vars[w]) < 5 or N.vars[w][4] == H.vars[v][4])), None)
            if w is not None:
                vmap[v] = w
                continue
        if H.vkind[v] in ("g", "s"):
            w = next((w for w in range(len(N.vars)) if N.vname[w] == H.vname[v] and N.vkind[w] == H.vkind[v]
                      and N.vowner[w] == H.vowner[v]), None)
            if w is not None:
                vmap[v] = w
                continue
        if H.vkind[v] == "p" and v in H.params and H.vtype[v].rstrip().endswith("&") and \
                H.vpidx[v] < len(n["a"]):
            a = N.nodes[n["a"][H.vpidx[v]]]
            if a["k"] == "var":
                vmap[v] = a["v"]        # a reference to a local is that local
                continue
            if a["k"] == "mem" and a.get("b", -1) >= 0 and N.nodes[N.skip(a["b"])]["k"] == "this":
                place[v] = a            # and one to an attribute is the attribute
        w = newvar(N, H.vname[v], H.vtype[v], N.key)
        if H.vkind[v] in ("g", "s"):
            N.vkind[w] = H.vkind[v]
        vmap[v] = w
    rv = newvar(N, "#ret", H.ret, N.key)
    off = len(N.nodes)
    recv = n.get("o", -1)
    for i, m in enumerate(H.nodes):
        q = shift(m, off)
        if q["k"] == "var" and q["v"] in place:
            q = dict(place[q["v"]], L=q.get("L"))
        elif q["k"] == "var":
            q["v"] = vmap[q["v"]]
        elif q["k"] == "decl":
            q["d"] = [[vmap[v], x, s] for v, x, s in q["d"]]
        elif q["k"] == "this" and not H.islambda and recv >= 0:
            q = dict(N.nodes[recv])
        newnode(N, q, (H.key, i))
    # blocks
    bm = {b: fresh + j for j, b in enumerate(sorted(H.blocks))}
    cont = fresh + len(bm)
    C = copy.copy(B)
    C.id = cont
    C.els = B.els[pos:]
    C.succ = list(B.succ)
    C.pred = []
    N.blocks[cont] = C
    B.els = B.els[:pos]
    B.succ = [bm[H.entry]]
    B.tk = B.tc = None
    B.nr = 0
    for p in H.params:
        i = H.vpidx[p]
        if p in place:
            continue
        a = n["a"][i] if i < len(n["a"]) else -1
        if a >= 0 and N.nodes[a]["k"] == "var" and N.nodes[a]["v"] == vmap[p]:
            continue
        d = newnode(N, {"k": "decl", "d": [[vmap[p], a, 0]], "L": n.get("L", N.line)}, (H.key, -1))
        B.els.append(d)
    for b, x in H.blocks.items():
        y = copy.copy(x)
        y.id = bm[b]
        y.els = [e + off for e in x.els]
        y.succ = [bm[s] if s >= 0 else s for s in x.succ]
        y.pred = []
        if y.tc is not None and y.tc >= 0:
            y.tc = y.tc + off
        if isinstance(y.case, int) and y.case >= 0:
            y.case = y.case + off
        out = []
        for e in y.els:
            m = N.nodes[e]
            if m["k"] == "ret":
                if m.get("e", -1) >= 0:
                    l = newnode(N, {"k": "var", "v": rv, "L": m.get("L")}, (H.key, -1))
                    N.nodes[e] = {"k": "bin", "op": "=", "l": l, "r": m["e"], "L": m.get("L")}
                    out.append(e)
                continue
            out.append(e)
        y.els = out
        if b == H.exit:
            y.succ = [cont]
        N.blocks[y.id] = y
    N.nodes[call] = {"k": "var", "v": rv, "L": n.get("L"), "t": n.get("t", "")}
    if N.exit == bid:
        N.exit = cont
    for b in H.blocks:
        if H.aborts(b) and H.exit in H.blocks[b].succ:
            N.blocks[bm[b]].succ = [N.exit if x == bm[H.exit] else x for x in N.blocks[bm[b]].succ]
    thread(N, cont, rv, [bm[b] for b in H.blocks], bm[H.exit])
    repred(N)
    N._where = N._rd = None
    N.__dict__.pop("_dom", None)


def thread(N, cont, rv, blocks, ex):
    """send returns of a constant straight to the branch they decide, so that a
    test of what a helper returned tells which way the helper went"""
    C = N.blocks[cont]
    if C.tc is None or C.tc < 0 or len(C.succ) != 2:
        return
    c, sense = C.tc, True
    while True:
        n = N.nodes[c]
        if n["k"] == "cast":
            c = n["e"]
        elif n["k"] == "un" and n["op"] == "!":
            c, sense = n["e"], not sense
        elif n["k"] == "bin" and n["op"] in ("&&", "||"):
            c = n["l"] if n["r"] not in C.els else n["r"]
            if n["r"] in C.els and n["l"] in C.els:
                return
        else:
            break
    if N.nodes[c]["k"] != "var" or N.nodes[c]["v"] != rv:
        return
    for e in C.els:
        if N.nodes[e]["k"] not in ("var", "cast", "un", "meth", "fn", "this", "mem"):
            return
    for b in blocks:
        B = N.blocks[b]
        if ex not in B.succ or len(B.succ) != 1 or not B.els:
            continue
        m = N.nodes[B.els[-1]]
        if m["k"] != "bin" or m["op"] != "=" or N.nodes[m["l"]].get("v") != rv:
            continue
        v = N.nodes[N.skip(m["r"])]
        if v["k"] != "bool" and v["k"] != "int":
            continue
        t = (float(v["val"]) != 0) == sense
        B.succ = [C.succ[0 if t else 1]]


def inline(P, F, want, limit=6000):
    """F with every call that want(caller, node, callee) accepts expanded"""
    N = clone(F)
    stack = {}              # node origin chain, against recursion
    done = True
    again = True
    depth = {}
    while again:
        again = False
        for bid in list(N.order()):
            B = N.blocks[bid]
            for pos, e in enumerate(B.els):
                n = N.nodes[e]
                if n["k"] != "call" or n.get("f") not in P.funcs:
                    continue
                ch = stack.get(e, (F.key,))
                H = P.funcs[n["f"]]
                if H.key in ch or not H.blocks or H.kind == "ctor" or len(N.nodes) > limit:
                    continue
                if len(P.targets(N, e)) != 1 or not want(N, e, H):
                    continue
                o = len(N.nodes)
                expand(P, N, bid, pos, e, H)
                for x in range(o, len(N.nodes)):
                    stack[x] = ch + (H.key,)
                again = True
                break
            if again:
                break
    return N
