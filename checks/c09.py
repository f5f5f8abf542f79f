"""C09: nothing deleted is used again, and nothing is deleted twice."""
from lib.freed import Freed, root
from lib.guards import Guards
from lib.prog import Program, short
from lib.vpath import walk

TEXT = {"use": "uses %s, which may have been deleted at %s",
        "element": "uses %s, an element of a container whose elements were deleted at %s and not taken out",
        "twice": "deletes %s, which may have been deleted at %s",
        "returned": "returns %s, which may have been deleted at %s",
        "kept": "keeps %s, which may have been deleted at %s",
        "passed": "hands %s, which may have been deleted at %s, to a function that uses it",
        "iterator": "uses %s, whose element left the container (or was moved) at %s"}


def show(F, p):
    if not isinstance(p, tuple):
        return "?"
    if p[0] == "V":
        return F.vname[p[1]] or "a local"
    if p[0] == "P":
        return next((F.vname[v] for v in F.params if F.vpidx[v] == p[1]), "a parameter")
    if p[0] == "T":
        return "this"
    if p[0] == "mem":
        return p[2] if p[1] == ("T",) else "%s->%s" % (show(F, p[1]), p[2])
    if p[0] == "elem":
        return "*" + show(F, p[1])
    if p[0] == "idx":
        return show(F, p[1]) + "[...]"
    if p[0] == "call":
        return "%s.%s(...)" % (show(F, p[2]), p[1])
    return "a value"


def run(rep, tier):
    P = Program.load()
    G = Guards(P)
    D = Freed(P, G)
    lifetimes(rep, P, D)
    destructors(rep, P, D)
    arrays(rep, P)
    copies(rep, P)


def isdtor(F):
    return F.kind == "dtor" or F.base.startswith("~")


def lifetimes(rep, P, D):
    rep.rule("on no path of a function is an object followed, called, kept, returned or deleted after it was deleted "
             "there or by a function called there, and no iterator used after its element left the container")
    outs = {}
    nf = nd = nc = 0
    for F in sorted(P.funcs.values(), key=lambda F: F.key):
        if not F.blocks:
            continue
        nf += 1
        outs[F.key] = D.run(F, quiet=False)
        for _, e, n in F.all_elements():
            if n["k"] == "delete":
                nd += 1
                if nd % 80 == 0:
                    rep.sample("delete of %s in %s at %s" % (show(F, D.raw(F, n["e"])), short(F.key), F.loc(e)))
            elif n["k"] == "call" and n.get("f") and any(t in P.funcs and D.summary(t) for t in P.targets(F, e)):
                nc += 1
    for (k, what, _), (F, e, _, path, why) in sorted(D.found.items(), key=lambda x: str(x[0])):
        rep.violation("%s:%s:%s" % (what, short(F.key), show(F, path)), F.loc(e),
                      "%s %s" % (short(F.key), TEXT[what] % (show(F, path), F.loc(why[0]))))
    rep.count("functions", nf)
    rep.count("deletes", nd)
    rep.count("calls that delete", nc)
    rep.require("functions", nf, 300)
    rep.rule("what a function other than a destructor deletes through an attribute or a container is replaced, set to "
             "null or taken out before it returns, or by every caller")
    D.quiet = True
    for F in P.funcs.values():
        if F.key not in outs or isdtor(F):
            continue
        for k, w in sorted(list(outs[F.key].items()) + [(q, w) for (f, q), w in D.lost.items() if f == F.key],
                           key=lambda x: repr(x[0])):
            if k[0] not in ("p", "e") or not outlives(F, k):
                continue
            if cleaned(P, D, F, k, outs, ()):
                continue
            rep.violation("left:%s:%s" % (short(F.key), show(F, k[1])), F.loc(w[0]),
                          "%s deletes %s and returns with the old address still in %s"
                          % (short(F.key), "an element of " + show(F, k[1]) if k[0] == "e" else show(F, k[1]),
                             show(F, k[1])))


def spine(p):
    while isinstance(p, tuple) and p:
        yield p
        p = p[1] if p[0] in ("mem", "elem", "idx") else p[2] if p[0] == "call" else None


def outlives(F, k):
    r = root(k[1])
    if r and r[0] == "V" and r != k[1] and F.vtype[r[1]].rstrip("const ").endswith("*"):
        r = ("P", None)
    if not (r == ("T",) or r and r[0] == "P"):
        return False
    if any(x[0] in ("n", "?") for x in spine(k[1])):
        return False
    if k[0] == "p":
        return k[1][0] in ("mem", "idx")
    return True


def cleaned(P, D, F, k, outs, seen):
    """does every caller forget what F leaves behind"""
    if any(isinstance(x, tuple) and x and x[0] in ("V", "n") for x in walk(k[1])):
        return False
    if F.key in seen:
        return True
    cs = D.calls.get(F.key) or ()
    cs = {c if isinstance(c, str) else c[0] for c in cs}
    if not cs:
        return False
    name = [x[2] for x in walk(k[1]) if isinstance(x, tuple) and x and x[0] == "mem"]
    for c in cs:
        K = P.funcs.get(c)
        if K is None or K.key not in outs:
            return False
        if isdtor(K):
            continue
        calls = {e for _, e, n in K.all_elements() if n["k"] == "call" and n.get("f") and F.key in P.targets(K, e)}
        if not calls:
            return False
        for q, w in list(outs[K.key].items()) + [(q, w) for (f, q), w in D.lost.items() if f == K.key]:
            if q[0] != k[0] or w[0] not in calls:
                continue
            if [x[2] for x in walk(q[1]) if isinstance(x, tuple) and x and x[0] == "mem"][:len(name)] != name and name:
                continue
            if not (outlives(K, q) and cleaned(P, D, K, q, outs, seen + (F.key,))):
                return False
    return True


def destructors(rep, P, D):
    rep.rule("what the destructor of a class deletes is not deleted or used again by the destructor of a base class")
    n = 0
    for F in sorted(P.funcs.values(), key=lambda F: F.key):
        if not isdtor(F) or F.rec is None or not F.blocks:
            continue
        n += 1
        left = {k: (w[0], frozenset()) for k, w in D.run(F).items()
                if k[0] in ("p", "e") and root(k[1]) == ("T",) and outlives(F, k)}
        if not left:
            continue
        D.found = {}
        for b in P.bases(F.rec):
            for x in P.dtor_keys(b):
                B = P.funcs.get(x)
                if B is None or not B.blocks or B is F:
                    continue
                start = dict(left)
                D.feasible = lambda *a: True
                D.run(B, start, quiet=False)
                del D.feasible
                for (_, what, _), (_, e, _, path, why) in sorted(D.found.items(), key=lambda x: str(x[0])):
                    if (("p", path) in left and why == left[("p", path)]) or any(
                            q[0] == "e" and why == left[q] for q in left):
                        rep.violation("bases:%s:%s" % (short(F.key), show(B, path)), B.loc(e),
                                      "%s deletes or uses %s, which %s has deleted at %s"
                                      % (short(B.key), show(B, path), short(F.key), F.loc(why[0])))
                D.found = {}
    rep.count("destructors", n)


def arrays(rep, P):
    rep.rule("what new T[n] makes is released with delete[], and nothing else is")
    made, gone = {}, []
    for F in P.funcs.values():
        for _, e, n in F.all_elements():
            if n["k"] == "new":
                made.setdefault(norm(n.get("t2") or ""), set()).add(bool(n.get("arr")))
            elif n["k"] == "delete":
                m = F.nodes[F.skip(n["e"])]
                t = F.vtype[m["v"]] if m["k"] == "var" else m.get("t") or ""
                gone.append((F, e, bool(n.get("arr")), norm(t.replace("*", " ", 1) if t.count("*") == 1 else t[::-1]
                                                            .replace("*", " ", 1)[::-1])))
    for F, e, arr, t in gone:
        kinds = made.get(t)
        if kinds is not None and len(kinds) == 1 and arr not in kinds:
            rep.violation("form:%s:%d" % (short(F.key), F.nodes[e].get("L") or 0), F.loc(e),
                          "%s releases %s with %s" % (short(F.key), "an array of " + t if True in kinds else "one " + t,
                                                      "delete[]" if arr else "delete"))
        elif kinds is not None and len(kinds) == 2:
            o = origin(P, F, F.nodes[e]["e"])
            if o is not None and o != arr:
                rep.violation("form:%s:%d" % (short(F.key), F.nodes[e].get("L") or 0), F.loc(e),
                              "%s releases what %s made with %s" % (short(F.key), "new[]" if o else "new",
                                                                    "delete[]" if arr else "delete"))
    rep.count("types of arrays made", sum(True in k for k in made.values()))


def norm(t):
    for w in ("const ", "class ", "struct ", "volatile ", "&"):
        t = t.replace(w, "")
    return " ".join(t.split())


def origin(P, F, i):
    """the form of new behind a local variable"""
    n = F.nodes[F.skip(i)]
    if n["k"] != "var":
        return None
    kinds = set()
    for node, val, kind in F.reaching(n["v"], F.skip(i)):
        if val is None or val < 0:
            return None
        m = F.nodes[F.skip(val)]
        if m["k"] != "new":
            return None
        kinds.add(bool(m.get("arr")))
    return kinds.pop() if len(kinds) == 1 else None


def copies(rep, P):
    rep.rule("no object is copied by a class whose destructor deletes what its attributes point to")
    own = set()
    for F in P.funcs.values():
        if isdtor(F) and F.rec:
            for _, e, n in F.all_elements():
                if n["k"] == "delete":
                    own.add(F.rec)
    n = 0
    for F in P.funcs.values():
        for _, e, m in F.all_elements():
            if m["k"] == "ctor" and m.get("copy") and m.get("f"):
                r = P.ext[m["f"]].get("rec")
                if r in P.records:
                    n += 1
                if r in own and m["f"] not in P.funcs:
                    rep.violation("copy:%s:%s" % (short(F.key), r.split("::")[-1]), F.loc(e),
                                  "%s copies a %s; the copy and the original would delete the same objects"
                                  % (short(F.key), r.split("::")[-1]))
    rep.count("classes whose destructor deletes", len(own))
    rep.count("copies of objects", n)
