"""Integer polynomials over canonical expressions."""


def const(c):
    return {(): c} if c else {}


def atom(a):
    return {(a,): 1}


def add(p, q, s=1):
    out = dict(p)
    for m, c in q.items():
        out[m] = out.get(m, 0) + s * c
        if not out[m]:
            del out[m]
    return out


def mul(p, q):
    out = {}
    for m, c in p.items():
        for k, d in q.items():
            x = tuple(sorted(m + k, key=repr))
            out[x] = out.get(x, 0) + c * d
            if not out[x]:
                del out[x]
    return out


def of(p):
    """polynomial of a canonical expression"""
    if p[0] == "c":
        try:
            f = float(p[1])
            if f == int(f):
                return const(int(f))
        except (TypeError, ValueError):
            pass
        return atom(p)
    if p[0] == "bin" and p[1] in ("+", "-", "*"):
        a, b = of(p[2]), of(p[3])
        return mul(a, b) if p[1] == "*" else add(a, b, 1 if p[1] == "+" else -1)
    if p[0] == "call" and p[1] in ("operator+", "operator-", "operator*"):
        x = [y for y in p[2:] if y is not None]
        if len(x) == 2:
            return of(("bin", p[1][-1], x[0], x[1]))
    if p[0] == "un" and p[1] == "-":
        return mul(const(-1), of(p[2]))
    return atom(p)


def atoms(p):
    return {a for m in p for a in m}


def subst(p, a, q):
    out = {}
    for m, c in p.items():
        t = const(c)
        for x in m:
            t = mul(t, q if x == a else atom(x))
        out = add(out, t)
    return out


def nonneg(p):
    """all coefficients are >= 0 (the atoms are sizes and counters)"""
    return all(c >= 0 for c in p.values())


def show(p):
    return " + ".join("%s%s" % ("" if c == 1 and m else str(c) + ("*" if m else ""),
                                "*".join(pp(a) for a in m)) for m, c in sorted(p.items(), key=repr)) or "0"


def pp(a):
    """short text of a canonical expression"""
    if not isinstance(a, tuple):
        return str(a)
    if not a:
        return "()"
    if a[0] == "c":
        return str(a[1])
    if a[0] == "T":
        return "this"
    if a[0] == "P":
        return "arg%s" % a[1]
    if a[0] == "V":
        return "v%s" % a[1]
    if a[0] == "mem":
        return "%s.%s" % (pp(a[1]), a[2]) if a[1] != ("T",) else str(a[2])
    if a[0] == "call":
        return "%s%s(%s)" % (pp(a[2]) + "." if a[2] else "", a[1], ", ".join(pp(x) for x in a[3:]))
    if a[0] == "idx":
        return "%s[%s]" % (pp(a[1]), pp(a[2]))
    if a[0] == "bin":
        return "(%s %s %s)" % (pp(a[2]), a[1], pp(a[3]))
    return "%s(..)" % a[0]
