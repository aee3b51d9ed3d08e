"""Normal form of floating-point expressions, read as exact arithmetic.

A scalar or vector expression is a polynomial with rational coefficients over atoms; division by a monomial gives
negative exponents, division by anything else the reciprocal of a normalised sum.  Vectors are linear combinations
of vector atoms, including the unit vectors ("e", 0..2).  Conditional values use indicator atoms ("ind", fact)
which are idempotent.
"""
from fractions import Fraction
from functools import lru_cache

CONST_OK = (int, float, Fraction)


def C(v):
    return ("c", v)


def _key(a):
    return _rk(a)


@lru_cache(maxsize=200000)
def _rk(a):
    return repr(a)


def frac(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return None
        # decimal literals mean their decimal value
        return Fraction(repr(v))
    return Fraction(v)


def to(t):
    """dict monomial -> coefficient"""
    k = t[0]
    if k == "poly":
        return dict(t[1])
    if k == "c" and isinstance(t[1], CONST_OK):
        f = frac(t[1])
        if f is None:
            return {((t, 1),): Fraction(1)}
        return {(): f} if f else {}
    if k == "lin":
        d = {}
        if t[1]:
            d[()] = Fraction(t[1])
        for a, c in t[2]:
            for m, v in to(a).items():
                d[m] = d.get(m, Fraction(0)) + v * c
        return {m: v for m, v in d.items() if v}
    if k == "rec" and t[1] == "NeoFOAM::Vector":
        return {((t, 1),): Fraction(1)}
    return {((t, 1),): Fraction(1)}


def number(t):
    """constant value or None"""
    d = to(t)
    if not d:
        return Fraction(0)
    if len(d) == 1 and () in d:
        return d[()]
    return None


def const(v):
    v = Fraction(v)
    if v.denominator == 1:
        return C(int(v))
    return C(v)


def mk(d):
    d = {m: v for m, v in d.items() if v}
    d = _common(d)
    if not d:
        return C(0)
    if len(d) == 1:
        (m, v), = d.items()
        if m == ():
            return const(v)
        if v == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return ("poly", tuple(sorted(d.items(), key=lambda kv: _rk(kv[0]))))


def _common(d):
    """brings everything over a common denominator of non-monomial factors and cancels them"""
    qs = {}
    for m in d:
        for a, e in m:
            if e < 0 and a[0] == "plus":
                qs[a] = min(qs.get(a, 0), e)
    if not qs:
        return d
    for q in sorted(qs, key=_rk):
        e = -qs[q]
        num = {}
        qp = dict(q[1])
        for m, v in d.items():
            have = 0
            rest = []
            for a, x in m:
                if a == q:
                    have = x
                else:
                    rest.append((a, x))
            t = {tuple(rest): v}
            for _ in range(e + have):
                t = _mul(t, qp)
            for mm, vv in t.items():
                num[mm] = num.get(mm, Fraction(0)) + vv
        num = {m: v for m, v in num.items() if v}
        while e > 0:
            r = _divide(num, qp)
            if r is None:
                break
            num, e = r, e - 1
        d = {_mono_mul(m, ((q, -e),) if e else ()): v for m, v in num.items()}
    return d


def _lead(d):
    return max(d, key=lambda m: [(_rk(a), e) for a, e in m])


def _divide(n, q):
    """exact quotient n/q or None"""
    if not n:
        return {}
    if len(q) < 2:
        return None
    res = {}
    n = dict(n)
    ql = _glex_lead(q)
    for _ in range(200):
        if not n:
            return res
        nl = _glex_lead(n)
        t = _mono_mul(nl, tuple((a, -e) for a, e in ql))
        # the quotient monomial must not need new negative powers of atoms of q
        if any(e < 0 and any(a == b for b, _ in ql) and _exp(nl, a) >= 0 for a, e in t):
            return None
        c = n[nl] / q[ql]
        res[t] = res.get(t, Fraction(0)) + c
        for m, v in q.items():
            mm = _mono_mul(m, t)
            n[mm] = n.get(mm, Fraction(0)) - v * c
            if not n[mm]:
                del n[mm]
    return None


def _exp(m, a):
    for b, e in m:
        if a == b:
            return e
    return 0


def _glex_lead(d):
    atoms = sorted({a for m in d for a, _ in m}, key=_rk)
    return max(d, key=lambda m: tuple(_exp(m, a) for a in atoms))


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
        if d[x] > 1 and x[0] == "ind":
            d[x] = 1
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda p: _rk(p[0])))


def _mul(a, b):
    r = {}
    for m, v in a.items():
        for n, w in b.items():
            k = _mono_mul(m, n)
            r[k] = r.get(k, Fraction(0)) + v * w
    return {k: v for k, v in r.items() if v}


def add(a, b, s=1):
    d = to(a)
    for m, v in to(b).items():
        d[m] = d.get(m, Fraction(0)) + s * v
    return mk(d)


def sub(a, b):
    return add(a, b, -1)


def neg(a):
    return mk({m: -v for m, v in to(a).items()})


def mul(a, b):
    return mk(_mul(to(a), to(b)))


def scale(a, c):
    return mk({m: v * Fraction(c) for m, v in to(a).items()})


def inv(a):
    d = to(a)
    if not d:
        return None
    if len(d) == 1:
        (m, v), = d.items()
        if not any(x[0] == "ind" for x, _ in m):
            return mk({tuple((x, -e) for x, e in m): 1 / v})
    # common monomial factor and leading coefficient
    atoms = {a for m in d for a, _ in m}
    fac = []
    for x in atoms:
        e = min(_exp(m, x) for m in d)
        if e:
            fac.append((x, e))
    fac = tuple(sorted(fac, key=lambda p: _rk(p[0])))
    ifac = tuple((x, -e) for x, e in fac)
    lead = d[sorted(d, key=_rk)[0]]
    q = {_mono_mul(m, ifac): v / lead for m, v in d.items()}
    return mk({_mono_mul((((("plus", tuple(sorted(q.items(), key=lambda kv: _rk(kv[0])))), -1)),), ifac): 1 / lead})


def div(a, b):
    i = inv(b)
    if i is None:
        return ("op", "/", a, b)
    return mul(a, i)


def same(a, b):
    """are the two expressions equal as rational functions?"""
    d = to(sub(a, b))
    return not d


# ------------------------------------------------------------------ vectors
VEC = ("vrd", "e", "vsym", "vfld")


def isvecatom(a):
    if a[0] in VEC:
        return True
    if a[0] == "sc":
        return any(isvecatom(x) for x, _ in a[3])
    if a[0] == "rec" and a[1] == "NeoFOAM::Vector":
        return True
    if a[0] in ("ov", "rdv", "init"):
        return a[-1] == "V"
    return False


def isvec(t):
    return any(isvecatom(a) for m in to(t) for a, _ in m)


def E(i):
    return ("e", i)


def vec3(x, y, z):
    r = C(0)
    for i, c in enumerate((x, y, z)):
        r = add(r, mul(c, E(i)))
    return r


ONES = None


def ones():
    return vec3(C(1), C(1), C(1))


def _splitvec(m):
    v = [(a, e) for a, e in m if isvecatom(a)]
    if len(v) != 1 or v[0][1] != 1:
        return None
    return v[0][0], tuple(p for p in m if p != v[0])


def cmp_(t, i):
    """component i (a number) of a vector expression"""
    d = {}
    for m, c in to(t).items():
        s = _splitvec(m)
        if s is None:
            return ("op", "cmp", t, C(i))
        a, rest = s
        if a[0] == "e":
            if a[1] != i:
                continue
            d[rest] = d.get(rest, Fraction(0)) + c
        else:
            k = _mono_mul(rest, ((("cmp", a, i), 1),))
            d[k] = d.get(k, Fraction(0)) + c
    return mk(d)


def dot(x, y):
    d = {}
    for m, c in to(x).items():
        s = _splitvec(m)
        if s is None:
            return ("op", "dot", x, y)
        for n, w in to(y).items():
            r = _splitvec(n)
            if r is None:
                return ("op", "dot", x, y)
            a, b = s[0], r[0]
            rest = _mono_mul(s[1], r[1])
            if a[0] == "e" and b[0] == "e":
                if a[1] != b[1]:
                    continue
                k = rest
            elif a[0] == "e":
                k = _mono_mul(rest, ((("cmp", b, a[1]), 1),))
            elif b[0] == "e":
                k = _mono_mul(rest, ((("cmp", a, b[1]), 1),))
            else:
                p, q = sorted((a, b), key=_rk)
                k = _mono_mul(rest, ((("dot", p, q), 1),))
            d[k] = d.get(k, Fraction(0)) + c * w
    return mk(d)


def _signed(t):
    """(t or -t with a positive leading coefficient, 1 or -1)"""
    d = to(t)
    if not d:
        return t, 1
    lead = d[sorted(d, key=_rk)[0]]
    return (t, 1) if lead > 0 else (neg(t), -1)


def _content(t):
    """(positive rational, primitive expression)"""
    d = to(t)
    if not d:
        return Fraction(1), t
    lead = abs(d[sorted(d, key=_rk)[0]])
    return lead, scale(t, 1 / lead)


def abs_(t):
    n = number(t)
    if n is not None:
        return const(abs(n))
    t, _ = _signed(t)
    c, p = _content(t)
    d = to(p)
    out = C(c if c.denominator != 1 else int(c))
    if len(d) == 1:
        (m, v), = d.items()
        r = {(): Fraction(abs(v))}
        for a, e in m:
            if e % 2 == 0 or a[0] in ("abs", "mag", "ind"):
                f = {((a, e),): Fraction(1)}
            else:
                f = {((("abs", a), e),): Fraction(1)}
            r = _mul(r, f)
        return mul(out, mk(r))
    if nonneg(p):
        return mul(out, p)
    return mul(out, ("abs", p))


def nonneg(t):
    """sums of products of atoms that cannot be negative"""
    d = to(t)
    return all(v > 0 and all(e % 2 == 0 or a[0] in ("abs", "mag", "ind") for a, e in m) for m, v in d.items())


def mag(t):
    if not isvec(t):
        return abs_(t)
    t, _ = _signed(t)
    d = to(t)
    # common scalar factor
    ms = [dict(m) for m in d]
    com = {}
    for a in set().union(*ms):
        if not isvecatom(a):
            e = min((m.get(a, 0) for m in ms), key=lambda x: (x > 0, x)) if all(a in m for m in ms) else 0
            if all(m.get(a, 0) == e for m in ms) and e:
                com[a] = e
    c, t = _content(t)
    f = C(c if c.denominator != 1 else int(c))
    if com:
        k = mk({tuple(sorted(com.items(), key=lambda p: _rk(p[0]))): Fraction(1)})
        f = mul(f, abs_(k))
        t = div(t, k)
        t, _ = _signed(t)
    s = to(t)
    if len(s) == 1 and list(s)[0] and list(s)[0][0][0][0] == "e":
        return f
    return mul(f, ("mag", t))


def sqrt(t):
    n = number(t)
    if n is not None and n >= 0:
        import math
        a, b = math.isqrt(n.numerator), math.isqrt(n.denominator)
        if a * a == n.numerator and b * b == n.denominator:
            return const(Fraction(a, b))
    d = to(t)
    if len(d) == 1:
        (m, v), = d.items()
        if v > 0:
            r = sqrt(const(v)) if v != 1 else C(1)
            if r[0] == "c":
                if all(e % 2 == 0 for _, e in m):
                    return mul(r, abs_(mk({tuple((a, e // 2) for a, e in m): Fraction(1)})))
                if len(m) == 1 and m[0][0][0] == "dot" and m[0][1] == 1 and m[0][0][1] == m[0][0][2]:
                    return mul(r, mag(m[0][0][1]))
    # sqrt(v.v) for a vector written by components
    return ("sqrt", t)


def minmax(op, a, b):
    na, nb = number(a), number(b)
    if na is not None and nb is not None:
        return const(max(na, nb) if op == "max" else min(na, nb))
    idn = ("ident", op.capitalize())       # the neutral element of the reduction
    if b == idn:
        return a
    if a == idn:
        return b
    if same(a, b):
        return a
    xs = set()
    for x in (a, b):
        if x[0] == op:
            xs.update(x[1])
        else:
            xs.add(x)
    return (op, tuple(sorted(xs, key=_rk)))


def fposkey(t):
    """(constant truth or None, fact) for t > 0"""
    n = number(t)
    if n is not None:
        return n > 0, None
    return None, ("fpos", _content(t)[1])


def feqkey(t):
    n = number(t)
    if n is not None:
        return n == 0, None
    t = _signed(_content(t)[1])[0]
    return None, ("feq", t)


def ind(fact, truth):
    i = ("ind", fact)
    return i if truth else sub(C(1), i)


def renorm(t):
    """re-establish the normal form of a float term whose parts were rewritten"""
    k = t[0]
    if k == "poly":
        d = {}
        for m, v in t[1]:
            p = {(): v}
            for a, e in m:
                b = to(a)
                if e > 0:
                    for _ in range(e):
                        p = _mul(p, b)
                else:
                    i = inv(a)
                    if i is None:
                        return ("op", "div0", t)
                    for _ in range(-e):
                        p = _mul(p, to(i))
            for mm, vv in p.items():
                d[mm] = d.get(mm, Fraction(0)) + vv
        return mk(d)
    if k == "plus":
        return mk(to(("poly", t[1]))) if False else renorm(("poly", t[1]))
    if k == "dot":
        return dot(t[1], t[2])
    if k == "cmp" and isinstance(t[2], int):
        return cmp_(t[1], t[2])
    if k == "mag":
        return mag(t[1])
    if k == "abs":
        return abs_(t[1])
    if k == "sqrt":
        return sqrt(t[1])
    if k in ("max", "min") and isinstance(t[1], tuple) and t[1] and isinstance(t[1][0], tuple):
        r = t[1][0]
        for x in t[1][1:]:
            r = minmax(k, r, x)
        return r
    return t


NORM = ("poly", "plus", "dot", "cmp", "mag", "abs", "sqrt", "max", "min")


def show(t, sh):
    d = to(t)
    if not d:
        return "0"
    out = []
    for m, v in sorted(d.items(), key=lambda kv: _rk(kv[0])):
        fs = []
        num = []
        for a, e in m:
            s = show_plus(a, sh) if a[0] == "plus" else sh(a)
            if e < 0:
                num.append(s if e == -1 else "%s^%d" % (s, -e))
            else:
                fs.append(s if e == 1 else "%s^%d" % (s, e))
        c = "" if v == 1 and fs else ("-" if v == -1 and fs else str(v) + ("*" if fs else ""))
        s = c + "*".join(fs)
        if num:
            s += "/" + "/".join(num)
        out.append(s)
    return " + ".join(out).replace("+ -", "- ")


def show_plus(a, sh):
    return "(" + show(("poly", a[1]), sh) + ")"


# ------------------------------------------------------------------ deciding that an expression vanishes
def iszero(t, depth=0):
    """is the expression zero for all values?  Sums over the same elements are merged, and absolute values, minima and
    maxima are resolved by cases (True is definite; False only means that it was not shown)"""
    d = to(t)
    if not d:
        return True
    if depth > 6 or len(d) > 400:
        return False
    groups = {}
    for m, v in d.items():
        sc = [a for a, e in m if a[0] == "sc" and e == 1]
        if len(sc) == 1:
            a = sc[0]
            rest = tuple(p for p in m if p[0] != a)
            # factors that do not depend on the element belong to the sum as well
            k = (a[1], a[2], a[4])
            g = groups.setdefault(k, {})
            mm = _mono_mul(a[3], rest)
            g[mm] = g.get(mm, Fraction(0)) + v
        else:
            g = groups.setdefault(None, {})
            g[m] = g.get(m, Fraction(0)) + v
    return all(_cases({m: v for m, v in g.items() if v}, depth) if k is None or g != d else False for k, g in groups.items())


def _piece(a, e):
    """a piecewise atom as [(condition fact, expression if true, expression if false)]"""
    if a[0] == "abs" and not isvec(a[1]):
        f = fposkey(a[1])[1]
        return f, a[1], neg(a[1])
    if a[0] in ("max", "min") and isinstance(a[1], tuple) and len(a[1]) == 2:
        x, y = a[1]
        if isvec(x) or isvec(y):
            return None
        f = fposkey(sub(x, y))[1]
        return (f, x, y) if a[0] == "max" else (f, y, x)
    return None


def _pow(t, e):
    d = to(t)
    if e < 0:
        i = inv(t)
        if i is None:
            return None
        d, e = to(i), -e
    p = {(): Fraction(1)}
    for _ in range(e):
        p = _mul(p, d)
    return p


def _cases(d, depth):
    if not d:
        return True
    for _ in range(12):
        hit = None
        for m in d:
            for a, e in m:
                if _piece(a, e):
                    hit = a
                    break
            if hit:
                break
        if hit is None:
            break
        f, x, y = _piece(hit, 1)
        i = {((("ind", f), 1),): Fraction(1)}
        n = {(): Fraction(1), ((("ind", f), 1),): Fraction(-1)}
        out = {}
        for m, v in d.items():
            e = _exp(m, hit)
            rest = {tuple(p for p in m if p[0] != hit): v}
            if e:
                px, py = _pow(x, e), _pow(y, e)
                if px is None or py is None:
                    return False
                rest = _mul(rest, _plus(_mul(i, px), _mul(n, py)))
            out = _plus(out, rest)
        d = to(mk(out))
        if not d:
            return True
    # complementary conditions: [-x > 0] = 1 - [x > 0] - [x = 0]
    facts = {a[1] for m in d for a, _ in m if a[0] == "ind"}
    for f in sorted(facts, key=_rk):
        if f[0] != "fpos":
            continue
        g = fposkey(neg(f[1]))[1]
        if g in facts and _rk(g) > _rk(f):
            z = ("ind", feqkey(f[1])[1])
            rep = {(): Fraction(1), ((("ind", f), 1),): Fraction(-1), ((z, 1),): Fraction(-1)}
            out = {}
            for m, v in d.items():
                if _exp(m, ("ind", g)):
                    out = _plus(out, _mul({tuple(p for p in m if p[0] != ("ind", g)): v}, rep))
                else:
                    out = _plus(out, {m: v})
            d = out
    # [x = 0] excludes [x > 0], and anything multiplied by it may be taken at x = 0
    out = {}
    for m, v in d.items():
        zs = [a[1][1] for a, _ in m if a[0] == "ind" and a[1][0] == "feq"]
        drop = False
        for z in zs:
            if any(a[0] == "ind" and a[1][0] == "fpos" and (a[1] == fposkey(z)[1] or a[1] == fposkey(neg(z))[1]) for a, _ in m):
                drop = True
            dz = to(z)
            if len(dz) == 1 and all(e > 0 and _exp(m, a) >= e for a, e in list(dz)[0]):
                drop = True
        if not drop:
            out[m] = out.get(m, Fraction(0)) + v
    out = {m: v for m, v in out.items() if v}
    if not out:
        return True
    r = mk(out)
    if not to(r):
        return True
    if any(a[0] == "sc" for m in out for a, _ in m) and out != d:
        return iszero(r, depth + 1)
    return False


def _plus(a, b):
    r = dict(a)
    for m, v in b.items():
        r[m] = r.get(m, Fraction(0)) + v
    return {m: v for m, v in r.items() if v}
