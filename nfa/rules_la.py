"""Sparse matrices and linear systems (C34)."""
from . import poly as P
from .absint import C, S, lin_add, lin_sub
from .engine import load, Broken
from .kern import bindkey
from .lab import Law, show
from .mem import blocks
from .rules import rule
from .rules_field import FieldLab, INST, K, Val, crossings, inrange, rdname, lin_scale
from .rules_par import exval, EXECS, compare

LA = "NeoFOAM::la::"
ARG = {"F": "double", "V": "NeoFOAM::Vector"}
NR, NZ = S("nRows"), S("nNonZeros")
ROWS1 = lin_add(NR, C(1))
PARTS = (("values", None, NZ, "a0"), ("colIdxs", "L", NZ, "c0"), ("rowPtrs", "L", ROWS1, "r0"))


class LaLab(FieldLab):
    def __init__(self, P_, rep):
        super().__init__(P_, rep)
        self.I.real |= {k for k in self.I.km if k.startswith(LA)}
        for q, h in (("mesh", "pmesh"), ("colIdxs", "c"), ("rowPtrs", "r")):
            self.I.km["nfprobe::ProbeSparsity::" + q] = self.at(h)
        self.I.km["nfprobe::ProbeMesh::exec"] = self.at("exec")
        self.I.km["nfprobe::ProbeSparsity::rows"] = self.const(NR)
        self.I.km["nfprobe::ProbeSparsity::nnz"] = self.const(NZ)

    def at(self, name):
        from .absint import N
        return lambda I, f, ob, a, st: N(("@", (("p", name), ())), st)

    def const(self, v):
        from .absint import N
        return lambda I, f, ob, a, st: N(v, st)

    def cls(self, base, k):
        return "%s%s<%s, unsigned int>" % (LA, base, ARG[k])

    def meth(self, base, k, name, n=0, const=None, ctor=None, cls=None):
        cr = cls or self.cls(base, k)
        r = [f for f in self.P.funcs.values() if f.cr == cr and (f.b is not None or f.implicit) and len(f.p) == n and
             (f.ctor == ctor if ctor is not None else f.n == name and not f.ctor) and (const is None or bool(f.const) == const)]
        if not r:
            raise Broken("%s::%s not found" % (cr, name))
        return sorted(r, key=lambda f: (f.implicit, f.u))[0]

    def parts(self, st, k, x, nr=NR, nz=NZ):
        """the three fields of a matrix on executor x"""
        r = []
        for name, kk, n in (("a", k, nz), ("c", "L", nz), ("r", "L", lin_add(nr, C(1)) if nr is not None else C(0))):
            (st, loc), = self.construct(st, name, kk, x, n)[:1]
            r.append(loc)
        return st, r

    def made(self, law, st, f, cr, name, *args):
        """the state after constructing an object of class cr at p:name"""
        st = st.clone()
        st.store[("p", name)] = ("rec", cr, (), None)
        loc = (("p", name), ())
        for o in law.run(st, f, loc, *args):
            if law.kind(o, "n", "construction") and self.errors(law, o, "construction"):
                for msg in crossings(self, o):
                    law.fail(o.st, "construction: " + msg)
                return o.st, loc
        return None, loc

    def matrix(self, law, k, x, name="m"):
        st = self.start(NR, NZ)
        st, ps = self.parts(st, k, x)
        return self.made(law, st, self.meth("CSRMatrix", k, None, 3, ctor=1), self.cls("CSRMatrix", k), name, *ps)

    def system(self, law, k, x):
        st, m = self.matrix(law, k, x)
        if st is None:
            return None, m
        (st, b), = self.construct(st, "b", k, x, NR)[:1]
        return self.made(law, st, self.meth("LinearSystem", k, None, 2, ctor=1), self.cls("LinearSystem", k), "ls", m, b)

    def through(self, st, o):
        """location of a returned object, by value or by reference"""
        st = o.st.clone()
        if o.v[0] == "@":
            return st, o.v[1]
        root = ("p", "#r%d" % self.I.fresh("r")[1])
        st.store[root] = o.v
        return st, (root, ())

    def one(self, law, st, f, this, *args):
        for o in law.run(st, f, this, *args):
            if law.kind(o, "n", f.n) and self.errors(law, o, f.n):
                for msg in crossings(self, o):
                    law.fail(o.st, "%s: %s" % (f.n, msg))
                return self.through(st, o)
        return None, None

    def holds(self, law, st, m, k, x, what, values=None, nr=NR, nz=NZ, arg=None):
        """the matrix at m has the given structure and values on executor x"""
        for const in (False, True):
            for name, kk, n, src in PARTS:
                kk = kk or k
                s, loc = self.one(law, st, self.meth("CSRMatrix", k, name, const=const, cls=arg), m)
                if s is None:
                    return False
                V = Val(self, law, kk)
                want = rdname(kk, src) if name != "values" or values is None else values
                V.field(s, loc, n, x, want, "%s: %s of the matrix" % (what, name))
        for name, want in (("nRows", nr), ("nNonZeros", nz)):
            for o in law.run(st, self.meth("CSRMatrix", k, name, cls=arg), m):
                if law.kind(o, "n", name):
                    law.val(o, want, "%s: %s" % (what, name))
        return not law.fails

    def sysholds(self, law, st, ls, k, x, what, values=None, rhs=None):
        for const in (False, True):
            s, m = self.one(law, st, self.meth("LinearSystem", k, "matrix", const=const), ls)
            if s is None or not self.holds(law, s, m, k, x, what, values):
                return False
            s, b = self.one(law, st, self.meth("LinearSystem", k, "rhs", const=const), ls)
            if s is None:
                return False
            Val(self, law, k).field(s, b, NR, x, rdname(k, "b0") if rhs is None else rhs, what + ": the right-hand side")
        return True

    def overwrite(self, law, st, loc, k):
        """the state after every element of the field was set to another value"""
        f = self.m(k, "operator=", [lambda t: "Field" not in t.s and "View" not in t.s])
        st = st.clone()
        v = S("other")
        if k == "V":
            v = self.obj(st, "other", ("vsym", "other"))
        return self.one(law, st, f, loc, v)[0]


def zero(k):
    return C(0)


@rule("C34")
def c34(rep):
    rep.rule("la-matrix", "a matrix holds its own copies of exactly the values, columns and row offsets it was given", 12)
    rep.rule("la-view", "views address exactly the stored values, columns, offsets and right-hand side", 4)
    rep.rule("la-entry", "entry(i, j) is the stored value of column j in row i, or the program ends", 10)
    rep.rule("la-copy", "copies and transfers have the same contents, are independent, and lie on the executor asked for", 10)
    rep.rule("la-reset", "reset() makes every value and right-hand side zero and leaves the structure alone", 3)
    rep.rule("la-empty", "createEmptyLinearSystem has the pattern's structure and only zeros", 3)
    rep.rule("la-spmv", "spmv() is the residual A x - b row by row", 2)
    rep.rule("la-convert", "convert() keeps structure and values", 2)
    L = LaLab(load("full"), rep)
    for k, xs in (("F", EXECS), ("V", ("CPUExecutor",))):
        for x in xs:
            tag = "%s on %s" % ({"F": "scalar", "V": "Vector"}[k], x)
            matrix(L, k, x, tag)
            system(L, k, x, tag)
            if k == "F":
                residual(L, x, tag)
                converted(L, x, tag)
        entries(L, k)


def matrix(L, k, x, tag):
    with Law(L, "la-matrix", tag + ": construction") as law:
        st, m = L.matrix(law, k, x)
        if st is not None:
            L.holds(law, st, m, k, x, "a matrix")
            for o in law.run(st, L.meth("CSRMatrix", k, "exec"), m):
                v = L.read(o.st, o.v)[0][0]
                if v[:2] != exval(x)[:2]:
                    law.fail(o.st, "exec() is %s" % show(v)[:80])
    with Law(L, "la-matrix", tag + ": without rows") as law:
        st, e = L.start(), None
        e = L.ex(st, "exec", x)
        st, m = L.made(law, st, L.meth("CSRMatrix", k, None, 1, ctor=1), L.cls("CSRMatrix", k), "m", e)
        if st is not None:
            for name in ("nRows", "nNonZeros"):
                for o in law.run(st, L.meth("CSRMatrix", k, name), m):
                    if law.kind(o, "n", name):
                        law.val(o, C(0), name + " of an empty matrix")
    for name, kk, n, src in PARTS:
        kk = kk or k
        with Law(L, "la-matrix", "%s: independence of its %s" % (tag, name)) as law:
            st, m = L.matrix(law, k, x)
            if st is None:
                continue
            s = L.overwrite(law, st, (("p", src[0]), ()), kk)
            if s is not None:
                L.holds(law, s, m, k, x, "after the field given was changed")
            s, loc = L.one(law, st, L.meth("CSRMatrix", k, name, const=False), m)
            s = s and L.overwrite(law, s, loc, kk)
            if s:
                Val(L, law, kk).untouched(s, (("p", src[0]), ()), n, x, src, "the field given, after the matrix was changed")
    for const in (False, True):
        with Law(L, "la-view", "%s: matrix view%s" % (tag, " of a constant" if const else "")) as law:
            st, m = L.matrix(law, k, x)
            s, v = L.one(law, st, L.meth("CSRMatrix", k, "view", const=const), m) if st else (None, None)
            if s:
                viewed(L, law, s, v, m, k)
    with Law(L, "la-copy", tag + ": the implicit copy of a matrix") as law:
        st, m = L.matrix(law, k, x)
        if st is not None:
            f = L.meth("CSRMatrix", k, None, 1, ctor=2)
            st, c = L.made(law, st, f, L.cls("CSRMatrix", k), "copy", m)
            if st is not None:
                L.holds(law, st, c, k, x, "the copy")
    for y in EXECS + ("host",):
        with Law(L, "la-copy", "%s: matrix to %s" % (tag, y)) as law:
            st, m = L.matrix(law, k, x)
            if st is None:
                continue
            if y == "host":
                s, c = L.one(law, st, L.meth("CSRMatrix", k, "copyToHost"), m)
            else:
                s, c = L.one(law, st, L.meth("CSRMatrix", k, "copyToExecutor", 1), m, exval(y))
            if s:
                L.holds(law, s, c, k, "SerialExecutor" if y == "host" else y, "the result")
                L.holds(law, s, m, k, x, "the original")


def viewed(L, law, st, v, m, k):
    """the view at v describes the fields of the matrix at m"""
    names = {"values": ("values", k, NZ), "colIdxs": ("colIdxs", "L", NZ), "rowOffs": ("rowPtrs", "L", ROWS1)}
    for fn, (acc, kk, n) in names.items():
        s, loc = L.one(law, st, L.meth("CSRMatrix", k, acc, const=False), m)
        if s is None:
            return
        spans(L, law, s, (v[0], v[1] + (("f", fn),)), loc, kk, n, "the view's " + fn)


def spans(L, law, st, vloc, floc, k, n, what):
    info = L.I.vinfo(L.I, vloc, st)
    A = L.block(st, floc, k)
    if info is None or A is None:
        law.unds.append(what + ": not understood")
        return
    if info[0] != A:
        law.fail(st, "%s: addresses other memory" % what)
    elif st.nz(info[1]) != C(0):
        law.fail(st, "%s: starts at element %s" % (what, show(info[1])[:60]))
    elif st.nz(info[2]) != n:
        law.fail(st, "%s: has %s elements, expected %s" % (what, show(info[2])[:60], show(n)))


def system(L, k, x, tag):
    with Law(L, "la-matrix", tag + ": linear system") as law:
        st, ls = L.system(law, k, x)
        if st is not None:
            L.sysholds(law, st, ls, k, x, "a system")
            for o in law.run(st, L.meth("LinearSystem", k, "exec"), ls):
                v = L.read(o.st, o.v)[0][0]
                if v[:2] != exval(x)[:2]:
                    law.fail(o.st, "exec() is %s" % show(v)[:80])
    with Law(L, "la-matrix", tag + ": empty linear system") as law:
        st = L.start()
        e = L.ex(st, "exec", x)
        st, ls = L.made(law, st, L.meth("LinearSystem", k, None, 1, ctor=1), L.cls("LinearSystem", k), "ls", e)
        s, b = L.one(law, st, L.meth("LinearSystem", k, "rhs", const=True), ls) if st else (None, None)
        if s:
            Val(L, law, k).field(s, b, C(0), x, None, "its right-hand side")
        s, m = L.one(law, st, L.meth("LinearSystem", k, "matrix", const=True), ls) if st else (None, None)
        if s:
            for name in ("nRows", "nNonZeros"):
                for o in law.run(s, L.meth("CSRMatrix", k, name), m):
                    if law.kind(o, "n", name):
                        law.val(o, C(0), name + " of its matrix")
    with Law(L, "la-copy", tag + ": copy of a linear system") as law:
        st, ls = L.system(law, k, x)
        if st is not None:
            st, c = L.made(law, st, L.meth("LinearSystem", k, None, 1, ctor=2), L.cls("LinearSystem", k), "copy", ls)
            if st is not None:
                L.sysholds(law, st, c, k, x, "the copy")
                s, b = L.one(law, st, L.meth("LinearSystem", k, "rhs", const=False), c)
                s = s and L.overwrite(law, s, b, k)
                if s:
                    L.sysholds(law, s, ls, k, x, "the original after the copy was changed")
    with Law(L, "la-copy", tag + ": linear system to the host") as law:
        st, ls = L.system(law, k, x)
        s, c = L.one(law, st, L.meth("LinearSystem", k, "copyToHost"), ls) if st else (None, None)
        if s:
            L.sysholds(law, s, c, k, "SerialExecutor", "the result")
            L.sysholds(law, s, ls, k, x, "the original")
    with Law(L, "la-reset", tag) as law:
        st, ls = L.system(law, k, x)
        if st is not None:
            f = L.meth("LinearSystem", k, "reset")
            law.f = f
            s, _ = L.one(law, st, f, ls)
            if s:
                L.sysholds(law, s, ls, k, x, "after reset", zero(k), zero(k))
    for const in (False, True):
        with Law(L, "la-view", "%s: system view%s" % (tag, " of a constant" if const else "")) as law:
            st, ls = L.system(law, k, x)
            if st is None:
                continue
            s, v = L.one(law, st, L.meth("LinearSystem", k, "view", const=const), ls)
            if s:
                s, m = L.one(law, s, L.meth("LinearSystem", k, "matrix", const=False), ls)
                viewed(L, law, s, (v[0], v[1] + (("f", "matrix"),)), m, k)
                s, b = L.one(law, s, L.meth("LinearSystem", k, "rhs", const=False), ls)
                spans(L, law, s, (v[0], v[1] + (("f", "rhs"),)), b, k, NR, "the view's rhs")
    f = [g for g in L.P.byq("nfprobe::empty" + {"F": "Scalar", "V": "Vector"}[k]) if g.b is not None][0]
    g = [g for g in L.P.byq(LA + "createEmptyLinearSystem") if g.b is not None]
    with Law(L, "la-empty", tag, g[0] if g else f) as law:
        st = L.start(NR, NZ)
        L.ex(st, "exec", x)
        st, ps = L.parts(st, k, x)
        L.obj(st, "sp")
        L.obj(st, "pmesh")
        s, ls = L.one(law, st, f, None, (("p", "sp"), ()))
        if s:
            L.sysholds(law, s, ls, k, x, "the system", zero(k), zero(k))
            Val(L, law, "L").untouched(s, ps[1], NZ, x, "c0", "the pattern's columns")
            Val(L, law, "L").untouched(s, ps[2], ROWS1, x, "r0", "the pattern's offsets")


def residual(L, x, tag):
    f = [g for g in L.P.byq("nfprobe::product") if g.b is not None][0]
    g = [g for g in L.P.byq(LA + "spmv") if g.b is not None]
    with Law(L, "la-spmv", tag, g[0] if g else f) as law:
        st, ls = L.system(law, "F", x)
        if st is None:
            return
        (st, xl), = L.construct(st, "x", "F", x, NR)[:1]
        s, r = L.one(law, st, f, None, ls, xl)
        if not s:
            return
        n, ex = L.size(s, r, "F"), L.exec(s, r, "F")
        law.same(s, n, NR, "size of the result")
        if ex != x:
            law.fail(s, "the result lies on %s" % ex)
        t = s.clone()
        inrange(L, t, C(0), K, NR)
        got = L.elem(t, r, "F", K)
        lo, hi = ("rd", S("r0"), K), ("rd", S("r0"), lin_add(K, C(1)))
        n = lin_sub(hi, lo)
        key = ("eidx", ("range", n), ("n", 0))
        at = lin_add(lo, key)
        exp = P.sub(L.I.bigsum(n, key, P.mul(("rd", S("a0"), at), ("rd", S("x0"), ("rd", S("c0"), at)))), ("rd", S("b0"), K))
        compare(law, t, got, exp, "row k of the result")
        L.sysholds(law, s, ls, "F", x, "the system afterwards")
        Val(L, law, "F").untouched(s, xl, NR, x, "x0", "x afterwards")


def converted(L, x, tag):
    f = [g for g in L.P.byq("nfprobe::converted") if g.b is not None][0]
    g = [g for g in L.P.byq(LA + "convert") if g.b is not None]
    with Law(L, "la-convert", tag, g[0] if g else f) as law:
        st, m = L.matrix(law, "F", x)
        if st is None:
            return
        e = L.ex(st, "exec", x)
        s, r = L.one(law, st, f, None, e, m)
        if not s:
            return
        cls = LA + "CSRMatrix<double, int>"
        for name, kk, n, src in PARTS:
            kk = "F" if kk is None else "I"
            t, loc = L.one(law, s, L.meth("CSRMatrix", "F", name, const=False, cls=cls), r)
            if t:
                Val(L, law, kk).field(t, loc, n, x, rdname(kk, src), name + " of the result")
        L.holds(law, s, m, "F", x, "the original")


def entries(L, k):
    """entry() on rows of 0 to 4 columns and every place the wanted column can take among them"""
    tag = {"F": "scalar", "V": "Vector"}[k]
    for const in (False, True):
        cr = L.cls("CSRMatrixView", k)
        if const:
            cr = cr.replace(ARG[k], "const " + ARG[k]).replace("unsigned", "const unsigned")
        try:
            f2, f1 = L.meth(None, k, "entry", 2, cls=cr), L.meth(None, k, "entry", 1, cls=cr)
        except Broken:
            continue
        for width in range(5):
            for place in range(2 * width + 1):
                at = "row of %d, %s" % (width, "column %d" % (place // 2) if place % 2 else "between columns (%d)" % (place // 2))
                with Law(L, "la-entry", "%s%s: %s" % (tag, " constant" if const else "", at), f2) as law:
                    st, v, A = entryview(L, law, k, const)
                    if st is None:
                        continue
                    r0 = L.I.vinfo(L.I, (v[0], v[1] + (("f", "rowOffs"),)), st)[0]
                    L.I.setcontent(r0, ("map", C(0), ROWS1, 1, lin_scale(("bk", 1), width), ("uninit",)), st)
                    row = S("row")
                    inrange(L, st, C(0), row, NR)
                    first = lin_scale(row, width)
                    cols = [("rd", S("c0"), lin_add(first, C(q))) for q in range(width)]
                    j = cols[place // 2] if place % 2 else S("col")
                    order(st, cols, j, place)
                    for o in law.run(st, f2, v, row, j):
                        if place % 2 == 0:
                            law.kind(o, "x", "a column the row does not have")
                            continue
                        if not law.kind(o, "n", "a column the row has"):
                            continue
                        where = ("@", (("arr", A, k), (("i", lin_add(first, C(place // 2))),)))
                        if o.v != where:
                            law.fail(o.st, "entry refers to %s, expected %s" % (show(o.v)[:120], show(where)[:120]), o.v)
        with Law(L, "la-entry", "%s%s: by offset" % (tag, " constant" if const else ""), f1) as law:
            st, v, A = entryview(L, law, k, const)
            if st is not None:
                inrange(L, st, C(0), S("offset"), NZ)
                for o in law.run(st, f1, v, S("offset")):
                    if law.kind(o, "n", "entry(offset)") and o.v != ("@", (("arr", A, k), (("i", S("offset")),))):
                        law.fail(o.st, "entry(offset) refers to %s" % show(o.v)[:120], o.v)


def entryview(L, law, k, const):
    st, m = L.matrix(law, k, "SerialExecutor")
    if st is None:
        return None, None, None
    st, v = L.one(law, st, L.meth("CSRMatrix", k, "view", const=const), m)
    if not st:
        return None, None, None
    return st, v, L.I.vinfo(L.I, (v[0], v[1] + (("f", "values"),)), st)[0]


def order(st, cols, j, place):
    """columns ascend; j is column place/2, or lies before it"""
    def less(a, b):
        d = lin_sub(b, a)
        for t, v in ((d, True), (lin_add(d, C(1)), True), (lin_sub(a, b), False), (lin_add(lin_sub(a, b), C(1)), False)):
            st.facts[("pos", t)] = v
        for x, y in ((a, b), (b, a)):
            st.facts[("eq", x, y)] = False
    for p in range(len(cols)):
        for q in range(p + 1, len(cols)):
            less(cols[p], cols[q])
        if place % 2 == 0:
            if p < place // 2:
                less(cols[p], j)
            else:
                less(j, cols[p])
