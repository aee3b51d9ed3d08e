"""Segmented fields (C39)."""
from . import poly as P
from .absint import C, S, lin_add, lin_sub
from .engine import load, Broken
from .lab import Law, show
from .rules import rule
from .rules_field import INST, K, Val, crossings, inrange, rdname
from .rules_la import LaLab
from .rules_par import EXECS

SEG = "NeoFOAM::SegmentedField"
CR = SEG + "<int, unsigned int>"
VR = SEG + "View<int, unsigned int>"
N_ = S("n")          # segments
M_ = S("m")          # values
TOTAL = ("prefix", 1, ("rd", S("w0"), ("bk", 1)), N_)


class SegLab(LaLab):
    def __init__(self, P_, rep):
        super().__init__(P_, rep)
        self.I.real |= {k for k in self.I.km if k.startswith(SEG)} | {"NeoFOAM::segmentsFromIntervals"}

    def sm(self, name, n=0, ctor=None, const=None):
        return self.meth(None, None, name, n, const=const, ctor=ctor, cls=CR)

    def vm(self, name, n=1):
        return self.meth(None, None, name, n, cls=VR)


def runs(id_):
    """sum of the interval lengths before index id_"""
    return ("prefix", 2, ("rd", S("w0"), ("bk", 2)), id_)


def offset(i):
    """offset i >= 1: the lengths of the segments before it"""
    j = lin_sub(i, C(1))
    return lin_add(runs(j), ("rd", S("w0"), j))


@rule("C39")
def c39(rep):
    rep.rule("seg-build", "a segmented field has exactly the segments and values it was built for", 9)
    rep.rule("seg-offsets", "segmentsFromIntervals turns lengths into offsets, and returns their sum", 5)
    rep.rule("seg-view", "segment i is the half-open range from offset i to offset i + 1, in every form of access", 6)
    L = SegLab(load("full"), rep)
    for x in EXECS:
        sized(L, x)
        intervals(L, x)
        parts(L, x)
    views(L)


def outcomes(L, law, st, f, this, *args):
    for o in law.run(st, f, this, *args):
        if law.kind(o, "n", f.n) and L.errors(law, o, f.n):
            for msg in crossings(L, o):
                law.fail(o.st, "%s: %s" % (f.n, msg))
            yield o


def built(L, law, st, f, *args):
    st = st.clone()
    st.store[("p", "sf")] = ("rec", CR, (), None)
    for o in outcomes(L, law, st, f, (("p", "sf"), ()), *args):
        yield o.st, (("p", "sf"), ())


def whole(L, law, st, sf, x, segs, values, what):
    """sizes, executor and number of segments; yields the two fields"""
    r = []
    for name, k, n in (("values", "I", values), ("segments", "L", lin_add(segs, C(1)))):
        s, loc = L.one(law, st, L.sm(name, const=True), sf)
        if s is None:
            return None
        law.same(s, L.size(s, loc, k), n, "%s: number of %s" % (what, name))
        if L.exec(s, loc, k) != x:
            law.fail(s, "%s: the %s lie on %s" % (what, name, L.exec(s, loc, k)))
        r.append((s, loc))
    for name, want in (("size", values), ("numSegments", segs)):
        for o in outcomes(L, law, st, L.sm(name), sf):
            law.val(o, want, "%s: %s()" % (what, name))
    for o in outcomes(L, law, st, L.sm("exec"), sf):
        v = L.read(o.st, o.v)[0][0]
        if v[1] != "NeoFOAM::" + x:
            law.fail(o.st, "%s: exec() is %s" % (what, show(v)[:60]))
    return r


def sized(L, x):
    f = L.sm(None, 3, ctor=1)
    for lab, n, m in (("", N_, M_), (", nothing", C(0), C(0)), (", empty segments", N_, C(0))):
        with Law(L, "seg-build", "%s: of given sizes%s" % (x, lab), f) as law:
            st = L.start(N_, M_)
            e = L.ex(st, "exec", x)
            for s, sf in built(L, law, st, f, e, m, n):
                whole(L, law, s, sf, x, n, m, "a field of m values in n segments")


def lengths(L, x, n, total=None):
    st = L.start(N_)
    (st, w), = L.construct(st, "w", "L", x, n)[:1]
    if n == N_:
        z = total is None
        if not z:
            L.positive(st, TOTAL)
        else:
            st.facts[("pos", TOTAL)] = False
            st.facts[("eq", C(0), TOTAL)] = True
    return st, w


def checked(L, law, st, loc, n, first, what):
    """the offsets at loc: first, then the running sums"""
    if first is not None:
        got = L.elem(st, loc, "L", C(0))
        if got is None:
            law.unds.append(what + ": offsets not known")
            return
        Val(L, law, "L").value(st, got, first, what + ": offset 0")
    if n == C(0):
        return
    s = st.clone()
    inrange(L, s, C(1), K, lin_add(n, C(1)))
    inrange(L, s, C(0), K, lin_add(n, C(1)))
    s.facts[("pos", K)] = True
    s.facts[("pos", lin_sub(N_, lin_sub(K, C(1))))] = True
    got = L.elem(s, loc, "L", K)
    if got is None:
        law.unds.append(what + ": offsets not known")
        return
    Val(L, law, "L").value(s, got, offset(K), what + ": offset k >= 1")


def intervals(L, x):
    f = L.sm(None, 1, ctor=1)
    for lab, n, total in (("", N_, True), (", all empty", N_, None), (", none", C(0), None)):
        with Law(L, "seg-build", "%s: from lengths%s" % (x, lab), f) as law:
            st, w = lengths(L, x, n, total)
            for s, sf in built(L, law, st, f, w):
                r = whole(L, law, s, sf, x, n, TOTAL if total else C(0), "a field of given lengths")
                if r is not None:
                    checked(L, law, r[1][0], r[1][1], n, C(0), "a field of given lengths")
                Val(L, law, "L").untouched(s, w, n, x, "w0", "the lengths")
    g = [h for h in L.P.byq("NeoFOAM::segmentsFromIntervals") if h.b is not None]
    if not g:
        raise Broken("segmentsFromIntervals not found")
    for lab, n in (("", N_), (", none", C(0))):
        with Law(L, "seg-offsets", x + lab, g[0]) as law:
            st, w = lengths(L, x, n, True)
            (st, off), = L.construct(st, "o", "L", x, lin_add(n, C(1)))[:1]
            for o in outcomes(L, law, st, g[0], None, w, off):
                law.val(o, TOTAL if n == N_ else C(0), "the sum returned")
                law.same(o.st, L.size(o.st, off, "L"), lin_add(n, C(1)), "number of offsets")
                checked(L, law, o.st, off, n, ("rd", S("o0"), C(0)), "the offsets")
                Val(L, law, "L").untouched(o.st, w, n, x, "w0", "the lengths")


def given(L, x):
    st = L.start(N_, M_)
    (st, v), = L.construct(st, "v", "I", x, M_)[:1]
    (st, s), = L.construct(st, "s", "L", x, lin_add(N_, C(1)))[:1]
    return st, v, s


def parts(L, x):
    f = L.sm(None, 2, ctor=1)
    with Law(L, "seg-build", x + ": from values and offsets", f) as law:
        st, v, g = given(L, x)
        for s, sf in built(L, law, st, f, v, g):
            r = whole(L, law, s, sf, x, N_, M_, "a field of given parts")
            if r is None:
                continue
            Val(L, law, "I").field(r[0][0], r[0][1], M_, x, rdname("I", "v0"), "its values")
            Val(L, law, "L").field(r[1][0], r[1][1], lin_add(N_, C(1)), x, rdname("L", "s0"), "its offsets")
            t = L.overwrite(law, s, v, "I")
            if t is not None:
                t2, loc = L.one(law, t, L.sm("values", const=True), sf)
                if t2 is not None:
                    Val(L, law, "I").field(t2, loc, M_, x, rdname("I", "v0"), "its values after the field given was changed")


def views(L):
    f = L.sm(None, 2, ctor=1)
    lo, hi = ("rd", S("s0"), K), ("rd", S("s0"), lin_add(K, C(1)))

    def base(law):
        st, v, g = given(L, "SerialExecutor")
        for s, sf in built(L, law, st, f, v, g):
            blocks = []
            for name, k in (("values", "I"), ("segments", "L")):
                t, loc = L.one(law, s, L.sm(name, const=True), sf)
                if t is None:
                    return
                blocks.append(L.block(t, loc, k))
            inrange(L, s, C(0), K, N_)
            yield s, sf, blocks

    def viewof(law, s, sf):
        for o in outcomes(L, law, s, L.sm("view"), sf):
            o.st.store[("p", "view")] = o.v
            yield o.st, (("p", "view"), ())

    def memory(law, st, loc, A, off, n, what):
        info = L.I.vinfo(L.I, loc, st)
        if info is None:
            law.unds.append(what + ": not understood")
        elif info[0] != A:
            law.fail(st, what + ": addresses other memory")
        elif not P.iszero(P.sub(st.nz(info[1]), off)):
            law.fail(st, "%s: starts at %s, expected %s" % (what, show(info[1])[:80], show(off)[:80]), info[1])
        elif not P.iszero(P.sub(st.nz(info[2]), n)):
            law.fail(st, "%s: has %s elements, expected %s" % (what, show(info[2])[:80], show(n)[:80]), info[2])

    def pairof(law, st, v, a, b, what):
        from . import absint
        got = [absint.rec_get(v, n) for n in ("first", "second")] if v[0] == "rec" else [None, None]
        for g, w, t in zip(got, (a, b), ("first", "second")):
            if g is None:
                law.unds.append(what + " not understood")
            elif not P.iszero(P.sub(st.nz(g), w)):
                law.fail(st, "%s: %s is %s, expected %s" % (what, t, show(g)[:80], show(w)[:80]), g)

    with Law(L, "seg-view", "view()", L.sm("view")) as law:
        for s, sf, (A, B) in base(law):
            for t, w in viewof(law, s, sf):
                memory(law, t, (w[0], (("f", "values"),)), A, C(0), M_, "the view's values")
                memory(law, t, (w[0], (("f", "segments"),)), B, C(0), lin_add(N_, C(1)), "the view's segments")
    with Law(L, "seg-view", "spans()", L.sm("spans")) as law:
        for s, sf, (A, B) in base(law):
            for o in outcomes(L, law, s, L.sm("spans"), sf):
                o.st.store[("p", "two")] = o.v
                memory(law, o.st, (("p", "two"), (("f", "first"),)), A, C(0), M_, "the values")
                memory(law, o.st, (("p", "two"), (("f", "second"),)), B, C(0), lin_add(N_, C(1)), "the segments")
    for name, a, b in (("bounds", lo, hi), ("range", lo, lin_sub(hi, lo))):
        with Law(L, "seg-view", name, L.vm(name)) as law:
            for s, sf, _ in base(law):
                for t, w in viewof(law, s, sf):
                    for o in outcomes(L, law, t, L.vm(name), w, K):
                        pairof(law, o.st, L.read(o.st, o.v)[0][0], a, b, name + "(k)")
    with Law(L, "seg-view", "span", L.vm("span")) as law:
        for s, sf, (A, B) in base(law):
            for t, w in viewof(law, s, sf):
                for o in outcomes(L, law, t, L.vm("span"), w, K):
                    o.st.store[("p", "part")] = o.v
                    memory(law, o.st, (("p", "part"), ()), A, lo, lin_sub(hi, lo), "span(k)")
    with Law(L, "seg-view", "operator[]", L.vm("operator[]")) as law:
        for s, sf, _ in base(law):
            for t, w in viewof(law, s, sf):
                for o in outcomes(L, law, t, L.vm("operator[]"), w, K):
                    for v, u in L.read(o.st, o.v):
                        Val(L, law, "L").value(u, v, lo, "operator[](k)")
