"""Finite-volume operators, boundary conditions and geometry: what the kernels compute, for every mesh."""
from .absint import C, S, St, N, Out, lin_add, lin_sub, lin_parts, has_unk, VOID, bind
from .engine import load, Broken
from .fv import World, FV, BK, fld, subst
from .kern import LOG
from .lab import Law, show, Fail, path_text
from .rules import rule
from . import poly as P

c = S("c")
fsym = S("f")
KINDS = (("F", "scalar"), ("V", "Vector"))


class Case:
    """one function run on abstract arguments"""
    def __init__(self, label, W, f, outs, checks, group, st0=None):
        self.label, self.W, self.f, self.outs, self.checks, self.group = label, W, f, outs, checks, group


def prog():
    return load("full")


def world(rep):
    W = World(prog(), rep)
    I = W.I

    # the per-cell value of a coefficient is judged on its own; here it is one value per cell
    def coef(I_, f, ob, a, st):
        o = I_.rd(ob, st)
        base = st.nz(o[0].v)
        if base[0] == "rec" and base[3] is None and dict(base[2]).get("hasView_") == C(False):
            return None         # made here from one number: its own indexing tells
        return bind(I_.val(a[0], st), lambda i, s: N(("rd", ("fld", base, "#coef"), s.nz(i)), s))
    I.km["NeoFOAM::dsl::Coeff::operator[]"] = coef

    def bcs(I_, f, ob, a, st):
        return N(S("calculatedBCs"), st)
    I.km[FV + "createCalculatedBCs"] = bcs

    def spacc(name, n):
        def h(I_, f, ob, a, st):
            W.raw(st, name, n)
            return N(("@", (("p", name), ())), st)
        return h
    SP = FV + "SparsityPattern::"
    I.km[SP + "ownerOffset"] = spacc("ownerOffset", W.NI)
    I.km[SP + "neighbourOffset"] = spacc("neighbourOffset", W.NI)
    I.km[SP + "diagOffset"] = spacc("diagOffset", W.NC)

    def roc(I_, f, ob, a, st):
        return N(S("sparsity"), st)
    I.km[SP + "readOrCreate"] = roc

    def gsacc(name):
        def h(I_, f, ob, a, st):
            return N(("@", W.field(st, name, "surf")), st)
        return h
    for n in ("weights", "deltaCoeffs", "nonOrthDeltaCoeffs"):
        I.km[FV + "GeometryScheme::" + n] = gsacc(n)

    # virtual calls on scheme objects: the values they deliver are arbitrary functions
    def deliver(sym):
        def h(I_, e, f, ob, a, st):
            loc = I_.loc_of(a[-1], st)
            for k in "FV":
                A = W.acc(st, loc, "GeometricFieldMixin", "internalField", k)
                if A is not None:
                    break
            if A is None:
                return None
            A = I_.finfo(I_, A, st)[0]
            I_.setcontent(A, ("of", S(sym), ("a0",), C(0)), st)
            st.event("delivered", sym, tuple(a), A)
            return [Out("n", VOID, st)]
        return h
    I.vresult["interpolate"] = deliver("PHIF")
    I.vresult["faceNormalGrad"] = deliver("SNGRAD")

    def dcoef(I_, e, f, ob, a, st):
        return [Out("n", ("@", W.field(st, "deltaCoeffs", "surf")), st)]
    I.vresult["deltaCoeffs"] = dcoef
    return W


def coefat(i, obj=S("coeff")):
    return ("rd", ("fld", obj, "#coef"), i)


def interior(W, st):
    """facts of a cell index c and an internal face f"""
    st.facts[("pos", lin_sub(W.NC, c))] = True
    return st


def gauss(W, st, k, flux_own, flux_nei, flux_bnd, scale):
    """scale * (sum_own flux - sum_nei flux + sum_boundary flux) at cell c"""
    t = W.scat(W.NI, W.at("faceOwner", BK), flux_own, c, k, st)
    t = P.sub(t, W.scat(W.NI, W.at("faceNeighbour", BK), flux_nei, c, k, st))
    t = P.add(t, W.scat(W.NB, W.at("faceCells", BK), flux_bnd, c, k, st))
    return P.mul(t, scale)


def resfield(W, o, k):
    """array of the internal field of a returned field"""
    st = o.st
    if o.v[0] == "@":
        loc = o.v[1]
    else:
        st.store[("p", "#result")] = st.nz(o.v)
        loc = (("p", "#result"), ())
    return W.accarr(st, loc, ("GeometricFieldMixin", "internalField"), k=k)


def setup(rep, k, dest):
    W = world(rep)
    st = interior(W, W.start())
    W.field(st, "phi", "vol")
    W.field(st, "flux", "surf")
    if dest == "vol":
        r = W.field(st, "res", "vol")
        A = W.intern("res")
        W.zero(A, st)
    elif dest == "raw":
        r = W.raw(st, "res", W.NC)
        A = S("res")
        W.zero(A, st)
    else:
        r, A = None, None
    return W, st, r, A


def loc(name):
    return (("p", name), ())


def tname(f, i):
    return f.p[i]["t"].s


def destof(f):
    """kind of destination of the first parameter"""
    t = tname(f, 0)
    if "LinearSystem" in t:
        return "ls"
    if "VolumeField" in t:
        return "vol"
    if "SurfaceField" in t:
        return None
    return "raw"


# ------------------------------------------------------------------ explicit operators
def explicit_cases(rep):
    W0 = world(rep)
    out = []
    for k, kn in KINDS:
        for f in W0.pick("GaussGreenDiv", "div", k=k):
            d = destof(f) if len(f.p) == 4 else "ret"
            if d not in ("vol", "raw", "ret"):
                continue
            W, st, r, A = setup(rep, k, d)
            op = W.obj(st, "op")
            args = ([r] if r else []) + [loc("flux"), loc("phi"), S("coeff")]
            F, ph = W.at(W.intern("flux"), BK), W.at(S("PHIF"), BK, k)
            b = lin_add(BK, W.NI)
            want = gauss(W, st, k, P.mul(F, ph), P.mul(F, ph), P.mul(W.at(W.intern("flux"), b), W.at(S("PHIF"), b, k)),
                         P.div(coefat(c), W.at("cellVolumes", c)))
            label = "GaussGreenDiv<%s>::div into %s" % (kn, {"vol": "a VolumeField", "raw": "a Field", "ret": "a new field"}[d])
            out.append(Case(label, W, f, lambda W=W, f=f, st=st, op=op, args=args: W.call(st, f, op, *args),
                            [("cell value", A if A is not None else "ret", c, k, want)], "div"))
    for f in W0.pick("GaussGreenGrad", "grad"):
        d = "vol" if len(f.p) == 2 else "ret"
        W, st, r, A = setup(rep, "V", d)
        op = W.obj(st, "op")
        args = [loc("phi")] + ([r] if r else [])
        Sf, ph = W.at("faceAreas", BK, "V"), W.at(S("PHIF"), BK)
        b = lin_add(BK, W.NI)
        want = gauss(W, st, "V", P.mul(ph, Sf), P.mul(ph, Sf), P.mul(W.at(S("PHIF"), b), W.at("faceAreas", b, "V")),
                     P.div(P.const(1), W.at("cellVolumes", c)))
        out.append(Case("GaussGreenGrad::grad into %s" % ("a VolumeField" if r else "a new field"), W, f,
                        lambda W=W, f=f, st=st, op=op, args=args: W.call(st, f, op, *args),
                        [("cell value", A if A is not None else "ret", c, "V", want)], "grad"))
    for k, kn in KINDS:
        for f in W0.pick("GaussGreenLaplacian", "laplacian", k=k):
            d = destof(f)
            if d not in ("vol", "raw"):
                continue
            W, st, r, A = setup(rep, k, d)
            W.field(st, "gamma", "surf")
            op = W.obj(st, "op")
            sn = W.at(S("SNGRAD"), BK, k)
            b = lin_add(BK, W.NI)
            gam = lambda x, W=W: W.at(W.intern("gamma"), x)     # noqa: E731
            w1 = P.mul(P.mul(W.at("magFaceAreas", BK), gam(BK)), sn)
            w2 = P.mul(P.mul(W.at("magFaceAreas", b), gam(b)), W.at(S("SNGRAD"), b, k))
            want = gauss(W, st, k, w1, w1, w2, P.div(coefat(c), W.at("cellVolumes", c)))
            out.append(Case("GaussGreenLaplacian<%s>::laplacian into %s" % (kn, "a VolumeField" if d == "vol" else "a Field"),
                            W, f, lambda W=W, f=f, st=st, op=op, r=r: W.call(st, f, op, r, loc("gamma"), loc("phi"), S("coeff")),
                            [("cell value", A, c, k, want)], "laplacian"))
    for k, kn in KINDS:
        for f in W0.pick("SurfaceIntegrate", "explicitOperation", k=k):
            W, st, r, A = setup(rep, k, "raw")
            W.I.setcontent(A, ("a0",), st)
            out.append(operator_case(W, st, "SurfaceIntegrate", k, kn, f, [loc("flux")], lambda W, st, co, k=k: P.add(
                W.at(S("res"), c, k),
                gauss(W, st, k, W.at(W.intern("flux"), BK, k), W.at(W.intern("flux"), BK, k),
                      W.at(W.intern("flux"), lin_add(BK, W.NI), k), P.div(co, W.at("cellVolumes", c)))), [loc("res")], A, "surfaceIntegrate"))
        for f in W0.pick("SourceTerm", "explicitOperation", k=k):
            W, st, r, A = setup(rep, k, "raw")
            W.I.setcontent(A, ("a0",), st)
            W.field(st, "sp", "vol")
            out.append(operator_case(W, st, "SourceTerm", k, kn, f, [("enum", "Implicit"), loc("sp"), loc("phi")], lambda W, st, co, k=k: P.add(
                W.at(S("res"), c, k), P.mul(P.mul(co, W.at(W.intern("sp"), c)), W.at(W.intern("phi"), c, k))), [loc("res")], A, "source"))
        for f in W0.pick("DdtOperator", "explicitOperation", k=k):
            W, st, r, A = setup(rep, k, "raw")
            W.I.setcontent(A, ("a0",), st)
            oldtime(W, st)
            out.append(operator_case(W, st, "DdtOperator", k, kn, f, [("enum", 0), loc("phi")], lambda W, st, co, k=k: P.add(
                W.at(S("res"), c, k), P.mul(P.div(P.mul(co, W.at("cellVolumes", c)), S("dt")),
                                            P.sub(W.at(W.intern("phi"), c, k), W.at(W.intern("old"), c, k)))),
                [loc("res"), S("t"), S("dt")], A, "ddt"))
    # an operator with a Gauss scheme behind it
    for cls, meth, impl, w in (("DivOperator", "div", "GaussGreenDiv", "flux"), ("LaplacianOperator", "laplacian", "GaussGreenLaplacian", "gamma")):
        for k, kn in KINDS:
            for f in W0.pick(cls, "explicitOperation", k=k):
                W, st, r, A = setup(rep, k, "raw")
                W.I.setcontent(A, ("a0",), st)
                W.field(st, w, "surf")
                scheme = W.obj(st, "scheme")
                st.store[("p", "#up")] = ("uptr", ("ptr", scheme))
                W.I.vresult[meth] = through(W, impl, meth, k, scheme)

                def want(W, st, co, k=k, cls=cls, w=w):
                    q = lin_add(BK, W.NI)
                    if cls == "DivOperator":
                        x, y = (P.mul(W.at(W.intern(w), i), W.at(S("PHIF"), i, k)) for i in (BK, q))
                    else:
                        x, y = (P.mul(P.mul(W.at("magFaceAreas", i), W.at(W.intern(w), i)), W.at(S("SNGRAD"), i, k)) for i in (BK, q))
                    return P.add(W.at(S("res"), c, k), gauss(W, st, k, x, x, y, P.div(co, W.at("cellVolumes", c))))
                out.append(operator_case(W, st, cls, k, kn, f, [("enum", 0), loc(w), loc("phi"), loc("#up")], want, [loc("res")], A, meth,
                                         sel=lambda g: "unique_ptr" in tname(g, 3)))
    return [x for x in out if x]


def through(W, impl, meth, k, scheme):
    """a virtual call on the scheme runs the Gauss implementation that takes this kind of destination"""
    def h(I_, e, f, ob, a, st):
        if a[0][0] != "@":
            return None
        v = st.nz(I_.rd(a[0][1], st)[0].v)
        cls = v[1] if v[0] == "rec" and isinstance(v[1], str) else ""
        d = "ls" if "LinearSystem" in cls else "raw" if cls.startswith("NeoFOAM::Field") else "vol" if "VolumeField" in cls else None
        gs = [g for g in W.pick(impl, meth, k=k) if len(g.p) == len(a) and destof(g) == d]
        return I_.enter(gs[0], scheme, tuple(a), st) if len(gs) == 1 else None
    return h


def operator_case(W, st, cls, k, kn, f, cargs, want, args, A, group, idx=None, sel=None):
    """operator object built by its own constructor, then run; the coefficient is the operator's"""
    ct = W.one(cls, "#ctor", n=len(cargs), k=k, where=lambda g: g.ctor == 1 and (len(g.p) < 1 or cls not in tname(g, 0)) and (sel is None or sel(g)))
    if ct is None:
        return None
    op = loc("op")
    st.store[op[0]] = ("rec", ct.c if isinstance(ct.c, str) else cls, (), None)
    ca = [S("optype") if isinstance(x[0], str) and x[0] == "enum" else x for x in cargs]

    def go():
        res = []
        for o in W.call(st, ct, op, *ca):
            if o.k != "n":
                res.append(o)
                continue
            # any coefficient, not just the one a new operator has
            l = coefloc(o)
            for s in [x.st for x in W.I.wr(l, S("cf"), o.st)] if l is not None else [o.st]:
                res += W.call(s, f, op, *args)
        return res

    def coefloc(o):
        # the coefficient of the operator, as its accessor gives it
        return W.acc(o.st, op, cls, "getCoefficient", k) or W.acc(o.st, op, "OperatorMixin", "getCoefficient", k)

    def coefterm(o):
        return coefat(c, S("cf")) if coefloc(o) is not None else None

    def mk(o):
        co = coefterm(o)
        return want(W, o.st, co) if co is not None else None
    r = Case("%s<%s>::%s" % (cls, kn, f.n), W, f, go, [("cell value", A, idx or c, k, mk)], group)
    r.made = ("%s<%s>" % (cls, kn), ct, lambda: W.call(st.clone(), ct, op, *ca), coefloc)
    return r


def units(rep, cases):
    """a new operator's coefficient is one"""
    seen = set()
    for x in cases:
        if getattr(x, "made", None) is None or x.made[0] in seen:
            continue
        label, ct, make, coefloc = x.made
        seen.add(label)
        W = x.W
        with Law(W, "op-unit", label, ct) as L:
            outs = make()
            L.npaths += max(1, len(outs))
            for o in outs:
                if o.k != "n":
                    continue
                l = coefloc(o)
                fs = [f for f in W.pick("Coeff", "operator[]", n=1)]
                if l is None or not fs:
                    L.unds.append("the coefficient cannot be located")
                    continue
                for v in W.I.enter(fs[0], l, (c,), o.st.clone()):
                    if v.k == "n":
                        cmpval(W, L, v.st, W.I.val(v.v, v.st)[0].v, C(1), "the coefficient")


# ------------------------------------------------------------------ implicit operators
slot = S("slot")


class LS:
    """a linear system of unknown contents and the arrays behind it"""
    def __init__(self, W, st, k):
        self.W = W
        self.loc = W.obj(st, "ls")
        self.rhs = W.accarr(st, self.loc, ("LinearSystem", "rhs"), k=k)
        self.values = W.accarr(st, self.loc, ("LinearSystem", "matrix"), ("CSRMatrix", "values"), k=k)
        self.rowPtrs = self.rowptr(W, st, k)
        if None in (self.rhs, self.values, self.rowPtrs):
            raise Fail("the parts of the linear system cannot be located")
        W.extra[self.rhs] = W.NC
        W.extra[self.rowPtrs] = lin_add(W.NC, C(1))
        W.extra[self.values] = S("nnz")

    def rowptr(self, W, st, k):
        A = W.accarr(st, self.loc, ("LinearSystem", "matrix"), ("CSRMatrix", "rowPtrs"), k=k)
        if A is not None:
            return A
        # no accessor instantiated: the third array of the matrix view
        m = W.acc(st, self.loc, "LinearSystem", "matrix", k)
        for f in W.pick("CSRMatrix", "view", n=0, k=k):
            for o in W.I.enter(f, m, (), st.clone()):
                if o.k != "n":
                    continue
                v = o.st.nz(o.v)
                if v[0] != "rec":
                    continue
                arrs = {}
                for nme, x in v[2]:
                    if isinstance(x, tuple) and x[0] == "rec":
                        d = dict(x[2])
                        if "#arr" in d:
                            arrs[nme] = d["#arr"]
                for nme, A in arrs.items():
                    if nme.startswith("row"):
                        return A
        return None


def ls_setup(rep, k):
    W = world(rep)
    st = interior(W, W.start())
    W.field(st, "phi", "vol")
    W.field(st, "flux", "surf")
    ls = LS(W, st, k)
    for n, z in (("ownerOffset", W.NI), ("neighbourOffset", W.NI), ("diagOffset", W.NC)):
        W.raw(st, n, z)
    W.field(st, "deltaCoeffs", "surf")
    return W, st, ls


def one_(k):
    return P.ones() if k == "V" else P.const(1)


def implicit_cases(rep):
    W0 = world(rep)
    out = []

    def system(W, st, ls, k, own_off, own_diag, nei_off, nei_diag, bdiag, brhs, rhs0=None):
        """contents of matrix and right-hand side: the given entries of each face row added"""
        def row(cell, off):
            return lin_add(("rd", ls.rowPtrs, cell), off)
        own, nei = W.at("faceOwner", BK), W.at("faceNeighbour", BK)
        fc = W.at("faceCells", BK)
        do = lambda x: ("rd", S("diagOffset"), x)      # noqa: E731
        v = W.at(ls.values, slot, k)
        u = one_(k)
        for n, ix, val in ((W.NI, row(own, ("rd", S("ownerOffset"), BK)), own_off), (W.NI, row(own, do(own)), own_diag),
                           (W.NI, row(nei, ("rd", S("neighbourOffset"), BK)), nei_off), (W.NI, row(nei, do(nei)), nei_diag),
                           (W.NB, row(fc, do(fc)), bdiag)):
            v = P.add(v, W.scat(n, ix, P.mul(val, u), slot, k, st))
        r = P.add(W.at(ls.rhs, c, k), W.scat(W.NB, fc, brhs, c, k, st))
        return v, r

    for k, kn in KINDS:
        for f in W0.pick("GaussGreenDiv", "div", k=k):
            if len(f.p) != 4 or destof(f) != "ls":
                continue
            W, st, ls = ls_setup(rep, k)
            op = W.obj(st, "op")
            F = W.at(W.intern("flux"), BK)
            own, nei, fc = W.at("faceOwner", BK), W.at("faceNeighbour", BK), W.at("faceCells", BK)
            so, sn, sb = coefat(own), coefat(nei), coefat(fc)
            w = upw(F)
            Fb = W.at(W.intern("flux"), lin_add(BK, W.NI))
            vf, rv = W.at(W.bnd("phi", "valueFraction"), BK), W.at(W.bnd("phi", "refValue"), BK, k)
            rg, bd = W.at(W.bnd("phi", "refGrad"), BK, k), W.at("deltaCoeffs", BK)
            v, r = system(W, st, ls, k,
                          P.mul(P.mul(F, P.sub(P.const(1), w)), so), P.mul(P.mul(F, w), so),
                          P.neg(P.mul(P.mul(F, w), sn)), P.neg(P.mul(P.mul(F, P.sub(P.const(1), w)), sn)),
                          P.mul(P.mul(Fb, sb), P.sub(P.const(1), vf)),
                          P.neg(P.mul(P.mul(Fb, sb), P.add(P.mul(vf, rv), P.mul(P.div(P.sub(P.const(1), vf), bd), rg)))))
            out.append(Case("GaussGreenDiv<%s>::div into a linear system" % kn, W, f,
                            lambda W=W, f=f, st=st, op=op, ls=ls: W.call(st, f, op, ls.loc, loc("flux"), loc("phi"), S("coeff")),
                            [("matrix entry", ls.values, slot, k, v), ("right-hand side", ls.rhs, c, k, r)], "div"))
        for f in W0.pick("GaussGreenLaplacian", "laplacian", k=k):
            if destof(f) != "ls":
                continue
            W, st, ls = ls_setup(rep, k)
            W.field(st, "gamma", "surf")
            op = W.obj(st, "op")
            g, d, m = W.at(W.intern("gamma"), BK), W.at(W.intern("deltaCoeffs"), BK), W.at("magFaceAreas", BK)
            own, nei, fc = W.at("faceOwner", BK), W.at("faceNeighbour", BK), W.at("faceCells", BK)
            so, sn, sb = coefat(own), coefat(nei), coefat(fc)
            a = P.mul(P.mul(g, d), m)
            b = lin_add(BK, W.NI)
            gb, db, mb = W.at(W.intern("gamma"), b), W.at(W.intern("deltaCoeffs"), b), W.at("magFaceAreas", b)
            vf, rv = W.at(W.bnd("phi", "valueFraction"), BK), W.at(W.bnd("phi", "refValue"), BK, k)
            rg = W.at(W.bnd("phi", "refGrad"), BK, k)
            gm = P.mul(P.mul(gb, mb), sb)
            v, r = system(W, st, ls, k, P.mul(a, so), P.neg(P.mul(a, so)), P.mul(a, sn), P.neg(P.mul(a, sn)),
                          P.neg(P.mul(P.mul(gm, vf), db)),
                          P.neg(P.mul(gm, P.add(P.mul(P.mul(vf, db), rv), P.mul(P.sub(P.const(1), vf), rg)))))
            out.append(Case("GaussGreenLaplacian<%s>::laplacian into a linear system" % kn, W, f,
                            lambda W=W, f=f, st=st, op=op, ls=ls: W.call(st, f, op, ls.loc, loc("gamma"), loc("phi"), S("coeff")),
                            [("matrix entry", ls.values, slot, k, v), ("right-hand side", ls.rhs, c, k, r)], "laplacian"))
        for f in W0.pick("SourceTerm", "implicitOperation", k=k):
            W, st, ls = ls_setup(rep, k)
            W.field(st, "sp", "vol")
            out.append(operator_case(W, st, "SourceTerm", k, kn, f, [("enum", 0), loc("sp"), loc("phi")],
                                     lambda W, st, co, k=k, ls=ls: P.add(W.at(ls.values, slot, k), diag(W, ls, k, st, lambda x: P.mul(
                                         P.mul(recell(co, x), W.at(W.intern("sp"), x)), W.at("cellVolumes", x)))),
                                     [ls.loc], ls.values, "source", idx=slot))
        for f in W0.pick("DdtOperator", "implicitOperation", k=k):
            for what in ("matrix entry", "right-hand side"):
                W, st, ls = ls_setup(rep, k)
                oldtime(W, st)
                cf = lambda W, co, x: P.mul(P.mul(recell(co, x), W.at("cellVolumes", x)), P.div(P.const(1), S("dt")))   # noqa: E731
                if what == "matrix entry":
                    wf = lambda W, st, co, k=k, ls=ls: P.add(W.at(ls.values, slot, k), diag(W, ls, k, st, lambda x: cf(W, co, x)))  # noqa: E731,E501
                else:
                    wf = lambda W, st, co, k=k, ls=ls: P.add(W.at(ls.rhs, c, k), P.mul(cf(W, co, c), W.at(W.intern("old"), c, k)))   # noqa: E731,E501
                x = operator_case(W, st, "DdtOperator", k, kn, f, [("enum", 0), loc("phi")], wf, [ls.loc, S("t"), S("dt")],
                                  ls.values if what == "matrix entry" else ls.rhs, "ddt", idx=slot if what == "matrix entry" else c)
                if x:
                    x.label += " " + what
                    out.append(x)
    return [x for x in out if x]


def upw(F):
    """1 where the flux is not negative, else 0"""
    return P.sub(P.const(1), P.ind(P.fposkey(P.neg(F))[1], True))


def recell(co, x):
    return subst(co, {c: x})


def diag(W, ls, k, st, val):
    """an entry added to the diagonal of every cell"""
    ix = lin_add(("rd", ls.rowPtrs, BK), ("rd", S("diagOffset"), BK))
    return W.scat(W.NC, ix, P.mul(val(BK), one_(k)), slot, k, st)


def oldtime(W, st):
    W.field(st, "old", "vol")

    def h(I_, f, ob, a, st2):
        return N(("@", loc("old")), st2)
    W.I.km[FV + "oldTime"] = h
    W.I.km["NeoFOAM::finiteVolume::cellCentred::oldTime"] = h


# ------------------------------------------------------------------ judging
def judge(rep, rid, cs, path_filter=None):
    for x in cs:
        with Law(x.W, rid, x.label, x.f, key="%s:%s" % (rid, x.label)) as L:
            L.f = x.f
            outs = x.outs()
            x.result = outs
            L.npaths += len(outs)
            for o in outs:
                if o.k != "n" or (path_filter and not path_filter(o)):
                    continue
                for what, A, idx, k, want in x.checks:
                    w = want(o) if callable(want) else want
                    arr = resfield(x.W, o, k) if A == "ret" else A
                    if arr is None or w is None:
                        L.unds.append("the result cannot be located")
                        continue
                    got = x.W.elem(arr, idx, k, o.st)
                    cmpval(x.W, L, o.st, got, w, what)


def hasatom(t, name):
    if isinstance(t, tuple):
        if t and t[0] == name and len(t) > 1:
            return True
        return any(hasatom(x, name) for x in t)
    if isinstance(t, frozenset):
        return any(hasatom(x, name) for x in t)
    return False


def tainted(W, st, *ts):
    if st.facts.get(("taint",)):
        return True
    for k in st.facts:
        if has_unk(k) and k[0] != "anytype":
            return True
    return any(has_unk(st.nz(t)) for t in ts)


def find(t, name):
    """the outermost terms of that name"""
    if isinstance(t, tuple):
        if t and t[0] == name and len(t) == 7:
            return {t}
        return set().union(*[find(x, name) for x in t]) if t else set()
    return set()


def partly(W, st, got, want):
    """a value written in part of the range only: True if it is as wanted either way, a text if not, None if that cannot be told"""
    sizes = {W.NC: 0, W.NI: 1, W.NB: 2}
    cases = [((), got)]
    for _ in range(4):
        nxt, more = [], False
        for conds, g in cases:
            a = sorted(find(g, "rdv"), key=repr)
            if not a:
                nxt.append((conds, g))
                continue
            more = True
            _, lo, n, v1, v0, idx, k = a[0]
            for b in (True, False):
                nxt.append((conds + ((lo, n, idx, b),), P.renorm(subst(g, {a[0]: v1 if b else v0})) if g != a[0] else v1 if b else v0))
        cases = nxt
        if not more:
            break
    else:
        return None
    if len(cases) == 1 or any(hasatom(g, "ov") or hasatom(g, "velt") or has_unk(g) or has_unk(cs) for cs, g in cases):
        return None

    def val(t, env):
        cst, m = lin_parts(t)
        return None if any(x not in env for x in m) else cst + sum(v * env[x] for x, v in m.items())
    facts = [(k[1], v) for k, v in st.facts.items() if k[0] == "pos"]
    for conds, g in cases:
        if P.same(g, want) or P.iszero(P.sub(g, want)) or P.iszero(P.sub(W.canon(g), W.canon(want))):
            continue
        free = {x for lo, n, idx, b in conds for t in (lo, n, idx) for x in lin_parts(t)[1]} - set(sizes)
        if len(free) > 1 or any(x[0] != "s" for x in free):
            return None
        x = next(iter(free), None)
        rel = [(t, v) for t, v in facts if set(lin_parts(t)[1]) <= free | set(sizes)]
        if any(x in lin_parts(t)[1] and not set(lin_parts(t)[1]) <= free | set(sizes) for t, v in facts):
            return None
        for mesh in MESHES:
            for i in range(max(mesh) + 3):
                env = {a: mesh[j] for a, j in sizes.items()}
                if x is not None:
                    env[x] = i
                if not all((val(t, env) > 0) == v for t, v in rel):
                    continue
                if all((val(lo, env) <= val(idx, env) < val(lo, env) + val(n, env)) == b for lo, n, idx, b in conds):
                    return "by %s for %s on a mesh of %d cells, %d inner and %d boundary faces" % (
                        P.show(P.sub(g, want), show)[:300], "%s = %d" % (show(x), i) if x is not None else "every element", *mesh)
    return True


MESHES = [(nc, ni, nb) for nc in (2, 3, 5) for ni in (1, 2, 4) for nb in (1, 2, 3, 7)]


def cmpval(W, L, st, got, want, what):
    got = st.nz(got)
    if has_unk(got) or has_unk(want) or W.I.unmodelled and tainted(W, st, got, want):
        L.unds.append("%s: the value is not known: %s; not modelled: %s" % (what, show(got)[:200], sorted(W.I.unmodelled)[:4]))
        return False
    if P.same(got, want) or P.iszero(P.sub(got, want)):
        return True
    got, want = W.canon(got), W.canon(want)
    if P.iszero(P.sub(got, want)):
        return True
    if hasatom(got, "init"):
        L.fails.append(("%s depends on memory that was never written" % what, path_text(st, W.P)))
        return False
    w = partly(W, st, got, want)
    if w is not None:
        if w is not True:
            L.fails.append(("%s differs from the definition %s" % (what, w), path_text(st, W.P)))
            return False
        return True
    if hasatom(got, "rdv") or hasatom(got, "ov") or hasatom(got, "velt"):
        L.unds.append("%s: overlapping writes: %s" % (what, show(got)[:200]))
        return False
    d = P.sub(got, want)
    L.fails.append(("%s differs from the definition by %s" % (what, P.show(d, show)[:600]), path_text(st, W.P)))
    return False


@rule("C24")
def explicit(rep):
    rep.limit = True
    rep.rule("gauss", "the value of an explicit Gauss operator in every cell is the signed sum of its face fluxes", 8)
    cases = list(explicit_cases(rep))
    judge(rep, "gauss", cases)
    rep.rule("op-unit", "a new operator has the coefficient one", 4)
    units(rep, cases)


@rule("C26")
def implicit(rep):
    rep.limit = True
    rep.rule("implicit", "implicit operators add exactly the discretisation's entries to the owner and neighbour rows, diagonal and right-hand side", 8)
    judge(rep, "implicit", implicit_cases(rep))
