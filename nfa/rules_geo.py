"""Interpolation, face-normal gradients, geometric coefficients and the Courant number."""
from fractions import Fraction

from .absint import S, lin_add, lin_sub, has_unk
from .fv import BK
from .lab import Law, show, path_text
from .rules import rule
from .rules_fv import KINDS, Case, world, interior, loc, judge, cmpval, c
from . import poly as P


def faces(W):
    """(label, absolute face index, position in its group): one arbitrary internal and one arbitrary boundary face"""
    return ("eidx", ("range", W.NI), ("n", 91)), ("eidx", ("range", W.NB), ("n", 92))


def bounded(W, st):
    for x, n in zip(faces(W), (W.NI, W.NB)):
        st.facts[("pos", lin_sub(n, x))] = True


def schemeobj(W, st, f):
    """the object a member function of a concrete scheme class is called on"""
    st.store[("p", "op")] = ("rec", f.cr or f.c, (), S("op"))
    return loc("op")


def two(W, st, A, k, inner, bnd, what):
    """checks at an internal face and at a boundary face"""
    fi, fb = faces(W)
    return [(what + " on an internal face", A, fi, k, inner(fi)),
            (what + " on a boundary face", A, lin_add(W.NI, fb), k, bnd(fb, lin_add(W.NI, fb)))]


def start(rep, k=None):
    W = world(rep)
    st = interior(W, W.start())
    W.field(st, "phi", "vol")
    W.field(st, "flux", "surf")
    W.field(st, "dst", "surf")
    W.field(st, "weights", "surf")
    W.field(st, "nonOrthDeltaCoeffs", "surf")
    W.field(st, "deltaCoeffs", "surf")
    W.I.vresult.pop("interpolate", None)
    W.I.vresult.pop("faceNormalGrad", None)
    W.I.setcontent(W.intern("dst"), ("uninit",), st)
    bounded(W, st)
    return W, st


def interpolation_cases(rep):
    W0 = world(rep)
    out = []
    for k, kn in KINDS:
        def lin(W, st, k=k):
            w = W.intern("weights")
            return two(W, st, W.intern("dst"), k,
                       lambda f: P.add(P.mul(W.at(w, f), W.at(W.intern("phi"), W.at("faceOwner", f), k)),
                                       P.mul(P.sub(P.const(1), W.at(w, f)), W.at(W.intern("phi"), W.at("faceNeighbour", f), k))),
                       lambda b, f: P.mul(W.at(w, f), W.at(W.bnd("phi"), b, k)), "interpolated value")

        def up(W, st, k=k):
            w = W.intern("weights")

            def inner(f):
                u = P.sub(P.const(1), P.ind(P.fposkey(P.neg(W.at(W.intern("flux"), f)))[1], True))
                return P.add(P.mul(u, W.at(W.intern("phi"), W.at("faceOwner", f), k)),
                             P.mul(P.sub(P.const(1), u), W.at(W.intern("phi"), W.at("faceNeighbour", f), k)))
            return two(W, st, W.intern("dst"), k, inner, lambda b, f: P.mul(W.at(w, f), W.at(W.bnd("phi"), b, k)), "interpolated value")
        for cls, spec in (("Linear", lin), ("Upwind", up)):
            for f in W0.pick("::" + cls, "interpolate", k=k) or W0.pick("::%s<%s>" % (cls, ""), "interpolate", k=k):
                if f.virt_abstract if hasattr(f, "virt_abstract") else False:
                    continue
                W, st = start(rep)
                op = schemeobj(W, st, f)
                n = len(f.p)
                args = [loc("phi"), loc("dst")] if n == 2 else [loc("flux"), loc("phi"), loc("dst")]
                label = "%s<%s>::interpolate%s" % (cls, kn, " with a flux" if n == 3 else "")
                x = Case(label, W, f, lambda W=W, f=f, st=st, op=op, args=args: W.call(st, f, op, *args),
                         [] if cls == "Upwind" and n == 2 else spec(W, st), "interp")
                x.exits = cls == "Upwind" and n == 2
                out.append(x)
        for f in W0.pick("::Uncorrected", "faceNormalGrad", k=k):
            if len(f.p) != 2:
                continue
            W, st = start(rep)
            op = schemeobj(W, st, f)
            nod = W.intern("nonOrthDeltaCoeffs")
            phi = W.intern("phi")
            ck = two(W, st, W.intern("dst"), k,
                     lambda f_: P.mul(W.at(nod, f_), P.sub(W.at(phi, W.at("faceNeighbour", f_), k), W.at(phi, W.at("faceOwner", f_), k))),
                     lambda b, f_: P.mul(W.at(nod, f_), P.sub(W.at(W.bnd("phi"), b, k), W.at(phi, W.at("faceCells", b), k))),
                     "face normal gradient")
            out.append(Case("Uncorrected<%s>::faceNormalGrad" % kn, W, f, lambda W=W, f=f, st=st, op=op: W.call(
                st, f, op, loc("phi"), loc("dst")), ck, "sngrad"))
    return out


def geometry_cases(rep):
    W0 = world(rep)
    out = []

    def vec(W, a, i):
        return W.at(a, i, "V")

    def weights(W, st):
        def inner(f):
            sf, cf = vec(W, "faceAreas", f), vec(W, "faceCentres", f)
            own = P.abs_(P.dot(sf, P.sub(cf, vec(W, "cellCentres", W.at("faceOwner", f)))))
            nei = P.abs_(P.dot(sf, P.sub(vec(W, "cellCentres", W.at("faceNeighbour", f)), cf)))
            s = P.add(own, nei)
            i = P.ind(P.fposkey(P.sub(P.abs_(s), rootvsmall(W)))[1], True)
            return P.add(P.mul(i, P.div(nei, s)), P.mul(P.sub(P.const(1), i), P.const(Fraction(1, 2))))
        return two(W, st, W.intern("dst"), "F", inner, lambda b, f: P.const(1), "interpolation weight")

    def dist(W, f, b=None):
        if b is None:
            return P.sub(vec(W, "cellCentres", W.at("faceNeighbour", f)), vec(W, "cellCentres", W.at("faceOwner", f)))
        return P.sub(vec(W, "faceCentres", f), vec(W, "cellCentres", W.at("faceCells", b)))

    def delta(W, st):
        return two(W, st, W.intern("dst"), "F", lambda f: P.div(P.const(1), P.mag(dist(W, f))),
                   lambda b, f: P.div(P.const(1), P.mag(dist(W, f, b))), "delta coefficient")

    def nonorth(W, st):
        def val(f, b=None):
            d = dist(W, f, b)
            n = P.div(vec(W, "faceAreas", f), W.at("magFaceAreas", f))
            return P.div(P.const(1), P.minmax("max", P.dot(n, d), P.mul(P.const(Fraction("0.05")), P.mag(d))))
        return two(W, st, W.intern("dst"), "F", lambda f: val(f), lambda b, f: val(f, b), "non-orthogonal delta coefficient")
    for name, spec in (("updateWeights", weights), ("updateDeltaCoeffs", delta), ("updateNonOrthDeltaCoeffs", nonorth)):
        for f in W0.pick("BasicGeometryScheme", name):
            if "Vector" in f.p[1]["t"].s:
                continue
            W, st = start(rep)
            op = schemeobj(W, st, f)
            out.append(Case("BasicGeometryScheme::" + name, W, f, lambda W=W, f=f, st=st, op=op: W.call(
                st, f, op, S("exec"), loc("dst")), spec(W, st), "geometry"))
    return out


def rootvsmall(W):
    return P.const(Fraction("1e-18"))


@rule("C21")
def interpolation(rep):
    rep.limit = True
    rep.rule("interp", "the value an interpolation scheme or face-normal gradient delivers on every internal and boundary face", 5)
    rep.rule("needsflux", "a flux-dependent scheme used without a flux ends with an error instead of delivering values", 2)
    cs = interpolation_cases(rep)
    judge(rep, "interp", [x for x in cs if not getattr(x, "exits", False)])
    for x in cs:
        if getattr(x, "exits", False):
            with Law(x.W, "needsflux", x.label, x.f, key="needsflux:" + x.label) as L:
                for o in L.run(x.W.start(), x.f, (("p", "op"), ()), S("phi"), S("dst")):
                    if o.k == "n":
                        L.fail(o.st, "delivers values without a flux")


@rule("C22")
def geometry(rep):
    rep.limit = True
    rep.rule("geom", "geometric coefficient of every internal and boundary face", 3)
    judge(rep, "geom", geometry_cases(rep))


def conum_cases(rep):
    W0 = world(rep)
    out = []
    for f in W0.pick(None, "computeCoNum"):
        W, st = start(rep)
        out.append(Case("computeCoNum", W, f, lambda W=W, f=f, st=st: W.call(st, f, None, loc("flux"), S("dt")), [], "conum"))
    return out


@rule("C22")
def conum(rep):
    rep.limit = True
    rep.rule("conum", "the Courant number is half the time step times the largest ratio of summed face flux magnitudes to volume", 1)
    from .fv import subst
    for x in conum_cases(rep):
        W = x.W
        with Law(W, "conum", "computeCoNum", x.f, key="conum") as L:
            outs = x.outs()
            x.result = outs
            L.npaths += len(outs)
            for o in outs:
                if o.k != "n":
                    continue
                r = o.st.nz(o.v)
                ms = {x for m in (P.to(r) if not has_unk(r) else {}) for x, _ in m if x[0] == "maxof"}
                mins = {x for m in (P.to(r) if not has_unk(r) else {}) for x, _ in m if x[0] in ("minof", "min")}
                if not ms and not has_unk(r) and (r[0] == "c" or len(mins) == 1 and P.same(r, P.mul(P.mul(P.const(Fraction(1, 2)), S("dt")), min(mins)))):
                    L.fails.append(("the result is %s" % ("a smallest value over the cells, not the largest" if mins else show(r)), path_text(o.st, W.P)))
                    continue
                if len(ms) != 1:
                    L.unds.append("not a maximum over cells: " + show(r)[:300])
                    continue
                v = ms.pop()
                if not P.same(r, P.mul(P.mul(P.const(Fraction(1, 2)), S("dt")), v)):
                    L.fails.append(("the result is %s times the maximum over the cells instead of dt/2" % P.show(P.div(r, v), show)[:200],
                                    path_text(o.st, W.P)))
                    continue
                if v[1] != W.NC:
                    L.fails.append(("the maximum is taken over %s instead of all cells" % show(v[1]), path_text(o.st, W.P)))
                    continue
                got = subst(v[3], {("bk", v[2]): c})
                A = lambda i: P.abs_(W.at(W.intern("flux"), i))      # noqa: E731
                s = W.scat(W.NI, W.at("faceOwner", BK), A(BK), c, "F", o.st)
                s = P.add(s, W.scat(W.NI, W.at("faceNeighbour", BK), A(BK), c, "F", o.st))
                s = P.add(s, W.scat(W.NB, W.at("faceCells", BK), A(lin_add(BK, W.NI)), c, "F", o.st))
                cmpval(W, L, o.st, got, P.div(s, W.at("cellVolumes", c)), "value of a cell")
