"""Meshes (C28): what a mesh reports, patches, and the generated meshes."""
from . import poly as P
from .absint import C, S, lin_add, lin_sub, has_unk
from .engine import load
from .fv import BMESHACC, MESHACC, World, subst
from .lab import Law, show
from .rules import rule
from .rules_fv import cmpval

UM, BM = "UnstructuredMesh", "BoundaryMesh"
N_ = S("n")
I_ = S("i")


class MeshWorld(World):
    def settle(self, t, st):
        """values that depend on where an index lies, once that is known"""
        if isinstance(t, frozenset):
            return frozenset(self.settle(x, st) for x in t)
        if not isinstance(t, tuple):
            return t
        if t and t[0] == "rdv" and len(t) == 7:
            r = self.I.inrange(t[5], t[1], t[2], st)
            if r is not None:
                return self.settle(t[3] if r else t[4], st)
        if t and t[0] == "cmp" and len(t) == 3:
            return P.cmp_(self.settle(t[1], st), t[2])
        return tuple(self.settle(x, st) for x in t)

    def at_(self, A, i, k, st):
        t = self.settle(self.elem(A, i, k, st), st)
        return P.renorm(t) if t[0] == "poly" else t

    def arrof(self, st, loc, cls, name):
        return self.accarr(st, loc, (cls, name))

    def ctor(self, cls, n):
        for f in self.P.funcs.values():
            if f.ctor == 1 and f.c == "NeoFOAM::" + cls and not f.implicit and len(f.p) == n and f.b is not None:
                return f
        return None


@rule("C28")
def c28(rep):
    rep.limit = True
    rep.rule("parts", "a mesh reports exactly the fields, numbers and boundary it was built from", 20)
    rep.rule("patch", "what a boundary mesh reports for patch i is the part from offset i to offset i + 1", 9)
    rep.rule("generated", "the generated meshes are geometrically and topologically consistent", 30)
    W = MeshWorld(load("full"), rep)
    boundary(W)
    mesh(W)
    generated(W, "create1DUniformMesh", True)
    generated(W, "createSingleCellMesh", False)


def params(W, st, f):
    """symbolic arguments by the names of the parameters"""
    args, by = [], {}
    for p in f.p:
        t = p["t"].strip()
        s = p["t"].s or ""
        n = p["n"]
        if "vector<" in s:
            by[n] = ("vec", S("off"))
            args.append(S("off"))
        elif s.startswith("NeoFOAM::Executor") or "variant" in s or n == "exec":
            by[n] = ("exec", S("exec"))
            args.append(S("exec"))
        elif "Field" in s or "Field" in (t.rec or ""):
            loc = W.raw(st, "arg:" + n, S("size:" + n))
            by[n] = ("field", S("arg:" + n))
            args.append(("@", loc))
        elif "BoundaryMesh" in s:
            st.store[("p", "bm")] = S("bm")
            by[n] = ("bm", S("bm"))
            args.append(("@", (("p", "bm"), ())))
        else:
            by[n] = ("num", S("num:" + n))
            args.append(S("num:" + n))
    return args, by


ORDER_M = ["points", "cellVolumes", "cellCentres", "faceAreas", "faceCentres", "magFaceAreas", "faceOwner", "faceNeighbour",
           "nCells", "nInternalFaces", "nBoundaryFaces", "nBoundaries", "nFaces", "boundaryMesh"]
ORDER_B = ["exec", "faceCells", "cf", "cn", "sf", "magSf", "nf", "delta", "weights", "deltaCoeffs", "offset"]


def build(W, law, cls, order):
    f = W.ctor(cls, len(order))
    if f is None:
        law.unds.append("no constructor with %d parameters" % len(order))
        return
    st = W.start()
    args, by = params(W, st, f)
    by = {order[i]: by[f.p[i]["n"]] for i in range(len(order))}
    st.store[("p", "new")] = ("rec", "NeoFOAM::" + cls, (), None)
    for o in W.call(st, f, (("p", "new"), ()), *args):
        law.npaths += 1
        if law.kind(o, "n", "constructor"):
            yield o.st, (("p", "new"), ()), by


def part(W, law, cls, order, name, k):
    for st, loc, by in build(W, law, cls, order):
        kind, want = by[name]
        fs = W.pick(cls, name, n=0)
        if not fs:
            law.unds.append("no accessor " + name)
            continue
        law.f = fs[0]
        if kind == "field":
            A = W.arrof(st, loc, cls, name)
            if A is None:
                law.unds.append("not located")
                continue
            law.same(st, W.I.size_of(A, st), S("size:" + want[1][4:]), name + ": size")
            s = st.clone()
            s.facts[("pos", lin_sub(W.I.size_of(A, st), S("k")))] = True
            s.facts[("pos", lin_add(S("k"), C(1)))] = True
            cmpval(W, law, s, W.at_(A, S("k"), k, s), W.I.atom(want, S("k"), k), name + ": element k")
            continue
        for o in W.call(st, fs[0], loc):
            if not law.kind(o, "n", name):
                continue
            v = W.read(o.st, o.v)[0][0]
            if kind == "bm":
                for a, ka in BMESHACC.items():
                    A = W.accarr(o.st, o.v[1], (BM, a)) if o.v[0] == "@" else None
                    B = W.accarr(o.st, (("p", "bm"), ()), (BM, a))
                    if A is None or B is None:
                        law.unds.append("boundary mesh not located")
                        break
                    cmpval(W, law, o.st, W.at_(A, S("k"), ka, o.st), W.at_(B, S("k"), ka, o.st), "boundaryMesh().%s()[k]" % a)
            elif v != want:
                if has_unk(v):
                    law.unds.append("value not known")
                else:
                    law.fail(o.st, "%s() is %s instead of the value given (%s)" % (name, show(v)[:80], show(want)[:80]), v)


def boundary(W):
    for name, k in BMESHACC.items():
        with Law(W, "parts", "boundary mesh: %s()" % name) as law:
            part(W, law, BM, ORDER_B, name, k)
    with Law(W, "parts", "boundary mesh: offset()") as law:
        part(W, law, BM, ORDER_B, "offset", None)
    for name, k in BMESHACC.items():
        with Law(W, "patch", "%s(i)" % name) as law:
            fs = W.pick(BM, name, n=1)
            if not fs:
                law.unds.append("no accessor")
                continue
            law.f = fs[0]
            for st, loc, by in build(W, law, BM, ORDER_B):
                off = S("off")
                s = st.clone()
                for j in (0, 1):
                    s.facts[("pos", lin_sub(lin_sub(("size", off), I_), C(j)))] = True
                s.facts[("pos", lin_add(I_, C(1)))] = True
                a, b = ("elt", off, I_), ("elt", off, lin_add(I_, C(1)))
                s.facts[("pos", lin_add(lin_sub(b, a), C(1)))] = True
                base = W.arrof(s, loc, BM, name)
                for o in W.call(s, fs[0], loc, I_):
                    if not law.kind(o, "n", name):
                        continue
                    v, s2 = W.read(o.st, o.v)[0]
                    s2 = s2.clone()
                    s2.store[("p", "v")] = v
                    A, o_, n_, _ = W.I.vinfo(W.I, (("p", "v"), ()), s2)
                    if has_unk(o_) or has_unk(n_) or base is None:
                        law.unds.append("view not known")
                        continue
                    if A != base:
                        law.fail(s2, "%s(i) is a part of another array (%s)" % (name, show(A)[:80]))
                    law.same(s2, o_, a, name + "(i): first element")
                    law.same(s2, n_, lin_sub(b, a), name + "(i): number of elements")


def mesh(W):
    for name, (k, _) in MESHACC.items():
        with Law(W, "parts", "mesh: %s()" % name) as law:
            part(W, law, UM, ORDER_M, name, k)
    for name in ORDER_M[8:]:
        with Law(W, "parts", "mesh: %s()" % name) as law:
            part(W, law, UM, ORDER_M, name, None)


def vec(x, y=C(0), z=C(0)):
    return P.vec3(x, y, z)


def generated(W, name, uniform):
    f = next((g for g in W.P.funcs.values() if g.n == name and g.c is None and g.b is not None), None)
    n = N_ if uniform else C(1)
    nb = 2 if uniform else 4
    ni = lin_sub(n, C(1))
    nf = lin_add(ni, C(nb))

    def ran(law):
        if f is None:
            law.unds.append("no " + name)
            return
        st = W.start()
        if uniform:
            st.facts[("pos", N_)] = True
        for o in law.run(st, f, None, *([S("exec"), N_] if uniform else [S("exec")])):
            if law.kind(o, "n", name):
                s = o.st.clone()
                s.store[("p", "m")] = o.v
                loc = (("p", "m"), ())
                b = W.acc(s, loc, UM, "boundaryMesh")
                if b is None:
                    law.unds.append("boundary mesh not located")
                    continue
                yield s, loc, b

    def law_(what):
        return Law(W, "generated", "%s: %s" % (name, what), f)

    for acc, want in (("nCells", n), ("nInternalFaces", ni), ("nBoundaryFaces", C(nb)), ("nBoundaries", C(nb)), ("nFaces", nf)):
        with law_(acc) as law:
            for s, loc, b in ran(law):
                for g in W.pick(UM, acc, n=0)[:1]:
                    for o in W.call(s, g, loc):
                        if law.kind(o, "n", acc):
                            law.same(o.st, W.read(o.st, o.v)[0][0], want, acc)
    sizes = {"cellVolumes": n, "cellCentres": n, "faceAreas": nf, "faceCentres": nf, "magFaceAreas": nf, "faceOwner": nf, "faceNeighbour": ni}
    with law_("sizes") as law:
        for s, loc, b in ran(law):
            for a, want in list(sizes.items()) + [(x, C(nb)) for x in BMESHACC]:
                A = W.arrof(s, b if a in BMESHACC else loc, BM if a in BMESHACC else UM, a)
                if A is None:
                    law.unds.append(a + " not located")
                else:
                    law.same(s, W.I.size_of(A, s), want, "size of " + a)
    k = S("k")
    dn = P.inv(n) if uniform else C(1)
    half = P.div(C(1), C(2))
    if uniform:
        cc = lambda i: vec(P.mul(P.add(i, half), dn))
        areas = [vec(C(-1)), vec(C(1))]
        centres = [vec(C(0)), vec(C(1))]
        cells = [C(0), ni]
    else:
        cc = lambda i: vec(half, half)
        areas = [vec(C(-1)), vec(C(0), C(1)), vec(C(1)), vec(C(0), C(-1))]
        centres = [vec(C(0), half), vec(half, C(1)), vec(C(1), half), vec(half, C(0))]
        cells = [C(0)] * 4
    checks = []       # (what, array, of the boundary, index, kind, wanted, range of the index)
    cells_i = [(k, n)] if uniform else [(C(0), None)]
    for i, r in cells_i:
        checks.append(("volume of a cell", "cellVolumes", False, i, "F", dn, r))
        checks.append(("centre of a cell", "cellCentres", False, i, "V", cc(i), r))
    if uniform:
        for w, a, kd, v in (("owner", "faceOwner", "I", k), ("neighbour", "faceNeighbour", "I", lin_add(k, C(1))), ("area vector", "faceAreas", "V", vec(C(1))),
                            ("area", "magFaceAreas", "F", C(1)), ("centre", "faceCentres", "V", vec(P.mul(P.add(k, C(1)), dn)))):
            checks.append(("%s of an internal face" % w, a, False, k, kd, v, ni))
    for j in range(nb):
        fi = lin_add(ni, C(j))
        delta = P.sub(centres[j], cc(cells[j]))
        for w, a, kd, v in (("owner", "faceOwner", "I", cells[j]), ("area vector", "faceAreas", "V", areas[j]), ("area", "magFaceAreas", "F", C(1)), ("centre", "faceCentres", "V", centres[j])):
            checks.append(("%s of boundary face %d" % (w, j), a, False, fi, kd, v, None))
        for a, kd, v in (("faceCells", "I", cells[j]), ("cf", "V", centres[j]), ("sf", "V", areas[j]), ("magSf", "F", C(1)), ("nf", "V", areas[j]),
                         ("delta", "V", delta), ("weights", "F", C(1)), ("deltaCoeffs", "F", P.inv(P.mag(delta)))):
            checks.append(("%s of boundary face %d" % (a, j), a, True, C(j), kd, v, None))
    for what, a, onb, i, kd, want, r in checks:
        with law_(what) as law:
            for s, loc, b in ran(law):
                A = W.arrof(s, b if onb else loc, BM if onb else UM, a)
                if A is None:
                    law.unds.append("not located")
                    continue
                s = s.clone()
                if r is not None:
                    s.facts[("pos", lin_sub(r, i))] = True
                    s.facts[("pos", lin_add(i, C(1)))] = True
                got = W.at_(A, i, kd, s)
                if kd == "I":
                    law.same(s, got, want, what)
                else:
                    cmpval(W, law, s, got, want, what)
    with law_("offsets of the patches") as law:
        for s, loc, b in ran(law):
            for g in W.pick(BM, "offset", n=0)[:1]:
                for o in W.call(s, g, b):
                    v = W.read(o.st, o.v)[0][0]
                    want = ("seq", tuple(("e", C(i)) for i in range(nb + 1)))
                    law.same(o.st, v, want, "offset()")
