"""C41: what is made once per mesh and shared (geometry scheme, sparsity pattern, sets of boundary conditions)."""
from .absint import C, S, N, bind, has_unk
from .engine import load, Broken
from .fv import FV
from .lab import Law, show
from .rules import rule
from .rules_clone import Copies
from .rules_old import ok

GS, SPAT = FV + "GeometryScheme", FV + "SparsityPattern"
SDB = "NeoFOAM::StencilDataBase"
COEFFS = (("weights", "updateWeights"), ("deltaCoeffs", "updateDeltaCoeffs"), ("nonOrthDeltaCoeffs", "updateNonOrthDeltaCoeffs"))


class Shared(Copies):
    def __init__(self, P_, rep):
        super().__init__(P_, rep)
        self.I.real |= {GS + "::readOrCreate", SPAT + "::readOrCreate"} | {
            GS + "::" + n for n, _ in COEFFS}

    def watch(self, cls):
        def h(I_, f, ob, a, st):
            if f.ctor in (2, 3):
                return None
            def go(vs, s):
                s.event("made", cls, tuple(vs))
                return I_.wr(ob, ("rec", cls, (), None), s)
            return bind([o for o in I_.vals(a, st)], go)
        self.I.km[cls + "::ctor"] = h

    def emptydb(self, st):
        """the mesh has cached nothing yet"""
        f = self.one("UnstructuredMesh", "stencilDB")
        o = self.call(st, f, self.mesh)[0]
        loc = o.v[1]
        st = o.st
        for x in self.members(SDB):
            if "map" in x["t"].s:
                self.I.wr((loc[0], loc[1] + (("f", x["n"]),)), ("map", None, ()), st)
        return st


def ismesh(W, v):
    return v[0] == "rec" and v[3] == S("mesh") or v == S("mesh") or v == ("ptr", W.mesh)


def made(st, cls=None):
    return [e for e, _ in st.eff if e[0] == "made" and cls in (None, e[1])]


def roc(W, cls):
    f = W.one(cls, "readOrCreate")
    if f is None:
        raise Broken(cls + "::readOrCreate not found")
    return f


def target(v, st):
    """the object a shared pointer (value) leads to"""
    v = st.nz(v)
    return v


def once(W):
    for cls, other in ((GS, SPAT), (SPAT, GS)):
        f, g = roc(W, cls), roc(W, other)
        name = cls.rsplit("::", 1)[1]
        with Law(W, "shared-once", name + " of a mesh", f) as law:
            for o in law.run(W.start(), f, None, ("@", W.mesh)):
                if o.k == "t":
                    # something else is stored under the name
                    if not any(k[0] == "anytype" and v is False for k, v in o.st.facts.items() if isinstance(k, tuple)):
                        law.fail(o.st, "readOrCreate throws")
                    continue
                if not ok(law, o, "readOrCreate"):
                    continue
                m = made(o.st)
                have = [v for k, v in o.st.facts.items() if isinstance(k, tuple) and k[0] == "has"]
                if any(e[1] != cls for e in m) or len(m) > 1:
                    law.fail(o.st, "%d objects are made for one %s" % (len(m), name))
                    continue
                if m and not (m[0][2] and ismesh(W, m[0][2][0])):
                    law.fail(o.st, "the %s is made for something else than the mesh" % name)
                    continue
                if m and True in have and False not in have:
                    law.fail(o.st, "a %s is made although the mesh has one" % name)
                v = o.v if o.v[0] != "@" else W.rd1(o.v[1], o.st)
                if v is None or has_unk(v):
                    law.unds.append("the pointer returned is not known")
                    continue
                for o2 in law.run(o.st.clone(), f, None, ("@", W.mesh)):
                    if not ok(law, o2, "the second readOrCreate"):
                        continue
                    v2 = o2.v if o2.v[0] != "@" else W.rd1(o2.v[1], o2.st)
                    if len(made(o2.st)) != len(m):
                        law.fail(o2.st, "a second %s is made for the same mesh" % name)
                    elif v2 is None or o2.st.nz(v2) != o2.st.nz(v):
                        law.fail(o2.st, "two calls give different objects: %s, %s" % (show(v)[:60], show(v2)[:60] if v2 else None))
        with Law(W, "shared-once", name + " beside the other", f) as law:
            st = W.emptydb(W.start())
            for o in law.run(st, f, None, ("@", W.mesh)):
                if not ok(law, o, "readOrCreate"):
                    continue
                for o2 in law.run(o.st, g, None, ("@", W.mesh)):
                    if not ok(law, o2, "readOrCreate of the other"):
                        continue
                    n = len(made(o2.st))
                    if n != 2:
                        law.fail(o2.st, "%d objects are made for one of each" % n)
                        continue
                    for o3 in law.run(o2.st, f, None, ("@", W.mesh)):
                        if ok(law, o3, "readOrCreate") and len(made(o3.st)) != 2:
                            law.fail(o3.st, "a second %s is made" % name)


def accessor(W, law, st, loc, name):
    f = W.one(GS, name)
    if f is None:
        law.unds.append("no " + name)
        return None
    for o in law.run(st.clone(), f, loc):
        if ok(law, o, name) and o.v[0] == "@":
            return o.v[1]
        law.fail(o.st, name + " gives no field")
    return None


def updates(W, law, st, loc, start, kernel=None):
    """the kernel has filled exactly the fields the accessors give, each by its own function"""
    calls = [e for e, _ in st.eff[start:] if e[0] == "vcall" and e[1].startswith("update")]
    for acc, up in COEFFS:
        l = accessor(W, law, st, loc, acc)
        if l is None:
            continue
        mine = [e for e in calls if ("ptr", l) in e[3]]
        if not mine:
            law.fail(st, "%s is not computed" % acc)
        for e in mine:
            if e[1] != up:
                law.fail(st, "%s is computed by %s" % (acc, e[1]))
    who = {e[2] for e in calls}
    if len(who) > 1:
        law.fail(st, "the coefficients are computed by different kernels")
    return who


def geometry(W, rep):
    f = W.one(GS, "update")
    if f is None:
        raise Broken("GeometryScheme::update not found")
    with Law(W, "shared-geo", "GeometryScheme::update", f) as law:
        st = W.start()
        st.store[("p", "gs")] = S("gs")
        loc = (("p", "gs"), ())
        n = len(st.eff)
        for o in law.run(st, f, loc):
            if ok(law, o, "update"):
                updates(W, law, o.st, loc, n)
    with Law(W, "shared-geo", "GeometryScheme's fields", f) as law:
        st = W.start()
        st.store[("p", "gs")] = S("gs")
        loc = (("p", "gs"), ())
        ls = [(n, accessor(W, law, st, loc, n)) for n in ("weights", "deltaCoeffs", "nonOrthDeltaCoeffs", "nonOrthCorrectionVectors")]
        if len({l for _, l in ls}) != 4:
            law.fail(st, "two accessors give the same field")
    W2 = Shared(W.P, rep)
    I = W2.I

    def bcs(I_, f, ob, a, st):
        return bind(I_.vals(a, st), lambda vs, s: N(("op", "bcs", C(f.ret.s if f.ret is not None else ""), vs[0]), s))
    I.km[FV + "createCalculatedBCs"] = bcs

    def basic(I_, f, ob, a, st):
        def go(vs, s):
            s.event("kernel", tuple(vs))
            return I_.wr(ob, S("basic"), s)
        return bind(I_.vals(a, st), go)
    I.km[FV + "BasicGeometryScheme::ctor"] = basic
    for f in sorted((f for f in W2.P.funcs.values() if f.c == GS and f.ctor == 1 and f.b is not None), key=lambda f: len(f.p)):
        if len(f.p) not in (1, 3):
            continue
        what = "GeometryScheme(%s)" % ("mesh" if len(f.p) == 1 else "exec, mesh, kernel")
        with Law(W2, "shared-geo", what, f) as law:
            st = W2.start()
            st.store[("p", "gs")] = ("rec", GS, (), None)
            st.store[("p", "ex")] = S("exec")
            loc = (("p", "gs"), ())
            args = [("@", W2.mesh)]
            if len(f.p) == 3:
                args = [("@", (("p", "ex"), ())), ("@", W2.mesh), ("uptr", ("ptr", (("p", "kernel"), ())))]
            n = len(st.eff)
            for o in law.run(st, f, loc, *args):
                if not ok(law, o, "construction"):
                    continue
                s = o.st
                who = updates(W2, law, s, loc, n)
                if len(f.p) == 3 and who - {(("p", "kernel"), ())}:
                    law.fail(s, "another kernel than the one given computes the coefficients")
                for e, _ in s.eff[n:]:
                    if e[0] == "kernel" and not (e[1] and ismesh(W2, e[1][0])):
                        law.fail(s, "the kernel is made for something else than the mesh")
                fieldparts(W2, law, s, loc)
        if len(f.p) == 3:
            with Law(W2, "shared-geo", what + " without a kernel", f) as law:
                st = W2.start()
                st.store[("p", "gs")] = ("rec", GS, (), None)
                st.store[("p", "ex")] = S("exec")
                for o in law.run(st, f, (("p", "gs"), ()), args[0], args[1], ("uptr", C(None))):
                    if o.k == "n":
                        law.fail(o.st, "a scheme without a kernel is made")
    for f in (f for f in W.P.funcs.values() if f.c == GS and f.ctor == 1 and f.b is not None and len(f.p) == 6):
        with Law(W, "shared-geo", "GeometryScheme from given fields", f) as law:
            st = W.start()
            st.store[("p", "gs")] = ("rec", GS, (), None)
            st.store[("p", "ex")] = S("exec")
            given = []
            for i in range(4):
                l = W.field(st, "given%d" % i, "surf")
                v = st.store[l[0]]
                st.store[l[0]] = (v[0], FV + "SurfaceField<%s>" % ("double" if i < 3 else "NeoFOAM::Vector")) + v[2:]
                given.append(l)
            st0 = st.clone()
            loc = (("p", "gs"), ())
            for o in law.run(st, f, loc, ("@", (("p", "ex"), ())), ("uptr", ("ptr", (("p", "kernel"), ()))), *[("@", l) for l in given]):
                if not ok(law, o, "construction"):
                    continue
                if any(e[0] == "vcall" and e[1].startswith("update") for e, _ in o.st.eff):
                    continue            # recomputing the coefficients given would be another matter
                for (n, _), l in zip(COEFFS, given):
                    a = accessor(W, law, o.st, loc, n)
                    if a is not None:
                        W.same(a, l, o.st, st0, law, n)


def fieldparts(W, law, s, loc):
    for n in ("weights", "deltaCoeffs", "nonOrthDeltaCoeffs", "nonOrthCorrectionVectors"):
        l = accessor(W, law, s, loc, n)
        if l is None:
            continue
        k = "V" if n == "nonOrthCorrectionVectors" else "F"
        kn = "NeoFOAM::Vector" if k == "V" else "double"
        for q, want in (("exec", S("exec")), ("mesh", None)):
            g = next((f for f in W.P.funcs.values() if f.n == q and not f.p and f.b is not None and (f.c or "").startswith(FV + "GeometricFieldMixin<" + kn)), None)
            if g is None:
                continue
            for o in law.run(s.clone(), g, l):
                v = o.v
                if q == "mesh":
                    if v[0] == "@" and v[1] != W.mesh:
                        law.fail(s, "%s lives on another mesh" % n)
                    continue
                v = W.rd1(v[1], o.st) if v[0] == "@" else v
                if v is not None and not has_unk(v) and o.st.nz(v) != want:
                    law.fail(s, "%s has the executor %s" % (n, show(v)[:60]), v)
        v = W.rd1((l[0], l[1] + (("f", "name"),)), s)
        if v is not None and v[0] == "c" and v != C(n):
            law.fail(s, "%s is called %s" % (n, show(v)))
        b = W.rd1((l[0], l[1] + (("f", "boundaryConditions_"),)), s)
        if b is not None and b[0] == "op" and b[1] == "bcs" and not ismesh(W, b[3]):
            law.fail(s, "%s has the boundary conditions of another mesh" % n)


def conditions(W):
    count = [0]

    def create(I_, g, ob, a, st):
        def go(vs, s):
            k = len([1 for e, _ in s.eff if e[0] == "created"])
            s.event("created", tuple(vs))
            return N(("uptr", ("ptr", (("p", "strategy%d" % k), ()))), s)
        return bind(I_.vals(a, st), go)
    for q in {g.c for g in W.P.funcs.values() if g.c and "RuntimeSelectionFactory" in g.c and g.n == "create"}:
        W.I.km[q + "::create"] = create
    for q in (FV + "VolumeBoundaryFactory", FV + "SurfaceBoundaryFactory", "NeoFOAM::RuntimeSelectionFactory"):
        W.I.km[q + "::create"] = create
    for f in sorted((f for f in W.P.funcs.values() if f.b is not None and f.n in ("createCalculatedBCs", "createExtrapolatedBCs")), key=lambda f: f.u):
        typ = C("calculated" if f.n == "createCalculatedBCs" else "extrapolated")
        with Law(W, "shared-bcs", "%s: %s" % (f.n, f.ret.s.split("<")[1].rsplit("::", 1)[-1] + "<" + ("Vector" if "Vector>" in f.ret.s else "scalar") + ">"), f) as law:
            for n in range(4):
                for b, st in W.I.eqv(W.NP, C(n), W.start()):
                    if not b:
                        continue
                    for o in law.run(st, f, None, ("@", W.mesh)):
                        if not ok(law, o, f.n):
                            continue
                        if any(e[0] == "oob" for e, _ in o.st.eff):
                            continue    # the mesh has a start and an end for every patch
                        judge(W, law, o, n, typ)


def judge(W, law, o, n, typ):
    s = o.st
    ev = [e[1] for e, _ in s.eff if e[0] == "created"]
    if any(has_unk(x) for e in ev for x in e[:1] + e[3:4]):
        law.unds.append("the conditions made are not known")
        return
    for e in ev:
        if len(e) != 4:
            law.unds.append("conditions are made with %d arguments" % len(e))
            return
        if s.nz(e[0]) != typ:
            law.fail(s, "a condition of type %s is made" % show(e[0])[:60], e[0])
            return
        if not ismesh(W, e[1]):
            law.fail(s, "a condition is made for another mesh")
    v = o.v if o.v[0] != "@" else W.rd1(o.v[1], s)
    if v is None or v[0] != "seq" or any(p[0] != "e" for p in v[1]):
        law.unds.append("the list of conditions is %s" % (show(v)[:80] if v else v))
        return
    if len(v[1]) != n:
        law.fail(s, "a mesh of %d patches gets %d conditions" % (n, len(v[1])), v)
        return
    # element i was made for patch i
    for i, (_, x) in enumerate(v[1]):
        ks = [k for k in range(len(ev)) if ("ptr", (("p", "strategy%d" % k), ())) in flat(x)]
        if len(ks) != 1:
            law.unds.append("which condition patch %d has is not known" % i)
        elif s.nz(ev[ks[0]][3]) != C(i):
            law.fail(s, "condition %d is made for patch %s" % (i, show(ev[ks[0]][3])[:40]), ev[ks[0]][3])


def flat(t):
    r = []
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            r.append(x)
            todo.extend(x)
    return r


@rule("C41")
def c41(rep):
    rep.limit = True
    rep.rule("shared-once", "a mesh has one geometry scheme and one sparsity pattern, made for it at the first use", 4)
    rep.rule("shared-geo", "a geometry scheme's fields lie on its mesh and are each computed by the kernel's function of that name", 6)
    rep.rule("shared-bcs", "one condition of the kind asked for per patch, in patch order", 6)
    W = Shared(load("full"), rep)
    geometry(W, rep)
    conditions(Shared(W.P, rep))
    W = Shared(W.P, rep)
    W.watch(GS)
    W.watch(SPAT)
    once(W)
