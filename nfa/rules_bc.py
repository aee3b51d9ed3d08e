"""Boundary conditions: what a patch's condition writes, and only there."""
from .absint import C, S, N, lin_add, lin_sub, bind
from .fv import FV, BMESHN
from .lab import Law, show, path_text
from .rules import rule
from .rules_fv import KINDS, Case, world, interior, loc, judge, cmpval, tainted
from . import poly as P

WHICH = ("value", "refValue", "valueFraction", "refGrad")


class BC:
    def __init__(self, rep, cls, k, kind):
        """an object of the boundary condition class, built by its own constructor on an arbitrary patch"""
        W = world(rep)
        self.W, self.cls, self.k = W, cls, k
        st = interior(W, W.start())
        dom = W.obj(st, "dom")
        self.dom = dom
        self.internal = W.accarr(st, dom, ("DomainField", "internalField"), k=k)
        self.arr = {w: W.accarr(st, dom, ("DomainField", "boundaryField"), ("BoundaryFields", w), k=k) for w in WHICH}
        if self.internal is None or None in self.arr.values():
            raise Fail_("the parts of a domain field cannot be located")
        W.extra[self.internal] = W.NC if kind == "vol" else W.NF
        for A in self.arr.values():
            W.extra[A] = W.NB

        def get(I_, f, ob, a, st2):
            o = I_.rd(ob, st2)[0].v
            return bind(I_.val(a[0], st2), lambda key, s: N(("sel", o, key), s))
        W.I.km["NeoFOAM::Dictionary::get"] = get
        off = None
        for f in W.pick("BoundaryMesh", "offset", n=0):
            b = W.acc(st, W.mesh, "UnstructuredMesh", "boundaryMesh")
            off = W.acc(st, b, "BoundaryMesh", "offset")
            if off is not None:
                break
        self.off = off
        st.store[("p", "dict")] = S("dict")
        self.st = st
        p = S("patch")
        i = W.I
        self.start = [o.v for o in i.rd((off[0], off[1] + (("i", p),)), st.clone())][0] if off else None
        self.end = [o.v for o in i.rd((off[0], off[1] + (("i", lin_add(p, C(1))),)), st.clone())][0] if off else None
        if off:
            ot = i.rd(off, st.clone())[0].v
            st.facts[("pos", lin_sub(("size", ot), lin_add(p, C(1))))] = True
            st.facts[("pos", lin_sub(("size", ot), p))] = True
        self.built = []
        ct = W.one(cls, "#ctor", n=3, k=k)
        st.store[("p", "bc")] = ("rec", (ct.cr or ct.c) if ct else cls, (), None)
        if ct is not None:
            for o in W.call(st, ct, loc("bc"), loc("mesh"), loc("dict"), p):
                if o.k == "n":
                    self.built.append(o.st)


class Fail_(Exception):
    pass


def classes(W, base):
    """concrete classes in the boundary namespaces"""
    out = set()
    for f in W.P.funcs.values():
        if f.c and base in f.c and f.n == "correctBoundaryCondition" and f.b is not None:
            out.add(f.c)
    return sorted(out)


def specs(b):
    """name of the condition -> expectations at patch element i (absolute index)"""
    W, k = b.W, b.k
    own = lambda i: W.at(b.internal, W.at("faceCells", i), k)      # noqa: E731
    g = lambda key: ("sel", S("dict"), C(key))                      # noqa: E731
    one, zero = P.const(1), P.const(0)
    return {
        "volumeBoundary::FixedValue": lambda i: {"value": g("fixedValue"), "valueFraction": one, "refValue": g("fixedValue")},
        "volumeBoundary::FixedGradient": lambda i: {"value": P.add(own(i), P.div(g("fixedGradient"), W.at("deltaCoeffs", i))),
                                                    "valueFraction": zero, "refGrad": g("fixedGradient")},
        "volumeBoundary::Extrapolated": lambda i: {"value": own(i), "valueFraction": one, "refValue": own(i)},
        "volumeBoundary::Calculated": lambda i: {},
        "volumeBoundary::Empty": lambda i: {},
        "surfaceBoundary::FixedValue": lambda i: {"value": g("fixedValue"), "refValue": g("fixedValue"), "internal": g("fixedValue")},
        "surfaceBoundary::Calculated": lambda i: {},
        "surfaceBoundary::Empty": lambda i: {},
    }


def bc_runs(rep):
    """[(BC, name, function, outcomes)]"""
    W0 = world(rep)
    out = []
    for kind, ns in (("vol", "volumeBoundary::"), ("surf", "surfaceBoundary::")):
        for cls in classes(W0, ns):
            for k, kn in KINDS:
                fs = W0.pick(cls, "correctBoundaryCondition", n=1, k=k)
                if not fs:
                    continue
                out.append((cls, k, kn, kind, fs[0]))
    return out


@rule("C27")
def conditions(rep):
    rep.limit = True
    rep.rule("patch", "a boundary condition sets value, fraction and reference of every face of its own patch as its kind prescribes", 10)
    rep.rule("outside", "a boundary condition leaves everything outside its own patch as it was", 10)
    rep.rule("extent", "the extent a boundary patch reports is the one the boundary mesh gives it", 4)
    for cls, k, kn, kind, f in bc_runs(rep):
        short = cls.split("cellCentred::")[-1]
        label = "%s<%s>" % (short, kn)
        b = None
        with Law(world(rep), "patch", label, f, key="patch:" + label) as L:
            b = BC(rep, cls, k, kind)
            W = b.W
            sp = specs(b).get(short)
            if not b.built or b.start is None:
                L.unds.append("the boundary condition cannot be constructed")
                continue
            x = ("eidx", ("range", lin_sub(b.end, b.start)), ("n", 93))
            i = lin_add(b.start, x)
            runs = []
            for st in b.built:
                st.facts[("pos", lin_sub(lin_sub(b.end, b.start), x))] = True
                # another element, before or after the patch
                runs.append(W.call(st, f, loc("bc"), b.dom))
            b.outs = [o for r in runs for o in r]
            L.npaths += len(b.outs)
            if sp is None:
                L.unds.append("no definition for this kind of boundary condition")
                continue
            for o in b.outs:
                if o.k != "n":
                    continue
                for what, want in sorted(sp(i).items()):
                    A = b.internal if what == "internal" else b.arr[what]
                    ix = lin_add(W.NI, i) if what == "internal" else i
                    kk = "F" if what == "valueFraction" else k
                    got = W.elem(A, ix, kk, o.st)
                    cmpval(W, L, o.st, got, want, "%s on the patch" % what)
        if b is None or not b.built:
            continue
        with Law(b.W, "outside", label, f, key="outside:" + label) as L:
            L.npaths += len(b.outs)
            W = b.W
            noop = not specs(b).get(short, lambda i: {"x": 0})(C(0))
            j = S("j")
            for o in b.outs:
                if o.k != "n":
                    continue
                for what in WHICH + ("internal",):
                    A = b.internal if what == "internal" else b.arr[what]
                    kk = "F" if what == "valueFraction" else k
                    sides = ("any",) if noop else ("before", "after")
                    for side in sides:
                        s = o.st.clone()
                        ix = j
                        if kind == "surf" and what == "internal":
                            ix = lin_add(W.NI, j)
                        if side == "before":
                            s.facts[("pos", lin_sub(b.start, j))] = True
                        elif side == "after":
                            s.facts[("pos", lin_add(lin_sub(j, b.end), C(1)))] = True
                        got = W.elem(A, ix, kk, s)
                        cmpval(W, L, s, got, W.at(A, ix, kk), "%s %s the patch" % (what, {"any": "of any face of"}.get(side, side)))
                if kind == "surf":
                    # internal faces
                    fi = ("eidx", ("range", W.NI), ("n", 91))
                    s = o.st.clone()
                    s.facts[("pos", lin_sub(W.NI, fi))] = True
                    cmpval(W, L, s, W.elem(b.internal, fi, k, s), W.at(b.internal, fi, k), "an internal face value")


@rule("C27")
def extents(rep):
    rep.limit = True
    for cls, kind in ((FV + "volumeBoundary::FixedValue", "vol"), (FV + "surfaceBoundary::FixedValue", "surf"),
                      (FV + "VolumeBoundary", "vol"), (FV + "SurfaceBoundary", "surf")):
        for k, kn in KINDS:
            b = BC(rep, cls, k, kind)
            W = b.W
            for name, want in (("patchStart", b.start), ("patchEnd", b.end), ("patchSize", lin_sub(b.end, b.start)),
                               ("patchID", S("patch")), ("range", (b.start, b.end))):
                fs = W.pick("BoundaryPatchMixin", name, n=0)
                label = "%s of %s<%s>" % (name, cls.split("cellCentred::")[-1], kn)
                with Law(W, "extent", label, fs[0] if fs else None, key="extent:" + label) as L:
                    for st in b.built:
                        for o in L.run(st, fs[0], loc("bc")):
                            if o.k != "n":
                                continue
                            if name == "range":
                                v = o.st.nz(o.v)
                                lo, hi = W.I.pairv(v)
                                if lo is None:
                                    L.unds.append("range is not a pair: " + show(v)[:200])
                                    continue
                                L.same(o.st, lo, want[0], "start of the range")
                                L.same(o.st, hi, want[1], "end of the range")
                            else:
                                L.val(o, want, name)


@rule("C27")
def delegation(rep):
    """the boundary of a field applies the condition its dictionary names, on its own patch"""
    rep.limit = True
    rep.rule("delegate", "a field boundary applies the condition its dictionary names, made for its own patch", 2)
    for cls, kind in (("VolumeBoundary", "vol"), ("SurfaceBoundary", "surf")):
        for k, kn in KINDS:
            label = "%s<%s>" % (cls, kn)
            W = world(rep)
            f = W.one(FV + cls, "correctBoundaryCondition", n=1, k=k)
            with Law(W, "delegate", label, f, key="delegate:" + label) as L:
                made = []

                def create(I_, g, ob, a, st):
                    def go(vs, s):
                        s.event("created", tuple(vs))
                        return N(("ptr", (("p", "strategy"), ())), s)
                    return bind(I_.vals(a, st), go)
                for c2 in ("VolumeBoundaryFactory", "SurfaceBoundaryFactory"):
                    W.I.km[FV + c2 + "::create"] = create
                W.I.km["NeoFOAM::RuntimeSelectionFactory::create"] = create
                for q in {g.c for g in W.P.funcs.values() if g.c and "RuntimeSelectionFactory" in g.c and g.n == "create"}:
                    W.I.km[q + "::create"] = create
                bb = BC(rep, FV + cls, k, kind)
                # the same object, built in the world with the factory watched
                bb.W.I.km.update({q: h for q, h in W.I.km.items() if h is create})
                W = bb.W
                L.lab = W
                ct = W.one(FV + cls, "#ctor", n=3, k=k)
                st = bb.st.clone()
                st.store[("p", "bc")] = ("rec", ct.cr or ct.c, (), None)
                for o in W.call(st, ct, loc("bc"), loc("mesh"), loc("dict"), S("patch")):
                    if o.k != "n":
                        continue
                    ev = [e for e, _ in o.st.eff if e[0] == "created"]
                    made.append(ev)
                    if len(ev) != 1:
                        L.fail(o.st, "%d conditions are created for a boundary" % len(ev))
                        continue
                    vs = ev[0][1]
                    if len(vs) == 4:
                        L.same(o.st, vs[0], ("sel", S("dict"), C("type")), "kind of the condition")
                        L.same(o.st, vs[3], S("patch"), "patch of the condition")
                    for o2 in L.run(o.st, f, loc("bc"), bb.dom):
                        if o2.k != "n":
                            continue
                        calls = [e for e, _ in o2.st.eff if e[0] == "vcall" and e[1] == "correctBoundaryCondition"]
                        if len(calls) != 1:
                            L.fail(o2.st, "the condition is applied %d times" % len(calls))
                            continue
                        if calls[0][2] is not None and calls[0][2] != (("p", "strategy"), ()):
                            L.fail(o2.st, "another object is asked to apply the condition")
                        if ("ptr", bb.dom) not in calls[0][3]:
                            L.fail(o2.st, "the condition is applied to another field: %s" % show(calls[0][3])[:100])
