"""What domain fields and geometric fields are made of (C45)."""
from . import poly as P
from .absint import C, S, has_unk, lin_add, lin_sub
from .engine import load
from .lab import Law, show
from .rules import rule
from .rules_clone import Copies, short

K_ = S("k")
EXEC, OBJ = (("p", "exec"), ()), (("p", "obj"), ())
OFFS = S("offs")
NOFF = ("size", OFFS)
LASTOFF = ("elt", OFFS, lin_sub(NOFF, C(1)))


def within(v, t):
    return v == t or type(v) is tuple and any(within(x, t) for x in v)


class Parts(Copies):
    def __init__(self, P_, rep):
        super().__init__(P_, rep)
        # what the code is handed lives on an executor of its own
        self.I.execs = lambda A, st: S("elsewhere") if any(within(A, S(x)) for x in ("other", "otherdom", "in")) else S("exec")

    def all(self, name, cls, n=None):
        fs = [f for f in self.P.funcs.values() if (f.ctor == 1 if name == "#ctor" else f.n == name) and f.b is not None and not f.implicit and (n is None or len(f.p) == n)
              and (f.cr or f.c or "").split("<")[0].rsplit("::", 1)[-1] == cls]
        seen, r = set(), []
        for f in sorted(fs, key=lambda f: (f.cr or f.c, f.where, f.const is True, f.u)):
            if (f.cr, f.where) not in seen:
                seen.add((f.cr, f.where))
                r.append(f)
        return r

    def fkind(self, cls):
        return "V" if "Vector" in cls.partition("<")[2] else "F"

    # -------------------------------------------------------- observation
    def ref(self, law, st, loc, cls, name):
        """what an accessor of the object refers to"""
        fs = [f for f in self.P.funcs.values() if f.n == name and f.b is not None and not f.p
              and (f.cr or f.c or "").split("<")[0].rsplit("::", 1)[-1] == cls.split("<")[0]
              and ("<" not in cls or self.fkind(f.cr or "x<double>") == self.fkind(cls))]
        for f in sorted(fs, key=lambda f: (f.const is True, f.u)):
            outs = [o for o in self.I.enter(f, loc, (), st.clone()) if o.k == "n"]
            if len(outs) == 1:
                return outs[0].v
        law.unds.append("%s() cannot be told" % name)
        return None

    def value(self, law, st, loc, cls, name):
        v = self.ref(law, st, loc, cls, name)
        if v is not None and v[0] == "@":
            v = self.rd1(v[1], st)
        return v

    def isval(self, law, st, got, want, what):
        if got is None:
            return
        got = st.nz(got)
        if has_unk(got):
            law.unds.append("%s is not known: %s" % (what, show(got)[:80]))
        elif got != st.nz(want) and not (got[0] in ("poly", "lin", "c") and P.same(got, want)):
            law.fail(st, "%s is %s instead of %s" % (what, show(got)[:80], show(want)[:80]), got)

    def array(self, law, st, ref, what, size=None, ex=None, like=None, own=True):
        """the array behind a reference to a Field: its size, executor and contents"""
        if ref is None:
            return
        if ref[0] != "@":
            law.unds.append(what + " is not known")
            return
        A, e, n, k = self.I.finfo(self.I, ref[1], st)
        if has_unk(A):
            law.unds.append(what + " is not known")
            return
        if size is not None:
            self.isval(law, st, n, size, "the size of " + what)
        if ex is not None:
            self.isval(law, st, e, ex, "the executor of " + what)
        if own and A[0] != "new":
            law.fail(st, what + " is not its own: " + show(A)[:80])
        if like is not None:
            s = st.clone()
            s.facts[("pos", lin_add(K_, C(1)))] = True
            s.facts[("pos", lin_sub(n, K_))] = True
            got = self.elem(A, K_, k, s)
            want = like(K_, k)
            if got[0] == "velt":
                got = ("elt",) + got[1:]        # read inside a kernel
            if has_unk(got):
                law.unds.append("element k of %s is not known" % what)
            elif got != want and not P.same(got, want):
                law.fail(s, "element k of %s is %s instead of %s" % (what, show(got)[:90], show(want)[:90]), got)


ARRS = ("value", "refValue", "valueFraction", "refGrad", "boundaryTypes", "offset")


def cellsof(A):
    return lambda i, k: ("vrd" if k == "V" else "rd", A, i)


def boundaryof(W, law, st, loc, cls, nb, nfaces, offs, ex, what="", like=None):
    """the boundary data at loc is laid out for the patches given"""
    for n in ARRS:
        size = nfaces if n in ARRS[:4] else nb if n == "boundaryTypes" else lin_add(nb, C(1))
        W.array(law, st, W.ref(law, st, loc, cls, n), what + n + "()", size, ex, like(n) if like else offs if n == "offset" else None)
    W.isval(law, st, W.value(law, st, loc, cls, "nBoundaries"), nb, what + "nBoundaries()")
    W.isval(law, st, W.value(law, st, loc, cls, "nBoundaryFaces"), nfaces, what + "nBoundaryFaces()")
    W.isval(law, st, W.value(law, st, loc, cls, "exec"), ex, what + "exec()")


def world(W):
    st = W.start()
    st.store[EXEC[0]] = S("exec")
    st.store[("p", "offs")] = OFFS
    st.facts[("pos", NOFF)] = True
    return st


def offelem(i, k):
    return ("elt", OFFS, i)


def boundaries(W):
    for f in W.all("#ctor", "BoundaryFields", 2):
        cls = short(f.cr)
        k = W.fkind(cls)
        vec = "vector" in f.p[1]["t"].s
        with Law(W, "parts-boundary", "%s(exec, %s)" % (cls, "offsets" if vec else "other"), f) as law:
            st = world(W)
            st.store[OBJ[0]] = ("rec", f.cr, (), None)
            if vec:
                arg = (("p", "offs"), ())
            else:
                arg = (("p", "other"), ())
                st.store[arg[0]] = ("rec", f.cr, (), S("other"))
            st0 = st.clone()
            for o in law.run(st, f, OBJ, ("@", EXEC), ("@", arg)):
                if not law.kind(o, "n", "constructor"):
                    continue
                if vec:
                    boundaryof(W, law, o.st, OBJ, cls, lin_sub(NOFF, C(1)), LASTOFF, offelem, S("exec"))
                    continue
                for n in ARRS:
                    r = W.ref(law, st0, arg, cls, n)
                    if r is None or r[0] != "@":
                        continue
                    A, _, size, kk = W.I.finfo(W.I, r[1], st0)
                    W.array(law, o.st, W.ref(law, o.st, OBJ, cls, n), n + "()", size, S("exec"), lambda i, q, A=A, kk=kk: W.elem(A, i, q, st0))
                for n in ("nBoundaries", "nBoundaryFaces"):
                    W.isval(law, o.st, W.value(law, o.st, OBJ, cls, n), W.value(law, st0, arg, cls, n), n + "()")
                W.isval(law, o.st, W.value(law, o.st, OBJ, cls, "exec"), S("exec"), "exec()")
    for f in W.all("range", "BoundaryFields", 1):
        with Law(W, "parts-range", short(f.cr) + "::range(i)", f) as law:
            st = world(W)
            st.store[OBJ[0]] = ("rec", f.cr, (), S("bf"))
            r = W.ref(law, st, OBJ, short(f.cr), "offset")
            A = W.I.finfo(W.I, r[1], st)[0] if r is not None and r[0] == "@" else None
            i = S("i")
            st.facts[("pos", lin_add(i, C(1)))] = True
            for o in law.run(st, f, OBJ, i):
                if not law.kind(o, "n", "range"):
                    continue
                v = o.st.nz(o.v)
                if A is None or v[0] not in ("pair", "rec") or has_unk(v):
                    law.unds.append("range is " + show(v)[:100])
                    continue
                a, b = (v[1], v[2]) if v[0] == "pair" else [x for _, x in v[2]][:2]
                W.isval(law, o.st, a, ("rd", A, i), "the start")
                W.isval(law, o.st, b, ("rd", A, lin_add(i, C(1))), "the end")


def domains(W):
    for f in W.all("#ctor", "DomainField"):
        if f.ctor != 1 or len(f.p) < 2:
            continue
        cls = short(f.cr)
        k = W.fkind(cls)
        ts = [p["t"].s for p in f.p[1:]]
        with Law(W, "parts-domain", "%s(exec, %s)" % (cls, ", ".join("offsets" if "vector" in t else "boundary" if "BoundaryFields" in t else "mesh" if "Mesh" in t else "field" if "Field" in t else "n" for t in ts)), f) as law:
            st = world(W)
            st.store[OBJ[0]] = ("rec", f.cr, (), None)
            args, size, like, bnd = [("@", EXEC)], None, None, None
            for t in ts:
                if "vector" in t:
                    st.store[("p", "offarg")] = OFFS
                    args.append(OFFS if not f.p[len(args)]["t"].isref() else ("@", (("p", "offarg"), ())))
                elif "BoundaryFields" in t:
                    bnd = (("p", "other"), ())
                    st.store[bnd[0]] = ("rec", f.p[len(args)]["t"].strip().rec, (), S("other"))
                    args.append(("@", bnd))
                elif "Mesh" in t:
                    args.append(("@", W.mesh))
                    size = W.NC
                elif "Field" in t:
                    W.raw(st, "in", S("nin"))
                    args.append(("@", (("p", "in"), ())))
                    size, like = S("nin"), cellsof(S("in"))
                else:
                    args.append(S("n"))
                    size = S("n")
            if any("Mesh" in t for t in ts):
                st.facts[("pos", ("size", meshoffsets(W, st)))] = True
            st0 = st.clone()
            for o in law.run(st, f, OBJ, *args):
                if not law.kind(o, "n", "constructor"):
                    continue
                s = o.st
                W.array(law, s, W.ref(law, s, OBJ, cls, "internalField"), "internalField()", size, S("exec"), like)
                W.isval(law, s, W.value(law, s, OBJ, cls, "exec"), S("exec"), "exec()")
                b = W.ref(law, s, OBJ, cls, "boundaryField")
                bc = "BoundaryFields<%s>" % ("Vector" if k == "V" else "double")
                if b is None or b[0] != "@":
                    continue
                if bnd is not None:
                    given(W, law, s, b[1], st0, bnd, bc)
                elif any("Mesh" in t for t in ts):
                    frommesh(W, law, s, b[1], st0, bc)
                else:
                    boundaryof(W, law, s, b[1], bc, lin_sub(NOFF, C(1)), LASTOFF, offelem, S("exec"), "boundaryField().")


def given(W, law, s, new, st0, old, bc, ex=S("exec")):
    """the boundary data at new is a copy of that at old, on the executor"""
    for n in ARRS:
        r = W.ref(law, st0, old, bc, n)
        if r is None or r[0] != "@":
            continue
        A, _, size, kk = W.I.finfo(W.I, r[1], st0)
        W.array(law, s, W.ref(law, s, new, bc, n), "boundaryField().%s()" % n, size, ex, lambda i, q, A=A: W.elem(A, i, q, st0))
    for n in ("nBoundaries", "nBoundaryFaces"):
        W.isval(law, s, W.value(law, s, new, bc, n), W.value(law, st0, old, bc, n), "boundaryField().%s()" % n)


def meshoffsets(W, st):
    b = W.acc(st, W.mesh, "UnstructuredMesh", "boundaryMesh")
    l = W.acc(st, b, "BoundaryMesh", "offset")
    return W.rd1(l, st)


def frommesh(W, law, s, new, st0, bc):
    off = meshoffsets(W, st0)
    n = ("size", off)
    boundaryof(W, law, s, new, bc, lin_sub(n, C(1)), ("elt", off, lin_sub(n, C(1))), lambda i, k: ("elt", off, i), S("exec"), "boundaryField().")


def known(W, a, b, st):
    """are a and b the same on this path: True, False or None"""
    r = {x for x, _ in W.I.eqv(a, b, st.clone())}
    return r.pop() if len(r) == 1 else None


def patches(W):
    """a patch is told which part of the boundary arrays belongs to it"""
    for f in W.all("#ctor", "BoundaryPatchMixin"):
        mesh = "Mesh" in f.p[0]["t"].s
        with Law(W, "parts-patch", "BoundaryPatchMixin(%s)" % ("mesh, id" if mesh else "start, end, id"), f) as law:
            st = world(W)
            st.store[OBJ[0]] = ("rec", f.cr or f.c, (), None)
            i = S("i")
            st.facts[("pos", lin_add(i, C(1)))] = True
            off = meshoffsets(W, st)
            st.facts[("pos", lin_sub(("size", off), lin_add(i, C(1))))] = True
            args = [("@", W.mesh), i] if mesh else [S("a"), S("b"), i]
            a, b = (("elt", off, i), ("elt", off, lin_add(i, C(1)))) if mesh else (S("a"), S("b"))
            for o in law.run(st, f, OBJ, *args):
                if not law.kind(o, "n", "constructor"):
                    continue
                cls = short(f.cr or f.c)
                for n, want in (("patchStart", a), ("patchEnd", b), ("patchID", i), ("patchSize", lin_sub(b, a))):
                    W.isval(law, o.st, W.value(law, o.st, OBJ, cls, n), want, n + "()")
                v = W.value(law, o.st, OBJ, cls, "range")
                v = o.st.nz(v) if v is not None else ("unk",)
                if v[0] not in ("pair", "rec") or has_unk(v):
                    law.unds.append("range is " + show(v)[:100])
                    continue
                x, y = (v[1], v[2]) if v[0] == "pair" else [q for _, q in v[2]][:2]
                W.isval(law, o.st, x, a, "the start of range()")
                W.isval(law, o.st, y, b, "the end of range()")


BCS = S("bcs")


def geometric(W):
    for cname in ("VolumeField", "SurfaceField"):
        for f in W.all("#ctor", cname):
            ts = [p["t"] for p in f.p]
            if f.ctor != 1 or not ts:
                continue
            cls = short(f.cr)
            k = W.fkind(cls)
            what, args = [], []
            dom = inn = bnd = db = None
            names = iter(("phi", "dockey", "docs"))
            with Law(W, "parts-geometric", "?", f) as law:
                st = world(W)
                st.store[OBJ[0]] = ("rec", f.cr, (), None)
                for t in ts:
                    loc = None
                    if "BoundaryFields" in t.s:
                        loc = bnd = (("p", "other"), ())
                        st.store[loc[0]] = ("rec", t.strip().rec, (), S("other"))
                        what.append("boundary")
                    elif "DomainField" in t.s:
                        loc = dom = (("p", "otherdom"), ())
                        st.store[loc[0]] = ("rec", t.strip().rec, (), S("otherdom"))
                        what.append("domain")
                    elif "Boundary<" in t.s:
                        loc = (("p", "bcs"), ())
                        st.store[loc[0]] = BCS
                        what.append("conditions")
                    elif "UnstructuredMesh" in t.s:
                        loc = W.mesh
                        what.append("mesh")
                    elif "Database" in t.s:
                        loc = db = (("p", "db"), ())
                        st.store[loc[0]] = ("rec", "NeoFOAM::Database", (), S("db"))
                        what.append("db")
                    elif "Executor" in t.s:
                        loc = EXEC
                        what.append("exec")
                    elif "Field<" in t.s:
                        loc = inn = (("p", "in"), ())
                        W.raw(st, "in", S("nin"))
                        what.append("field")
                    else:
                        x = next(names)
                        what.append(x)
                        if t.isref():
                            loc = (("p", x), ())
                            st.store[loc[0]] = S(x)
                        else:
                            args.append(S(x))
                            continue
                    if t.isref():
                        args.append(("@", loc))
                    else:
                        args.append(W.rd1(loc, st))
                law.what = "%s(%s)" % (cls, ", ".join(what))
                st.facts[("pos", ("size", meshoffsets(W, st)))] = True
                st0 = st.clone()
                for o in law.run(st, f, OBJ, *args):
                    if o.k == "x":
                        # only data of the wrong size may be turned down
                        if inn is None or bnd is None:
                            law.kind(o, "n", "constructor")
                        elif known(W, S("nin"), W.NC, o.st) is True:
                            law.fail(o.st, "data of the right size is turned down")
                        continue
                    if not law.kind(o, "n", "constructor"):
                        continue
                    s = o.st
                    check(W, law, s, st0, cname, cls, k, dom, inn, bnd, db)


def check(W, law, s, st0, cname, cls, k, dom, inn, bnd, db):
    bc = "BoundaryFields<%s>" % ("Vector" if k == "V" else "double")
    dc = bc.replace("BoundaryFields", "DomainField")
    gc = bc.replace("BoundaryFields", "GeometricFieldMixin")
    W.isval(law, s, W.rd1((OBJ[0], (("f", "name"),)), s), S("phi"), "the name")
    W.isval(law, s, W.value(law, s, OBJ, gc, "exec"), S("exec"), "exec()")
    m = W.ref(law, s, OBJ, gc, "mesh")
    if m is not None and m != ("@", W.mesh):
        law.fail(s, "mesh() is " + show(m)[:80])
    inner = W.ref(law, s, OBJ, gc, "internalField")
    b = W.ref(law, s, OBJ, gc, "boundaryField")
    if dom is not None:
        r = W.ref(law, st0, dom, dc, "internalField")
        A, _, n, kk = W.I.finfo(W.I, r[1], st0)
        W.array(law, s, inner, "internalField()", n, S("exec"), lambda i, q: W.elem(A, i, q, st0))
        r = W.ref(law, st0, dom, dc, "boundaryField")
        given(W, law, s, b[1], st0, r[1], bc)
        n0 = n
    else:
        n0 = S("nin") if inn is not None else W.NC if cname == "VolumeField" else lin_add(W.NI, W.NB)
        W.array(law, s, inner, "internalField()", n0, S("exec"), cellsof(S("in")) if inn is not None else None)
        if bnd is not None:
            given(W, law, s, b[1], st0, bnd, bc)
        else:
            frommesh(W, law, s, b[1], st0, bc)
    W.isval(law, s, W.value(law, s, OBJ, gc, "size"), n0, "size()")
    if inn is not None and bnd is not None and known(W, S("nin"), W.NC, s) is not True:
        law.fail(s, "inner values that do not fit the mesh are accepted")
    if cname == "SurfaceField":
        W.isval(law, s, W.rd1((OBJ[0], (("f", "boundaryConditions_"),)), s), BCS, "the boundary conditions")
        return
    W.isval(law, s, W.value(law, s, OBJ, cls, "boundaryConditions"), BCS, "boundaryConditions()")
    for n, want in (("key", S("dockey") if db else C("")), ("fieldCollectionName", S("docs") if db else C(""))):
        W.isval(law, s, W.rd1((OBJ[0], (("f", n),)), s), want, n)
    W.isval(law, s, W.value(law, s, OBJ, cls, "hasDatabase"), C(1 if db else 0), "hasDatabase()")
    for f in W.all("db", "VolumeField", 0):
        if short(f.cr) != cls:
            continue
        for o in W.I.enter(f, OBJ, (), s.clone()):
            if db is None and o.k != "t":
                law.fail(o.st, "db() of a field that is in no database does not say so")
            elif db is not None and (o.k != "n" or o.v != ("@", db)):
                law.fail(o.st, "db() is %s instead of the database given" % (show(o.v)[:60] if o.k == "n" else "not given"))
    for f in W.all("registered", "VolumeField", 0):
        if short(f.cr) != cls:
            continue
        s0 = s.clone()
        if db is None:          # naming a place in a database does not put it there
            for n, x in (("key", "dockey"), ("fieldCollectionName", "docs")):
                W.I.wr((OBJ[0], (("f", n),)), S(x), s0)
        for o in W.I.enter(f, OBJ, (), s0):
            if o.k != "n":
                continue
            if db is None:
                W.isval(law, o.st, o.v, C(0), "registered()")
                continue
            named = [known(W, S(x), C(""), o.st) for x in ("dockey", "docs")]
            v = o.st.nz(o.v)
            if v == C(1) and named != [False, False]:
                law.fail(o.st, "registered() of a field without a key or collection is true")
            if v == C(0) and True not in named:
                law.fail(o.st, "registered() of a field that has a key, a collection and a database is false")


@rule("C45")
def c45(rep):
    W = Parts(load("full"), rep)
    rep.limit = bool(W.P.skipped)
    rep.rule("parts-boundary", "boundary data is laid out for the patches it is made for, or is a copy of other boundary data, on the executor asked for", 4)
    rep.rule("parts-range", "range(i) is the part of the boundary arrays that belongs to patch i", 2)
    boundaries(W)
    rep.rule("parts-domain", "a domain field has the inner values and boundary data it was made from, on the executor asked for", 8)
    domains(W)
    rep.rule("parts-patch", "a boundary condition is told where its patch starts and ends in the boundary arrays", 2)
    patches(W)
    rep.rule("parts-geometric", "a volume or surface field has the name, mesh, executor, inner values, boundary data, boundary conditions and database it was made with", 8)
    geometric(W)
