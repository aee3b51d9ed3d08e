"""C40: what an input selects (schemes, operators, solvers) and what the front ends hand to it."""
from . import poly as P
from .absint import C, S, N, VOID, Out, has_unk, contains
from .engine import load, Broken
from .fv import FV
from .lab import Law, show
from .rules import rule
from .rules_clone import Copies

INPUT = (("p", "in"), ())
EXEC = (("p", "ex"), ())
DICT, TOK = "NeoFOAM::Dictionary", "NeoFOAM::TokenList"
I0 = S("i")
STR = "std::basic_string<char, std::char_traits<char>, std::allocator<char>>"
FACTORIES = (("SurfaceInterpolationFactory", "surfaceInterpolation"), ("FaceNormalGradientFactory", "faceNormalGradient"),
             ("DivOperatorFactory", "DivOperator"), ("LaplacianOperatorFactory", "LaplacianOperator"))


def short(cls):
    return cls.replace("NeoFOAM::", "").replace("finiteVolume::cellCentred::", "").replace("double", "scalar")


class Select(Copies):
    def __init__(self, P_, rep):
        super().__init__(P_, rep)

        def create(I_, g, ob, a, st):
            st.event("created")
            return N(("uptr", ("ptr", (("p", "strategyB"), ()))), st)
        for q in (FV + "VolumeBoundaryFactory", FV + "SurfaceBoundaryFactory", "NeoFOAM::RuntimeSelectionFactory"):
            self.I.km[q + "::create"] = create
        for n in ("interpolate", "faceNormalGrad", "weight", "div", "laplacian"):
            self.I.vresult[n] = self.fills

    def fills(self, I_, e, f, ob, a, st):
        """a kernel fills the field it is given"""
        loc = next((x[1] for x in (a[-1], a[0]) if x[0] == "@" and x[1][0][0] in ("v", "h")), None)
        kind, ex, n, zero = None, None, None, None
        if loc is not None:
            v = self.rd1(loc, st)
            cls = v[1] if v is not None and v[0] == "rec" else ""
            for k in ("V" if "Vector" in str(cls) else "F"):
                for chain in ((),) if cls == "NeoFOAM::Field" else ((("GeometricFieldMixin", "internalField"),),):
                    try:
                        A = self.accarr(st, loc, *chain, k=k)
                    except Exception:      # another kind of object
                        continue
                    if A is None or kind is not None:
                        continue
                    info = self.I.finfo(self.I, loc if not chain else self.acc(st, loc, *chain[0], k=k), st)
                    kind, ex, n = k, info[1], info[2]
                    zero = self.elem(A, I0, k, st)
                    self.I.setcontent(A, ("fill", S("written") if k == "F" else ("vsym", "written")), st)
        st.event("vcall", f["n"], ob, tuple(("ptr", x[1]) if x[0] == "@" else st.nz(x) for x in a), kind, ex, n, zero)
        return [Out("n", VOID, st)]

    def all(self, name, cls, n=None):
        """functions of that name of the classes that are instances of the template cls, one per class and signature"""
        r = {}
        for f in self.P.funcs.values():
            c = (f.cr or f.c or "")
            base = c.split("<")[0].rsplit("::", 1)[-1]
            if f.b is None or f.n != name or base != cls or n is not None and len(f.p) != n:
                continue
            r[(c, tuple(p["t"].s for p in f.p), bool(f.const))] = f
        return [r[k] for k in sorted(r)]

    def world(self, kind=None):
        st = self.start()
        st.store[("p", "in")] = S("in")
        st.store[("p", "ex")] = S("ex")
        if kind is not None:
            for k in (DICT, TOK):
                st.facts[("anytype", S("in"), k)] = k == kind
        return st

    def cursor(self, st, loc):
        """the read position of the token list at loc"""
        for x in self.P.records[TOK]["fields"]:
            t = x["t"].s
            if "vector" not in t:
                return self.rd1((loc[0], loc[1] + (("f", x["n"]),)), st)
        return None

    def table(self, f):
        """where the factory f creates from keeps its constructors"""
        c = f.cr or f.c
        todo, seen = [c], set()
        while todo:
            b = todo.pop(0)
            if b in seen:
                continue
            seen.add(b)
            for g in self.P.funcs.values():
                if g.n == "table" and not g.p and g.b is not None and (g.cr or g.c) == b:
                    outs = [o for o in self.I.enter(g, None, (), self.start()) if o.k == "n"]
                    if len(outs) == 1 and outs[0].v[0] == "@":
                        return outs[0].v[1]
            todo += self.P.records.get(b, {}).get("bases", ())
        raise Broken("the table of %s is not found" % c)


def invokes(st):
    return [e for e, _ in st.eff if e[0] == "invoke"]


def argloc(a):
    """the object an argument of a recorded call is"""
    if a[0] == "@" or a[0] == "ptr":
        return a[1]
    return None


def isobj(W, a, loc, st):
    if argloc(a) == loc:
        return True
    v = W.rd1(loc, st)
    a = st.nz(a)
    if loc == W.mesh:
        return a[0] == "rec" and a[3] == S("mesh") or a == S("mesh")
    return v is not None and (a == v or a == st.nz(v) or a[0] == "rec" and v[0] == "rec" and a[1] == v[1] and a[3] == v[3] and a[3] is not None and a[2] == v[2])


def create(W, rep):
    for cls, word in FACTORIES:
        for f in W.all("create", cls, 3):
            tbl = W.table(f)
            for kind in (DICT, TOK):
                what = "%s::create from a %s" % (short(f.cr or f.c), kind[9:])
                with Law(W, "select-create", what, f) as law:
                    n = 0
                    for o in law.run(W.world(kind), f, None, ("@", EXEC), ("@", W.mesh), ("@", INPUT)):
                        n += selected(W, law, o, kind, tbl, word)
                    if not n and not law.fails and not law.unds:
                        law.fails.append(("no input gives an object", []))
    for f in W.all("create", "SolverFactory", 2):
        tbl = W.table(f)
        with Law(W, "select-create", "%s::create from a Dictionary" % short(f.cr or f.c), f) as law:
            st = W.world()
            n = 0
            for o in law.run(st, f, None, ("@", EXEC), ("@", INPUT)):
                n += selected(W, law, o, None, tbl, "solver", mesh=False)
            if not n and not law.fails and not law.unds:
                law.fails.append(("no dictionary gives an object", []))


def keyof(W, kind, word, st):
    """what the key must be, as a test on a term"""
    D = ("anyval", S("in"), kind) if kind else S("in")

    def test(k):
        if k[0] != "anyval" or "basic_string" not in k[2]:
            return False
        x = k[1]
        if kind != TOK:
            return x[0] == "sel" and x[2] == C(word) and contains(x[1], D)
        return x[0] == "elt" and contains(x[1], D) and contains(x[2], D) and x[2][0] == "fld"
    return test


def selected(W, law, o, kind, tbl, word, mesh=True):
    """judges one outcome of a create; 1 when an object comes back"""
    st = o.st
    inv = invokes(st)
    if o.k == "t":
        if inv:
            law.fail(st, "throws after something was created")
        return 0
    if o.k == "x":
        if inv:
            law.fail(st, "ends the program after something was created")
        elif not any(k[0] == "has" and v is False and contains(k[1], ("glob", tbl[0][1])) for k, v in st.facts.items() if isinstance(k, tuple)):
            law.fail(st, "ends the program although the name is registered")
        return 0
    if not law.kind(o, "n", "create"):
        return 0
    if len(inv) != 1:
        law.fail(st, "%d registered constructors run" % len(inv))
        return 0
    e = inv[0]
    fv = st.nz(e[1])
    if fv[0] != "sel" or not contains(fv[1], ("glob", tbl[0][1])):
        law.fail(st, "what runs is not an entry of the factory's table: " + show(fv)[:120], fv)
        return 0
    if not keyof(W, kind, word, st)(fv[2]):
        law.fail(st, "the name is not the one the input gives: " + show(fv[2])[:160], fv[2])
        return 0
    args = list(e[2])
    want = [("executor", EXEC)] + ([("mesh", W.mesh)] if mesh else []) + [("input", INPUT)]
    if len(args) != len(want):
        law.fail(st, "%d arguments go to the constructor" % len(args))
        return 0
    for a, (n, loc) in zip(args, want):
        if not isobj(W, a, loc, st):
            law.fail(st, "the constructor gets another %s: %s" % (n, show(a)[:120]), a)
    if kind == TOK:
        loc = (INPUT[0], INPUT[1] + (("a", TOK),))
        cur = W.cursor(st, loc)
        x = fv[2][1][2]
        if cur is None:
            law.unds.append("the position in the token list is not known")
        elif P.sub(st.nz(cur), x) != C(1) and not P.same(P.sub(st.nz(cur), x), P.const(1)):
            law.fail(st, "the position after the name is %s, it was %s" % (show(cur)[:60], show(x)[:60]))
    v = st.nz(o.v)
    if not contains(v, fv):
        law.fail(st, "what comes back is not what the registered constructor made: " + show(v)[:120], v)
    return 1




# ------------------------------------------------------------------ front ends
OBJ = (("p", "obj"), ())
KER = (("p", "k"), ())
KERNEL = S("kernel")


def classes(W, cls):
    """instances of the template cls, by the classes of its constructors"""
    return sorted({f.cr or f.c for f in W.all(cls, cls)})


def params(f):
    return [p["t"].s for p in f.p]


def ctors(W, cls, c):
    r = {"input": [], "pointer": [], "plain": [], "move": [], "copy": []}
    for f in W.all(cls, cls):
        if (f.cr or f.c) != c:
            continue
        last = f.p[-1]["t"].s if f.p else ""
        if f.ctor == 2:
            r["copy"].append(f)
        elif f.ctor == 3:
            r["move"].append(f)
        elif "unique_ptr" in last:
            r["pointer"].append(f)
        elif "variant<NeoFOAM::Dictionary" in last or last.endswith("Dictionary &"):
            r["input"].append(f)
        else:
            r["plain"].append(f)
    return r


def vcalls(st, start=0):
    return [e for e, _ in st.eff[start:] if e[0] == "vcall"]


def kernelof(W, e, st):
    """the pointer a recorded call went through"""
    ob = e[2]
    if ob is None or ob[1] != ():
        return None
    r = ob[0]
    return st.nz(r[1]) if r[0] == "deref" else r


def isnull(st, k):
    return any(b is True and isinstance(f, tuple) and f[0] in ("eq0", "eq", "null", "isnull") and contains(f, k) or
               b is False and isinstance(f, tuple) and f[0] in ("truth", "nn", "nonnull", "bool") and contains(f, k) for f, b in st.facts.items())


class Made:
    """one way to construct an object: the state after it and the pointer it has to call"""

    def __init__(self, how, st, kernel):
        self.how, self.st, self.kernel = how, st, kernel


def deliver(W, law, st, f, args, how, kind=None, want=None):
    """constructs obj; the states in which that succeeds with the pointer the object must hold"""
    st = st.clone()
    st.store[OBJ[0]] = ("rec", f.cr or f.c, (), None)
    r = []
    for o in law.run(st, f, OBJ, *args):
        if how == "input":
            inv = invokes(o.st)
            if o.k != "n":
                if inv:
                    law.fail(o.st, "the constructor does not return although a kernel was made")
                continue
            if len(inv) != 1:
                law.fail(o.st, "%d kernels are made" % len(inv))
                continue
            if want is not None:
                want(law, o.st, inv[0])
            r.append(Made(how, o.st, ("made", o.st.nz(inv[0][1]))))
        else:
            if not law.kind(o, "n", "the constructor"):
                continue
            r.append(Made(how, o.st, KERNEL))
    return r


def iskernel(st, got, want):
    if got is None:
        return False
    if want[0] == "made":
        return contains(got, want[1])
    return got == want


def forwards(W, law, m, f, args, what, extra=None, start=None):
    """f called on obj calls the kernel once with the arguments in the order given"""
    n0 = len(m.st.eff)
    for o in law.run(m.st.clone(), f, OBJ, *[("@", a) for a in args]):
        if o.k == "x" and m.kernel == KERNEL and isnull(o.st, KERNEL):
            continue
        if not law.kind(o, "n", what):
            continue
        v = vcalls(o.st, n0)
        want = [("ptr", a) for a in args]
        if f.ret.strip().s != "void" and f.ret.isref() is False and o.v[0] not in ("void",) and f.n in ("interpolate", "faceNormalGrad"):
            want = want + [None]
        if len(v) != 1:
            law.fail(o.st, "%s: %d calls go to the kernel" % (what, len(v)))
            continue
        e = v[0]
        if e[1] != f.n:
            law.fail(o.st, "%s calls %s" % (what, e[1]))
        if not iskernel(o.st, kernelof(W, e, o.st), m.kernel):
            law.fail(o.st, "%s goes to another kernel: %s" % (what, show(kernelof(W, e, o.st) or C(None))[:120]))
        if len(e[3]) != len(want) or any(w is not None and a != w for a, w in zip(e[3], want)):
            law.fail(o.st, "%s hands on %s" % (what, ", ".join(show(a)[:40] for a in e[3])))
        if f.ret.isref() and not contains(o.v, ("deref", st_kernel(W, e, o.st))):
            law.fail(o.st, "%s gives something else than the kernel does: %s" % (what, show(o.v)[:120]), o.v)
        if want[-1:] == [None] and len(e) > 4:
            result(W, law, o, e, what, f)


def st_kernel(W, e, st):
    r = e[2][0] if e[2] is not None else None
    return r[1] if r is not None and r[0] == "deref" else r


def result(W, law, o, e, what, f):
    """the field that comes back is the one the kernel has filled"""
    k = e[4]
    if k is None:
        law.unds.append(what + ": the field the kernel gets is not known")
        return
    st = o.st
    if o.v[0] == "@":
        loc = o.v[1]
    else:
        loc = (("p", "back"), ())
        st.store[loc[0]] = o.v
    A = W.accarr(st, loc, ("GeometricFieldMixin", "internalField"), k=k)
    got = W.elem(A, I0, k, st) if A is not None else None
    if got is None or has_unk(got):
        law.unds.append(what + ": the field that comes back is not known")
    elif got not in (S("written"), ("vsym", "written")):
        law.fail(st, "%s gives back another field than the kernel filled: %s" % (what, show(got)[:100]), got)
    ex = W.rd1(EXEC, st)
    if st.nz(e[5]) != st.nz(ex):
        law.fail(st, "%s makes its field on %s" % (what, show(e[5])[:80]), e[5])


def front(W, rep):
    for cls, methods in (("SurfaceInterpolation", ("interpolate", "weight")), ("FaceNormalGradient", ("faceNormalGrad", "deltaCoeffs")), ("Solver", ("solve",))):
        for c in classes(W, cls):
            if cls == "Solver" and "la::" not in c:
                continue
            cs = ctors(W, cls, c)
            ms = [f for m in methods for f in W.all(m, cls) if (f.cr or f.c) == c]
            for how in ("pointer", "input", "move"):
                for f in cs[how]:
                    with Law(W, "select-front", "%s made from %s" % (short(c), {"pointer": "a kernel", "input": "an input", "move": "another one"}[how]), f) as law:
                        one(W, law, c, cls, cs, how, f, ms)


def one(W, law, c, cls, cs, how, f, ms):
    st = W.world(DICT if cls != "Solver" else None)
    st.store[KER[0]] = ("uptr", KERNEL)
    W.field(st, "flux", "surf")
    W.field(st, "src", "vol")
    W.field(st, "dst", "surf")
    for n in ("ls", "x"):
        st.store[("p", n)] = S(n)
    mesh = [("@", W.mesh)] if cls != "Solver" else []
    if how == "move":
        made = []
        for g in cs["pointer"][:1]:
            for m in deliver(W, law, st, g, [("@", EXEC)] + mesh + [("@", KER)], "pointer"):
                s = m.st
                s.store[("p", "from")] = s.store.pop(OBJ[0])
                made += deliver(W, law, s, f, [("@", (("p", "from"), ()))], how)
    else:
        def want(law, st, e):
            args = list(e[2])
            for a, (n, loc) in zip(args, [("executor", EXEC)] + ([("mesh", W.mesh)] if mesh else []) + [("input", INPUT)]):
                if not isobj(W, a, loc, st):
                    law.fail(st, "the kernel is made with another %s" % n)
        made = deliver(W, law, st, f, [("@", EXEC)] + mesh + [("@", KER if how == "pointer" else INPUT)], how, want=want)
    if not made and not law.fails and not law.unds:
        law.fails.append(("no object is ever made", []))
    for m in made:
        for g in ms:
            names = {1: ("src",), 2: ("src", "dst"), 3: ("flux", "src", "dst"), 0: ()}[len(g.p)]
            if cls == "Solver":
                names = ("ls", "x")
            forwards(W, law, m, g, [(("p", n), ()) for n in names], g.n)


# ------------------------------------------------------------------ operators
FLUX, PHI = (("p", "flux"), ()), (("p", "phi"), ())
OPS = (("DivOperator", "div", "DivOperatorFactory", "divSchemes", "div("), ("LaplacianOperator", "laplacian", "LaplacianOperatorFactory", "laplacianSchemes", "laplacian("))
IMPLICIT, EXPLICIT = C(0), C(1)


def text(*parts):
    """the string the parts make, as a term"""
    r = []
    for p in parts:
        if p[0] == "cat":
            r += p[1]
        elif r and p[0] == "c" and r[-1][0] == "c":
            r[-1] = C(r[-1][1] + p[1])
        else:
            r.append(p)
    return ("cat", tuple(r))


def opworld(W, kind=DICT):
    st = W.world(kind)
    W.field(st, "flux", "surf")
    W.field(st, "phi", "vol")
    W.raw(st, "sum", S("nsum"))
    st.store[("p", "ls")] = S("ls")
    st.store[KER[0]] = ("uptr", KERNEL)
    st.facts[("eq", C(None), KERNEL)] = False
    return st


def member(W, st, cls, name, loc=OBJ):
    """the values the accessor of obj gives"""
    for f in W.all(name, cls, 0) + W.all(name, "OperatorMixin", 0):
        outs = W.I.enter(f, loc, (), st.clone())
        outs = [o for o in outs if o.k == "n"]
        if len(outs) == 1:
            return outs[0].v, outs[0].st
    return None, st


def fieldexec(W, st):
    """the executor of phi"""
    for f in W.all("exec", "GeometricFieldMixin", 0):
        outs = [o for o in W.I.enter(f, PHI, (), st.clone()) if o.k == "n"]
        if len(outs) == 1:
            v = outs[0].v
            return W.rd1(v[1], st) if v[0] == "@" else v
    return None


def operators(W, rep):
    for cls, meth, fac, sub, pre in OPS:
        for c in classes(W, cls):
            cs = ctors(W, cls, c)
            for how, label in (("plain", "nothing selected"), ("input", "an input"), ("pointer", "a scheme")):
                for f in cs[how]:
                    for typ, tn in ((IMPLICIT, "implicit"), (EXPLICIT, "explicit")):
                        with Law(W, "select-operator", "%s %s made with %s" % (tn, short(c), label), f) as law:
                            operator(W, law, cls, c, meth, how, f, typ)
            for f in [g for g in W.all("build", cls, 1) if (g.cr or g.c) == c]:
                for kind in (DICT, TOK):
                    for first in cs["plain"][:1] + cs["pointer"][:1]:
                        with Law(W, "select-build", "build of a %s%s from a %s" % (short(c), "" if first in cs["plain"] else " that has a scheme", kind[9:]), f) as law:
                            build(W, law, cls, c, meth, fac, sub, pre, f, first, kind)


def attributes(W, law, st, cls, typ):
    v, _ = member(W, st, cls, "getType")
    if v is None:
        law.unds.append("the type is not known")
    elif st.nz(v) != typ:
        law.fail(st, "the operator's type is %s" % show(v), v)
    v, _ = member(W, st, cls, "getField")
    if v is None or v[0] != "@":
        law.unds.append("the field is not known")
    elif v[1] != PHI:
        law.fail(st, "the operator's field is another one")
    v, _ = member(W, st, cls, "exec")
    if v is not None and v[0] == "@":
        v = W.rd1(v[1], st)
    ex = fieldexec(W, st)
    if v is None or ex is None:
        law.unds.append("the executor is not known")
    elif st.nz(v) != st.nz(ex):
        law.fail(st, "the operator's executor is not its field's: %s" % show(v)[:80], v)
    loc, s = member(W, st, cls, "getCoefficient")
    if loc is None or loc[0] != "@":
        law.unds.append("the coefficient is not known")
        return None
    g = next((g for g in W.all("operator[]", "Coeff", 1)), None)
    if g is not None:
        for o in W.call(st, g, loc[1], I0):
            if o.k == "n" and st.nz(o.v) != C(1) and not P.same(o.v, P.const(1)):
                law.fail(st, "a new operator's coefficient is %s" % show(o.v)[:60], o.v)
    return loc[1]


def operator(W, law, cls, c, meth, how, f, typ):
    st = opworld(W)
    args = [typ, ("@", FLUX), ("@", PHI)] + ([("@", KER if how == "pointer" else INPUT)] if how != "plain" else [])

    def want(law, st, e):
        a = list(e[2])
        ex = fieldexec(W, st)
        if ex is None or st.nz(a[0]) != st.nz(ex):
            law.fail(st, "the scheme is made for another executor than the field's")
        if not isobj(W, a[1], W.mesh, st):
            law.fail(st, "the scheme is made for another mesh than the field's")
        if not contains(a[2], S("in")):
            law.fail(st, "the scheme is made from another input")
    made = deliver(W, law, st, f, args, how, want=want)
    if not made and not law.fails and not law.unds:
        law.fails.append(("no operator is ever made", []))
    for m in made:
        coef = attributes(W, law, m.st, cls, typ)
        if coef is None:
            return
        for o in W.I.wr(coef, S("cf"), m.st):
            m.st = o.st
        use(W, law, m, cls, c, meth, C(None) if how == "plain" else None)


def use(W, law, m, cls, c, meth, null):
    """every evaluation goes to the scheme with the operator's own flux, field and coefficient"""
    SUM, LS = (("p", "sum"), ()), (("p", "ls"), ())
    n0 = len(m.st.eff)
    for name in ("explicitOperation", "implicitOperation") + ((meth,) if null is None else ()):
        for f in [g for g in W.all(name, cls, 1) if (g.cr or g.c) == c]:
            t = f.p[0]["t"].s
            arg = LS if "LinearSystem" in t else PHI if "VolumeField" in t else SUM
            for o in law.run(m.st.clone(), f, OBJ, ("@", arg)):
                v = vcalls(o.st, n0)
                if null is not None:
                    if v:
                        law.fail(o.st, "%s calls a scheme although none was selected" % name)
                    continue
                if o.k == "x" and isnull(o.st, m.kernel[1] if m.kernel[0] == "made" else m.kernel):
                    continue
                if not law.kind(o, "n", name):
                    continue
                if len(v) != 1:
                    law.fail(o.st, "%s: %d calls go to the scheme" % (name, len(v)))
                    continue
                e = v[0]
                if e[1] != meth:
                    law.fail(o.st, "%s calls %s" % (name, e[1]))
                if not iskernel(o.st, kernelof(W, e, o.st), m.kernel):
                    law.fail(o.st, "%s goes to another scheme: %s" % (name, show(kernelof(W, e, o.st) or C(None))[:120]))
                a = e[3]
                if len(a) != 4 or a[1] != ("ptr", FLUX) or a[2] != ("ptr", PHI):
                    law.fail(o.st, "%s hands on %s" % (name, ", ".join(show(x)[:40] for x in a)))
                    continue
                if name == "explicitOperation":
                    continue        # what arrives in the source is judged with the Gauss schemes
                cf = a[3] if a[3][0] != "ptr" else W.rd1(a[3][1], o.st)
                if cf is None or has_unk(cf):
                    law.unds.append(name + ": the coefficient is not known")
                elif not (cf == S("cf") or cf[0] == "rec" and cf[3] == S("cf") and not cf[2]) and not fieldsof(cf, S("cf")):
                    law.fail(o.st, "%s hands on another coefficient: %s" % (name, show(cf)[:120]), cf)
                if a[0] != ("ptr", arg):
                    law.fail(o.st, "%s evaluates into something else: %s" % (name, show(a[0])[:80]))


def fieldsof(v, base):
    """is the record put together of the members of base, each at its own place"""
    return v[0] == "rec" and v[2] and all(x == ("fld", base, n) or x[0] == "rec" and x[3] == ("fld", base, n) and not x[2] for n, x in v[2])


def schemekey(W, st, kind, sub, pre, key):
    """is key the next token of the list that the input gives for this operator; else what it is"""
    if key[0] != "anyval" or "basic_string" not in key[2] or key[1][0] != "elt":
        return "the scheme is not the next token: " + show(key)[:200]
    data, cur = key[1][1], key[1][2]
    if data[0] != "fld" or cur[0] != "fld" or data[1] != cur[1]:
        return "the scheme is not the next token: " + show(key)[:200]
    T = data[1]
    if kind == TOK:
        return None if T == ("anyval", S("in"), TOK) else "the tokens are not the input's: " + show(T)[:160]
    names = [W.rd1((x[0], x[1] + (("f", "name"),)), st) for x in (FLUX, PHI)]
    want = text(C(pre), names[0], C(","), names[1], C(")"))
    if T[0] != "anyval" or T[2] != TOK or T[1][0] != "sel":
        return "the tokens are not an entry of the input: " + show(T)[:160]
    if T[1][2] != want:
        return "the tokens are the entry %s, not %s" % (show(T[1][2])[:100], show(want)[:100])
    D = T[1][1]
    if not (D[0] == "fld" and D[1][0] == "anyval" and D[1][1][0] == "sel" and D[1][1][2] == C(sub) and contains(D[1][1][1], ("anyval", S("in"), DICT))):
        return "the tokens do not come from %s: %s" % (sub, show(D)[:160])
    return None


def build(W, law, cls, c, meth, fac, sub, pre, f, first, kind):
    st = opworld(W, kind)
    plain = len(first.p) == 3
    made = deliver(W, law, st, first, [EXPLICIT, ("@", FLUX), ("@", PHI)] + ([] if plain else [("@", KER)]), "plain" if plain else "pointer")
    tbl = None
    g = next((g for g in W.all("create", fac, 3)), None)
    if g is not None:
        tbl = W.table(g)
    n = 0
    for m in made:
        coef = attributes(W, law, m.st, cls, EXPLICIT)
        if coef is None:
            return
        for o in W.I.wr(coef, S("cf"), m.st):
            m.st = o.st
        for o in law.run(m.st.clone(), f, OBJ, ("@", INPUT)):
            inv = invokes(o.st)
            if o.k != "n":
                if inv:
                    law.fail(o.st, "build does not return although a scheme was made")
                elif o.k == "x" and not any(k[0] == "has" and v is False for k, v in o.st.facts.items() if isinstance(k, tuple)):
                    law.fail(o.st, "build ends the program although the scheme is registered")
                continue
            n += 1
            if len(inv) != 1:
                law.fail(o.st, "build makes %d schemes" % len(inv))
                continue
            fv = o.st.nz(inv[0][1])
            if fv[0] != "sel" or tbl is not None and not contains(fv[1], ("glob", tbl[0][1])):
                law.fail(o.st, "what runs is not an entry of %s" % fac, fv)
                continue
            msg = schemekey(W, o.st, kind, sub, pre, fv[2])
            if msg:
                law.fail(o.st, msg, fv[2])
                continue
            a = list(inv[0][2])
            ex = fieldexec(W, o.st)
            if ex is None or o.st.nz(a[0]) != o.st.nz(ex):
                law.fail(o.st, "the scheme is made for another executor than the field's")
            if not isobj(W, a[1], W.mesh, o.st):
                law.fail(o.st, "the scheme is made for another mesh than the field's")
            cur = fv[2][1][2]
            nxt = P.add(cur, C(1))
            if not contains(a[2], nxt) and not contains(a[2], ("lin", 1, ((cur, 1),))):
                law.fail(o.st, "the scheme does not get the tokens that follow its name")
            if W.rd1(INPUT, o.st) != W.rd1(INPUT, m.st):
                law.fail(o.st, "build changes the input it reads")
            m2 = Made("input", o.st, ("made", fv))
            use(W, law, m2, cls, c, meth, None)
    if not n and not law.fails and not law.unds:
        law.fails.append(("no input gives a scheme", []))


# ------------------------------------------------------------------ what the schemes read, and the expression helpers
def consumes(W, rep):
    for cls, facs in (("GaussGreenDiv", FACTORIES[:1]), ("GaussGreenLaplacian", FACTORIES[:2])):
        for f in W.all(cls, cls, 3):
            if f.ctor != 1:
                continue
            vec = "Vector" in (f.cr or "")
            tbls = []
            for fac, word in facs:
                g = next((g for g in W.all("create", fac, 3) if ("Vector" in (g.cr or g.c)) == vec), None)
                if g is None:
                    raise Broken("no create of " + fac)
                tbls.append(W.table(g))
            for kind in (TOK, DICT):
                with Law(W, "select-consume", "%s made from a %s" % (short(f.cr), kind[9:]), f) as law:
                    st = opworld(W, kind)
                    st.store[OBJ[0]] = ("rec", f.cr, (), None)
                    n = 0
                    for o in law.run(st, f, OBJ, ("@", EXEC), ("@", W.mesh), ("@", INPUT)):
                        if o.k != "n":
                            if o.k == "x" and not any(k[0] == "has" and v is False for k, v in o.st.facts.items() if isinstance(k, tuple)):
                                law.fail(o.st, "ends the program although the names are registered")
                            continue
                        n += 1
                        consumed(W, law, o, kind, facs, tbls)
                    if not n and not law.fails and not law.unds:
                        law.fails.append(("no input makes one", []))


def consumed(W, law, o, kind, facs, tbls):
    st = o.st
    inv = invokes(st)
    if len(inv) != len(facs):
        law.fail(st, "%d schemes are made, %d belong to it" % (len(inv), len(facs)))
        return
    D = ("anyval", S("in"), kind)
    obj = W.rd1(OBJ, st)
    cur = None
    for k, ((fac, word), tbl) in enumerate(zip(facs, tbls)):
        e = next((e for e in inv if contains(e[1], ("glob", tbl[0][1]))), None)
        if e is None:
            law.fail(st, "nothing comes from the " + fac)
            return
        key = st.nz(e[1])[2]
        if key[0] != "anyval" or not contains(key, D):
            law.fail(st, "the name for the %s is not the input's: %s" % (fac, show(key)[:120]), key)
            return
        if kind == DICT:
            if key[1][0] != "sel" or key[1][2] != C(word):
                law.fail(st, "the name for the %s is read from %s" % (fac, show(key[1])[-80:]), key)
                return
        else:
            if key[1][0] != "elt":
                law.fail(st, "the name for the %s is not a token: %s" % (fac, show(key)[:120]), key)
                return
            pos = key[1][2]
            if k == 0:
                cur = pos
                if pos[0] != "fld":
                    law.fail(st, "the %s is not named by the next token" % fac, pos)
                    return
            elif not P.same(P.sub(pos, cur), P.const(k)):
                law.fail(st, "the %s is named by token %s, not the one after the others" % (fac, show(pos)[:80]), pos)
                return
        if not isobj(W, e[2][0], EXEC, st) or not isobj(W, e[2][1], W.mesh, st):
            law.fail(st, "the %s makes its scheme for another executor or mesh" % fac)
        if obj is None or not contains(obj, st.nz(e[1])):
            law.fail(st, "the scheme of the %s is not kept" % fac)
    if kind == TOK:
        now = W.cursor(st, (INPUT[0], INPUT[1] + (("a", TOK),)))
        if now is None:
            law.unds.append("the position in the token list is not known")
        elif not P.same(P.sub(st.nz(now), cur), P.const(len(facs))):
            law.fail(st, "%s tokens are used up" % show(P.sub(st.nz(now), cur))[:60])


CO_ = (("p", "co"), ())
HELPERS = {("ddt", 1): "DdtOperator", ("div", 2): "DivOperator", ("div", 1): "SurfaceIntegrate", ("source", 2): "SourceTerm", ("laplacian", 2): "LaplacianOperator"}


def helpers(W, rep):
    fs = [f for f in W.P.funcs.values() if f.b is not None and f.q.startswith(("NeoFOAM::dsl::exp::", "NeoFOAM::dsl::imp::")) and (f.n, len(f.p)) in HELPERS]
    for f in sorted(fs, key=lambda f: (f.q, len(f.p))):
        with Law(W, "select-dsl", "%s of %d argument%s" % (f.q[9:], len(f.p), "s" if len(f.p) > 1 else ""), f) as law:
            helper(W, law, f)


def helper(W, law, f):
    typ = EXPLICIT if "::exp::" in f.q else IMPLICIT
    cls = HELPERS[f.n, len(f.p)]
    st = opworld(W)
    W.field(st, "co", "vol")
    refs = [FLUX if "SurfaceField" in p["t"].s else PHI for p in f.p]
    if f.n == "source":
        refs[0] = CO_
    for o in law.run(st, f, None, *[("@", x) for x in refs]):
        if o.k == "t":
            continue        # the old time of a field that is stored under a name already
        if not law.kind(o, "n", f.n):
            continue
        st = o.st
        st.store[OBJ[0]] = o.v
        oc = o.v[1] if o.v[0] == "rec" else ""

        def ask(n, const=None):
            for g in W.all(n, oc.split("<")[0].rsplit("::", 1)[-1], 0):
                if (g.cr or g.c) == oc and const in (None, g.const):
                    r = [x for x in W.I.enter(g, OBJ, (), st.clone()) if x.k == "n"]
                    if len(r) == 1:
                        return r[0]
            return None
        r = ask("getType")
        if r is None:
            law.unds.append("the type is not known")
        elif r.st.nz(r.v) != typ:
            law.fail(r.st, "the operator's type is %s" % show(r.v), r.v)
        r = ask("getCoefficient", False)
        if r is None or r.v[0] != "@":
            law.unds.append("the coefficient is not known")
            continue
        loc = r.v[1]
        g = next((g for g in W.all("operator[]", "Coeff", 1)), None)
        for x in W.call(st, g, loc, I0) if g is not None else ():
            if x.k == "n" and x.st.nz(x.v) != C(1) and not P.same(x.v, P.const(1)):
                law.fail(x.st, "the coefficient is %s" % show(x.v)[:60], x.v)
        conc = (loc[0], loc[1][:-1])
        v = W.rd1(conc, st)
        if v is None or v[0] != "rec":
            law.unds.append("the operator inside is not known")
            continue
        if v[1].split("<")[0].rsplit("::", 1)[-1] != cls:
            law.fail(st, "it holds a %s" % short(v[1]))
            continue
        held = [x for _, x in v[2]]
        for x in refs:
            if ("ptr", x) not in held:
                law.fail(st, "the operator does not refer to the %s given" % x[0][1])
        if f.p and refs[-1] == PHI:
            fl, _ = member(W, st, cls, "getField", conc)
            if fl is None or fl[0] != "@":
                law.unds.append("the field is not known")
            elif fl[1] != PHI:
                law.fail(st, "the operator's field is another one")
        r = ask("exec")
        w = fieldexec(W, st)
        if r is not None and w is not None and refs[-1] == PHI:
            e = W.rd1(r.v[1], r.st) if r.v[0] == "@" else r.v
            if e is not None and st.nz(e) != st.nz(w):
                law.fail(st, "the operator's executor is not its field's: " + show(e)[:60], e)


@rule("C40")
def c40(rep):
    W = Select(load("full"), rep)
    rep.rule("select-create", "each create runs exactly the constructor registered under the name the input gives, on the executor, mesh and input given", 12)
    create(W, rep)
    rep.rule("select-front", "the scheme front ends hold the kernel given or selected and hand every call on to it, arguments in order", 15)
    front(W, rep)
    rep.rule("select-operator", "div and laplacian operators keep the type, field, flux and coefficient given and evaluate by the scheme selected", 12)
    rep.rule("select-build", "build selects the scheme listed for the operator's own flux and field, on their executor and mesh, and leaves the input as it was", 8)
    operators(W, rep)
    rep.rule("select-consume", "the Gauss schemes read interpolation, then face-normal gradient, each from the next token or its own entry", 8)
    consumes(W, rep)
    rep.rule("select-dsl", "the dsl helpers make the operator they name, of their type, on the fields given, with coefficient one", 7)
    helpers(W, rep)
