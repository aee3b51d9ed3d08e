"""Expression algebra (C30), coefficients (C31) and time integration (C32)."""
from . import absint, poly as P
from .absint import C, S, N, VOID, EMPTYSEQ, as_seq, norm_seq, bind, has_unk
from .engine import load, Broken
from .kern import bindkey
from .lab import Law, show, Fail
from .rules import rule
from .rules_field import FieldLab, isexec, INST
from .rules_par import exval

D = "NeoFOAM::dsl::"
CO = D + "Coeff"
IDX = S("i")
IMPLICIT, EXPLICIT = C(0), C(1)


class DslLab(FieldLab):
    def __init__(self, P_, rep):
        super().__init__(P_, rep)
        I = self.I
        I.real |= {k for k in I.km if k.startswith(D)}
        self.nsaw = 0
        for what, q in (("explicit", "sawExplicit"), ("explicit-t", "sawExplicitT"), ("implicit", "sawImplicit"), ("implicit-t", "sawImplicitT"), ("build", "sawBuild")):
            I.km["nfprobe::" + q] = self.saw(what)
        element_copies(I)

    def saw(self, what):
        L = self

        def h(I, f, ob, a, st):
            vals = []
            for x in a:
                if x[0] == "@" and x[1][1] == () or x[0] == "@":
                    vals.append(x)
                else:
                    vals.append(st.nz(x))
            obj = L.place(a[1])
            coef = None
            if what != "build":
                coef = L.coeffat(st, L.place(a[-1]))
            tdt = tuple(I.val(x, st)[0].v for x in a[2:-1]) if what != "build" else ()
            before = after = None
            if what.startswith("explicit") and obj is not None:
                before = L.elem(st, obj, "F", IDX)
                L.nsaw += 1
                after = S("after%d" % L.nsaw)
                A = L.block(st, obj, "F")
                if A is not None:
                    I.setcontent(A, ("map", C(0), L.size(st, obj, "F"), 1, ("rd", after, ("bk", 1)), ("uninit",)), st)
            ident = I.val(a[0], st)[0].v
            st.event("saw", C(what), ident, ("at", obj), coef if coef is not None else ("unk", "coef"), tdt, before or ("unk", "value"), after or VOID)
            return N(VOID, st)
        return h

    def place(self, x):
        return x[1] if x[0] == "@" else None

    def fnq(self, q, n=None):
        for f in self.P.byq(q):
            if f.b is not None and (n is None or len(f.p) == n):
                return f
        raise Broken("interface function not found: " + q)

    def coeffat(self, st, loc):
        """value of a coefficient at element i"""
        if loc is None:
            return None
        f = self.fnq("nfprobe::coeffAt")
        outs = [o for o in self.I.enter(f, None, (("@", loc), IDX), st.clone()) if o.k == "n"]
        if len(outs) != 1:
            return None
        return outs[0].st.nz(outs[0].v)


def element_copies(I):
    """copying a vector, or pushing an element, copies the elements with their own copy constructor"""
    M = I.models
    push, ctor = M["std::vector::push_back"], M["std::vector::ctor"]

    def copyctor(t):
        t = t.strip()
        if not t.rec:
            return None
        for f in I.P.funcs.values():
            if f.cr == t.rec and f.ctor == 2 and f.b is not None and not f.implicit:
                return f
        return None

    def dup(f, loc, st):
        r = (I.fresh("v"), ())
        st.store[r[0]] = ("rec", f.cr, (), None)

        def made(_, s):
            return N(s.store[r[0]], s)
        return bind(I.enter(f, r, (("@", loc),), st), made)

    def m_push(I_, e, f, ob, a, st):
        pt = f["pt"][0]
        c = copyctor(pt)
        if c is None or pt.k == "rref" or a[0][0] != "@":
            return push(I_, e, f, ob, a, st)
        return bind(dup(c, a[0][1], st), lambda v, s: push(I_, e, f, ob, (v,), s))
    M["std::vector::push_back"] = m_push

    def m_ctor(I_, e, f, ob, a, st):
        t = (e or {}).get("t")
        et = t.strip().ta[0] if t is not None and t.strip().ta else None
        c = copyctor(et) if f["ctor"] == 2 and et is not None else None
        if c is None:
            return ctor(I_, e, f, ob, a, st)
        loc = a[0][1] if a[0][0] == "@" else None

        def go(v, s):
            parts = as_seq(v)[1]
            if loc is None or any(p[0] != "e" for p in parts):
                return N(I.unk("copy of a vector of unknown length"), s)
            outs = [((), s)]
            for k in range(len(parts)):
                nxt = []
                for got, s2 in outs:
                    for o in dup(c, I.ext(loc, ("i", C(k))), s2):
                        if o.k == "n":
                            nxt.append((got + (("e", o.v),), o.st))
                outs = nxt
            r = []
            for got, s2 in outs:
                r += N(norm_seq(got), s2)
            return r
        return bind(I.val(a[0], st), go)
    M["std::vector::ctor"] = m_ctor


def here(name):
    return (("p", name), ())


def lab(rep, cls=DslLab):
    return cls(load("full"), rep)


class Op:
    """a probe operator: spatial or temporal, implicit or explicit, with a coefficient"""

    def __init__(self, ident, kind, typ, coef):
        self.id, self.kind, self.typ, self.coef = ident, kind, typ, coef

    def seen(self):
        """what an evaluation of the expression has to show of it"""
        return ("explicit" if self.typ == EXPLICIT else "implicit") + ("-t" if self.kind == "t" else "")

    def scaled(self, s):
        return Op(self.id, self.kind, self.typ, P.mul(self.coef, s))


def only(outs, what):
    outs = [o for o in outs if o.k != "never"]
    if len(outs) != 1 or outs[0].k != "n":
        raise Fail("%s: %d outcomes %s" % (what, len(outs), "".join(o.k for o in outs)))
    return outs[0].st


def mkcoef(L, st, name, kind):
    """a Coeff object at p:name; its value at element i"""
    root = ("p", name)
    st.store[root] = ("rec", CO, (), None)
    fld = [f for f in L.P.funcs.values() if f.c == CO and f.ctor == 1]
    if kind == "number":
        f = [f for f in fld if len(f.p) == 1 and f.p[0]["t"].strip().k != "rec" and "Field" not in f.p[0]["t"].s]
        st = only(L.call(st, f[0], (root, ()), S(name)), "Coeff(value)")
    else:
        (st, loc), = L.construct(st, name + "Field", "F", "CPUExecutor", S("n"))[:1]
        f = [f for f in fld if len(f.p) == 2]
        st = only(L.call(st, f[0], (root, ()), S(name), loc), "Coeff(value, field)")
    v = L.coeffat(st, (root, ()))
    if v is None:
        raise Fail("value of a coefficient not known")
    return st, v


def mkop(L, st, name, ident, kind, typ, ckind="number"):
    st, v = mkcoef(L, st, "c%d" % ident, ckind)
    f = L.fnq("nfprobe::" + ("spatial" if kind == "s" else "temporal"))
    e = L.ex(st, "exec", "CPUExecutor")
    outs = L.call(st, f, None, e, C(ident), typ, here("c%d" % ident))
    st = only(outs, "operator")
    st.store[("p", name)] = outs[0].v
    return st, Op(ident, kind, typ, v)


def mkexpr(L, st, name, specs, base):
    """an expression of operators specs = [(kind, type, coefficient kind)], added through the interface"""
    cls = D + "Expression"
    f = [f for f in L.P.funcs.values() if f.c == cls and f.ctor == 1 and f.b is not None]
    if not f:
        raise Broken("Expression has no constructor")
    st.store[("p", name)] = ("rec", f[0].cr, (), None)
    e = L.ex(st, "exec", "CPUExecutor")
    st = only(L.call(st, f[0], here(name), e), "Expression(exec)")
    ops = []
    for k, (kind, typ, ck) in enumerate(specs):
        st, op = mkop(L, st, "%sop%d" % (name, k), base + k, kind, typ, ck)
        st = addop(L, st, name, "%sop%d" % (name, k), kind)
        ops.append(op)
    return st, ops


def addop(L, st, name, op, kind):
    want = "SpatialOperator" if kind == "s" else "TemporalOperator"
    f = [f for f in L.P.funcs.values() if f.c == D + "Expression" and f.n == "addOperator" and want in f.p[0]["t"].s]
    if not f:
        raise Broken("Expression::addOperator not found")
    return only(L.call(st, f[0], here(name), here(op)), "addOperator")


def method(L, name, n, what=None):
    r = [f for f in L.P.funcs.values() if f.c == D + "Expression" and f.n == name and len(f.p) == n and f.b is not None
         and (what is None or what(f))]
    if not r:
        raise Broken("Expression::%s not found" % name)
    return r[0]


def saws(st, start=0):
    return [e[1:] for e, _ in st.eff[start:] if e[0] == "saw"]


def newsource(L, st, name):
    (st, loc), = L.construct(st, name, "F", "CPUExecutor", S("n"))[:1]
    return st, loc


def same_multiset(law, st, got, want, what):
    """got, want: lists of (what, id, coefficient); every operator is met exactly once"""
    left = list(got)
    for w in want:
        hit = [g for g in left if g[0] == w[0] and g[1] == w[1]]
        if not hit:
            law.fail(st, "%s: the %s evaluation misses operator %s" % (what, w[0], show(w[1])))
            return False
        left.remove(hit[0])
        if len(w) > 2:
            if has_unk(hit[0][2]):
                law.unds.append(what + ": coefficient not known")
                return False
            if not P.iszero(P.sub(hit[0][2], w[2])):
                law.fail(st, "%s: operator %s has the coefficient %s, expected %s" % (what, show(w[1]), show(hit[0][2])[:80], show(w[2])[:80]), hit[0][2])
                return False
    for g in left:
        law.fail(st, "%s: the %s evaluation meets operator %s that it should not (again)" % (what, g[0], show(g[1])))
        return False
    return True


def evaluations(L):
    """(label, method, arguments) of the four evaluations"""
    isf = lambda f: "Field" in f.p[0]["t"].s   # noqa: E731
    return [("explicit", method(L, "explicitOperation", 1, isf), ()), ("implicit", method(L, "implicitOperation", 1), ()),
            ("explicit-t", method(L, "explicitOperation", 3), (S("t"), S("dt"))), ("implicit-t", method(L, "implicitOperation", 3), (S("t"), S("dt")))]


def contents(L, law, st, loc, ops, what, quiet=False):
    """the expression at loc consists of exactly these operators"""
    for kind, f, extra in evaluations(L):
        s, src = newsource(L, st.clone(), "source" + kind)
        s.store[("p", "ls")] = S("ls")
        start = len(s.eff)
        target = src if kind.startswith("explicit") else here("ls")
        for o in law.run(s, f, loc, target, *extra):
            if not law.kind(o, "n", what):
                return False
            got = [(g[0][1], g[1], g[3]) for g in saws(o.st, start)]
            want = [(op.seen(), C(op.id), op.coef) for op in ops if op.seen() == kind]
            if not same_multiset(law, o.st, got, want, what):
                return False
    return True


TYPES = (IMPLICIT, EXPLICIT)


def combos(n):
    r = [()]
    for _ in range(n):
        r = [x + (t,) for x in r for t in TYPES]
    return r


@rule("C30")
def c30(rep):
    rep.rule("dsl-eval", "an evaluation runs each operator of its kind exactly once on the target given, and no other", 40)
    rep.rule("dsl-algebra", "sums, differences and multiples hold every operand's operators once, with the right coefficients", 20)
    rep.rule("dsl-value", "expressions and operators are values: operands stay as they were and copies are independent", 8)
    L = lab(rep)
    evaluate(L)
    algebra(L)
    independence(L)


def guarded(law, f):
    try:
        f()
    except Fail as e:
        law.unds.append(str(e))


def evaluate(L):
    n = S("n")
    shapes = [()] + combos(1) + combos(2) + combos(3)
    for types in shapes:
        specs = [("s", t, "number" if k % 2 == 0 else "field") for k, t in enumerate(types)]
        tspecs = [("t", t, "number") for t in types[:2]]
        label = "operators " + ("".join("IE"[t[1]] for t in types) or "none")
        st = L.start(n)
        st, ops = mkexpr(L, st, "ex", specs + tspecs, 1)
        for kind, f, extra in evaluations(L):
            with Law(L, "dsl-eval", "%s: %s" % (label, kind), f) as law:
                s, src = newsource(L, st.clone(), "source")
                s.store[("p", "ls")] = S("ls")
                target = src if kind.startswith("explicit") else here("ls")
                start = len(s.eff)
                for o in law.run(s, f, here("ex"), target, *extra):
                    evaluated(L, law, o, kind, ops, target, start, extra, S("source0"))
        zero = method(L, "explicitOperation", 1, lambda f: "Field" not in f.p[0]["t"].s)
        with Law(L, "dsl-eval", "%s: explicit of nCells" % label, zero) as law:
            s = st.clone()
            start = len(s.eff)
            m = S("nCells")
            L.positive(s, m)
            for o in law.run(s, zero, here("ex"), m):
                evaluated(L, law, o, "explicit", ops, None, start, (), None, m)
        build = method(L, "build", 1)
        with Law(L, "dsl-eval", "%s: build" % label, build) as law:
            s = st.clone()
            start = len(s.eff)
            s.store[("p", "input")] = S("input")
            for o in law.run(s, build, here("ex"), here("input")):
                if not law.kind(o, "n", "build"):
                    continue
                evs = saws(o.st, start)
                same_multiset(law, o.st, [(e[0][1], e[1]) for e in evs], [("build", C(op.id)) for op in ops], "build")
                for e in evs:
                    if not handed(L, o.st, e[2], "input"):
                        law.fail(o.st, "build: an operator is not given the input")
        size = method(L, "size", 0)
        with Law(L, "dsl-eval", "%s: size" % label, size) as law:
            for o in law.run(st, size, here("ex")):
                if law.kind(o, "n", "size"):
                    law.val(o, C(len(ops)), "size")


def handed(L, st, at, name):
    """was the object called name given (directly, or as what a variant holds)?"""
    loc = at[1]
    if loc is None:
        return False
    if loc == here(name):
        return True
    v = [o.v for o in L.I.rd(loc, st.clone()) if o.k == "n"]
    return len(v) == 1 and absint.contains(v[0], S(name))


def evaluated(L, law, o, kind, ops, target, start, extra, src0, size=None):
    if not law.kind(o, "n", kind):
        return
    st = o.st
    evs = saws(st, start)
    want = [(op.seen(), C(op.id), op.coef) for op in ops if op.seen() == kind]
    if not same_multiset(law, st, [(e[0][1], e[1], e[3]) for e in evs], want, kind):
        return
    for e in evs:
        if target is not None and e[2][1] != target:
            law.fail(st, "%s: an operator works on another object than the one given" % kind)
            return
        if extra and tuple(e[4]) != tuple(extra):
            law.fail(st, "%s: the operators are given %s, expected (t, dt)" % (kind, show(e[4])))
            return
    if not kind.startswith("explicit"):
        return
    cur = ("rd", src0, IDX) if src0 is not None else C(0)
    for e in evs:
        if has_unk(e[5]):
            law.unds.append("the source an operator starts from is not known")
            return
        if not P.iszero(P.sub(e[5], cur)):
            law.fail(st, "%s: an operator starts from %s, expected what the operators before it left (%s)" % (kind, show(e[5])[:80], show(cur)[:60]), e[5])
            return
        cur = ("rd", e[6], IDX)
    st = st.clone()
    st.store[("p", "#result")] = st.nz(o.v)
    res = [(here("#result"), "the result")] + ([(target, "the source")] if target is not None else [])
    for loc, nm in res:
        v = L.elem(st, loc, "F", IDX)
        if v is None or has_unk(v):
            law.unds.append(nm + " is not known")
        elif not P.iszero(P.sub(v, cur)):
            law.fail(st, "%s: %s holds %s, expected what the last operator left (%s)" % (kind, nm, show(v)[:80], show(cur)[:60]), v)
        n = L.size(st, loc, "F")
        if n is not None and not law.same(st, n, size or S("n"), nm + ": size"):
            return
        x = L.exec(st, loc, "F")
        if x not in (None, "CPUExecutor"):
            law.fail(st, "%s: %s is on %s, the expression on CPUExecutor" % (kind, nm, x))


def algebra(L):
    n, s_ = S("n"), S("s")
    A = [("t", IMPLICIT, "number"), ("s", EXPLICIT, "number"), ("s", IMPLICIT, "field")]
    B = [("s", IMPLICIT, "number"), ("t", EXPLICIT, "number"), ("s", EXPLICIT, "field")]
    minus = C(-1)

    def two(st, left, right):
        objs = []
        ops = []
        for name, spec, base in (("l", left, 1), ("r", right, 11)):
            if isinstance(spec, list):
                st, o = mkexpr(L, st, name, spec, base)
            elif spec is not None:
                st, o1 = mkop(L, st, name, base, *spec)
                o = [o1]
            else:
                o = []
            ops.append(o)
        return st, ops
    so, si, to = ("s", EXPLICIT, "field"), ("s", IMPLICIT, "number"), ("t", IMPLICIT, "number")
    cases = []
    for a in ([], A):
        for b in ([], B):
            cases += [("exprPlusExpr", a, b, None), ("exprMinusExpr", a, b, minus)]
        cases += [("exprPlusOp", a, so, None), ("exprMinusOp", a, so, minus)]
    for x in (so, si):
        for y in (so, si):
            cases += [("opPlusOp", x, y, None), ("opMinusOp", x, y, minus)]
    cases += [("tempPlusOp", to, so, None), ("tempMinusOp", to, so, minus)]
    for name, left, right, scale in cases:
        f = L.fnq("nfprobe::" + name)
        label = "%s of %s and %s" % (name, describe(left), describe(right))
        with Law(L, "dsl-algebra", label, f) as law:
            st, (la, lb) = two(L.start(n), left, right)
            want = la + [o.scaled(scale) if scale is not None else o for o in lb]
            for o in law.run(st, f, None, here("l"), here("r")):
                if not law.kind(o, "n", name):
                    continue
                s = o.st.clone()
                s.store[("p", "#expr")] = s.nz(o.v)
                contents(L, law, s, here("#expr"), want, name)
                for nm, spec, ops in (("l", left, la), ("r", right, lb)):
                    if isinstance(spec, list):
                        contents(L, law, s, here(nm), ops, "operand of " + name)
                    else:
                        opis(L, law, s, here(nm), ops[0], "operand of " + name)
    for a in ([], A, B):
        f = L.fnq("nfprobe::scaleExpr")
        with Law(L, "dsl-algebra", "s * expression of %s" % describe(a), f) as law:
            st, (la, _) = two(L.start(n), a, None)
            for o in law.run(st, f, None, s_, here("l")):
                if law.kind(o, "n", "s * expression"):
                    s = o.st.clone()
                    s.store[("p", "#expr")] = s.nz(o.v)
                    contents(L, law, s, here("#expr"), [x.scaled(s_) for x in la], "s * expression")
                    contents(L, law, s, here("l"), la, "operand of s * expression")
    for kind, names in (("s", ("scaleOp", "coeffOp", "fieldOp")), ("t", ("scaleTemp", "coeffTemp", "fieldTemp"))):
        for name in names:
            for typ in TYPES:
                f = L.fnq("nfprobe::" + name)
                with Law(L, "dsl-algebra", "%s, %s" % (name, "IE"[typ[1]]), f) as law:
                    st, op = mkop(L, L.start(n), "l", 1, kind, typ, "number")
                    if name.startswith("scale"):
                        arg, v = s_, s_
                    elif name.startswith("coeff"):
                        st, v = mkcoef(L, st, "k", "field")
                        arg = here("k")
                    else:
                        (st, arg), = L.construct(st, "kfield", "F", "CPUExecutor", n)[:1]
                        v = ("rd", S("kfield0"), IDX)
                    for o in law.run(st, f, None, arg, here("l")):
                        if law.kind(o, "n", name):
                            s = o.st.clone()
                            s.store[("p", "#op")] = s.nz(o.v)
                            opis(L, law, s, here("#op"), op.scaled(v), name)
                            opis(L, law, s, here("l"), op, "operand of " + name)


def describe(spec):
    if isinstance(spec, list):
        return "%d operators" % len(spec)
    return "%s %s operator" % ("IE"[spec[1][1]], {"s": "spatial", "t": "temporal"}[spec[0]])


def opis(L, law, st, loc, op, what):
    """the operator object at loc is op (its evaluation shows the same)"""
    cls = D + ("SpatialOperator" if op.kind == "s" else "TemporalOperator")
    for meth, typ in (("explicitOperation", EXPLICIT), ("implicitOperation", IMPLICIT)):
        f = [f for f in L.P.funcs.values() if f.c == cls and f.n == meth and f.b is not None]
        if not f:
            raise Broken(cls + "::" + meth + " not found")
        s, src = newsource(L, st.clone(), "source" + meth)
        s.store[("p", "ls")] = S("ls")
        start = len(s.eff)
        extra = (S("t"), S("dt")) if op.kind == "t" else ()
        for o in law.run(s, f[0], loc, src if typ == EXPLICIT else here("ls"), *extra):
            if not law.kind(o, "n", what):
                return
            probe_ = Op(op.id, op.kind, typ, op.coef)
            same_multiset(law, o.st, [(g[0][1], g[1], g[3]) for g in saws(o.st, start)], [(probe_.seen(), C(op.id), op.coef)], what)
            for g in saws(o.st, start):
                if g[2][1] != (src if typ == EXPLICIT else here("ls")):
                    law.fail(o.st, what + ": the operator works on another object than the one given")
                if extra and tuple(g[4]) != extra:
                    law.fail(o.st, what + ": the operator is not given (t, dt)")
    f = [f for f in L.P.funcs.values() if f.c == cls and f.n == "getType" and f.b is not None]
    for o in law.run(st, f[0], loc):
        if law.kind(o, "n", "getType"):
            law.val(o, op.typ, what + ": getType")


def independence(L):
    n = S("n")
    specs = [("s", EXPLICIT, "number"), ("t", IMPLICIT, "number")]
    for kind, names in (("s", ("copyOp", "assignOp")), ("t", ("copyTemp",))):
        for name in names:
            f = L.fnq("nfprobe::" + name)
            for victim in ("copy", "original"):
                with Law(L, "dsl-value", "%s, the %s is scaled afterwards" % (name, victim), f) as law:
                    st, op = mkop(L, L.start(n), "a", 1, kind, EXPLICIT)
                    if name == "assignOp":
                        st, _ = mkop(L, st, "b", 2, kind, IMPLICIT)
                        outs = law.run(st, f, None, here("b"), here("a"))
                    else:
                        outs = law.run(st, f, None, here("a"))
                    for o in outs:
                        if not law.kind(o, "n", name):
                            continue
                        s = o.st.clone()
                        if name != "assignOp":
                            s.store[("p", "b")] = s.nz(o.v)
                        opis(L, law, s, here("b"), op, name)
                        changed, kept = ("b", "a") if victim == "copy" else ("a", "b")
                        s = touch(L, law, s, here(changed), kind)
                        opis(L, law, s, here(changed), op.scaled(S("k")), "the scaled one")
                        opis(L, law, s, here(kept), op, "the other one")
    f = [f for f in L.P.funcs.values() if f.c == D + "Expression" and f.ctor == 2 and f.b is not None]
    for victim in ("copy", "original"):
        with Law(L, "dsl-value", "copy of an expression, the %s is scaled and extended afterwards" % victim, f[0] if f else None) as law:
            if not f:
                law.unds.append("no copy constructor")
                continue
            st, ops = mkexpr(L, L.start(n), "a", specs, 1)
            st.store[("p", "b")] = ("rec", f[0].cr, (), None)
            for o in law.run(st, f[0], here("b"), here("a")):
                if not law.kind(o, "n", "copy"):
                    continue
                s = o.st.clone()
                contents(L, law, s, here("b"), ops, "the copy")
                changed, kept = ("b", "a") if victim == "copy" else ("a", "b")
                g = method(L, "spatialOperators", 0, lambda f: not f.const)
                for o2 in law.run(s, g, here(changed)):
                    if o2.v[0] != "@":
                        law.unds.append("spatialOperators is no reference")
                        continue
                    s2 = touch(L, law, o2.st, L.I.ext(o2.v[1], ("i", C(0))), "s")
                    s2, op3 = mkop(L, s2, "extra", 9, "s", IMPLICIT)
                    s2 = addop(L, s2, changed, "extra", "s")
                    contents(L, law, s2, here(changed), [ops[0].scaled(S("k")), ops[1], op3], "the changed one")
                    contents(L, law, s2, here(kept), ops, "the other one")
    f = method(L, "addOperator", 1, lambda f: "Spatial" in f.p[0]["t"].s)
    with Law(L, "dsl-value", "an operator added to an expression and scaled afterwards", f) as law:
        st, ops = mkexpr(L, L.start(n), "a", specs, 1)
        s = touch(L, law, st, here("aop0"), "s")
        contents(L, law, s, here("a"), ops, "the expression")
        law.npaths += 1
    f = method(L, "addExpression", 1)
    with Law(L, "dsl-value", "an expression added to another and scaled afterwards", f) as law:
        st, ops = mkexpr(L, L.start(n), "a", specs, 1)
        st, ops2 = mkexpr(L, st, "b", specs, 11)
        for o in law.run(st, f, here("a"), here("b")):
            if not law.kind(o, "n", "addExpression"):
                continue
            g = method(L, "spatialOperators", 0, lambda f: not f.const)
            for o2 in law.run(o.st, g, here("b")):
                s2 = touch(L, law, o2.st, L.I.ext(o2.v[1], ("i", C(0))), "s")
                contents(L, law, s2, here("a"), ops + ops2, "the sum")


def touch(L, law, st, loc, kind):
    """scales the coefficient of an operator through its interface"""
    cls = D + ("SpatialOperator" if kind == "s" else "TemporalOperator")
    f = [f for f in L.P.funcs.values() if f.c == cls and f.n == "getCoefficient" and not f.const and f.b is not None]
    g = [f for f in L.P.funcs.values() if f.c == CO and f.n == "operator*=" and "Coeff" not in f.p[0]["t"].s]
    if not f or not g:
        raise Broken("getCoefficient or Coeff::operator*= not found")
    o, = L.call(st, f[0], loc)
    if o.k != "n" or o.v[0] != "@":
        raise Fail("the coefficient cannot be reached")
    return only(L.call(o.st, g[0], o.v[1], S("k")), "scaling")


# ------------------------------------------------------------------ C31
def coefmethod(L, name, n, what=None, q=CO):
    r = [f for f in L.P.funcs.values() if (f.c == CO and f.n == name if q == CO else f.q == q) and len(f.p) == n
         and f.b is not None and (what is None or what(f))]
    if not r:
        raise Broken("%s::%s not found" % (q, name))
    return r[0]


def coefis(L, law, st, loc, value, field, what):
    """the coefficient at loc has that value at every element, and a view exactly when field is given"""
    s = st.clone()
    v = L.coeffat(s, loc)
    if v is None or has_unk(v):
        law.unds.append(what + ": value not known")
        return
    if not P.iszero(P.sub(v, value)):
        law.fail(s, "%s: element i is %s, expected %s" % (what, show(v)[:80], show(value)[:80]), v)
    f = coefmethod(L, "hasSpan", 0)
    for o in law.run(s, f, loc):
        if law.kind(o, "n", "hasSpan"):
            law.val(o, C(field is not None), what + ": hasSpan")
    if field is None:
        return
    f = coefmethod(L, "view", 0)
    for o in law.run(s, f, loc):
        if not law.kind(o, "n", "view"):
            continue
        s2 = o.st.clone()
        v = s2.nz(o.v)
        if v[0] == "@":
            v = s2.nz(L.I.rd(v[1], s2)[0].v)
        s2.store[("p", "#view")] = v
        i = L.I.vinfo(L.I, here("#view"), s2)
        if i is None:
            law.unds.append(what + ": view not known")
            continue
        A, off, n, k = i
        law.same(s2, n, S("n"), what + ": size of the view")
        e = L.I.cread(A, L.I.content(A, s2), absint.lin_add(off, IDX), "F", s2)
        if has_unk(e):
            law.unds.append(what + ": view not known")
        elif not P.iszero(P.sub(s2.nz(e), field)):
            law.fail(s2, "%s: element i of the view is %s, expected %s" % (what, show(e)[:80], show(field)[:80]), e)


@rule("C31")
def c31(rep):
    rep.rule("coef-make", "a coefficient is its number, times its field's element when it has one", 4)
    rep.rule("coef-mul", "products of coefficients multiply element by element and leave the operands alone; two fields are refused", 10)
    rep.rule("coef-field", "toField delivers the values: one element for a number, all elements for a field", 6)
    L = lab(rep)
    n, s_ = S("n"), S("s")
    ctors = [f for f in L.P.funcs.values() if f.c == CO and f.ctor == 1 or f.c == CO and f.ctor == 4]
    for f in sorted(ctors, key=lambda f: f.u):
        if f.b is None and not f.implicit:
            continue
        with Law(L, "coef-make", "Coeff of " + (", ".join(p["t"].s for p in f.p) or "nothing"), f) as law:
            st = L.start(n)
            (st, fld), = L.construct(st, "x", "F", "CPUExecutor", n)[:1]
            args, num, el = [], C(1), None
            for p in f.p:
                if "Field" in p["t"].s:
                    args.append(fld)
                    el = ("rd", S("x0"), IDX)
                elif p["t"].strip().rec or p["t"].strip().k == "rec":
                    law.unds.append("unknown argument")
                    break
                else:
                    args.append(s_)
                    num = s_
            else:
                st.store[("p", "k")] = ("rec", CO, (), None)
                for o in law.run(st, f, here("k"), *args):
                    if law.kind(o, "n", "Coeff"):
                        coefis(L, law, o.st, here("k"), P.mul(num, el) if el else num, el, "Coeff")
    mul = coefmethod(L, "operator*=", 1, lambda f: "Coeff" not in f.p[0]["t"].s)
    mulc = coefmethod(L, "operator*=", 1, lambda f: "Coeff" in f.p[0]["t"].s)
    times = L.fnq("nfprobe::coeffTimes")

    def elof(name, kind):
        return ("rd", S(name + "Field0"), IDX) if kind == "field" else None
    for a in ("number", "field"):
        with Law(L, "coef-mul", "%s *= number" % a, mul) as law:
            st, v = mkcoef(L, L.start(n), "a", a)
            for o in law.run(st, mul, here("a"), s_):
                if law.kind(o, "n", "*="):
                    coefis(L, law, o.st, here("a"), P.mul(v, s_), elof("a", a), "the product")
                    if not (o.v[0] == "@" and o.v[1] == here("a")):
                        law.fail(o.st, "*= does not return its left operand", o.v)
        for b in ("number", "field"):
            for name, f in (("*=", mulc), ("*", times)):
                with Law(L, "coef-mul", "%s %s %s" % (a, name, b), f) as law:
                    st, v = mkcoef(L, L.start(n), "a", a)
                    st, w = mkcoef(L, st, "b", b)
                    outs = law.run(st, f, here("a"), here("b")) if name == "*=" else law.run(st, f, None, here("a"), here("b"))
                    for o in outs:
                        if a == b == "field":
                            if o.k == "t":
                                continue
                            law.kind(o, "x", "the product of two fields")
                            continue
                        if not law.kind(o, "n", name):
                            continue
                        s = o.st.clone()
                        res = here("a")
                        if name == "*":
                            s.store[("p", "#r")] = s.nz(o.v)
                            res = here("#r")
                            coefis(L, law, s, here("a"), v, elof("a", a), "the left operand")
                        el = elof("a", a) or elof("b", b)
                        coefis(L, law, s, res, P.mul(v, w), el, "the product")
                        coefis(L, law, s, here("b"), w, elof("b", b), "the right operand")
    tof = coefmethod(L, "toField", 2, q=D + "detail::toField")
    from .rules_field import starts, Val
    for kind in ("number", "field"):
        for x in ("CPUExecutor", "GPUExecutor"):
            for labl, st, dst in starts(L, "dst", "F", x, S("m")):
                with Law(L, "coef-field", "toField of a %s into a field on %s %s" % (kind, x, labl), tof) as law:
                    L.positive(st, n)
                    st, v = mkcoef(L, st, "k", kind)
                    V = Val(L, law, "F")
                    from .rules_field import K
                    for o in law.run(st, tof, None, here("k"), dst):
                        if not V.ok(o, "toField"):
                            continue
                        want = v if kind == "number" else P.mul(S("k"), ("rd", S("kField0"), K))
                        V.field(o.st, dst, C(1) if kind == "number" else n, x, want, "the field")
                        coefis(L, law, o.st, here("k"), v, elof("k", kind), "the coefficient")


# ------------------------------------------------------------------ C32
FVN = "NeoFOAM::finiteVolume::cellCentred::"
LSN = "NeoFOAM::la::"
TI = "NeoFOAM::timeIntegration::"


class SolveLab(DslLab):
    """solution fields, a mesh and a linear system around real fields; operators add their own contribution"""

    def __init__(self, P_, rep):
        super().__init__(P_, rep)
        I = self.I
        L = self

        def at(name):
            def h(I_, f, ob, a, st):
                return N(("@", here(name)), st)
            return h
        I.km["NeoFOAM::UnstructuredMesh::cellVolumes"] = at("vol")
        I.km["NeoFOAM::UnstructuredMesh::nCells"] = lambda I_, f, ob, a, st: N(S("n"), st)
        I.km[FVN + "SparsityPattern::SparsityPattern"] = lambda I_, f, ob, a, st: self.sparsity(ob, st)
        I.km[FVN + "SparsityPattern::ctor"] = lambda I_, f, ob, a, st: self.sparsity(ob, st)
        I.km[FVN + "SparsityPattern::readOrCreate"] = lambda I_, f, ob, a, st: N(S("sparsity"), st)
        I.km[LSN + "LinearSystem::rhs"] = at("rhs")
        I.km[LSN + "LinearSystem::matrix"] = at("matrix")
        I.km[LSN + "LinearSystem::exec"] = at("exec")

        def empty(I_, f, ob, a, st):
            st.event("system")
            A = L.block(st, here("rhs"), "F")
            I_.setcontent(A, ("fill", C(0)), st)
            return N(("rec", f.ret.strip().rec, (), S("ls")), st)
        I.km[LSN + "createEmptyLinearSystem"] = empty

        def fac(I_, f, ob, a, st):
            st.event("solver", C(L.nameof(a[-1], st)), C(L.execof(a[0], st)))
            return N(("uptr", S("theSolver")), st)
        I.km[LSN + "SolverFactory::create"] = fac

        def solve(I_, e, f, ob, a, st):
            if len(a) == 2:                       # solver of a linear system
                fl = L.place(a[1])
                before = L.elem(st, here("rhs"), "F", IDX)
                sysv = [o.v for o in I_.rd(a[0][1], st.clone())] if a[0][0] == "@" else [a[0]]
                st.event("lssolve", C(len(sysv) == 1 and absint.contains(sysv[0], S("ls"))), ("at", fl), before or ("unk", "rhs"))
                if fl is not None:
                    A = L.block(st, fl, "F")
                    if A is not None:
                        I_.setcontent(A, ("map", C(0), L.size(st, fl, "F"), 1, ("rd", S("solved"), ("bk", 1)), ("uninit",)), st)
                return [Out_("n", VOID, st)]
            st.event("tisolve", L.objat(ob, st), ("args", tuple(x if x[0] == "@" else st.nz(x) for x in a)))
            return [Out_("n", VOID, st)]
        I.vresult["solve"] = solve

        def old(I_, f, ob, a, st):
            st.event("oldtime", ("at", L.place(a[0])))
            return N(("@", here("old")), st)
        I.km[FVN + "oldTime"] = old

        def bcs(I_, f, ob, a, st):
            fl = L.internal(st, ob)
            st.event("bcs", ("at", ob), (L.elem(st, fl, "F", IDX) if fl is not None else None) or ("unk", "field"))
            return N(VOID, st)
        I.km[FVN + "VolumeField::correctBoundaryConditions"] = bcs

        def create(I_, f, ob, a, st):
            def go(k, s):
                s.event("integrator", s.nz(k), C(L.nameof(a[1], s)), C(L.nameof(a[2], s)))
                return N(("uptr", S("theIntegrator")), s)
            return bind(I_.val(a[0], st), go)
        I.km["NeoFOAM::RuntimeSelectionFactory::create"] = create

        def clone(I_, e, f, ob, a, st):
            return [Out_("n", ("uptr", S("clone")), st)]
        I.vresult["clone"] = clone

        def sub(I_, f, ob, a, st):
            return bind(I_.val(a[0], st), lambda k, s: N(("@", L.subdict(s, L.nameof(("@", ob), s), k)), s))
        I.km["NeoFOAM::Dictionary::subDict"] = sub

        def dget(I_, f, ob, a, st):
            return bind(I_.val(a[0], st), lambda k, s: N(("op", "entry", C(L.nameof(("@", ob), s)), s.nz(k)), s))
        I.km["NeoFOAM::Dictionary::get"] = dget
        I.real -= set(I.km) - {k for k in I.km if k.startswith(("NeoFOAM::Field::", "NeoFOAM::parallel"))}

    def objat(self, ob, st):
        v = st.nz(self.I.rd(ob, st.clone())[0].v)
        return v

    def sparsity(self, ob, st):
        if ob is None:
            return N(S("sparsity"), st)
        return bind(self.I.wr(ob, S("sparsity"), st), lambda _, s: N(("@", ob), s))

    def nameof(self, x, st):
        if x[0] == "@":
            r = x[1]
            if r[1] == () and r[0][0] == "p":
                return r[0][1]
            v = [o.v for o in self.I.rd(r, st.clone()) if o.k == "n"]
            return show(v[0]) if len(v) == 1 else "?"
        return show(x)

    def execof(self, x, st):
        v = [o.v for o in self.I.rd(x[1], st.clone())] if x[0] == "@" else [x]
        v = st.nz(v[0]) if len(v) == 1 else ("unk",)
        return v[1].split("::")[-1] if v[0] == "any" else "?"

    def subdict(self, st, d, k):
        name = "%s/%s" % (d, k[1] if k[0] == "c" else show(k))
        st.store.setdefault(("p", name), S(name))
        return here(name)

    # -------------------------------------------------------------- operators
    def saw(self, what):
        L = self

        def h(I, f, ob, a, st):
            ident = I.val(a[0], st)[0].v
            tdt = tuple(I.val(x, st)[0].v for x in a[2:-1]) if what != "build" else ()
            tgt = L.place(a[1])
            given = C(L.nameof(a[1], st)) if what == "build" else C(0)
            st.event("saw", C(what), ident, ("at", tgt), given, tdt)
            fl = tgt if what.startswith("explicit") else here("rhs") if what.startswith("implicit") else None
            if fl is not None:
                A = L.block(st, fl, "F")
                if A is not None:
                    c0 = I.content(A, st)
                    v = P.add(I.cread(A, c0, ("bk", 1), "F", st), ("rd", S("E%s" % show(ident)), ("bk", 1)))
                    I.setcontent(A, ("map", C(0), L.size(st, fl, "F"), 1, v, c0), st)
            return N(VOID, st)
        return h

    # -------------------------------------------------------------- world
    def internal(self, st, loc):
        for f in self.P.funcs.values():
            if f.n == "internalField" and not f.p and f.b is not None and (f.c or "").endswith("GeometricFieldMixin") and "double" in (f.cr or ""):
                outs = [o for o in self.I.enter(f, loc, (), st.clone()) if o.k == "n"]
                if len(outs) == 1 and outs[0].v[0] == "@":
                    return outs[0].v[1]
        return None

    def member(self, st, loc, name):
        for f in self.P.funcs.values():
            if f.n == name and not f.p and f.b is not None and (f.c or "").endswith("GeometricFieldMixin") and "double" in (f.cr or ""):
                outs = [o for o in self.I.enter(f, loc, (), st.clone()) if o.k == "n"]
                if len(outs) == 1 and outs[0].v[0] == "@":
                    return outs[0].v[1]
        return None

    def geometric(self, st, name, x):
        """a volume field with a real internal field of n elements"""
        (st, tmp), = self.construct(st, name + "#f", "F", x, S("n"))[:1]
        rec = st.store.pop(tmp[0])
        A = None
        st.store[("p", name)] = S(name)
        loc = self.internal(st, here(name))
        ex = self.member(st, here(name), "exec")
        if loc is None or ex is None:
            raise Broken("internal field or executor of a volume field not found")
        for o in self.I.wr(loc, rec, st):
            st = o.st
        for o in self.I.wr(ex, exval(x), st):
            st = o.st
        A = self.block(st, self.internal(st, here(name)), "F")
        self.len[S(name)] = S("n")
        self.I.setcontent(A, ("map", C(0), S("n"), 1, ("rd", S(name), ("bk", 1)), ("uninit",)), st)
        return st

    def world(self, x):
        st = self.start(S("n"))
        for name in ("phi", "old"):
            st = self.geometric(st, name, x)
        for name in ("vol", "rhs"):
            (st, _), = self.construct(st, name, "F", x, S("n"))[:1]
        for name in ("matrix", "schemes", "solution", "mesh"):
            st.store[("p", name)] = S(name)
        return st


def Out_(k, v, st):
    return absint.Out(k, v, st)


def events(st, *kinds):
    return [e for e, _ in st.eff if e[0] in kinds]


def total(ops, kinds, i):
    t = C(0)
    for op in ops:
        if op.seen() in kinds:
            t = P.add(t, ("rd", S("E%d" % op.id), i))
    return t


SHAPES = [("ddt and an explicit operator", [("t", IMPLICIT, "number"), ("s", EXPLICIT, "number")]),
          ("ddt and several explicit operators", [("t", IMPLICIT, "number"), ("s", EXPLICIT, "number"), ("s", EXPLICIT, "number")]),
          ("ddt alone", [("t", IMPLICIT, "number")]),
          ("ddt and an implicit operator", [("s", IMPLICIT, "number"), ("t", IMPLICIT, "number")]),
          ("ddt, an implicit and an explicit operator", [("s", EXPLICIT, "number"), ("t", IMPLICIT, "number"), ("s", IMPLICIT, "number")])]


def setexec(L, st, x):
    """moves the expression to executor x"""
    return st


def valueis(L, law, st, loc, want, what):
    v = L.elem(st, loc, "F", IDX)
    if v is None or has_unk(v):
        law.unds.append(what + " is not known")
        return
    if not P.iszero(P.sub(st.nz(v), want)):
        law.fail(st, "%s: element i is %s, expected %s" % (what, show(v)[:160], show(want)[:160]), v)


def indexed(st, n):
    from .rules_field import inrange
    inrange(None, st, C(0), IDX, n)
    return st


@rule("C32")
def c32(rep):
    rep.rule("time-forward", "forward Euler: new = old - dt * (explicit operators); boundaries corrected from the new values; the old level follows", 6)
    rep.rule("time-backward", "backward Euler: every operator enters one empty system, explicit ones as a source; its solution is the new field and the old level", 4)
    rep.rule("time-solve", "solve refuses nothing to solve, builds every operator, and integrates in time or solves the steady system", 6)
    rep.rule("time-select", "the integrator and its dictionaries are the ones asked for; copies keep the method", 2)
    L = SolveLab(load("full"), rep)
    for x in ("CPUExecutor", "GPUExecutor"):
        forward(L, x)
        backward(L, x)
        steady(L, x)
    transient(L)
    integrator(L)


def solver_fn(L, cls):
    for f in L.P.funcs.values():
        if (f.c or "") == TI + cls and f.n == "solve" and f.b is not None:
            return f
    raise Broken(cls + "::solve not found")


def method_obj(L, st):
    st.store[("p", "method")] = S("method")
    return here("method")


def onboth(L, x, specs):
    st = L.world(x)
    st, ops = mkexpr(L, st, "ex", specs, 1)
    indexed(st, S("n"))
    return st, ops


def forward(L, x):
    f = solver_fn(L, "ForwardEuler")
    for label, specs in SHAPES:
        if any(k == "s" and t == IMPLICIT for k, t, _ in specs):
            continue
        with Law(L, "time-forward", "forward Euler on %s: %s" % (x, label), f) as law:
            st, ops = onboth(L, x, specs)
            start = len(st.eff)
            this = method_obj(L, st)
            for o in law.run(st, f, this, here("ex"), here("phi"), S("t"), S("dt")):
                if not law.kind(o, "n", "solve"):
                    continue
                s = o.st
                want = P.sub(("rd", S("old"), IDX), P.mul(S("dt"), total(ops, ("explicit",), IDX)))
                valueis(L, law, s, L.internal(s, here("phi")), want, "the new field")
                valueis(L, law, s, L.internal(s, here("old")), want, "the old-time field afterwards")
                asked(L, law, s)
                b = [e for e in events(s, "bcs") if e[1][1] == here("phi")]
                if not b:
                    law.fail(s, "the boundary conditions are not corrected")
                elif has_unk(b[-1][2]):
                    law.unds.append("values at the correction not known")
                elif not P.iszero(P.sub(s.nz(b[-1][2]), want)):
                    law.fail(s, "the boundary conditions are corrected from values that are not the new ones: %s" % show(b[-1][2])[:80], b[-1][2])


def asked(L, law, s):
    for e in events(s, "oldtime"):
        if e[1][1] != here("phi"):
            law.fail(s, "the old-time level of another field is used")


def once(law, st, ops, kinds, start, extra):
    """each operator of these kinds has run exactly once, and no other implicit or temporal one"""
    got = [(e[1][1], e[2], e[5]) for e in events(st, "saw") if e[1][1] in kinds]
    want = [(op.seen(), C(op.id)) for op in ops if op.seen() in kinds]
    if not same_multiset(law, st, [(g[0], g[1]) for g in got], want, "solve"):
        return False
    for g in got:
        if g[0].endswith("-t") and tuple(g[2]) != extra:
            law.fail(st, "an operator is given %s, expected (t, dt)" % show(g[2]))
            return False
    return True


def systemlaw(L, law, o, ops, x, kinds, dictname, start):
    """one empty system, every implicit operator in it once, explicit ones subtracted as source * volume, solved into phi"""
    s = o.st
    ev = events(s, "system", "saw", "lssolve", "solver")
    if len([e for e in ev if e[0] == "system"]) != 1:
        law.unds.append("the number of systems built is not one")
        return
    sol = [e for e in ev if e[0] == "lssolve"]
    if len(sol) != 1:
        law.fail(s, "the system is solved %d times" % len(sol))
        return
    if not once(law, s, ops, kinds, start, (S("t"), S("dt"))):
        return
    after = ev[ev.index(sol[0]):]
    if any(e[0] == "saw" and e[1][1] in kinds for e in after):
        law.fail(s, "an operator is assembled after the system was solved")
        return
    if sol[0][1] != C(True):
        law.fail(s, "the solver is given another system than the one assembled")
    if sol[0][2][1] != L.internal(s, here("phi")):
        law.fail(s, "the solution is written to another field")
        return
    fac = [e for e in ev if e[0] == "solver"]
    if len(fac) == 1:
        if fac[0][1][1] != dictname:
            law.fail(s, "the linear solver is configured from %s, expected %s" % (fac[0][1][1], dictname))
        if fac[0][2][1] not in (x, "?"):
            law.fail(s, "the linear solver runs on %s, the field lives on %s" % (fac[0][2][1], x))
    want = P.sub(total(ops, [k for k in kinds if k.startswith("implicit")], IDX),
                 P.mul(total(ops, ("explicit",), IDX), ("rd", S("vol0"), IDX)))
    got = sol[0][3]
    if has_unk(got):
        law.unds.append("right-hand side not known")
    elif not P.iszero(P.sub(s.nz(got), want)):
        law.fail(s, "the right-hand side of the system solved is %s, expected %s" % (show(got)[:160], show(want)[:160]), got)
    valueis(L, law, s, L.internal(s, here("phi")), ("rd", S("solved"), IDX), "the field")


def backward(L, x):
    f = solver_fn(L, "BackwardEuler")
    for label, specs in SHAPES:
        with Law(L, "time-backward", "backward Euler on %s: %s" % (x, label), f) as law:
            st, ops = onboth(L, x, specs)
            ct = [g for g in L.P.funcs.values() if (g.c or "") == TI + "BackwardEuler" and g.ctor == 1 and len(g.p) == 2 and g.b is not None]
            if not ct:
                law.unds.append("no constructor")
                continue
            st.store[("p", "method")] = ("rec", ct[0].cr, (), None)
            st = only(L.call(st, ct[0], here("method"), here("schemes"), here("solution")), "BackwardEuler")
            start = len(st.eff)
            for o in law.run(st, f, here("method"), here("ex"), here("phi"), S("t"), S("dt")):
                if not law.kind(o, "n", "solve"):
                    continue
                systemlaw(L, law, o, ops, x, ("implicit", "implicit-t", "explicit"), "solution", start)
                valueis(L, law, o.st, L.internal(o.st, here("old")), ("rd", S("solved"), IDX), "the old-time field afterwards")
                asked(L, law, o.st)


def steady(L, x):
    f = L.fnq("nfprobe::solve")
    shapes = [("an implicit operator", [("s", IMPLICIT, "number")]), ("an implicit and an explicit operator", [("s", EXPLICIT, "number"), ("s", IMPLICIT, "number")]),
              ("two explicit and two implicit operators", [("s", EXPLICIT, "number"), ("s", IMPLICIT, "number"), ("s", IMPLICIT, "number"), ("s", EXPLICIT, "number")])]
    for label, specs in shapes:
        with Law(L, "time-solve", "steady solve on %s: %s" % (x, label), f) as law:
            st, ops = onboth(L, x, specs)
            start = len(st.eff)
            for o in law.run(st, f, None, here("ex"), here("phi"), S("t"), S("dt"), here("schemes"), here("solution")):
                if not law.kind(o, "n", "solve"):
                    continue
                built(law, o.st, ops)
                systemlaw(L, law, o, ops, x, ("implicit", "explicit"), "solution", start)
    with Law(L, "time-solve", "solve of an expression without operators, %s" % x, f) as law:
        st, ops = onboth(L, x, [])
        for o in law.run(st, f, None, here("ex"), here("phi"), S("t"), S("dt"), here("schemes"), here("solution")):
            if o.k != "t":
                law.kind(o, "x", "nothing to solve")


def built(law, st, ops):
    """every operator was built once, with the schemes, before anything else happened to it"""
    saw = [e for e in events(st, "saw", "tisolve", "system")]
    b = [e for e in saw if e[0] == "saw" and e[1][1] == "build"]
    if not same_multiset(law, st, [("build", e[2]) for e in b], [("build", C(op.id)) for op in ops], "solve"):
        return
    for e in b:
        if "schemes" not in e[4][1] or "/" in e[4][1]:
            law.fail(st, "an operator is built with %s, expected the schemes" % e[4][1])
    for k, e in enumerate(saw):
        if e[0] == "tisolve" or e[0] == "saw" and e[1][1] != "build":
            if len([x for x in saw[:k] if x[0] == "saw" and x[1][1] == "build"]) != len(b):
                law.fail(st, "operators are used before they are built")
            break


def transient(L):
    f = L.fnq("nfprobe::solve")
    for label, specs in SHAPES:
        with Law(L, "time-solve", "transient solve: " + label, f) as law:
            st, ops = onboth(L, "CPUExecutor", specs)
            for o in law.run(st, f, None, here("ex"), here("phi"), S("t"), S("dt"), here("schemes"), here("solution")):
                if not law.kind(o, "n", "solve"):
                    continue
                s = o.st
                built(law, s, ops)
                ti = events(s, "tisolve")
                if len(ti) != 1:
                    law.fail(s, "the expression is integrated %d times" % len(ti))
                    continue
                if events(s, "system", "lssolve"):
                    law.fail(s, "a steady system is solved although the expression has temporal operators")
                a = ti[0][2][1]
                stepargs(law, s, a)
                cr = events(s, "integrator")
                if len(cr) != 1:
                    law.unds.append("the integrator is not created through its factory")
                    continue
                if cr[0][1] != ("op", "entry", C("schemes/ddtSchemes"), C("type")):
                    law.fail(s, "the integrator is chosen by %s, expected the type in ddtSchemes" % show(cr[0][1]))
                if cr[0][2][1] != "schemes/ddtSchemes":
                    law.fail(s, "the integrator is given %s as its scheme" % cr[0][2][1])
                if cr[0][3][1] != "solution":
                    law.fail(s, "the integrator is given %s for its linear solver, expected the solution dictionary" % cr[0][3][1])


def stepargs(law, s, a):
    if len(a) != 4:
        law.unds.append("integrator called with %d arguments" % len(a))
        return
    if a[0] != ("@", here("ex")) or a[1] != ("@", here("phi")):
        law.fail(s, "the integrator is given another expression or field")
    if tuple(s.nz(x) if x[0] != "@" else x for x in a[2:]) != (S("t"), S("dt")):
        law.fail(s, "the integrator is given %s as time and step" % show(tuple(a[2:])))


def integrator(L):
    f = L.fnq("nfprobe::integrate")
    with Law(L, "time-select", "TimeIntegration created, copied and run", f) as law:
        st, ops = onboth(L, "CPUExecutor", SHAPES[0][1])
        for o in law.run(st, f, None, here("ex"), here("phi"), S("t"), S("dt"), here("schemes"), here("solution")):
            if not law.kind(o, "n", "solve"):
                continue
            s = o.st
            ti = events(s, "tisolve")
            cr = events(s, "integrator")
            if len(cr) != 1 or len(ti) != 1:
                law.fail(s, "%d integrators are created and %d steps taken" % (len(cr), len(ti)))
                continue
            if cr[0][1] != ("op", "entry", C("schemes"), C("type")) or cr[0][2][1] != "schemes" or cr[0][3][1] != "solution":
                law.fail(s, "the integrator is chosen by %s with %s and %s" % (show(cr[0][1]), cr[0][2][1], cr[0][3][1]))
            if not absint.contains(ti[0][1], S("clone")):
                law.fail(s, "the copy runs %s, expected a clone of the original's method" % show(ti[0][1])[:60])
            stepargs(law, s, ti[0][2][1])
    for cls in ("ForwardEuler", "BackwardEuler"):
        fs = [g for g in L.P.funcs.values() if (g.c or "") == TI + cls and g.n == "clone" and g.b is not None]
        with Law(L, "time-select", cls + "::clone", fs[0] if fs else None) as law:
            if not fs:
                law.unds.append("no clone")
                continue
            st = L.world("CPUExecutor")
            ct = [g for g in L.P.funcs.values() if (g.c or "") == TI + cls and g.ctor == 1 and len(g.p) == 2 and g.b is not None]
            st.store[("p", "method")] = ("rec", ct[0].cr, (), None)
            st = only(L.call(st, ct[0], here("method"), here("schemes"), here("solution")), cls)
            for o in law.run(st, fs[0], here("method")):
                if not law.kind(o, "n", "clone"):
                    continue
                v = o.st.nz(o.v)
                obj = L.I.rd(v[1][1], o.st)[0].v if v[0] == "uptr" and v[1][0] == "ptr" else None
                if obj is None:
                    law.unds.append("clone not understood")
                elif obj != st.store[("p", "method")]:
                    law.fail(o.st, "the clone differs from the original: %s" % show(obj)[:120], obj)
