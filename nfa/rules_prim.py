"""C43: the primitive value types (Vector, scalar, label) on their real bodies."""
import itertools
from fractions import Fraction

from .absint import C, S
from .engine import load, Broken
from .fv import World
from .kern import VECREC, kind_of
from .lab import Lab, Law, show
from .rules import rule
from . import poly as P

A, B, X = ("vsym", "a"), ("vsym", "b"), S("x")


def comp(t, i):
    return P.cmp_(t, i)


class Prim(World):
    def __init__(self, P_, rep):
        super().__init__(P_, rep)
        self.I.real |= {k for k in self.I.km if k.startswith(VECREC + "::") or k in (
            "NeoFOAM::operator*", "NeoFOAM::operator&", "NeoFOAM::mag")} | {
            "NeoFOAM::one", "NeoFOAM::zero"}
        # copying a Vector that has no operator of its own copies the value
        if not any(f.c == VECREC and f.b is not None and not f.implicit and (f.ctor in (2, 3) or f.n == "operator=")
                   for f in P_.funcs.values()):
            self.I.real -= {VECREC + "::operator=", VECREC + "::ctor"}
            h = self.I.km[VECREC + "::ctor"]
            self.I.km[VECREC + "::ctor"] = lambda I, f, ob, a, st: h(I, f, ob, a, st) if f.ctor in (2, 3) else None

    def derive(self):
        pass

    def start(self):
        return Lab.start(self)

    def member(self, name, kinds, const=None):
        r = [f for f in self.P.funcs.values() if f.c == VECREC and f.n == name and f.b is not None and not f.implicit
             and not f.ctor and [kind_of(p["t"].strip()) for p in f.p] == list(kinds) and (const is None or bool(f.const) == const)]
        if not r:
            raise Broken("Vector::%s(%s) not found" % (name, ",".join(kinds)))
        return r[0]

    def free(self, name, kinds):
        r = [f for f in self.P.funcs.values() if f.q == "NeoFOAM::" + name and not f.c and f.b is not None
             and [kind_of(p["t"].strip()) for p in f.p] == list(kinds)]
        if not r:
            raise Broken("%s(%s) not found" % (name, ",".join(kinds)))
        return r[0]

    def vec(self, st, name, v):
        st.store[("p", name)] = v
        return (("p", name), ())

    def value(self, o):
        if o.v[0] == "@":
            r = self.I.rd(o.v[1], o.st.clone())
            return r[0].st.nz(r[0].v) if len(r) == 1 else ("unk", 0, "value")
        return o.st.nz(o.v)


def expect(W, law, st, got, want, what):
    for i in range(3):
        if not P.same(comp(got, i), comp(want, i)):
            law.fail(st, "component %d of %s is %s instead of %s" % (i, what, P.show(comp(got, i), show)[:80],
                                                                    P.show(comp(want, i), show)[:80]), got)
            return


def returns(law, o, what):
    if o.k != "n":
        law.fail(o.st, "%s does not return" % what)
        return False
    return True


@rule("C43")
def c43(rep):
    rep.limit = True
    rep.rule("vec-make", "a vector holds the components it is made from; zero() and one() hold zeros and ones", 5)
    rep.rule("vec-elem", "v[i] and v(i) are component i, readable and writable", 4)
    rep.rule("vec-arith", "sums, differences and multiples are taken component by component, also when the operands overlap", 9)
    rep.rule("vec-eq", "vectors are equal exactly when all components are", 1)
    rep.rule("vec-norm", "& is the inner product; mag the Euclidean length, and the absolute value of a number", 3)
    W = Prim(load("full"), rep)
    ctors = {len(f.p): f for f in W.P.funcs.values() if f.c == VECREC and f.ctor in (1, 4) and f.b is not None}
    for n, args, want in ((0, (), C(0)), (1, (X,), P.vec3(X, X, X)), (3, (S("x"), S("y"), S("z")), P.vec3(S("x"), S("y"), S("z")))):
        f = ctors.get(n)
        if f is None:
            raise Broken("Vector constructor with %d arguments not found" % n)
        with Law(W, "vec-make", "Vector of %d numbers" % n, f) as law:
            st = W.start()
            v = W.vec(st, "v", ("vsym", "before"))
            for o in law.run(st, f, v, *args):
                if returns(law, o, "construction"):
                    expect(W, law, o.st, W.value(type(o)("n", ("@", v), o.st)), want, "the vector")
    for name, want in (("zero", C(0)), ("one", P.ones())):
        for f in W.P.funcs.values():
            if f.q != "NeoFOAM::" + name or f.b is None or f.p:
                continue
            k = kind_of(f.ret)
            with Law(W, "vec-make", "%s<%s>()" % (name, f.ret.s), f) as law:
                for o in law.run(W.start(), f, None):
                    if not returns(law, o, name):
                        continue
                    v = W.value(o)
                    if k == "V":
                        expect(W, law, o.st, v, want, name)
                    elif not P.same(v, C(0) if name == "zero" else C(1)):
                        law.fail(o.st, "%s is %s" % (name, show(v)), v)
    for name in ("operator[]", "operator()"):
        for const in (True, False):
            f = W.member(name, ("I",), const)
            with Law(W, "vec-elem", "%s%s" % (name, " const" if const else ""), f) as law:
                for i in range(3):
                    st = W.start()
                    v = W.vec(st, "v", A)
                    for o in law.run(st, f, v, C(i)):
                        if not returns(law, o, name):
                            continue
                        if not P.same(W.value(o), comp(A, i)):
                            law.fail(o.st, "v[%d] is %s" % (i, show(W.value(o))))
                        if not const:
                            if o.v[0] != "@":
                                law.fail(o.st, "v[%d] cannot be written" % i)
                                continue
                            for o2 in W.I.wr(o.v[1], X, o.st.clone()):
                                want = P.vec3(*[X if j == i else comp(A, j) for j in range(3)])
                                expect(W, law, o2.st, W.value(type(o)("n", ("@", v), o2.st)), want, "v after v[%d] = x" % i)

    def scaled(t, s):
        return P.vec3(*[P.mul(comp(t, i), s) for i in range(3)])

    def binary(f, this, args, want, what):
        """args: values; the operands keep theirs unless it is an assignment"""
        with Law(W, "vec-arith", what, f) as law:
            st = W.start()
            t = W.vec(st, "a", this) if this is not None else None
            aa = []
            for n, x in enumerate(args):
                aa.append(("@", W.vec(st, "r%d" % n, x)) if f.p[n]["t"].isref() else x)
            for o in law.run(st, f, t, *aa):
                if not returns(law, o, what):
                    continue
                expect(W, law, o.st, W.value(o), want, what)
                if t is not None:
                    asg = f.n.endswith("=")
                    expect(W, law, o.st, W.value(type(o)("n", ("@", t), o.st)), want if asg else this, "a after " + what)
                    if asg and (o.v[0] != "@" or o.v[1] != t):
                        law.fail(o.st, "%s does not give a itself" % what)
                for n, x in enumerate(args):
                    if f.p[n]["t"].isref() and P.isvec(x):
                        expect(W, law, o.st, W.value(type(o)("n", aa[n], o.st)), x, "operand after " + what)

    add, sub = P.add(A, B), P.sub(A, B)
    binary(W.member("operator+", ("V",)), A, (B,), add, "a + b")
    binary(W.member("operator-", ("V",)), A, (B,), sub, "a - b")
    binary(W.member("operator+=", ("V",)), A, (B,), add, "a += b")
    binary(W.member("operator-=", ("V",)), A, (B,), sub, "a -= b")
    binary(W.member("operator*", ("F",)), A, (X,), scaled(A, X), "a * x")
    binary(W.member("operator*", ("I",)), A, (S("n"),), scaled(A, S("n")), "a * n")
    binary(W.member("operator*=", ("F",)), A, (X,), scaled(A, X), "a *= x")
    binary(W.free("operator*", ("F", "V")), None, (X, A), scaled(A, X), "x * a")
    # the operand is (part of) the vector itself
    for name, what, want in (("operator+=", "a += a", P.add(A, A)), ("operator-=", "a -= a", C(0))):
        f = W.member(name, ("V",))
        with Law(W, "vec-arith", what, f) as law:
            st = W.start()
            t = W.vec(st, "a", A)
            for o in law.run(st, f, t, ("@", t)):
                if returns(law, o, what):
                    expect(W, law, o.st, W.value(type(o)("n", ("@", t), o.st)), want, "a after " + what)
    f = W.member("operator*=", ("F",))
    with Law(W, "vec-arith", "a *= a[i]", f) as law:
        g = W.member("operator[]", ("I",), False)
        for i in range(3):
            st = W.start()
            t = W.vec(st, "a", A)
            for o in law.run(st, g, t, C(i)):
                if not returns(law, o, "a[i]"):
                    continue
                arg = o.v if f.p[0]["t"].isref() else W.value(o)
                for o2 in law.run(o.st, f, t, arg):
                    if returns(law, o2, "a *= a[%d]" % i):
                        expect(W, law, o2.st, W.value(type(o)("n", ("@", t), o2.st)), scaled(A, comp(A, i)), "a after a *= a[%d]" % i)
    f = W.member("operator==", ("V",))
    with Law(W, "vec-eq", "a == b", f) as law:
        # every choice of equal and different components
        tiny = Fraction(1, 2 ** 100)
        for d in itertools.product((0, 1, -1, tiny), repeat=3):
            st = W.start()
            b = P.vec3(*[P.add(comp(A, i), P.const(d[i])) for i in range(3)])
            for o in law.run(st, f, W.vec(st, "a", A), ("@", W.vec(st, "b", b))):
                if not returns(law, o, "=="):
                    continue
                for t, s in W.I.truth(W.value(o), o.st.clone()):
                    if t != (not any(d)):
                        law.fail(s, "vectors with %s components are %s" % (
                            "different" if any(d) else "equal", "equal" if t else "different"))
    dot = C(0)
    sq = C(0)
    for i in range(3):
        dot = P.add(dot, P.mul(comp(A, i), comp(B, i)))
        sq = P.add(sq, P.mul(comp(A, i), comp(A, i)))
    f = W.free("operator&", ("V", "V"))
    with Law(W, "vec-norm", "a & b", f) as law:
        st = W.start()
        ops = [("@", W.vec(st, n, v)) if f.p[k]["t"].isref() else v for k, (n, v) in enumerate((("a", A), ("b", B)))]
        for o in law.run(st, f, None, *ops):
            if returns(law, o, "&") and not P.same(W.value(o), dot):
                law.fail(o.st, "a & b is " + show(W.value(o))[:120], W.value(o))
    for k, arg, want in (("V", A, P.sqrt(sq)), ("F", X, P.abs_(X))):
        f = W.free("mag", (k,))
        with Law(W, "vec-norm", "mag of a " + ("vector" if k == "V" else "number"), f) as law:
            st = W.start()
            for o in law.run(st, f, None, ("@", W.vec(st, "a", arg))):
                if not returns(law, o, "mag") or P.same(W.value(o), want):
                    continue
                if k == "F":
                    # by cases on the sign
                    for pos, s in W.I.fpos(X, o.st.clone()):
                        for neg, s2 in ([(False, s)] if pos else W.I.fpos(P.neg(X), s)):
                            v = s2.nz(W.value(o))
                            if not any(P.same(v, w) for w in ([X] if pos else [P.neg(X)] if neg else [C(0), X, P.neg(X)])):
                                law.fail(s2, "mag of a %s number is %s" % (
                                    "positive" if pos else "negative" if neg else "zero", show(v)[:120]), v)
                else:
                    law.fail(o.st, "mag is %s" % show(W.value(o))[:120], W.value(o))
