"""Field: memory ownership (C19) and value semantics (C20), decided on the real bodies over a memory model."""
from . import absint, poly as P
from .absint import C, S, N, NULL, VOID, isc, lin_add, lin_sub, has_unk, contains
from .engine import load, Broken
from .kern import kind_of, elem_kind, bindkey
from .lab import Lab, Law, show
from .mem import MInterp, BYTES, SPACE, blocks, side, divide, reduced
from .rules import rule
from .rules_par import exval, pair, EXECS, space_ok

FQ = "NeoFOAM::Field"
INST = {"F": "NeoFOAM::Field<double>", "V": "NeoFOAM::Field<NeoFOAM::Vector>", "I": "NeoFOAM::Field<int>", "L": "NeoFOAM::Field<unsigned int>"}


def ek(k):
    """element kind of a field kind (L, labels without sign, are integers)"""
    return "I" if k == "L" else k


LOGROOT = ("log",)


class FieldLab(Lab):
    def start(self, *sizes):
        """a state in which the given sizes are positive (a size of zero is a case of its own)"""
        st = super().start()
        for n in sizes:
            self.positive(st, n)
        return st

    def positive(self, st, n):
        st.facts[("pos", n)] = True
        st.facts[("pos", lin_add(n, C(1)))] = True
        st.facts[("eq", C(0), n)] = False

    def __init__(self, P_, rep):
        self.P, self.rep = P_, rep
        self.I = MInterp(P_)
        rep.labs.append(self)
        I = self.I
        I.real |= {k for k in I.km if k.startswith(FQ + "::") or k.startswith("NeoFOAM::parallel")}
        self.len = {}
        self.where_ = {}
        I.sizes = lambda A, st: self.len.get(A)
        I.spaceof = lambda A, st: self.where_.get(A)
        I.meshloc = None

    # ---------------------------------------------------------- functions
    def m(self, k, name, pts=None, const=None, ctor=None):
        """member of Field<k>; pts: a predicate per parameter"""
        r = []
        for f in self.P.funcs.values():
            if f.c != FQ or f.cr != INST[k] or (f.b is None and not f.implicit):
                continue
            if ctor is not None:
                if not f.ctor or ctor in (2, 3) and f.ctor != ctor or ctor == 1 and f.ctor != 1:
                    continue
            elif f.n != name or f.ctor:
                continue
            if const is not None and bool(f.const) != const:
                continue
            if pts is not None and (len(pts) != len(f.p) or not all(t(p["t"]) for t, p in zip(pts, f.p))):
                continue
            r.append(f)
        if not r:
            return None
        return sorted(r, key=lambda f: f.u)[0]

    def free(self, name, k, pts=None):
        r = []
        for f in self.P.byq("NeoFOAM::" + name):
            if f.b is None or pts is not None and (len(pts) != len(f.p) or not all(t(p["t"]) for t, p in zip(pts, f.p))):
                continue
            t0 = f.p[0]["t"].strip()
            if (t0.rec or t0.s) == INST[k]:
                r.append(f)
        return sorted(r, key=lambda f: f.u)[0] if r else None

    # ---------------------------------------------------------- objects
    def newobj(self, st, name, k):
        root = ("p", name)
        st.store[root] = ("rec", INST[k], (), None)
        return (root, ())

    def ex(self, st, name, x):
        st.store[("p", name)] = exval(x)
        return (("p", name), ())

    def construct(self, st, name, k, x, n):
        """[(state, location)] of a field of n elements made by the sizing constructor, its contents symbolic"""
        loc = self.newobj(st, name, k)
        f = self.m(k, None, [isexec, isint], ctor=1)
        if f is None:
            raise Broken("Field has no sizing constructor")
        e = self.ex(st, name + "Exec", x)
        outs = self.call(st, f, loc, e, n)
        r = []
        for o in outs:
            if o.k != "n":
                continue
            A = self.block(o.st, loc, k)
            if A is not None:
                self.len[S(name + "0")] = n
                o.st.store[("arrc", A)] = ("map", C(0), n, 1, (("vrd" if k == "V" else "rd"), S(name + "0"), ("bk", 1)), ("uninit",))
            r.append((o.st, loc))
        return r

    def acc(self, st, loc, k, name, const=None):
        f = self.m(k, name, [], const) or self.m(k, name, [])
        if f is None:
            return None
        outs = [o for o in self.I.enter(f, loc, (), st.clone()) if o.k == "n"]
        if len(outs) != 1:
            return None
        v = outs[0].v
        if v[0] == "@":
            v = self.I.rd(v[1], outs[0].st)[0].v
        return outs[0].st.nz(v)

    def ptr(self, st, loc, k):
        return self.acc(st, loc, k, "data")

    def block(self, st, loc, k):
        p = self.ptr(st, loc, k)
        if p is not None and p[0] == "ptr" and p[1][0][0] == "arr" and p[1][1] == (("i", C(0)),):
            return p[1][0][1]
        return None

    def size(self, st, loc, k):
        return self.acc(st, loc, k, "size")

    def exec(self, st, loc, k):
        v = self.acc(st, loc, k, "exec")
        return v[1].split("::")[-1] if v is not None and v[0] == "any" else None

    def elem(self, st, loc, k, i):
        A = self.block(st, loc, k)
        if A is None:
            return None
        return self.I.cread(A, self.I.content(A, st), i, ek(k), st)

    # ---------------------------------------------------------- invariant
    def sound(self, law, st, loc, k, what):
        """the object owns a live block of its own executor that is as large as it says, or is empty and owns none"""
        p, n, x = self.ptr(st, loc, k), self.size(st, loc, k), self.exec(st, loc, k)
        if p is None or n is None or x is None or has_unk(p) or has_unk(n):
            law.unds.append(what + ": the state of the field cannot be told")
            return False
        if p == NULL:
            z = st.nz(n)
            if z != C(0):
                t = self.I.decide(z, st)
                if t is False:
                    return True
                law.fail(st, "%s: a field of %s elements without memory" % (what, show(n)), n)
                return False
            return True
        A = self.block(st, loc, k)
        b = st.store.get(("alloc", A)) if A is not None else None
        if b is None:
            law.fail(st, "%s: the data pointer is no block of the field (%s)" % (what, show(p)[:100]), p)
            return False
        if b[3] != C("live"):
            law.fail(st, "%s: the field refers to a block that was released" % what)
            return False
        if b[1][1] != SPACE[x]:
            law.fail(st, "%s: the memory lies in %s, the executor is %s" % (what, b[1][1], x))
            return False
        cap = divide(st.nz(b[2]), BYTES[k])
        if cap is None and self.I.decide(reduced(st.nz(lin_sub(lin_times(n, BYTES[k]), b[2]))), st) is True:
            law.fail(st, "%s: the block holds %s bytes, the field says %s elements" % (what, show(b[2])[:60], show(n)[:60]), b[2], n)
            return False
        if cap is None:
            law.unds.append(what + ": block size not understood: " + show(b[2])[:80])
            return False
        room = st.nz(lin_sub(cap, n))
        if room != C(0) and self.I.decide(lin_add(room, C(1)), st) is not True:
            law.fail(st, "%s: the block holds %s elements, the field says %s" % (what, show(cap)[:60], show(n)[:60]), cap, n)
            return False
        return True

    def errors(self, law, o, what):
        ok = True
        for e, site in o.st.eff:
            if e[0] == "memerr":
                law.fail(o.st, "%s: %s" % (what, e[1][1]), *[x for x in e[2:] if isinstance(x, tuple)])
                ok = False
            elif e[0] == "memunk":
                law.unds.append("%s: %s" % (what, e[1][1]))
                ok = False
        return ok

    def holders(self, st, A):
        return [r for r, v in st.store.items() if r[0] not in ("arrc", "arrn", "alloc", "log") and contains(v, A)]

    def accounts(self, law, st, live, dead, what):
        """every live block is owned by exactly one living object, none by an object that has ended"""
        own = {}
        for r in live:
            for A in blocks(st):
                if contains(st.store.get(r), A):
                    own.setdefault(A, []).append(r)
        for A, b in blocks(st).items():
            h = own.get(A, [])
            if b[3] == C("live"):
                if not h:
                    loc = [r for r in self.holders(st, A) if r[0] in ("v", "t", "ret") and r not in dead and
                           (st.store[r][0] == "rec" and str(st.store[r][1]).startswith(FQ))]
                    if not loc:
                        law.fail(st, "%s: a block is never released" % what)
                        return False
                if len(h) > 1:
                    law.fail(st, "%s: two fields own the same block" % what)
                    return False
                bad = [r for r in dead if contains(st.store.get(r), A)]
                if bad:
                    law.fail(st, "%s: a block is owned by a field that has ended" % what)
                    return False
            elif h:
                law.fail(st, "%s: a field keeps a block that was released" % what)
                return False
        return True


def lin_times(t, k):
    r = C(0)
    for _ in range(k):
        r = lin_add(r, t)
    return r


def isexec(t):
    return t.strip().tn == "std::variant" and "Executor" in t.strip().s


def isint(t):
    return t.strip().k == "int"


def isfieldt(t):
    return t.strip().tn == FQ or (t.strip().rec or "").startswith(FQ + "<")


def isptr(t):
    return t.strip().k == "ptr"


def isvec(t):
    return t.strip().tn == "std::vector"


def iselem(t):
    return kind_of(t.strip()) in ("F", "V", "I") and not isfieldt(t)


def ispair(t):
    return t.strip().tn == "std::pair"


def isview(t):
    return "View<" in t.strip().s and not isfieldt(t)


def arrays_touched(paths):
    r = set()
    for _, log in paths:
        for e in log:
            if e[0] in ("w", "a", "r", "aset", "ix"):
                r.add(e[1])
            elif e[0] == "sub":
                r |= arrays_touched(e[3])
    return r


def crossings(L, o):
    """memory that a launch, or host code, touches from the wrong side"""
    bl = blocks(o.st)
    out = []
    for e, site in o.st.eff:
        if e[0] == "launch":
            ex = e[2]
            run = "host" if e[1] == "seq" or ex is None else side(ex[1].replace("Kokkos::RangePolicy<", "")) if ex[0] == "c" else None
            for A in arrays_touched(e[6]):
                sp = bl[A][1][1] if A in bl else L.where_.get(A)
                if sp and run and side(sp) and side(sp) != run:
                    out.append("a kernel that runs on the %s touches %s memory" % (run, side(sp)))
        elif e[0] == "hostindex":
            A = e[1]
            sp = bl[A][1][1] if A in bl else L.where_.get(A)
            if sp and side(sp) == "device":
                out.append("the host accesses an element in device memory")
    return out


def starts(L, name, k, x, n):
    """[(label, state, location)]: the states a field can be in"""
    r = []
    for lab, size in (("of any size", n), ("of no elements", C(0))):
        for s, loc in L.construct(L.start(n), name, k, x, size):
            r.append((lab, s, loc))
    f = L.m(k, "resize")
    for lab, s, loc in list(r):
        if lab == "of any size" and f is not None:
            for o in L.call(s, f, loc, C(0)):
                if o.k == "n":
                    r.append(("shrunk to nothing", o.st, loc))
    mv = L.m(k, None, ctor=3)
    lab, s, loc = r[0]
    if mv is not None:
        s = s.clone()
        b = L.newobj(s, name + "Thief", k)
        for o in L.call(s, mv, b, loc):
            if o.k == "n":
                r.append(("moved from", o.st, loc))
    return r


def other(L, st, name, k, x, n):
    """adds a second field of n elements to the state"""
    return [(s, loc) for s, loc in L.construct(st, name, k, x, n)]


def objs(st):
    return [r for r, v in st.store.items() if r[0] == "p" and v[0] == "rec" and str(v[1]).startswith(FQ + "<")]


def finish(L, law, o, k, what, extra=(), dead=(), check=()):
    """judges the heap after an operation"""
    if o.k == "x":
        return            # a refused argument ends the program
    if o.k != "t" and not law.kind(o, "n", what):
        return
    st = o.st
    live = [r for r in objs(st) if r not in dead]
    if o.k == "n" and o.v[0] == "rec" and str(o.v[1]).startswith(FQ):
        st = st.clone()
        st.store[("p", "#result")] = o.v
        live.append(("p", "#result"))
    ok = L.errors(law, o, what)
    for msg in crossings(L, o):
        law.fail(st, what + ": " + msg)
        ok = False
    for r in live:
        kk = [q for q, c in INST.items() if c == st.store[r][1]]
        if kk and ok:
            ok = L.sound(law, st, (r, ()), kk[0], "%s, field %s" % (what, r[1])) and ok
    if ok:
        L.accounts(law, st, live, list(dead), what)


@rule("C19")
def c19(rep):
    P_ = load("full")
    rep.rule("mem-ctor", "every constructor leaves a field that owns one live block of its executor, large enough", 20)
    rep.rule("mem-op", "every operation, from every state of a field, keeps that and neither loses nor shares a block", 80)
    rep.rule("mem-dtor", "the destructor releases the block exactly once, in the executor it came from", 12)
    rep.rule("mem-exec", "an executor allocates, reallocates, releases and views memory of its own space", 12)
    L = FieldLab(P_, rep)
    I = L.I
    n, m = S("n"), S("m")
    for k, xs in (("F", EXECS), ("V", ("CPUExecutor",)), ("I", ("GPUExecutor",))):
        for x in xs:
            tag = "%s on %s" % (INST[k].split("::")[-1].rstrip(">").replace("Field<", "Field of "), x)
            ctors(L, k, x, tag, n)
            for lab, st, loc in starts(L, "a", k, x, n):
                ops(L, k, x, "%s, %s" % (tag, lab), st, loc, n, m)
    executors(L)


def extarray(L, st, name, k, n, x):
    A = S(name + "Data")
    L.len[A] = n
    L.where_[A] = SPACE[x]
    return ("ptr", (("arr", A, k), (("i", C(0)),)))


def ctors(L, k, x, tag, n):
    st0 = L.start(n)
    val = {"F": S("x"), "V": S("x"), "I": S("x")}[k]
    for what, pts, mk in (
            ("Field(exec, size)", [isexec, isint], lambda s, e: (e, n)),
            ("Field(exec, data, size)", [isexec, isptr, isint, isexec], lambda s, e: (e, extarray(L, s, "host", k, n, "SerialExecutor"), n, exval("SerialExecutor"))),
            ("Field(exec, size, value)", [isexec, isint, iselem], lambda s, e: (e, n, L.obj(s, "x") if k == "V" else val)),
            ("Field(exec, vector)", [isexec, isvec], lambda s, e: (e, L.obj(s, "vec")))):
        f = L.m(k, None, pts, ctor=1)
        with Law(L, "mem-ctor", "%s: %s" % (tag, what), f) as law:
            if f is None:
                law.unds.append("constructor not found")
                continue
            st = st0.clone()
            e = L.ex(st, "exec", x)
            loc = L.newobj(st, "a", k)
            for o in law.run(st, f, loc, *mk(st, e)):
                finish(L, law, o, k, what)
    if L.m(k, None, ctor=2) is None:
        return
    for y in EXECS if k == "F" else (x,):
        f = L.m(k, None, [isexec, isfieldt], ctor=1)
        for lab, st, src in starts(L, "b", k, x, n):
            with Law(L, "mem-ctor", "%s: Field(%s, field) of a field %s" % (tag, y, lab), f) as law:
                if f is None:
                    law.unds.append("constructor not found")
                    continue
                s = st.clone()
                e = L.ex(s, "exec", y)
                loc = L.newobj(s, "a", k)
                for o in law.run(s, f, loc, e, src):
                    finish(L, law, o, k, "Field(exec, field)")
    for nm, ct in (("copy", 2), ("move", 3)):
        f = L.m(k, None, ctor=ct)
        for lab, st, src in starts(L, "b", k, x, n):
            with Law(L, "mem-ctor", "%s: %s of a field %s" % (tag, nm, lab), f) as law:
                if f is None:
                    law.unds.append("constructor not found")
                    continue
                s = st.clone()
                loc = L.newobj(s, "a", k)
                for o in law.run(s, f, loc, src):
                    finish(L, law, o, k, nm + " construction")


def ops(L, k, x, tag, st, loc, n, m):
    def law(rid, what, f):
        return Law(L, rid, "%s: %s" % (tag, what), f)
    f = None
    for g in L.P.funcs.values():
        if g.c == FQ and g.dtor and g.b is not None and g.cr == INST[k]:
            f = g
    with law("mem-dtor", "destruction", f) as lw:
        if f is None:
            lw.unds.append("no destructor found")
        else:
            for o in lw.run(st, f, loc):
                finish(L, lw, o, k, "destruction", dead=[loc[0]])
    f = L.m(k, "resize")
    for txt, size in (("resize(m)", m), ("resize(0)", C(0))):
        with law("mem-op", txt, f) as lw:
            s = st.clone()
            L.positive(s, m)
            for o in lw.run(s, f, loc, size):
                finish(L, lw, o, k, txt)
    f = L.m(k, "copyToExecutor", [isexec])
    if f is not None:
        for y in EXECS if k == "F" else (x,):
            with law("mem-op", "copyToExecutor(%s)" % y, f) as lw:
                for o in lw.run(st, f, loc, exval(y)):
                    finish(L, lw, o, k, "copyToExecutor")
    f = L.m(k, "copyToHost", [])
    if f is not None:
        with law("mem-op", "copyToHost()", f) as lw:
            for o in lw.run(st, f, loc):
                finish(L, lw, o, k, "copyToHost")
    f = L.m(k, "copyToHost", [isfieldt])
    if f is not None:
        with law("mem-op", "copyToHost(result)", f) as lw:
            for s, b in other(L, st.clone(), "b", k, "SerialExecutor", n):
                for o in lw.run(s, f, loc, b):
                    finish(L, lw, o, k, "copyToHost(result)")
    f = L.m(k, "operator=", [isfieldt])
    if f is not None:
        for txt, size in (("a = b of the same size", n), ("a = b of another size", m), ("a = b of an empty field", C(0))):
            with law("mem-op", txt, f) as lw:
                s0 = st.clone()
                L.positive(s0, m)
                for s, b in other(L, s0, "b", k, x, size):
                    for o in lw.run(s, f, loc, b):
                        finish(L, lw, o, k, "assignment")
        with law("mem-op", "a = a", f) as lw:
            for o in lw.run(st, f, loc, loc):
                finish(L, lw, o, k, "self-assignment")
    f = L.m(k, "operator=", [iselem])
    if f is not None:
        with law("mem-op", "a = value", f) as lw:
            s = st.clone()
            v = L.obj(s, "x")
            for o in lw.run(s, f, loc, v):
                finish(L, lw, o, k, "assignment of a value")
    for op in ("+=", "-="):
        f = L.m(k, "operator" + op, [isfieldt])
        if f is None:
            continue
        with law("mem-op", "a %s b" % op, f) as lw:
            for s, b in other(L, st.clone(), "b", k, x, n):
                for o in lw.run(s, f, loc, b):
                    finish(L, lw, o, k, op)


def executors(L):
    """the memory functions of the executors themselves"""
    I = L.I
    for x in EXECS:
        q = "NeoFOAM::" + x
        for f in sorted((g for g in L.P.funcs.values() if g.c == q and g.b is not None), key=lambda g: g.u):
            if f.n in ("alloc", "realloc"):
                with Law(L, "mem-exec", "%s::%s" % (x, f.n), f) as law:
                    st = L.start()
                    st.facts[("pos", S("n"))] = True
                    loc = L.obj(st, "exec", S("theExecutor"))
                    a = [S("n")]
                    if f.n == "realloc":
                        A = ("new", 1, "old")
                        st.store[("alloc", A)] = ("block", C(SPACE[x]), S("old"), C("live"))
                        st.store[("arrn", A)] = S("oldn")
                        a = [("ptr", (("arr", A, "F"), (("i", C(0)),)))] + a
                    for o in law.run(st, f, loc, *a):
                        if not law.kind(o, "n", f.n) or not L.errors(law, o, f.n):
                            continue
                        v = o.v
                        b = o.st.store.get(("alloc", v[1][0][1])) if v[0] == "ptr" and v[1][0][0] == "arr" else None
                        if b is None:
                            (law.unds.append if has_unk(v) else lambda t: law.fail(o.st, t, v))("%s does not return a block" % f.n)
                            continue
                        if b[1][1] != SPACE[x]:
                            law.fail(o.st, "%s allocates in %s" % (f.n, b[1][1]))
                        t = f.ret.to if f.ret is not None and f.ret.k == "ptr" else None
                        from .mem import sizeof
                        want = S("n") if t is None or t.k == "void" else lin_scale(S("n"), sizeof(t))
                        if o.st.nz(b[2]) != o.st.nz(want):
                            law.fail(o.st, "%s allocates %s bytes, expected %s" % (f.n, show(b[2]), show(want)))
            elif f.n == "createKokkosView":
                with Law(L, "mem-exec", "%s::createKokkosView<%s>" % (x, f.p[0]["t"].s), f) as law:
                    st = L.start()
                    loc = L.obj(st, "exec", S("theExecutor"))
                    p = ("ptr", (("arr", S("block"), "F"), (("i", C(0)),)))
                    for o in law.run(st, f, loc, p, S("n")):
                        if not law.kind(o, "n", f.n):
                            continue
                        v = o.v if o.v[0] != "@" else I.rd(o.v[1], o.st)[0].v
                        g = absint.rec_get
                        if v[0] != "rec" or g(v, "#ptr") is None:
                            law.unds.append("view not understood")
                            continue
                        law.same(o.st, g(v, "#ptr"), p, "the pointer of the view")
                        law.same(o.st, g(v, "#n"), S("n"), "the length of the view")
                        if side(g(v, "#space")[1]) != side(SPACE[x]):
                            law.fail(o.st, "the view is of %s" % g(v, "#space")[1])


def lin_scale(t, n):
    r = C(0)
    for _ in range(n):
        r = lin_add(r, t)
    return r


# ================================================================ C20
K = S("k")


def rdname(k, name, i=K):
    return (("vrd" if k == "V" else "rd"), S(name), i)


def inrange(L, st, lo, i, hi):
    """lo <= i < hi"""
    for t in (lin_sub(hi, i), lin_add(lin_sub(i, lo), C(1))):
        t = st.nz(t)
        if t[0] != "c":
            st.facts[("pos", t)] = True


def subrange(L, st, lo, hi, n):
    """0 <= lo < hi <= n"""
    inrange(L, st, C(0), lo, n)
    L.positive(st, hi)
    for t in (lin_sub(hi, lo), lin_add(lin_sub(hi, lo), C(1)), lin_add(lin_sub(n, hi), C(1)), lin_add(hi, C(1))):
        st.facts[("pos", t)] = True


class Val:
    """what a field holds after an operation"""

    def __init__(self, L, law, k):
        self.L, self.law, self.k = L, law, k

    def ok(self, o, what, kind="n"):
        if not self.law.kind(o, kind, what):
            return False
        return self.L.errors(self.law, o, what)

    def put(self, st, v):
        """location of a field returned by value"""
        st = st.clone()
        if v[0] == "@":
            return st, v[1]
        st.store[("p", "#result")] = v
        return st, (("p", "#result"), ())

    def field(self, st, loc, size, ex, elem, what, span=None):
        """the field has that size and executor, and its element k is elem for every k (of the span)"""
        L, law, k = self.L, self.law, self.k
        n, x = L.size(st, loc, k), L.exec(st, loc, k)
        if n is None or has_unk(n):
            law.unds.append(what + ": size not known")
            return
        if size is not None and not law.same(st, n, size, what + ": the size"):
            return
        if x is None:
            law.unds.append(what + ": executor not known")
        elif ex is not None and x != ex:
            law.fail(st, "%s: the executor is %s, expected %s" % (what, x, ex))
        if elem is None or st.nz(size) == C(0):
            return
        lo, hi = span or (C(0), size)
        s = st.clone()
        inrange(L, s, lo, K, hi)
        if lo != C(0):
            inrange(L, s, C(0), K, size)
        elif hi != size:
            inrange(L, s, C(0), K, size)
        for v, s2 in self.read(s, loc):
            if v is None:
                law.unds.append(what + ": contents not known")
            else:
                self.value(s2, v, elem, what)

    def read(self, st, loc):
        A = self.L.block(st, loc, self.k)
        if A is None:
            return [(None, st)]
        v = self.L.I.cread(A, self.L.I.content(A, st), K, ek(self.k), st)
        return [(v, st)]

    def value(self, st, got, want, what):
        got, want = st.nz(got), st.nz(want)
        if got == want or P.iszero(P.sub(got, want)):
            return
        if has_unk(got) or has_unk(want):
            self.law.unds.append(what + ": value not known")
            return
        g, w = show(got)[:200], show(want)[:200]
        self.law.fail(st, "%s: element k is %s, expected %s" % (what, g, w), got)

    def untouched(self, st, loc, size, ex, name, what):
        self.field(st, loc, size, ex, rdname(self.k, name) if st.nz(size) != C(0) else None, what)


@rule("C20")
def c20(rep):
    P_ = load("full")
    rep.rule("val-ctor", "constructors, copies, moves and transfers between executors hold exactly the given size and values on the executor asked for", 40)
    rep.rule("val-assign", "assignment, resize, fill, set and map give every element (of the range) the value asked for and change no other", 60)
    rep.rule("val-arith", "field arithmetic is element-wise and changes nothing but its target", 25)
    rep.rule("val-equal", "equal is true exactly when sizes and all elements agree", 6)
    rep.rule("val-view", "size, range and views describe the same elements", 12)
    L = FieldLab(P_, rep)
    n, m = S("n"), S("m")
    for k, xs in (("F", EXECS), ("V", ("CPUExecutor",)), ("I", ("GPUExecutor",))):
        for x in xs:
            tag = "%s on %s" % ({"F": "Field<scalar>", "V": "Field<Vector>", "I": "Field<label>"}[k], x)
            val_ctors(L, k, x, tag, n)
            val_assign(L, k, x, tag, n, m)
            val_arith(L, k, x, tag, n, m)
            val_equal(L, k, x, tag, n, m)
            val_view(L, k, x, tag, n)


def ev(L, st, k):
    """an element value: (argument, its term)"""
    if k == "V":
        return L.obj(st, "x", X("V")), X("V")
    return S("x"), S("x")


def X(k):
    """an element value"""
    return ("vsym", "x") if k == "V" else S("x")


def val_ctors(L, k, x, tag, n):
    for lab, size in (("n elements", n), ("no elements", C(0))):
        def base():
            st = L.start(n)
            return st, L.ex(st, "exec", x), L.newobj(st, "a", k)
        f = L.m(k, None, [isexec, isint], ctor=1)
        with Law(L, "val-ctor", "%s: Field(exec, size), %s" % (tag, lab), f) as law:
            V = Val(L, law, k)
            st, e, loc = base()
            for o in law.run(st, f, loc, e, size):
                if V.ok(o, "construction"):
                    V.field(o.st, loc, size, x, None, "construction")
        f = L.m(k, None, [isexec, isptr, isint, isexec], ctor=1)
        for y in EXECS if k == "F" else (x,):
            with Law(L, "val-ctor", "%s: Field(exec, data on %s, size), %s" % (tag, y, lab), f) as law:
                V = Val(L, law, k)
                st, e, loc = base()
                d = extarray(L, st, "d", k, size, y)
                for o in law.run(st, f, loc, e, d, size, exval(y)):
                    if V.ok(o, "construction"):
                        V.field(o.st, loc, size, x, rdname(k, "dData"), "construction from memory")
        f = L.m(k, None, [isexec, isint, iselem], ctor=1)
        with Law(L, "val-ctor", "%s: Field(exec, size, value), %s" % (tag, lab), f) as law:
            V = Val(L, law, k)
            st, e, loc = base()
            a, v = ev(L, st, k)
            for o in law.run(st, f, loc, e, size, a):
                if V.ok(o, "construction"):
                    V.field(o.st, loc, size, x, v, "construction from a value")
    f = L.m(k, None, [isexec, isvec], ctor=1)
    with Law(L, "val-ctor", "%s: Field(exec, vector)" % tag, f) as law:
        V = Val(L, law, k)
        st = L.start()
        e, loc = L.ex(st, "exec", x), L.newobj(st, "a", k)
        vec = L.obj(st, "vec")
        nv = absint.seq_len(S("vec"))
        L.positive(st, nv)
        for o in law.run(st, f, loc, e, vec):
            if V.ok(o, "construction"):
                V.field(o.st, loc, nv, x, ("velt", S("vec"), K), "construction from a vector")
    for lab, size in (("n elements", n), ("no elements", C(0))):
        for s, src in L.construct(L.start(n), "b", k, x, size):
            for y in EXECS if k == "F" else (x,):
                f = L.m(k, None, [isexec, isfieldt], ctor=1)
                with Law(L, "val-ctor", "%s: Field(%s, field), %s" % (tag, y, lab), f) as law:
                    V = Val(L, law, k)
                    st = s.clone()
                    e, loc = L.ex(st, "exec", y), L.newobj(st, "a", k)
                    for o in law.run(st, f, loc, e, src):
                        if V.ok(o, "copy"):
                            V.field(o.st, loc, size, y, rdname(k, "b0"), "the copy")
                            V.untouched(o.st, src, size, x, "b0", "the original")
                f = L.m(k, "copyToExecutor", [isexec])
                with Law(L, "val-ctor", "%s: copyToExecutor(%s), %s" % (tag, y, lab), f) as law:
                    V = Val(L, law, k)
                    for o in law.run(s, f, src, exval(y)):
                        if V.ok(o, "copyToExecutor"):
                            st, loc = V.put(o.st, o.v)
                            V.field(st, loc, size, y, rdname(k, "b0"), "the result")
                            V.untouched(st, src, size, x, "b0", "the original")
            f = L.m(k, None, ctor=2)
            with Law(L, "val-ctor", "%s: copy, %s" % (tag, lab), f) as law:
                V = Val(L, law, k)
                st = s.clone()
                loc = L.newobj(st, "a", k)
                for o in law.run(st, f, loc, src):
                    if V.ok(o, "copy"):
                        V.field(o.st, loc, size, x, rdname(k, "b0"), "the copy")
                        V.untouched(o.st, src, size, x, "b0", "the original")
                        # independence: writing the copy leaves the original alone
                        g = L.m(k, "operator=", [iselem])
                        st2 = o.st.clone()
                        a, v = ev(L, st2, k)
                        for o2 in L.call(st2, g, loc, a):
                            if V.ok(o2, "writing the copy"):
                                V.untouched(o2.st, src, size, x, "b0", "the original after the copy was written")
            f = L.m(k, None, ctor=3)
            with Law(L, "val-ctor", "%s: move, %s" % (tag, lab), f) as law:
                V = Val(L, law, k)
                st = s.clone()
                loc = L.newobj(st, "a", k)
                for o in law.run(st, f, loc, src):
                    if V.ok(o, "move"):
                        V.field(o.st, loc, size, x, rdname(k, "b0"), "the new field")
                        V.field(o.st, src, C(0), x, None, "the field moved from")
            f = L.m(k, "copyToHost", [])
            with Law(L, "val-ctor", "%s: copyToHost(), %s" % (tag, lab), f) as law:
                V = Val(L, law, k)
                for o in law.run(s, f, src):
                    if V.ok(o, "copyToHost"):
                        st, loc = V.put(o.st, o.v)
                        V.field(st, loc, size, "SerialExecutor", rdname(k, "b0"), "the result")
                        V.untouched(st, src, size, x, "b0", "the original")
            f = L.m(k, "copyToHost", [isfieldt])
            with Law(L, "val-ctor", "%s: copyToHost(result), %s" % (tag, lab), f) as law:
                V = Val(L, law, k)
                for s2, r in L.construct(s.clone(), "r", k, "SerialExecutor", size):
                    for o in law.run(s2, f, src, r):
                        if V.ok(o, "copyToHost"):
                            V.field(o.st, r, size, "SerialExecutor", rdname(k, "b0"), "the result")
                            V.untouched(o.st, src, size, x, "b0", "the original")


def probe(L, name, k):
    want = {"F": "double", "V": "NeoFOAM::Vector", "I": "int"}[k]
    r = [f for f in L.P.byq("nfprobe::" + name) if f.b is not None and ((f.p[0]["t"].strip().rec or f.p[0]["t"].strip().s) == INST[k])]
    return r[0] if r else None


def law_of(L, rid, tag, what, f, k):
    return Law(L, rid, "%s: %s" % (tag, what), f)


def val_assign(L, k, x, tag, n, m):
    other_x = EXECS[(EXECS.index(x) + 1) % 3]
    f = L.m(k, "operator=", [iselem])
    for lab, s, a in starts(L, "a", k, x, n):
        size = n if lab == "of any size" else C(0)
        with Law(L, "val-assign", "%s %s: a = value" % (tag, lab), f) as law:
            V = Val(L, law, k)
            st = s.clone()
            arg, v = ev(L, st, k)
            for o in law.run(st, f, a, arg):
                if V.ok(o, "assignment"):
                    V.field(o.st, a, size, x, v, "the field")
        g = L.m(k, "operator=", [isfieldt])
        for txt, bn in (("a field of n elements", n), ("a field of m elements", m), ("an empty field", C(0))):
            with Law(L, "val-assign", "%s %s: a = %s" % (tag, lab, txt), g) as law:
                V = Val(L, law, k)
                s0 = s.clone()
                L.positive(s0, m)
                for s2, b in L.construct(s0, "b", k, x, bn):
                    for o in law.run(s2, g, a, b):
                        if V.ok(o, "assignment"):
                            V.field(o.st, a, bn, x, rdname(k, "b0"), "the field")
                            V.untouched(o.st, b, bn, x, "b0", "the assigned field")
        with Law(L, "val-assign", "%s %s: a = a" % (tag, lab), g) as law:
            V = Val(L, law, k)
            for o in law.run(s, g, a, a):
                if V.ok(o, "assignment"):
                    V.untouched(o.st, a, size, x, "a0", "the field")
        with Law(L, "val-assign", "%s %s: a = a field on another executor is refused" % (tag, lab), g) as law:
            V = Val(L, law, k)
            for s2, b in L.construct(s.clone(), "b", k, other_x, n):
                for o in law.run(s2, g, a, b):
                    if o.k == "n":
                        law.fail(o.st, "the assignment returns")
        h = L.m(k, "resize")
        for txt, nm in (("m", m), ("0", C(0)), ("its own size", size)):
            with Law(L, "val-assign", "%s %s: resize(%s)" % (tag, lab, txt), h) as law:
                V = Val(L, law, k)
                s0 = s.clone()
                L.positive(s0, m)
                for o in law.run(s0, h, a, nm):
                    if V.ok(o, "resize"):
                        V.field(o.st, a, nm, x, None, "the field")
                        if size != C(0) and nm != C(0):
                            st = o.st.clone()
                            inrange(L, st, C(0), K, n)
                            V.field(st, a, nm, x, rdname(k, "a0"), "an element both sizes have")
    lo, hi = S("lo"), S("hi")
    for nm, sub, val in (("fill", "fillAll", "x"), ("setField", "setAll", "b"), ("map", "mapAll", "b"), ("apply", "applyTo", "b"),
                         ("fill", "fillTo", "x"), ("setField", "setTo", "b"), ("map", "mapTo", "b")):
        f = probe(L, sub, k)
        subj = L.m(k, "apply") if nm == "apply" else next((g for g in L.P.byq("NeoFOAM::" + nm) if g.b is not None and kindmatch(g, k)), None)
        ranged = sub in ("fillTo", "setTo", "mapTo")
        sizes = (("n elements", n),) if ranged else (("n elements", n), ("no elements", C(0)))
        for lab, size in sizes:
            with Law(L, "val-assign", "%s: %s%s, %s" % (tag, nm, " of a range" if ranged else "", lab), subj or f) as law:
                if f is None:
                    law.unds.append("probe not found")
                    continue
                V = Val(L, law, k)
                for s, a in L.construct(L.start(n), "a", k, x, size):
                    if val == "x":
                        s = s.clone()
                        arg, v = L.obj(s, "x", X(k)), X(k)
                        pairs = [(s, arg)]
                    else:
                        v = rdname(k, "b0")
                        pairs = L.construct(s, "b", k, x, size)
                    for s2, b in pairs:
                        if not ranged:
                            for o in law.run(s2, f, None, a, b):
                                if V.ok(o, nm):
                                    V.field(o.st, a, size, x, v, "the field")
                                    if val == "b":
                                        V.untouched(o.st, b, size, x, "b0", "the source")
                            continue
                        st = s2.clone()
                        subrange(L, st, lo, hi, n)
                        for o in law.run(st, f, None, a, b, pair(lo, hi)):
                            if not V.ok(o, nm):
                                continue
                            V.field(o.st, a, size, x, v, "an element of the range", (lo, hi))
                            V.field(o.st, a, size, x, rdname(k, "a0"), "an element before the range", (C(0), lo))
                            V.field(o.st, a, size, x, rdname(k, "a0"), "an element after the range", (hi, n))
                            if val == "b":
                                V.untouched(o.st, b, size, x, "b0", "the source")


def kindmatch(f, k):
    t = f.p[0]["t"].strip()
    return (t.rec or t.s) == INST[k]


def val_arith(L, k, x, tag, n, m):
    a0, b0 = rdname(k, "a0"), rdname(k, "b0")
    T = [("operator+=", lambda: P.add(a0, b0), True), ("operator-=", lambda: P.sub(a0, b0), True), ("operator*=", lambda: P.mul(a0, b0), True),
         ("operator*", lambda: P.mul(a0, b0), False)]
    for nm, want, inplace in T:
        f = L.m(k, nm, [isfieldt])
        if f is None:
            continue
        for lab, size in (("n elements", n), ("no elements", C(0))):
            with Law(L, "val-arith", "%s: a %s b, %s" % (tag, nm[8:], lab), f) as law:
                V = Val(L, law, k)
                for s, a in L.construct(L.start(n), "a", k, x, size):
                    for s2, b in L.construct(s, "b", k, x, size):
                        for o in law.run(s2, f, a, b):
                            arith_result(V, o, a, b, size, x, want(), inplace)
        with Law(L, "val-arith", "%s: a %s a" % (tag, nm[8:]), f) as law:
            V = Val(L, law, k)
            w = P.renorm(want())
            w = {"operator+=": P.add(a0, a0), "operator-=": P.sub(a0, a0), "operator*=": P.mul(a0, a0), "operator*": P.mul(a0, a0)}[nm]
            for s, a in L.construct(L.start(n), "a", k, x, n):
                for o in law.run(s, f, a, a):
                    if V.ok(o, nm):
                        st, r = V.put(o.st, o.v)
                        V.field(st, a if inplace else r, n, x, w, "the result")
        if not inplace:
            continue
        with Law(L, "val-arith", "%s: a %s b of another size is refused" % (tag, nm[8:]), f) as law:
            V = Val(L, law, k)
            s0 = L.start(n, m)
            s0.facts[("eq", n, m) if repr(n) <= repr(m) else ("eq", m, n)] = False
            for s, a in L.construct(s0, "a", k, x, n):
                for s2, b in L.construct(s, "b", k, x, m):
                    for o in law.run(s2, f, a, b):
                        if o.k == "n":
                            law.fail(o.st, "the operation returns")
                        elif o.k == "t":
                            V.untouched(o.st, a, n, x, "a0", "the field after the refusal")
    for nm, inplace in (("operator*=", True), ("operator*", False)):
        f = L.m(k, nm, [lambda t: t.strip().k in ("float", "double", "real") or kind_of(t.strip()) == "F" and not isfieldt(t)])
        if f is None:
            continue
        for lab, size in (("n elements", n), ("no elements", C(0))):
            with Law(L, "val-arith", "%s: a %s scalar, %s" % (tag, nm[8:], lab), f) as law:
                V = Val(L, law, k)
                for s, a in L.construct(L.start(n), "a", k, x, size):
                    for o in law.run(s, f, a, S("c")):
                        arith_result(V, o, a, None, size, x, P.mul(S("c"), a0), inplace)
    for nm, sub, want in (("operator+", "plus", lambda: P.add(a0, b0)), ("operator-", "minus", lambda: P.sub(a0, b0))):
        f = probe(L, sub, k)
        subj = next((g for g in L.P.byq("NeoFOAM::" + nm) if g.b is not None and len(g.p) == 2 and kindmatch(g, k)), None)
        for lab, size in (("n elements", n), ("no elements", C(0))):
            with Law(L, "val-arith", "%s: a %s b, %s" % (tag, nm[8:], lab), subj or f) as law:
                if f is None:
                    law.unds.append("probe not found")
                    continue
                V = Val(L, law, k)
                for s, a in L.construct(L.start(n), "a", k, x, size):
                    for s2, b in L.construct(s, "b", k, x, size):
                        for o in law.run(s2, f, None, a, b):
                            arith_result(V, o, a, b, size, x, want(), False)


def arith_result(V, o, a, b, size, x, want, inplace):
    if not V.ok(o, "the operation"):
        return
    st, r = V.put(o.st, o.v)
    if inplace:
        V.field(st, a, size, x, want, "the target")
        if o.v[0] == "@" and o.v[1] != a:
            V.law.fail(st, "the reference returned is not the target")
    else:
        V.field(st, r, size, x, want, "the result")
        V.untouched(st, a, size, x, "a0", "the left operand")
    if b is not None:
        V.untouched(st, b, size, x, "b0", "the right operand")


def diffs(k, a, b):
    d = P.sub(a, b)
    return [P.cmp_(d, i) for i in range(3)] if k == "V" else [d]


def val_equal(L, k, x, tag, n, m):
    fs = [g for g in L.P.byq("NeoFOAM::equal") if g.b is not None and len(g.p) == 2 and kindmatch(g, k)]
    for f in fs:
        withfield = isfieldt(f.p[1]["t"])
        if not withfield and "View" in f.p[1]["t"].s:
            continue
        what = "field" if withfield else "value"
        with Law(L, "val-equal", "%s: equal(field, %s)" % (tag, what), f) as law:
            V = Val(L, law, k)
            for s, a in L.construct(L.start(n), "a", k, x, n):
                if withfield:
                    pairs = L.construct(s, "b", k, x, n)
                else:
                    s2 = s.clone()
                    pairs = [(s2, L.obj(s2, "x", X("V")) if k == "V" else S("x"))]
                for s2, b in pairs:
                    outs = law.run(s2, f, None, a, b)
                    equal_result(L, V, law, k, outs, s2, n, lambda i: rdname(k, "b0", i) if withfield else X(k))
                    for o in outs:
                        V.untouched(o.st, a, n, x, "a0", "the field")
        with Law(L, "val-equal", "%s: equal(empty field, %s)" % (tag, what), f) as law:
            V = Val(L, law, k)
            for s, a in L.construct(L.start(n), "a", k, x, C(0)):
                if withfield:
                    pairs = L.construct(s, "b", k, x, C(0))
                else:
                    s2 = s.clone()
                    pairs = [(s2, L.obj(s2, "x", X("V")) if k == "V" else S("x"))]
                for s2, b in pairs:
                    for o in law.run(s2, f, None, a, b):
                        if V.ok(o, "equal") and not impossible(o.st):
                            law.same(o.st, o.v, C(True), "the answer")
        if withfield:
            with Law(L, "val-equal", "%s: equal(field, field of another size)" % tag, f) as law:
                V = Val(L, law, k)
                s0 = L.start(n, m)
                s0.facts[("eq", n, m) if repr(n) <= repr(m) else ("eq", m, n)] = False
                for s, a in L.construct(s0, "a", k, x, n):
                    for s2, b in L.construct(s, "b", k, x, m):
                        for o in law.run(s2, f, None, a, b):
                            if V.ok(o, "equal"):
                                law.same(o.st, o.v, C(False), "the answer")


def impossible(st):
    return any(k[0] == "pos" and k[1][0] == "c" and (k[1][1] > 0) != v for k, v in st.facts.items() if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], tuple))


def generic(st, n):
    """the indices of a loop over all of [0, n) that the facts of a path are about"""
    r = set()

    def walk(t):
        if isinstance(t, tuple):
            if len(t) == 3 and t[0] == "eidx" and t[1] == ("range", n):
                r.add(t)
            for x in t:
                walk(x)
    for f in st.facts:
        walk(f)
    return r


def equal_result(L, V, law, k, outs, s0, n, other):
    """false only where some element differs, and for every way in which the element at any index can differ"""
    covered = []
    nd = 3 if k == "V" else 1
    saw = False
    for o in outs:
        if not V.ok(o, "equal"):
            return
        v = o.st.nz(o.v)
        if v == C(True):
            saw = True
            continue
        if v != C(False):
            law.unds.append("the answer is not decided: " + show(v)[:120])
            return
        G = generic(o.st, n)
        if len(G) != 1:
            law.unds.append("cannot tell which element a path is about")
            return
        i = G.pop()
        ds = diffs(k, rdname(k, "a0", i), other(i))
        known = []
        for d in ds:
            t = o.st.facts.get(P.feqkey(d)[1]) if k != "I" else inteq(o.st, rdname(k, "a0", i), other(i))
            known.append(t)
        extra = {f for f in o.st.facts if f not in s0.facts} - {("taint",)}
        mine = {P.feqkey(d)[1] for d in ds} if k != "I" else set(intkeys(rdname(k, "a0", i), other(i)))
        rest = [f for f in extra - mine if not (f[0] == "pos" and contains(f, i) and not contains(f, S("a0")))]
        if any(f[0] in ("feq", "fpos", "eq", "pos") and contains(f, i) for f in rest):
            law.unds.append("a path of the comparison depends on " + show(rest[0])[:150])
            return
        if all(t is not False for t in known):
            law.fail(o.st, "equal answers false although no element is known to differ")
            return
        covered.append(known)
    if not saw:
        law.fail(outs[0].st if outs else s0, "equal never answers true")
        return
    for bits in range(1, 2 ** nd):
        want = [not bits >> j & 1 for j in range(nd)]        # True: this component agrees
        if not any(all(t is None or t == w for t, w in zip(c, want)) for c in covered):
            law.fail(outs[0].st, "equal answers true when an element differs%s" % ("" if nd == 1 else " in component(s) %s" % [j for j in range(3) if not want[j]]))
            return


def intkeys(a, b):
    return [("eq", a, b), ("eq", b, a), P.feqkey(P.sub(a, b))[1]]


def inteq(st, a, b):
    for q in intkeys(a, b):
        if q in st.facts:
            return st.facts[q]
    return None


def val_view(L, k, x, tag, n):
    lo, hi = S("lo"), S("hi")
    G = absint.rec_get
    for lab, size in (("n elements", n), ("no elements", C(0))):
        for s, a in L.construct(L.start(n), "a", k, x, size):
            A = L.block(s, a, k)
            for nm, want in (("size", size), ("ssize", size), ("empty", C(size == C(0))), ("range", None)):
                f = L.m(k, nm, [])
                with Law(L, "val-view", "%s: %s(), %s" % (tag, nm, lab), f) as law:
                    if f is None:
                        law.unds.append("not found")
                        continue
                    for o in law.run(s, f, a):
                        if not law.kind(o, "n", nm):
                            continue
                        if want is not None:
                            law.val(o, want, nm + "()")
                            continue
                        for v, st in L.read(o.st, o.v):
                            a2, b2 = (v[1], v[2]) if v[0] == "pair" else (G(v, "first"), G(v, "second"))
                            law.same(st, a2, C(0), "begin of the range")
                            law.same(st, b2, size, "end of the range")
            for const in (False, True):
                f = L.m(k, "view", [], const=const)
                with Law(L, "val-view", "%s: view()%s, %s" % (tag, " const" if const else "", lab), f) as law:
                    if f is None:
                        law.unds.append("not found")
                        continue
                    for o in law.run(s, f, a):
                        if law.kind(o, "n", "view"):
                            view_is(L, law, o, A, C(0), size)
                if size == C(0):
                    continue
                f = L.m(k, "view", [ispair], const=const)
                with Law(L, "val-view", "%s: view(range)%s" % (tag, " const" if const else ""), f) as law:
                    if f is None:
                        law.unds.append("not found")
                        continue
                    st = s.clone()
                    subrange(L, st, lo, hi, n)
                    for o in law.run(st, f, a, pair(lo, hi)):
                        if law.kind(o, "n", "view"):
                            view_is(L, law, o, A, lo, lin_sub(hi, lo))


def view_is(L, law, o, A, off, size):
    G = absint.rec_get
    for v, st in L.read(o.st, o.v):
        v = st.nz(v)
        if v[0] != "rec" or G(v, "#len") is None:
            law.unds.append("view not understood: " + show(v)[:100])
            return
        law.same(st, G(v, "#len"), size, "the length of the view")
        if A is not None:
            if G(v, "#arr") != A:
                law.fail(st, "the view is of other memory")
            law.same(st, G(v, "#off"), off, "the start of the view")
