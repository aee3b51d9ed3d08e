"""C42: the Runge-Kutta integrator and its SUNDIALS vectors; SUNDIALS' own functions are modelled."""
from . import absint, poly as P
from .absint import C, S, N, NULL, VOID, bind, has_unk, isc
from .engine import load, Broken
from .kern import bindkey
from .lab import Law, show
from .mem import side
from .rules import rule
from .rules_dsl import (SolveLab, EXPLICIT, IMPLICIT, IDX, TI, here, mkexpr, events, total, valueis, indexed, asked, only)
from .rules_par import exval

KV = "sundials::kokkos::Vector"
SUN = "NeoFOAM::sundials::"
KINDS = {"SerialExecutor": "serial", "CPUExecutor": "host", "GPUExecutor": "device"}
N_ = S("n")


def kindof(text):
    for k, v in (("Kokkos::Serial", "serial"), ("Kokkos::DefaultHostExecutionSpace", "host"), ("Kokkos::Threads", "host"), ("Kokkos::DefaultExecutionSpace", "device"), ("Kokkos::Device", "device")):
        if k in text:
            return v
    return "?"


class SunLab(SolveLab):
    def __init__(self, P_, rep):
        super().__init__(P_, rep)
        self.vectors()
        self.arkode()

    # ------------------------------------------------------------- vectors
    def newvector(self, st, kind, n):
        nid = self.I.fresh("nv")[1]
        A = ("new", nid, "nvdata")
        st.store[("arrn", A)] = n
        st.store[("nvec", nid)] = ("rec", "N_Vector", (("#kind", C(kind)), ("#n", n), ("#arr", A)), None)
        self.I.setcontent(A, ("uninit",), st)
        return nid

    def vec(self, v, st):
        """(array, kind, size) of an N_Vector value"""
        v = st.nz(v)
        if v[0] != "ptr" or v[1][0][0] != "nvec":
            return None
        r = st.store[v[1][0]]
        return absint.rec_get(r, "#arr"), absint.rec_get(r, "#kind")[1], absint.rec_get(r, "#n")

    def vectors(self):
        I, M, L = self.I, self.I.km, self

        def ctor(I_, f, ob, a, st):
            kind = kindof(f.cr or "")
            if ob is None:
                return None
            if f.ctor == 3:
                return bind(I_.val(a[0], st), lambda v, s: I_.wr(ob, v, s))
            if f.ctor == 2:
                def dup(v, s):
                    v = s.nz(v)
                    if v[0] != "rec" or absint.rec_get(v, "#nv") is None:
                        return I_.wr(ob, I_.unk("copy of a vector"), s)
                    n = L.vec(absint.rec_get(v, "#nv"), s)[2]
                    return I_.wr(ob, ("rec", f.cr, (("#nv", ("ptr", (("nvec", L.newvector(s, kind, n)), ()))),), None), s)
                return bind(I_.val(a[0], st), dup)

            def go(vs, s):
                if not vs:
                    return I_.wr(ob, ("rec", f.cr, (("#nv", ("ptr", (("nvec", L.newvector(s, kind, C(0))), ()))),), None), s)
                s.event("newvector", C(kind), s.nz(vs[0]), s.nz(vs[1]))
                return I_.wr(ob, ("rec", f.cr, (("#nv", ("ptr", (("nvec", L.newvector(s, kind, s.nz(vs[0]))), ()))),), None), s)
            return bind(I_.vals(a, st), go)
        M[KV + "::ctor"] = ctor

        def assign(I_, f, ob, a, st):
            rv = f.p[0]["t"].k == "rref" if getattr(f, "p", None) else (f.pt[0].k == "rref")

            def go(v, s):
                v = s.nz(v)
                if v[0] == "rec" and absint.rec_get(v, "#nv") is not None and not rv:
                    A, kind, n = L.vec(absint.rec_get(v, "#nv"), s)
                    v = ("rec", v[1], (("#nv", ("ptr", (("nvec", L.newvector(s, kind, n)), ()))),), None)
                return bind(I_.wr(ob, v, s), lambda _, s2: N(("@", ob), s2))
            return bind(I_.val(a[0], st), go)
        M[KV + "::operator="] = assign

        def conv(I_, f, ob, a, st):
            v = st.nz(I_.rd(ob, st)[0].v)
            r = absint.rec_get(v, "#nv") if v[0] == "rec" else None
            return N(r if r is not None else I_.unk("N_Vector"), st)
        for n in ("operator _generic_N_Vector *", "operator N_Vector", "conversion"):
            M[KV + "::" + n] = conv
        self.conv = conv

        def getvec(I_, f, ob, a, st):
            want = kindof(f.ret.s)

            def go(v, s):
                r = L.vec(v, s)
                if r is None:
                    s.event("badvector" if s.nz(v) == NULL else "unkvector", s.nz(v))
                    return N(I_.unk("vector"), s)
                if r[1] != want:
                    s.event("badspace", C(r[1]), C(want))
                return N(("ptr", (s.nz(v)[1][0], ())), s)
            return bind(I_.val(a[0], st), go)
        M["sundials::kokkos::GetVec"] = getvec

        def view(I_, f, ob, a, st):
            r = L.vec(("ptr", ob), st)
            if r is None:
                v = st.nz(I_.rd(ob, st)[0].v)
                nv = absint.rec_get(v, "#nv") if v[0] == "rec" else None
                r = L.vec(nv, st) if nv is not None else None
            if r is None:
                return N(I_.unk("view"), st)
            return N(("rec", "Kokkos::View", (("#arr", r[0]), ("#k", C("F")), ("#len", r[2]), ("#off", C(0))), None), st)
        M[KV + "::View"] = view

        def idx(I_, f, ob, a, st):
            v = st.nz(I_.rd(ob, st)[0].v)
            A = absint.rec_get(v, "#arr") if v[0] == "rec" else None
            if A is None:
                return None
            return bind(I_.val(a[0], st), lambda i, s: N(("@", (("arr", A, "F"), (("i", i),))), s))
        M["Kokkos::View::operator()"] = idx

        def data(I_, f, ob, a, st):
            def go(v, s):
                r = L.vec(v, s)
                if r is None:
                    return N(NULL if s.nz(v) == NULL else I_.unk("array of a vector"), s)
                return N(("ptr", (("arr", r[0], "F"), (("i", C(0)),))), s)
            return bind(I_.val(a[0], st), go)
        M["N_VGetArrayPointer"] = data
        M["N_VGetDeviceArrayPointer"] = data

        def length(I_, f, ob, a, st):
            def go(v, s):
                r = L.vec(v, s)
                return N(r[2] if r is not None else I_.unk("length of a vector"), s)
            return bind(I_.val(a[0], st), go)
        M["N_VGetLength"] = length

    # -------------------------------------------------------------- arkode
    def arkode(self):
        I, M, L = self.I, self.I.km, self

        def ctxcreate(I_, f, ob, a, st):
            def go(vs, s):
                p = s.nz(vs[1])
                s.event("context")
                if p[0] != "ptr":
                    return N(I_.unk("context"), s)
                return bind(I_.wr(p[1], S("theContext"), s), lambda _, s2: N(C(0), s2))
            return bind(I_.vals(a, st), go)
        M["SUNContext_Create"] = ctxcreate

        def create(I_, f, ob, a, st):
            def go(vs, s):
                y0 = L.vec(vs[2], s)
                ark = ("ark", I_.fresh("ark")[1])
                s.store[ark] = ("rec", "ARK", (("#f", s.nz(vs[0])), ("#t", s.nz(vs[1])), ("#y", I_.content(y0[0], s) if y0 else ("unk", "y0")), ("#n", y0[2] if y0 else ("unk", "n")),
                                               ("#kind", C(y0[1] if y0 else "?")), ("#h", VOID), ("#user", VOID), ("#table", VOID), ("#ctx", s.nz(vs[3]))), None)
                s.event("arkcreate", ark)
                return N(("ptr", (ark, ())), s)
            return bind(I_.vals(a, st), go)
        M["ERKStepCreate"] = create

        def setter(field, at=1):
            def h(I_, f, ob, a, st):
                def go(vs, s):
                    p = s.nz(vs[0])
                    if p[0] != "ptr" or p[1][0][0] != "ark":
                        s.event("badark" if p == NULL else "unkark", C(field), p)
                        return N(C(0 if p != NULL else -21), s)
                    s.store[p[1][0]] = absint.rec_set(s.store[p[1][0]], field, s.nz(vs[at]))
                    return N(C(0), s)
                return bind(I_.vals(a, st), go)
            return h
        M["ERKStepSetTableNum"] = setter("#table")
        M["ARKodeSetUserData"] = setter("#user")
        M["ARKodeSetFixedStep"] = setter("#h")
        M["ARKodeSStolerances"] = lambda I_, f, ob, a, st: bind(I_.vals(a, st), lambda vs, s: N(C(0), s))

        def reset(I_, f, ob, a, st):
            def go(vs, s):
                p, y = s.nz(vs[0]), L.vec(vs[2], s)
                if p[0] != "ptr" or p[1][0][0] != "ark" or y is None:
                    s.event("unkark", C("reset"), p)
                    return N(C(0), s)
                r = s.store[p[1][0]]
                s.store[p[1][0]] = absint.rec_set(absint.rec_set(r, "#t", s.nz(vs[1])), "#y", I_.content(y[0], s))
                return N(C(0), s)
            return bind(I_.vals(a, st), go)
        M["ARKodeReset"] = reset

        def evolve(I_, f, ob, a, st):
            def go(vs, s):
                p, y = s.nz(vs[0]), L.vec(vs[2], s)
                tout = s.nz(vs[3])
                if p[0] != "ptr" or p[1][0][0] != "ark" or y is None or tout[0] != "ptr":
                    s.event("badark" if p == NULL else "unkark", C("evolve"), p)
                    return N(C(0 if p != NULL else -21), s)
                r = s.store[p[1][0]]
                G = lambda k: absint.rec_get(r, k)   # noqa: E731
                if G("#user") == VOID or G("#table") == VOID or G("#h") == VOID:
                    s.event("unset", C(", ".join(w for k, w in (("#user", "user data"), ("#table", "Butcher table"), ("#h", "fixed step")) if G(k) == VOID)))
                    return N(C(-22), s)
                s.event("evolve", G("#table"), s.nz(vs[1]), s.nz(vs[4]), G("#t"), G("#h"))
                if y[1] != G("#kind")[1]:
                    s.event("badspace", C(y[1]), G("#kind"))
                fn = G("#f")
                yc = L.newvector(s, y[1], G("#n"))
                yd = L.newvector(s, y[1], G("#n"))
                I_.setcontent(("new", yc, "nvdata"), G("#y"), s)
                g = L.P.funcs.get(fn[1]) if fn[0] == "fn" else None
                if g is None or g.b is None:
                    s.event("unkark", C("right-hand side"), fn)
                    return N(C(0), s)

                def done(flag, s2):
                    nz = s2.nz(flag)
                    if nz != C(0):
                        return N(C(-8), s2)
                    key = ("bk", 1)
                    new = P.add(I_.cread(("new", yc, "nvdata"), G("#y"), key, "F", s2), P.mul(G("#h"), I_.cread(("new", yd, "nvdata"), I_.content(("new", yd, "nvdata"), s2), key, "F", s2)))
                    cont = ("map", C(0), G("#n"), 1, new, ("uninit",))
                    I_.setcontent(y[0], cont, s2)
                    t1 = P.add(G("#t"), G("#h"))
                    rr = s2.store[p[1][0]]
                    s2.store[p[1][0]] = absint.rec_set(absint.rec_set(rr, "#t", t1), "#y", cont)
                    return bind(I_.wr(tout[1], t1, s2), lambda _, s3: N(C(0), s3))
                return bind(I_.enter(g, None, (G("#t"), ("ptr", (("nvec", yc), ())), ("ptr", (("nvec", yd), ())), G("#user")), s), done)
            return bind(I_.vals(a, st), go)
        M["ARKodeEvolve"] = evolve
        M["ARKodeFree"] = lambda I_, f, ob, a, st: bind(I_.vals(a, st), lambda vs, s: (s.event("arkfree"), N(VOID, s))[1])
        M["SUNContext_Free"] = lambda I_, f, ob, a, st: bind(I_.vals(a, st), lambda vs, s: (s.event("ctxfree"), N(VOID, s))[1])
        I.real -= set(M) - {k for k in M if k.startswith(("NeoFOAM::",))}

    # ------------------------------------------------------------- helpers
    def vector(self, st, name, x, law=None):
        """[(state, N_Vector value)] of a wrapped vector of n elements for executor x"""
        init = [f for f in self.P.funcs.values() if f.q == "nfprobe::skInit"]
        sx, si, sv = self.fnq("nfprobe::skExecutor"), self.fnq("nfprobe::skInit"), self.fnq("nfprobe::skVector")
        cls = [f for f in self.P.funcs.values() if f.c == SUN + "SKVector" and f.ctor == 4]
        st = st.clone()
        cr = sx.p[0]["t"].strip().rec
        st.store[("p", name)] = ("rec", cr, (), None)
        for f in cls:
            if f.b is not None:
                st = only(self.call(st, f, here(name)), "SKVector()")
        e = self.ex(st, "exec", x)
        st = only(self.call(st, sx, None, here(name), e), "setExecutor")
        st.store[("p", "#ctx")] = S("theContext")
        st = only(self.call(st, si, None, here(name), N_, ("uptr", ("ptr", here("#ctx")))), "initNVector")
        outs = self.call(st, sv, None, here(name))
        st = only(outs, "sunNVector")
        return st, st.nz(outs[0].v)


def spaces(law, st):
    for e in events(st, "badspace"):
        law.fail(st, "a vector of the %s space is used as one of the %s space" % (e[1][1], e[2][1]))
        return
    for e in events(st, "badvector"):
        law.fail(st, "an uninitialised vector is used")
        return


def known(law, st):
    if events(st, "unkark", "unkvector"):
        law.unds.append("a vector or the integrator memory is not known: %s" % show(events(st, "unkark", "unkvector")[0][1:])[:80])
        return False
    return True


def wrapped(L):
    for x, kind in KINDS.items():
        f = L.fnq("nfprobe::skInit")
        with Law(L, "sun-vector", "a vector for %s" % x, f) as law:
            st, v = L.vector(L.start(N_), "v", x)
            law.npaths += 1
            r = L.vec(v, st)
            if r is None:
                if v == NULL:
                    law.fail(st, "an initialised vector has no N_Vector")
                else:
                    law.unds.append("N_Vector is %s" % show(v)[:60])
                continue
            if side(dict(serial="Kokkos::Serial", host="Kokkos::Threads", device="Kokkos::Device").get(r[1], "?")) != side({"GPUExecutor": "Kokkos::Device"}.get(x, "Kokkos::Serial")):
                law.fail(st, "the vector for %s lives in the %s space" % (x, r[1]))
            law.same(st, r[2], N_, "number of elements")
            for e in events(st, "newvector"):
                if e[3] != S("theContext"):
                    law.fail(st, "the vector is made in another context than the one given") if not has_unk(e[3]) else law.unds.append("context")
        for name, q in (("copied", "nfprobe::skCopy"), ("moved", "nfprobe::skMove")):
            f = L.fnq(q)
            with Law(L, "sun-vector", "a %s vector for %s" % (name, x), f) as law:
                st, v = L.vector(L.start(N_), "v", x)
                for o in law.run(st, f, None, here("v")):
                    if not law.kind(o, "n", name):
                        continue
                    s = o.st.clone()
                    s.store[("p", "w")] = s.nz(o.v)
                    outs = [o2 for o2 in L.call(s, L.fnq("nfprobe::skVector"), None, here("w"))]
                    if len(outs) != 1 or outs[0].k != "n":
                        law.unds.append("sunNVector of the %s vector" % name)
                        continue
                    w = outs[0].st.nz(outs[0].v)
                    own = None
                    if L.vec(w, outs[0].st) is None:
                        law.unds.append("N_Vector of the %s vector is %s" % (name, show(w)[:60]))
                        continue
                    if name == "copied":
                        if w == v:
                            law.fail(s, "the copy's N_Vector is that of the vector copied")
                        else:
                            law.same(s, L.vec(w, outs[0].st)[2], N_, "number of elements of the copy")
                    elif w != v:
                        law.fail(s, "the moved vector is not the one that was filled")


def transfers(L):
    to, back = L.fnq("nfprobe::toVector"), L.fnq("nfprobe::toField")
    for x in KINDS:
        for f, name in ((to, "field to vector"), (back, "vector to field")):
            with Law(L, "sun-copy", "%s on %s" % (name, x), f) as law:
                st, v = L.vector(L.start(N_), "v", x)
                (st, fl), = L.construct(st, "field", "F", x, N_)[:1]
                A = L.vec(v, st)[0]
                L.I.setcontent(A, ("map", C(0), N_, 1, ("rd", S("vec0"), ("bk", 1)), ("uninit",)), st)
                indexed(st, N_)
                st.store[("p", "#nv")] = v
                args = (fl, here("#nv")) if f is to else (here("#nv"), fl)
                for o in law.run(st, f, None, *args):
                    if not law.kind(o, "n", name) or not known(law, o.st):
                        continue
                    s = o.st
                    spaces(law, s)
                    src = S("field0") if f is to else S("vec0")
                    vv = L.I.cread(A, L.I.content(A, s), IDX, "F", s)
                    if has_unk(vv):
                        law.unds.append("vector contents not known")
                    elif not P.iszero(P.sub(s.nz(vv), ("rd", src, IDX))):
                        law.fail(s, "element i of the vector is %s, expected %s" % (show(vv)[:80], show(("rd", src, IDX))), vv)
                    valueis(L, law, s, fl, ("rd", src, IDX), "the field")


def tables(L):
    f = L.fnq("nfprobe::rkTable")
    want = {"Forward-Euler": C(1), "Heun": None, "Midpoint": None}
    for key in list(want) + ["Forward-euler", "Euler", ""]:
        with Law(L, "sun-table", "method '%s'" % key, f) as law:
            st = L.start()
            st.store[("p", "key")] = C(key)
            for o in law.run(st, f, None, here("key")):
                w = want.get(key)
                if w is None:
                    if o.k == "n":
                        law.fail(o.st, "the method '%s' is accepted (table %s)" % (key, show(o.v)))
                elif law.kind(o, "n", "method '%s'" % key):
                    law.val(o, w, "table of '%s'" % key)


def rk(L, st, x):
    """a Runge-Kutta integrator made from its dictionaries"""
    ct = [g for g in L.P.funcs.values() if (g.c or "") == TI + "RungeKutta" and g.ctor == 1 and len(g.p) == 2 and g.b is not None]
    if not ct:
        raise Broken("RungeKutta has no constructor")
    st.store[("p", "method")] = ("rec", ct[0].cr, (), None)
    return only(L.call(st, ct[0], here("method"), here("schemes"), here("solution")), "RungeKutta")


def rksolve(L):
    for f in L.P.funcs.values():
        if (f.c or "") == TI + "RungeKutta" and f.n == "solve" and f.b is not None:
            return f
    raise Broken("RungeKutta::solve not found")


SHAPES = [("an explicit operator", [("t", IMPLICIT, "number"), ("s", EXPLICIT, "number")]),
          ("several explicit operators", [("t", IMPLICIT, "number"), ("s", EXPLICIT, "number"), ("s", EXPLICIT, "number")]),
          ("ddt alone", [("t", IMPLICIT, "number")])]


def stepped(L, law, s, want):
    valueis(L, law, s, L.internal(s, here("phi")), want, "the new field")
    valueis(L, law, s, L.internal(s, here("old")), want, "the old-time field afterwards")
    spaces(law, s)
    asked(L, law, s)


def step(L):
    f = rksolve(L)
    for x in KINDS:
        for label, specs in SHAPES:
            with Law(L, "sun-step", "one step on %s: %s" % (x, label), f) as law:
                st = L.world(x)
                st, ops = mkexpr(L, st, "ex", specs, 1)
                setexec(L, st, x)
                indexed(st, N_)
                st = rk(L, st, x)
                first = None
                for o in law.run(st, f, here("method"), here("ex"), here("phi"), S("t"), S("dt")):
                    s = o.st
                    if o.k != "n":
                        if o.k != "x" or methodok(s):
                            law.fail(s, "solve ends with %s" % {"t": "an exception", "x": "an error"}.get(o.k, o.k))
                        continue
                    if not known(law, s):
                        continue
                    ev = events(s, "evolve", "unset")
                    if [e_ for e_ in ev if e_[0] == "unset"]:
                        law.fail(s, "the integrator runs without its %s" % ev[0][1][1])
                        continue
                    if len(ev) != 1:
                        law.fail(s, "the integrator takes %d steps" % len(ev))
                        continue
                    tab = ev[0][1]
                    if tab != C(1):
                        law.fail(s, "a step is taken with the table %s" % show(tab)[:40]) if not has_unk(tab) else law.unds.append("table")
                        continue
                    if not methodok(s):
                        law.fail(s, "a method other than the one in the scheme dictionary is used")
                        continue
                    E = total(ops, ("explicit",), IDX)
                    stepped(L, law, s, P.sub(("rd", S("old"), IDX), P.mul(S("dt"), E)))
                    if not P.iszero(P.sub(ev[0][4], S("t"))):
                        law.fail(s, "the step starts at %s, expected t" % show(ev[0][4])[:60])
                    if ev[0][3] != C(2) and not P.iszero(P.sub(ev[0][2], P.add(S("t"), S("dt")))):
                        law.fail(s, "the step runs to %s, expected t + dt" % show(ev[0][2])[:60])
                    first = s
                if first is not None:
                    again(L, law, f, first, ops)


def again(L, law, f, st, ops):
    """a second step of the same integrator, with another step size"""
    st = st.clone()
    n0 = len(st.eff)
    t1 = P.add(S("t"), S("dt"))
    for o in law.run(st, f, here("method"), here("ex"), here("phi"), t1, S("dt2")):
        if o.k != "n":
            law.fail(o.st, "the second step ends with %s" % o.k)
            continue
        s = o.st
        if not known(law, s):
            continue
        E = total(ops, ("explicit",), IDX)
        want = P.sub(("rd", S("old"), IDX), P.mul(P.add(S("dt"), S("dt2")), E))
        valueis(L, law, s, L.internal(s, here("phi")), want, "the field after a second step")
        if [1 for e, _ in s.eff[n0:] if e[0] in ("arkcreate",)]:
            pass


def methodok(st):
    """the path has read the method from the scheme dictionary and found it to be the supported one"""
    for k, v in st.facts.items():
        if isinstance(k, tuple) and v is True and k[0] == "eq" and C("Forward-Euler") in k[1:]:
            other = [x for x in k[1:] if x != C("Forward-Euler")]
            if other and absint.contains(other[0], C("schemes")) and absint.contains(other[0], C("Runge-Kutta-Method")):
                return True
    return False


def setexec(L, st, x):
    """puts the expression on executor x (mkexpr makes it on the CPU)"""
    f = [g for g in L.P.funcs.values() if g.c == "NeoFOAM::dsl::Expression" and g.n == "exec" and not g.p and g.b is not None]
    outs = L.call(st, f[0], here("ex")) if f else []
    if len(outs) == 1 and outs[0].v[0] == "@":
        for o in L.I.wr(outs[0].v[1], exval(x), st):
            pass


def rhs(L):
    f = L.fnq("nfprobe::rhs")
    for x in KINDS:
        for label, specs in SHAPES:
            with Law(L, "sun-rhs", "right-hand side on %s: %s" % (x, label), f) as law:
                st = L.world(x)
                st, ops = mkexpr(L, st, "ex", specs, 1)
                setexec(L, st, x)
                indexed(st, N_)
                st, y = L.vector(st, "y", x)
                st, yd = L.vector(st, "yd", x)
                Y = L.vec(y, st)[0]
                L.I.setcontent(Y, ("map", C(0), N_, 1, ("rd", S("y0"), ("bk", 1)), ("uninit",)), st)
                for o in law.run(st, f, None, S("t"), y, yd, ("ptr", here("ex"))):
                    if not law.kind(o, "n", "right-hand side") or not known(law, o.st):
                        continue
                    s = o.st
                    law.val(o, C(0), "flag returned")
                    spaces(law, s)
                    A = L.vec(yd, s)[0]
                    v = L.I.cread(A, L.I.content(A, s), IDX, "F", s)
                    want = P.neg(total(ops, ("explicit",), IDX))
                    if has_unk(v):
                        law.unds.append("ydot not known")
                    elif not P.iszero(P.sub(s.nz(v), want)):
                        law.fail(s, "ydot is %s, expected %s" % (show(v)[:80], show(want)[:80]), v)
                    u = L.I.cread(Y, L.I.content(Y, s), IDX, "F", s)
                    if not has_unk(u) and not P.iszero(P.sub(s.nz(u), ("rd", S("y0"), IDX))):
                        law.fail(s, "the state is changed by evaluating the right-hand side", u)


def copies(L):
    f = L.fnq("nfprobe::rkClone")
    g = rksolve(L)
    with Law(L, "sun-clone", "a copy made before the first step", f) as law:
        st = L.world("CPUExecutor")
        st, ops = mkexpr(L, st, "ex", SHAPES[0][1], 1)
        indexed(st, N_)
        st = rk(L, st, "CPUExecutor")
        for o in law.run(st, f, None, here("method")):
            if law.kind(o, "n", "clone"):
                cloned(L, law, g, o, ops, ("rd", S("old"), IDX))
    with Law(L, "sun-clone", "a copy made after a step", f) as law:
        st = L.world("CPUExecutor")
        st, ops = mkexpr(L, st, "ex", SHAPES[0][1], 1)
        indexed(st, N_)
        st = rk(L, st, "CPUExecutor")
        outs = [o for o in L.call(st, g, here("method"), here("ex"), here("phi"), S("t"), S("dt")) if o.k == "n" and methodok(o.st)]
        if not outs:
            law.unds.append("no first step")
        for p in outs:
            for o in law.run(p.st, f, None, here("method")):
                if law.kind(o, "n", "clone"):
                    cloned(L, law, g, o, ops, P.sub(("rd", S("old"), IDX), P.mul(S("dt"), total(ops, ("explicit",), IDX))))


def cloned(L, law, g, o, ops, old):
    v = o.st.nz(o.v)
    if v[0] != "uptr" or v[1][0] != "ptr":
        law.unds.append("the copy is %s" % show(v)[:60])
        return
    ran = False
    for p in law.run(o.st.clone(), g, v[1][1], here("ex"), here("phi"), S("t2"), S("dt2")):
        if p.k != "n":
            if methodok(p.st):
                law.fail(p.st, "a step of the copy ends with %s" % p.k)
            continue
        ran = True
        if known(law, p.st):
            valueis(L, law, p.st, L.internal(p.st, here("phi")), P.sub(old, P.mul(S("dt2"), total(ops, ("explicit",), IDX))), "the field after a step of the copy")
    if not ran:
        law.fail(o.st, "the copy cannot take a step")


@rule("C42")
def c42(rep):
    rep.rule("sun-vector", "a vector for an executor lives where its fields live, and copies own their data", 6)
    rep.rule("sun-copy", "fields and vectors exchange every element, on every executor", 6)
    rep.rule("sun-rhs", "the right-hand side given to SUNDIALS is minus the explicit operators", 6)
    rep.rule("sun-step", "a step advances the old field by dt times the right-hand side at t, and steps continue", 6)
    rep.rule("sun-table", "methods that are not supported are refused", 3)
    rep.rule("sun-clone", "a copy of the integrator integrates on its own", 1)
    L = SunLab(load("full"), rep)
    wrapped(L)
    transfers(L)
    rhs(L)
    step(L)
    tables(L)
    copies(L)
