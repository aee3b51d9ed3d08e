"""C47: what linear solver libraries are given, and what becomes of their result."""
from . import absint, poly as P
from .absint import C, S, N, VOID, NULL, TRUE, bind, isc, has_unk, Out, St
from .engine import load
from .fv import World
from .lab import Law, show
from .rules import rule
from .rules_host import hostexec

LA = "NeoFOAM::la::"
EXECS = ("SerialExecutor", "CPUExecutor", "GPUExecutor")
# small systems: rows of column numbers
SHAPES = [((0,),), ((0, 1), (0, 1)), ((0, 1), (1,)), ((0, 1), (0, 1, 2), (1, 2)), ((0, 2), (1,), (1, 2)), ((2, 0), (1, 0), (2, 1, 0))]


def seq(xs):
    return ("vecseq", ("seq", tuple(("e", x) for x in xs)))


class SolverLab(World):
    def derive(self):
        self.arr, self.asize, self.akind = {}, {}, {}

    def start(self):
        self.I.nstates = 0
        st = St()
        for n in EXECS:
            for m in EXECS:
                st.facts[("anytype", S(n), "NeoFOAM::" + m)] = n == m
        return st

    def probe(self, name):
        return self.one(None, name, where=lambda f: f.q == "nfprobe::" + name)

    def given(self, st, name, k, xs, ex):
        """a field holding these values"""
        A = self.I.newarr(self.I, st, C(len(xs)), seq(xs), name)
        st.store[("p", name)] = self.I.frec(A, ex, C(len(xs)), k, st)
        return (("p", name), ())

    def system(self, law, st, rows, ex=S("exec"), nx=None):
        """[(state, location of the system, location of the field solved for)]"""
        cols = [c for r in rows for c in r]
        offs = [0]
        for r in rows:
            offs.append(offs[-1] + len(r))
        a = [self.given(st, "a", "F", [S("a%d" % i) for i in range(len(cols))], ex), self.given(st, "c", "L", [C(x) for x in cols], ex),
             self.given(st, "r", "L", [C(x) for x in offs], ex), self.given(st, "b", "F", [S("b%d" % i) for i in range(len(rows))], ex)]
        x = self.given(st, "x", "F", [S("x%d" % i) for i in range(len(rows))], ex)
        for o in law.run(st, self.probe("makeSystem"), None, *[("@", l) for l in a]):
            if o.k == "n":
                o.st.store[("p", "sys")] = o.v
                yield o.st, (("p", "sys"), ()), x

    def entries(self, rows):
        r, n = {}, 0
        for i, row in enumerate(rows):
            for c in row:
                r[i, c] = P.add(r.get((i, c), C(0)), S("a%d" % n))
                n += 1
        return r

    def memory(self, p, n, st):
        """the n values behind a pointer, as they are now"""
        if p[0] != "ptr" or not isc(n):
            return None
        root, path = p[1]
        off = 0
        if path and path[-1][0] == "i":
            if not isc(path[-1][1]):
                return None
            off, path = path[-1][1][1], path[:-1]
        r = []
        for i in range(n[1]):
            o = self.I.rd((root, path + (("i", C(off + i)),)), st)
            if len(o) != 1:
                return None
            r.append(st.nz(o[0].v))
        return r


class Petsc(SolverLab):
    """PETSc as it documents itself: handles, and what is stored behind them"""

    def __init__(self, P_, rep):
        super().__init__(P_, rep)
        I = self.I
        I.models["PetscInitialize"] = I.models["PetscFinalize"] = self.m(lambda vs, s: None)
        for k in ("Mat", "Vec", "KSP"):
            I.models[k + "Create"] = self.make(k)
            I.models[k + "Destroy"] = self.destroy
        for n in ("MatSetType", "VecSetType"):
            I.models[n] = self.m(lambda vs, s: self.put(vs[0], s, type=vs[1]))
        for n in ("KSPSetFromOptions", "KSPSetTolerances", "KSPSetUp", "KSPSetInitialGuessNonzero", "MatAssemblyBegin", "MatAssemblyEnd",
                  "VecRestoreArray", "VecRestoreArrayRead"):
            I.models[n] = self.m(self.used(n))
        I.models["MatSetSizes"] = I.models["VecSetSizes"] = self.m(lambda vs, s: self.put(vs[0], s, sizes=tuple(vs[1:])))
        I.models["VecDuplicate"] = self.dup
        I.models["MatSetPreallocationCOO"] = self.m(lambda vs, s: self.put(vs[0], s, ij=(self.memory(vs[2], vs[1], s), self.memory(vs[3], vs[1], s)), n=vs[1]))
        I.models["VecSetPreallocationCOO"] = self.m(lambda vs, s: self.put(vs[0], s, ij=(self.memory(vs[2], vs[1], s),), n=vs[1]))
        I.models["MatSetValuesCOO"] = I.models["VecSetValuesCOO"] = self.m(self.values)
        I.models["KSPSetOperators"] = self.m(lambda vs, s: self.put(vs[0], s, A=vs[1]))
        I.models["KSPSolve"] = self.m(self.solve)
        I.models["VecGetArray"] = I.models["VecGetArrayRead"] = self.getarray

    def m(self, f):
        def model(I, e, fn, ob, a, st):
            def go(vs, s):
                f([s.nz(v) for v in vs], s)
                return N(C(0), s)
            return bind(I.vals(a, st), go)
        return model

    def used(self, name):
        return lambda vs, s: self.obj(vs[0], s)

    def obj(self, h, s):
        """what is behind a handle"""
        if h[0] == "ptr" and h[1][0][0] == "petsc":
            o = s.store.get(h[1][0])
            if o is None or dict(o).get("gone"):
                s.event("petsc-bad", "a PETSc object is used after it was destroyed")
                return {}
            return dict(o)
        s.event("petsc-bad", "a PETSc function is given no object") if h == NULL else s.event("petsc-unk", "object")
        return {}

    def put(self, h, s, **kw):
        o = self.obj(h, s)
        if o:
            o.update(kw)
            s.store[h[1][0]] = tuple(sorted(o.items(), key=lambda x: x[0]))

    def new(self, s, **kw):
        root = ("petsc", sum(1 for k in s.store if k[0] == "petsc"))
        s.store[root] = tuple(sorted(kw.items()))
        return ("ptr", (root, ()))

    def make(self, kind):
        def model(I, e, fn, ob, a, st):
            return bind(I.vals(a, st), lambda vs, s: bind(I.wr(vs[1][1], self.new(s, kind=kind), s), lambda _, s2: N(C(0), s2)))
        return model

    def dup(self, I, e, fn, ob, a, st):
        def go(vs, s):
            o = self.obj(s.nz(vs[0]), s)
            return bind(I.wr(vs[1][1], self.new(s, kind="Vec", sizes=o.get("sizes"), type=o.get("type")), s), lambda _, s2: N(C(0), s2))
        return bind(I.vals(a, st), go)

    def destroy(self, I, e, fn, ob, a, st):
        def go(vs, s):
            def go2(h, s2):
                h = s2.nz(h)
                if h == NULL:
                    return N(C(0), s2)
                self.put(h, s2, gone=True)
                return bind(I.wr(vs[0][1], NULL, s2), lambda _, s3: N(C(0), s3))
            return bind(I.rd(vs[0][1], s), go2)
        return bind(I.vals(a, st), go)

    def values(self, vs, s):
        o = self.obj(vs[0], s)
        if "n" not in o:
            s.event("petsc-bad", "values are set before their places are known")
            return
        v = self.memory(vs[1], o["n"], s)
        if v is None or None in o["ij"]:
            self.put(vs[0], s, val=None)
            return
        r = {}
        for k, x in zip(zip(*o["ij"]), v):
            if not all(isc(i) for i in k):
                self.put(vs[0], s, val=None)
                return
            k = tuple(i[1] for i in k)
            r[k] = P.add(r.get(k, C(0)), x)
        if o.get("val") and vs[2] == C(2):
            for k, x in o["val"]:
                r[k] = P.add(r.get(k, C(0)), x)
        self.put(vs[0], s, val=tuple(sorted(r.items())))

    def solve(self, vs, s):
        ks, b = self.obj(vs[0], s), self.obj(vs[1], s)
        A = self.obj(ks["A"], s) if "A" in ks else {}
        x = vs[2]
        for o, what in ((A, "matrix"), (b, "right-hand side")):
            if o and "val" not in o:
                s.event("petsc-bad", "the %s is given no values" % what)
        s.event("solve", A.get("val"), A.get("sizes"), b.get("val"), b.get("sizes"), x)
        for t, what in ((A.get("type"), "matrix"), (b.get("type"), "vector")):
            if t is None:
                s.event("petsc-bad", "the %s has no type" % what)
            elif s.facts.get(("anytype", S("exec"), "NeoFOAM::GPUExecutor")) is True and isc(t) and isinstance(t[1], str) and not any(k in t[1] for k in ("kokkos", "cuda", "hip")):
                s.event("petsc-bad", "a %s of type %s is given values in device memory" % (what, t[1]))
        n = len(b["val"]) if b.get("val") else 0
        if self.obj(x, s):
            s.store[("arrc", ("petscvec", x[1][0]))] = seq([("sol", i) for i in range(n)])

    def getarray(self, I, e, fn, ob, a, st):
        def go(vs, s):
            h = s.nz(vs[0])
            self.obj(h, s)
            if h[0] != "ptr":
                return N(C(0), s)
            p = ("ptr", (("arr", ("petscvec", h[1][0]), "F"), (("i", C(0)),)))
            return bind(I.wr(vs[1][1], p, s), lambda _, s2: N(C(0), s2))
        return bind(I.vals(a, st), go)


def matrix(rows, W):
    return {k: v for k, v in W.entries(rows).items()}


def eqm(got, want):
    return set(got) == set(want) and all(P.same(got[k], want[k]) or P.iszero(P.sub(got[k], want[k])) for k in want)


def text(m):
    return ", ".join("%s: %s" % (k, show(v)) for k, v in sorted(m.items()))[:200]


@rule("C47")
def c47(rep):
    rep.limit = True
    rep.rule("petsc", "PETSc is given the entries of the system's matrix and right-hand side, and the field becomes its solution", 3)
    rep.rule("ginkgo", "Ginkgo is given the system's matrix, right-hand side and the field to solve for, in memory that is still there", 3)
    rep.rule("config", "the solver library is configured with exactly the entries of the dictionary", 3)
    Pr = load("solvers")
    petsc(Pr, rep)
    ginkgo(Pr, rep)


def petsc(Pr, rep):
    W = Petsc(Pr, rep)
    f = W.one(LA + "petsc::petscSolver", "solve") or W.probe("solvePetsc")
    for rows in SHAPES:
        name = "%d rows, columns %s" % (len(rows), " ".join("".join(map(str, r)) for r in rows))
        runs = []
        with Law(W, "petsc", "the entries, whichever index is the row: " + name, f, key="petsc:entries") as law:
            for st, sys, x in W.system(law, W.start(), rows):
                W.blank(st, "s", LA + "petsc::petscSolver")
                st.store[("p", "s")] = S("solver")
                for o in law.run(st, f, (("p", "s"), ()), ("@", sys), ("@", x)):
                    runs.append((o, x))
                    judge(W, law, o, x, rows)
        with Law(W, "petsc", "rows are rows: " + name, f, key="petsc:rows") as law:
            for o, x in runs:
                law.npaths += 1
                for ev, _ in o.st.eff:
                    if ev[0] == "solve" and ev[1] is not None:
                        got, want = dict(ev[1]), matrix(rows, W)
                        tr = {(j, i): v for (i, j), v in want.items()}
                        if not eqm(got, want) and eqm(got, tr):
                            law.fail(o.st, "PETSc is given the transposed matrix: " + text(got))


def judge(W, law, o, x, rows):
    if o.k != "n":
        law.fail(o.st, "solve does not return (%s)" % o.k)
        return
    for ev, _ in o.st.eff:
        if ev[0] == "petsc-bad":
            law.fail(o.st, ev[1])
        elif ev[0] == "fromptr" and ev[2][0] == "ptr" and ev[2][1][0][0] == "arr" and ev[2][1][0][1][0] == "petscvec" and not hostexec(ev[3], o.st):
            law.fail(o.st, "the memory VecGetArray gives is the host's, and is copied as if it were that of %s" % show(ev[3])[:60])
        elif ev[0] == "petsc-unk":
            law.unds.append("which object is used")
    sol = [ev for ev, _ in o.st.eff if ev[0] == "solve"]
    n = len(rows)
    if not sol:
        law.fail(o.st, "the system is never solved")
    for ev in sol[-1:]:
        _, val, size, b, bsize, xv = ev
        want = matrix(rows, W)
        if val is None or b is None:
            law.unds.append("what PETSc is given is not known")
        else:
            got = dict(val)
            if not eqm(got, want) and not eqm(got, {(j, i): v for (i, j), v in want.items()}):
                law.fail(o.st, "the matrix is {%s} instead of {%s}" % (text(got), text(want)))
            if not eqm(dict(b), {(i,): S("b%d" % i) for i in range(n)}):
                law.fail(o.st, "the right-hand side is {%s}" % text(dict(b)))
        for s, what in ((size, "matrix"), (bsize, "right-hand side")):
            if s is None:
                law.fail(o.st, "the %s has no size" % what)
            elif any(isc(d) and d[1] not in (n, -1) for d in s) or all(d == C(-1) for d in s):
                law.fail(o.st, "the size of the %s is %s for %d rows" % (what, [show(d) for d in s], n))
    solved(W, law, o, x, n)
    left = [dict(v)["kind"] for kk, v in o.st.store.items() if kk[0] == "petsc" and not dict(v).get("gone")]
    if left:
        law.fail(o.st, "PETSc objects are never destroyed: " + ", ".join(left))


class Ginkgo(SolverLab):
    """Ginkgo as it documents itself: arrays that own or view memory, operators made of them, factories made of a configuration"""

    def __init__(self, P_, rep):
        super().__init__(P_, rep)
        I = self.I
        km = I.km
        I.onleave = self.leave
        km["gko::owned"] = self.owned
        km["gko::matrix::Csr::create"] = self.operator("Csr", ("exec", "size", "vals", "cols", "rows"))
        km["gko::matrix::Dense::create"] = self.operator("Dense", ("exec", "size", "vals", "stride"))
        km["gko::share"] = self.share
        km["gko::LinOpFactory::generate"] = self.generate
        km["gko::LinOp::apply"] = self.apply
        km["gko::config::parse"] = self.operator(None, ("config", "context", "types"))
        km["gko::config::deferred::on"] = self.on
        for n in ("Reference", "Omp", "Cuda", "Hip"):
            km["gko::%sExecutor::create" % n] = self.executor(n)
        km["gko::config::pnode::ctor"] = self.pnode
        km["gko::config::pnode::operator="] = lambda I, f, ob, a, st: bind(I.vals(a, st), lambda vs, s: bind(I.wr(ob, self.value(vs[0], s), s), lambda _, s2: N(("@", ob), s2)))
        km["gko::config::pnode::operator bool"] = self.isnode
        km["gko::config::registry::ctor"] = lambda I, f, ob, a, st: I.wr(ob, S("registry"), st)
        km["gko::config::make_type_descriptor"] = lambda I, f, ob, a, st: N(("op", "descriptor", ("c", [str(x.get("t") or x) for x in f.ta or ()][:2] and str((f.ta or [{}])[0]))), st)

    def value(self, v, s):
        if v[0] == "@":
            v = self.I.rd(v[1], s)[0].v
        return s.nz(v)

    def leave(self, s, loc, ret):
        """the arrays of the fields a dying local holds are freed with it"""
        v = s.store.get(loc[0]) if not loc[1] else None

        def arrays(v, out):
            if isinstance(v, tuple):
                if v[:2] == ("rec", "NeoFOAM::Field"):
                    out.add(absint.rec_get(v, "#arr"))
                elif v[:1] == ("rec",):
                    for _, x in v[2]:
                        arrays(x, out)
            return out
        if isinstance(v, tuple) and v[0] == "rec":
            for A in arrays(v, set()) - arrays(ret, set()):
                s.store[("gone", A)] = True

    def owned(self, I, f, ob, a, st):
        def go(vs, s):
            p = s.nz(vs[0])
            if p[0] != "ptr" or p[1][0][0] != "arr" or not p[1][1]:
                return N(I.unk("memory"), s)
            A = p[1][0][1]
            B = I.newarr(I, s, vs[1], ("of", A, I.content(A, s), p[1][1][-1][1]), "owned")
            return N(("ptr", (("arr", B, p[1][0][2]), (("i", C(0)),))), s)
        return bind(I.vals(a, st), go)

    def place(self, s, **kw):
        root = ("gko", sum(1 for k in s.store if k[0] == "gko"))
        s.store[root] = tuple(sorted(kw.items()))
        return ("uptr", ("ptr", (root, ())))

    def operator(self, kind, names):
        def model(I, f, ob, a, st):
            def go(vs, s):
                vs = [self.value(v, s) for v in vs]
                kw = dict(zip(names, vs))
                if kind is None:
                    return N(("op", "deferred", kw["config"], kw["types"]), s)
                return N(self.place(s, kind=kind, **kw), s)
            return bind(I.vals(a, st), go)
        return model

    def share(self, I, f, ob, a, st):
        return bind(I.vals(a, st), lambda vs, s: N(self.value(vs[0], s), s))

    def on(self, I, f, ob, a, st):
        return bind(I.vals(a, st), lambda vs, s: N(self.place(s, kind="factory", spec=self.value(("@", ob), s), exec=self.value(vs[0], s)), s))

    def executor(self, name):
        return lambda I, f, ob, a, st: N(self.place(st, kind="exec", name=name), st)

    def get(self, p, s):
        """the record behind a shared pointer or location"""
        for _ in range(3):
            if p and p[0] == "uptr":
                p = p[1]
            if p and p[0] == "ptr" and p[1][0][0] == "gko":
                return dict(s.store[p[1][0]])
            if p and p[0] == "@":
                p = self.I.rd(p[1], s)[0].v
            else:
                break
        return {}

    def generate(self, I, f, ob, a, st):
        return bind(I.vals(a, st), lambda vs, s: N(self.place(s, kind="solver", factory=self.get(("ptr", ob), s) or self.value(("@", ob), s), A=self.value(vs[0], s)), s))

    def apply(self, I, f, ob, a, st):
        def go(vs, s):
            sv = self.get(("ptr", ob), s)
            A, b, x = self.get(sv.get("A", ()), s), self.get(self.value(vs[0], s), s), self.get(self.value(vs[1], s), s)
            s.event("gsolve", sv.get("factory"), self.shot(A, s), self.shot(b, s), self.shot(x, s))
            v = x.get("vals")
            p = self.part(v, "data_", s)
            if p is not None and p[0] == "ptr" and p[1][0][0] == "arr":
                n = self.part(v, "n_", s)
                B = p[1][0][1]
                I.setcontent(B, seq([("sol", i) for i in range(n[1])]) if isc(n) else ("hav", "sol"), s)
            return N(VOID, s)
        return bind(I.vals(a, st), go)

    def part(self, arr, name, s):
            return s.nz(absint.rec_get(arr, name)) if arr is not None and arr[0] == "rec" and absint.rec_get(arr, name) is not None else None

    def shot(self, o, s):
        """the contents of an operator's arrays as they are now"""
        r = {"kind": o.get("kind"), "size": o.get("size"), "exec": o.get("exec"), "stride": o.get("stride")}
        for n in ("vals", "cols", "rows"):
            if n in o:
                p, m = self.part(o[n], "data_", s), self.part(o[n], "n_", s)
                v = self.memory(p, m, s) if p is not None and m is not None else None
                r[n] = None if v is None else [self.solid(x, s) for x in v]
                r[n + "@"] = p[1][0][1] if p is not None and p[0] == "ptr" and p[1][0][0] == "arr" else None
                r[n + "gone"] = r[n + "@"] is not None and s.store.get(("gone", r[n + "@"])) is True
        return tuple(sorted(r.items(), key=lambda x: x[0]))

    def solid(self, x, s):
        x = s.nz(x)
        if x[0] == "velt" and x[1][0] == "seq" and isc(x[2]) and 0 <= x[2][1] < len(x[1][1]):
            return s.nz(x[1][1][x[2][1]][1])
        return x

    def pnode(self, I, f, ob, a, st):
        if not a:
            return I.wr(ob, ("pnode", None), st)

        def go(vs, s):
            v = self.value(vs[0], s)
            if v[0] == "pnode":
                return I.wr(ob, v, s)
            return I.wr(ob, ("pnode", f.pt[0].strip().s, v), s)
        return bind(I.vals(a, st), go)

    def isnode(self, I, f, ob, a, st):
        v = self.value(("@", ob), st)
        return N(C(v[1] is not None) if v[0] == "pnode" else I.unk("node"), st)


def ginkgo(Pr, rep):
    W = Ginkgo(Pr, rep)
    f = W.one(LA + "ginkgo::GinkgoSolver", "solve") or W.probe("solveGinkgo")
    for rows in SHAPES:
        name = "%d rows, columns %s" % (len(rows), " ".join("".join(map(str, r)) for r in rows))
        with Law(W, "ginkgo", name, f, key="ginkgo:" + name) as law:
            for st, sys, x in W.system(law, W.start(), rows):
                st.store[("p", "s")] = S("solver")
                for o in law.run(st, f, (("p", "s"), ()), ("@", sys), ("@", x)):
                    gjudge(W, law, o, x, rows)
    config(W)


def csr(d, n):
    """{(row, column): value} of CSR arrays, or None"""
    if not all(isinstance(d.get(k), list) for k in ("vals", "cols", "rows")) or not all(isc(v) for k in ("cols", "rows") for v in d[k]):
        return None
    offs, r = [v[1] for v in d["rows"]], {}
    if len(offs) != n + 1 or offs[0] != 0 or offs[-1] != len(d["vals"]) or len(d["cols"]) != len(d["vals"]) or sorted(offs) != offs:
        return {}
    for i in range(n):
        for j in range(offs[i], offs[i + 1]):
            k = (i, d["cols"][j][1])
            r[k] = P.add(r.get(k, C(0)), d["vals"][j])
    return r


def gjudge(W, law, o, x, rows):
    if o.k != "n":
        law.fail(o.st, "solve does not return (%s)" % o.k)
        return
    n = len(rows)
    sol = [ev for ev, _ in o.st.eff if ev[0] == "gsolve"]
    if not sol:
        law.fail(o.st, "the system is never solved")
    for ev in sol[-1:]:
        A, b, y = [dict(z) for z in ev[2:]]
        for d, what, cols in ((A, "matrix", n), (b, "right-hand side", 1), (y, "unknown", 1)):
            if not d.get("kind"):
                law.unds.append("which %s is given to Ginkgo" % what)
                return
            dims = tuple(absint.rec_get(d["size"], k) for k in ("rows", "cols")) if d["size"] and d["size"][0] == "rec" else (None, None)
            if all(v is not None and isc(v) for v in dims) and dims != (C(n), C(cols)):
                law.fail(o.st, "the %s is of size %s times %s for %d rows" % (what, show(dims[0]), show(dims[1]), n))
            for k in ("vals", "cols", "rows"):
                if d.get(k + "gone"):
                    law.fail(o.st, "the %s of the %s are in memory that has been freed when the system is solved" % ({"vals": "values", "cols": "columns", "rows": "row offsets"}[k], what))
            if d.get("stride") not in (None, C(1)):
                law.fail(o.st, "the %s is given with stride %s" % (what, show(d["stride"])))
        if len({A["exec"], b["exec"], y["exec"]}) > 1:
            law.fail(o.st, "matrix and vectors are on different Ginkgo executors")
        want = matrix(rows, W)
        got = csr(A, n)
        if got is None or any(has_unk(v) for v in got.values()):
            law.unds.append("what Ginkgo is given is not known")
        elif not eqm(got, want):
            law.fail(o.st, "the matrix is {%s} instead of {%s}" % (text(got), text(want)))
        if b.get("vals") is None:
            law.unds.append("the right-hand side given to Ginkgo is not known")
        elif b["vals"] != [S("b%d" % i) for i in range(n)]:
            law.fail(o.st, "the right-hand side is %s" % [show(v) for v in b["vals"]])
        if y.get("vals") is not None and y["vals"] != [S("x%d" % i) for i in range(n)] and not any(has_unk(v) for v in y["vals"]):
            law.fail(o.st, "the solver does not start from the values of the field but from %s" % [show(v)[:30] for v in y["vals"]])
    solved(W, law, o, x, n)


def solved(W, law, o, x, n):
    """the field at x holds the solution"""
    A, ex, m, k = W.I.finfo(W.I, x, o.st)
    if o.st.nz(m) != C(n):
        law.fail(o.st, "the field has %s elements afterwards" % show(m))
    for i in range(n):
        v = W.I.cread(A, W.I.content(A, o.st), C(i), k, o.st)
        if has_unk(v):
            law.unds.append("element %d of the field is not known" % i)
        elif v != ("sol", i):
            law.fail(o.st, "element %d of the field is %s afterwards, not the solution" % (i, show(v)[:80]))




KINDS = (("String", C("text"), "string"), ("Chars", C("text"), "char"), ("Int", C(7), "int"), ("Int", C(0), "int"), ("Unsigned", C(7), "unsigned int"), ("Unsigned", C(0), "unsigned int"),
         ("Double", S("d"), "double"), ("Float", S("e"), "float"), ("Double", C(0.0), "double"))


def config(W):
    f = W.one(None, "parse", where=lambda f: f.q == LA + "ginkgo::parse")
    if f is None:
        return
    hooks(W)
    for kind, v, t in KINDS:
        with Law(W, "config", "an entry that is %s %s" % (kind, show(v)), f) as law:
            for st, d in made(W, law, W.start(), "with" + kind, C("k"), v):
                for o in law.run(st, f, None, ("@", d)):
                    node(W, law, o, {"k": (v, t)})
    with Law(W, "config", "two entries", f) as law:
        for st, d in made(W, law, W.start(), "withTwo", C("k"), C(7), C("l"), C("text")):
            for o in law.run(st, f, None, ("@", d)):
                node(W, law, o, {"k": (C(7), "int"), "l": (C("text"), "string")})
    with Law(W, "config", "a dictionary in a dictionary", f) as law:
        for st, d in made(W, law, W.start(), "withInt", C("k"), C(7)):
            for st2, d2 in made(W, law, st, "withDict", C("outer"), ("@", d)):
                for o in law.run(st2, f, None, ("@", d2)):
                    node(W, law, o, {"outer": {"k": (C(7), "int")}})
    with Law(W, "config", "no entries", f) as law:
        st = W.start()
        for st2, d in made(W, law, st, "withInt", C("k"), C(7)):
            st2.store[("p", "none")] = dictionary()
            for o in law.run(st2, f, None, ("@", (("p", "none"), ()))):
                node(W, law, o, {})
    with Law(W, "config", "an entry of another type", f) as law:
        for st, d in made(W, law, W.start(), "withOther", C("k"), S("pair")):
            for o in law.run(st, f, None, ("@", d)):
                if o.k == "n":
                    law.fail(o.st, "an entry that has no counterpart is dropped or replaced: %s" % show(o.v)[:120])
    g = W.probe("ginkgo")
    with Law(W, "config", "the solver is made from its dictionary", g) as law:
        for st, d in made(W, law, W.start(), "withInt", C("k"), C(7)):
            for o in law.run(st, g, None, S("exec"), ("@", d)):
                if o.k != "n":
                    if o.k != "t":
                        law.fail(o.st, "no solver is made")
                    continue
                facs = [dict(v) for k, v in o.st.store.items() if k[0] == "gko" and dict(v).get("kind") == "factory"]
                if not facs:
                    law.fail(o.st, "no solver factory is made")
                    continue
                spec, ex = facs[-1]["spec"], facs[-1]["exec"]
                if spec[0] != "op" or spec[1] != "deferred":
                    law.unds.append("what the factory is made of")
                    continue
                node(W, law, Out("n", spec[2], o.st), {"k": (C(7), "int")})
                e = W.get(ex, o.st)
                if e.get("kind") == "exec":
                    for n, want in (("SerialExecutor", ("Reference",)), ("CPUExecutor", ("Reference", "Omp")), ("GPUExecutor", ("Cuda", "Hip"))):
                        if o.st.facts.get(("anytype", S("exec"), "NeoFOAM::" + n)) is True and e["name"] not in want:
                            law.fail(o.st, "a %s is given Ginkgo's %s executor" % (n, e["name"]))
                else:
                    law.unds.append("the executor the factory is made on")


D = ("f", "#d")
DICT = "NeoFOAM::Dictionary"


def dictionary(*entries):
    """a dictionary with these entries; dictionaries themselves are the subject of C01 and C02"""
    return ("rec", DICT, (("#d", ("map", None, tuple((C(k), v) for k, v in entries))),), None)


def hooks(W):
    I = W.I

    def entries(ob, s):
        v = I.rd((ob[0], ob[1] + (D,)), s)[0].v
        return {k[1]: x for k, x in v[2]} if v[0] == "map" and v[1] is None else None

    def method(g):
        def model(I, f, ob, a, st):
            def go(vs, s):
                es = entries(ob, s)
                vs = [W.value(v, s) for v in vs]
                if es is None or vs and (not isc(vs[0]) and not (f.n == "ctor")):
                    return N(I.unk("dictionary"), s)
                return g(f, ob, es, vs, s)
            return bind(I.vals(a, st), go)
        return model

    def at(ob, k):
        return (ob[0], ob[1] + (D, ("k", k)))

    def find(f, ob, es, vs, s):
        return N(("@", at(ob, vs[0])), s) if vs[0][1] in es else [Out("t", ("exc", "std::out_of_range"), s)]

    def get(f, ob, es, vs, s):
        t = DICT if f.n == "subDict" else f.ta[0]["t"].bare
        if vs[0][1] not in es:
            return [Out("t", ("exc", "std::out_of_range"), s)]
        if es[vs[0][1]][1] != t:
            return [Out("t", ("exc", "std::bad_any_cast"), s)]
        l = at(ob, vs[0])
        return N(("@", (l[0], l[1] + (("a", t),))), s)
    km = I.km
    km[DICT + "::keys"] = method(lambda f, ob, es, vs, s: N(("seq", tuple(("e", C(k)) for k in sorted(es))), s))
    km[DICT + "::operator[]"] = method(find)
    km[DICT + "::get"] = km[DICT + "::subDict"] = method(get)
    km[DICT + "::contains"] = method(lambda f, ob, es, vs, s: N(C(vs[0][1] in es), s))
    km[DICT + "::isDict"] = method(lambda f, ob, es, vs, s: N(C(es.get(vs[0][1], (0, 0))[1] == DICT), s))
    km[DICT + "::getMap"] = method(lambda f, ob, es, vs, s: N(("@", (ob[0], ob[1] + (D,))), s))
    km[DICT + "::ctor"] = lambda I, f, ob, a, st: (bind(I.vals(a, st), lambda vs, s: I.wr(ob, W.value(vs[0], s), s)) if f.ctor in (2, 3) else
                                                   I.wr(ob, dictionary(), st) if not a else I.wr(ob, I.unk("dictionary"), st))


def made(W, law, st, probe, *args):
    """[(state, location)] of a dictionary with the entries a probe is named after: (key, value)..."""
    ts = [p["t"].bare for p in W.probe(probe).p]
    es = [(args[i][1], ("any", ts[i + 1], W.value(args[i + 1], st))) for i in range(0, len(args), 2)]
    root = ("p", "d%d" % len(st.store))
    st.store[root] = dictionary(*es)
    yield st, (root, ())


def node(W, law, o, want, what="the configuration"):
    if o.k != "n":
        law.fail(o.st, "parse does not return (%s)" % o.k)
        return
    v = W.value(o.v, o.st)
    if v[0] != "pnode":
        law.unds.append("%s is %s" % (what, show(v)[:80]))
        return
    if isinstance(want, tuple):
        x, t = want
        if v[1] is None:
            law.fail(o.st, "%s is empty" % what)
        elif has_unk(v[2]):
            law.unds.append("the value of %s" % what)
        elif v[2] != x:
            law.fail(o.st, "%s is %s instead of %s" % (what, show(v[2])[:60], show(x)))
        elif t not in v[1]:
            law.fail(o.st, "%s is made a %s from a %s" % (what, v[1], t))
        return
    m = v[2] if v[1] is not None else None
    if m is None or m[0] != "map" or m[1] is not None:
        law.unds.append("%s is %s" % (what, show(m)[:80] if m else m))
        return
    got = {k[1]: x for k, x in m[2] if x is not None and isc(k)}
    if set(got) != set(want):
        law.fail(o.st, "%s has the entries %s instead of %s" % (what, sorted(got), sorted(want)))
    for k in set(got) & set(want):
        node(W, law, Out("n", got[k], o.st), want[k], "entry %s" % k)
