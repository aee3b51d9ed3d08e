"""MPI: operation and type tables (C37), communication buffers (C36), communicators (C38)."""
from .absint import C, S, N, VOID, bind, isc, lin_add, lin_parts, lin_sub, seq_len, has_unk
from .engine import load
from .fv import World
from .lab import Law, show
from .rules import rule

NP_ = "NeoFOAM::mpi::"
HALF, FULL, ENV, COMM = NP_ + "HalfDuplexCommBuffer", NP_ + "FullDuplexCommBuffer", NP_ + "MPIEnvironment", "NeoFOAM::Communicator"
TYPES = ["char", "wchar", "short", "int", "long", "llong", "ushort", "uint", "ulong", "ullong", "float", "double", "ldouble", "bool",
         "cfloat", "cdouble", "cldouble"]
OPS = ["Max", "Min", "Sum", "Prod", "Land", "Band", "Lor", "Bor", "Maxloc", "Minloc"]
BYTES = {"double": 8, "int": 4, "char": 1}
NR = 3


def interval(t):
    """[lo, hi] an integer term lies in, or None"""
    if t[0] == "c" and isinstance(t[1], int):
        return (t[1], t[1])
    if t[0] == "op" and t[1] == "hash":
        return (0, (1 << 64) - 1)
    if t[0] == "op" and t[1] == "toint32":
        r = interval(t[2])
        if r is not None and -(1 << 31) <= r[0] and r[1] < 1 << 31:
            return r
        return (-(1 << 31), (1 << 31) - 1)
    if t[0] == "op" and t[1] == "&" and len(t) == 4:
        for m in t[2:]:
            if isc(m) and isinstance(m[1], int) and m[1] >= 0:
                return (0, m[1])
    if t[0] == "op" and t[1] in ("%", "/", ">>") and len(t) == 4 and isc(t[3]) and t[3][1] > 0:
        r, n = interval(t[2]), t[3][1]
        if r is None:
            return None
        if t[1] == "%":
            return (0 if r[0] >= 0 else -(n - 1), min(r[1], n - 1) if r[0] >= 0 else n - 1)
        if t[1] == ">>":
            n = 1 << n
        return (r[0] // n, r[1] // n) if r[0] >= 0 else None
    p = lin_parts(t) if t[0] == "lin" else None
    if p is not None:
        lo = hi = p[0]
        for x, c in p[1].items():
            r = interval(x)
            if r is None:
                return None
            lo, hi = lo + min(c * r[0], c * r[1]), hi + max(c * r[0], c * r[1])
        return (lo, hi)
    return None


class MpiWorld(World):
    """MPI as the standard describes it: requests are pending until a test completes them"""

    def __init__(self, P_, rep, pending=1):
        super().__init__(P_, rep)
        self.pending = pending
        I = self.I
        self.null = ("ptr", (("g", "c:@ompi_request_null"), ()))
        for o in self.call(self.start(), self.probe("nullRequest"), None):
            self.null = o.v

        def query(I_, e, f, ob, a, st):
            return bind(I.vals(a, st), lambda vs, s: bind(
                I.wr(vs[1][1], C(NR) if f["q"] == "MPI_Comm_size" else S("rank"), s), lambda _, s2: N(C(0), s2)))

        def transfer(I_, e, f, ob, a, st):
            def go(vs, s):
                rq = ("req", f["q"], sum(1 for ev, _ in s.eff if ev[0] == "mpi"))
                s.event("mpi", f["q"], vs, self.snapshot(vs[0], s))
                return bind(I.wr(vs[6][1], rq, s), lambda _, s2: N(C(0), s2))
            return bind(I.vals(a, st), go)

        def test(I_, e, f, ob, a, st):
            def go(vs, s):
                def go2(rq, s2):
                    s2.event("mpitest", rq)
                    if rq == self.null:
                        return bind(I.wr(vs[1][1], C(1), s2), lambda _, s3: N(C(0), s3))
                    r = []
                    if rq[0] == "req" and sum(1 for ev, _ in s2.eff if ev == ("mpipend", rq)) >= self.pending:
                        branches = (True,)
                    else:
                        branches = (True, False)
                    for d in branches:
                        s3 = s2.clone()
                        if d:
                            s3.event("mpidone", rq)
                            r += bind(I.wr(vs[0][1], self.null, s3), lambda _, s4: bind(I.wr(vs[1][1], C(1), s4), lambda _, s5: N(C(0), s5)))
                        else:
                            s3.event("mpipend", rq)
                            r += bind(I.wr(vs[1][1], C(0), s3), lambda _, s4: N(C(0), s4))
                    return r
                return bind(I.rd(vs[0][1], s), go2)
            return bind(I.vals(a, st), go)

        def wait(I_, e, f, ob, a, st):
            def go(vs, s):
                def go2(rq, s2):
                    if rq != self.null:
                        s2.event("mpidone", rq)
                    return bind(I.wr(vs[0][1], self.null, s2), lambda _, s3: N(C(0), s3))
                return bind(I.rd(vs[0][1], s), go2)
            return bind(I.vals(a, st), go)
        for n in ("MPI_Comm_size", "MPI_Comm_rank"):
            I.models[n] = query
        for n in ("MPI_Isend", "MPI_Irecv"):
            I.models[n] = transfer
        I.models["MPI_Test"] = test
        I.models["MPI_Wait"] = wait

    def probe(self, name):
        return self.one(None, name, where=lambda f: f.q == "nfprobe::" + name)

    def meth(self, cls, name, T=None, n=None, const=None, ctor=False):
        r = []
        for f in self.P.funcs.values():
            if f.b is None or f.c != cls or n is not None and len(f.p) != n:
                continue
            if ctor and f.ctor not in (1, 4) or not ctor and f.n != name:
                continue
            if T is not None and not any(T == (x["t"].strip().s if isinstance(x, dict) and "t" in x else "") for x in (f.ta or ())):
                continue
            if const is not None and bool(f.const) != const:
                continue
            r.append(f)
        r.sort(key=lambda f: f.u)
        return r[0] if r else None

    def env(self, st):
        """(environment value, state)"""
        f = self.meth(ENV, None, n=1, ctor=True)
        st.store[("p", "env")] = ("rec", ENV, (), None)
        for o in self.call(st, f, (("p", "env"), ()), S("comm")):
            if o.k == "n":
                return o.st.store[("p", "env")], o.st
        return None, st

    def snapshot(self, p, st):
        """what the memory behind a pointer holds now"""
        if p[0] != "ptr":
            return None
        root, path = p[1]
        A = ("mem", (root, path[:-1])) if path and path[-1][0] == "i" else None
        return (A, self.I.content(A, st)) if A is not None else None

    def new(self, st, cls, *args):
        """objects of the class built from args: [(state, location)]"""
        f = self.meth(cls, None, n=len(args), ctor=True)
        if f is None:
            return []
        root = ("p", "b%d" % len(st.store))
        st.store[root] = ("rec", cls, (), None)
        return [(o.st, (root, ())) for o in self.call(st, f, (root, ()), *args) if o.k == "n"]

    def mpi(self, st):
        return [(ev[1], ev[2], ev[3] if len(ev) > 3 else None) for ev, _ in st.eff if ev[0] == "mpi"]


PATTERNS = [(1, 1, 1), (0, 1, 1), (1, 0, 1), (1, 1, 0), (0, 0, 1), (1, 0, 0), (0, 1, 0), (0, 0, 0)]


class Sizes:
    """elements for each rank: none, or an unknown number >= 1"""

    def __init__(self, p, pat):
        self.n = [lin_add(C(1), S(p + str(i)), 1) if b else C(0) for i, b in enumerate(pat)]

    def seq(self):
        return ("seq", tuple(("e", x) for x in self.n))

    def total(self, upto, b):
        t = C(0)
        for i in range(upto):
            t = lin_add(t, self.n[i], b)
        return t


ZS = [Sizes("n", p) for p in PATTERNS]


@rule("C37")
def c37(rep):
    rep.limit = True
    rep.rule("type", "getType<T>() is the MPI type of T", len(TYPES))
    rep.rule("op", "getOp(op) is the MPI operation of that name", len(OPS))
    rep.rule("call", "the wrappers hand MPI exactly the buffer, count, type, operation, ranks, tag and communicator they were given", 7)
    rep.rule("tag", "the tag of a name depends on the name only and is one that MPI allows", 1)
    W = MpiWorld(load("full"), rep)
    I = W.I

    def value(law, name, *args):
        f = W.probe(name)
        outs = law.run(W.start(), f, None, *args)
        return outs[0] if len(outs) == 1 and outs[0].k == "n" else None
    for t in TYPES:
        with Law(W, "type", "getType of " + t, W.probe("type_" + t)) as law:
            g, w = value(law, "type_" + t), value(law, "want_" + t)
            table(law, g, w, "the MPI type")
    for t in OPS:
        with Law(W, "op", "getOp of " + t, W.one(None, "getOp")) as law:
            e, w = value(law, "op_" + t), value(law, "want_op_" + t)
            if e is None or w is None:
                law.unds.append("not told")
                continue
            outs = law.run(W.start(), W.probe("opOf"), None, e.v)
            table(law, outs[0] if len(outs) == 1 else None, w, "the MPI operation")
    inplace = value(Law(W, "call", ""), "inPlace")
    scal = value(Law(W, "call", ""), "want_double")

    def one(law, name, *args, store=None):
        """the MPI calls of the wrapper"""
        st = W.start()
        for k, v in (store or {}).items():
            st.store[k] = v
        for o in law.run(st, W.probe(name), None, *args):
            ev = [e for e, _ in o.st.eff if e[0] in ("opaque", "mpi") and str(e[1]).startswith("MPI_")]
            yield o, ev
    sums = next((o.v for o in [value(Law(W, "call", ""), "op_Sum")] if o is not None), None)
    wsum = value(Law(W, "call", ""), "want_op_Sum")
    for t, want in (("double", "want_double"), ("int", "want_int"), ("ulong", "want_ulong"), ("Vector", "want_double")):
        with Law(W, "call", "allReduce of " + t, W.one(None, "allReduce")) as law:
            w = value(law, want)
            x = (("p", "x"), ())
            for o, ev in one(law, "reduce_" + t, ("@", x), sums, S("comm"), store={x[0]: S("x") if t != "Vector" else ("rec", "NeoFOAM::Vector", (), S("x"))}):
                if o.k != "n" or len(ev) != 1 or ev[0][1] != "MPI_Allreduce":
                    law.fail(o.st, f"the reduction makes the calls {[e[1] for e in ev]} and {o.k}")
                    continue
                a = ev[0][2]
                addr = (a[1][0] == "ptr" and a[1][1][0] == x[0] and all(q == ("i", C(0)) or q[0] == "f" for q in a[1][1][1])
                        or t == "Vector" and a[1] == ("fld", S("x"), "cmpts_"))
                for ok, what in ((inplace is None or a[0] == inplace.v, "does not reduce in place"), (addr, "does not reduce the value"),
                                 (a[2] == C(3 if t == "Vector" else 1), f"reduces {show(a[2])} elements"), (a[3] == w.v, "has another type"),
                                 (a[4] == wsum.v, "uses another operation"), (a[5] == S("comm"), "uses another communicator")):
                    if not ok:
                        law.fail(o.st, "the reduction " + what, a)
    for name, call in (("isend_double", "MPI_Isend"), ("irecv_double", "MPI_Irecv")):
        with Law(W, "call", name.split("_")[0], W.one(None, name.split("_")[0])) as law:
            q = ("ptr", (("p", "q"), ()))
            for o, ev in one(law, name, S("buf"), S("n"), S("to"), S("tag"), S("comm"), q):
                if o.k != "n" or len(ev) != 1 or ev[0][1] != call:
                    law.fail(o.st, f"the calls made are {[e[1] for e in ev]}")
                elif ev[0][2] != (S("buf"), S("n"), scal.v, S("to"), S("tag"), S("comm"), q):
                    law.fail(o.st, f"{call} is given {show(ev[0][2])[:200]}", ev[0][2])
    with Law(W, "call", "test", W.one(None, "test", where=lambda f: f.q == NP_ + "test")) as law:
        st = W.start()
        st.store[("p", "q")] = ("req", "x", 0)
        for o in law.run(st, W.probe("testOf"), None, ("ptr", (("p", "q"), ()))):
            done = any(e[0] == "mpidone" for e, _ in o.st.eff)
            if o.k != "n" or o.v not in (C(done), C(int(done))):
                law.fail(o.st, f"test gives {show(o.v)} for a request that is {'complete' if done else 'pending'}", o.v)
    with Law(W, "tag", "bufferHash", W.one(None, "bufferHash")) as law:
        for o in law.run(W.start(), W.probe("tagOf"), None, S("name")):
            r = interval(o.v) if o.k == "n" else None
            if r is None or has_unk(o.v):
                law.unds.append(f"the tag is {show(o.v)[:150]}")
            elif not (0 <= r[0] and r[1] <= 32767):
                law.fail(o.st, f"a tag lies between {r[0]} and {r[1]}; MPI guarantees 0 to 32767")


def table(law, g, w, what):
    if g is None or w is None:
        law.unds.append("not told")
    elif g.v != w.v:
        law.fail(g.st, f"{what} is {show(g.v)[:80]} and should be {show(w.v)[:80]}", g.v)


# ---------------------------------------------------------------------- buffers
def inited(W, law, st, loc, T, name, cls=HALF):
    for o in law.run(st, W.meth(cls, "initComm", T), loc, name):
        if o.k != "n":
            law.fail(o.st, "initComm does not return")
        else:
            yield o.st


def slot(W, law, st, v, p, r, b, T, what):
    """is v the view of rank r's part: elements of size b, sizes p0, p1, ..."""
    if v[0] != "rec" or dict(v[2]).get("#arr", ("",))[0] != "mem":
        law.unds.append(f"{what} is {show(v)[:120]}")
        return None
    d = dict(v[2])
    off, n, A = st.nz(d["#off"]), st.nz(d["#len"]), d["#arr"]
    if n != st.nz(p.n[r]):
        law.fail(st, f"{what} has {show(n)[:100]} elements instead of {show(p.n[r])}", n)
    if off != st.nz(p.total(r, b)):
        law.fail(st, f"{what} starts at byte {show(off)[:100]}; ranks before it take {show(p.total(r, b))}", off)
    have = seq_len(W.rd1(A[1], st))
    end = lin_add(off, n, b)
    if lin_parts(have) is None or lin_parts(end) is None or has_unk(have):
        law.unds.append(f"{what}: size of the buffer is {show(have)[:100]}")
    elif not within(W, end, have, st):
        law.fail(st, f"{what} ends at byte {show(end)[:100]}, the buffer has {show(have)[:100]}", have, end)
    return A


def within(W, a, b, st):
    """a <= b on this path"""
    return all(not pos for pos, _ in W.I.pos(lin_sub(st.nz(a), st.nz(b)), st.clone())) or grow(W, a, b, st)


def grow(W, a, b, st):
    d = lin_sub(st.nz(a), st.nz(b))
    for k, v in st.facts.items():
        if k[0] == "pos" and v is False:
            e = lin_sub(d, k[1])
            if all(not pos for pos, _ in W.I.pos(e, st.clone())):
                return True
    return False


@rule("C36")
def c36(rep):
    rep.limit = True
    rep.rule("layout", "rank r's part of a buffer has the number of elements asked for, lies behind the parts of the ranks before it and inside the buffer", 12)
    rep.rule("claim", "a buffer is in use under its name from initComm to finaliseComm", 6)
    rep.rule("transfer", "send and receive start exactly one transfer with each rank there is data for, of its whole part", 4)
    rep.rule("complete", "a buffer is complete when every transfer is, and waiting ends exactly then", 4)
    W = MpiWorld(load("full"), rep)
    for T in BYTES:
        for T2 in BYTES:
            layout(W, T, T2)
    claim(W)
    for m, call in (("send", "MPI_Isend"), ("receive", "MPI_Irecv")):
        for T in ("double", "char"):
            transfer(W, m, call, T)
    complete(W)
    full(W)


def W_rd1(W, loc, st):
    outs = W.I.rd(loc, st)
    return outs[0].v if len(outs) == 1 else None


MpiWorld.rd1 = W_rd1


def start(W, law, z):
    st = W.start()
    e, st = W.env(st)
    for s, loc in W.new(st, HALF, e, z.seq()):
        yield s, loc


def layout(W, T, T2):
    with Law(W, "layout", f"buffer of {T}" + (f", then of {T2}" if T2 != T else ""), W.meth(HALF, "initComm", T)) as law:
        for z in ZS:
            for st, loc in start(W, law, z):
                for s in inited(W, law, st, loc, T, S("name")):
                    if T2 != T:
                        for o in law.run(s, W.meth(HALF, "finaliseComm"), loc):
                            for s2 in inited(W, law, o.st, loc, T2, S("name2")):
                                parts(W, law, s2, loc, T2, z)
                    else:
                        parts(W, law, s, loc, T, z)


def parts(W, law, st, loc, T, z):
    arrs = set()
    for const in (False, True):
        for r in range(NR):
            for o in law.run(st.clone(), W.meth(HALF, "get", T, const=const), loc, C(r)):
                if o.k != "n":
                    law.fail(o.st, "get does not return")
                    continue
                arrs.add(slot(W, law, o.st, o.v, z, r, BYTES[T], T, f"the part of rank {r}"))
    if len(arrs) > 1:
        law.fail(st, "parts lie in different buffers")


def q(W, law, st, loc, cls, m):
    """value of a query"""
    f = W.meth(cls, m)
    outs = law.run(st.clone(), f, loc)
    if len(outs) != 1 or outs[0].k != "n":
        return None
    v = outs[0].v
    return W.rd1(v[1], outs[0].st) if v[0] == "@" else v


def claim(W):
    for T in BYTES:
        with Law(W, "claim", f"initComm<{T}> and finaliseComm", W.meth(HALF, "initComm", T)) as law:
            for st, loc in start(W, law, ZS[0]):
                if q(W, law, st, loc, HALF, "isCommInit") != C(False):
                    law.fail(st, "a fresh buffer counts as in use")
                for s in inited(W, law, st, loc, T, S("name")):
                    if truthy(W, law, s, loc) is not True:
                        law.fail(s, "a buffer does not count as in use after initComm")
                    n = q(W, law, s, loc, HALF, "getCommName")
                    if n != S("name"):
                        law.fail(s, f"the name of a buffer in use is {show(n)[:60]}", n)
                    for o in law.run(s, W.meth(HALF, "finaliseComm"), loc):
                        if o.k != "n" or truthy(W, law, o.st, loc) is not False:
                            law.fail(o.st, "a buffer still counts as in use after finaliseComm")
    for m in ("initComm",):
        with Law(W, "claim", "the name alone decides the tag", W.meth(HALF, m, "double")) as law:
            tags = set()
            for p in ("n", "m"):
                for T in ("double", "char"):
                    for st, loc in start(W, law, Sizes(p, PATTERNS[0])):
                        for s in inited(W, law, st, loc, T, S("name")):
                            for mm in ("send", "receive"):
                                for o in law.run(s.clone(), W.meth(HALF, mm), loc):
                                    tags |= {a[4] for c, a, _ in W.mpi(o.st)}
            if len(tags) > 1:
                law.fail(W.start(), f"the tags {sorted(show(t)[:60] for t in tags)} are used for one name")
            elif not tags:
                law.unds.append("no transfer seen")


def truthy(W, law, st, loc, cls=HALF, m="isCommInit"):
    vs = set()
    for o in law.run(st.clone(), W.meth(cls, m), loc):
        v = o.st.nz(o.v)
        if v in (C(True), C(False)):
            vs.add(v[1])
            continue
        law.unds.append(f"{m} is {show(v)[:80]}")
        return None
    return vs.pop() if len(vs) == 1 else None


def transfer(W, m, call, T):
    with Law(W, "transfer", f"{m} of a buffer of {T}", W.meth(HALF, m)) as law:
        for z in ZS:
            for st, loc in start(W, law, z):
                for s in inited(W, law, st, loc, T, S("name")):
                    for o in law.run(s, W.meth(HALF, m), loc):
                        if o.k != "n":
                            law.fail(o.st, m + " does not return")
                            continue
                        transfers(W, law, o.st, [(c, a) for c, a, _ in W.mpi(o.st)], call, z, BYTES[T], m)


def transfers(W, law, st, ev, call, p, b, what):
    """exactly one call per rank with data, for its part; [request locations]"""
    left = list(ev)
    reqs = []
    for r in range(NR):
        n = p.n[r]
        mine = [x for x in left if x[1][3] == C(r)]
        if n == C(0):
            if mine:
                law.fail(st, f"{what} starts a transfer with rank {r}, which there is nothing for")
            left = [x for x in left if x not in mine]
            continue
        if len(mine) != 1:
            law.fail(st, f"{what} starts {len(mine)} transfers with rank {r}")
            left = [x for x in left if x not in mine]
            continue
        c, a = mine[0]
        left.remove(mine[0])
        want = st.nz(p.total(r, b))
        at = a[0][1][1][-1] if a[0][0] == "ptr" and a[0][1][1] else None
        if c != call:
            law.fail(st, f"{what} calls {c}")
        if at is None or at[0] != "i":
            law.unds.append(f"{what}: address {show(a[0])[:80]}")
        elif st.nz(at[1]) != want:
            law.fail(st, f"{what}: rank {r}'s transfer starts at byte {show(at[1])[:80]}, its part at {show(want)}", at[1])
        if st.nz(a[1]) != st.nz(lin_add(C(0), n, b)):
            law.fail(st, f"{what}: rank {r}'s transfer has {show(a[1])[:80]} bytes, its part {show(lin_add(C(0), n, b))}", a[1])
        if a[2] != W.chartype():
            law.fail(st, f"{what}: the type of the transfer is not bytes", a[2])
        if a[5] != S("comm"):
            law.fail(st, f"{what}: the transfer uses the communicator {show(a[5])}", a[5])
        reqs.append(a[6])
    for c, a in left:
        law.fail(st, f"{what}: a transfer with rank {show(a[3])[:40]}", a[3])
    if len(set(map(str, reqs))) != len(reqs):
        law.fail(st, f"{what}: two transfers share a request")
    return reqs


def _chartype(self):
    if not hasattr(self, "_char"):
        self._char = self.call(self.start(), self.probe("want_char"), None)[0].v
    return self._char


MpiWorld.chartype = _chartype


def outstanding(st):
    """requests started and not completed"""
    started = [("req", ev[1], i) for i, (ev, _) in enumerate([x for x in st.eff if x[0][0] == "mpi"])]
    done = [ev[1] for ev, _ in st.eff if ev[0] == "mpidone"]
    return [r for r in started if r not in done]


def complete(W):
    for m in ("send", "receive"):
        with Law(W, "complete", f"isComplete after {m}", W.meth(HALF, "isComplete")) as law:
            for z in ZS:
                for st, loc in start(W, law, z):
                    for s in inited(W, law, st, loc, "double", S("name")):
                        for o in law.run(s, W.meth(HALF, m), loc):
                            asked(W, law, o.st, loc, HALF)
    with Law(W, "complete", "waitComplete", W.meth(HALF, "waitComplete")) as law:
        for z in ZS[1:]:
            for st, loc in start(W, law, z):
                for s in inited(W, law, st, loc, "double", S("name")):
                    for o in law.run(s, W.meth(HALF, "send"), loc):
                        waited(W, law, o.st, loc, HALF)


def waited(W, law, st, loc, cls):
    for o in law.run(st, W.meth(cls, "waitComplete"), loc):
        if any(e[0] == "loop" for e, _ in o.st.eff):
            law.unds.append("the loop was not followed to its end")
            continue
        released(law, o.st)
        if o.k == "n" and outstanding(o.st):
            law.fail(o.st, "waitComplete returns while a transfer is pending")


def released(law, st):
    """MPI frees a request when a test completes it; the handle must not be used again"""
    done = set()
    for ev, _ in st.eff:
        if ev[0] == "mpidone":
            done.add(ev[1])
        elif ev[0] == "mpitest" and ev[1] in done:
            law.fail(st, "a request that MPI has completed and released is tested again")
            return


def asked(W, law, st, loc, cls):
    for o in law.run(st.clone(), W.meth(cls, "isComplete"), loc):
        if o.k != "n":
            law.fail(o.st, "isComplete does not return")
            continue
        pend = [e[1] for e, _ in o.st.eff if e[0] == "mpipend"]
        left = outstanding(o.st)
        released(law, o.st)
        if o.v == C(True):
            for o2 in law.run(o.st.clone(), W.meth(cls, "isComplete"), loc):
                released(law, o2.st)
        if o.v == C(True) and left:
            law.fail(o.st, "isComplete is true while a transfer is pending")
        elif o.v == C(False) and not pend:
            law.fail(o.st, "isComplete is false although every transfer asked about is complete")
        elif o.v not in (C(True), C(False)):
            law.unds.append(f"isComplete is {show(o.v)[:80]}")


def full(W):
    def begin(law, z, y, T="double"):
        st = W.start()
        e, st = W.env(st)
        for s, loc in W.new(st, FULL, e, z.seq(), y.seq()):
            for s2 in inited(W, law, s, loc, T, S("name"), FULL):
                yield s2, loc

    def pairs(pats):
        for a, b in pats:
            yield Sizes("n", a), Sizes("m", b)
    ALL = list(pairs([(PATTERNS[0], PATTERNS[0]), (PATTERNS[1], PATTERNS[2]), (PATTERNS[3], PATTERNS[4]), (PATTERNS[7], PATTERNS[5])]))
    FEW = list(pairs([((1, 0, 0), (0, 1, 0)), ((0, 0, 0), (0, 0, 1)), ((0, 1, 0), (0, 0, 0))]))
    f = W.meth(FULL, "startComm")
    with Law(W, "transfer", "a full duplex buffer sends and receives", f) as law:
        for z, y in ALL:
            for st, loc in begin(law, z, y):
                for o in law.run(st, f, loc):
                    if o.k != "n":
                        law.fail(o.st, "startComm does not return")
                        continue
                    ev = [(c, a) for c, a, _ in W.mpi(o.st)]
                    a = transfers(W, law, o.st, [x for x in ev if x[0] == "MPI_Isend"], "MPI_Isend", z, 8, "startComm, sending")
                    b = transfers(W, law, o.st, [x for x in ev if x[0] == "MPI_Irecv"], "MPI_Irecv", y, 8, "startComm, receiving")
                    if set(map(str, a)) & set(map(str, b)):
                        law.fail(o.st, "sending and receiving share a request")
                    if len({x[1][4] for x in ev}) > 1:
                        law.fail(o.st, "sending and receiving use different tags")
    for T in ("double", "int"):
        with Law(W, "layout", f"parts of a full duplex buffer of {T}", W.meth(FULL, "getSend", T)) as law:
            for z, y in ALL:
                for st, loc in begin(law, z, y, T):
                    arrs = {}
                    for m, p in (("getSend", z), ("getReceive", y)):
                        for const in (False, True):
                            for r in range(NR):
                                for o in law.run(st.clone(), W.meth(FULL, m, T, const=const), loc, C(r)):
                                    arrs.setdefault(m, set()).add(slot(W, law, o.st, o.v, p, r, BYTES[T], T, f"{m} of rank {r}"))
                    if arrs.get("getSend", set()) & arrs.get("getReceive", set()) - {None}:
                        law.fail(st, "sent and received data share memory")
    with Law(W, "complete", "isComplete of a full duplex buffer", W.meth(FULL, "isComplete")) as law:
        for z, y in FEW + ALL[1:3]:
            for st, loc in begin(law, z, y):
                for o in law.run(st, f, loc):
                    asked(W, law, o.st, loc, FULL)
    with Law(W, "complete", "waitComplete of a full duplex buffer", W.meth(FULL, "waitComplete")) as law:
        for z, y in FEW:
            for st, loc in begin(law, z, y):
                for o in law.run(st, f, loc):
                    waited(W, law, o.st, loc, FULL)
    with Law(W, "claim", "a full duplex buffer is in use as a whole", W.meth(FULL, "isCommInit")) as law:
        for st, loc in begin(law, *ALL[0]):
            if truthy(W, law, st, loc, FULL) is not True:
                law.fail(st, "it does not count as in use after initComm")
            for o in law.run(st, W.meth(FULL, "finaliseComm"), loc):
                if o.k != "n" or truthy(W, law, o.st, loc, FULL) is not False:
                    law.fail(o.st, "it still counts as in use after finaliseComm")
                for s2 in inited(W, law, o.st, loc, "int", S("name2"), FULL):
                    if truthy(W, law, s2, loc, FULL) is not True:
                        law.fail(s2, "it cannot be used again")


# ---------------------------------------------------------------------- communicators
SEND = [[(4,), (), (3, 4)], [(), (1, 0), (2,)], [(), (), ()]]
RECV = [[(), (5, 3), (8,)], [(7,), (), (0, 6)], [(2,), (), ()]]
SIZE = 10
KIND = {"double": ("F", "scalar", 8), "int": ("I", "int", 4), "NeoFOAM::Vector": ("V", "Vector", 24)}


class CommWorld(MpiWorld):
    """transfers write the receive buffer when they complete"""

    def __init__(self, P_, rep):
        super().__init__(P_, rep)
        I = self.I
        self.kind = "F"
        for n in ("emplace_back", "push_back"):
            old = I.models["std::vector::" + n]

            def grow_(I_, e, f, ob, a, st, old=old):
                st.event("grown", ob)
                return old(I_, e, f, ob, a, st)
            I.models["std::vector::" + n] = grow_
        assign = I.km["NeoFOAM::Field::operator="]

        def mixed(I_, f, ob, a, st):
            if f.pt[0].strip().tn == "NeoFOAM::Field" or (f.pt[0].strip().rec or "").startswith("NeoFOAM::Field<"):
                x, y = I.finfo(I, ob, st)[1], I.finfo(I, I.loc_of(a[0], st), st)[1]
                if st.nz(x) != st.nz(y):
                    st.event("execmix", x, y)
            return assign(I_, f, ob, a, st)
        I.km["NeoFOAM::Field::operator="] = mixed
        for n in ("MPI_Test", "MPI_Wait"):
            old = I.models[n]

            def tested(I_, e, f, ob, a, st, old=old):
                outs = old(I_, e, f, ob, a, st)
                for o in outs:
                    self.arrive(o.st)
                return outs
            I.models[n] = tested

    def arrive(self, st):
        evs = [ev for ev, _ in st.eff if ev[0] == "mpi"]
        seen = {ev[1] for ev, _ in st.eff if ev[0] == "arrived"}
        for ev, _ in list(st.eff):
            if ev[0] != "mpidone" or ev[1] in seen or ev[1][0] != "req" or ev[1][1] != "MPI_Irecv":
                continue
            seen.add(ev[1])
            st.event("arrived", ev[1])
            i = ev[1][2]
            root, path = evs[i][2][0][1]
            A = ("mem", (root, path[:-1]))
            lo, n = path[-1][1], evs[i][2][1]
            c = self.I.content(A, st)
            if not (isc(lo) and isc(n)):
                self.I.setcontent(A, ("of", S("arrived%d" % i), ("a0",), C(0)), st)
                continue
            for k in range(lo[1], lo[1] + n[1]):
                c = ("map", C(k), C(1), 0, self.I.atom(S("arrived%d" % i), C(k - lo[1]), self.kind), c)
            self.I.setcontent(A, c, st)


def commmap(m):
    return ("seq", tuple(("e", ("seq", tuple(("e", ("rec", "NeoFOAM::NodeCommMap", (("local_idx", C(x)),), None)) for x in row))) for row in m))


def afield(W, st, name, T, ex):
    k = KIND[T][0]
    A = S("A" + name)
    st.store[("p", name)] = ("rec", "NeoFOAM::Field", (("#arr", A), ("#exec", ex), ("#k", C(k)), ("#n", C(SIZE))), None)
    return (("p", name), ()), A


def elem(W, st, loc, i, k):
    A = W.I.finfo(W.I, loc, st)[0]
    return st.nz(W.I.readA(A, C(i), k, st))


@rule("C38")
def c38(rep):
    rep.limit = True
    rep.rule("send", "startComm sends to each rank the values at its send map's indices, in the map's order, and leaves the field alone", 6)
    rep.rule("receive", "finaliseComm waits for every transfer, puts rank r's k-th value at the k-th index of r's receive map, changes nothing else and keeps the executor", 6)
    rep.rule("names", "communications under different names do not disturb each other; a name finalised can be used again", 3)
    W = CommWorld(load("full"), rep)
    for T in KIND:
        for m in range(len(SEND)):
            sending(W, T, m)
            receiving(W, T, m)
    names(W)


def comms(W, m, law):
    st = W.start()
    e, st = W.env(st)
    return W.new(st, COMM, e, commmap(SEND[m]), commmap(RECV[m]))


def named(st, n):
    st.store[("p", "nm" + n)] = S(n)
    return ("@", (("p", "nm" + n), ()))


def begin_comm(W, law, st, loc, T, fl, n):
    f = W.meth(COMM, "startComm", T)
    nm = named(st, n)
    for o in law.run(st, f, loc, ("@", fl), nm):
        if o.k != "n":
            law.fail(o.st, "startComm does not return")
        else:
            yield o.st


def end_comm(W, law, st, loc, T, fl, n):
    f = W.meth(COMM, "finaliseComm", T)
    for o in law.run(st, f, loc, ("@", fl), S(n)):
        if any(e[0] == "loop" for e, _ in o.st.eff):
            law.unds.append("the loop was not followed to its end")
        elif o.k != "n":
            law.fail(o.st, "finaliseComm does not return")
        else:
            yield o.st


def sent(W, law, st, A, ev, m, T, at=None):
    """do the transfers ev carry A's values at the map's indices"""
    k, _, b = KIND[T]
    rows = SEND[m]
    off = 0
    for r, row in enumerate(rows):
        mine = [x for x in ev if x[0] == "MPI_Isend" and x[1][3] == C(r)]
        if len(mine) != (1 if row else 0):
            law.fail(st, f"rank {r} gets {len(mine)} messages")
            continue
        for c, a, snap in mine:
            if a[1] != C(b * len(row)):
                law.fail(st, f"rank {r} gets {show(a[1])} bytes instead of {b * len(row)}", a[1])
            if snap is None or a[0][1][1][-1][0] != "i":
                law.unds.append(f"the message to rank {r} lies at {show(a[0])[:100]}")
                continue
            s = st.clone()
            W.I.setcontent(("snap",), snap[1], s)
            for i, x in enumerate(row):
                got = W.I.readA(("snap",), lin_add(a[0][1][1][-1][1], C(i), 1), k, s)
                want = W.I.atom(A, C(x), k)
                if has_unk(got):
                    law.unds.append(f"value {i} for rank {r} is {show(got)[:120]}")
                elif got != want:
                    law.fail(st, f"value {i} sent to rank {r} is {show(got)[:80]} and should be {show(want)}", got)


def untouched(W, law, st, fl, A, T, what):
    k = KIND[T][0]
    for i in range(SIZE):
        v = elem(W, st, fl, i, k)
        if v != W.I.atom(A, C(i), k):
            law.fail(st, f"{what} changes element {i} of the field", v)
            return


def sending(W, T, m):
    W.kind = KIND[T][0]
    with Law(W, "send", f"startComm of a field of {KIND[T][1]}, map {m}", W.meth(COMM, "startComm", T)) as law:
        for st, loc in comms(W, m, law):
            fl, A = afield(W, st, "f", T, S("ex"))
            for s in begin_comm(W, law, st, loc, T, fl, "name"):
                sent(W, law, s, A, W.mpi(s), m, T)
                untouched(W, law, s, fl, A, T, "startComm")


def received(W, law, st, fl, A, m, T, ev, base=0, ex=S("ex")):
    k, _, b = KIND[T]
    want = {i: W.I.atom(A, C(i), k) for i in range(SIZE)}
    for r, row in enumerate(RECV[m]):
        mine = [i for i, x in ev if x[0] == "MPI_Irecv" and x[1][3] == C(r)]
        if len(mine) != (1 if row else 0):
            law.fail(st, f"{len(mine)} messages from rank {r} are received")
            return
        for j, x in enumerate(row):
            want[x] = W.I.atom(S("arrived%d" % mine[0]), C(j), k)
    for i in range(SIZE):
        v = elem(W, st, fl, i, k)
        if has_unk(v):
            law.unds.append(f"element {i} is {show(v)[:150]}")
        elif v != want[i]:
            law.fail(st, f"element {i} is {show(v)[:80]} and should be {show(want[i])}", v)
    for e, _ in st.eff:
        if e[0] == "execmix":
            law.fail(st, f"a field on {show(e[1])} is assigned one on {show(e[2])[:60]}, which stops the program unless they are the same", e[2])
            break
    e2 = W.I.finfo(W.I, fl, st)[1]
    if st.nz(e2) != st.nz(ex):
        law.fail(st, f"the field is on the executor {show(e2)[:60]} afterwards", e2)


def receiving(W, T, m):
    W.kind = KIND[T][0]
    with Law(W, "receive", f"finaliseComm of a field of {KIND[T][1]}, map {m}", W.meth(COMM, "finaliseComm", T)) as law:
        for st, loc in comms(W, m, law):
            fl, A = afield(W, st, "f", T, S("ex"))
            for s in begin_comm(W, law, st, loc, T, fl, "name"):
                for s2 in end_comm(W, law, s, loc, T, fl, "name"):
                    if outstanding(s2):
                        law.fail(s2, "finaliseComm returns while a transfer is pending")
                    received(W, law, s2, fl, A, m, T, list(enumerate(W.mpi(s2))))


def names(W):
    T = "double"
    W.kind = "F"
    m = 2
    with Law(W, "names", "two communications at the same time", W.meth(COMM, "startComm", T)) as law:
        for st, loc in comms(W, 0, law):
            fl, A = afield(W, st, "f", T, S("ex"))
            gl, B = afield(W, st, "g", T, S("ex"))
            st.facts[("eq", S("a"), S("b"))] = False
            for s in begin_comm(W, law, st, loc, T, fl, "a"):
                na = len(W.mpi(s))
                for s2 in begin_comm(W, law, s, loc, T, gl, "b"):
                    if any(e[0] == "grown" and len(e[1][1]) and points_into(s, e[1]) for e, _ in s2.eff[len(s.eff):]):
                        law.fail(s2, "starting a second communication moves the buffer of the first, which is still pointed to")
                    ev = W.mpi(s2)
                    ra = {str(x[1][0]) for x in ev[:na]} | {str(x[1][6]) for x in ev[:na]}
                    rb = {str(x[1][0]) for x in ev[na:]} | {str(x[1][6]) for x in ev[na:]}
                    if ra & rb:
                        law.fail(s2, "two communications at the same time share a buffer")
                    sent(W, law, s2, B, ev[na:], 0, T)
    with Law(W, "names", "each name gets what was sent to it", W.meth(COMM, "finaliseComm", T)) as law:
        for st, loc in comms(W, m, law):
            fl, A = afield(W, st, "f", T, S("ex"))
            gl, B = afield(W, st, "g", T, S("ex"))
            st.facts[("eq", S("a"), S("b"))] = False
            for s in begin_comm(W, law, st, loc, T, fl, "a"):
                na = len(W.mpi(s))
                for s2 in begin_comm(W, law, s, loc, T, gl, "b"):
                    nb = len(W.mpi(s2))
                    for s3 in end_comm(W, law, s2, loc, T, gl, "b"):
                        received(W, law, s3, gl, B, m, T, list(enumerate(W.mpi(s3)))[na:nb])
                        untouched(W, law, s3, fl, A, T, "finaliseComm of another name")
                        for s4 in end_comm(W, law, s3, loc, T, fl, "a"):
                            received(W, law, s4, fl, A, m, T, list(enumerate(W.mpi(s4)))[:na])
    with Law(W, "names", "a name can be used again", W.meth(COMM, "finaliseComm", T)) as law:
        for st, loc in comms(W, m, law):
            fl, A = afield(W, st, "f", T, S("ex"))
            for s in begin_comm(W, law, st, loc, T, fl, "a"):
                for s2 in end_comm(W, law, s, loc, T, fl, "a"):
                    n = len(W.mpi(s2))
                    gl, B = afield(W, s2, "g", T, S("ex"))
                    for s3 in begin_comm(W, law, s2, loc, T, gl, "a"):
                        sent(W, law, s3, B, W.mpi(s3)[n:], m, T)
                        was = {x[1][0][1][0:1] + x[1][0][1][1][:2] for x in W.mpi(s2)}
                        now = {x[1][0][1][0:1] + x[1][0][1][1][:2] for x in W.mpi(s3)[n:]}
                        if was and now and not now & was:
                            law.fail(s3, "the buffer of a finished communication is not used again")
                        for s4 in end_comm(W, law, s3, loc, T, gl, "a"):
                            received(W, law, s4, gl, B, m, T, list(enumerate(W.mpi(s4)))[n:])
    with Law(W, "names", "isComplete of a name", W.meth(COMM, "isComplete")) as law:
        for st, loc in comms(W, m, law):
            fl, A = afield(W, st, "f", T, S("ex"))
            gl, B = afield(W, st, "g", T, S("ex"))
            st.facts[("eq", S("a"), S("b"))] = False
            for s in begin_comm(W, law, st, loc, T, fl, "a"):
                na = len(W.mpi(s))
                for s2 in begin_comm(W, law, s, loc, T, gl, "b"):
                    for n, lo, hi in (("a", 0, na), ("b", na, None)):
                        for o in law.run(s2.clone(), W.meth(COMM, "isComplete"), loc, S(n)):
                            ids = [("req", x[0], i) for i, x in list(enumerate(W.mpi(o.st)))[lo:hi]]
                            done = [e[1] for e, _ in o.st.eff if e[0] == "mpidone"]
                            pend = [e[1] for e, _ in o.st.eff if e[0] == "mpipend"]
                            if o.k != "n" or o.v not in (C(True), C(False)):
                                law.unds.append(f"isComplete is {show(o.v)[:80]}")
                            elif o.v == C(True) and not all(r in done for r in ids):
                                law.fail(o.st, f"isComplete of {n} is true while a transfer of it is pending")
                            elif o.v == C(False) and not any(r in pend for r in ids):
                                law.fail(o.st, f"isComplete of {n} is false although none of its transfers is pending")


def points_into(st, loc):
    """does a pointer kept in the store point into the sequence at loc"""
    root, path = loc

    def scan(t):
        if not isinstance(t, tuple):
            return False
        if len(t) == 2 and t[0] == "ptr" and isinstance(t[1], tuple) and len(t[1]) == 2 and t[1][0] == root and isinstance(t[1][1], tuple) \
                and t[1][1][:len(path)] == path and len(t[1][1]) > len(path):
            return True
        return any(scan(x) for x in t)
    return any(scan(v) for k, v in st.store.items() if k[0] in ("p", "h"))
