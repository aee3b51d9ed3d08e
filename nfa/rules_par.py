"""Parallel algorithms: every index of the range once, in the executor's own space, same result everywhere."""
from .absint import C, S, has_unk, lin_add, lin_sub
from .engine import load
from .lab import Law, show
from .rules import rule
from . import poly as P
from .kern import KInterp
from .lab import Lab

EXECS = ("SerialExecutor", "CPUExecutor", "GPUExecutor")
BK = ("bk", 1)
REAL = ("NeoFOAM::parallelFor", "NeoFOAM::parallelReduce", "NeoFOAM::parallelScan")


class PLab(Lab):
    def __init__(self, P_, rep):
        self.P, self.rep = P_, rep
        self.I = KInterp(P_)
        rep.labs.append(self)
        self.I.real |= set(REAL)
        self.len = {}
        self.I.sizes = lambda A, st: self.len.get(A)
        self.I.meshloc = (("p", "mesh"), ())

    def spaces(self):
        """executor class -> the execution space its member type exec names"""
        r = {}
        for x in EXECS:
            rec = self.P.records.get("NeoFOAM::" + x)
            r[x] = (rec or {}).get("aliases", {}).get("exec")
        return r


def exval(x):
    return ("any", "NeoFOAM::" + x, S("theExecutor"))


def pair(a, b):
    return ("rec", "std::pair", (("first", a), ("second", b)), None)


def eqf(P_, name):
    r = [g for g in P_.byq("NeoFOAM::operator" + ("==" if name == "same" else "!=")) if g.b is not None
         and len(g.p) == 2 and "variant" in g.p[0]["t"].s]
    return r[0] if r else None


def subject(P_, name):
    """the repository function a probe is about"""
    q = "NeoFOAM::parallel" + ("For" if name.startswith("for") else "Scan" if name.startswith("scan") else "Reduce")
    r = [g for g in P_.byq(q) if g.b is not None]
    r = [g for g in r if any("Field<" in p["t"].s for p in g.p) == ("Field" in name)] or r
    for x in EXECS:
        if name.endswith(x[:3]) or name.endswith("Serial") and x == "SerialExecutor":
            r = [g for g in r if any(x in p["t"].s for p in g.p)] or r
    return sorted(r, key=lambda g: g.u)[0] if r else None


def probes(P_):
    r = {}
    for f in P_.funcs.values():
        if f.q and f.q.startswith("nfprobe::") and f.b is not None:
            r.setdefault(f.n, f)
    return r


SPACE = {"SerialExecutor": "Kokkos::Serial", "CPUExecutor": "Kokkos::Threads", "GPUExecutor": "Kokkos::Device"}
TA = S("theArray")      # the array the kernel writes
XA = S("theInput")      # the array it reads
LO, N_ = S("start"), S("count")


def setup(L):
    st = L.start()
    st.facts[("pos", N_)] = True
    for A in (TA, XA):
        L.len[A] = S("capacity")
    st.store[("p", "v")] = L.I.vrec(TA, C(0), S("capacity"), "F")
    st.store[("p", "x")] = L.I.vrec(XA, C(0), S("capacity"), "F")
    st.store[("p", "out")] = S("before")
    st.store[("p", "f")] = TA
    L.len[TA] = N_
    return st


def args(L, st, f, ex, lo, hi):
    """the arguments of a probe by parameter type"""
    a = []
    for p in f.p:
        n = p["n"]
        t = p["t"].strip()
        if t.tn == "std::pair" or n == "r":
            st.store[("p", "r")] = pair(lo, hi)
            a.append((("p", "r"), ()))
        elif n == "e":
            st.store[("p", "e")] = exval(ex) if t.tn == "std::variant" else S("theExecutor")
            a.append((("p", "e"), ()))
        else:
            a.append((("p", n), ()))
    return a


def spaces_of(outs):
    r = set()
    for o in outs:
        for e, _ in o.st.eff:
            if e[0] == "launch":
                s = e[2]
                r.add("seq" if e[1] == "seq" else (s[1] if s is not None and s[0] == "c" else str(s)))
    return r


def space_ok(ex, sp):
    if sp == "seq":
        return ex == "SerialExecutor"
    return SPACE[ex] in str(sp)


@rule("C18")
def c18(rep):
    P_ = load("full")
    rep.rule("par-each-once", "parallelFor applies the kernel exactly once to every index of the range, and to no other", 9)
    rep.rule("par-reduce", "parallelReduce yields the reduction over the range, whatever the executor and the target's earlier value", 14)
    rep.rule("par-scan", "parallelScan passes the kernel the inclusive running total, and returns the total", 6)
    rep.rule("par-space", "work runs in the execution space of the executor it was given to", 20)
    rep.rule("par-empty", "an empty range runs no kernel", 3)
    rep.rule("exec-eq", "executors are equal exactly when they are of the same kind", 18)
    pr = probes(P_)
    L = PLab(P_, rep)
    I = L.I

    def execs(f):
        t = f.p[0]["t"].strip()
        for x in EXECS:
            if t.tn == "NeoFOAM::" + x:
                return [x]
        return list(EXECS)

    for name in ("forRange", "forRangeSerial", "forRangeCPU", "forRangeGPU", "forField", "forFieldSerial", "forFieldCPU", "forFieldGPU"):
        f = pr[name]
        field = "Field" in name
        for ex in execs(f):
            what = "%s on %s" % (name, ex)
            lo, hi = (C(0), N_) if field else (LO, lin_add(LO, N_))
            with Law(L, "par-each-once", what, subject(P_, name) or f) as law:
                st = setup(L)
                I.execs = lambda A, st, ex=ex: exval(ex)
                outs = law.run(st, f, None, *args(L, st, f, ex, lo, hi))
                n = lin_sub(hi, lo)
                want = ("map", lo, n, 1, None, None)
                for o in outs:
                    if not law.kind(o, "n", what):
                        continue
                    # an arbitrary element inside, and one on either side
                    s0 = o.st
                    k = S("k")
                    for txt, idx, facts, w in (
                            ("an element of the range", lin_add(lo, k), [lin_sub(n, k)], "in"),
                            ("an element before the range", lin_sub(lin_sub(lo, C(1)), k), [], "out"),
                            ("an element behind the range", lin_add(hi, k), [], "out")):
                        s = s0.clone()
                        for z in facts:
                            s.facts[("pos", z)] = True
                        if w == "in":
                            s.facts[("pos", lin_sub(n, k))] = True
                        if field and "before" in txt:
                            continue
                        got = I.cread(TA, I.content(TA, s), idx, "F", s)
                        base = ("rd", TA, idx)
                        exp = P.add(base, ("rd", XA, idx)) if w == "in" else base
                        compare(law, s, got, exp, "%s: %s" % (what, txt))
            with Law(L, "par-space", what, subject(P_, name) or f) as law:
                st = setup(L)
                outs = law.run(st, f, None, *args(L, st, f, ex, lo, hi))
                judge_space(law, outs, ex, what)
        if not field and name != "forRange":
            with Law(L, "par-empty", name, subject(P_, name) or f) as law:
                st = setup(L)
                ex = execs(f)[0]
                outs = law.run(st, f, None, *args(L, st, f, ex, LO, LO))
                for o in outs:
                    if law.kind(o, "n", name):
                        got = I.cread(TA, I.content(TA, o.st), S("k"), "F", o.st)
                        compare(law, o.st, got, ("rd", TA, S("k")), "%s over an empty range" % name)

    for name, op in (("sumRange", "sum"), ("sumRangeSerial", "sum"), ("sumRangeCPU", "sum"), ("sumRangeGPU", "sum"), ("sumField", "sum"),
                     ("sumFieldSerial", "sum"), ("maxRange", "max"), ("maxField", "max"), ("reducerSumRange", "sum"), ("reducerSumField", "sum")):
        f = pr[name]
        field = "Field" in name
        for ex in execs(f):
            what = "%s on %s" % (name, ex)
            lo, hi = (C(0), N_) if field else (LO, lin_add(LO, N_))
            with Law(L, "par-reduce", what, subject(P_, name) or f) as law:
                st = setup(L)
                I.execs = lambda A, st, ex=ex: exval(ex)
                outs = law.run(st, f, None, *args(L, st, f, ex, lo, hi))
                xe = ("rd", XA, lin_add(lo, BK))
                for o in outs:
                    if not law.kind(o, "n", what):
                        continue
                    got = I.rd((("p", "out"), ()), o.st)[0].v
                    if op == "sum":
                        key = ("eidx", ("range", N_), ("n", 0))
                        exp = I.bigsum(N_, key, ("rd", XA, lin_add(lo, key)))
                    else:
                        exp = ("maxof", N_, 1, xe)
                    compare(law, o.st, got, exp, what)
            with Law(L, "par-space", what, subject(P_, name) or f) as law:
                st = setup(L)
                outs = law.run(st, f, None, *args(L, st, f, ex, lo, hi))
                judge_space(law, outs, ex, what)

    for name in ("scanRange", "scanRangeTotal"):
        f = pr[name]
        for ex in EXECS:
            what = "%s on %s" % (name, ex)
            lo, hi = LO, lin_add(LO, N_)
            with Law(L, "par-scan", what, subject(P_, name) or f) as law:
                st = setup(L)
                outs = law.run(st, f, None, *args(L, st, f, ex, lo, hi))
                for o in outs:
                    if not law.kind(o, "n", what):
                        continue
                    k = S("k")
                    s = o.st.clone()
                    s.facts[("pos", lin_sub(N_, k))] = True
                    got = I.cread(TA, I.content(TA, s), lin_add(lo, k), "F", s)
                    xb = ("rd", XA, lin_add(lo, BK))
                    compare(law, s, got, P.add(("prefix", 2, ("rd", XA, lin_add(lo, ("bk", 2))), k), ("rd", XA, lin_add(lo, k))), what + ": running total")
                    if name == "scanRangeTotal":
                        compare(law, s, I.rd((("p", "out"), ()), s)[0].v, ("prefix", 1, xb, N_), what + ": total")
            with Law(L, "par-space", what, subject(P_, name) or f) as law:
                st = setup(L)
                outs = law.run(st, f, None, *args(L, st, f, ex, lo, hi))
                judge_space(law, outs, ex, what)

    for name in ("same", "differ"):
        f = pr[name]
        for x in EXECS:
            for y in EXECS:
                with Law(L, "exec-eq", "%s: %s, %s" % (name, x, y), eqf(P_, name) or f) as law:
                    st = L.start()
                    st.store[("p", "a")] = exval(x)
                    st.store[("p", "b")] = exval(y)
                    for o in law.run(st, f, None, (("p", "a"), ()), (("p", "b"), ())):
                        if law.kind(o, "n", name):
                            law.val(o, C((x == y) == (name == "same")), "%s of %s and %s" % (name, x, y))


def compare(law, st, got, exp, what):
    got, exp = st.nz(got), st.nz(exp)
    if got == exp or P.sub(got, exp) == C(0):
        return True
    if has_unk(got):
        law.unds.append("%s: result not known" % what)
        return False
    z = P.iszero(P.sub(got, exp)) if hasattr(P, "iszero") else False
    if z:
        return True
    import os
    if os.environ.get("NF_RAW"):
        print("RAW", got, "EXP", exp)
    law.fail(st, "%s: result is %s, expected %s" % (what, show(got)[:160], show(exp)[:160]), got)
    return False


def judge_space(law, outs, ex, what):
    for o in outs:
        if not law.kind(o, "n", what):
            continue
        sp = spaces_of([o])
        if not sp and ex != "SerialExecutor":      # a plain loop is the serial execution
            law.unds.append(what + ": no launch found")
        for s in sorted(sp):
            if not space_ok(ex, s):
                law.fail(o.st, "%s: runs in %s" % (what, s))
