"""Error macros, input dispatch, demangling."""
from .rules import rule
from .engine import load, Broken, ParseError
from .lab import Lab, Law, S, C, TRUE, FALSE, show
from .rules_core import TokObs, DictObs, tl_make, tl_ctors
from .absint import NULL, has_unk, walk, contains, lin_add

W = "nfprobe::"
NFE = "NeoFOAM::NeoFOAMException"


def flat(t):
    yield t
    if isinstance(t, (tuple, frozenset)):
        for x in t:
            if isinstance(x, (tuple, frozenset)):
                yield from flat(x)


def mentions(t, *xs):
    """all of xs occur in t; literal strings may be part of a longer literal"""
    fl = list(flat(t))
    for x in xs:
        if x in fl:
            continue
        if x[0] == "c" and isinstance(x[1], str) and any(
                y[0] == "c" and isinstance(y[1], str) and x[1] in y[1] for y in fl if isinstance(y, tuple) and len(y) == 2):
            continue
        return x
    return None


def err_rules(rep, variant, debug):
    P = load(variant)
    lab = Lab(P, rep)
    a, b, c, m = S("a"), S("b"), S("c"), S("m")
    tag = {"err": "", "errdebug": " (debug build)"}.get(variant, " (stack traces)")

    def ends(L, o, what):
        if o.k != "x":
            L.fail(o.st, "%s: control %s instead of ending the program" % (what, {"n": "continues", "t": "throws"}.get(o.k, o.k)))
            return
        code = [x for x in o.v[1:] if isinstance(x, tuple)]
        if code and code[-1] == C(0):
            L.fail(o.st, what + ": the program ends with success status")

    def said(o):
        return tuple(e[1:] for e, _ in o.st.eff if e[0] == "out")

    f = lab.fn(W + "errorExit")
    with Law(lab, "err-exit", "NF_ERROR_EXIT(m)" + tag, f) as L:
        st = lab.start()
        for o in L.run(st, f, None, lab.obj(st, "m")):
            ends(L, o, "NF_ERROR_EXIT")
            if o.k == "x" and mentions(said(o), m):
                L.fail(o.st, "the message is not printed", said(o))
    f = lab.fn(W + "throwIt")
    with Law(lab, "err-throw", "NF_THROW(m)" + tag, f) as L:
        st = lab.start()
        for o in L.run(st, f, None, lab.obj(st, "m")):
            L.kind(o, ("t", NFE), "NF_THROW")
    f = lab.fn(W + "throwWhat")
    with Law(lab, "err-throw", "what() carries the message" + tag, f) as L:
        st = lab.start()
        for o in L.run(st, f, None, lab.obj(st, "m")):
            if L.kind(o, "n", "catching NeoFOAMException"):
                for v, s in lab.read(o.st, o.v):
                    if mentions(v, m):
                        L.fail(s, "what() is %s" % show(v)[:200], v)
    f = lab.fn(W + "whatOf")
    with Law(lab, "err-throw", "NeoFOAMException keeps its message" + tag, f) as L:
        st = lab.start()
        for o in L.run(st, f, None, lab.obj(st, "m")):
            if L.kind(o, "n", "what"):
                L.val(o, m, "what()")
    f = lab.fn(W + "assertWhat")
    with Law(lab, "err-throw", "a failed NF_ASSERT_THROW carries its message" + tag, f) as L:
        st = lab.start()
        for t, s in lab.I.truth(c, st.clone()):
            lm = lab.obj(s, "m")
            for o in L.run(s, f, None, c, lm):
                if not t and L.kind(o, "n", "catching the exception"):
                    for v, s2 in lab.read(o.st, o.v):
                        if mentions(v, m):
                            L.fail(s2, "what() is %s" % show(v)[:200], v)

    def asserts(fname, kind, two):
        f = lab.fn(W + fname)
        with Law(lab, "err-assert", fname + tag, f) as L:
            st = lab.start()
            if two:
                args = [lab.obj(st, "a"), lab.obj(st, "b")]
                cases = lab.I.eqv(a, b, st.clone())
            else:
                args = [c, lab.obj(st, "m")]
                cases = lab.I.truth(c, st.clone())
            for t, s in cases:
                for o in L.run(s, f, None, *args):
                    if t or kind == "off":
                        if L.kind(o, "n", "%s of a %s condition" % (fname, "true" if t else "false")) and said(o):
                            L.fail(o.st, "a passing assertion prints")
                    elif kind == "x":
                        ends(L, o, "failed " + fname)
                        if o.k == "x" and not two and mentions(said(o), m):
                            L.fail(o.st, "the message is not printed", said(o))
                        if o.k == "x" and two and mentions(said(o), a, b):
                            L.fail(o.st, "the two values are not printed", said(o))
                    else:
                        L.kind(o, ("t", NFE), "failed " + fname)
    asserts("assertExit", "x", False)
    asserts("assertThrow", "t", False)
    asserts("assertEqualExit", "x", True)
    asserts("assertEqualThrow", "t", True)
    asserts("debugAssert", "x" if debug else "off", False)
    asserts("debugAssertThrow", "t" if debug else "off", False)
    asserts("debugAssertEqual", "x" if debug else "off", True)
    asserts("debugAssertEqualThrow", "t" if debug else "off", True)
    for nm in ("Assert", "AssertThrow", "DebugAssert", "DebugAssertThrow", "AssertEqual", "AssertEqualThrow",
               "DebugAssertEqual", "DebugAssertEqualThrow"):
        off = nm.startswith("Debug") and not debug
        want = "t" if nm.endswith("Throw") else "x"
        f = lab.fn(W + "effect" + nm)
        with Law(lab, "err-assert", "%s evaluates its condition %s%s" % (nm, "never" if off else "once", tag), f) as L:
            st = lab.start()
            n = lab.obj(st, "n")
            for o in L.run(st, f, None, n, S("l")):
                if o.k != "n" and "Equal" in nm:
                    continue                # a failure prints the two expressions
                for v, s in lab.rd(o.st, n):
                    L.same(s, v, S("n") if off else lin_add(S("n"), C(1)), "variable changed by the condition")
        if "Equal" in nm:
            continue
        f = lab.fn(W + "either" + nm)
        with Law(lab, "err-assert", "%s of a compound condition%s" % (nm, tag), f) as L:
            st = lab.start()
            for t, s in lab.I.truth(a, st.clone()):
                for t2, s2 in lab.I.truth(c, s.clone()):
                    for o in L.run(s2, f, None, a, c):
                        if t or t2 or off:
                            L.kind(o, "n", nm + " of a true compound condition")
                        elif want == "x":
                            ends(L, o, "failed " + nm)
                        else:
                            L.kind(o, ("t", NFE), "failed " + nm)
    f = lab.fn(W + "dangling")
    with Law(lab, "err-hygiene", "an assertion is a single statement" + tag, f) as L:
        st = lab.start()
        lm = lab.obj(st, "m")
        for t, s in lab.I.truth(a, st.clone()):
            for t2, s2 in lab.I.truth(c, s.clone()):
                for o in L.run(s2, f, None, a, c, lm):
                    if not t:
                        L.kind(o, "n", "else branch") and L.val(o, C(1), "else branch")
                    elif not t2:
                        L.kind(o, ("t", NFE), "failed assertion")
                    elif L.kind(o, "n", "passed assertion"):
                        L.val(o, C(2), "passed assertion")


@rule("C14")
def c14(rep):
    rep.rule("err-exit", "NF_ERROR_EXIT prints the message and ends the program unsuccessfully; control never continues", 1)
    rep.rule("err-throw", "NF_THROW throws NeoFOAMException whose what() carries the message", 4)
    rep.rule("err-assert", "an assertion does nothing on a true condition and fails as named on a false one; debug forms are inert in release builds", 8)
    rep.rule("err-hygiene", "an assertion macro behaves as one statement", 1)
    rep.rule("err-compile", "every error and assertion macro compiles with ordinary conditions, values and messages", 3)
    for variant, what, debug in (("err", "release", False), ("errdebug", "debug", True), ("errtrace", "release with stack traces", False)):
        load("errheader" + variant[3:])
        try:
            load(variant)
        except ParseError as e:
            rep.bad("err-compile", "one use of each macro, %s build" % what, "include/NeoFOAM/core/error.hpp",
                    "an ordinary use of the macros does not compile: " + str(e).split("error:")[-1].strip()[:300])
            continue
        rep.ok("err-compile", "one use of each macro, %s build" % what, "include/NeoFOAM/core/error.hpp")
        err_rules(rep, variant, debug)


@rule("C15")
def c15(rep):
    P = load("core")
    lab = Lab(P, rep)
    rep.rule("in-read", "read<T>(input) gives T::read of the alternative the input holds, on its content", 2)
    f = lab.fn(W + "readIt")
    for w, q, kind, probe in (("fromDict", "NeoFOAM::Dictionary::contains", 1, "dict"),
                              ("fromTokens", "NeoFOAM::TokenList::empty", 2, "tokens")):
        mk = lab.fn(W + w)
        g = lab.fn(q, const=True)
        with Law(lab, "in-read", "read of an input made from a %s" % probe, f) as L:
            st = lab.start()
            x = lab.obj(st, "x")
            lx = lab.obj(st, "xk", C("x"))
            for o in lab.call(st, mk, None, x):
                if not L.kind(o, "n", "making the input"):
                    continue
                s = o.st.clone()
                inp = lab.obj(s, "in", o.v)
                for o1 in lab.call(s, g, x, *([lx] if g.p else [])):
                    for o2 in L.run(o1.st, f, None, inp):
                        if not L.kind(o2, "n", "read"):
                            continue
                        s2 = o2.st.clone()
                        r = lab.obj(s2, "res", o2.v)
                        for v, s3 in lab.rd(s2, (r[0], (("f", "kind"),))):
                            L.same(s3, v, C(kind), "alternative read")
                        for v, s3 in lab.rd(s2, (r[0], (("f", "seen"),))):
                            for t, s4 in lab.I.truth(v, s3):
                                for t1, s5 in lab.I.truth(s4.nz(o1.v), s4):
                                    if t != t1:
                                        L.fail(s5, "T::read sees other content than the input holds")
    tob, dob = TokObs(lab), DictObs(lab)
    vec = tl_ctors(lab)[1]
    f = lab.fn(W + "readTokens")
    with Law(lab, "in-read", "T::read gets the tokens of the input, all and in order", f) as L:
        st = lab.start()
        t, sts = tl_make(lab, L, st, vec, S("T0"), C(0))
        for st in sts:
            for o in lab.call(st, lab.fn(W + "fromTokens"), None, t):
                if L.kind(o, "n", "making the input"):
                    s = o.st.clone()
                    inp = lab.obj(s, "in", o.v)
                    for o2 in L.run(s, f, None, inp):
                        if L.kind(o2, "n", "read"):
                            s2 = o2.st.clone()
                            r = lab.obj(s2, "res", o2.v)
                            tob.same_list(L, s2, (r[0], (("f", "tokens"),)), S("T0"), "tokens T::read sees")
    f = lab.fn(W + "readEntries")
    with Law(lab, "in-read", "T::read gets the entries of the input", f) as L:
        st = lab.start()
        d = lab.obj(st, "d")
        q = lab.obj(st, "q", S("q"))
        for snap, s0 in dob.snap(L, st, d, q):
            for o in lab.call(s0, lab.fn(W + "fromDict"), None, d):
                if L.kind(o, "n", "making the input"):
                    s = o.st.clone()
                    inp = lab.obj(s, "in", o.v)
                    for o2 in L.run(s, f, None, inp):
                        if L.kind(o2, "n", "read"):
                            s2 = o2.st.clone()
                            r = lab.obj(s2, "res", o2.v)
                            dob.still(L, s2, (r[0], (("f", "entries"),)), q, snap, "entry T::read sees")


@rule("C16")
def c16(rep):
    P = load("core")
    lab = Lab(P, rep)
    rep.rule("dem-value", "demangle gives the demangled name, or the given name when it cannot be demangled; never a null string", 1)
    rep.rule("dem-free", "the buffer __cxa_demangle allocates is released exactly once and not used afterwards", 1)
    f = lab.fn("NeoFOAM::demangle", n=1)
    with Law(lab, "dem-value", "demangle(name)", f) as L:
        st = lab.start()
        n = S("name")
        for t, s in lab.I.eqv(n, ("c", None), st.clone()):
            if t:
                continue
            for o in L.run(s, f, None, n):
                if not L.kind(o, "n", "demangle"):
                    continue
                dm = [e for e, _ in o.st.eff if e[0] == "demangle"]
                for v, s2 in lab.read(o.st, o.v):
                    if not dm:
                        L.same(s2, v, n, "result without demangling")
                        continue
                    good = dm[-1][4]
                    L.same(s2, v, ("ret", "__cxa_demangle", dm[-1][1]) if good else n,
                           "result when demangling %s" % ("succeeds" if good else "fails"))
                    if dm[-1][1] != n:
                        L.fail(s2, "demangles %s" % show(dm[-1][1]))
    with Law(lab, "dem-free", "demangle(name)", f) as L:
        st = lab.start()
        for o in L.run(st, f, None, S("name")):
            al = [o.st.nz(e[1]) for e, _ in o.st.eff if e[0] == "alloc"]
            fr = [o.st.nz(e[1]) for e, _ in o.st.eff if e[0] == "free"]
            for e, _ in o.st.eff:
                if e[0] == "demangle" and o.st.nz(e[2]) != NULL:
                    if any(x in al for x in fr):
                        L.fail(o.st, "hands __cxa_demangle the buffer %s, while the buffer it gives is released" % show(e[2]))
                    else:
                        L.unds.append("a buffer is handed to __cxa_demangle")
            for i, (e, _) in enumerate(o.st.eff):
                # handed to a smart pointer: its deleter runs when the pointer goes out of scope
                if e[0] != "own" or o.st.nz(e[1]) not in al or any(
                        e2[0] == "disown" and o.st.nz(e2[1]) == o.st.nz(e[1]) for e2, _ in o.st.eff[i:]):
                    continue
                h = o.st.nz(e[1])
                runs = []
                if e[2] is not None:
                    runs = lab.I.invoke(e[2], (h,), o.st.clone())
                else:
                    for g in [g for g in lab.P.funcs.values() if g.n == "operator()" and g.b is not None and (g.cr or g.c) == (e[3] or "?")]:
                        s2 = o.st.clone()
                        runs = lab.call(s2, g, lab.blank(s2, "deleter", e[3]), h)
                ends = set()
                for o2 in runs:
                    ends.add(sum(1 for e2, _ in o2.st.eff[len(o.st.eff):] if e2[0] == "free" and o2.st.nz(e2[1]) == h
                                 or e2[0] == "invoke" and e2[1][0] == "fn" and str(e2[1][1]).endswith("@F@free") and h in e2[2]))
                if not runs and (e[3] or "").startswith("std::default_delete"):
                    L.fail(o.st, "the buffer is released by delete, but it comes from malloc")
                if len(ends) != 1:
                    L.unds.append("a smart pointer owns the buffer")
                    al = [x for x in al if x != h]
                else:
                    fr += [h] * ends.pop()
            for x in al:
                if fr.count(x) != 1:
                    L.fail(o.st, "the demangled buffer is released %d times" % fr.count(x))
            for x in fr:
                if x not in al and x != ("c", None) and not has_unk(x):
                    L.fail(o.st, "releases %s, which it did not allocate" % show(x))
            seen = False
            for e, site in o.st.eff:
                if e[0] == "free":
                    seen = o.st.nz(e[1])
                elif seen and e[0] == "deref" and o.st.nz(e[1]) == seen:
                    L.fail(o.st, "uses the buffer after releasing it")


@rule("C13")
def c13(rep):
    rep.rule("view-in", "v[i] with i < size() is element i and records no failure, in every build", 4)
    rep.rule("view-out", "debug builds: v[i] with i >= size() ends the program, or with abort=false records the first such index", 2)
    rep.rule("view-init", "a fresh view covers exactly the elements it was made from, aborts on failure and has recorded none", 2)
    for variant, debug in (("core", False), ("debug", True)):
        P = load(variant)
        lab = Lab(P, rep)
        tag = " (debug build)" if debug else " (release build)"
        for w in ("at", "atMut", "atConst"):
            f = lab.fn(W + w)

            def runs(L, inside):
                st = lab.start()
                v = lab.obj(st, "v")
                i = S("i")
                d = ("lin", 0, ((i, -1), (("size", S("v")), 1)))
                for b, s in lab.I.pos(d, st):
                    if b != inside:
                        continue
                    for o in L.run(s, f, None, v, i):
                        yield v, i, o

            def flag(s, v, n):
                return lab.rd(s, (v[0], (("f", n),)))

            with Law(lab, "view-in", w + tag, f) as L:
                for v, i, o in runs(L, True):
                    if L.kind(o, "n", "v[i]"):
                        if o.v[0] != "@":
                            L.fail(o.st, "v[i] is not a reference")
                        else:
                            ix = [x for x in o.v[1][1] if x[0] == "i"]
                            if o.v[1][0] != v[0] or len(ix) != 1:
                                L.fail(o.st, "v[i] is %s" % show(o.v), o.v)
                            elif ix != [("i", i)]:
                                L.same(o.st, ix[0][1], i, "the element v[i] is")
                        for x, s in flag(o.st, v, "failureIndex"):
                            L.same(s, x, ("fld", S("v"), "failureIndex"), "failureIndex after an access in range")
            if not debug:
                continue
            with Law(lab, "view-out", w + tag, f) as L:
                for v, i, o in runs(L, False):
                    for ab, s0 in flag(o.st, v, "abort"):
                        for t, s in lab.I.truth(("fld", S("v"), "abort"), s0):
                            if t:
                                if o.k == "n":
                                    L.fail(s, "an access out of range continues although abort is set")
                                continue
                            if o.k != "n":
                                L.fail(s, "an access out of range does not return although abort is off")
                                continue
                            for first, s2 in lab.I.eqv(("fld", S("v"), "failureIndex"), C(0), s):
                                for x, s3 in flag(s2, v, "failureIndex"):
                                    L.same(s3, x, i if first else ("fld", S("v"), "failureIndex"),
                                           "failureIndex after %s access out of range" % ("the first" if first else "a later"))
        for w in ("fromSpan", "fromPtr"):
            f = lab.fn(W + w)
            with Law(lab, "view-init", w + tag, f) as L:
                st = lab.start()
                for o in L.run(st, f, None, *[S("a%d" % n) for n in range(len(f.p))]):
                    if L.kind(o, "n", "construction"):
                        s = o.st.clone()
                        r = lab.obj(s, "r", o.v)
                        for x, s2 in lab.rd(s, (r[0], (("f", "abort"),))):
                            L.same(s2, x, TRUE, "abort of a fresh view")
                        for x, s2 in lab.rd(s, (r[0], (("f", "failureIndex"),))):
                            L.same(s2, x, C(0), "failureIndex of a fresh view")
                        val = s.nz(o.v if o.v[0] != "@" else lab.read(s, o.v)[0][0])
                        cov = [v for k, v in (val[2] if val[0] == "rec" else ()) if k == "<inh>" or k.startswith("<base:std::span<")]
                        want = S("a0") if len(f.p) == 1 else ("op", "span", S("a0"), S("a1"))
                        if len(cov) != 1:
                            L.unds.append("elements covered by the view")
                        elif has_unk(cov[0]):
                            L.unds.append("elements covered by the view: %s" % show(cov[0]))
                        elif s.nz(cov[0]) != want:
                            L.fail(s, "the view covers %s, expected %s" % (show(s.nz(cov[0])), show(want)), cov[0])


@rule("C17")
def c17(rep):
    P = load("mpi")
    lab = Lab(P, rep)
    rep.rule("mpi-env", "an environment reports the communicator it was made from and that communicator's own rank and size", 5)
    rep.rule("mpi-null", "no environment exists for the null communicator", 1)
    rep.rule("mpi-init", "the guard initialises MPI once and finalises it once", 2)
    rep.rule("mpi-err", "with MPI, error macros end the program on all ranks", 1)
    mk, null = lab.fn(W + "makeEnv"), lab.fn(W + "nullComm")
    nullv = lab.call(lab.start(), null, None)[0].v
    wv = lab.call(lab.start(), lab.fn(W + "worldComm"), None)[0].v
    for how, f, comm in (("given communicator", mk, S("c")), ("default", lab.fn(W + "makeWorld"), wv)):
        for what, g, want in (("rank", "rankOf", ("ret", "MPI_Comm_rank", comm)), ("size", "sizeOf", ("ret", "MPI_Comm_size", comm)),
                              ("comm", "commOf", comm)):
            for copied in (False, True):
                g_ = lab.fn(W + g)
                with Law(lab, "mpi-env", "%s, %s%s" % (what, how, ", of a copy" if copied else ""), f) as L:
                    for eq, s in lab.I.eqv(comm, nullv, lab.start()):
                        if eq:
                            continue
                        for o in L.run(s, f, None, *([comm] if f.p else [])):
                            if not L.kind(o, "n", "construction"):
                                continue
                            s2 = o.st.clone()
                            e = lab.obj(s2, "e", o.v)
                            for o1 in (lab.call(s2, lab.fn(W + "copyOf"), None, e) if copied else [o]):
                                s3 = (o1.st if copied else s2).clone()
                                e1 = lab.obj(s3, "e1", o1.v)
                                for o2 in L.run(s3, g_, None, e1):
                                    if L.kind(o2, "n", what):
                                        L.val(o2, want, what)
    with Law(lab, "mpi-null", "construction from the null communicator", mk) as L:
        for o in L.run(lab.start(), mk, None, nullv):
            if o.k == "n":
                L.fail(o.st, "an environment is made from the null communicator")
    init = [f for f in P.funcs.values() if f.q == "NeoFOAM::mpi::MPIInit::MPIInit" and f.ctor == 1 and f.b is not None]
    fin = [f for f in P.funcs.values() if f.q == "NeoFOAM::mpi::MPIInit::~MPIInit" and f.b is not None]
    if not init:
        raise Broken("MPIInit not found")

    def calls(o):
        return [e[1] for e, _ in o.st.eff if e[0] == "mpi"]
    with Law(lab, "mpi-init", "construction", init[0]) as L:
        st = lab.start()
        d = lab.blank(st, "d", "NeoFOAM::mpi::MPIInit")
        for o in L.run(st, init[0], d, S("argc"), S("argv")):
            if o.k == "n" and [x for x in calls(o) if x.startswith("MPI_Init")].__len__() != 1:
                L.fail(o.st, "calls %s" % calls(o))
            if o.k == "n" and "MPI_Finalize" in calls(o):
                L.fail(o.st, "finalises MPI on construction")
    with Law(lab, "mpi-init", "destruction", fin[0] if fin else init[0]) as L:
        st = lab.start()
        if not fin:
            L.npaths = 1
            L.fail(st, "destruction does not finalise MPI")
        else:
            lab.I.mpiup = True
            for o in L.run(st, fin[0], lab.obj(st, "d")):
                if L.kind(o, "n", "destruction") and calls(o) != ["MPI_Finalize"]:
                    L.fail(o.st, "calls %s" % calls(o))
    lab.I.mpiup = False
    drop = [f for f in P.funcs.values() if f.q == "NeoFOAM::mpi::MPIEnvironment::~MPIEnvironment" and f.b is not None]
    for f in drop:
        with Law(lab, "mpi-env", "an environment goes out of scope", f) as L:
            st = lab.start()
            for o in L.run(st, f, lab.obj(st, "e")):
                if L.kind(o, "n", "destruction") and calls(o):
                    L.fail(o.st, "an environment going out of scope calls %s: MPI is ended by MPIInit alone" % calls(o))
    # with the thread requirement configured
    P2 = load("mpithread")
    lab2 = Lab(P2, rep)
    rep.rule("mpi-thread", "with the thread requirement, MPI is initialised with full thread support or the program ends", 1)
    init2 = [f for f in P2.funcs.values() if f.q == "NeoFOAM::mpi::MPIInit::MPIInit" and f.ctor == 1 and f.b is not None]
    mult = lab2.call(lab2.start(), lab2.fn(W + "threadMultiple"), None)[0].v
    with Law(lab2, "mpi-thread", "construction with the thread requirement", init2[0]) as L:
        for level in range(4):
            lab2.I.provided = C(level)
            st = lab2.start()
            d = lab2.blank(st, "d", "NeoFOAM::mpi::MPIInit")
            for o in L.run(st, init2[0], d, S("argc"), S("argv")):
                ev = [e for e, _ in o.st.eff if e[0] == "mpi"]
                if o.k != "n":
                    continue
                if [e[1] for e in ev] != ["MPI_Init_thread"]:
                    L.fail(o.st, "calls %s" % [e[1] for e in ev])
                    continue
                if ev[0][2:3] != (mult,):
                    L.fail(o.st, "requests thread level %s" % show(ev[0][2:3]))
                if C(level) != mult:
                    L.fail(o.st, "MPI is used although it provides less than full thread support (level %d)" % level)
    f = lab.fn(W + "errorExit")
    with Law(lab, "mpi-err", "NF_ERROR_EXIT", f) as L:
        st = lab.start()
        for o in L.run(st, f, None, lab.obj(st, "m")):
            if o.k != "x":
                L.fail(o.st, "control continues")
            elif o.v[0] != "MPI_Abort":
                L.fail(o.st, "ends only this process (%s)" % o.v[0])
            elif len(o.v) > 1 and o.v[1] != wv:
                L.fail(o.st, "ends only the processes of %s" % show(o.v[1]))
            elif len(o.v) > 2 and o.v[2] == C(0):
                L.fail(o.st, "ends with success status")
