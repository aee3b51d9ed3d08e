"""Memory model for code that allocates through Kokkos: blocks with a space, a size in bytes and a life."""
from . import absint, poly as P
from .absint import C, S, N, NULL, VOID, bind, isc, lin_add, lin_sub, lin_parts, has_unk
from .kern import KInterp, kind_of, LOG
from .lab import Lab

BYTES = {"F": 8, "V": 24, "I": 4, "U": 8, "L": 4}
SPACE = {"SerialExecutor": "Kokkos::Serial", "CPUExecutor": "Kokkos::Threads", "GPUExecutor": "Kokkos::Device"}
HOST = ("Kokkos::Serial", "Kokkos::Threads", "Kokkos::HostSpace")


def side(space):
    """host or device memory"""
    s = str(space)
    if any(h == s or s.startswith(h) for h in HOST):
        return "host"
    if "Device" in s:
        return "device"
    return None


def divide(b, n):
    """b / n for a linear term whose coefficients n divides"""
    p = lin_parts(b)
    if p is None or p[0] % n or any(c % n for c in p[1].values()):
        return None
    t = C(p[0] // n)
    for x, c in p[1].items():
        t = lin_add(t, ("lin", 0, ((x, c // n),)) if c != n else x)
    return t


def reduced(t):
    """a term that is positive exactly when t is: c*x with c > 0 is x"""
    p = lin_parts(t)
    if p is not None and p[0] == 0 and len(p[1]) == 1:
        (x, c), = p[1].items()
        if c > 0:
            return x
    return t


class MInterp(KInterp):
    def __init__(self, prog):
        super().__init__(prog)
        memory(self)

    def rv_cast(self, e, st):
        outs = super().rv_cast(e, st)
        t = e["t"]
        if t.k != "ptr" or t.to is None:
            return outs
        k = kind_of(t.to)
        if k not in BYTES or t.to.k == "void":
            return outs
        for o in outs:
            if o.k == "n" and o.v[0] == "ptr" and o.v[1][0][0] == "arr" and o.v[1][0][2] == "B":
                A = o.v[1][0][1]
                a = o.st.store.get(("alloc", A))
                if a is not None:
                    n = divide(a[2], sizeof(t.to))
                    o.st.store[("arrn", A)] = n if n is not None else ("op", "elements", a[2])
                o.v = ("ptr", (("arr", A, k), o.v[1][1]))
        return outs


def sizeof(t):
    if t.k == "int" and t.bits:
        return t.bits // 8
    return BYTES.get(kind_of(t), 8)


def blocks(st):
    return {r[1]: v for r, v in st.store.items() if r[0] == "alloc"}


def memory(I):
    M = I.km

    def reg(*names):
        def d(f):
            for n in names:
                M[n] = f
            return f
        return d

    def space(f):
        for x in f.ta or ():
            if isinstance(x, dict) and "t" in x:
                return x["t"].s
        return "?"

    def alloc(I, st, sp, nbytes):
        A = ("new", I.fresh("A")[1], "block")
        st.store[("arrn", A)] = ("op", "elements", nbytes)
        I.setcontent(A, ("uninit",), st)
        st.store[("alloc", A)] = ("block", C(sp), nbytes, C("live"))
        st.event("alloc", A, C(sp), nbytes)
        return A

    @reg("Kokkos::kokkos_malloc")
    def malloc(I, f, ob, a, st):
        def go(b, s):
            res = []
            for p, s2 in I.pos(reduced(s.nz(b)), s):       # nothing is allocated for zero bytes
                if p:
                    res += N(("ptr", (("arr", alloc(I, s2, space(f), s2.nz(b)), "B"), (("i", C(0)),))), s2)
                else:
                    res += N(NULL, s2)
            return res
        return bind(I.val(a[-1], st), go)

    def release(I, p, sp, s, what):
        """frees block p; the block or None"""
        p = s.nz(p)
        if p == NULL:
            if what == "realloc":
                s.event("memerr", C("realloc of a null pointer"))
            return None
        if p[0] != "ptr" or p[1][0][0] != "arr":
            s.event("memerr" if not has_unk(p) else "memunk", C("%s of a pointer that is not the start of a block" % what), p)
            return None
        A = p[1][0][1]
        b = s.store.get(("alloc", A))
        if b is None:
            s.event("memerr", C("%s of memory that was not allocated" % what), p)
            return None
        if p[1][1] != (("i", C(0)),):
            s.event("memerr", C("%s of a pointer into a block" % what), p)
            return None
        if b[3] != C("live"):
            s.event("memerr", C("%s of a block that was released before" % what), A)
            return None
        if b[1] != C(sp):
            s.event("memerr", C("%s in %s of a block of %s" % (what, sp, b[1][1])), A)
        s.store[("alloc", A)] = ("block", b[1], b[2], C("gone"))
        return A

    @reg("Kokkos::kokkos_free")
    def free(I, f, ob, a, st):
        return bind(I.val(a[-1], st), lambda p, s: (release(I, p, space(f), s, "free"), N(VOID, s))[1])

    @reg("Kokkos::kokkos_realloc")
    def realloc(I, f, ob, a, st):
        def go(vs, s):
            p, nb = s.nz(vs[0]), s.nz(vs[1])
            k = p[1][0][2] if p[0] == "ptr" and p[1][0][0] == "arr" else "F"
            old = release(I, p, space(f), s, "realloc")
            B = alloc(I, s, space(f), nb)
            if old is not None and k in BYTES:
                no = s.store.get(("arrn", old))
                nn = divide(nb, BYTES[k])
                s.store[("arrn", B)] = nn if nn is not None else ("op", "elements", nb)
                c0 = I.content(old, s)
                from .kern import bindkey
                key = ("eidx", ("range", no), ("n", I.loopdepth))
                v = I.cread(old, c0, key, k, s)
                lvl, (vb,) = bindkey(key, v)
                I.setcontent(B, ("map", C(0), no, lvl, vb, ("uninit",)), s)
            return N(("ptr", (("arr", B, k), (("i", C(0)),))), s)
        return bind(I.vals(a, st), go)

    @reg("Kokkos::View::ctor")
    def kview(I, f, ob, a, st):
        if f.ctor in (2, 3):
            return bind(I.val(a[0], st), lambda v, s: I.wr(ob, v, s))

        def go(vs, s):
            if len(vs) < 2:
                return I.wr(ob, I.unk("Kokkos::View"), s)
            cr = f.cr or ""
            sp = [x for x in ("Kokkos::HostSpace", "Kokkos::Serial", "Kokkos::Threads", "Kokkos::DeviceSpace", "Kokkos::Device") if x in cr]
            return I.wr(ob, ("rec", "Kokkos::View", (("#n", s.nz(vs[1])), ("#ptr", s.nz(vs[0])), ("#space", C(sp[0] if sp else "?"))), None), s)
        return bind(I.vals(a, st), go)

    @reg("Kokkos::deep_copy")
    def deep_copy(I, f, ob, a, st):
        def go(vs, s):
            d, r = s.nz(vs[0]), s.nz(vs[1])
            if d[0] != "rec" or r[0] != "rec" or absint.rec_get(d, "#ptr") is None or absint.rec_get(r, "#ptr") is None:
                I.unmodelled.add("deep_copy")
                return N(VOID, s)
            G = absint.rec_get
            dn, rn = G(d, "#n"), G(r, "#n")
            if dn != rn:
                s.event("memerr" if not (has_unk(dn) or has_unk(rn)) else "memunk", C("deep_copy between views of different size"), dn, rn)
            ends = []
            for v in (d, r):
                p = s.nz(G(v, "#ptr"))
                if p == NULL:
                    if not (dn == C(0)):
                        s.event("copynull", dn)
                    return N(VOID, s)
                if p[0] != "ptr" or p[1][0][0] != "arr":
                    I.unmodelled.add("deep_copy of an unknown pointer")
                    s.event("memunk", C("deep_copy of an unknown pointer"), p)
                    return N(VOID, s)
                A, k, off = p[1][0][1], p[1][0][2], p[1][1][0][1]
                b = s.store.get(("alloc", A))
                if b is not None and b[3] != C("live"):
                    s.event("memerr", C("use of a block after it was released"), A)
                have = b[1][1] if b is not None else I.spaceof(A, s)
                if have is not None and side(have) and side(G(v, "#space")[1]) and side(have) != side(G(v, "#space")[1]):
                    s.event("memerr", C("a view of %s on memory of %s" % (G(v, "#space")[1], have)), A)
                n = I.size_of(A, s)
                ends.append((A, k, off, n))
                if n is not None and not has_unk(n):
                    room = lin_sub(lin_sub(n, off), dn)
                    t = I.decide(lin_add(room, C(1)), s)
                    if t is not True:
                        s.event("memerr" if t is False else "memunk", C("deep_copy beyond the end of a block"), A, room)
            (A, k, off, n), (B, k2, off2, n2) = ends
            from .kern import bindkey
            key = ("eidx", ("range", dn), ("n", I.loopdepth))
            v = I.cread(B, I.content(B, s), lin_add(key, off2), k, s)
            lvl, (vb,) = bindkey(key, v)
            I.setcontent(A, ("map", off, dn, lvl, vb, I.content(A, s)), s)
            s.event("deepcopy", A, B, dn)
            return N(VOID, s)
        return bind(I.vals(a, st), go)
    def vdata(I, e, f, ob, a, st):
        def go(v, s):
            v = s.nz(v)
            A = ("vecdata", v)
            n = absint.seq_len(v)
            s.store[("arrn", A)] = n
            k = "F"
            for x in (f["cr"] or "", f["ret"].s if f["ret"] is not None else ""):
                k = "V" if "NeoFOAM::Vector" in x else "I" if "<int" in x or x.startswith(("int", "const int")) else k
            I.setcontent(A, ("vecseq", v), s)
            return N(("ptr", (("arr", A, k), (("i", C(0)),))), s)
        return bind(I.rd(ob, st), go)
    I.models["std::vector::data"] = vdata
    I.spaceof = lambda A, s: None
