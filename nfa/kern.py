"""Abstract interpretation of array programs: fields, views, parallel launches.

The contents of an array is a function from index to value, built from the launches that wrote it:
  ("a0",)                              as it was on entry
  ("uninit",)                          freshly allocated
  ("map", lo, n, lvl, val, prev)       [lo, lo+n) holds val (bound index ("bk", lvl)), elsewhere prev
  ("scat", n, lvl, idx, val, prev)     prev plus the sum over k in [0,n) of val(k) at idx(k)
  ("ov", n, lvl, idx, val, prev)       prev with idx(k) := val(k) for k in [0,n)
  ("of", A, content, off)              a copy of another array
  ("fill", val) ("vecseq", v) ("hav", id)
One generic iteration of a launch is interpreted; its accesses are logged, and the log is folded into the contents.
"""
from . import absint
from .absint import Interp, C, S, N, Out, bind, lin_add, lin_sub, lin_parts, isc, subst, contains, VOID, has_unk  # noqa
from . import poly as P

LOG = ("log",)
VECREC = "NeoFOAM::Vector"


class Sig:
    """what a model needs to know about the function called"""

    def __init__(self, n, c, cr, q, pt, ret, ta, const, u=None, ctor=0):
        self.n, self.c, self.cr, self.q, self.pt, self.ret, self.ta, self.const, self.u = n, c, cr, q, pt, ret, ta, const, u
        self.ctor = ctor


def kind_of(t):
    t = t.strip() if t is not None else None
    if t is None:
        return "O"
    if t.k == "ptr":
        t = t.to.strip()
    if t.rec == VECREC:
        return "V"
    if t.k == "float":
        return "F"
    if t.k in ("int", "bool"):
        return "I"
    return "O"


def elem_kind(cr):
    """element kind from the name of a Field/View/span specialisation"""
    if "<" not in (cr or ""):
        return None
    a = cr.split("<", 1)[1].rsplit(">", 1)[0].strip()
    a = a.replace("const ", "").replace(" const", "").strip().split(",")[0].strip()
    if a.endswith("Vector"):
        return "V"
    if a in ("double", "float", "NeoFOAM::scalar", "scalar"):
        return "F"
    if a in ("int", "unsigned int", "long", "unsigned long", "unsigned char", "size_t", "std::size_t", "bool", "short",
             "unsigned short", "char", "signed char", "long long", "unsigned long long", "NeoFOAM::localIdx",
             "NeoFOAM::label", "localIdx", "label", "uint8_t", "std::uint8_t", "uint64_t", "int64_t"):
        return "I"
    return "O"


def maxbk(t):
    m = 0
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "bk" and isinstance(t[1], int):
            return t[1]
        for x in t:
            if isinstance(x, (tuple, frozenset)):
                m = max(m, maxbk(x))
    elif isinstance(t, frozenset):
        for x in t:
            m = max(m, maxbk(x))
    return m


def bindkey(key, *ts):
    lvl = 1 + max(maxbk(t) for t in ts)
    m = {key: ("bk", lvl)}
    return lvl, [subst(t, m) for t in ts]


_oldrenorm = absint.renorm


def _renorm(t):
    if t and t[0] in P.NORM:
        try:
            return P.renorm(t)
        except Exception:
            return t
    return _oldrenorm(t)


absint.renorm = _renorm


class KInterp(Interp):
    def __init__(self, prog):
        super().__init__(prog)
        self.km = {}
        self.real = set()          # model keys to bypass (the real body is interpreted instead)
        self.sizes = lambda A, st: None
        self.execs = lambda A, st: S("exec")
        self.launches = True
        self.meshloc = None
        self.vresult = {}          # virtual function name -> hook
        install(self)
        prev = self.models.get("std::min")

        def fminmax(I, e, f, ob, a, st):
            fl = f.get("ret") is not None and kind_of(f["ret"]) == "F"
            if not fl:
                return prev(I, e, f, ob, a, st)
            return bind(I.vals(a, st), lambda vs, s: N(P.minmax(f["n"], s.nz(vs[0]), s.nz(vs[1])), s) if len(vs) == 2
                        else N(I.unk("minmax"), s))
        self.models["std::min"] = self.models["std::max"] = fminmax

    def deref(self, p, st):
        # in an analysis with one mesh, every reference to a mesh held by an object refers to it
        if self.meshloc is not None:
            v = st.nz(p)
            if v[0] == "fld" and v[2] in self.meshnames():
                return self.meshloc
            return super().deref(v, st)
        return super().deref(p, st)

    def meshnames(self, _c={}):
        k = id(self.P)
        if k not in _c:
            yes, no = set(), set()
            for r in self.P.records.values():
                for f in r.get("fields", ()):
                    t = f["t"].strip() if f["t"].isref() else None
                    if t is not None and (t.rec or t.s or "").split("::")[-1] == "UnstructuredMesh":
                        yes.add(f["n"])
                    else:
                        no.add(f["n"])
            _c[k] = yes - no
        return _c[k]

    # ------------------------------------------------------------ models
    def enter(self, g, this, a, st, lam=None):
        if lam is None:
            m = None
            if g.c:
                k = g.c + ("::ctor" if g.ctor else "::~" if g.dtor else "::" + g.n)
            else:
                k = g.q
            m = self.km.get(k) if k not in self.real else None
            if m is not None:
                r = m(self, Sig(g.n, g.c, g.cr, g.q, [p["t"] for p in g.p], g.ret, g.ta, g.const, g.u, g.ctor), this, a, st)
                if r is not None:
                    return r
        return super().enter(g, this, a, st, lam)

    def construct_at(self, e, loc, st):
        if e["k"] == "ctor":
            f = e["f"]
            k = (f.get("c") or "") + "::ctor"
            m = self.km.get(k) if k not in self.real else None
            if m is not None and (f["u"] not in self.P.funcs or self.P.funcs[f["u"]].b is None):
                sg = self.sig(f, e)

                def go(a, s):
                    r = m(self, sg, loc, a, s)
                    return r if r is not None else N(VOID, s)
                return bind(self.args(f, e["a"], st), go)
        return super().construct_at(e, loc, st)

    def rv_ctor(self, e, st):
        f = e["f"]
        k = (f.get("c") or "") + "::ctor"
        if k in self.km and k not in self.real:
            r = self.fresh("t")
            st.store[r] = ("rec", e["t"].rec, (), None)
            return bind(self.construct_at(e, (r, ()), st), lambda _, s: self.rd((r, ()), s))
        return super().rv_ctor(e, st)

    def sig(self, f, e):
        return Sig(f["n"], f.get("c"), f.get("cr") or (e["t"].s if e["k"] == "ctor" else f.get("cr")), f["q"], f.get("pt", []),
                   f.get("ret"), f.get("ta"), f.get("const"), f["u"], f.get("ctor"))

    def stdcall(self, e, ob, st, a=None):
        f = e["f"]
        c = f.get("c")
        k = (c + ("::ctor" if e["k"] == "ctor" else "::" + f["n"])) if c else f["q"]
        m = self.km.get(k) if k not in self.real else None
        if m is not None:
            if a is None:
                return bind(self.args(f, e["a"], st), lambda aa, s: self.stdcall(e, ob, s, aa))
            sg = self.sig(f, e)
            if sg.ret is None:
                sg.ret = e.get("t")
            if e["k"] == "ctor":
                r = self.fresh("t")
                st.store[r] = ("rec", e["t"].rec, (), None)
                o = m(self, sg, (r, ()), a, st)
                if o is not None:
                    return bind(o, lambda _, s: self.rd((r, ()), s))
            else:
                o = m(self, sg, ob, a, st)
                if o is not None:
                    return o
        return super().stdcall(e, ob, st, a)

    def rv_inhctor(self, e, st):
        return super().rv_inhctor(e, st)

    def opaque_vcall(self, e, f, ob, a, st):
        h = self.vresult.get(f["n"])
        if h is not None:
            r = h(self, e, f, ob, a, st)
            if r is not None:
                return r
        return super().opaque_vcall(e, f, ob, a, st)

    # ------------------------------------------------------------ floats
    def nonneg(self, t):
        return super().nonneg(t) or t[0] in ("rd", "bk", "elt", "nn", "fld")

    def isf(self, t):
        return t is not None and t.k == "float"

    def fop(self, op, a, b, st):
        a, b = st.nz(a), st.nz(b)
        if has_unk(a) or has_unk(b):
            if op in ("+", "-", "*", "/"):
                return N(self.unk("float"), st)
            return [Out("n", C(x), s) for x, s in self.truth(self.unk("float"), st)]
        if op == "+":
            return N(P.add(a, b), st)
        if op == "-":
            return N(P.sub(a, b), st)
        if op == "*":
            return N(P.mul(a, b), st)
        if op == "/":
            return N(P.div(a, b), st)
        if op in ("<", ">", "<=", ">="):
            x = P.sub(a, b) if op in (">", "<=") else P.sub(b, a)
            return [Out("n", C(r if op in ("<", ">") else not r), s) for r, s in self.fpos(x, st)]
        if op in ("==", "!="):
            k, f = P.feqkey(P.sub(a, b))
            prs = [(k, st)] if f is None else self.fork(st, f)
            return [Out("n", C(r == (op == "==")), s) for r, s in prs]
        return N(("op", op, a, b), st)

    def fpos(self, x, st):
        k, f = P.fposkey(x)
        if f is None:
            return [(k, st)]
        if f in st.facts:
            return [(st.facts[f], st)]
        _, g = P.fposkey(P.neg(x))
        if g is not None and st.facts.get(g) is True:
            return [(False, st)]
        return self.fork(st, f)

    def rv_float(self, e, st):
        try:
            return N(P.const(P.frac(float(e["v"]))), st)
        except (ValueError, TypeError, OverflowError):
            return N(("s", "float:" + str(e["v"])), st)

    def rv_bin(self, e, st):
        op = e["op"]
        if op in ("+", "-", "*", "/", "<", ">", "<=", ">=", "==", "!="):
            ta, tb = e["a"].get("t"), e["b"].get("t")
            if self.isf(ta.strip() if ta else None) or self.isf(tb.strip() if tb else None):
                return bind(self.rv(e["a"], st), lambda a, s: bind(
                    self.rv(e["b"], s), lambda b, s2: self.fop(op, a, b, s2)))
        return super().rv_bin(e, st)

    def assign(self, e, st):
        op = e["op"]
        ta = e["a"].get("t")
        if op in ("+=", "-=", "*=", "/=") and self.isf(ta.strip() if ta else None):
            def g(l, s):
                return bind(self.rd(l, s), lambda a, s1: bind(self.rv(e["b"], s1), lambda b, s2: bind(
                    self.fop(op[0], a, b, s2), lambda v, s3: bind(self.wr(l, v, s3), lambda _, s4: N(l, s4)))))
            return bind(self.lv(e["a"], st), g)
        return super().assign(e, st)

    def rv_un(self, e, st):
        if e["op"] == "-" and self.isf(e["t"]):
            return bind(self.rv(e["e"], st), lambda v, s: N(v if has_unk(v) else P.neg(s.nz(v)), s))
        return super().rv_un(e, st)

    def rv_cast(self, e, st):
        if e["ck"] == "FloatingToIntegral":
            def g(v, s):
                n = P.number(v) if not has_unk(v) else None
                return N(C(int(n)) if n is not None else ("op", "toint", v), s)
            return bind(self.rv(e["e"], st), g)
        if e["ck"] == "FloatingToBoolean":
            return bind(self.rv(e["e"], st), lambda v, s: self.fop("!=", v, C(0), s))
        if e["ck"] == "IntegralCast" and e["t"].k == "int" and e["t"].bits and e["t"].bits < 32:
            def h(v, s):
                p = lin_parts(v)
                if p and not p[1]:
                    return N(v, s)
                if p and all(x[0] in ("rd", "cur") for x in p[1]):
                    return N(v, s)     # narrow element types are read and stored as they are
                return N(("op", "trunc%d" % e["t"].bits, v), s)
            return bind(self.rv(e["e"], st), h)
        return super().rv_cast(e, st)

    # ------------------------------------------------------------ arrays
    def content(self, A, st):
        return st.store.get(("arrc", A), ("uninit",) if A[0] == "new" else ("a0",))

    def setcontent(self, A, c, st):
        st.store[("arrc", A)] = c

    def atom(self, A, idx, k):
        return ("vrd" if k == "V" else "rd", A, idx)

    def idxcmp(self, a, b, st):
        """True/False/None: are the two indices equal"""
        d = st.nz(lin_sub(a, b))
        if isc(d):
            return d[1] == 0
        p = lin_parts(d)
        if p is None:
            return None
        r = self.decide_pos(p[0], p[1], st)
        if r:
            return False
        if self.decide_pos(-p[0], {k: -v for k, v in p[1].items()}, st):
            return False
        return None

    def decide(self, d, st):
        d = st.nz(d)
        p = lin_parts(d)
        if p is None:
            return None
        return self.decide_pos(p[0], p[1], st)

    def inrange(self, idx, lo, n, st):
        """is lo <= idx < lo+n"""
        a = self.decide(lin_add(lin_sub(idx, lo), C(1)), st)
        b = self.decide(lin_sub(lin_add(lo, n), idx), st)
        if a is False or b is False:
            return False
        if a and b:
            return True
        return None

    def cread(self, A, c, idx, k, st):
        """value of content c of array A at idx"""
        idx = st.nz(idx)
        t = c[0]
        if t == "a0":
            return self.atom(A, idx, k)
        if t == "uninit":
            return ("init", A, idx, k) if k == "V" else ("init", A, idx, "F")
        if t == "fill":
            return c[1]
        if t == "hav":
            return self.unk("array contents")
        if t == "of":
            return self.cread(c[1], c[2], lin_add(idx, c[3]), k, st)
        if t == "vecseq":
            if isc(idx) and c[1][0] == "seq" and all(p[0] == "e" for p in c[1][1]) and 0 <= idx[1] < len(c[1][1]):
                return c[1][1][idx[1]][1]
            return ("velt", c[1], idx)
        if t == "map":
            _, lo, n, lvl, val, prev = c
            r = self.inrange(idx, lo, n, st)
            if r is None:
                sz = self.size_of(A, st)
                if lo == C(0) and sz is not None and st.nz(sz) == st.nz(n):
                    r = True
            if r is True:
                return subst(val, {("bk", lvl): lin_sub(idx, lo)})
            if r is False:
                return self.cread(A, prev, idx, k, st)
            v1 = subst(val, {("bk", lvl): lin_sub(idx, lo)})
            v0 = self.cread(A, prev, idx, k, st)
            if v1 == v0:
                return v0
            return ("rdv", lo, n, v1, v0, idx, k)
        if t == "scat":
            _, n, lvl, ix, val, prev = c
            v = self.cread(A, prev, idx, k, st)
            if has_unk(v):
                return v
            out = v
            for m, co in P.to(val).items():
                ix2, m2 = ix, m
                l2 = 1 + max(maxbk(x) for x in (subst(ix, {("bk", lvl): ("bk", 0)}), subst(m, {("bk", lvl): ("bk", 0)})))
                ix2 = subst(ix, {("bk", lvl): ("bk", l2)})
                m2 = subst(m, {("bk", lvl): ("bk", l2)})
                at = ("sc", n, ix2, m2, idx)
                out = P.add(out, P.scale(at, co)) if k in "FV" else lin_add(out, ("lin", 0, ((at, int(co)),)))
            return out
        if t == "ov":
            _, n, lvl, ix, val, prev = c
            v0 = self.cread(A, prev, idx, k, st)
            return ("ov", n, lvl, ix, val, v0, idx, k)
        return self.unk("array contents")

    def size_of(self, A, st):
        if A[0] == "new":
            return st.store.get(("arrn", A))
        return self.sizes(A, st)

    def note(self, st, *e):
        log = st.store.get(LOG)
        if log is not None:
            st.store[LOG] = log + (e + (st.site(),),)
        return log is not None

    inkernel = 0
    hosthook = None             # told about every access to an array outside of a launch

    def host(self, A, idx, st, how):
        if self.hosthook is not None and not self.inkernel:
            self.hosthook(A, idx, st, how)

    def readA(self, A, idx, k, st):
        idx = st.nz(idx)
        self.host(A, idx, st, "read")
        log = st.store.get(LOG)
        if log is None:
            v = self.cread(A, self.content(A, st), idx, k, st)
            return v
        pend = []
        v = None
        for e in reversed(log):
            if e[0] in ("w", "a") and e[1] == A:
                r = self.idxcmp(e[2], idx, st)
                if r is True:
                    if e[0] == "w":
                        v = e[3]
                        break
                    pend.append(e[3])
        self.note(st, "r", A, idx)
        if v is None:
            v = ("cur", A, idx, k) if k != "I" and k != "O" else self.cread(A, self.content(A, st), idx, k, st)
            if k == "V":
                v = ("vrd", A, idx, "cur")
        for x in pend:
            v = P.add(v, x) if k in "FV" else lin_add(v, x)
        return v

    def resolve(self, t, st):
        """replaces reads of the running launch by the contents before it"""
        m = {}

        def walk(x):
            if isinstance(x, tuple):
                if len(x) == 4 and (x[0] == "cur" or x[0] == "vrd" and x[3] == "cur"):
                    if x not in m:
                        idx = self.resolve(x[2], st)
                        m[x] = self.cread(x[1], self.content(x[1], st), idx, "V" if x[0] == "vrd" else x[3], st)
                    return
                for y in x:
                    walk(y)
            elif isinstance(x, frozenset):
                for y in x:
                    walk(y)
        walk(t)
        return subst(t, m) if m else t

    def cmpts(self, path, st):
        """the components of a Vector stored in its array member"""
        r = []
        i = 0
        while i < len(path):
            if path[i] == ("f", "cmpts_") and i + 1 < len(path) and path[i + 1][0] == "i":
                c = st.nz(path[i + 1][1])
                if isc(c):
                    r.append(("cmp", c[1]))
                    i += 2
                    continue
            r.append(path[i])
            i += 1
        return tuple(r)

    def rd(self, loc, st):
        root, path = loc
        if ("f", "cmpts_") in path:
            path = self.cmpts(path, st)
            loc = (root, path)
        if root[0] == "arr":
            if path and path[0][0] == "i":
                v = self.readA(root[1], path[0][1], root[2], st)
                return self.selp(v, path[1:], st)
            return N(self.unk("array"), st)
        return super().rd(loc, st)

    def wr(self, loc, val, st):
        root, path = loc
        if ("f", "cmpts_") in path:
            path = self.cmpts(path, st)
            loc = (root, path)
        if root[0] == "arr":
            if not (path and path[0][0] == "i"):
                return N(VOID, st)
            idx = st.nz(path[0][1])
            self.host(root[1], idx, st, "written")
            if len(path) > 1:
                v = self.readA(root[1], idx, root[2], st)
                return bind(self.upd(v, path[1:], val, st), lambda nv, s: self.wr((root, path[:1]), nv, s))
            if not self.note(st, "w", root[1], idx, st.nz(val)):
                lvl, (v,) = 0, (val,)
                self.setcontent(root[1], ("map", idx, C(1), 0, val, self.content(root[1], st)), st)
                st.event("hostwrite", root[1], idx)
            return N(VOID, st)
        return super().wr(loc, val, st)

    def sel1(self, v, s, st):
        if s[0] == "cmp":
            v = st.nz(v)
            return N(P.cmp_(v, s[1]) if not has_unk(v) else self.unk("component"), st)
        if s[0] == "f" and s[1] == "exec_" and v[0] != "rec":
            return N(self.execs(v, st), st)
        if s[0] == "f" and s[1] == "exec_" and v[0] == "rec":
            x = absint.rec_get(v, "exec_")
            if x is None and v[3] is not None:
                return N(self.execs(v, st), st)
        return super().sel1(v, s, st)

    def upd1(self, v, s, x, st):
        if s[0] == "cmp":
            v = st.nz(v)
            if has_unk(v):
                return N(v, st)
            return N(P.add(v, P.mul(P.sub(x, P.cmp_(v, s[1])), P.E(s[1]))), st)
        return super().upd1(v, s, x, st)

    # ------------------------------------------------------------ loops on the host
    def touched(self, log):
        return any(e[0] in ("w", "a", "sub") for e in log or ())

    class _Ordered(Exception):
        pass

    def countdown(self, s, v, d, st):
        """loops that only work on arrays and accumulators are read in ascending order (over reals, and element by
        element, the order does not show); anything else in their own order"""
        self.anyorder = getattr(self, "anyorder", 0) + 1
        try:
            return super().countdown(s, v, d, st.clone())
        except self._Ordered:
            pass
        finally:
            self.anyorder -= 1
        old, self.anyorder = self.anyorder, 0
        try:
            return super().countdown(s, v, d, st)
        finally:
            self.anyorder = old

    def countdown_index(self, v0, lv, first, extra, key):
        if getattr(self, "anyorder", 0):
            return lin_add(lin_add(lv, C(1 + first - extra)), key)
        return super().countdown_index(v0, lv, first, extra, key)

    def loop(self, R, n, key, body, st, line, ismap):
        ao, self.anyorder = getattr(self, "anyorder", 0), 0
        try:
            return self.loop1(R, n, key, body, st, line, ismap, ao)
        finally:
            self.anyorder = ao

    def loop1(self, R, n, key, body, st, line, ismap, anyorder):
        def ordered(*a):
            if anyorder:
                raise self._Ordered()
            return Interp.loop(self, *a)
        if ismap or key[0] != "eidx":
            return ordered(R, n, key, body, st, line, ismap)
        outer = st.store.get(LOG)
        probe = st.clone()
        cnt0, ns = self.cnt, self.nstates
        ln = absint.seq_len(R) if R[0] != "range" else R[1]
        if isc(ln) and isinstance(ln[1], int) and ln[1] <= 0:
            return N(VOID, st)
        res = self.iteration(ln, key, body, probe)
        if res is None:
            return ordered(R, n, key, body, st, line, ismap)
        paths, outs, start, cnt1 = res
        writes = any(self.touched(p[1]) for p in paths)
        nn = [o for o in outs if o.k in ("n", "c")]
        accs = {}
        okacc = True
        for o in nn:
            for r, (x, y) in self.delta(probe_pre(st), o.st, cnt0).items():
                if r in (LOG,) or r[0] in ("arrc",):
                    continue
                for p, a, b in self.leaves(o.st.nz(x), y):
                    accs[(r, p)] = a
        if not writes:
            fl = [l for l, a in accs.items() if self.isfloaty(a, nn, l)]
            if not fl or len(fl) != len(accs):
                return ordered(R, n, key, body, st, line, ismap)
        if len(nn) != len(outs):
            # leaves early: give up on the arrays it writes
            s = st
            for A in {e[1] for p in paths for e in p[1] if e[0] in ("w", "a", "sub")}:
                self.setcontent(A, ("hav", self.fresh("h")[1]), s)
            for l in accs:
                for o in self.wr(l, self.unk("loop"), s):
                    s = o.st
            self.unmodelled.add("loop left early")
            return [Out("n", VOID, s)] + [o for o in outs if o.k not in ("n", "c", "b")]
        # second pass with the accumulators replaced by markers
        if accs:
            probe = st.clone()
            marks = {}
            for i, (r, p) in enumerate(sorted(accs, key=repr)):
                marks[(r, p)] = ("acc", len(st.stack), i, self.loopdepth)
                for o in self.wr((r, p), marks[(r, p)], probe):
                    probe = o.st
            res = self.iteration(ln, key, body, probe)
            if res is None:
                return ordered(R, n, key, body, st, line, ismap)
            paths, outs, start, cnt1 = res
            nn = [o for o in outs if o.k in ("n", "c")]
        s = st
        for o in nn:
            for r in {r for r in list(o.st.store) + list(st.store) if r[0] == "arrc"}:
                if o.st.store.get(r) != st.store.get(r) and (r[1][0] != "new" or r in st.store):
                    s.store[r] = ("hav", self.fresh("h")[1])
        for l in accs:
            old = [o.v for o in self.rd(l, s)][0]
            vals = []
            for o in nn:
                v = [x.v for x in self.rd(l, o.st)][0]
                vals.append((self.newfacts(o.st, start), v))
            nv = self.accumulate(old, marks[l], vals, ln, key, st)
            for o in self.wr(l, nv, s):
                s = o.st
        if writes or outer is not None:
            s.event("launch", "seq", None, C(0), ln, key, tuple(paths))
            if outer is not None:
                s.store[LOG] = outer + (("sub", ln, key, tuple(paths), s.site()),)
            else:
                self.fold(ln, key, paths, s, "seq")
        return [Out("n", VOID, s)]

    def isfloaty(self, a, nn, l):
        for o in nn:
            v = [x.v for x in self.rd(l, o.st)]
            if len(v) == 1 and floaty(v[0]):
                return True
        return False

    def iteration(self, n, key, body, st):
        """runs one generic iteration; (paths, outcomes, facts at the start) or None"""
        outer = st.store.get(LOG)
        st.store[LOG] = ()
        st.facts[("pos", lin_sub(n, key))] = True
        start = dict(st.facts)
        cnt1 = self.cnt
        self.loopdepth += 1
        try:
            outs = body(st)
        finally:
            self.loopdepth -= 1
        paths = []
        for o in outs:
            log = o.st.store.get(LOG) or ()
            paths.append((tuple(sorted(self.newfacts(o.st, start).items(), key=repr)), tuple(o.st.nz(log)) if log else ()))
            if outer is None:
                o.st.store.pop(LOG, None)
            else:
                o.st.store[LOG] = outer
        if outer is None:
            st.store.pop(LOG, None)
        else:
            st.store[LOG] = outer
        return paths, outs, start, cnt1

    def accumulate(self, old, mark, vals, n, key, st):
        """value of an accumulator after n iterations that each map mark to vals (by path)"""
        if any(has_unk(v) or any(has_unk(f) for f in nf) for nf, v in vals):
            return self.unk("accumulator")
        # sums
        tot = C(0)
        ok = True
        for nf, v in vals:
            d = P.sub(v, mark)
            if contains(d, mark) or any(contains(f, mark) for f in nf):
                ok = False
                break
            w = d
            for f, b in nf.items():
                w = P.mul(w, P.ind(self.canonfact(f), b))
            tot = P.add(tot, w)
        if ok:
            tot = self.resolve(tot, st)
            if has_unk(tot):
                return self.unk("accumulator")
            return P.add(old, self.bigsum(n, key, tot))
        # extrema
        for op in ("max", "min"):
            x = None
            good = True
            for nf, v in vals:
                if v == mark:
                    continue
                cand = None
                if v[0] == op and mark in v[1] and len(v[1]) == 2:
                    cand = [y for y in v[1] if y != mark][0]
                elif not contains(v, mark):
                    cand = v
                    d = P.sub(v, mark) if op == "max" else P.sub(mark, v)
                    _, fk = P.fposkey(d)
                    _, fk2 = P.fposkey(P.neg(d))
                    if not (nf.get(fk) is True or nf.get(fk2) is False) or len(nf) != 1:
                        good = False
                else:
                    good = False
                if cand is not None:
                    if x is not None and x != cand:
                        good = False
                    x = cand
            for nf, v in vals:
                if v == mark and x is not None and len(vals) > 1:
                    d = P.sub(x, mark) if op == "max" else P.sub(mark, x)
                    _, fk = P.fposkey(d)
                    _, fk2 = P.fposkey(P.neg(d))
                    if not (nf.get(fk) is False or nf.get(fk2) is True):
                        good = False
            if good and x is not None and not contains(x, mark):
                x = self.resolve(x, st)
                if has_unk(x):
                    return self.unk("accumulator")
                lvl, (xb,) = bindkey(key, x)
                return P.minmax(op, old, (op + "of", n, lvl, xb))
        return self.unk("accumulator")

    def bigsum(self, n, key, t):
        out = C(0)
        for m, co in P.to(t).items():
            dep = tuple(p for p in m if contains(p[0], key))
            free = {tuple(p for p in m if not contains(p[0], key)): co}
            if dep:
                lvl, (b,) = bindkey(key, dep)
                out = P.add(out, P.mul(P.mk(free), ("sum", n, lvl, b)))
            else:
                out = P.add(out, P.mul(P.mk(free), n))
        return out

    # ------------------------------------------------------------ launches
    def canonfact(self, f):
        return f

    def launch(self, kind, ex, lo, hi, call, st, red=None):
        """one parallel launch; call(index, state[, accumulator loc]) -> outcomes"""
        lo, hi = st.nz(lo), st.nz(hi)
        n = lin_sub(hi, lo)
        if isc(n) and n[1] <= 0:
            return N(VOID, st)
        key = ("eidx", ("range", n), ("n", self.loopdepth))
        outer = st.store.get(LOG)
        probe = st.clone()
        mark = None
        accl = None
        if red is not None:
            r = self.fresh("v")
            mark = ("acc", "red", 0, self.loopdepth)
            probe.store[r] = mark
            accl = (r, ())
        cnt0 = self.cnt
        pre = probe.clone()
        i = lin_add(lo, key)
        self.inkernel += 1
        res = self.iteration(n, key, (lambda s: call(i, s, accl)) if red is not None else (lambda s: call(i, s)), probe)
        self.inkernel -= 1
        paths, outs, start, cnt1 = res
        nn = [o for o in outs if o.k in ("n", "c")]
        s = st
        if len(nn) != len(outs):
            for o in outs:
                if o.k not in ("n", "c"):
                    s.event("kernelexit", o.k, o.v if isinstance(o.v, tuple) else VOID)
        # locals captured by reference
        for o in nn:
            for r, (x, y) in self.delta(pre, o.st, cnt0).items():
                if r == LOG or r[0] == "arrc" or r in self.constg or accl is not None and r == accl[0]:
                    continue
                for p, a, b in self.leaves(o.st.nz(x), y):
                    s.event("capturedwrite", (r, p))
                    for o2 in self.wr((r, p), self.unk("written by a kernel"), s):
                        s = o2.st
        s.event("launch", kind, ex, lo, n, key, tuple(paths))
        if outer is not None:
            s.store[LOG] = outer + (("sub", n, key, tuple(paths), s.site()),)
        else:
            self.fold(n, key, paths, s, kind)
        if red is not None:
            vals = []
            for o in nn:
                v = [x.v for x in self.rd(accl, o.st)][0]
                vals.append((self.newfacts(o.st, start), v))
            return red(self, mark, vals, n, key, s)
        return N(VOID, s)

    def fold(self, n, key, paths, s, kind):
        """adds the effect of a launch to the array contents"""
        arrays = {}
        for facts, log in paths:
            for e in log:
                if e[0] in ("w", "a"):
                    arrays.setdefault(e[1], []).append(e)
                if e[0] == "sub":
                    for A in subwrites(e[3]):
                        arrays.setdefault(A, []).append(e)
        new = {}
        for A in arrays:
            new[A] = self.fold1(A, n, key, paths, s, kind)
        for A, c in new.items():
            self.setcontent(A, c if c is not None else ("hav", self.fresh("h")[1]), s)

    def fold1(self, A, n, key, paths, s, kind):
        c0 = self.content(A, s)
        effs = []         # (a, n', guard, idx, "add"/"set", value)  with key rebased
        for facts, log in paths:
            if any(f[0] == ("taint",) or has_unk(f[0]) for f in facts):
                return None
            if any(e[0] == "sub" and A in subwrites(e[3]) for e in log):
                return None
            cur = {}
            order = []
            for e in log:
                if e[0] not in ("w", "a") or e[1] != A:
                    continue
                idx = e[2]
                hit = None
                for j in order:
                    if j == idx or self.idxcmp(j, idx, s) is True:
                        hit = j
                if hit is None:
                    hit = idx
                    order.append(idx)
                    cur[idx] = None
                if e[0] == "w":
                    cur[hit] = ("w", e[3], e)
                else:
                    p = cur[hit]
                    if p is None:
                        cur[hit] = ("d", e[3], e)
                    elif p[0] == "d":
                        cur[hit] = ("d", P.add(p[1], e[3]), e)
                    else:
                        cur[hit] = ("w", P.add(p[1], e[3]), e)
            lo_, n_, rest = self.split(facts, n, key, s)
            reb = {key: lin_add(lo_, key)} if lo_ != C(0) else {}
            for idx in order:
                k_, v, e = cur[idx]
                if has_unk(v) or has_unk(idx):
                    return None
                isv = P.isvec(v)
                if k_ == "w":
                    me = [x for x in curs(v) if x[1] == A]
                    same_ = [x for x in me if self.idxcmp(x[2], idx, s) is True]
                    if len(me) == len(same_) and me:
                        d = P.sub(v, me[0])
                        if not any(x[1] == A for x in curs(d)):
                            k_, v = "d", d
                if any(x[1] == A and self.idxcmp(x[2], idx, s) is not True for x in curs(v)):
                    # reads what other iterations may have written
                    if kind != "seq" or not self.disjoint_reads(A, v, paths, n, key, s):
                        return None
                g = tuple(rest)
                effs.append((subst(lo_, {}), n_, subst(g, reb), subst(idx, reb), k_, subst(v, reb)))
        # group by range and index
        groups = {}
        for lo_, n_, g, idx, k_, v in effs:
            groups.setdefault((n_, idx), []).append((g, k_, v))
        c = c0
        allpaths = {}
        for facts, log in paths:
            lo_, n_, rest = self.split(facts, n, key, s)
            reb = {key: lin_add(lo_, key)} if lo_ != C(0) else {}
            allpaths.setdefault(n_, []).append(subst(tuple(rest), reb))
        maps, adds, ovs = [], [], []
        for (n_, idx), es in groups.items():
            p = lin_parts(self.resolve(idx, s))
            aff = p is not None and p[1].get(key) == 1 and not any(contains(t, key) for t in p[1] if t != key)
            idx = self.resolve(idx, s)
            if all(k_ == "d" for _, k_, _ in es) and not aff:
                tot = C(0)
                for g, _, v in es:
                    for f, b in g:
                        v = P.mul(v, P.ind(self.resolve(f, s), b))
                    tot = P.add(tot, v)
                adds.append((n_, idx, self.resolve(tot, s)))
                continue
            k = "V" if any(P.isvec(v) for _, _, v in es) else "F"
            r0 = self.cread(A, c0, idx, k, s)
            tot = C(0)
            full = len(es) == 1 and not es[0][0]
            cover = C(0)
            for g, k_, v in es:
                w = C(1)
                for f, b in g:
                    w = P.mul(w, P.ind(self.resolve(f, s), b))
                v = self.resolve(v, s)
                if k_ == "d":
                    v = P.add(r0, v)
                if full:
                    tot = v
                elif lin_parts(v) is None and not floaty(v) and v[0] not in ("c", "s"):
                    return None
                else:
                    tot = P.add(tot, P.mul(w, v))
                cover = P.add(cover, w)
            if not full and not P.same(cover, C(1)):
                tot = P.add(tot, P.mul(P.sub(C(1), cover), r0))
            if has_unk(tot):
                return None
            if aff:
                maps.append((lin_sub(idx, key), n_, tot))
            else:
                ovs.append((n_, idx, tot))
        if adds and (maps or ovs):
            return None
        if len(maps) > 1:
            # several affine targets: they have to be disjoint pieces
            for x in range(len(maps)):
                for y in range(x):
                    a, b = maps[x], maps[y]
                    d1 = self.decide(lin_add(lin_sub(a[0], lin_add(b[0], b[1])), C(1)), s)
                    d2 = self.decide(lin_add(lin_sub(b[0], lin_add(a[0], a[1])), C(1)), s)
                    if not (d1 or d2):
                        return None
        if maps and ovs:
            return None
        for lo_, n_, v in sorted(maps, key=repr):
            lvl, (vb,) = bindkey(key, v)
            c = ("map", lo_, n_, lvl, vb, c)
        for n_, idx, v in sorted(adds, key=repr):
            lvl, (ib, vb) = bindkey(key, idx, v)
            c = ("scat", n_, lvl, ib, vb, c)
        for n_, idx, v in sorted(ovs, key=repr):
            lvl, (ib, vb) = bindkey(key, idx, v)
            c = ("ov", n_, lvl, ib, vb, c)
        return c

    def disjoint_reads(self, A, v, paths, n, key, s):
        return False

    def split(self, facts, n, key, s):
        """bounds on the key among the facts: (lo, n', other facts)"""
        lo, hi = C(0), n
        rest = []
        for f, b in facts:
            if f[0] == "pos":
                p = lin_parts(f[1])
                if p is not None and p[1].get(key) in (1, -1) and not any(contains(t, key) for t in p[1] if t != key):
                    oth = {k: v for k, v in p[1].items() if k != key}
                    x = absint.mklin(p[0], oth)
                    if p[1][key] == -1:
                        # x - key > 0
                        if b:
                            nh = x
                            t = self.decide(lin_add(lin_sub(hi, nh), C(1)), s)
                            if t:
                                hi = nh
                                continue
                            if self.decide(lin_add(lin_sub(nh, hi), C(1)), s):
                                continue
                        else:
                            nl = x
                            t = self.decide(lin_add(lin_sub(nl, lo), C(1)), s)
                            if t:
                                lo = nl
                                continue
                    else:
                        # key + x > 0  : key > -x
                        y = lin_sub(C(0), x)
                        if b:
                            nl = lin_add(y, C(1))
                            t = self.decide(lin_add(lin_sub(nl, lo), C(1)), s)
                            if t:
                                lo = nl
                                continue
                            if self.decide(lin_add(lin_sub(lo, nl), C(1)), s):
                                continue
                        else:
                            nh = lin_add(y, C(1))
                            t = self.decide(lin_add(lin_sub(hi, nh), C(1)), s)
                            if t:
                                hi = nh
                                continue
            rest.append((f, b))
        return lo, lin_sub(hi, lo), rest


def probe_pre(st):
    return st


def floaty(v):
    return v[0] in ("poly", "cur", "vrd", "mag", "abs", "dot", "cmp", "sqrt", "max", "min", "acc", "sum", "e", "vsym", "init",
                    "sc", "rdv", "ov", "maxof", "minof", "rd") or v[0] == "c" and not isinstance(v[1], (str, type(None)))


def curs(v):
    out = []

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 4 and (x[0] == "cur" or x[0] == "vrd" and x[3] == "cur"):
                out.append(x)
            for y in x:
                walk(y)
    walk(v)
    return out


def subwrites(paths):
    r = set()
    for _, log in paths:
        for e in log:
            if e[0] in ("w", "a"):
                r.add(e[1])
            elif e[0] == "sub":
                r |= subwrites(e[3])
    return r


# ------------------------------------------------------------------ models
def install(I):
    M = I.km

    def reg(*names):
        def d(f):
            for n in names:
                M[n] = f
            return f
        return d

    def lit(I, a, st):
        return I.vals(a, st)

    # -------------------------------------------------- Vector and scalar functions
    V = VECREC

    @reg(V + "::ctor")
    def v_ctor(I, f, ob, a, st):
        def go(vs, s):
            if f.ctor in (2, 3) and len(vs) == 1:
                return I.wr(ob, vs[0], s)
            if any(has_unk(v) for v in vs):
                return I.wr(ob, I.unk("vector"), s)
            if not vs:
                return I.wr(ob, C(0), s)
            if len(vs) == 1:
                return I.wr(ob, P.mul(vs[0], P.ones()), s)
            return I.wr(ob, P.vec3(*vs[:3]), s)
        return bind(I.vals(a, st), go)

    def obval(I, ob, st, k):
        return bind(I.rd(ob, st), lambda v, s: k(s.nz(v), s))

    def un(v):
        return has_unk(v)

    def binv(op):
        def m(I, f, ob, a, st):
            if ob is None:
                return bind(I.vals(a, st), lambda vs, s: I.fop(op, vs[0], vs[1], s))
            return bind(I.vals(a, st), lambda vs, s: obval(I, ob, s, lambda o, s2: I.fop(op, o, vs[0], s2)))
        return m
    for op in "+-*":
        M[V + "::operator" + op] = binv(op)

    def asgv(op):
        def m(I, f, ob, a, st):
            return bind(I.vals(a, st), lambda vs, s: obval(I, ob, s, lambda o, s2: bind(
                I.fop(op, o, vs[0], s2), lambda v, s3: bind(I.wr(ob, v, s3), lambda _, s4: N(("@", ob), s4)))))
        return m
    for op in "+-*":
        M[V + "::operator" + op + "="] = asgv(op)

    @reg(V + "::operator=")
    def v_asg(I, f, ob, a, st):
        return bind(I.vals(a, st), lambda vs, s: bind(I.wr(ob, vs[0], s), lambda _, s4: N(("@", ob), s4)))

    @reg(V + "::operator[]", V + "::operator()")
    def v_idx(I, f, ob, a, st):
        def go(vs, s):
            if not isc(vs[0]):
                return N(I.unk("component index"), s)
            l = (ob[0], ob[1] + (("cmp", vs[0][1]),))
            if f.const or not (f.ret is not None and f.ret.isref()):
                return I.rd(l, s)
            return N(("@", l), s)
        return bind(I.vals(a, st), go)

    @reg(V + "::size")
    def v_size(I, f, ob, a, st):
        return N(C(3), st)

    @reg("NeoFOAM::operator*")
    def f_mul(I, f, ob, a, st):
        if len(f.pt) == 2 and kind_of(f.pt[1]) == "V" and kind_of(f.pt[0]) == "F":
            return bind(I.vals(a, st), lambda vs, s: I.fop("*", vs[0], vs[1], s))
        return None

    @reg("NeoFOAM::operator&")
    def f_dot(I, f, ob, a, st):
        if kind_of(f.pt[0]) != "V":
            return None
        return bind(I.vals(a, st), lambda vs, s: N(
            I.unk("dot") if un(vs[0]) or un(vs[1]) else P.dot(s.nz(vs[0]), s.nz(vs[1])), s))

    @reg("NeoFOAM::mag")
    def f_mag(I, f, ob, a, st):
        return bind(I.vals(a, st), lambda vs, s: N(
            I.unk("mag") if un(vs[0]) else P.mag(s.nz(vs[0])) if kind_of(f.pt[0]) == "V" else P.abs_(s.nz(vs[0])), s))

    @reg("std::abs", "std::fabs", "Kokkos::abs", "Kokkos::fabs", "fabs", "abs")
    def f_abs(I, f, ob, a, st):
        return bind(I.vals(a, st), lambda vs, s: N(I.unk("abs") if un(vs[0]) else P.abs_(s.nz(vs[0])), s))

    @reg("std::sqrt", "Kokkos::sqrt", "sqrt")
    def f_sqrt(I, f, ob, a, st):
        return bind(I.vals(a, st), lambda vs, s: N(I.unk("sqrt") if un(vs[0]) else P.sqrt(s.nz(vs[0])), s))

    @reg("std::pow", "Kokkos::pow", "pow")
    def f_pow(I, f, ob, a, st):
        def go(vs, s):
            n = P.number(vs[1]) if not un(vs[1]) else None
            if n is None or n.denominator != 1 or abs(n) > 6 or un(vs[0]):
                return N(("op", "pow", *vs), s)
            r = C(1)
            for _ in range(abs(int(n))):
                r = P.mul(r, vs[0])
            return N(r if n >= 0 else P.div(C(1), r), s)
        return bind(I.vals(a, st), go)

    @reg("Kokkos::max", "Kokkos::min", "Kokkos::fmax", "Kokkos::fmin", "std::fmax", "std::fmin")
    def f_kmax(I, f, ob, a, st):
        if f.ret is not None and kind_of(f.ret) != "F":
            return None
        return bind(I.vals(a, st), lambda vs, s: N(P.minmax("max" if "max" in f.n else "min", s.nz(vs[0]), s.nz(vs[1])), s))

    @reg("NeoFOAM::zero", "NeoFOAM::one")
    def f_zo(I, f, ob, a, st):
        k = kind_of(f.ret)
        return N(C(0) if f.n == "zero" else C(1) if k != "V" else P.ones(), st)

    @reg("NeoFOAM::traits::zero", "NeoFOAM::traits::one")
    def f_zo2(I, f, ob, a, st):
        return f_zo(I, f, ob, a, st)

    # -------------------------------------------------- Field
    F = "NeoFOAM::Field"

    def newarr(I, st, n, content, label=""):
        A = ("new", I.fresh("A")[1], label)
        st.store[("arrn", A)] = n
        I.setcontent(A, content, st)
        st.event("newarray", A, n)
        return A

    def frec(A, ex, n, k, st=None):
        if st is not None:
            st.store[("arrx", A)] = ex
        return ("rec", F, (("#arr", A), ("#exec", ex), ("#k", ("c", k)), ("#n", n)), None)

    def finfo(I, loc, st, cr=None):
        """(array, executor, size, kind) of the field at loc"""
        o = I.rd(loc, st)
        v = st.nz(o[0].v)
        if v[0] == "rec":
            A = absint.rec_get(v, "#arr")
            if A is not None:
                return A, absint.rec_get(v, "#exec"), absint.rec_get(v, "#n"), absint.rec_get(v, "#k")[1]
        k = elem_kind(cr) or "F"
        n = I.sizes(v, st)
        if n is None:
            n = ("fsize", v)
        return v, I.execs(v, st), n, k
    I.finfo = finfo
    I.newarr = newarr
    I.frec = frec

    @reg(F + "::ctor")
    def fl_ctor(I, f, ob, a, st):
        k = elem_kind(f.cr) or "F"
        pt = f.pt

        def isfield(t):
            return t.strip().tn == F or (t.strip().rec or "").startswith(F + "<")
        if pt and isfield(pt[0]):
            loc = I.loc_of(a[0], st)
            A, ex, n, k2 = finfo(I, loc, st, f.cr)
            if f.ctor == 3 or pt[0].k == "rref":
                v = I.rd(loc, st)[0].v
                outs = I.wr(ob, frec(A, ex, n, k, st), st)
                if v[0] == "rec":
                    B = newarr(I, st, C(0), ("uninit",), "moved")
                    return bind(outs, lambda _, s: I.wr(loc, frec(B, ex, C(0), k), s))
                return outs
            B = newarr(I, st, n, ("of", A, I.content(A, st), C(0)), "copy")
            st.event("fieldcopy", A, B)
            return I.wr(ob, frec(B, ex, n, k, st), st)
        if len(pt) == 2 and isfield(pt[1]):
            loc = I.loc_of(a[1], st)
            A, ex, n, k2 = finfo(I, loc, st, f.cr)
            B = newarr(I, st, n, ("of", A, I.content(A, st), C(0)), "copy")
            st.event("fieldcopy", A, B)
            return bind(I.val(a[0], st), lambda e2, s: I.wr(ob, frec(B, e2, n, k, s), s))

        def go(vs, s):
            if len(vs) == 2 and pt[1].strip().tn == "std::vector":
                v = s.nz(vs[1])
                n = absint.seq_len(v)
                A = newarr(I, s, n, ("vecseq", v), "vector")
                return I.wr(ob, frec(A, vs[0], n, k, s), s)
            if len(vs) == 2:
                A = newarr(I, s, vs[1], ("uninit",))
                return I.wr(ob, frec(A, vs[0], vs[1], k, s), s)
            if len(vs) >= 3 and pt[1].k == "ptr":
                p = vs[1]
                if p[0] == "ptr" and p[1][0][0] == "arr" and p[1][1] and p[1][1][0][0] == "i":
                    c = ("of", p[1][0][1], I.content(p[1][0][1], s), p[1][1][0][1])
                else:
                    c = ("hav", I.fresh("h")[1])
                A = newarr(I, s, vs[2], c, "fromptr")
                s.event("fromptr", A, p, s.nz(vs[3]) if len(vs) > 3 else ("s", "SerialExecutor"))
                return I.wr(ob, frec(A, vs[0], vs[2], k, s), s)
            if len(vs) == 3:
                A = newarr(I, s, vs[1], ("fill", vs[2]), "filled")
                return I.wr(ob, frec(A, vs[0], vs[1], k, s), s)
            return None
        return bind(I.vals(a, st), go)

    @reg(F + "::~")
    def fl_dtor(I, f, ob, a, st):
        return N(VOID, st)

    def vrec(A, off, n, k):
        return ("rec", "NeoFOAM::View", (("#arr", A), ("#k", ("c", k)), ("#len", n), ("#off", off)), None)
    I.vrec = vrec

    @reg(F + "::view")
    def fl_view(I, f, ob, a, st):
        A, ex, n, k = finfo(I, ob, st, f.cr)
        if not a:
            return N(vrec(A, C(0), n, k), st)

        def go(r, s):
            lo, hi = pairv(r)
            if lo is None:
                return N(I.unk("view range"), s)
            s.event("subview", A, lo, hi, n)
            return N(vrec(A, lo, lin_sub(hi, lo), k), s)
        return bind(I.val(a[0], st), go)

    @reg(F + "::size", F + "::ssize")
    def fl_size(I, f, ob, a, st):
        return N(finfo(I, ob, st, f.cr)[2], st)

    @reg(F + "::empty")
    def fl_empty(I, f, ob, a, st):
        return [Out("n", C(b), s) for b, s in I.eqv(finfo(I, ob, st, f.cr)[2], C(0), st)]

    @reg(F + "::range")
    def fl_range(I, f, ob, a, st):
        return N(("pair", C(0), finfo(I, ob, st, f.cr)[2]), st)

    @reg(F + "::exec")
    def fl_exec(I, f, ob, a, st):
        return N(finfo(I, ob, st, f.cr)[1], st)

    @reg(F + "::data")
    def fl_data(I, f, ob, a, st):
        A, ex, n, k = finfo(I, ob, st, f.cr)
        return N(("ptr", (("arr", A, k), (("i", C(0)),))), st)

    @reg(F + "::copyToHost", F + "::copyToExecutor")
    def fl_copy(I, f, ob, a, st):
        A, ex, n, k = finfo(I, ob, st, f.cr)
        B = newarr(I, st, n, ("of", A, I.content(A, st), C(0)), f.n)
        st.event("fieldcopy", A, B)
        if a and f.n == "copyToHost":
            return I.wr(a[0][1], frec(B, S("SerialExecutor"), n, k, st), st)
        if f.n == "copyToHost":
            return N(frec(B, S("SerialExecutor"), n, k, st), st)
        return bind(I.val(a[0], st), lambda e2, s: N(frec(B, e2, n, k, s), s))

    @reg(F + "::operator=")
    def fl_asg(I, f, ob, a, st):
        A, ex, n, k = finfo(I, ob, st, f.cr)
        if f.pt[0].strip().tn == F or (f.pt[0].strip().rec or "").startswith(F + "<"):
            loc = I.loc_of(a[0], st)
            B, ex2, n2, _ = finfo(I, loc, st, f.cr)
            st.event("fieldassign", A, B, n, n2)
            I.setcontent(A, ("of", B, I.content(B, st), C(0)), st)
            if st.nz(n) != st.nz(n2) and A[0] == "new":
                st.store[("arrn", A)] = n2
                return bind(I.wr(ob, frec(A, ex, n2, k), st), lambda _, s: N(("@", ob), s))
            return N(("@", ob), st)

        def go(v, s):
            I.setcontent(A, ("fill", s.nz(v)), s)
            return N(VOID, s)
        return bind(I.val(a[0], st), go)

    @reg(F + "::resize")
    def fl_resize(I, f, ob, a, st):
        A, ex, n, k = finfo(I, ob, st, f.cr)
        return bind(I.vals(a, st), lambda vs, s: I.wr(ob, frec(newarr(I, s, vs[0], ("of", A, I.content(A, s), C(0)), "resized"), ex, vs[0], k, s), s))

    def pairv(r):
        if r[0] == "pair":
            return r[1], r[2]
        if r[0] == "rec":
            a, b = absint.rec_get(r, "first"), absint.rec_get(r, "second")
            if a is not None and b is not None:
                return a, b
        if r[0] in ("s", "fld", "sel", "ret"):
            return ("fld", r, "first"), ("fld", r, "second")
        return None, None
    I.pairv = pairv

    # -------------------------------------------------- View / span
    VW = ("NeoFOAM::View", "std::span")

    def vinfo(I, loc, st, f=None):
        v = st.nz(I.rd(loc, st)[0].v)
        if v[0] == "rec":
            A = absint.rec_get(v, "#arr")
            if A is not None:
                return A, absint.rec_get(v, "#off"), absint.rec_get(v, "#len"), absint.rec_get(v, "#k")[1]
            return None
        if v[0] == "unk":
            return None
        k = elem_kind(f.cr if f is not None else None) or "F"
        n = I.sizes(v, st)
        return v, C(0), n if n is not None else ("fsize", v), k
    I.vinfo = vinfo

    def vw(*names):
        return reg(*[c + "::" + n for c in VW for n in names])

    @vw("ctor", "span", "View")
    def w_ctor(I, f, ob, a, st):
        if ob is None:
            return None

        def go(vs, s):
            if not vs:
                return I.wr(ob, vrec(("new", 0, "empty"), C(0), C(0), "F"), s)
            v = s.nz(vs[0])
            if v[0] == "@":
                v = I.rd(v[1], s)[0].v
            if len(vs) == 1:
                if v[0] == "rec" and absint.rec_get(v, "#len") is not None:
                    return I.wr(ob, v, s)
                if v[0] == "rec" and absint.rec_get(v, "#n") is not None:
                    return I.wr(ob, vrec(absint.rec_get(v, "#arr"), C(0), absint.rec_get(v, "#n"), absint.rec_get(v, "#k")[1]), s)
                if v[0] in ("s", "fld", "deref", "ret"):
                    return I.wr(ob, v, s)
                return I.wr(ob, I.unk("view"), s)
            k = elem_kind(f.cr) or "F"
            w = s.nz(vs[1])
            if v[0] == "ptr" and v[1][0][0] == "arr":
                A, off = v[1][0][1], v[1][1][0][1]
                if w[0] == "ptr" and w[1][0] == v[1][0]:
                    return I.wr(ob, vrec(A, off, lin_sub(w[1][1][0][1], off), v[1][0][2]), s)
                return I.wr(ob, vrec(A, off, w, v[1][0][2]), s)
            if v[0] == "ptr":
                l = v[1]
                off = C(0)
                if l[1] and l[1][-1][0] == "i":
                    off = l[1][-1][1]
                    l = (l[0], l[1][:-1])
                return I.wr(ob, vrec(("mem", l), off, w, k), s)
            if not has_unk(v):
                return I.wr(ob, vrec(v, C(0), w, k), s)
            return I.wr(ob, I.unk("view"), s)
        return bind(I.vals(a, st), go)

    @vw("operator=")
    def w_asg(I, f, ob, a, st):
        return bind(I.vals(a, st), lambda vs, s: bind(I.wr(ob, s.nz(vs[0]), s), lambda _, s2: N(("@", ob), s2)))

    @vw("operator[]")
    def w_idx(I, f, ob, a, st):
        i = vinfo(I, ob, st, f)
        if i is None:
            return N(("@", (I.fresh("unkroot"), ())), st)
        A, off, n, k = i
        k2 = kind_of(f.ret) if f.ret is not None else k
        if k2 != "O":
            k = k2

        def go(vs, s):
            if not s.store.get(LOG) is None:
                s.store[LOG] = s.store[LOG] + (("ix", A, lin_add(off, vs[0]), vs[0], n, s.site()),)
            else:
                s.event("hostindex", A, lin_add(off, vs[0]))
            return N(("@", (("arr", A, k), (("i", lin_add(off, vs[0])),))), s)
        return bind(I.vals(a, st), go)

    @vw("size")
    def w_size(I, f, ob, a, st):
        i = vinfo(I, ob, st, f)
        return N(i[2] if i else I.unk("view"), st)

    @vw("empty")
    def w_empty(I, f, ob, a, st):
        i = vinfo(I, ob, st, f)
        if i is None:
            return None
        return [Out("n", C(b), s) for b, s in I.eqv(i[2], C(0), st)]

    @vw("data")
    def w_data(I, f, ob, a, st):
        i = vinfo(I, ob, st, f)
        return N(("ptr", (("arr", i[0], i[3]), (("i", i[1]),))) if i else I.unk("view"), st)

    @vw("begin", "end", "cbegin", "cend")
    def w_begin(I, f, ob, a, st):
        i = vinfo(I, ob, st, f)
        if i is None:
            return N(I.unk("view"), st)
        return N(("ptr", (("arr", i[0], i[3]), (("i", i[1] if "begin" in f.n else lin_add(i[1], i[2])),))), st)

    @vw("subspan", "first", "last")
    def w_sub(I, f, ob, a, st):
        i = vinfo(I, ob, st, f)
        if i is None:
            return N(I.unk("view"), st)
        A, off, n, k = i

        def go(vs, s):
            if f.n == "first":
                o, c = C(0), vs[0]
            elif f.n == "last":
                o, c = lin_sub(n, vs[0]), vs[0]
            else:
                o = vs[0]
                c = vs[1] if len(vs) > 1 and not (isc(vs[1]) and vs[1][1] in ((1 << 64) - 1, -1)) else lin_sub(n, o)
            s.event("subview", A, lin_add(off, o), lin_add(lin_add(off, o), c), n)
            return N(vrec(A, lin_add(off, o), c, k), s)
        return bind(I.vals(a, st), go)

    # -------------------------------------------------- launches
    def isfieldt(t):
        t = t.strip()
        return t.tn == F or (t.rec or "").startswith(F + "<")

    @reg("NeoFOAM::parallelFor")
    def k_for(I, f, ob, a, st):
        pt = f.pt
        if isfieldt(pt[0]) or isfieldt(pt[1]):
            fi = 0 if isfieldt(pt[0]) else 1
            loc = I.loc_of(a[fi], st)
            A, ex, n, k = finfo(I, loc, st, (pt[fi].strip().rec or pt[fi].strip().s))
            ker = a[fi + 1]
            if fi == 1:
                ex = I.rd(a[0][1], st)[0].v if a[0][0] == "@" else a[0]

            def call(i, s):
                return bind(I.invoke(ker, (i,), s), lambda v, s2: bind(
                    I.val(v, s2), lambda x, s3: I.wr((("arr", A, k), (("i", i),)), x, s3)))
            return I.launch("par", ex, C(0), n, call, st)

        def go(vs, s):
            lo, hi = pairv(vs[0])
            if lo is None:
                s.event("unknownrange")
                I.unmodelled.add("launch range")
                lo, hi = C(0), I.unk("range")
            ex = I.rd(a[0][1], s)[0].v if a[0][0] == "@" else a[0]
            return I.launch("par", ex, lo, hi, lambda i, s2: I.invoke(a[2], (i,), s2), s)
        return bind(I.evs([a[1]], I.val, st), go)

    def reducer(I, valloc, st):
        """(op, location of the result) of a reduction argument"""
        v = st.nz(I.rd(valloc, st)[0].v)
        if v[0] == "rec" and v[1] and v[1].startswith("Kokkos::"):
            r = absint.rec_get(v, "r")
            op = v[1].split("::")[1].split("<")[0]
            return op, r[1] if r is not None and r[0] == "ptr" else None
        return None, valloc

    def finish(op, target):
        def red(I, mark, vals, n, key, s):
            old = C(0)
            if op in ("Max", "Min"):
                old = ("ident", op)
            r = I.accumulate(old, mark, vals, n, key, s)
            s.event("reduced", op, r)
            return I.wr(target, r, s) if target is not None else N(VOID, s)
        return red

    @reg("NeoFOAM::parallelReduce")
    def k_red(I, f, ob, a, st):
        pt = f.pt
        if isfieldt(pt[0]) or isfieldt(pt[1]):
            fi = 0 if isfieldt(pt[0]) else 1
            loc = I.loc_of(a[fi], st)
            A, ex, n, k = finfo(I, loc, st, (pt[fi].strip().rec or ""))
            lo, hi = C(0), n
            ker, val = a[fi + 1], a[fi + 2]
        else:
            lo, hi = pairv(I.val(a[1], st)[0].v)
            ker, val = a[2], a[3]
            ex = I.rd(a[0][1], st)[0].v if a[0][0] == "@" else a[0]
        op, target = reducer(I, I.loc_of(val, st), st)
        return I.launch("reduce", ex, lo, hi, lambda i, s, acc: I.invoke(ker, (i, ("@", acc)), s), st, finish(op, target))

    @reg("NeoFOAM::parallelScan")
    def k_scan(I, f, ob, a, st):
        lo, hi = pairv(I.val(a[1], st)[0].v)
        ex = I.rd(a[0][1], st)[0].v if a[0][0] == "@" else a[0]
        return scan(I, ex, lo, hi, a[2], a[3] if len(a) > 3 else None, st)

    def scan(I, ex, lo, hi, ker, ret, st):
        def red(I, mark, vals, n, key, s):
            return scanfold(I, mark, vals, n, key, lo, s, ret)
        return I.launch("scan", ex, lo, hi, lambda i, s, acc: I.invoke(ker, (i, ("@", acc), C(True)), s), st, red)

    def scanfold(I, mark, vals, n, key, lo, s, ret):
        # update += x(i); with the running total at i being the sum of x over [lo, i]
        m = {}
        good = len(vals) == 1 and not vals[0][0]
        x = None
        if good:
            x = lin_sub(vals[0][1], mark)
            if contains(x, mark):
                x = P.sub(vals[0][1], mark)
            good = not contains(x, mark) and not has_unk(x)
        if good:
            x = I.resolve(x, s)
            lvl, (xb,) = bindkey(key, x)
            # values stored with the marker in them become prefix sums
            for r, c in list(s.store.items()):
                if r[0] == "arrc" and contains(c, mark):
                    if c[0] == "map":
                        l2 = maxbk(c) + 1
                        pre = ("prefix", l2, subst(x, {key: ("bk", l2)}), ("bk", c[3]))   # sum over k < bk
                        s.store[r] = subst(c, {mark: pre})
                    else:
                        s.store[r] = ("hav", I.fresh("h")[1])
            tot = ("prefix", lvl, xb, n)
        else:
            for r, c in list(s.store.items()):
                if r[0] == "arrc" and contains(c, mark):
                    s.store[r] = ("hav", I.fresh("h")[1])
            tot = I.unk("scan")
        if ret is not None:
            return I.wr(I.loc_of(ret, s), tot, s)
        return N(VOID, s)

    @reg("Kokkos::RangePolicy::ctor")
    def k_pol(I, f, ob, a, st):
        return bind(I.vals(a, st), lambda vs, s: I.wr(ob, ("rec", "Kokkos::RangePolicy", tuple(sorted((
            ("b", vs[0] if len(vs) > 1 else C(0)), ("e", vs[1] if len(vs) > 1 else vs[0]),
            ("space", C(f.cr or ""))))), None), s) if vs and f.ctor not in (2, 3) else I.wr(ob, vs[0] if vs else I.unk("policy"), s))

    def policy(I, a, st):
        vs = [(x, st.nz(I.val(x, st)[0].v)) for x in a]
        for j, (x, v) in enumerate(vs):
            if v[0] == "rec" and v[1] == "Kokkos::RangePolicy":
                return j, absint.rec_get(v, "b"), absint.rec_get(v, "e"), absint.rec_get(v, "space")
        return None

    @reg("Kokkos::parallel_for", "Kokkos::parallel_reduce", "Kokkos::parallel_scan")
    def k_raw(I, f, ob, a, st):
        p = policy(I, a, st)
        if p is None:
            I.unmodelled.add("launch policy")
            return None
        j, lo, hi, sp = p
        rest = a[j + 1:]
        if f.n == "parallel_for":
            return I.launch("par", sp, lo, hi, lambda i, s: I.invoke(rest[0], (i,), s), st)
        if f.n == "parallel_reduce":
            op, target = reducer(I, I.loc_of(rest[1], st), st)
            return I.launch("reduce", sp, lo, hi, lambda i, s, acc: I.invoke(rest[0], (i, ("@", acc)), s), st, finish(op, target))
        return scan(I, sp, lo, hi, rest[0], rest[1] if len(rest) > 1 else None, st)

    for R in ("Max", "Min", "Sum"):
        def r_ctor(I, f, ob, a, st, R=R):
            return I.wr(ob, ("rec", "Kokkos::" + R, (("r", ("ptr", I.loc_of(a[0], st))),), None), st)

        def r_ref(I, f, ob, a, st):
            v = st.nz(I.rd(ob, st)[0].v)
            r = absint.rec_get(v, "r") if v[0] == "rec" else None
            return N(("@", r[1]), st) if r is not None and r[0] == "ptr" else N(("@", (I.fresh("unkroot"), ())), st)
        def r_init(I, f, ob, a, st, R=R):
            return I.wr(a[0][1], ("ident", R) if R in ("Max", "Min") else P.const(0), st) if a and a[0][0] == "@" else None
        M["Kokkos::%s::init" % R] = r_init
        M["Kokkos::%s::ctor" % R] = r_ctor
        M["Kokkos::%s::reference" % R] = r_ref

    # -------------------------------------------------- atomics
    def atomic(sign, form):
        def m(I, f, ob, a, st):
            def go(vs, s):
                p = s.nz(vs[0])
                v = s.nz(vs[1]) if len(vs) > 1 else C(1)
                if p[0] != "ptr":
                    I.unmodelled.add("atomic on an unknown address")
                    return N(I.unk("atomic"), s)
                root, path = p[1]
                if root[0] != "arr" or len(path) != 1 or form == "set":
                    if root[0] == "arr":
                        I.note(s, "aset", root[1], s.nz(path[0][1]), v)
                    return bind(I.wr(p[1], v if form == "set" else I.unk("atomic"), s), lambda _, s2: N(I.unk("atomic"), s2))
                idx = s.nz(path[0][1])
                d = v if sign > 0 else (P.neg(v) if not has_unk(v) else v)
                if not I.note(s, "a", root[1], idx, d):
                    s.event("hostatomic", root[1], idx)
                    I.setcontent(root[1], ("hav", I.fresh("h")[1]), s)
                if form == "fetch":
                    return N(("fetched", root[1], idx, I.fresh("q")[1]), s)
                return N(VOID, s)
            return bind(I.vals(a, st), go)
        return m
    M["Kokkos::atomic_add"] = M["Kokkos::atomic_increment"] = atomic(1, "")
    M["Kokkos::atomic_sub"] = M["Kokkos::atomic_decrement"] = atomic(-1, "")
    M["Kokkos::atomic_fetch_add"] = M["Kokkos::atomic_fetch_inc"] = M["Kokkos::atomic_inc_fetch"] = M["Kokkos::atomic_add_fetch"] = atomic(1, "fetch")
    M["Kokkos::atomic_fetch_sub"] = M["Kokkos::atomic_sub_fetch"] = atomic(-1, "fetch")
    M["Kokkos::atomic_assign"] = M["Kokkos::atomic_store"] = M["Kokkos::atomic_exchange"] = atomic(1, "set")

    @reg("Kokkos::fence")
    def k_fence(I, f, ob, a, st):
        return N(VOID, st)
