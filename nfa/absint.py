"""Forward abstract interpretation of the exported ASTs.

The abstract state maps storage locations to *provenance terms* (which input, container slot
or constant a value came from) and carries a finite set of typestate facts: key present or
absent in a container, dynamic type of a stored value, order between indices, equality.
States are kept apart per fact (disjunctive completion); loops are summarised by one pass over
a generic element and a classification of what that pass changes, with havoc as the fallback.
Nothing of the program is executed and no solver is involved.  Whatever the domain cannot
express becomes an `unk` term; a rule that meets one reports "undecided", never a violation.
"""
import re
from .ir import bare, walk

LIM_STATES = 4000
LIM_DEPTH = 48


class Undecided(Exception):
    pass


# ------------------------------------------------------------------ terms
NULL = ("c", None)
TRUE = ("c", True)
FALSE = ("c", False)
VOID = ("void",)


def C(v):
    return ("c", v)


def S(name):
    return ("s", name)


def isc(v):
    return v[0] == "c"


READERS = re.compile("find|count|(any|all|none)_of|search|equal|mismatch|distance|(max|min|minmax)_element|is_|adjacent|"
                     "(lower|upper)_bound|equal_range|binary_search|accumulate|reduce|inner_product|next|prev|begin|end")


def isbool(e):
    """the expression is a boolean, seen through the integer promotions of a comparison"""
    while e["k"] == "cast" or e["k"] == "paren":
        if e["t"].strip().k == "bool":
            return True
        e = e["e"]
    return "t" in e and hasattr(e["t"], "strip") and e["t"].strip().k == "bool"


def lin_parts(t):
    """(const, {term: coef}) of an integer term, or None"""
    if t[0] == "c":
        if isinstance(t[1], bool):
            return int(t[1]), {}
        if isinstance(t[1], int):
            return t[1], {}
        return None
    if t[0] == "lin":
        return t[1], dict(t[2])
    return 0, {t: 1}


def mklin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return ("c", c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ("lin", c, tuple(sorted(d.items(), key=repr)))


def lin_add(a, b, sb=1):
    pa, pb = lin_parts(a), lin_parts(b)
    if pa is None or pb is None:
        return ("op", "+" if sb == 1 else "-", a, b)
    d = dict(pa[1])
    for k, v in pb[1].items():
        d[k] = d.get(k, 0) + sb * v
    return mklin(pa[0] + sb * pb[0], d)


def lin_sub(a, b):
    return lin_add(a, b, -1)


def contains(t, x):
    if t == x:
        return True
    if isinstance(t, (tuple, frozenset)):
        for y in t:
            if isinstance(y, (tuple, frozenset)) and contains(y, x):
                return True
    return False


def has_unk(t):
    if isinstance(t, (tuple, frozenset)):
        if isinstance(t, tuple) and t and t[0] in ("unk", "part"):
            return True
        for y in t:
            if isinstance(y, (tuple, frozenset)) and has_unk(y):
                return True
    return False


def subst(t, m):
    if isinstance(t, tuple):
        if t in m:
            return m[t]
        r = tuple(subst(x, m) if isinstance(x, (tuple, frozenset)) else x for x in t)
        if r != t:
            return renorm(r)
        return t
    if isinstance(t, frozenset):
        return frozenset(subst(x, m) for x in t)
    return t


def renorm(t):
    """re-establish normal forms after a substitution"""
    if t and t[0] == "lin":
        d, c = {}, t[1]
        for k, v in t[2]:
            p = lin_parts(k)
            if p is None:
                d[k] = d.get(k, 0) + v
                continue
            c += p[0] * v
            for kk, vv in p[1].items():
                d[kk] = d.get(kk, 0) + vv * v
        return mklin(c, d)
    if t and t[0] == "cat":
        return mkcat(t[1])
    return t


def mkcat(parts):
    out = []
    for p in parts:
        for q in (p[1] if p[0] == "cat" else (p,)):
            if q == ("c", ""):
                continue
            if out and out[-1][0] == "c" and q[0] == "c":
                out[-1] = ("c", str(out[-1][1]) + str(q[1]))
            else:
                out.append(q)
    if not out:
        return ("c", "")
    if len(out) == 1:
        return out[0]
    return ("cat", tuple(out))


def rec_get(v, f):
    for k, x in v[2]:
        if k == f:
            return x
    return None


def rec_set(v, f, x):
    """functional update of a field; a symbolic object becomes rec(base=symbol)"""
    if v[0] != "rec":
        v = ("rec", None, (), v)
    if v[3] is not None and x == ("fld", v[3], f):
        items = tuple((k, y) for k, y in v[2] if k != f)
        if not items:
            return v[3]
        return ("rec", v[1], items, v[3])
    items = tuple(sorted([(k, y) for k, y in v[2] if k != f] + [(f, x)], key=lambda kv: kv[0]))
    return ("rec", v[1], items, v[3])


def REC(cls, **kw):
    return ("rec", cls, tuple(sorted(kw.items())), None)


EMPTYMAP = ("map", None, ())


def explicit_keys(R):
    """the keys of a map whose few entries are all written out, else None"""
    if R[0] != "map" or R[1] is not None or len(R[2]) > 6:
        return None
    if len(R[2]) > 1 and all(k[0] == "c" for k, _ in R[2]):
        d = {}
        for k, x in R[2]:
            d.pop(k, None)
            if x is not None:
                d[k] = x
        return list(d)
    return [k for k, x in R[2] if x is not None]


EMPTYSEQ = ("seq", ())


def as_map(v):
    if v[0] == "map":
        return v
    return ("map", v, ())


def map_put(m, k, x):
    m = as_map(m)
    if x is not None and m[1] is not None and not m[2] and x == ("sel", m[1], k):
        return m[1]
    w = tuple((kk, y) for kk, y in m[2] if kk != k) + ((k, x),)
    return ("map", m[1], w)


def SIZE(b):
    if b[0] == "sorted":
        return SIZE(b[1])
    if b[0] == "seq":
        return seq_len(b)
    return ("size", b)


def comp_len(p):
    """number of elements of a comprehension part"""
    if p[0] == "comp" and len(p[3]) == 1:
        facts, pushed = p[3][0]
        if not facts and all(x[0] == "e" for x in pushed):
            c, m = lin_parts(SIZE(p[1]))
            return mklin(c * len(pushed), {k: v * len(pushed) for k, v in m.items()})
    return ("len", p)


def as_seq(v):
    if v[0] == "seq":
        return v
    return ("seq", (("sl", v, C(0), SIZE(v)),))


def norm_seq(parts):
    out = []
    for p in parts:
        if p[0] == "sl" and p[2] == p[3]:
            continue
        if out and p[0] == "sl" and out[-1][0] == "sl" and out[-1][1] == p[1] and out[-1][3] == p[2]:
            out[-1] = ("sl", p[1], out[-1][2], p[3])
            continue
        out.append(p)
    if len(out) == 1 and out[0][0] == "sl" and out[0][2] == C(0) and out[0][3] == SIZE(out[0][1]):
        return out[0][1]
    return ("seq", tuple(out))


def seq_len(v):
    if v[0] == "op" and v[1] == "resize":
        return v[3]
    if v[0] != "seq":
        return SIZE(v)
    n = C(0)
    for p in v[1]:
        if p[0] == "e":
            n = lin_add(n, C(1))
        elif p[0] == "sl":
            n = lin_add(n, lin_sub(p[3], p[2]))
        else:
            n = lin_add(n, comp_len(p))
    return n


def EXC(t, *info):
    return ("exc", t) + tuple(info)


# ------------------------------------------------------------------ state
class St:
    __slots__ = ("store", "facts", "env", "this", "eff", "trace", "sub", "fn", "line", "stack", "cur", "dead")

    def __init__(self):
        self.store = {}
        self.facts = {}
        self.env = {}
        self.this = None
        self.eff = ()
        self.trace = ()
        self.sub = {}
        self.fn = None
        self.line = 0
        self.stack = ()
        self.cur = ()     # exceptions being handled
        self.dead = False

    def clone(self):
        s = St()
        s.store = dict(self.store)
        s.facts = dict(self.facts)
        s.env = dict(self.env)
        s.this = self.this
        s.eff = self.eff
        s.trace = self.trace
        s.sub = dict(self.sub)
        s.fn, s.line, s.stack, s.cur, s.dead = self.fn, self.line, self.stack, self.cur, self.dead
        return s

    def event(self, *e):
        self.eff = self.eff + ((e, self.site()),)

    def site(self):
        f = self.fn
        return "%s:%s" % (f.file if f else "?", self.line), (f.q if f else "?")

    def nz(self, t):
        for _ in range(4):
            n = subst(t, self.sub) if self.sub else t
            if n == t:
                return n
            t = n
        return t

    def apply(self, a, b):
        """equality a == b learnt: rewrite a to b everywhere"""
        m = {a: b}
        self.sub = {k: subst(v, m) for k, v in self.sub.items()}
        self.sub[a] = b
        self.store = {k if not contains(k, a) else subst(k, m): subst(v, m) for k, v in self.store.items()}
        nf = {}
        for k, v in self.facts.items():
            nk = normfact(subst(k, m))
            if nk[0] == "eq" and (nk[1] == nk[2] and not v or
                                  nk[1][0] == "c" == nk[2][0] and nk[1] != nk[2] and v):
                self.dead = True
            if nf.setdefault(nk, v) != v:
                self.dead = True        # the equality contradicts what the path already knows
        self.facts = nf
        self.env = {k: subst(v, m) for k, v in self.env.items()}
        if self.this is not None:
            self.this = subst(self.this, m)
        self.eff = tuple((subst(e, m), s) for e, s in self.eff)


def normfact(k):
    if k[0] == "eq" and repr(k[1]) > repr(k[2]):
        return ("eq", k[2], k[1])
    if k[0] == "eq0":
        n = lin_sub(C(0), k[1])
        return ("eq0", min(k[1], n, key=repr))
    return k


class Out:
    """one outcome: kind n(ormal) r(eturn) b(reak) c(ontinue) t(hrow) x(exit)"""
    __slots__ = ("k", "v", "st")

    def __init__(self, k, v, st):
        self.k, self.v, self.st = k, v, st

    def __repr__(self):
        return "<%s %r>" % (self.k, self.v)


def N(v, st):
    return [Out("n", v, st)]


def bind(outs, f):
    r = []
    for o in outs:
        if o.k == "n":
            r.extend(f(o.v, o.st))
        else:
            r.append(o)
    return r


STD_EXC_BASES = {
    "std::out_of_range": ["std::logic_error", "std::exception"],
    "std::invalid_argument": ["std::logic_error", "std::exception"],
    "std::length_error": ["std::logic_error", "std::exception"],
    "std::domain_error": ["std::logic_error", "std::exception"],
    "std::logic_error": ["std::exception"],
    "std::runtime_error": ["std::exception"],
    "std::range_error": ["std::runtime_error", "std::exception"],
    "std::bad_cast": ["std::exception"],
    "std::bad_any_cast": ["std::bad_cast", "std::exception"],
    "std::bad_typeid": ["std::exception"],
    "std::bad_alloc": ["std::exception"],
    "std::bad_function_call": ["std::exception"],
    "std::bad_optional_access": ["std::exception"],
    "std::bad_variant_access": ["std::exception"],
}


INTS = ("int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "short", "unsigned short",
        "unsigned char", "signed char", "char", "size_t", "std::size_t")


class Interp:
    def __init__(self, prog):
        self.P = prog
        self.cnt = 0
        self.nstates = 0
        self.unmodelled = set()
        self.constg = set()      # roots of constant globals
        self.covered = set()      # functions analysed
        self.models = {}
        self.narrow32 = False    # 64-bit values converted to 32 bits may change
        self.fnthrow = {}        # callable value -> exception it throws
        self.loopdepth = 0
        from . import stdmodels
        stdmodels.install(self)

    # -------------------------------------------------------------- utilities
    def fresh(self, tag):
        self.cnt += 1
        return (tag, self.cnt)

    def unk(self, why=""):
        self.cnt += 1
        return ("unk", self.cnt, why)

    def tick(self):
        self.nstates += 1
        if self.nstates > LIM_STATES * 40:
            raise Undecided("state budget")

    def tmp(self, v, st):
        r = self.fresh("t")
        st.store[r] = v
        return (r, ())

    def derives(self, a, b):
        if a == b:
            return True
        if b in STD_EXC_BASES.get(a, ()):
            return True
        return b in self.P.bases(a) or any(b in STD_EXC_BASES.get(x, ()) for x in self.P.bases(a))

    # -------------------------------------------------------------- facts
    def fork(self, st, key, note=None):
        """split on a fact; returns [(truth, state)]"""
        if key in st.facts:
            return [(st.facts[key], st)]
        self.tick()
        s2 = st.clone()
        st.facts[key] = True
        s2.facts[key] = False
        st.trace = st.trace + ((st.line, key, True),)
        s2.trace = s2.trace + ((s2.line, key, False),)
        return [(True, st), (False, s2)]

    def assume(self, st, key, val):
        if st.facts.get(key, val) != val:
            return False
        st.facts[key] = val
        return True

    def nonneg(self, t):
        return t[0] in ("size", "len", "eidx", "s", "count", "op")

    def pos(self, d, st):
        """[(d > 0, state)] for an integer term d"""
        d = st.nz(d)
        p = lin_parts(d)
        if p is None:
            return self.fork(st, ("truth", ("op", ">0", d)))
        c, m = p
        r = self.decide_pos(c, m, st)
        if r is not None:
            return [(r, st)]
        return self.fork(st, ("pos", d))

    def decide_pos(self, c, m, st):
        if not m:
            return c > 0

        def nn(cc, mm):
            return cc >= 0 and all(v >= 0 and self.nonneg(k) for k, v in mm.items())

        def np(cc, mm):
            return cc <= 0 and all(v <= 0 and self.nonneg(k) for k, v in mm.items())
        if c > 0 and nn(c, m):
            return True
        if np(c, m):
            return False
        if c < -(1 << 62) and all(self.nonneg(k) for k in m) and c + sum(v for v in m.values() if v > 0) * ((1 << 64) - 1) <= 0:
            return False                    # no 64-bit value is that large
        for k, v in st.facts.items():
            if k[0] == "eq0" and v:
                pc, pm = lin_parts(k[1])
                for sg in (1, -1):
                    dd = dict(m)
                    for kk, vv in pm.items():
                        dd[kk] = dd.get(kk, 0) + sg * vv
                    dd = {a: b for a, b in dd.items() if b}
                    if len(dd) < len(m) or not dd:
                        if c + sg * pc > 0 and nn(c + sg * pc, dd):
                            return True
                        if np(c + sg * pc, dd):
                            return False
            if k[0] != "pos":
                continue
            pc, pm = lin_parts(k[1])
            dd = dict(m)
            for kk, vv in pm.items():
                dd[kk] = dd.get(kk, 0) - vv
            dd = {a: b for a, b in dd.items() if b}
            if v and nn(c - pc, dd):
                return True
            if not v and np(c - pc, dd):
                return False
            # d' <= 0  gives  -d' + 1 > 0
            if not v:
                dd = dict(m)
                for kk, vv in pm.items():
                    dd[kk] = dd.get(kk, 0) + vv
                dd = {a: b for a, b in dd.items() if b}
                if nn(c + pc - 1, dd):
                    return True
            else:
                # d' >= 1 : d <= 0 if d + d' <= 1
                dd = dict(m)
                for kk, vv in pm.items():
                    dd[kk] = dd.get(kk, 0) + vv
                dd = {a: b for a, b in dd.items() if b}
                if np(c + pc - 1, dd):
                    return False
        # two facts together: every fact is a form known to be >= 0
        ge = []
        for k, v in st.facts.items():
            if k[0] == "pos":
                pc, pm = lin_parts(k[1])
                ge.append((pc - 1, pm) if v else (-pc, {a: -b for a, b in pm.items()}))
        if 1 < len(ge) <= 24:
            for goal, rest0 in ((True, (c - 1, m)), (False, (-c, {a: -b for a, b in m.items()}))):
                gc, gm = rest0
                for i, (c1, m1) in enumerate(ge):
                    if not any(a in m1 and gm[a] * m1[a] > 0 for a in gm):
                        continue
                    r1 = dict(gm)
                    for a, b in m1.items():
                        r1[a] = r1.get(a, 0) - b
                    neg = [a for a, b in r1.items() if b < 0]
                    if not neg:
                        continue
                    for c2, m2 in ge[:i] + ge[i + 1:]:
                        if not all(a in m2 and m2[a] <= r1[a] for a in neg):
                            continue
                        r2 = dict(r1)
                        for a, b in m2.items():
                            r2[a] = r2.get(a, 0) - b
                        if nn(gc - c1 - c2, {a: b for a, b in r2.items() if b}):
                            return goal
        return None

    def less(self, a, b, st):
        return self.pos(lin_sub(b, a), st)

    def eqv(self, a, b, st):
        """[(a == b, state)]"""
        a, b = st.nz(a), st.nz(b)
        if a == b:
            return [(True, st)]
        if a[0] == "c" and b[0] == "c":
            if a[1] is None or b[1] is None:
                return [(a[1] is b[1], st)]
            return [(a[1] == b[1], st)]
        for x, y in ((a, b), (b, a)):
            if x[0] == "ptr" and y == NULL:
                return [(False, st)]
            if x[0] == "uptr":
                return self.eqv(x[1], y, st)
            if x[0] in ("lam", "fn") and y == NULL:
                return [(False, st)]
            if x[0] == "typeid" and y[0] == "anytype":
                return self.anytype(y[1], x[1], st)
            if x[0] == "anytype" and y[0] == "typeid":
                return self.anytype(x[1], y[1], st)
        if a[0] == "ptr" and b[0] == "ptr":
            ra, rb = a[1][0], b[1][0]
            own = ("t", "v", "h", "p", "g")
            if ra != rb and ra[0] in own and rb[0] in own:
                return [(False, st)]
        if a[0] == "typeid" and b[0] == "typeid":
            return [(a[1] == b[1], st)]
        if a[0] == "it" and b[0] == "it":
            return self.iteq(a, b, st)
        if a[0] == "elt" and b[0] == "elt" and a[1] == b[1]:
            d = lin_sub(a[2], b[2])
            if isc(d) and d[1] == 0:
                return [(True, st)]
            c, m = lin_parts(d)
            if self.decide_pos(c, m, st) is False and self.decide_pos(-c, {k: -v for k, v in m.items()}, st) is False:
                return [(True, st)]
        pa, pb = lin_parts(a), lin_parts(b)
        if pa is not None and pb is not None and (a[0] == "lin" or b[0] == "lin"
                                                  or a[0] in ("size", "eidx", "len")
                                                  or b[0] in ("size", "eidx", "len")):
            d = lin_sub(a, b)
            if isc(d):
                return [(d[1] == 0, st)]
            c, m = lin_parts(d)
            up = self.decide_pos(c, m, st)
            dn = self.decide_pos(-c, {k: -v for k, v in m.items()}, st)
            if up or dn:
                return [(False, st)]
            if up is False and dn is False:
                return [(True, st)]
            nd = lin_sub(b, a)
            key = ("eq0", min(d, nd, key=repr))
            r = self.fork(st, key)
            for truth, s in r:
                if not truth:
                    # a != b with a <= b known gives a < b
                    if up is False:
                        s.facts[("pos", nd)] = True
                    elif dn is False:
                        s.facts[("pos", d)] = True
            return r
        if a[0] == "cat" or b[0] == "cat":
            r = self.streq(a, b, st)
            if r is not None:
                return r
        for x, y in ((a, b), (b, a)):
            if isc(y) and y[1] == 0 and not isinstance(y[1], float) and ("truth", x) in st.facts:
                return [(not st.facts[("truth", x)], st)]
        if repr(a) > repr(b):
            a, b = b, a
        key = ("eq", a, b)
        known = key in st.facts
        r = self.fork(st, key)
        if not known:
            for t, s in r:
                if t:
                    self.learn_eq(a, b, s)
            r = [(t, s) for t, s in r if not s.dead]
        return r

    def streq(self, a, b, st):
        """comparison of strings put together from parts, where the parts decide"""
        def parts(t):
            r = []
            for p in (t[1] if t[0] == "cat" else (t,)):
                if p[0] == "c" and not isinstance(p[1], str):
                    return None
                r += [("c", ch) for ch in p[1]] if p[0] == "c" else [p]
            return r
        x, y = parts(a), parts(b)
        if x is None or y is None:
            return None

        def nonempty(p):
            return p[0] == "c" or p[:2] == ("op", "to_string")
        while x and y and x[0] == y[0]:
            x, y = x[1:], y[1:]
        while x and y and x[-1] == y[-1]:
            x, y = x[:-1], y[:-1]
        if not x and not y:
            return [(True, st)]
        if not x or not y:
            return [(False, st)] if any(nonempty(p) for p in x + y) else None
        for i in (0, -1):
            if x[i][0] == "c" and y[i][0] == "c":
                return [(False, st)]
        if len(x) == 1 and len(y) == 1 and x[0][:2] == ("op", "to_string") and y[0][:2] == ("op", "to_string"):
            return self.eqv(x[0][2], y[0][2], st)
        return None

    def learn_eq(self, a, b, s):
        # prefer rewriting generic elements, then plain inputs that the other side does not mention
        order = [(a, b), (b, a)]
        for x, y in order:
            if x[0] in ("ekey", "eval") and not contains(y, x):
                s.apply(x, y)
                return
        for x, y in order:
            if x[0] in ("ret", "s", "sel", "fld", "elt", "anyval") and y[0] == "c":
                s.apply(x, y)
                return
        for x, y in order:
            if x[0] in ("s",) and not contains(y, x):
                s.apply(x, y)
                return
        for x, y in order:
            if x[0] in ("fld", "sel", "elt", "anyval", "deref") and y[0] in ("s", "fld", "sel", "elt", "anyval") \
                    and not contains(y, x):
                s.apply(x, y)
                return

    def truth(self, v, st):
        v = st.nz(v)
        if isc(v):
            return [(bool(v[1]), st)]
        z = ("truth", v) not in st.facts and (st.facts.get(("eq", v, C(0))), st.facts.get(("eq", C(0), v)))
        if z and z != (None, None):
            return [(not (z[0] if z[0] is not None else z[1]), st)]
        if v[0] in ("ptr", "lam", "fn"):
            return [(True, st)]
        if v[0] == "uptr":
            return self.truth(v[1], st)
        if v[0] == "op" and v[1] == "!":
            return [(not b, s) for b, s in self.truth(v[2], st)]
        if v[0] == "lin":
            return [(not b, s) for b, s in self.eqv(v, C(0), st)]
        if v[0] == "unk":
            self.tick()
            st.facts[("taint",)] = True
            s2 = st.clone()
            return [(True, st), (False, s2)]
        return self.fork(st, ("truth", v))

    def boolean(self, pairs):
        return [Out("n", C(b), s) for b, s in pairs]

    # -------------------------------------------------------------- containers
    def has(self, m, k, st):
        m, k = st.nz(m), st.nz(k)
        if m[0] == "ilistmap":
            return self.fork(st, ("has", m, k))
        m = as_map(m)

        def go(i, st):
            if i < 0:
                if m[1] is None:
                    return [(False, st)]
                base = st.nz(m[1])
                kk = st.nz(k)
                if kk[0] == "ekey" and kk[1] in (m, base):
                    return [(True, st)]
                if st.facts.get(("isempty", base)) is True:
                    return [(False, st)]
                sz = lin_parts(SIZE(base))
                if sz is not None and self.decide_pos(sz[0], sz[1], st) is False:
                    return [(False, st)]
                r = self.fork(st, ("has", base, kk))
                for b, s in r:
                    if b:
                        s.facts.setdefault(("isempty", base), False)
                        s.facts.setdefault(("pos", SIZE(base)), True)
                return r
            wk, wv = m[2][i]
            res = []
            for b, s in self.eqv(wk, k, st):
                if b:
                    res.append((wv is not None, s))
                else:
                    res.extend(go(i - 1, s))
            return res
        return go(len(m[2]) - 1, st)

    def select(self, m, k, st):
        """outcomes of the value at key k, which is known to be present"""
        m, k = st.nz(m), st.nz(k)
        m = as_map(m)

        def go(i, st):
            if i < 0:
                if m[1] is None:
                    return N(self.unk("select in empty map"), st)
                return N(st.nz(("sel", m[1], k)), st)
            wk, wv = m[2][i]
            res = []
            for b, s in self.eqv(wk, k, st):
                if b:
                    res.extend(N(s.nz(wv) if wv is not None else self.unk("erased"), s))
                else:
                    res.extend(go(i - 1, s))
            return res
        return go(len(m[2]) - 1, st)

    def map_size(self, m, st):
        """[(size term, state)]"""
        m = as_map(st.nz(m))

        def go(i, st):
            if i < 0:
                if m[1] is None:
                    return [(C(0), st)]
                sz = SIZE(st.nz(m[1]))
                if st.facts.get(("isempty", sz[1])) is False:
                    st.facts[("pos", sz)] = True
                elif st.facts.get(("isempty", sz[1])) is True:
                    return [(C(0), st)]
                return [(sz, st)]
            wk, wv = m[2][i]
            below = ("map", m[1], m[2][:i])
            res = []
            for n, s in go(i - 1, st):
                for b, s2 in self.has(below, wk, s):
                    if wv is None:
                        res.append((lin_sub(n, C(1)) if b else n, s2))
                    else:
                        res.append((n if b else lin_add(n, C(1)), s2))
            return res
        return go(len(m[2]) - 1, st)

    def map_empty(self, m, st):
        m = as_map(st.nz(m))
        if not m[2]:
            if m[1] is None:
                return [(True, st)]
            if st.facts.get(("has", m[1])) is True:
                return [(False, st)]
            return self.fork(st, ("isempty", m[1]))
        if m[2][-1][1] is not None:
            return [(False, st)]
        res = []
        for n, s in self.map_size(m, st):
            res.extend([(not b, s2) for b, s2 in self.pos(n, s)])
        return res

    def seq_at(self, v, i, st):
        """[(value|None, path position, state)]; None when out of range"""
        v = as_seq(st.nz(v))
        i = st.nz(i)

        def go(pi, off, st):
            if pi >= len(v[1]):
                return [(None, None, st)]
            p = v[1][pi]
            res = []
            if p[0] == "e":
                for b, s in self.eqv(off, C(0), st):
                    if b:
                        res.append((p[1], ("part", pi), s))
                    else:
                        res.extend(go(pi + 1, lin_sub(off, C(1)), s))
                return res
            if p[0] == "sl":
                ln = lin_sub(p[3], p[2])
                for b, s in self.less(off, ln, st):
                    if b:
                        res.append((("elt", p[1], lin_add(p[2], off)), ("sl", pi), s))
                    else:
                        res.extend(go(pi + 1, lin_sub(off, ln), s))
                return res
            # a comprehension or an unknown part
            for b, s in self.less(off, comp_len(p), st):
                if b:
                    res.append((("elt", ("seq", (p,)), off), None, s))
                else:
                    res.extend(go(pi + 1, lin_sub(off, comp_len(p)), s))
            return res
        return go(0, i, st)

    def seq_erase(self, v, i, st):
        """[(new value|None, state)]"""
        v = as_seq(st.nz(v))

        def go(pi, off, st):
            if pi >= len(v[1]):
                return [(None, st)]
            p = v[1][pi]
            res = []
            if p[0] == "e":
                for b, s in self.eqv(off, C(0), st):
                    if b:
                        res.append((norm_seq(v[1][:pi] + v[1][pi + 1:]), s))
                    else:
                        res.extend(go(pi + 1, lin_sub(off, C(1)), s))
                return res
            if p[0] == "sl":
                ln = lin_sub(p[3], p[2])
                for b, s in self.less(off, ln, st):
                    if b:
                        at = lin_add(p[2], off)
                        np = (("sl", p[1], p[2], at), ("sl", p[1], lin_add(at, C(1)), p[3]))
                        res.append((norm_seq(v[1][:pi] + np + v[1][pi + 1:]), s))
                    else:
                        res.extend(go(pi + 1, lin_sub(off, ln), s))
                return res
            return [(self.unk("erase in a summarised part"), st)]
        return go(0, i, st)

    def anytype(self, v, t, st):
        """[(stored type == t, state)]"""
        v = st.nz(v)
        if v[0] == "any":
            return [(v[1] == t, st)]
        if v == ("any0",):
            return [(False, st)]
        for k, b in st.facts.items():
            if k[0] == "anytype" and k[1] == v and b and k[2] != t:
                return [(False, st)]
        return self.fork(st, ("anytype", v, t))

    # -------------------------------------------------------------- memory
    def initial(self, root):
        if root[0] == "deref":
            return ("deref", root[1])
        if root[0] == "g":
            return ("glob", root[1])
        return ("unk", 0, "uninitialised %r" % (root,))

    def rd(self, loc, st):
        root, path = loc
        v = st.store.get(root)
        if v is None:
            v = self.initial(root)
        return self.selp(v, path, st)

    def selp(self, v, path, st):
        if not path:
            return N(st.nz(v), st)
        s = path[0]
        rest = path[1:]
        return bind(self.sel1(v, s, st), lambda x, st2: self.selp(x, rest, st2))

    def sel1(self, v, s, st):
        v = st.nz(v)
        k = s[0]
        if v[0] == "unk":
            return N(self.unk(v[2] if len(v) > 2 else ""), st)
        if k == "f":
            if v[0] == "rec":
                x = rec_get(v, s[1])
                if x is not None:
                    return N(x, st)
                if v[3] is not None:
                    return N(st.nz(("fld", v[3], s[1])), st)
                return N(self.unk("field %s not set" % s[1]), st)
            if v[0] in ("pair",):
                return N(v[1] if s[1] == "first" else v[2], st)
            if v[0] == "map":
                return N(self.unk("field of map"), st)
            return N(st.nz(("fld", v, s[1])), st)
        if k == "k":
            return self.select(v, s[1], st)
        if k == "p":
            return bind(self.select(v, s[1], st), lambda x, st2: N(("pair", st2.nz(s[1]), x), st2))
        if k == "i":
            r = []
            for x, pos, s2 in self.seq_at(v, s[1], st):
                if x is None and not s2.facts.get(("taint",)) and not any(has_unk(k) for k in s2.facts):
                    s2.event("oob", v, s[1])
                r.extend(N(x if x is not None else self.unk("index out of range"), s2))
            return r
        if k == "a":
            if v[0] == "any":
                return N(v[2] if v[1] == s[1] else self.unk("any type"), st)
            return N(st.nz(("anyval", v, s[1])), st)
        if k == "o":
            if v[0] == "opt":
                return N(v[1], st)
            return N(("optval", v), st)
        if k == "t":
            if v[0] == "tuple":
                return N(v[1][s[1]], st)
            return N(("fld", v, str(s[1])), st)
        return N(self.unk("path"), st)

    def wr(self, loc, val, st):
        root, path = loc
        v = st.store.get(root)
        if v is None:
            v = self.initial(root)

        def done(nv, st2):
            st2.store[root] = nv
            return N(VOID, st2)
        return bind(self.upd(v, path, val, st), done)

    def upd(self, v, path, val, st):
        if not path:
            return N(val, st)
        s, rest = path[0], path[1:]
        if rest:
            return bind(self.sel1(v, s, st), lambda x, st2: bind(
                self.upd(x, rest, val, st2), lambda nx, st3: self.upd1(st3.nz(v), s, nx, st3)))
        return self.upd1(st.nz(v), s, val, st)

    def upd1(self, v, s, x, st):
        k = s[0]
        if v[0] == "unk":
            return N(v, st)
        if k == "f":
            if v[0] == "pair":
                return N(("pair", x, v[2]) if s[1] == "first" else ("pair", v[1], x), st)
            return N(rec_set(v, s[1], x), st)
        if k == "k":
            return N(map_put(v, s[1], x), st)
        if k == "p":
            return N(map_put(v, s[1], x[2]) if x[0] == "pair" else self.unk("pair"), st)
        if k == "i":
            r = []
            for y, pos, s2 in self.seq_at(v, s[1], st):
                sv = as_seq(v)
                if y is None:
                    r.extend(N(self.unk("oob write"), s2))
                elif pos is not None and pos[0] == "part":
                    ps = list(sv[1])
                    ps[pos[1]] = ("e", x)
                    r.extend(N(("seq", tuple(ps)), s2))
                elif y == x:
                    r.extend(N(v, s2))
                else:
                    # split the slice around the written element
                    idx = s2.nz(s[1])
                    out, off, hit = [], idx, False
                    for pi, p in enumerate(sv[1]):
                        if not hit and pos == ("sl", pi) and y[0] == "elt" and y[1] == p[1]:
                            at = y[2]
                            out += [("sl", p[1], p[2], at), ("e", x), ("sl", p[1], lin_add(at, C(1)), p[3])]
                            hit = True
                        else:
                            out.append(p)
                    r.extend(N(norm_seq(tuple(out)) if hit else self.unk("write"), s2))
            return r
        if k == "a":
            return N(("any", s[1], x), st)
        if k == "o":
            return N(("opt", x), st)
        if k == "t" and v[0] == "tuple":
            l = list(v[1])
            l[s[1]] = x
            return N(("tuple", tuple(l)), st)
        return N(self.unk("write"), st)

    def ext(self, loc, sel):
        root, path = loc
        if sel[0] == "f" and path and path[-1][0] == "p":
            if sel[1] == "second":
                return (root, path[:-1] + (("k", path[-1][1]),))
            if sel[1] == "first":
                return (root, path + (sel,))
        return (root, path + (sel,))

    def deref(self, p, st):
        """location a pointer value points to, or None"""
        p = st.nz(p)
        if p[0] == "ptr":
            return p[1]
        if p[0] == "uptr":
            return self.deref(p[1], st)
        if p[0] == "it":
            return self.itloc(p, st)
        if p[0] == "unk":
            return (self.fresh("unkroot"), ())
        return (("deref", p), ())

    # -------------------------------------------------------------- iterators
    # ("it", container loc, position); position: ("begin",) ("end",) ("k", key) ("i", index)
    def itloc(self, it, st):
        loc, pos = it[1], it[2]
        if pos[0] == "k":
            return self.ext(loc, ("p", pos[1]))
        if pos[0] == "set":
            r = self.fresh("t")
            st.store[r] = pos[1]
            return (r, ())
        if pos[0] == "i":
            return self.ext(loc, ("i", pos[1]))
        if pos[0] == "begin":
            return self.ext(loc, ("i", C(0)))
        return (self.fresh("unkroot"), ())

    def iteq(self, a, b, st):
        if a[1] != b[1]:
            return [(False, st)]
        pa, pb = a[2], b[2]
        if pa == pb:
            return [(True, st)]
        kinds = {pa[0], pb[0]}
        if kinds == {"end", "k"} or kinds == {"end", "set"}:
            return [(False, st)]
        if kinds == {"k"}:
            return self.eqv(pa[1], pb[1], st)
        if "i" in kinds and kinds <= {"i", "begin", "end"} or kinds == {"begin", "end"}:
            r = []
            for o in self.rd(a[1], st):
                v = o.v

                def idx(p):
                    return C(0) if p[0] == "begin" else seq_len(v) if p[0] == "end" else p[1]
                if v[0] in ("map",) or (kinds == {"begin", "end"} and self.ismaploc(a[1], o.st)):
                    r.extend(self.map_empty(v, o.st))
                else:
                    r.extend(self.eqv(idx(pa), idx(pb), o.st))
            return r
        return self.fork(st, ("iteq",) + tuple(sorted((a, b), key=repr)))

    def ismaploc(self, loc, st):
        return st.facts.get(("ismap", loc), False)

    # -------------------------------------------------------------- expressions
    def evs(self, es, f, st):
        """evaluates a list left to right with f(e, st) -> outcomes; yields lists"""
        outs = [Out("n", (), st)]
        for e in es:
            outs = bind(outs, lambda acc, s, e=e: bind(f(e, s), lambda v, s2: N(acc + (v,), s2)))
        return outs

    def line(self, e, st):
        if isinstance(e, dict) and e.get("l"):
            st.line = e["l"]

    GLV = ("ref", "mem", "idx")

    def is_lv(self, e):
        k = e["k"]
        if k in ("ref", "mem", "idx"):
            return True
        if k == "call":
            return bool(e.get("glv"))
        if k == "un":
            return e["op"] == "*" or (e["op"] in ("++", "--") and not e.get("post"))
        if k == "asg":
            return True
        if k == "cond":
            return bool(e.get("glv"))
        if k == "cast":
            t = e.get("t")
            if e["ck"] in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "NoOp", "Dynamic",
                           "LValueBitCast"):
                return self.is_lv(e["e"]) if e["ck"] != "Dynamic" else bool(t and t.k != "ptr")
            return False
        if k == "bin" and e["op"] == ",":
            return self.is_lv(e["b"])
        if k == "str":
            return False
        return False

    def lv(self, e, st):
        """outcomes whose value is a location"""
        k = e["k"]
        self.line(e, st)
        if k == "ref":
            dk = e["dk"]
            if dk in ("var", "param", "bind"):
                loc = st.env.get(e["d"])
                if loc is None:
                    return N((self.fresh("unkroot"), ()), st)
                return N(loc, st)
            if dk in ("static", "global"):
                return self.glob(e, st)
            return N((self.fresh("unkroot"), ()), st)
        if k == "mem":
            if e.get("arrow"):
                def g(p, s):
                    return self.memloc(self.deref(p, s), e, s)
                return bind(self.rv(e["b"], st), g)
            return bind(self.lv(e["b"], st), lambda l, s: self.memloc(l, e, s))
        if k == "un" and e["op"] == "*":
            return bind(self.rv(e["e"], st), lambda p, s: N(self.deref(p, s), s))
        if k == "un" and e["op"] in ("++", "--") and not e.get("post"):
            return bind(self.lv(e["e"], st), lambda l, s: bind(
                self.rd(l, s), lambda v, s2: bind(
                    self.wr(l, self.incr(v, 1 if e["op"] == "++" else -1, s2), s2), lambda _, s3: N(l, s3))))
        if k == "idx" and e["b"]["k"] == "mem" and e["b"]["t"].k in ("arr", "array"):
            return bind(self.lv(e["b"], st), lambda l, s: bind(
                self.rv(e["i"], s), lambda i, s2: N((l[0], l[1] + (("i", i),)), s2)))
        if k == "idx":
            return bind(self.rv(e["b"], st), lambda b, s: bind(
                self.rv(e["i"], s), lambda i, s2: N(self.ptr_idx(b, i, s2), s2)))
        if k == "asg":
            return self.assign(e, st)
        if k == "cond":
            return self.branch(e["c"], st, lambda s: self.lv(e["a"], s), lambda s: self.lv(e["b"], s))
        if k == "cast" and e["ck"] != "Dynamic" and self.is_lv(e):
            return self.lv(e["e"], st)
        if k == "cast" and e["ck"] == "Dynamic":
            return self.dyncast(e, st)
        if k == "cast" and e["ck"] in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase") :
            return self.lv(e["e"], st)
        if k == "bin" and e["op"] == ",":
            return bind(self.rv(e["a"], st), lambda _, s: self.lv(e["b"], s))
        if k == "call" and e.get("glv"):
            return bind(self.call(e, st), lambda v, s: N(v[1] if v[0] == "@" else self.tmp(v, s), s))
        return bind(self.rv(e, st), lambda v, s: N(self.tmp(v, s), s))

    def memloc(self, loc, e, st):
        l = self.ext(loc, ("f", e["n"]))
        t = e.get("fref")
        # a member of reference type holds a pointer
        f = None
        rec = e.get("c")
        key = (rec, e["n"])
        isref = self.reffield(key)
        if isref:
            return bind(self.rd(l, st), lambda v, s: N(self.deref(v, s), s))
        return N(l, st)

    def reffield(self, key):
        c = getattr(self, "_rf", None)
        if c is None:
            c = self._rf = {}
            for r in self.P.records.values():
                for f in r.get("fields", ()):
                    c[(r["tn"], f["n"])] = f["t"].isref()
        return c.get(key, False)

    def ptr_idx(self, b, i, st):
        b = st.nz(b)
        if b[0] == "ptr":
            root, path = b[1]
            if i == C(0) and not (path and path[-1][0] == "i"):
                return b[1]
            if path and path[-1][0] == "i":
                return (root, path[:-1] + (("i", lin_add(path[-1][1], i)),))
            return (root, path + (("i", i),))
        return (("deref", b), (("i", i),))

    def glob(self, e, st):
        root = ("g", e["gu"])
        if root not in st.store:
            g = self.P.globals.get(e["gu"])
            if "cv" in e:
                self.constg.add(root)
                st.store[root] = C(int(e["cv"]))
            elif g is not None and g["t"].const and "init" in g:
                self.constg.add(root)
                return bind(self.rv(g["init"], st), lambda v, s: (s.store.__setitem__(root, v), N((root, ()), s))[1])
        return N((root, ()), st)

    def incr(self, v, d, st):
        v = st.nz(v)
        if v[0] == "it":
            pos = v[2]
            if pos[0] == "begin":
                pos = ("i", C(0))
            if pos[0] == "i":
                return ("it", v[1], ("i", lin_add(pos[1], C(d))))
            return ("it", v[1], ("adv", pos, d))
        if v[0] == "ptr":
            return ("ptr", self.ptr_idx(v, C(d), st))
        return lin_add(v, C(d))

    def rv(self, e, st):
        """outcomes whose value is a (pr)value"""
        self.tick()
        k = e["k"]
        self.line(e, st)
        m = getattr(self, "rv_" + k, None)
        if m is not None:
            return m(e, st)
        if self.is_lv(e):
            return bind(self.lv(e, st), lambda l, s: self.rd(l, s))
        self.unmodelled.add("expr %s %s" % (k, e.get("c", "")))
        return N(self.unk("expr " + k), st)

    def rv_int(self, e, st):
        return N(C(int(e["v"])), st)

    def rv_float(self, e, st):
        try:
            return N(C(float(e["v"])), st)
        except ValueError:
            return N(self.unk("float"), st)

    def rv_bool(self, e, st):
        return N(C(bool(e["v"])), st)

    def rv_str(self, e, st):
        return N(C(e["v"]), st)

    def rv_nullptr(self, e, st):
        return N(NULL, st)

    def rv_this(self, e, st):
        return N(("ptr", st.this) if st.this else self.unk("this"), st)

    def rv_enumc(self, e, st):
        return N(C(int(e["v"])), st)

    def rv_zero(self, e, st):
        t = e["t"]
        if t.k == "ptr":
            return N(NULL, st)
        if t.k == "bool":
            return N(FALSE, st)
        if t.k == "rec":
            return N(("rec", t.rec, (), None), st)
        return N(C(0), st)

    def rv_cexpr(self, e, st):
        if "v" in e:
            return N(C(int(e["v"])), st)
        return N(self.unk("cexpr"), st)

    def rv_srcloc(self, e, st):
        return N(("op", "srcloc"), st)

    def rv_typeid(self, e, st):
        if "to" in e:
            return N(("typeid", e["to"].bare), st)
        return bind(self.rv(e["e"], st), lambda v, s: N(("typeidof", v), s))

    def rv_fref(self, e, st):
        return N(("fn", e["f"]["u"], e["f"]["q"]), st)

    def rv_lambda(self, e, st):
        caps = []

        def go(i, s):
            if i == len(e["caps"]):
                gen = tuple(e.get("gen", ()))
                return N(("lam", e["u"], tuple(caps), s.this, gen), s)
            c = e["caps"][i]
            if c.get("this"):
                caps.append((0, ("this",)))
                return go(i + 1, s)
            if c.get("ref"):
                loc = s.env.get(c["d"])
                if loc is None and "init" in c:
                    return bind(self.lv(c["init"], s), lambda l, s2: (caps.append((c["d"], ("r", l))), go(i + 1, s2))[1])
                caps.append((c["d"], ("r", loc) if loc else ("v", self.unk("cap"))))
                return go(i + 1, s)
            if "init" in c:
                return bind(self.rv(c["init"], s), lambda v, s2: (caps.append((c["d"], ("v", v))), go(i + 1, s2))[1])
            loc = s.env.get(c["d"])
            if loc is None:
                caps.append((c["d"], ("v", self.unk("cap"))))
                return go(i + 1, s)
            return bind(self.rd(loc, s), lambda v, s2: (caps.append((c["d"], ("v", v))), go(i + 1, s2))[1])
        return go(0, st)

    def rv_cast(self, e, st):
        ck = e["ck"]
        t = e["t"]
        if ck == "Dynamic":
            return self.dyncast(e, st)
        if ck in ("ToVoid",):
            return bind(self.rvany(e["e"], st), lambda v, s: N(VOID, s))
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean", "MemberPointerToBoolean"):
            return bind(self.rv(e["e"], st), lambda v, s: self.boolean(self.truth(v, s)))
        if ck == "NullToPointer":
            return N(NULL, st)
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingCast", "NoOp", "DerivedToBase",
                  "UncheckedDerivedToBase", "BaseToDerived", "ArrayToPointerDecay", "BitCast",
                  "LValueToRValue", "ConstructorConversion", "UserDefinedConversion", "FunctionToPointerDecay",
                  "BuiltinFnToFnPtr", "ToUnion", "AnyPointerToBlockPointerCast", "BooleanToSignedIntegral"):
            if ck == "ArrayToPointerDecay":
                if e["e"]["k"] == "str":
                    return self.rv(e["e"], st)
                return bind(self.lv(e["e"], st), lambda l, s: N(("ptr", (l[0], l[1] + (("i", C(0)),))), s))
            if ck == "IntegralCast" and t.k == "int" and t.bits and t.bits < 32:
                return bind(self.rv(e["e"], st), lambda v, s: N(v if isc(v) else ("op", "trunc%d" % t.bits, v), s))
            if self.narrow32 and ck == "IntegralCast" and t.k == "int" and t.bits == 32 and e["e"].get("t") is not None \
                    and e["e"]["t"].strip().k == "int" and (e["e"]["t"].strip().bits or 0) > 32:
                return bind(self.rv(e["e"], st), lambda v, s: N(v if isc(v) and isinstance(v[1], int) and 0 <= v[1] < 1 << 31
                                                                 else ("op", "trunc32", v), s))
            if ck == "IntegralCast" and t.k == "int" and t.bits == 32:
                return bind(self.rv(e["e"], st), lambda v, s: N(("op", "toint32", v) if v[:2] == ("op", "hash") or v[:2] == ("op", "&")
                                                                          and len(v) == 4 and any(x[:2] == ("op", "hash") for x in v[2:])
                                                                          and not any(isc(x) and 0 <= x[1] < 1 << 31 for x in v[2:]) else v, s))
            return self.rv(e["e"], st)
        if ck == "IntegralToPointer":
            return bind(self.rv(e["e"], st), lambda v, s: N(("op", "intptr", v), s))
        if ck == "FloatingToIntegral":
            return bind(self.rv(e["e"], st), lambda v, s: N(C(int(v[1])) if isc(v) else ("op", "toint", v), s))
        if ck == "PointerToIntegral":
            return bind(self.rv(e["e"], st), lambda v, s: N(("op", "address", v), s))
        self.unmodelled.add("cast " + ck)
        return bind(self.rvany(e["e"], st), lambda v, s: N(self.unk("cast " + ck), s))

    def rvany(self, e, st):
        if self.is_lv(e):
            return self.lv(e, st)
        return self.rv(e, st)

    def dyntype(self, loc, st):
        outs = self.rd(loc, st)
        if len(outs) == 1 and outs[0].k == "n":
            v = outs[0].v
            if v[0] == "rec" and v[1]:
                return v[1]
            if v[0] == "exc":
                return v[1]
        return None

    def dyncast(self, e, st):
        t = e["t"]
        isptr = t.k == "ptr"
        want = bare(t.to.s) if isptr else bare(t.strip().s)

        def go(p, s):
            p = s.nz(p)
            if isptr and p == NULL:
                return N(NULL, s)
            loc = self.deref(p, s) if isptr else p
            dyn = self.dyntype(loc, s)
            pairs = [(self.derives(dyn, want), s)] if dyn else self.fork(s, ("dyn", loc, want))
            r = []
            for b, s2 in pairs:
                if b:
                    r.extend(N(("ptr", loc) if isptr else loc, s2))
                elif isptr:
                    r.extend(N(NULL, s2))
                else:
                    r.append(Out("t", EXC("std::bad_cast"), s2))
            return r
        if isptr:
            return bind(self.rv(e["e"], st), go)
        return bind(self.lv(e["e"], st), go)

    def rv_un(self, e, st):
        op = e["op"]
        if op == "*":
            return bind(self.lv(e, st), lambda l, s: self.rd(l, s))
        if op == "&":
            if e["e"]["k"] == "fref":
                return self.rv(e["e"], st)
            return bind(self.lv(e["e"], st), lambda l, s: N(("ptr", l), s))
        if op == "!":
            return bind(self.rv(e["e"], st), lambda v, s: [Out("n", C(not b), s2) for b, s2 in self.truth(v, s)])
        if op in ("++", "--"):
            d = 1 if op == "++" else -1

            def g(l, s):
                return bind(self.rd(l, s), lambda v, s2: bind(
                    self.wr(l, self.incr(v, d, s2), s2),
                    lambda _, s3: N(v if e.get("post") else self.incr(v, d, s3), s3)))
            return bind(self.lv(e["e"], st), g)
        if op == "-":
            return bind(self.rv(e["e"], st), lambda v, s: N(
                C(-v[1]) if isc(v) else lin_sub(C(0), v) if e["t"].k == "int" else ("op", "neg", v), s))
        if op == "+":
            return self.rv(e["e"], st)
        if op == "__extension__":
            return self.rv(e["e"], st)
        return bind(self.rv(e["e"], st), lambda v, s: N(("op", op, v), s))

    def rv_bin(self, e, st):
        op = e["op"]
        if op == "&&":
            return self.branch(e["a"], st, lambda s: bind(self.rv(e["b"], s), lambda v, s2: self.boolean(
                self.truth(v, s2))), lambda s: N(FALSE, s))
        if op == "||":
            return self.branch(e["a"], st, lambda s: N(TRUE, s), lambda s: bind(
                self.rv(e["b"], s), lambda v, s2: self.boolean(self.truth(v, s2))))
        if op == ",":
            return bind(self.rvany(e["a"], st), lambda _, s: self.rv(e["b"], s))
        if op in ("==", "!=") and isbool(e["a"]) and isbool(e["b"]):
            return bind(self.rv(e["a"], st), lambda a, s: bind(self.rv(e["b"], s), lambda b, s2: [
                Out("n", C((x == y) == (op == "==")), s4) for x, s3 in self.truth(a, s2) for y, s4 in self.truth(b, s3)]))
        return bind(self.rv(e["a"], st), lambda a, s: bind(
            self.rv(e["b"], s), lambda b, s2: self.binop(op, a, b, s2, e.get("t"))))

    def binop(self, op, a, b, st, t=None):
        a, b = st.nz(a), st.nz(b)
        if op == "==":
            return self.boolean(self.eqv(a, b, st))
        if op == "!=":
            return [Out("n", C(not x), s) for x, s in self.eqv(a, b, st)]
        if op in ("<", ">", "<=", ">="):
            for x in (a, b):
                if isc(x) and (x[1] is None or isinstance(x[1], str)):
                    return self.boolean(self.fork(st, ("truth", ("op", op, a, b))))
            if isc(a) and isc(b):
                return N(C({"<": a[1] < b[1], ">": a[1] > b[1], "<=": a[1] <= b[1], ">=": a[1] >= b[1]}[op]), st)
            if isc(a) and isinstance(a[1], float) or isc(b) and isinstance(b[1], float):
                return self.boolean(self.fork(st, ("truth", ("op", op, a, b))))
            if op == "<":
                return self.boolean(self.less(a, b, st))
            if op == ">":
                return self.boolean(self.less(b, a, st))
            if op == "<=":
                return [Out("n", C(not x), s) for x, s in self.less(b, a, st)]
            return [Out("n", C(not x), s) for x, s in self.less(a, b, st)]
        if isc(a) and isc(b) and isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)):
            x, y = a[1], b[1]
            try:
                if op == "+":
                    return N(C(x + y), st)
                if op == "-":
                    return N(C(x - y), st)
                if op == "*":
                    return N(C(x * y), st)
                if op == "/" and y != 0:
                    return N(C(x // y if isinstance(x, int) and isinstance(y, int) else x / y), st)
                if op == "%" and y != 0:
                    return N(C(x % y), st)
            except Exception:
                pass
        if op == "/" and isc(b) and isinstance(b[1], int) and b[1] > 0 and t is not None and t.k == "int":
            if b[1] == 1:
                return N(a, st)
            pp = lin_parts(a)
            if pp is not None and a[0] == "lin" and pp[0] >= 0 and pp[0] % b[1] == 0 and all(c % b[1] == 0 for c in pp[1].values()):
                r = C(pp[0] // b[1])
                for x, c in pp[1].items():
                    r = lin_add(r, x, c // b[1])
                return N(r, st)
        if op in ("+", "-"):
            if a[0] == "it" and lin_parts(b) is not None and b[0] != "it":
                pos = ("i", C(0)) if a[2][0] == "begin" else a[2]
                if pos[0] == "i":
                    return N(("it", a[1], ("i", lin_add(pos[1], b, 1 if op == "+" else -1))), st)
                return N(self.unk("iterator arithmetic"), st)
            if a[0] == "ptr":
                if op == "+":
                    return N(("ptr", self.ptr_idx(a, b, st)), st)
                return N(self.unk("ptr arith"), st)
            isint = t is None or t.k == "int"
            if isint and op == "-" and t is not None and t.uns and t.bits == 64 and lin_parts(a) is not None \
                    and lin_parts(b) is not None:
                d = lin_sub(a, b)           # wraps around below zero
                return [Out("n", d if ok else lin_add(d, C(1 << 64)), s) for ok, s in self.pos(lin_add(d, C(1)), st)]
            if isint:
                return N(lin_add(a, b, 1 if op == "+" else -1), st)
        if op == "*" and t is not None and t.k == "int":
            for x, y in ((a, b), (b, a)):
                if isc(x) and lin_parts(y) is not None:
                    c, m = lin_parts(y)
                    return N(mklin(c * x[1], {k: v * x[1] for k, v in m.items()}), st)
        return N(("op", op, a, b), st)

    def rv_cond(self, e, st):
        return self.branch(e["c"], st, lambda s: self.rv(e["a"], s), lambda s: self.rv(e["b"], s))

    def branch(self, c, st, f, g):
        def h(v, s):
            r = []
            for b, s2 in self.truth(v, s):
                r.extend(f(s2) if b else g(s2))
            return r
        return bind(self.rv(c, st), h)

    def assign(self, e, st):
        op = e["op"]
        if op == "=":
            return bind(self.rv(e["b"], st), lambda v, s: bind(
                self.lv(e["a"], s), lambda l, s2: bind(self.wr(l, v, s2), lambda _, s3: N(l, s3))))
        bop = op[:-1]

        def g(l, s):
            return bind(self.rd(l, s), lambda a, s1: bind(self.rv(e["b"], s1), lambda b, s2: bind(
                self.binop(bop, a, b, s2, e.get("t")), lambda v, s3: bind(self.wr(l, v, s3), lambda _, s4: N(l, s4)))))
        return bind(self.lv(e["a"], st), g)

    def rv_asg(self, e, st):
        return bind(self.assign(e, st), lambda l, s: self.rd(l, s))

    def rv_throw(self, e, st):
        st.line = e.get("l", st.line)
        if "e" not in e:
            if st.cur:
                return [Out("t", st.cur[-1], st)]
            return [Out("x", ("terminate",), st)]
        t = e["et"].bare

        def g(v, s):
            s.line = e.get("l", s.line)
            if v[0] == "exc":
                v = ("exc", t) + tuple(v[2:])
            elif v[0] == "rec":
                v = EXC(t, v)
            else:
                v = EXC(t, v)
            return [Out("t", v, s)]
        return bind(self.rv(e["e"], st), g)

    def rv_new(self, e, st):
        t = e["at"]

        def g(v, s):
            h = self.fresh("h")
            s.store[h] = v
            s.event("new", h, t.bare)
            return N(("ptr", (h, ())), s)
        if e.get("arr"):
            return g(("newarr", self.fresh("a")), st)
        if "init" in e and e["init"]["k"] == "ctor":
            h = self.fresh("h")
            st.store[h] = ("rec", t.rec, (), None)

            def done(_, s):
                s.event("new", h, t.bare)
                return N(("ptr", (h, ())), s)
            return bind(self.construct_at(e["init"], (h, ()), st), done)
        if "init" in e:
            return bind(self.rv(e["init"], st), g)
        return g(("unk", 0, "uninitialised"), st)

    def rv_del(self, e, st):
        return bind(self.rv(e["e"], st), lambda p, s: (s.event("delete", p), N(VOID, s))[1])

    def rv_stdilist(self, e, st):
        return self.rv(e["e"], st)

    def rv_ilist(self, e, st):
        t = e["t"]
        fn = e.get("fn", [])
        if t.k == "rec" and t.rec in self.P.records and not self.P.records[t.rec].get("foreign"):
            rec = self.P.records[t.rec]
            bases = len(rec.get("bases", ()))

            def done(vals, s):
                v = ("rec", t.rec, (), None)
                for b in vals[:bases]:
                    if b[0] == "rec":
                        for k, x in b[2]:
                            v = rec_set(v, k, x)
                for n, x in zip(fn, vals[bases:]):
                    v = rec_set(v, n, x)
                return N(v, s)

            def argf(x, s):
                i = e["a"].index(x) - bases
                if 0 <= i < len(fn) and self.reffield((rec["tn"], fn[i])):
                    return bind(self.lv(x, s), lambda l, s2: N(("ptr", l), s2))
                return self.rv(x, s)
            return bind(self.evs(e["a"], argf, st), done)
        if t.k == "arr" or t.k in ("rec",):
            return bind(self.evs(e["a"], self.rv, st), lambda vs, s: N(("seq", tuple(("e", v) for v in vs)), s))
        if len(e["a"]) == 1:
            return self.rv(e["a"][0], st)
        if not e["a"]:
            return self.rv_zero(e, st)
        return bind(self.evs(e["a"], self.rv, st), lambda vs, s: N(("seq", tuple(("e", v) for v in vs)), s))

    def rv_arrcopy(self, e, st):
        return self.rv(e["e"], st)

    def rv_null(self, e, st):
        return N(VOID, st)

    def rv_unsup(self, e, st):
        self.unmodelled.add("unsup " + e.get("c", "?"))
        return N(self.unk("unsupported"), st)

    def spanof(self, vs, st):
        """the elements a span made from these arguments covers"""
        if len(vs) == 1:
            return vs[0]
        if len(vs) != 2:
            return self.unk("span")
        a, b = vs
        if a[0] == "it" and b[0] == "it" and a[1] == b[1] and a[2][0] == "begin" and b[2][0] == "end":
            o = self.rd(a[1], st)
            if len(o) == 1 and o[0].k == "n":
                return o[0].v
        if a[0] == "ptr" and a[1][1] and a[1][1][-1] == ("i", ("c", 0)):
            o = self.rd((a[1][0], a[1][1][:-1]), st)
            if len(o) == 1 and o[0].k == "n":
                v = st.nz(o[0].v)
                return v if st.nz(b) == SIZE(v) else ("op", "span", a, b)
        if a[0] == "it" or b[0] == "it":
            return self.unk("span of iterators")
        return ("op", "span", a, b)

    def rv_inhctor(self, e, st):
        if e["f"].get("c") == "std::span" and st.fn is not None:
            vs = []
            for p in st.fn.p:
                l = st.env.get(p["id"])
                o = self.rd(l, st) if l is not None else ()
                if len(o) != 1 or o[0].k != "n":
                    break
                vs.append(o[0].v)
            if len(vs) == len(st.fn.p):
                return N(("rec", e["t"].rec, (("<inh>", self.spanof(vs, st)),), None), st)
        return N(("rec", e["t"].rec, (("<inh>", self.unk("inherited ctor")),), None), st)

    # -------------------------------------------------------------- construction
    def rv_ctor(self, e, st):
        f = e["f"]
        t = e["t"]
        u = f["u"]
        if u in self.P.funcs or (f.get("mine") and f["ctor"] not in (2, 3)):
            r = self.fresh("t")
            st.store[r] = ("rec", t.rec, (), None)
            return bind(self.construct_at(e, (r, ()), st), lambda _, s: self.rd((r, ()), s))
        if f.get("mine") and f["ctor"] in (2, 3):
            return bind(self.lv(e["a"][0], st), lambda l, s: self.rd(l, s))
        return self.stdcall(e, None, st)

    def construct_at(self, e, loc, st):
        """runs a constructor expression on storage loc"""
        if e["k"] == "inhctor":
            # a constructor inherited by a using declaration: the arguments are handed on as they are
            h = self.P.funcs.get(e["f"]["u"])
            if h is not None and h.b is not None and st.fn is not None and len(st.fn.p) == len(h.p):
                return self.enter(h, loc, tuple(("@", st.env[p["id"]]) for p in st.fn.p), st)
        if e["k"] == "ctor":
            f = e["f"]
            g = self.P.funcs.get(f["u"])
            if g is not None and g.b is not None and not (
                    g.implicit and g.ctor in (2, 3) and self.plain_copy(e["t"].rec, g.ctor)):
                return bind(self.args(f, e["a"], st), lambda a, s: self.enter(g, loc, a, s))
            if f.get("mine"):
                if f["ctor"] in (2, 3):
                    return bind(self.lv(e["a"][0], st), lambda l, s: bind(self.rd(l, s), lambda v, s2: self.wr(loc, v, s2)))
                if f["ctor"] == 4:
                    return self.default_init(e["t"].rec, loc, st)
                self.unmodelled.add("ctor " + f["q"])
                return self.wr(loc, ("rec", e["t"].rec, (("<unk>", self.unk("ctor")),), None), st)
        return bind(self.rv(e, st), lambda v, s: self.wr(loc, v, s))

    def plain_copy(self, rec, kind, depth=0):
        """is copying (2) or moving (3) an object of this class the same as copying its value?"""
        c = self.__dict__.setdefault("_pc", {})
        k = (rec, kind)
        if k in c:
            return c[k]
        r = self.P.records.get(rec)
        ok = r is not None and depth < 8
        if ok:
            for f in r.get("fields", ()):
                t = f["t"]
                if t.k == "rec":
                    if t.rec in self.P.records and not t.s.startswith("std::"):
                        ok = ok and self.plain_copy(t.rec, kind, depth + 1)
                    elif kind == 3:
                        ok = False
                    elif t.tn == "std::variant" and t.ta:
                        for x in (t.ta[0] if isinstance(t.ta[0], tuple) else t.ta):
                            if getattr(x, "k", None) == "rec" and x.rec in self.P.records:
                                ok = ok and self.plain_copy(x.rec, kind, depth + 1)
            for b in r.get("bases", ()):
                if b in self.P.records and not b.startswith("std::"):
                    ok = ok and self.plain_copy(b, kind, depth + 1)
            for m in self.P.funcs.values():
                if m.c == rec and m.ctor == kind and not m.implicit:
                    ok = False
            for m in r.get("methods", ()):
                g = self.P.funcs.get(m.get("u"))
                if m.get("ctor") == kind and not m.get("implicit") and (g is None or not g.implicit):
                    ok = False
        c[k] = ok
        return ok

    def default_init(self, rec, loc, st):
        """trivial default construction with default member initialisers"""
        r = self.P.records.get(rec, {})
        outs = N(VOID, st)
        for f in r.get("fields", ()):
            if "init" in f:
                outs = bind(outs, lambda _, s, f=f: bind(self.rv(f["init"], s), lambda v, s2: self.wr(
                    self.ext(loc, ("f", f["n"])), v, s2)))
        return outs

    # -------------------------------------------------------------- calls
    def args(self, f, a, st):
        """evaluates call arguments: locations for reference parameters, values otherwise"""
        pt = f.get("pt", [])

        def ev(ie, s):
            i, e = ie
            if i < len(pt) and pt[i].isref():
                return bind(self.lv(e, s), lambda l, s2: N(("@", l), s2))
            if i >= len(pt) and self.is_lv(e):
                return bind(self.lv(e, s), lambda l, s2: N(("@", l), s2))
            return self.rv(e, s)
        return self.evs(list(enumerate(a)), ev, st)

    def val(self, a, st):
        """value of an evaluated argument"""
        if a[0] == "@":
            return self.rd(a[1], st)
        return N(st.nz(a), st)

    def vals(self, aa, st):
        return self.evs(aa, self.val, st)

    def loc_of(self, a, st):
        if a[0] == "@":
            return a[1]
        return self.tmp(a, st)

    def rv_call(self, e, st):
        return bind(self.call(e, st), lambda v, s: self.val(v, s))

    def call(self, e, st):
        """outcomes of a call; an lvalue result is ("@", loc)"""
        if "f" not in e:
            return bind(self.rvany_val(e["fe"], st), lambda fv, s: bind(
                self.evs(e["a"], self.argany, s), lambda a, s2: self.invoke(fv, a, s2, e)))
        f = e["f"]
        u = f["u"]
        g = self.P.funcs.get(u)
        if "o" in e:
            def withobj(ob, s):
                return bind(self.args(f, e["a"], s), lambda a, s2: self.dispatch(e, f, g, ob, a, s2))
            if e.get("arrow"):
                return bind(self.rv(e["o"], st), lambda p, s: withobj(self.deref(p, s), s))
            return bind(self.lv(e["o"], st), withobj)
        if g is not None and g.b is not None:
            return bind(self.args(f, e["a"], st), lambda a, s: self.enter(g, None, a, s))
        return self.stdcall(e, None, st)

    def rvany_val(self, e, st):
        return self.rv(e, st)

    def argany(self, e, st):
        if self.is_lv(e):
            return bind(self.lv(e, st), lambda l, s: N(("@", l), s))
        return self.rv(e, st)

    def dispatch(self, e, f, g, ob, a, st):
        if e.get("vcall") and f.get("virt"):
            dyn = self.dyntype(ob, st)
            if dyn:
                u2 = self.P.find_override(dyn, f["u"])
                g2 = self.P.funcs.get(u2) if u2 else None
                if g2 is not None and g2.b is not None:
                    return self.enter(g2, ob, a, st)
            return self.opaque_vcall(e, f, ob, a, st)
        if g is not None and g.b is not None:
            if e.get("op") == "()" and ob is not None:
                outs = self.rd(ob, st)
                if len(outs) == 1 and outs[0].k == "n":
                    fv = outs[0].st.nz(outs[0].v)
                    if fv[0] == "lam":
                        return self.enter(g, None, a, outs[0].st, lam=fv)
            return self.enter(g, ob, a, st)
        if f.get("mine") and (f.get("implicit") and f["n"] == "operator="):
            return bind(self.val(a[0], st), lambda v, s: bind(self.wr(ob, v, s), lambda _, s2: N(("@", ob), s2)))
        return self.stdcall(e, ob, st, a)

    def opaque_vcall(self, e, f, ob, a, st):
        def g(vs, s):
            ev = ("vcall", f["n"], ob, vs)
            s.event(*ev)
            r = ("ret", f["n"], ob, vs)
            if e.get("glv"):
                return N(("@", (("deref", r), ())), s)
            return N(r, s)
        # reference arguments keep their identity
        vs = tuple(("ptr", x[1]) if x[0] == "@" else x for x in a)
        return g(vs, st)

    def invoke(self, fv, a, st, e=None):
        """calls a callable value"""
        fv = st.nz(fv)
        if fv[0] == "@":
            return bind(self.rd(fv[1], st), lambda v, s: self.invoke(v, a, s, e))
        if fv[0] == "lam":
            g = self.P.funcs.get(fv[1])
            if (g is None or g.b is None) and fv[4]:
                cands = [self.P.funcs[u] for u in fv[4] if u in self.P.funcs and self.P.funcs[u].b is not None]
                g = self.pick(cands, a, st)
            if g is not None and g.b is not None:
                return self.enter(g, None, a, st, lam=fv)
        if fv[0] == "fn":
            g = self.P.funcs.get(fv[1])
            if g is not None and g.b is not None:
                return self.enter(g, None, a, st)
        if fv == NULL:
            return [Out("t", EXC("std::bad_function_call"), st)]
        if fv[0] == "rec" and fv[1]:
            if not hasattr(self, "_functors"):
                self._functors = {}
                for f in self.P.funcs.values():
                    if f.n == "operator()" and f.b is not None and f.cr:
                        self._functors.setdefault(f.cr, []).append(f)
            g = self.pick(self._functors.get(fv[1], []), a, st)
            if g is not None:
                root = self.fresh("t")
                st.store[root] = fv
                return self.enter(g, (root, ()), a, st)

        def go(vs, s):
            vs = tuple(s.nz(v) for v in vs)
            s.event("invoke", fv, vs)
            if fv in self.fnthrow:
                return [Out("t", EXC(self.fnthrow[fv]), s)]
            return N(("ret", "call", fv, vs), s)
        return bind(self.vals(a, st), go)

    def pick(self, cands, a, st):
        cands = [c for c in cands if len(c.p) == len(a)]
        if len(cands) == 1:
            return cands[0]
        # choose by the dynamic class of the first argument
        for c in cands:
            ok = True
            for p, x in zip(c.p, a):
                v = None
                if x[0] == "@":
                    o = self.rd(x[1], st)
                    v = o[0].v if len(o) == 1 else None
                else:
                    v = x
                if v is not None and v[0] == "rec" and v[1] and p["t"].strip().rec not in (None, v[1]):
                    ok = False
            if ok:
                return c
        return None

    def enter(self, g, this, a, st, lam=None):
        """inlines a function of the repository"""
        self.covered.add(g.u)
        if len(st.stack) > LIM_DEPTH or sum(1 for x in st.stack if x == g.u) >= 2:
            self.unmodelled.add("recursion " + g.q)
            return N(self.unk("recursion"), st)
        saved = (st.env, st.this, st.fn, st.line, st.stack)
        env = {}
        if lam is not None:
            this = lam[3]
            for d, c in lam[2]:
                if c[0] == "r":
                    env[d] = c[1]
                elif c[0] == "v":
                    r = self.fresh("v")
                    st.store[r] = c[1]
                    env[d] = (r, ())
        for p, x in zip(g.p, a):
            if p["t"].isref():
                env[p["id"]] = x[1] if x[0] == "@" else self.tmp(x, st)
            else:
                r = self.fresh("v")
                if x[0] == "@":
                    o = self.rd(x[1], st)
                    if len(o) != 1:
                        return bind(self.rd(x[1], st), lambda v, s: self.enter(
                            g, this, tuple(v if y is x else y for y in a), s, lam))
                    st = o[0].st
                    x = o[0].v
                st.store[r] = x
                env[p["id"]] = (r, ())
        st.env, st.this, st.fn, st.stack = env, this, g, st.stack + (g.u,)
        st.line = g.l
        outs = N(VOID, st)
        if g.ctor:
            outs = self.run_inits(g, st)
        outs = bind(outs, lambda _, s: self.ex(g.b, s))
        res = []
        for o in outs:
            s = o.st
            if o.k in ("n", "r"):
                v = o.v if o.k == "r" else VOID
                if o.k == "n" and g.ret.k != "void" and not g.ctor and not g.dtor:
                    v = self.unk("missing return")
                o = Out("n", v, s)
            s.env, s.this, s.fn, s.line, s.stack = self.reenv(saved[0], s), self.relo(saved[1], s), saved[2], \
                saved[3] if o.k == "n" else s.line, saved[4]
            if o.k != "n":
                # keep the place where the path ended
                s.fn = g if not getattr(o, "fnset", None) else s.fn
                s.fn = saved[2]
            res.append(o)
        if len(res) > LIM_STATES:
            raise Undecided("too many paths in " + g.q)
        return res

    def reenv(self, env, s):
        if not s.sub:
            return dict(env)
        return {k: s.nz(v) for k, v in env.items()}

    def relo(self, l, s):
        return s.nz(l) if l is not None and s.sub else l

    def run_inits(self, g, st):
        this = st.this
        outs = N(VOID, st)
        for i in g.inits:
            def one(_, s, i=i):
                s.line = i.get("l") or s.line
                e = i["e"]
                if "fld" in i:
                    loc = self.ext(s.this, ("f", i["fld"]))
                    if e is None:
                        return N(VOID, s)
                    if self.reffield((g.c, i["fld"])):
                        return bind(self.lv(e, s), lambda l, s2: self.wr(self.ext(s2.this, ("f", i["fld"])), ("ptr", l), s2))
                    return bind(self.rv(e, s), lambda v, s2: self.wr(self.ext(s2.this, ("f", i["fld"])), v, s2))
                if "base" in i or i.get("deleg"):
                    if e is not None and e["k"] == "inhctor":
                        return self.construct_at(e, s.this, s)
                    if e["k"] == "ctor":
                        gg = self.P.funcs.get(e["f"]["u"])
                        if gg is not None and gg.b is not None:
                            return bind(self.args(e["f"], e["a"], s), lambda a, s2: self.enter(gg, s2.this, a, s2))
                        if e["f"].get("mine") and e["f"]["ctor"] in (2, 3) and e["a"]:
                            return bind(self.rv(e["a"][0], s), lambda v, s2: self.copy_fields(v, s2.this, s2, i.get("base")))
                        if e["f"].get("mine") and e["f"]["ctor"] == 4:
                            return self.default_init(i.get("base"), s.this, s)
                        if i.get("base", "").startswith("std::"):
                            return bind(self.evs(e["a"], self.rv, s), lambda v, s2: self.wr(
                                self.ext(s2.this, ("f", "<base:%s>" % i["base"])), self.spanof(v, s2) if i["base"].startswith("std::span<") else ("op", "base", *v), s2))
                    return N(VOID, s)
                return N(VOID, s)
            outs = bind(outs, one)
        return outs

    def copy_fields(self, v, loc, st, base):
        """copies the base sub-object value v into loc"""
        names = []
        for rn in [base] + self.P.bases(base or ""):
            for f in self.P.records.get(rn, {}).get("fields", ()):
                names.append(f["n"])
        outs = N(VOID, st)
        for n in names:
            outs = bind(outs, lambda _, s, n=n: bind(self.sel1(v, ("f", n), s), lambda x, s2: self.wr(
                self.ext(loc, ("f", n)), x, s2)))
        return outs

    def stdcall(self, e, ob, st, a=None):
        f = e["f"]
        q = f["q"]
        if a is None:
            return bind(self.args(f, e["a"], st), lambda aa, s: self.stdcall(e, ob, s, aa))
        c = f.get("c")
        key = (c + "::" + f["n"]) if c else q
        if e["k"] == "ctor":
            key = (c or "") + "::ctor"
        m = self.models.get(key)
        if m is None and c:
            m = self.models.get("*::" + key.rsplit("::", 1)[1]) if False else None
        if m is None:
            for pref, mm in self.prefix_models:
                if key.startswith(pref):
                    m = mm
                    break
        if m is not None:
            r = m(self, e, f, ob, a, st)
            if r is not None:
                return r
        return self.havoc_call(e, f, key, ob, a, st)

    def havoc_call(self, e, f, key, ob, a, st):
        if f.get("noret"):
            st.event("exit", key)
            return [Out("x", ("noreturn", key), st)]
        self.unmodelled.add("call " + key)

        def g(vs, s):
            t = ("unk", self.fresh("u")[1], key)
            outs = N(VOID, s)
            # non-const reference arguments and the object may have changed
            for i, x in enumerate(a):
                pt = f.get("pt", [])
                if vs[i][0] == "it" and i < len(pt) and "const" not in pt[i].strip().s.split("*")[0].lower() \
                        and not READERS.match(f["n"]):
                    outs = bind(outs, lambda _, s2, x=vs[i]: self.wr(x[1], self.unk(key), s2))
                if x[0] == "@" and i < len(pt) and pt[i].isref() and not pt[i].to.const:
                    outs = bind(outs, lambda _, s2, x=x: self.wr(x[1], self.unk(key), s2))
                elif i < len(pt) and pt[i].k == "ptr" and not pt[i].to.const and vs[i][0] == "ptr":
                    outs = bind(outs, lambda _, s2, x=vs[i]: self.wr(x[1], self.unk(key), s2))
            if ob is not None and not f.get("const") and not f.get("static"):
                outs = bind(outs, lambda _, s2: self.wr(ob, self.unk(key), s2))

            def fin(_, s2):
                s2.event("opaque", key, vs)
                if e.get("glv"):
                    return N(("@", (self.fresh("unkroot"), ())), s2)
                return N(t, s2)
            return bind(outs, fin)
        return bind(self.vals(a, st), g)

    # -------------------------------------------------------------- statements
    def ex(self, s, st):
        """outcomes of a statement: n falls through, r/b/c/t/x leave it"""
        if s is None:
            return N(VOID, st)
        self.tick()
        self.line(s, st)
        m = getattr(self, "ex_" + s["k"], None)
        if m is not None:
            return m(s, st)
        # an expression statement
        return bind(self.exprstmt(s, st), lambda v, s2: N(VOID, s2))

    def exprstmt(self, e, st):
        if e["k"] == "call":
            return self.call(e, st)
        if e["k"] == "bin" and e["op"] == ",":
            return bind(self.exprstmt(e["a"], st), lambda _, s: self.exprstmt(e["b"], s))
        if self.is_lv(e):
            return self.lv(e, st)
        return self.rv(e, st)

    def ex_block(self, s, st):
        outs = N(VOID, st)
        guards, outer = [], None
        for c in s["b"]:
            if outer is None:
                outer = dict(st.env)
            outs = bind(outs, lambda _, s2, c=c: self.ex(c, s2))
            if len(outs) > LIM_STATES:
                raise Undecided("too many states")
            if c["k"] == "decl":
                for v in c["v"]:
                    g = None if v.get("static") or v["t"].isref() else self.dtor(v["t"])
                    if g is not None or self.onleave is not None and not v.get("static") and v["t"].k == "rec":
                        guards.append((v["id"], g, v.get("l")))
        return self.unwind(outs, guards, outer) if guards else outs

    NODTOR = ("NeoFOAM::Field",)
    onleave = None              # told about every local object that ceases to be

    def dtor(self, t):
        """the destructor to run when a local of type t goes out of scope, where it has one of its own"""
        if t.k != "rec" or t.tn in self.NODTOR:
            return None
        d = getattr(self, "dtors", None)
        if d is None:
            d = self.dtors = {}
            for g in self.P.funcs.values():
                if g.dtor and g.b is not None and not g.implicit:
                    d[g.cr or g.c] = g
        return d.get(t.rec)

    def unwind(self, outs, guards, outer):
        """runs the destructors of the locals a block has made, last first, however it is left"""
        for did, g, l in reversed(guards):
            res = []
            for o in outs:
                loc = o.st.env.get(did)
                if o.k == "x" or loc is None or loc == outer.get(did):
                    res.append(o)
                    continue
                s = o.st
                ret = o.v
                if self.onleave is not None:
                    self.onleave(s, s.nz(loc), ret)
                if g is None:
                    res.append(o)
                    continue
                for o2 in self.enter(g, s.nz(loc), (), s):
                    if o2.k == "n":
                        res.append(Out(o.k, o2.st.nz(ret) if isinstance(ret, tuple) else ret, o2.st))
                    elif o2.k == "t":
                        # a destructor that throws ends the program
                        o2.st.event("exit", "std::terminate")
                        res.append(Out("x", ("noreturn", "std::terminate"), o2.st))
                    else:
                        res.append(o2)
            outs = res
        return outs

    def ex_null(self, s, st):
        return N(VOID, st)

    def ex_unsup(self, s, st):
        self.unmodelled.add("stmt " + s.get("c", "?"))
        raise Undecided("unsupported statement " + s.get("c", "?"))

    def ex_decl(self, s, st):
        outs = N(VOID, st)
        for v in s["v"]:
            outs = bind(outs, lambda _, s2, v=v: self.declare(v, s2))
        return outs

    def declare(self, v, st):
        t = v["t"]
        if v.get("static"):
            root = ("g", v["gu"])
            st.env[v["id"]] = (root, ())
            if t.const and root not in st.store and "init" in v:
                self.constg.add(root)
                if any(x.get("k") == "this" or x.get("k") == "ref" and x.get("dk") in ("var", "param", "bind") and x.get("d") in st.env
                       for x in walk(v["init"])):
                    # made by an earlier call, from that call's arguments
                    old = st.clone()
                    old.store[root] = ("glob", "an earlier call's " + v["n"])
                    return N(VOID, old) + bind(self.rv(v["init"], st), lambda x, s: (s.store.__setitem__(root, x), N(VOID, s))[1])
                return bind(self.rv(v["init"], st), lambda x, s: (s.store.__setitem__(root, x), N(VOID, s))[1])
            return N(VOID, st)
        if t.isref():
            def g(l, s):
                s.env[v["id"]] = l
                self.bindings(v, l, s)
                return N(VOID, s)
            return bind(self.lv(v["init"], st), g)
        r = self.fresh("v")
        st.env[v["id"]] = (r, ())
        if "init" not in v:
            st.store[r] = ("unk", 0, "uninitialised") if t.k != "rec" else ("rec", t.rec, (), None)
            return N(VOID, st)
        init = v["init"]
        if init["k"] == "ctor" and (init["f"]["u"] in self.P.funcs):
            st.store[r] = ("rec", t.rec, (), None)

            def fin0(_, s):
                self.bindings(v, (r, ()), s)
                return N(VOID, s)
            return bind(self.construct_at(init, (r, ()), st), fin0)

        def fin(x, s):
            s.store[r] = x
            self.bindings(v, (r, ()), s)
            return N(VOID, s)
        return bind(self.rv(init, st), fin)

    def bindings(self, v, loc, st):
        for b in v.get("bind", ()):
            if "fld" in b:
                st.env[b["id"]] = self.ext(loc, ("f", b["fld"]))
            elif v["t"].strip().tn == "std::tuple":
                st.env[b["id"]] = self.ext(loc, ("t", b["i"]))
            else:
                st.env[b["id"]] = self.ext(loc, ("f", "first" if b["i"] == 0 else "second"))

    def ex_if(self, s, st):
        outs = N(VOID, st)
        if "init" in s:
            outs = bind(outs, lambda _, s2: self.ex(s["init"], s2))
        if "cv" in s:
            outs = bind(outs, lambda _, s2: self.declare(s["cv"], s2))
        if s.get("cexpr") and "cval" in s:
            return bind(outs, lambda _, s2: self.ex(s["th"] if s["cval"] else s.get("el"), s2))
        return bind(outs, lambda _, s2: self.branch(
            s["c"], s2, lambda s3: self.ex(s["th"], s3), lambda s3: self.ex(s.get("el"), s3)))

    def ex_return(self, s, st):
        e = s.get("e")
        if e is None:
            return [Out("r", VOID, st)]
        f = st.fn
        if f is not None and f.ret.isref():
            outs = bind(self.lv(e, st), lambda l, s2: N(("@", l), s2))
        else:
            outs = self.rv(e, st)
        return [Out("r", o.v, o.st) if o.k == "n" else o for o in outs]

    def ex_break(self, s, st):
        return [Out("b", VOID, st)]

    def ex_continue(self, s, st):
        return [Out("c", VOID, st)]

    def ex_throw(self, s, st):
        return self.rv_throw(s, st)

    def ex_try(self, s, st):
        outs = self.ex(s["b"], st)
        res = []
        for o in outs:
            if o.k != "t":
                res.append(o)
                continue
            res.extend(self.handle(s, o))
        return res

    def handle(self, s, o):
        ex = o.v
        et = ex[1] if ex[0] == "exc" else None
        for h in s["h"]:
            v = h.get("v")
            if v is not None:
                want = v["t"].bare
                if et is None or not self.derives(et, want):
                    continue
            st = o.st
            # locals of the try block are out of scope, the function's own remain
            if v is not None:
                r = self.fresh("v")
                st.store[r] = ex[2] if len(ex) > 2 and ex[2][0] == "rec" else ex
                st.env[v["id"]] = (r, ())
            cur = st.cur
            st.cur = cur + (ex,)
            outs = self.ex(h["b"], st)
            for x in outs:
                x.st.cur = cur
            return outs
        return [o]

    def ex_switch(self, s, st):
        outs = N(VOID, st)
        if "init" in s:
            outs = bind(outs, lambda _, s2: self.ex(s["init"], s2))
        labels = []
        body = s["b"]["b"] if s["b"]["k"] == "block" else [s["b"]]
        flat = []

        def unfold(n):
            while n is not None and n["k"] in ("case", "default"):
                flat.append(("case", n.get("v")) if n["k"] == "case" else ("default", None))
                n = n.get("s")
            if n is not None:
                flat.append(("stmt", n))
        for c in body:
            unfold(c)

        def run(i, s2):
            r = [Out("n", VOID, s2)]
            for kind, n in flat[i:]:
                if kind == "stmt":
                    r = bind(r, lambda _, s3, n=n: self.ex(n, s3))
            return [Out("n", VOID, o.st) if o.k == "b" else o for o in r]

        def pick(v, s2):
            res = []
            cur = [s2]
            for i, (kind, n) in enumerate(flat):
                if kind != "case":
                    continue
                nxt = []
                for c in cur:
                    for o in self.rv(n, c):
                        for b, s3 in self.eqv(v, o.v, o.st):
                            if b:
                                res.extend(run(i, s3))
                            else:
                                nxt.append(s3)
                cur = nxt
            d = [i for i, (k, _) in enumerate(flat) if k == "default"]
            for c in cur:
                res.extend(run(d[0], c) if d else N(VOID, c))
            return res
        return bind(outs, lambda _, s2: bind(self.rv(s["c"], s2), pick))

    # -------------------------------------------------------------- loops
    def ex_rfor(self, s, st):
        outs = N(VOID, st)
        if "init" in s:
            outs = bind(outs, lambda _, s2: self.ex(s["init"], s2))

        def go(loc, s2):
            v = s["v"]
            rt = s["range"].get("t")
            rt = rt.strip() if rt is not None else None
            tn = rt.tn if rt is not None else None

            def body(el, s3):
                # el: location of the element, or a value
                t = v["t"]
                if t.isref():
                    l = el[1] if el[0] == "@" else self.tmp(el, s3)
                    s3.env[v["id"]] = l
                    self.bindings(v, l, s3)
                    return self.ex(s["b"], s3)

                def dv(x, s4):
                    r = self.fresh("v")
                    s4.store[r] = x
                    s4.env[v["id"]] = (r, ())
                    self.bindings(v, (r, ()), s4)
                    return self.ex(s["b"], s4)
                return bind(self.val(el, s3), dv)
            return self.loop_over(loc, tn, body, s2, s.get("l"))
        return bind(outs, lambda _, s2: bind(self.lv(s["range"], s2), go))

    MAPS = ("std::unordered_map", "std::map")
    SETS = ("std::set", "std::unordered_set")

    def loop_over(self, loc, tn, body, st, line=None):
        """body(element, state) over the elements of the container stored at loc"""
        def go(R, s):
            ismap = tn in self.MAPS or R[0] == "map"
            if R[0] == "seq" and all(p[0] == "e" for p in R[1]) and len(R[1]) <= 12:
                outs = N(VOID, s)
                brk = []
                for i in range(len(R[1])):
                    nxt = []
                    for o in outs:
                        for o2 in body(("@", self.ext(loc, ("i", C(i)))), o.st):
                            if o2.k in ("n", "c"):
                                nxt.append(Out("n", VOID, o2.st))
                            elif o2.k == "b":
                                brk.append(Out("n", VOID, o2.st))
                            else:
                                brk.append(o2)
                    outs = nxt
                return outs + brk
            if R[0] == "map" and R[1] is None and not R[2]:
                return N(VOID, s)
            ks = explicit_keys(R)
            if ks is not None:
                outs, brk = N(VOID, s), []
                for key in ks:
                    nxt = []
                    for o in outs:
                        for o2 in body(("@", self.ext(loc, ("p", key))), o.st):
                            if o2.k in ("n", "c"):
                                nxt.append(Out("n", VOID, o2.st))
                            elif o2.k == "b":
                                brk.append(Out("n", VOID, o2.st))
                            else:
                                brk.append(o2)
                    outs = nxt
                return outs + brk
            n = ("n", self.loopdepth)
            if ismap:
                key = ("ekey", R, n)
                el = ("@", self.ext(loc, ("p", key)))
            elif tn in self.SETS:
                key = ("ekey", R, n)
                el = key
            else:
                key = ("eidx", R, n)
                el = ("@", self.ext(loc, ("i", key)))
            return self.loop(R, n, key, lambda s2: body(el, s2), s, line, ismap or tn in self.SETS)
        return bind(self.rd(loc, st), go)

    def loop(self, R, n, key, body, st, line, ismap):
        """summarises a loop whose body sees one generic element `key` of R"""
        if ismap:
            if all(b for b, _ in self.map_empty(R, st.clone())):
                return N(VOID, st)
        elif key[0] == "eidx" and not any(b for b, _ in self.pos(seq_len(R) if R[0] != "range" else R[1], st.clone())):
            return N(VOID, st)
        pre = st.clone()
        cnt0 = self.cnt
        # an element exists
        if not ismap:
            ln = seq_len(R) if R[0] != "range" else R[1]
            if key[0] == "eidx":
                st.facts[("pos", lin_sub(ln, key))] = True
        else:
            st.facts[("isempty", R)] = False
        start_facts = dict(st.facts)
        self.loopdepth += 1
        try:
            outs = body(st)
            return self.summarise(R, n, key, body, pre, start_facts, outs, cnt0, line, ismap)
        finally:
            self.loopdepth -= 1

    def outer(self, root, cnt0):
        return not (root[0] in ("v", "t", "unkroot", "h") and root[1] > cnt0)

    def delta(self, pre, st, cnt0):
        d = {}
        for r, v in st.store.items():
            if not self.outer(r, cnt0):
                continue
            old = pre.store.get(r)
            if old is None:
                old = self.initial(r)
            if old != v:
                d[r] = (old, v)
        return d

    def leaves(self, old, new, path=()):
        if old == new:
            return []
        if new[0] == "rec":
            out = []
            for k, x in new[2]:
                if old[0] == "rec":
                    o = rec_get(old, k)
                    if o is None:
                        o = ("fld", old[3], k) if old[3] is not None else ("unk", 0, "")
                else:
                    o = ("fld", old, k)
                out += self.leaves(o, x, path + (("f", k),))
            return out
        return [(path, old, new)]

    def classify(self, old, new):
        """how one iteration changed a leaf"""
        if new[0] == "seq":
            po, pn = as_seq(old)[1], new[1]
            if pn[:len(po)] == po and all(p[0] in ("e", "comp") for p in pn[len(po):]):
                return ("push", pn[len(po):])
        if new[0] == "cat":
            po = old[1] if old[0] == "cat" else (old,)
            if old == C(""):
                po = ()
            if new[1][:len(po)] == po:
                return ("cat", new[1][len(po):])
            if po and po[-1][0] == "c" and new[1][:len(po) - 1] == po[:-1] and new[1][len(po) - 1][0] == "c" and \
                    str(new[1][len(po) - 1][1]).startswith(str(po[-1][1])):
                return ("cat", (C(str(new[1][len(po) - 1][1])[len(str(po[-1][1])):]),) + new[1][len(po):])
        if new[0] == "c" and old[0] == "c" and isinstance(new[1], str) and isinstance(old[1], str) \
                and new[1].startswith(old[1]):
            return ("cat", (C(new[1][len(old[1]):]),))
        if new[0] == "map" or old[0] == "map":
            mo, mn = as_map(old), as_map(new)
            if mo[1] == mn[1] and mn[2][:len(mo[2])] == mo[2]:
                return ("put", mn[2][len(mo[2]):])
        if new[0] != "seq" and not contains(new, old):
            return ("set", new)
        d = lin_sub(new, old) if lin_parts(new) is not None and lin_parts(old) is not None else None
        if d is not None and isc(d):
            return ("add", d[1])
        return None

    def newfacts(self, st, start):
        return {k: v for k, v in st.facts.items() if start.get(k) != v}

    def summarise(self, R, n, key, body, pre, start, outs, cnt0, line, ismap):
        nn = [o for o in outs if o.k in ("n", "c")]
        other = [o for o in outs if o.k not in ("n", "c")]
        exits = []
        changed = {}          # (root, path) -> list of (classification | "same")
        deltas = []
        for o in nn:
            d = {}
            for r, (a, b) in self.delta(pre, o.st, cnt0).items():
                # undo rewrites on the old value so that both sides are comparable
                a2 = o.st.nz(a)
                for p, x, y in self.leaves(a2, b):
                    d[(r, p)] = (x, y)
            deltas.append(d)
            for k in d:
                changed.setdefault(k, None)
        kinds = {}
        for k in changed:
            ks = set()
            for d in deltas:
                if k in d:
                    c = self.classify(*d[k])
                    ks.add(c[0] if c else "?")
            kinds[k] = ks
        bad = any(len(ks) != 1 or "?" in ks for ks in kinds.values())
        mode = set().union(*kinds.values()) if kinds else set()

        def finish(outs2):
            res = []
            for o in outs2:
                res.append(o)
            return res

        if not changed:
            base_exit = pre.clone()
            effs = tuple(o.st.eff[len(pre.eff):] for o in nn)
            if any(effs):
                base_exit.eff = base_exit.eff + ((("loop", tuple(x for x in effs if x)), base_exit.site()),)
            ex = [base_exit]
            res = []
            for o in other:
                K = self.matched(o, key, start, n)
                if K is not None and ismap:
                    ex = [s for e0 in ex for b, s in self.has(R, K, e0) if not b]
                    for b, s in self.has(R, K, o.st):
                        if b:
                            res.append(Out("n" if o.k == "b" else o.k, VOID if o.k == "b" else s.nz(o.v), s))
                else:
                    self.rename(o, n, key)
                    res.append(Out("n" if o.k == "b" else o.k, VOID if o.k == "b" else o.v, o.st))
            # a body that always leaves: the loop is left normally only when the range is empty
            if not nn and other:
                ex2 = []
                for s in ex:
                    if ismap:
                        ex2 += [s2 for b, s2 in self.map_empty(R, s) if b]
                    elif R[0] == "range":
                        ex2 += [s2 for b, s2 in self.pos(R[1], s) if not b]
                    else:
                        ex2 += [s2 for b, s2 in self.pos(seq_len(R), s) if not b]
                ex = ex2
            return [Out("n", VOID, s) for s in ex] + res

        if not bad and mode <= {"set"}:
            # flags and "last match" assignments
            res = []
            s0 = pre.clone()
            ex = [s0]
            for o in other:
                K = self.matched(o, key, start, n)
                if K is not None and ismap:
                    ex = [s for e0 in ex for b, s in self.has(R, K, e0) if not b]
                    for b, s in self.has(R, K, o.st):
                        if b:
                            res.append(Out("n" if o.k == "b" else o.k, VOID if o.k == "b" else s.nz(o.v), s))
                else:
                    self.rename(o, n, key)
                    res.append(Out("n" if o.k == "b" else o.k, VOID if o.k == "b" else o.v, o.st))
            for o, d in zip(nn, deltas):
                if not d:
                    continue
                K = self.matched(o, key, start, n)
                if K is not None and ismap:
                    ex = [s for e0 in ex for b, s in self.has(R, K, e0) if not b]
                    for b, s in self.has(R, K, o.st):
                        if b:
                            res.append(Out("n", VOID, s))
                else:
                    self.rename(o, n, key)
                    res.append(Out("n", VOID, o.st))
            return [Out("n", VOID, s) for s in ex] + res

        if not bad and mode <= {"push", "cat", "put", "add"}:
            common = None
            nfs = [self.newfacts(o.st, start) for o in nn]
            ex = pre.clone()
            okall = True
            for (r, p) in changed:
                alts = []
                for o, d, nf in zip(nn, deltas, nfs):
                    if (r, p) in d:
                        c = self.classify(*d[(r, p)])
                        alts.append((frozenset(nf.items()), c[1]))
                    else:
                        alts.append((frozenset(nf.items()), ()))
                alts = self.simplify_alts(alts)
                kind = next(iter(kinds[(r, p)]))
                old = self.selq(pre.store.get(r, self.initial(r)), p)
                if old is None:
                    okall = False
                    break
                if kind == "push":
                    nv = ("seq", as_seq(old)[1] + (("comp", R, n, alts),))
                elif kind == "cat":
                    nv = mkcat((old, ("comp", R, n, alts)))
                elif kind == "add":
                    nv = lin_add(old, ("count", R, n, alts))
                else:
                    nv = self.mapcomp(old, R, n, key, alts)
                if nv is None:
                    okall = False
                    break
                for o2 in self.wr((r, p), nv, ex):
                    ex = o2.st
            if okall:
                res = [Out("n", VOID, ex)]
                if other:
                    # earlier iterations may already have contributed
                    pre2 = pre.clone()
                    for (r, p) in changed:
                        old = self.selq(pre.store.get(r, self.initial(r)), p)
                        k = next(iter(kinds[(r, p)]))
                        nv = ("seq", as_seq(old)[1] + (("part", self.fresh("x")[1]),)) if k == "push" else self.unk("partial")
                        for o2 in self.wr((r, p), nv, pre2):
                            pre2 = o2.st
                    s3 = pre2.clone()
                    s3.facts = dict(start)
                    for o in body(s3):
                        if o.k in ("n", "c"):
                            continue
                        self.rename(o, n, key)
                        res.append(Out("n" if o.k == "b" else o.k, VOID if o.k == "b" else o.v, o.st))
                return res
        # anything else: forget what the body may change
        return self.havoc_loop(pre, start, changed, deltas, body, n, key)

    def simplify_alts(self, alts):
        """drops facts that every alternative shares"""
        if alts:
            shared = frozenset.intersection(*[a[0] for a in alts])
            alts = [(a[0] - shared, a[1]) for a in alts]
        alts = [(frozenset(f for f in a[0] if f[0][0] not in ("ismap", "isempty")), a[1]) for a in alts]
        return tuple(sorted(set(alts), key=repr))

    def mapcomp(self, old, R, n, key, alts):
        puts = [a for a in alts if a[1]]
        nop = [a for a in alts if not a[1]]
        if len(puts) != 1 or len(puts[0][1]) != 1:
            return None
        (k, v), = puts[0][1]
        if v is None:
            return None
        if not nop:
            if old == EMPTYMAP and k == key and v in (("sel", R, key),):
                return R
            return ("map", ("mapof", "last", old, R, n, k, v), ())
        if len(nop) == 1 and all(f[0][0] == "has" for f in puts[0][0]) and len(puts[0][0]) <= 1:
            return ("map", ("mapof", "first", old, R, n, k, v), ())
        # insertion into an initially empty map under "absent": also first wins
        return None

    def selq(self, v, path):
        for s in path:
            if s[0] != "f":
                return None
            if v[0] == "rec":
                x = rec_get(v, s[1])
                v = x if x is not None else (("fld", v[3], s[1]) if v[3] is not None else None)
                if v is None:
                    return None
            else:
                v = ("fld", v, s[1])
        return v

    def havoc_loop(self, pre, start, changed, deltas, body, n, key):
        pre2 = pre.clone()
        roots = set(changed)
        for (r, p) in roots:
            for o2 in self.wr((r, p), self.unk("changed in loop"), pre2):
                pre2 = o2.st
        s3 = pre2.clone()
        s3.facts = dict(start)
        res = [Out("n", VOID, pre2)]
        for o in body(s3):
            if o.k in ("n", "c"):
                continue
            self.rename(o, n, key)
            res.append(Out("n" if o.k == "b" else o.k, VOID if o.k == "b" else o.v, o.st))
        self.unmodelled.add("loop")
        return res

    def matched(self, o, key, start, n):
        """K if the only condition of this outcome is element == K"""
        if o.st.sub.get(key) is None:
            return None
        K = o.st.sub[key]
        if contains(K, n):
            return None
        own = {k for k, _ in key[1][2]} if key[0] == "ekey" and key[1][0] == "map" else ()
        nf = self.newfacts(o.st, {subst(k, {key: K}): v for k, v in start.items()})
        for k, v in nf.items():
            if k[0] == "eq" and v:
                continue
            if k[0] == "eq" and K in k[1:] and any(x in own for x in k[1:]):     # it is not one of the entries known by name
                continue
            if k[0] == "has" and v and k[2] == K:
                continue
            if k[0] == "isempty":
                continue
            return None
        return K

    def rename(self, o, n, key):
        m = {n: self.fresh("nf")}
        st = o.st
        st.store = {subst(k, m): subst(v, m) for k, v in st.store.items()}
        st.facts = {subst(k, m): v for k, v in st.facts.items()}
        st.env = {k: subst(v, m) for k, v in st.env.items()}
        st.eff = tuple((subst(e, m), s) for e, s in st.eff)
        st.sub = {subst(k, m): subst(v, m) for k, v in st.sub.items()}
        if isinstance(o.v, tuple):
            o.v = subst(o.v, m)

    def assigned_ids(self, s):
        out = set()
        for x in walk(s):
            if x.get("k") == "asg" or (x.get("k") == "un" and x.get("op") in ("++", "--")):
                t = x.get("a") if x["k"] == "asg" else x.get("e")
                while t and t["k"] in ("mem", "cast"):
                    t = t.get("b") or t.get("e")
                if t and t["k"] == "ref" and "d" in t:
                    out.add(t["d"])
            if x.get("k") == "call" and x.get("op") in ("++", "--", "=", "+=", "-="):
                t = x.get("o") or (x["a"][0] if x.get("a") else None)
                if t and t["k"] == "ref" and "d" in t:
                    out.add(t["d"])
        return out

    def is_incr(self, e, d):
        if e is None:
            return False
        if e["k"] == "un" and e["op"] == "++" and e["e"]["k"] == "ref" and e["e"].get("d") == d:
            return True
        if e["k"] == "call" and e.get("op") == "++" and "o" in e and e["o"]["k"] == "ref" and e["o"].get("d") == d:
            return True
        if e["k"] == "asg" and e["op"] == "+=" and e["a"]["k"] == "ref" and e["a"].get("d") == d and \
                e["b"].get("k") == "int" and e["b"]["v"] == "1":
            return True
        return False

    def is_decr(self, e, d):
        if e is None:
            return False
        if e["k"] == "un" and e["op"] == "--" and e["e"]["k"] == "ref" and e["e"].get("d") == d:
            return True
        return e["k"] == "asg" and e["op"] == "-=" and e["a"]["k"] == "ref" and e["a"].get("d") == d and \
            e["b"].get("k") == "int" and e["b"]["v"] == "1"

    def descending(self, s, v):
        """(bound expression, iterations beyond start - bound, offset of the first value) of a loop that counts down"""
        def isv(x):
            while x is not None and x["k"] == "cast":
                x = x["e"]
            return x is not None and x["k"] == "ref" and x.get("d") == v["id"]
        c = s["c"]
        if c["k"] != "bin" or not (v["t"].bare in INTS):
            return None
        a, b, op = c["a"], c["b"], c["op"]
        if isv(b) and not isv(a):
            a, b, op = b, a, {"<": ">", "<=": ">=", "!=": "!="}.get(op)
        if self.is_decr(s.get("inc"), v["id"]) and isv(a):
            if op in (">", "!="):
                return b, 0, 0
            if op == ">=" and v["t"].bare in ("int", "long", "long long"):
                return b, 1, 0
            return None
        x = a
        while x is not None and x["k"] == "cast":
            x = x["e"]
        if not s.get("inc") and x is not None and x["k"] == "un" and x["op"] == "--" and x.get("post") and isv(x["e"]) and op in (">", "!="):
            return b, 0, -1
        return None

    def ex_for(self, s, st):
        # counted and iterator loops become element loops; anything else is treated generally
        init = s.get("init")
        if init and init["k"] == "decl" and s.get("c"):
            for v in init["v"]:
                if not v["t"].isref() and v["id"] not in self.assigned_ids(s["b"]):
                    d = self.descending(s, v)
                    if d is not None:
                        return self.countdown(s, v, d, st)
        if init and init["k"] == "decl" and s.get("c") and s.get("inc"):
            inc = s["inc"]
            for v in init["v"]:
                if not v["t"].isref() and self.is_incr(inc, v["id"]) and v["id"] not in self.assigned_ids(s["b"]):
                    return self.counted(s, v, st)
        outs = self.ex(init, st) if init else N(VOID, st)
        return bind(outs, lambda _, s2: self.general_loop(s.get("c"), s["b"], s.get("inc"), s2, False))

    def ex_while(self, s, st):
        # while with a trailing increment of a plain counter/iterator declared before
        b = s["b"]
        if b["k"] == "block" and b["b"] and s.get("c"):
            last = b["b"][-1]
            d = None
            if last["k"] == "un" and last["op"] == "++" and last["e"]["k"] == "ref":
                d = last["e"].get("d")
            if last["k"] == "call" and last.get("op") == "++" and "o" in last and last["o"]["k"] == "ref":
                d = last["o"].get("d")
            rest = {"k": "block", "b": b["b"][:-1]}
            conts = any(x.get("k") == "continue" for x in walk(rest))
            if d is not None and d in st.env and d not in self.assigned_ids(rest) and not conts:
                return self.counted({"c": s["c"], "b": rest, "l": s.get("l"), "inc": last}, {"id": d}, st, declared=True)
        return self.general_loop(s["c"], s["b"], None, st, False)

    def ex_do(self, s, st):
        return self.general_loop(s["c"], s["b"], None, st, True)

    def counted(self, s, v, st, declared=False):
        outs = N(VOID, st) if declared else self.ex(s["init"], st)

        def go(_, s2):
            loc = s2.env[v["id"]]

            def g(v0, s3):
                # the bound: evaluate both sides of the comparison
                c = s["c"]
                lim = None
                if c["k"] == "bin" and c["op"] in ("<", "!=", ">", "<=", ">="):
                    a, b = c["a"], c["b"]
                    op = c["op"]
                elif c["k"] == "call" and c.get("op") in ("!=", "<", ">"):
                    op = c["op"]
                    xs = ([c["o"]] if "o" in c else []) + c["a"]
                    a, b = (xs + [None, None])[:2]
                elif c["k"] == "un" and c["op"] == "!" and c["e"]["k"] == "call" and c["e"].get("op") == "==":
                    op = "!="
                    xs = ([c["e"]["o"]] if "o" in c["e"] else []) + c["e"]["a"]
                    a, b = (xs + [None, None])[:2]
                else:
                    a = b = None

                def isv(x):
                    while x is not None and x["k"] == "cast":
                        x = x["e"]
                    return x is not None and x["k"] == "ref" and x.get("d") == v["id"]
                if op_ok(c) and isv(b) and not isv(a):
                    a, b = b, a
                    op = {">": "<", "!=": "!=", "<": ">", ">=": "<="}.get(op)
                if a is None or not isv(a) or b is None or op not in ("<", "!=", "<="):
                    return self.general_loop(s["c"], s["b"], s.get("inc"), s3, False)

                def h(lv, s4):
                    if op == "<=":
                        if lin_parts(v0) is None or lin_parts(lv) is None or v0[0] == "it" or lv[0] == "it":
                            return self.general_loop(s["c"], s["b"], s.get("inc"), s4, False)
                        lv = lin_add(lv, C(1))

                    def body_with(val, s5):
                        s5.store[loc[0]] = val
                        return self.ex(s["b"], s5)
                    if v0[0] == "it" and lv[0] == "it" and v0[1] == lv[1] and v0[2] == ("begin",) and lv[2] == ("end",):
                        cloc = v0[1]

                        def over(R, s5):
                            ismap = s5.facts.get(("ismap", cloc), False) or R[0] == "map"
                            if R[0] == "map" and R[1] is None and not R[2]:
                                return N(VOID, s5)
                            if not ismap and R[0] == "seq" and R[1] and all(p[0] == "e" for p in R[1]) and len(R[1]) <= 12:
                                outs, leave, same = N(VOID, s5.clone()), [], True
                                for i in range(len(R[1])):
                                    nxt = []
                                    for o in outs:
                                        for o2 in body_with(("it", cloc, ("i", C(i))), o.st):
                                            for o3 in self.rd(cloc, o2.st):
                                                same = same and o3.v[0] == "seq" and len(o3.v[1]) == len(R[1])
                                            if o2.k in ("n", "c"):
                                                nxt.append(Out("n", VOID, o2.st))
                                            else:
                                                leave.append(Out("n", VOID, o2.st) if o2.k == "b" else o2)
                                    outs = nxt
                                if same:
                                    for o in outs:
                                        o.st.store[loc[0]] = lv
                                    return outs + leave
                            ks = explicit_keys(R)
                            if ks is not None:
                                outs, leave, same = N(VOID, s5.clone()), [], True
                                for key in ks:
                                    nxt = []
                                    for o in outs:
                                        for o2 in body_with(("it", cloc, ("k", key)), o.st):
                                            for o3 in self.rd(cloc, o2.st):
                                                same = same and explicit_keys(o3.v) == ks
                                            if o2.k in ("n", "c"):
                                                nxt.append(Out("n", VOID, o2.st))
                                            else:
                                                leave.append(Out("n", VOID, o2.st) if o2.k == "b" else o2)
                                    outs = nxt
                                if same:
                                    for o in outs:
                                        o.st.store[loc[0]] = lv
                                    return outs + leave
                            n = ("n", self.loopdepth)
                            if ismap:
                                key = ("ekey", R, n)
                                it = ("it", cloc, ("k", key))
                            else:
                                key = ("eidx", R, n)
                                it = ("it", cloc, ("i", key))
                            end = lv
                            outs = self.loop(R, n, key, lambda s6: self.keepvar(loc, body_with(it, s6), v0), s5,
                                             s.get("l"), ismap)
                            return self.countervalue(outs, loc, lv, s, s5, None) if declared else outs
                        return bind(self.rd(cloc, s4), over)
                    if lin_parts(v0) is not None and lin_parts(lv) is not None and v0[0] != "it" and lv[0] != "it":
                        if isc(v0) and isc(lv) and isinstance(v0[1], int) and isinstance(lv[1], int) and lv[1] - v0[1] <= 10:
                            outs, leave = N(VOID, s4), []
                            for i in range(v0[1], lv[1]):
                                nxt = []
                                for o in outs:
                                    for o2 in body_with(C(i), o.st):
                                        if o2.k in ("n", "c"):
                                            nxt.append(Out("n", VOID, o2.st))
                                        else:
                                            leave.append(Out("n", VOID, o2.st) if o2.k == "b" else o2)
                                outs = nxt
                            for o in outs:
                                o.st.store[loc[0]] = lv
                            return outs + leave
                        n = ("n", self.loopdepth)
                        R = ("range", lin_sub(lv, v0))
                        src = lv[1] if v0 == C(0) and lv[0] == "size" else R
                        key = ("eidx", src, n)
                        outs = self.loop(R if src is R else src, n, key, lambda s6: self.keepvar(
                            loc, body_with(lin_add(v0, key), s6), v0), s4, s.get("l"), False)
                        return self.countervalue(outs, loc, lv, s, s4, lin_sub(lv, v0)) if declared else outs
                    return self.general_loop(s["c"], s["b"], s.get("inc"), s4, False)
                return bind(self.rv(b, s3), h)
            return bind(self.rd(loc, s2), g)
        def op_ok(c):
            return (c["k"] == "bin" and c["op"] in ("<", "!=", ">", "<=", ">=")) or (c["k"] == "call" and c.get("op") in ("!=", "<", ">")) \
                or (c["k"] == "un" and c["op"] == "!")
        return bind(outs, go)

    def countervalue(self, outs, loc, lv, s, st, n):
        """value of a counter declared before the loop, after it"""
        left = any(x.get("k") == "break" for x in walk(s["b"]))
        res = []
        for o in outs:
            if o.k != "n":
                res.append(o)
            elif left:
                o.st.store[loc[0]] = self.unk("counter")
                res.append(o)
            elif n is None:
                o.st.store[loc[0]] = lv
                res.append(o)
            else:
                for b, s2 in self.pos(n, o.st):
                    if b:
                        s2.store[loc[0]] = s2.nz(lv)
                    res.append(Out("n", o.v, s2))
        return res

    def countdown_index(self, v0, lv, first, extra, key):
        return lin_sub(lin_add(v0, C(first)), key)

    def countdown(self, s, v, d, st):
        bound, extra, first = d

        def go(_, s2):
            loc = s2.env[v["id"]]

            def g(v0, s3):
                def h(lv, s4):
                    if lin_parts(v0) is None or lin_parts(lv) is None or v0[0] == "it" or lv[0] == "it" or \
                            (isc(v0) and isc(lv)):
                        return self.general_loop(s["c"], s["b"], s.get("inc"), s4, False)
                    num = lin_add(lin_sub(v0, lv), C(extra))
                    n = ("n", self.loopdepth)
                    R = ("range", num)
                    key = ("eidx", R, n)
                    idx = self.countdown_index(v0, lv, first, extra, key)

                    def body(s5):
                        s5.store[loc[0]] = idx
                        return self.keepvar(loc, self.ex(s["b"], s5), v0)
                    return self.loop(R, n, key, body, s4, s.get("l"), False)
                return bind(self.rv(bound, s3), h)
            return bind(self.rd(loc, s2), g)
        return bind(self.ex(s["init"], st), go)

    def keepvar(self, loc, outs, v0):
        """normal completion does not count the loop variable as changed"""
        for o in outs:
            if o.k in ("n", "c"):
                o.st.store[loc[0]] = v0
        return outs

    def general_loop(self, c, b, inc, st, dowhile):
        """havoc-based loop: sound, imprecise"""
        pre = st.clone()
        cnt0 = self.cnt
        changed = {}
        self.loopdepth += 1
        try:
            def once(s):
                outs = []
                if c is not None and not dowhile:
                    outs = self.branch(c, s, lambda s2: N(TRUE, s2), lambda s2: N(FALSE, s2))
                else:
                    outs = N(TRUE, s)
                res, leave = [], []
                for o in outs:
                    if o.k == "n" and o.v == FALSE:
                        leave.append(Out("n", VOID, o.st))
                        continue
                    if o.k != "n":
                        leave.append(o)
                        continue
                    for o2 in self.ex(b, o.st):
                        if o2.k in ("n", "c"):
                            if inc is not None:
                                for o3 in self.exprstmt(inc, o2.st):
                                    (res if o3.k == "n" else leave).append(o3)
                            else:
                                res.append(o2)
                        elif o2.k == "b":
                            leave.append(Out("n", VOID, o2.st))
                        else:
                            leave.append(o2)
                if dowhile and c is not None:
                    res2 = []
                    for o in res:
                        for o2 in self.branch(c, o.st, lambda s2: N(TRUE, s2), lambda s2: N(FALSE, s2)):
                            if o2.k == "n" and o2.v == FALSE:
                                leave.append(Out("n", VOID, o2.st))
                            elif o2.k == "n":
                                res2.append(o2)
                            else:
                                leave.append(o2)
                    res = res2
                return res, leave
            # a few exact passes when the loop ends by itself
            cur, done = [st], []
            for _ in range(3):
                nxt = []
                for s in cur:
                    r, l = once(s)
                    done += l
                    nxt += [o.st for o in r]
                cur = nxt
                if not cur:
                    return done
                if len(cur) > 16:
                    break
            # give up: forget everything the body touched
            for s in cur:
                for r, (x, y) in self.delta(pre, s, cnt0).items():
                    for p, _, _ in self.leaves(s.nz(x), y):
                        changed[(r, p)] = 1
            h = pre.clone()
            for (r, p) in changed:
                for o in self.wr((r, p), self.unk("changed in loop"), h):
                    h = o.st
            self.unmodelled.add("general loop")
            r, l = once(h)
            return done + l
        finally:
            self.loopdepth -= 1
