"""Runs interface functions of the repository on abstract objects and compares what callers observe."""
from .absint import Interp, St, Out, S, C, has_unk, Undecided, NULL, TRUE, FALSE, VOID   # noqa: F401
from .engine import Broken


class Fail(Exception):
    pass


class Lab:
    """one abstract world: an interpreter plus object constructors"""

    def __init__(self, P, rep):
        self.P, self.rep = P, rep
        self.I = Interp(P)
        self.I.narrow32 = getattr(P, "variant", "") in ("core", "debug")
        rep.labs.append(self)

    # ---------------------------------------------------------------- lookup
    def fns(self, q, **kw):
        out = []
        for f in self.P.byq(q):
            if f.b is None and not f.implicit:
                continue
            if "n" in kw and len(f.p) != kw["n"]:
                continue
            if "const" in kw and f.const != kw["const"]:
                continue
            if "where" in kw and not kw["where"](f):
                continue
            out.append(f)
        return out

    def fn(self, q, **kw):
        r = self.fns(q, **kw)
        if not r:
            raise Broken("interface function not found: %s %s" % (q, {k: v for k, v in kw.items() if k != "where"}))
        return sorted(r, key=lambda f: (f.implicit, f.u))[0]

    # ---------------------------------------------------------------- states
    def start(self):
        self.I.nstates = 0
        return St()

    def obj(self, st, name, term=None, typ=None):
        """a fresh object called name whose contents are the symbol (or term) given"""
        root = ("p", name)
        st.store[root] = term if term is not None else S(name)
        return (root, ())

    def blank(self, st, name, rec):
        root = ("p", name)
        st.store[root] = ("rec", rec, (), None)
        return (root, ())

    def call(self, st, f, this=None, *args):
        """outcomes of calling f; the state given is not changed"""
        s = st.clone()
        a = []
        for x, p in zip(args, f.p):
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple) and isinstance(x[1], tuple) \
                    and x[0] and isinstance(x[0][0], str) and x[0][0] in ("p", "v", "t", "g", "h", "deref", "unkroot"):
                a.append(("@", x))
            else:
                a.append(x)
        self.rep.note_fn(f)
        if f.implicit and f.b is None:
            outs = self.implicit(f, this, a, s)
        else:
            outs = self.I.enter(f, this, tuple(a), s)
        return outs

    def implicit(self, f, this, a, s):
        """implicitly defined copy/move operations are member-wise"""
        from .absint import bind
        I = self.I
        if f.ctor in (2, 3) or f.n == "operator=":
            return bind(I.val(a[0], s), lambda v, s2: bind(I.wr(this, v, s2), lambda _, s3: [Out("n", ("@", this), s3)]))
        if f.ctor == 4:
            return I.default_init(f.c, this, s)
        raise Broken("implicit function " + f.q)

    def read(self, o_or_st, v):
        """[(value, state)] of a result that may be a reference"""
        st = o_or_st.clone()
        if v[0] == "@":
            return [(st2.v, st2.st) for st2 in self.I.rd(v[1], st)]
        return [(st.nz(v), st)]

    def rd(self, st, loc):
        s = st.clone()
        return [(o.v, o.st) for o in self.I.rd(loc, s)]

    # ---------------------------------------------------------------- judging
    def tainted(self, st, *terms):
        """does this path or value depend on something the analysis does not know?"""
        if st.facts.get(("taint",)):
            return True
        for k in st.facts:
            if has_unk(k):
                return True
        return any(has_unk(st.nz(t)) for t in terms if isinstance(t, tuple))

    def eq(self, st, a, b):
        """[(truth, state)] of two values being equal, forking if unknown"""
        return self.I.eqv(a, b, st.clone())

    def where(self, st, f=None):
        for _, site in reversed(st.eff):
            return site[0]
        return f.where if f else "?"


def show(t, depth=0):
    """readable rendering of a term"""
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    k = t[0]
    if depth > 6:
        return "..."
    sh = lambda x: show(x, depth + 1)   # noqa: E731
    if k == "c":
        return repr(t[1])
    if k == "s":
        return t[1]
    if k == "fld":
        return "%s.%s" % (sh(t[1]), t[2])
    if k == "sel":
        return "%s[%s]" % (sh(t[1]), sh(t[2]))
    if k == "elt":
        return "%s[%s]" % (sh(t[1]), sh(t[2]))
    if k == "glob":
        return str(t[1]).split("@")[-1]
    if k == "exc":
        return "exception %s" % t[1]
    if k == "lin":
        return " + ".join((["%d" % t[1]] if t[1] else []) + ["%s%s" % ("" if c == 1 else "%d*" % c, sh(x)) for x, c in t[2]])
    if k in ("size", "len"):
        return "size(%s)" % sh(t[1])
    if k == "unk":
        return "?"
    if isinstance(k, str):
        return "%s(%s)" % (k, ", ".join(sh(x) for x in t[1:]))
    return "(" + ", ".join(sh(x) for x in t) + ")"


def path_text(st, P):
    out = []
    for line, key, truth in st.trace[-12:]:
        out.append("line %s: %s is %s" % (line, show(key), truth))
    return out


class Law:
    """one obligation: collects what the paths of a composed call sequence show"""

    def __init__(self, lab, rid, what, f=None, key=None):
        self.lab, self.rid, self.what, self.f = lab, rid, what, f
        self.key = key
        self.fails, self.unds, self.npaths = [], [], 0

    watcher = None      # told about every law that has been run

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        rep = self.lab.rep
        if Law.watcher is not None:
            Law.watcher(self)
        rep.paths += self.npaths
        site = self.f.where if self.f is not None else ""
        if site.startswith(self.lab.P.repo + "/"):
            site = site[len(self.lab.P.repo) + 1:]
        if et is not None and issubclass(et, Broken):
            return False
        if et is not None and et is not Fail:
            import traceback
            rep.undecided(self.rid, self.what, site, "analysis limit: %s %s" % (
                et.__name__, "".join(traceback.format_tb(tb)[-2:])[:600] + str(ev)[:200]))
            return True
        if self.fails:
            d, path = self.fails[0]
            rep.bad(self.rid, self.what, site, d, path, key=self.key)
        elif self.unds:
            rep.undecided(self.rid, self.what, site, self.unds[0])
        elif self.npaths == 0:
            rep.undecided(self.rid, self.what, site, "no path reached the observation")
        else:
            rep.ok(self.rid, self.what, site)
        return True

    # ------------------------------------------------------------------
    def run(self, st, f, this, *args):
        if self.f is None:
            self.f = f
        outs = self.lab.call(st, f, this, *args)
        self.npaths += len(outs)
        return outs

    def fail(self, st, msg, *terms):
        oob = [e for e, _ in st.eff if e[0] == "oob"]
        if oob:
            # everything before the access is understood; after it the behaviour is undefined
            self.fails.append(("%s (element %s of %s is accessed without being there)" % (
                msg, show(oob[0][2])[:80], show(oob[0][1])[:80]), path_text(st, self.lab.P)))
            return
        if self.lab.tainted(st, *terms):
            self.unds.append("path with unknown values: " + msg)
            return
        self.fails.append((msg, path_text(st, self.lab.P)))

    def kind(self, o, want, what):
        """want: "n" or ("t", exception type[s]) or "x"; True when it is as wanted"""
        names = {"n": "returns", "t": "throws", "x": "ends the program"}
        if isinstance(want, str):
            if o.k == want:
                return True
            self.fail(o.st, "%s: %s instead of %s%s" % (what, names.get(o.k, o.k), names.get(want, want),
                                                        " (%s)" % show(o.v) if o.k == "t" else ""), o.v)
            return False
        if o.k != "t":
            self.fail(o.st, "%s: %s instead of throwing" % (what, names.get(o.k, o.k)), o.v if o.k == "x" else VOID)
            return False
        types = want[1] if isinstance(want[1], tuple) else (want[1],)
        if not types or types == (None,):
            return True
        if o.v[0] == "exc" and any(self.lab.I.derives(o.v[1], t) for t in types):
            return True
        self.fail(o.st, "%s: throws %s, expected %s" % (what, show(o.v), "/".join(types)), o.v)
        return False

    def same(self, st, got, want, what):
        st = st
        g, w = st.nz(got), st.nz(want)
        if g == w:
            return True
        if w in (TRUE, FALSE) and isinstance(w[1], bool) and isinstance(g, tuple) and g and g[0] in ("ret", "fld", "s", "op", "sel", "anyval"):
            sides = [(b == w[1], s) for b, s in self.lab.I.truth(g, st.clone())]
        else:
            sides = self.lab.I.eqv(g, w, st.clone())
        for t, s in sides:
            if not t:
                self.fail(s, "%s: %s, expected %s" % (what, show(g), show(w)), g, w)
                return False
        return True

    def val(self, o, want, what):
        """the value of a normal outcome (through a reference) equals want"""
        ok = True
        for v, s in self.lab.read(o.st, o.v):
            ok = self.same(s, v, want, what) and ok
        return ok

    def split(self, st, a, b):
        return self.lab.eq(st, a, b)
