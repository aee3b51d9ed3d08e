"""Copies and clones (C29)."""
from .absint import C, S
from .engine import load
from .fv import World
from .lab import Law, show
from .poly import renorm
from .rules import rule

I_ = S("i")
PTRS = ("std::unique_ptr",)


def unknown(law, msg):
    law.unds.append(msg)


def und(law, st, msg):
    law.unds.append(msg)


def bad(law, st, msg):
    law.fail(st, msg)


def isfield(t):
    return t is not None and (t.strip().tn == "NeoFOAM::Field" or (t.strip().rec or "").startswith("NeoFOAM::Field<")) and not t.isref()


def short(cls):
    for a in ("NeoFOAM::", "finiteVolume::cellCentred::"):
        cls = cls.replace(a, "")
    return cls.replace("unsigned int", "localIdx")


class Copies(World):
    moving = False

    def bases(self, cls):
        """the class and its bases, nearest first, without those the analysis has no members of"""
        r, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            rec = self.P.records.get(c)
            if rec is None or c in r:
                continue
            r.append(c)
            todo += rec.get("bases", ())
        return r

    def members(self, cls):
        for c in self.bases(cls):
            for x in self.P.records[c].get("fields", ()):
                if not x.get("static"):
                    yield x

    def rd1(self, loc, st):
        outs = self.I.rd(loc, st)
        return outs[0].v if len(outs) == 1 else None

    def arrays(self, loc, st):
        try:
            A = self.I.finfo(self.I, loc, st)
        except Exception:           # not a field
            return None
        return A

    def same(self, new, old, st, st0, law, what, depth=0, t=None):
        """law.bad unless the value at new (in st) is a copy of the one at old (in st0)"""
        v, o = self.rd1(new, st), self.rd1(old, st0)
        if v is None or o is None:
            unknown(law, f"{what}: cannot be read")
            return
        self.cmp(v, o, new, old, st, st0, law, what, depth, t)

    def cmp(self, v, o, new, old, st, st0, law, what, depth, t=None):
        if v == o:
            return
        if isfield(t) and not (v[0] == "rec" and v[3] == o and not v[2]):
            self.cmpfield(v, new, old, st, st0, law, what)
            return
        if v[0] == "@" or o[0] == "@":
            v = self.rd1(v[1], st) if v[0] == "@" else v
            o = self.rd1(o[1], st0) if o[0] == "@" else o
            if v == o and v is not None:
                return
        if v is None or o is None:
            unknown(law, f"{what}: cannot be read")
            return
        if v[0] == "rec" and v[1] == "NeoFOAM::Field":
            self.cmpfield(v, new, old, st, st0, law, what)
            return
        if v[0] == "rec" and v[3] == o and not v[2]:
            return
        cls = v[1] if v[0] == "rec" else None
        if cls is None and v[0] == "rec" and t is not None:
            cls = t.strip().rec
        if v[0] == "rec" and self.P.records.get(cls) is not None and depth < 6:
            if o[0] == "rec" and o[1] != v[1]:
                law.fail(st, f"{what} is a {short(v[1])} where the original is a {short(o[1])}")
                return
            for x in self.members(cls):
                k = (("f", x["n"]),)
                self.same((new[0], new[1] + k), (old[0], old[1] + k), st, st0, law, f"{what}.{x['n']}", depth + 1, x["t"])
            return
        if v[0] == "ptr" and v[1] in ((("deref", o), ()), self.mesh) and (v[1] != self.mesh or o[0] == "fld" and o[2] == self.meshname(what, o)):
            return
        ptr = ("deref", ("upget", o))
        if v[0] == "ret" and v[1] == "clone":
            if v[2] and v[2][0] == (ptr, ()) or v[2] and v[2][0] == ptr:
                return
            law.fail(st, f"{what} is a clone of something else than the original's {what.rsplit('.', 1)[-1]}" + ": " + show(v)[:150])
            return
        if v == ("uptr", C(None)):
            if self.isnull(o, st):
                return
            law.fail(st, f"{what} is empty in the copy although the original may have one")
            return
        if v[0] == "uptr" and v[1][0] == "ptr" and v[1][1][0][0] == "h" and depth < 6:
            r = self.rd1(v[1][1], st)
            if r == ptr or r is not None and r[0] == "rec" and r[3] == ptr and not r[2]:
                return
            if r is not None and r[0] == "rec" and o[0] == "fld":
                st1 = st0.clone()
                root = ("p", "pointee of " + what)
                st1.store[root] = ("rec", r[1], (), ptr)
                self.same(v[1][1], (root, ()), st, st1, law, "*" + what, depth + 1)
                return
        if self.unsure(v):
            unknown(law, f"{what}: {show(v)[:120]} against {show(o)[:80]}")
            return
        law.fail(st, f"{what} is not a copy of the original's" + f": {show(v)[:120]} against {show(o)[:120]}")

    def meshname(self, what, o):
        """the member's name when it is of mesh type"""
        n = o[2]
        for r in self.P.records.values():
            for x in r.get("fields", ()):
                if x["n"] == n and "UnstructuredMesh" in x["t"].s:
                    return n
        return None

    def unsure(self, v):
        from .absint import has_unk
        if has_unk(v):
            return True
        return v[0] in ("ret", "op", "seq", "rec") and "orig" in str(v)

    def isnull(self, o, st):
        if st.nz(o) in (C(None), ("uptr", C(None))) or st.nz(("upget", o)) == C(None):
            return True
        for t in (("upget", o), o, ("op", "bool", o)):
            for k in (("eq0", t), ("eq", t, C(None)), ("eq", C(None), t)):
                if st.facts.get(k) is True:
                    return True
        for k, b in st.facts.items():
            if isinstance(k, tuple) and ("upget", o) in k and ((k[0] in ("eq0", "null", "isnull") and b) or (k[0] in ("nn", "nonnull", "truth", "bool") and not b)):
                return True
        return False

    def cmpfield(self, v, new, old, st, st0, law, what):
        a, b = self.arrays(new, st), self.arrays(old, st0)
        if a is None or b is None:
            unknown(law, f"{what}: field contents cannot be told")
            return
        A, B, k = a[0], b[0], a[3]
        if A == B and self.moving:
            return
        if A == B:
            law.fail(st, f"{what} shares its memory with the original")
            return
        n, want = a[2], b[2]
        x, y = self.elem(A, I_, k, st), self.elem(B, I_, k, st0)
        x, y = (renorm(t) if t[0] == "poly" else t for t in (x, y))
        if x != y:
            (und if self.unsure(x) else bad)(law, st, f"{what} has element i {show(x)[:100]}, the original {show(y)[:100]}")
        if n != want and A[0] == "new":
            law.fail(st, f"{what} has {show(n)[:80]} elements")


def lists(W):
    """(kind, function, class) of everything that copies"""
    for f in sorted(W.P.funcs.values(), key=lambda f: f.u):
        if f.b is None or f.implicit or not f.c or not f.c.startswith("NeoFOAM::"):
            continue
        cls = f.cr or f.c
        if W.P.records.get(cls) is None or "sundials::SKVector" in cls:     # the wrappers are the subject of C42
            continue
        if f.n == "clone" and not f.p:
            yield "clone", f, cls
        elif f.ctor == 2:
            yield "copy", f, cls
        elif f.ctor == 3:
            yield "move", f, cls
        elif f.n == "operator=" and len(f.p) == 1:
            t = f.p[0]["t"]
            if t.k == "rref" and t.strip().rec == cls:
                yield "move-assign", f, cls
            if t.isref() and t.strip().rec == cls and "&&" not in t.s and "const" in t.s:
                yield "assign", f, cls


LIBRARY = ("Field", "TokenList", "Dictionary", "Database", "CSRMatrix", "SegmentedField")     # subjects of their own properties
FRESH = {"RungeKutta"}


@rule("C29")
def c29(rep):
    rep.limit = True
    rep.rule("members", "a copy, a clone or an assigned object has a copy of every part of the original, and of its dynamic type", 25)
    rep.rule("original", "copying leaves the original as it was", 25)
    rep.rule("moved", "an object moved to has everything the original had", 4)
    W = Copies(load("full"), rep)
    for kind, f, cls in lists(W):
        name = cls.split("<")[0].split("::")[-1]
        if name in LIBRARY or "::Register<" in cls:
            continue
        rep.note_fn(f)
        lab = short(cls)
        st = W.start()
        st.store[("p", "o")] = ("rec", cls, (), S("orig"))
        st0 = st.clone()
        o = (("p", "o"), ())
        new = (("p", "c"), ())
        W.moving = kind.startswith("move")
        if W.moving:
            with Law(W, "moved", f"{kind} {lab}", f) as law:
                one(W, kind, f, cls, name, law, None, st, st0, o, new)
            continue
        with Law(W, "members", f"{kind} {lab}", f) as law, Law(W, "original", f"{kind} {lab}", f) as keep:
            one(W, kind, f, cls, name, law, keep, st, st0, o, new)


def one(W, kind, f, cls, name, law, keep, st, st0, o, new):
    if kind == "clone":
        outs = law.run(st, f, o)
    else:
        st.store[("p", "c")] = ("rec", cls, (), S("before") if kind.endswith("assign") else None)
        outs = law.run(st, f, new, ("@", o))
    if keep is not None:
        keep.npaths += len(outs)
    for r in outs:
        if r.k in ("x", "t"):
            law.fail(r.st, "copying ends in an error" + ": " + show(r.v)[:100])
            continue
        loc = new
        if kind == "clone":
            v = r.v
            if v[0] != "uptr" or v[1][0] != "ptr":
                unknown(law, f"the clone is {show(v)[:100]}")
                continue
            loc = v[1][1]
            h = W.rd1(loc, r.st)
            if h is None or h[0] != "rec":
                unknown(law, f"the clone is {show(h)[:100]}")
                continue
            if h[1] != cls:
                law.fail(r.st, f"the clone is a {short(h[1])}")
                continue
        if name in FRESH and (not W.moving or all(W.rd1((loc[0], loc[1] + (("f", x["n"]),)), r.st) == ("uptr", C(None)) for x in W.P.records[cls].get("fields", ()) if "unique_ptr" in x["t"].s)):
            fresh(W, law, loc, o, r.st, st0, cls)
        else:
            for x in W.members(cls):
                k = (("f", x["n"]),)
                W.same((loc[0], loc[1] + k), (o[0], o[1] + k), r.st, st0, law, x["n"], t=x["t"])
        if keep is None:
            continue
        for x in W.members(cls):
            a, b = (W.rd1((o[0], (("f", x["n"]),)), s) for s in (r.st, st0))
            if a != b and r.st.nz(b) != a:
                (und if a is None or W.unsure(a) else bad)(keep, r.st, f"the original's {x['n']} becomes {show(a)[:100]}")
        for kk in r.st.store:
            if kk[0] == "arrc" and kk not in st0.store and "orig" in str(kk[1]) and r.st.store[kk] != ("a0",):
                keep.fail(r.st, f"the contents of {show(kk[1])[:100]} change")


def fresh(W, law, loc, o, st, st0, cls):
    """integrators that set up their working memory when they first solve: what a copy starts from"""
    expr = [x["n"] for x in W.P.records[cls].get("fields", ()) if "Expression" in x["t"].s]
    for c in W.bases(cls)[1:]:
        for x in W.P.records[c].get("fields", ()):
            k = (("f", x["n"]),)
            W.same((loc[0], loc[1] + k), (o[0], o[1] + k), st, st0, law, x["n"], t=x["t"])
    for n in expr:
        k = (("f", n),)
        if W.rd1((loc[0], loc[1] + k), st) == ("uptr", C(None)):
            continue
        W.same((loc[0], loc[1] + k), (o[0], o[1] + k), st, st0, law, n)
