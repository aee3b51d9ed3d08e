"""The finite-volume world: one arbitrary mesh, fields on it, and helpers to run operators on them.

No member name of the repository is assumed: the array behind an accessor is found by interpreting
the accessor on the abstract object."""
from .absint import C, S, St, N, Out, lin_add, lin_sub, has_unk, VOID, bind   # noqa: F401
from .engine import Broken
from .kern import KInterp, LOG, subst   # noqa: F401
from .lab import Lab, Law, show
from . import poly as P

NF_ = "NeoFOAM::"
FV = "NeoFOAM::finiteVolume::cellCentred::"
MESHN = "NeoFOAM::UnstructuredMesh"
BMESHN = "NeoFOAM::BoundaryMesh"
MESH = S("mesh")
BK = ("bk", 1)

# accessor -> (kind, size) with sizes c cells, f faces, i internal faces, b boundary faces
MESHACC = {"cellVolumes": ("F", "c"), "cellCentres": ("V", "c"), "faceAreas": ("V", "f"), "faceCentres": ("V", "f"),
           "magFaceAreas": ("F", "f"), "faceOwner": ("I", "f"), "faceNeighbour": ("I", "i"), "points": ("V", "p")}
BMESHACC = {"faceCells": "I", "cf": "V", "cn": "V", "sf": "V", "magSf": "F", "nf": "V", "delta": "V", "weights": "F",
            "deltaCoeffs": "F"}
CELLVALUED = {"faceOwner", "faceNeighbour", "faceCells"}


def fld(t, *names):
    for n in names:
        t = ("fld", t, n)
    return t


def tk(k):
    return {"F": "double", "V": "NeoFOAM::Vector", "I": "int"}[k]


class World(Lab):
    def __init__(self, P_, rep):
        self.P, self.rep = P_, rep
        self.I = KInterp(P_)
        rep.labs.append(self)
        self.kinds = {}
        self.extra = {}
        self.I.sizes = self.sizes
        self.I.execs = lambda A, st: S("exec")
        self.I.meshloc = self.mesh
        self.derive()

    # ------------------------------------------------------------ lookup
    def pick(self, cls, name, n=None, k=None, where=None):
        """the function of that class (ending) and name; k chooses the instantiation"""
        r = []
        for f in self.P.funcs.values():
            if f.b is None and not f.implicit:
                continue
            if name != f.n and not (name == "#ctor" and f.ctor == 1):
                continue
            if cls is None and f.c or cls is not None and not (f.c or "").endswith(cls):
                continue
            if n is not None and len(f.p) != n:
                continue
            if k is not None and not self.inst(f, k):
                continue
            if where is not None and not where(f):
                continue
            r.append(f)
        return sorted(r, key=lambda f: (f.implicit, f.const is True, f.u))

    def inst(self, f, k):
        """is f the instantiation for that element kind"""
        txt = " ".join([f.q or "", f.cr or ""] + [str(x.get("t")) for x in (f.ta or ()) if isinstance(x, dict)]) if True else ""
        if f.c is None or "<" not in txt:
            txt += " ".join(p["t"].s for p in f.p)
        v = "Vector" in txt
        return v == (k == "V")

    def one(self, *a, **kw):
        r = self.pick(*a, **kw)
        return r[0] if r else None

    def acc(self, st, loc, cls, name, k=None):
        """location an accessor refers to (None when it cannot be told)"""
        for f in self.pick(cls, name, n=0, k=k):
            try:
                outs = self.I.enter(f, loc, (), st.clone())
            except Exception:       # analysis limit: no accessor
                continue
            outs = [o for o in outs if o.k == "n"]
            if len(outs) == 1 and outs[0].v[0] == "@":
                return outs[0].v[1]
        return None

    def val0(self, st, loc, cls, name):
        for f in self.pick(cls, name, n=0):
            outs = [o for o in self.I.enter(f, loc, (), st.clone()) if o.k == "n"]
            if len(outs) == 1:
                return self.I.rd(outs[0].v[1], outs[0].st)[0].v if outs[0].v[0] == "@" else outs[0].v
        return None

    def accarr(self, st, loc, *chain, k=None):
        for cls, name in chain:
            loc = self.acc(st, loc, cls, name, k)
            if loc is None:
                return None
        return self.I.finfo(self.I, loc, st)[0]

    # ------------------------------------------------------------ mesh
    mesh = (("p", "mesh"), ())

    def derive(self):
        st = St()
        st.store[("p", "mesh")] = MESH
        v = {n: self.val0(st, self.mesh, "UnstructuredMesh", n) for n in ("nCells", "nInternalFaces", "nBoundaryFaces", "nFaces", "nBoundaries")}
        if any(x is None for x in v.values()):
            raise Broken("mesh accessors cannot be interpreted")
        self.NC, self.NI, self.NB = v["nCells"], v["nInternalFaces"], v["nBoundaryFaces"]
        self.NP = v["nBoundaries"]
        self.NF = lin_add(self.NI, self.NB)
        self.meshrec = ()
        if v["nFaces"][0] == "fld" and v["nFaces"][1] == MESH:
            self.meshrec = ((v["nFaces"][2], self.NF),)
        self.arr, self.asize, self.akind = {}, {}, {}
        sz = {"c": self.NC, "f": self.NF, "i": self.NI, "b": self.NB, "p": S("nPoints")}
        for a, (k, s) in MESHACC.items():
            A = self.accarr(st, self.mesh, ("UnstructuredMesh", a))
            if A is not None:
                self.arr[a], self.asize[A], self.akind[A] = A, sz[s], k
        for a, k in BMESHACC.items():
            fs = [f for f in self.pick("BoundaryMesh", a, n=0)]
            A = self.accarr(st, self.mesh, ("UnstructuredMesh", "boundaryMesh"), ("BoundaryMesh", a))
            if A is not None:
                self.arr[a], self.asize[A], self.akind[A] = A, self.NB, k
        self.cellvalued = {self.arr[a] for a in CELLVALUED if a in self.arr}
        if len(set(self.arr.values())) != len(self.arr):
            self.aliased = True
        # the member of fields that refers to the mesh
        self.meshfield = None
        for r, rec in self.P.records.items():
            if rec.get("n", r).split("<")[0].endswith("GeometricFieldMixin") or r.split("<")[0].endswith("GeometricFieldMixin"):
                for x in rec.get("fields", ()):
                    t = x["t"].strip()
                    if (t.rec or t.s or "").endswith("UnstructuredMesh") or "UnstructuredMesh" in (x["t"].s or ""):
                        self.meshfield = x["n"]
        self._chain = {}

    def start(self):
        self.I.nstates = 0
        st = St()
        st.store[("p", "mesh")] = ("rec", MESHN, self.meshrec, MESH)
        for n in (self.NC,):
            st.facts[("pos", n)] = True
        return st

    # ------------------------------------------------------------ objects
    def field(self, st, name, kind, cls=None):
        """a volume or surface field on the mesh, boundary arrays included"""
        root = ("p", name)
        cls = cls or FV + ("VolumeField" if kind == "vol" else "SurfaceField")
        self.kinds[S(name)] = kind
        st.store[root] = ("rec", cls, ((self.meshfield, ("ptr", self.mesh)),), S(name))
        loc = (root, ())
        for k in "FV":
            A = self.accarr(st, loc, ("GeometricFieldMixin", "internalField"), k=k)
            if A is not None:
                self.extra[A] = self.NC if kind == "vol" else self.NF
                self._chain[(name, "in")] = A
        for w in ("value", "refValue", "valueFraction", "refGrad"):
            for k in "FV":
                A = self.accarr(st, loc, ("GeometricFieldMixin", "boundaryField"), ("BoundaryFields", w), k=k)
                if A is not None:
                    self.extra[A] = self.NB
                    self._chain[(name, w)] = A
        return loc

    def raw(self, st, name, n):
        """a plain Field of n elements"""
        root = ("p", name)
        self.extra[S(name)] = n
        st.store[root] = S(name)
        return (root, ())

    def sizes(self, A, st):
        if A in self.extra:
            return self.extra[A]
        if A in self.asize:
            return self.asize[A]
        return None

    # boundary arrays of the mesh repeat the entries of the face arrays behind the internal faces
    TWINS = (("faceOwner", "faceCells"), ("faceAreas", "sf"), ("magFaceAreas", "magSf"), ("faceCentres", "cf"))

    def canon(self, t):
        """reads of face arrays at boundary faces as reads of the boundary's own arrays"""
        tw = {self.arr[a]: self.arr[b] for a, b in self.TWINS if a in self.arr and b in self.arr}

        def go(x):
            if not isinstance(x, tuple):
                return frozenset(map(go, x)) if isinstance(x, frozenset) else x
            x = tuple(map(go, x))
            if len(x) == 3 and x[0] in ("rd", "vrd") and x[1] in tw:
                r = lin_sub(x[2], self.NI)
                n = lin_sub(x[2], C(0))
                if n[0] == "lin" and dict(n[2]).get(self.NI) == 1 or n == self.NI:
                    return (x[0], tw[x[1]], r)
            return x
        return P.renorm(go(t)) if t[0] in ("poly", "lin") else go(t)

    # ------------------------------------------------------------ terms of the specification
    def intern(self, name):
        return self._chain[(name, "in")]

    def bnd(self, name, which="value"):
        return self._chain[(name, which)]

    def at(self, A, idx, k="F"):
        if isinstance(A, str):
            A = self.arr[A]
        return ("vrd" if k == "V" else "rd", A, idx)

    def content(self, A, st):
        return self.I.content(A, st)

    def read(self, o_or_st, v=None, *a):
        return super().read(o_or_st, v)

    def elem(self, A, idx, k, st):
        return self.I.cread(A, self.I.content(A, st), idx, k, st)

    def zero(self, A, st):
        self.I.setcontent(A, ("fill", P.const(0)), st)

    def scat(self, n, ix, val, c, k, st, base=None):
        """the sum over e < n of val(e) where ix(e) == c  (e is BK)"""
        cont = ("scat", n, 1, ix, val, ("fill", base if base is not None else P.const(0)))
        return self.I.cread(S("#spec"), cont, c, k, st)
