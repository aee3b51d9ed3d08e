"""Loads the exported ASTs of all translation units into one program model."""
import json


class Ty:
    __slots__ = ("s", "k", "to", "tn", "ta", "const", "rec", "uns", "bits", "lam", "n")

    def __init__(self):
        self.to = self.tn = self.rec = None
        self.ta = ()
        self.const = self.uns = self.lam = False
        self.bits = self.n = 0

    def __repr__(self):
        return "<%s>" % self.s

    def strip(self):
        """type without reference and const"""
        t = self
        if t.k in ("lref", "rref"):
            t = t.to
        return t

    @property
    def bare(self):
        return bare(self.strip().s)

    def isref(self):
        return self.k in ("lref", "rref")


def bare(s):
    s = s.strip()
    while True:
        if s.endswith("*const"):
            s = s[:-5]
        elif s.endswith("*"):
            return s
        elif s.startswith("const "):
            s = s[6:]
        elif s.endswith(" &&"):
            s = s[:-3]
        elif s.endswith(" &"):
            s = s[:-2]
        elif s.endswith(" const"):
            s = s[:-6]
        else:
            return s


class Func:
    __slots__ = ("u", "n", "q", "l", "el", "file", "ret", "p", "c", "cr", "ta", "b", "inits", "static",
                 "const", "virt", "lam", "ctor", "ov", "implicit", "acc", "noret", "op", "tu", "dtor",
                 "casg", "masg")

    def __repr__(self):
        return "<fn %s:%s>" % (self.q, self.l)

    @property
    def where(self):
        return "%s:%s" % (self.file, self.l)


class Program:
    def __init__(self):
        self.types = {}      # string -> Ty
        self.funcs = {}      # usr -> Func
        self.records = {}    # name -> record
        self.globals = {}
        self.files = set()
        self.errors = {}     # tu -> number
        self._byq = None

    # -- loading -----------------------------------------------------------
    def add(self, path_or_obj, tuname):
        d = json.load(open(path_or_obj)) if isinstance(path_or_obj, str) else path_or_obj
        self.errors[tuname] = d["errors"]
        files = d["files"]
        raw = d["types"]
        loc = [None] * len(raw)
        fresh = []
        for i, r in enumerate(raw):
            t = self.types.get(r["s"])
            if t is None:
                t = Ty()
                t.s, t.k = r["s"], r["k"]
                self.types[r["s"]] = t
                fresh.append((t, r))
            loc[i] = t
        for t, r in fresh:
            t.const = bool(r.get("const"))
            t.uns = bool(r.get("uns"))
            t.bits = r.get("bits", 0)
            t.tn = r.get("tn")
            t.rec = r.get("rec")
            t.lam = bool(r.get("lambda"))
            t.n = r.get("n", 0)
            if "to" in r:
                t.to = loc[r["to"]]

            def targ(a):
                if "t" in a:
                    return loc[a["t"]]
                if "p" in a:
                    return tuple(targ(x) for x in a["p"])
                return a.get("i", a.get("x"))
            t.ta = tuple(targ(a) for a in r.get("ta", ()))

        def fix(n):
            if isinstance(n, list):
                for x in n:
                    if isinstance(x, (dict, list)):
                        fix(x)
                return
            for k, v in n.items():
                if isinstance(v, dict):
                    fix(v)
                elif k in ("t", "ret", "to", "at", "et", "szof"):
                    if isinstance(v, int):
                        n[k] = loc[v]
                elif k == "pt":
                    n[k] = [loc[x] for x in v]
                elif k == "file":
                    n[k] = files[v] if v >= 0 else "?"
                elif isinstance(v, list):
                    fix(v)

        fix(d["records"])
        fix(d["globals"])
        for u, f in d["functions"].items():
            if u in self.funcs and self.funcs[u].b is not None:
                continue
            fix(f)
            g = Func()
            g.u, g.n, g.q, g.l, g.el = u, f["n"], f["q"], f["l"], f["el"]
            g.file, g.ret, g.p = f["file"], f["ret"], f["p"]
            g.c, g.cr = f.get("c"), f.get("cr")
            g.ta = f.get("ta", [])
            g.b = f.get("b")
            g.inits = f.get("inits", [])
            g.static, g.const, g.virt = bool(f.get("static")), bool(f.get("const")), bool(f.get("virt"))
            g.lam = bool(f.get("lambda"))
            g.ctor = f.get("ctor", 0)
            g.ov = f.get("ov", [])
            g.implicit = bool(f.get("implicit"))
            g.acc = f.get("acc", 3)
            g.noret = bool(f.get("noret"))
            g.op = f.get("op")
            g.tu = tuname
            g.dtor, g.casg, g.masg = f.get("dtor", 0), f.get("casg", 0), f.get("masg", 0)
            self.funcs[u] = g
        for n, r in d["records"].items():
            if n not in self.records or (r.get("fields") and not self.records[n].get("fields")):
                self.records[n] = r
        for u, g in d["globals"].items():
            if u not in self.globals or ("init" in g and "init" not in self.globals[u]):
                self.globals[u] = g
        self.files.update(files)
        self._byq = None

    # -- queries -----------------------------------------------------------
    def byq(self, q):
        if self._byq is None:
            m = {}
            for f in self.funcs.values():
                m.setdefault(f.q, []).append(f)
            self._byq = m
        return self._byq.get(q, [])

    def bases(self, name, seen=None):
        """all (transitive) base class names of a record"""
        out = []
        r = self.records.get(name)
        if r is None:
            return out
        for b in r.get("bases", ()):
            if b not in out:
                out.append(b)
            for x in self.bases(b):
                if x not in out:
                    out.append(x)
        return out

    def derives(self, name, base):
        return name == base or base in self.bases(name)

    def field(self, rec, name):
        for rn in [rec] + self.bases(rec):
            r = self.records.get(rn)
            for f in (r or {}).get("fields", ()):
                if f["n"] == name:
                    return f
        return None

    def find_override(self, dyn, u):
        """the function that a virtual call of u reaches on an object of dynamic type dyn"""
        def reaches(m):
            seen = set()
            todo = list(m.get("ov", ()))
            while todo:
                x = todo.pop()
                if x == u:
                    return True
                if x in seen:
                    continue
                seen.add(x)
                for r in self.records.values():
                    for mm in r.get("methods", ()):
                        if mm.get("u") == x:
                            todo.extend(mm.get("ov", ()))
            return False
        for rn in [dyn] + self.bases(dyn):
            for m in self.records.get(rn, {}).get("methods", ()):
                if m.get("u") == u or reaches(m):
                    return m["u"]
        return None


def walk(n):
    """every dict node below n, in source order"""
    if isinstance(n, dict):
        yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for x in n:
            if isinstance(x, (dict, list)):
                yield from walk(x)
