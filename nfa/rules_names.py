"""The names under which the library's own schemes are registered (C44)."""
import re

from .absint import EMPTYMAP, has_unk
from .engine import load
from .lab import Lab, Law, show
from .rules import rule

BOTH = ("scalar", "Vector")
# what an input may name, by factory: the documented vocabulary and the class each word stands for
WORDS = {
    "SurfaceInterpolationFactory": ({"linear": "Linear", "upwind": "Upwind"}, BOTH),
    "FaceNormalGradientFactory": ({"uncorrected": "Uncorrected"}, BOTH),
    "DivOperatorFactory": ({"Gauss": "GaussGreenDiv"}, BOTH),
    "LaplacianOperatorFactory": ({"Gauss": "GaussGreenLaplacian"}, BOTH),
    "VolumeBoundaryFactory": ({"fixedValue": "FixedValue", "fixedGradient": "FixedGradient", "calculated": "Calculated",
                               "extrapolated": "Extrapolated", "empty": "Empty"}, BOTH),
    "SurfaceBoundaryFactory": ({"fixedValue": "FixedValue", "calculated": "Calculated", "empty": "Empty"}, BOTH),
    "TimeIntegratorBase": ({"forwardEuler": "ForwardEuler", "backwardEuler": "BackwardEuler", "Runge-Kutta": "RungeKutta"}, ("scalar",)),
}
REG = re.compile(r"NeoFOAM::RuntimeSelectionFactory<(.*?), NeoFOAM::Parameters<.*>>::Register<(.*)>::REGISTERED$")
DOC = re.compile(r"NeoFOAM::RegisterDocumentation<(.*)>::REGISTERED$")


def last(c):
    return c.split("<")[0].rsplit("::", 1)[-1]


def typ(c):
    return "Vector" if "Vector" in c.partition("<")[2] else "scalar"


def keysof(t):
    """the keys of a table that was empty to begin with; None when that is not what it is"""
    return list(t[2]) if t[0] == "map" and t[1] is None else None


class Names:
    def __init__(self, rep):
        self.P = load("names")
        self.lab = Lab(self.P, rep)
        self.reg, self.base = {}, {}
        for g, info in self.P.globals.items():
            n = str(info.get("n", ""))
            m = REG.match(n)
            if m:
                self.reg.setdefault((last(m.group(1)), typ(m.group(1))), {})[last(m.group(2))] = info
                continue
            m = DOC.match(n)
            if m:
                self.base.setdefault((last(m.group(1)), typ(m.group(1))), info)

    def table(self, fac, t, name, st):
        """what an accessor of the factory's tables gives"""
        for f in self.P.funcs.values():
            if f.n == name and not f.p and f.b is not None and (f.cr or "").startswith("NeoFOAM::RuntimeSelectionFactory<"):
                arg = f.cr[len("NeoFOAM::RuntimeSelectionFactory<"):].split(", NeoFOAM::Parameters")[0]
                if last(arg) == fac and typ(arg) == t:
                    return f
        return None

    def init(self, law, info, st, f):
        st.fn = f
        outs = self.lab.I.rv(info["init"], st)
        law.npaths += len(outs)
        return [o.st for o in outs if law.kind(o, "n", "static initialisation")]


@rule("C44")
def c44(rep):
    W = Names(rep)
    rep.limit = bool(W.P.skipped)
    rep.rule("names-registered", "including the library registers every scheme under the name it is documented by, for scalars and for vectors", 20)
    rep.rule("names-distinct", "no two schemes of a factory share a name, and every scheme comes with its documentation", 13)
    rep.rule("names-factory", "every factory is listed under a name of its own", 7)
    for fac, (words, types) in WORDS.items():
        for t in types:
            one(W, fac, t, words)
    factories(W)


def one(W, fac, t, words):
    regs = W.reg.get((fac, t), {})
    lab = W.lab
    f = W.table(fac, t, "table", None)
    d = W.table(fac, t, "docTable", None)
    tabs = {}
    with Law(lab, "names-distinct", "%s<%s>" % (fac, t), f) as law:
        st = lab.start()
        if f is None or d is None:
            if regs:
                law.unds.append("no table of the factory is in sight")
            law.npaths += 1
            regs_ = []
        else:
            regs_ = sorted(regs)
        # the tables are empty when the program starts
        sts = [st]
        for g in (f, d) if regs_ else ():
            nxt = []
            for s in sts:
                for o in lab.call(s, g, None):
                    if o.k != "n" or o.v[0] != "@":
                        law.unds.append("the table is not known")
                        continue
                    nxt += [x.st for x in lab.I.wr(o.v[1], EMPTYMAP, o.st)]
            sts = nxt
        for cls in regs_:
            if "init" not in regs[cls]:
                law.npaths += 1
                law.fail(st, "nothing runs the registration of %s" % cls)
                continue
            new = []
            for s in sts:
                for s2 in W.init(law, regs[cls], s.clone(), f):
                    new.append(s2)
                    k = keys(W, law, f, s2)
                    if k is None:
                        continue
                    was = keys(W, law, f, s) or []
                    fresh = [x for x in k if x not in was]
                    if len(fresh) != 1:
                        law.fail(s2, "registering %s adds %s to %s" % (cls, ", ".join(fresh) or "no name", ", ".join(was) or "an empty table"))
                    else:
                        tabs[cls] = fresh[0]
                    if any(x not in k for x in was):
                        law.fail(s2, "registering %s removes a name" % cls)
                    kd = keys(W, law, d, s2)
                    if kd is not None and sorted(kd) != sorted(k):
                        law.fail(s2, "the documentation has %s, the factory %s" % (", ".join(sorted(kd)), ", ".join(sorted(k))))
            sts = new
    for w, cls in sorted(words.items()):
        with Law(lab, "names-registered", "%s in %s<%s>" % (w, fac, t), f) as law:
            law.npaths += 1
            have = {n: c for c, n in tabs.items()}
            st = lab.start()
            if w in have:
                if have[w] != cls and cls in tabs:
                    law.fail(st, "%s stands for %s, not for %s" % (w, have[w], cls))
            elif len(tabs) < len(regs) and cls not in tabs:
                law.unds.append("not every name is known")
            elif cls in regs:
                law.fail(st, "%s is registered as %s" % (cls, tabs.get(cls)))
            elif W.P.skipped:
                law.unds.append("not every file parses")
            else:
                law.fail(st, "nothing is registered under this name")


def keys(W, law, f, st):
    r = []
    for o in W.lab.call(st.clone(), f, None):
        if o.k != "n" or o.v[0] != "@":
            law.unds.append("the table is not known")
            return None
        t = o.st.nz(W.lab.I.rd(o.v[1], o.st)[0].v)
        ks = keysof(t)
        if ks is None:
            law.unds.append("the table is %s" % show(t)[:100])
            return None
        for k, v in ks:
            k = o.st.nz(k)
            if k[0] != "c" or has_unk(k):
                law.unds.append("a name is not known: " + show(k)[:80])
                return None
            if v is not None:
                r.append(k[1])
    return r


def factories(W):
    lab = W.lab
    seen = {}
    for (fac, t), info in sorted(W.base.items()):
        f = next((g for g in W.P.funcs.values() if g.n == "name" and not g.p and g.b is not None and last(g.cr or g.c or "") == fac and typ(g.cr or g.c) == t), None)
        with Law(lab, "names-factory", "%s<%s>" % (fac, t), f) as law:
            if f is None:
                law.unds.append("its name is not in sight")
                continue
            for o in law.run(lab.start(), f, None):
                if not law.kind(o, "n", "name"):
                    continue
                v = o.st.nz(o.v)
                if v[0] != "c":
                    law.unds.append("the name is not known: " + show(v)[:80])
                    continue
                other = seen.setdefault(v[1], fac)
                if other != fac:
                    law.fail(o.st, "%s and %s are both listed as %s" % (other, fac, v[1]))
                if "init" not in info:
                    law.fail(o.st, "nothing runs the registration")
