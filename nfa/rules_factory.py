"""Properties of the runtime selection factory and its documentation tables."""
from .rules import rule
from .engine import load, Broken
from .lab import Lab, Law, S, C, TRUE, FALSE, show
from .rules_core import OOR, check_keylist
from .rules_db import globinfo
from .absint import SIZE, lin_add, lin_sub, has_unk, walk

PROBE = C("probeDerived")
W = "nfprobe::"


class Fac:
    """what users observe of a factory, through wrappers around the public interface"""

    def __init__(self, lab):
        self.lab = lab
        for n in ("make", "addProbe", "factoryHas", "factoryAt", "docHas", "factoryDoc", "factorySchema",
                  "factoryEntries", "factorySize", "derivedDoc", "derivedSchema", "baseHas", "baseDoc", "baseSchema",
                  "baseEntries", "baseDocOf", "baseSchemaOf", "baseEntriesOf", "registerBase", "registerData",
                  "docOf", "schemaOf", "entriesOf"):
            setattr(self, n, lab.fn(W + n))

    def table(self, st, which="table"):
        """location of the table an accessor returns"""
        f = [x for x in self.lab.P.funcs.values() if x.n == which and (
            x.cr or "").startswith("NeoFOAM::RuntimeSelectionFactory<nfprobe::ProbeBase") and x.b is not None]
        if not f:
            raise Broken("table accessor not found: " + which)
        outs = self.lab.call(st, f[0], None)
        return f[0], outs

    def truths(self, law, st, f, *args):
        r = []
        for o in law.run(st, f, None, *args):
            if law.kind(o, "n", f.n):
                for v, s in self.lab.read(o.st, o.v):
                    r += self.lab.I.truth(v, s)
        return r


def made(L, lab, o):
    """the object a unique_ptr result points to: (class, location) or None"""
    for v, s in lab.read(o.st, o.v):
        if v[0] == "uptr":
            v = v[1]
        if v[0] == "ptr":
            loc = v[1]
            return lab.I.dyntype(loc, s), loc
        return v, None
    return None, None


@rule("C10")
def c10(rep):
    P = load("core")
    lab = Lab(P, rep)
    fa = Fac(lab)
    rep.rule("fac-unknown", "create with an unregistered key never returns: it ends the program or throws", 1)
    rep.rule("fac-known", "create with a registered key returns what the creator registered under that key makes, given the caller's arguments in order", 3)
    rep.rule("fac-pure", "create registers nothing and removes nothing", 1)
    k, q = S("k"), S("q")
    create = [f for f in P.funcs.values() if f.n == "create" and "RuntimeSelectionFactory" in f.q and f.b is not None]
    site = create[0] if create else fa.make
    args = lambda st: [lab.obj(st, "k"), lab.obj(st, "a"), S("b"), S("c")]    # noqa: E731

    with Law(lab, "fac-unknown", "create(k) of a key that is not registered", site) as L:
        st = lab.start()
        a = args(st)
        for has, s in fa.truths(L, st, fa.factoryHas, a[0]):
            if has:
                continue
            for o in L.run(s, fa.make, None, *a):
                if o.k == "n":
                    L.fail(o.st, "create returns %s for a key that is not registered" % show(o.v), o.v)
                elif o.k == "x":
                    code = [x for x in o.v[1:] if isinstance(x, tuple)]
                    if code and code[-1] == C(0) and "exit" in str(o.v[0]).lower():
                        L.fail(o.st, "the program ends with success status for an unknown key")
    with Law(lab, "fac-known", "create(k) of a registered key calls its creator", site) as L:
        st = lab.start()
        a = args(st)
        for has, s in fa.truths(L, st, fa.factoryHas, a[0]):
            if not has:
                continue
            for o0 in L.run(s, fa.factoryAt, None, a[0]):
                if not L.kind(o0, "n", "table().at(k)"):
                    continue
                n0 = len(o0.st.eff)
                for o in L.run(o0.st, fa.make, None, *a):
                    if not L.kind(o, "n", "create of a registered key"):
                        continue
                    L.val(o, ("ret", "call", o.st.nz(o0.v), (S("a"), S("b"), S("c"))), "object returned by create")
                    inv = [e for e, _ in o.st.eff[n0:] if e[0] == "invoke"]
                    if len(inv) != 1:
                        L.fail(o.st, "create calls %d creators" % len(inv))
    with Law(lab, "fac-known", "a class registered as D makes a D from the arguments", site) as L:
        st = lab.start()
        a = args(st)
        a[0] = lab.obj(st, "key", PROBE)
        for o in L.run(st, fa.addProbe, None):
            if not L.kind(o, "n", "registration"):
                continue
            for o2 in L.run(o.st, fa.make, None, *a):
                if not L.kind(o2, "n", "create of the registered class"):
                    continue
                cls, loc = made(L, lab, o2)
                if cls != "nfprobe::ProbeDerived":
                    L.fail(o2.st, "create made %s" % (show(cls) if isinstance(cls, tuple) else cls),
                           cls if isinstance(cls, tuple) else o2.v)
                    continue
                for fld, want in (("s_", S("a")), ("i_", S("b")), ("d_", S("c"))):
                    for x, s in lab.rd(o2.st, (loc[0], loc[1] + (("f", fld),))):
                        L.same(s, x, want, "constructor argument kept in " + fld)
    with Law(lab, "fac-known", "registering one class leaves the creators of the others alone", site) as L:
        st = lab.start()
        lk = lab.obj(st, "k")
        for eq, s0 in lab.I.eqv(k, PROBE, st.clone()):
            if eq:
                continue
            for has, s in fa.truths(L, s0, fa.factoryHas, lk):
                before = lab.call(s, fa.factoryAt, None, lk) if has else []
                for o in L.run((before[0].st if before else s), fa.addProbe, None):
                    if not L.kind(o, "n", "registration"):
                        continue
                    for has2, s2 in fa.truths(L, o.st, fa.factoryHas, lk):
                        if has2 != has:
                            L.fail(s2, "key %s by registering another class" % ("added" if has2 else "removed"))
                        elif has:
                            for o3 in L.run(s2, fa.factoryAt, None, lk):
                                if L.kind(o3, "n", "table().at"):
                                    L.val(o3, before[0].v, "creator of the other class")
    with Law(lab, "fac-pure", "create leaves the set of registered keys alone", site) as L:
        st = lab.start()
        a = args(st)
        lq = lab.obj(st, "q")
        for has, s in fa.truths(L, st, fa.factoryHas, lq):
            for o in L.run(s, fa.make, None, *a):
                if o.k == "x":
                    continue
                for has2, s2 in fa.truths(L, o.st, fa.factoryHas, lq):
                    if has2 != has:
                        L.fail(s2, "key %s by create" % ("added" if has2 else "removed"))


@rule("C11")
def c11(rep):
    P = load("core")
    lab = Lab(P, rep)
    fa = Fac(lab)
    rep.rule("reg-both", "registering a class enters its creator, documentation and schema under its name", 4)
    rep.rule("reg-static", "defining a derived class registers it: its static initialiser runs the registration", 2)
    rep.rule("reg-doc", "doc/schema answer from the entry of the class asked for; an unknown class throws out_of_range and is not created", 2)
    rep.rule("reg-list", "entries() and size() describe exactly the registered keys", 2)
    rep.rule("reg-base", "documentation of a base class answers from the functions registered under its name", 4)
    rep.rule("reg-one", "each registry exists once per process", 3)
    rep.rule("reg-live", "destroying an object leaves its class registered", 1)
    k, q = S("k"), S("q")
    # ---- registering
    with Law(lab, "reg-both", "the key of a registered class is known", fa.addProbe) as L:
        st = lab.start()
        lk = lab.obj(st, "key", PROBE)
        for o in L.run(st, fa.addProbe, None):
            if L.kind(o, "n", "registration"):
                L.val(o, TRUE, "result of the registration")
                for b, s in fa.truths(L, o.st, fa.factoryHas, lk) + fa.truths(L, o.st, fa.docHas, lk):
                    if not b:
                        L.fail(s, "a registered class is missing from a table")
    for what, got, want in (("doc", fa.factoryDoc, fa.derivedDoc), ("schema", fa.factorySchema, fa.derivedSchema)):
        with Law(lab, "reg-both", "%s(name) of a registered class is its own %s" % (what, what), fa.addProbe) as L:
            st = lab.start()
            lk = lab.obj(st, "key", PROBE)
            for o in L.run(st, fa.addProbe, None):
                for ow in lab.call(o.st, want, None):
                    for o2 in L.run(ow.st, got, None, lk):
                        if L.kind(o2, "n", what + " of a registered class"):
                            L.val(o2, ow.v, what)
    with Law(lab, "reg-both", "registering changes the documentation of no other class", fa.addProbe) as L:
        st = lab.start()
        lk = lab.obj(st, "k")
        for eq, s0 in lab.I.eqv(k, PROBE, st.clone()):
            if eq:
                continue
            for b, s in fa.truths(L, s0, fa.docHas, lk):
                pre = lab.call(s, fa.factoryDoc, None, lk) if b else []
                for o in L.run(pre[0].st if pre else s, fa.addProbe, None):
                    for b2, s2 in fa.truths(L, o.st, fa.docHas, lk):
                        if b2 != b:
                            L.fail(s2, "documentation of another class %s" % ("appeared" if b2 else "disappeared"))
                        elif b:
                            for o3 in L.run(s2, fa.factoryDoc, None, lk):
                                if L.kind(o3, "n", "doc"):
                                    L.val(o3, pre[0].v, "doc of the other class")
    # ---- static initialisers
    for g, info in sorted(P.globals.items()):
        nm = str(info.get("n", ""))
        if not nm.endswith("::REGISTERED") or "nfprobe" not in nm:
            continue
        derived = "::Register<" in nm
        with Law(lab, "reg-static", nm.split("::")[-2] + "::REGISTERED", None) as L:
            L.f = fa.addProbe
            st = lab.start()
            if "init" not in info:
                L.npaths = 1
                L.fail(st, "nothing runs the registration when the class is defined")
                continue
            lk = lab.obj(st, "key", PROBE if derived else C("ProbeBase"))
            st.fn = fa.addProbe
            outs = lab.I.rv(info["init"], st.clone())
            L.npaths += len(outs)
            for o in outs:
                if not L.kind(o, "n", "static initialisation"):
                    continue
                L.same(o.st, o.v, TRUE, "value of the registration flag")
                for b, s in fa.truths(L, o.st, fa.factoryHas if derived else fa.baseHas, lk):
                    if not b:
                        L.fail(s, "the static initialiser does not register the class")
    # ---- lookups
    for what, f, fld in (("doc", fa.factoryDoc, "doc"), ("schema", fa.factorySchema, "schema")):
        with Law(lab, "reg-doc", "%s(k)" % what, f) as L:
            st = lab.start()
            lk, lq = lab.obj(st, "k"), lab.obj(st, "q")
            for b, s in fa.truths(L, st, fa.docHas, lk):
                for bq, s1 in fa.truths(L, s, fa.docHas, lq):
                    for o in L.run(s1, f, None, lk):
                        if not b:
                            L.kind(o, ("t", OOR), what + " of an unknown class")
                        elif L.kind(o, "n", what):
                            inv = [e for e, _ in o.st.eff if e[0] == "invoke"]
                            if len(inv) != 1 or not (inv[0][1][0] == "fld" and inv[0][1][2] == fld and
                                                     inv[0][1][1][0] == "sel" and inv[0][1][1][2] == o.st.nz(k)):
                                L.fail(o.st, "%s(k) asks %s" % (what, "; ".join(show(e[1]) for e in inv) or "nothing"))
                        if o.k != "x":
                            for b2, s2 in fa.truths(L, o.st, fa.docHas, lq):
                                if b2 != bq:
                                    L.fail(s2, "%s creates or removes an entry" % what)
    for what, f, direct, n in (("doc", fa.baseDoc, fa.baseDocOf, 2), ("schema", fa.baseSchema, fa.baseSchemaOf, 2),
                               ("entries", fa.baseEntries, fa.baseEntriesOf, 1)):
        with Law(lab, "reg-base", "BaseClassDocumentation::%s" % what, f) as L:
            st = lab.start()
            lb, lk, lq = lab.obj(st, "b"), lab.obj(st, "k"), lab.obj(st, "q")
            a = [lb, lk][:n]
            for b, s in fa.truths(L, st, fa.baseHas, lb):
                for bq, s1 in fa.truths(L, s, fa.baseHas, lq):
                    for o1 in lab.call(s1, direct, None, *a):
                        for o in L.run(o1.st, f, None, *a):
                            if not b:
                                L.kind(o, ("t", OOR), what + " of an unknown base class")
                            elif L.kind(o, "n", what):
                                L.val(o, o1.v, what)
                            if o.k != "x":
                                for b2, s2 in fa.truths(L, o.st, fa.baseHas, lq):
                                    if b2 != bq:
                                        L.fail(s2, "%s creates or removes an entry" % what)
    for what, f, of, n in (("doc", fa.baseDoc, fa.docOf, 2), ("schema", fa.baseSchema, fa.schemaOf, 2),
                           ("entries", fa.baseEntries, fa.entriesOf, 1)):
        with Law(lab, "reg-base", "registerClass(b, data), then %s(b)" % what, fa.registerData) as L:
            st = lab.start()
            lb, lk, ld = lab.obj(st, "b"), lab.obj(st, "k"), lab.obj(st, "data")
            for o in L.run(st, fa.registerData, None, lb, ld):
                if not L.kind(o, "n", "registerClass"):
                    continue
                for o1 in lab.call(o.st, of, None, *([ld, lk][:n])):
                    for o2 in L.run(o1.st, f, None, *([lb, lk][:n])):
                        if L.kind(o2, "n", what):
                            L.val(o2, o1.v, what + " of the registered base class")
    for what, f, direct, n in (("doc", fa.baseDoc, fa.factoryDoc, 2), ("schema", fa.baseSchema, fa.factorySchema, 2),
                               ("entries", fa.baseEntries, fa.factoryEntries, 1)):
        with Law(lab, "reg-base", "a factory's own %s reach the documentation of its base class" % what, fa.registerBase) as L:
            st = lab.start()
            lb, lk = lab.obj(st, "base", C("ProbeBase")), lab.obj(st, "k")
            for o in L.run(st, fa.registerBase, None):
                if not L.kind(o, "n", "RegisterDocumentation::init"):
                    continue
                L.val(o, TRUE, "result of init")
                if n == 1:
                    for o2 in L.run(o.st, f, None, lb):
                        if L.kind(o2, "n", what):
                            for o1 in lab.call(o.st, direct, None):
                                if o1.v != o2.v:
                                    L.fail(o2.st, "entries(base) gives %s" % show(o2.v)[:200], o2.v, o1.v)
                    continue
                for b, s in fa.truths(L, o.st, fa.docHas, lk):
                    for o1 in lab.call(s, direct, None, lk):
                        for o2 in L.run(o1.st, f, None, lb, lk):
                            if o1.k != o2.k:
                                L.fail(o2.st, "%s(base, k) %s where the factory %s" % (what, o2.k, o1.k))
                            elif o1.k == "n":
                                L.val(o2, o1.v, what)
    # ---- listings
    with Law(lab, "reg-list", "entries()", fa.factoryEntries) as L:
        st = lab.start()
        f, outs = fa.table(st)
        loc = outs[0].v[1]
        for m, s0 in lab.rd(outs[0].st, loc):
            for o in L.run(s0, fa.factoryEntries, None):
                if L.kind(o, "n", "entries"):
                    for v, s in lab.read(o.st, o.v):
                        check_keylist(L, s, v, m)
    with Law(lab, "reg-list", "size()", fa.factorySize) as L:
        st = lab.start()
        lk = lab.obj(st, "key", PROBE)
        for b, s in fa.truths(L, st, fa.factoryHas, lk):
            for o in L.run(s, fa.factorySize, None):
                for n, s1 in lab.read(o.st, o.v):
                    for o2 in L.run(s1, fa.addProbe, None):
                        for o3 in L.run(o2.st, fa.factorySize, None):
                            if L.kind(o3, "n", "size"):
                                L.val(o3, n if b else lin_add(n, C(1)), "size after registering a %s class" % (
                                    "registered" if b else "new"))
    # ---- uniqueness of the registries
    accs = []
    for w in ("table", "docTable"):
        st = lab.start()
        accs.append((w,) + fa.table(st, w))
    bd = lab.fn("NeoFOAM::BaseClassDocumentation::docTable")
    accs.append(("BaseClassDocumentation::docTable", bd, lab.call(lab.start(), bd, None)))
    for w, f, outs in accs:
        with Law(lab, "reg-one", w, f) as L:
            for o in outs:
                L.npaths += 1
                if not L.kind(o, "n", w) or o.v[0] != "@":
                    continue
                root = o.v[1][0]
                if root[0] != "g":
                    L.fail(o.st, "%s() returns an object that does not outlive the call" % w)
                    continue
                info = globinfo(P, root[1])
                if info.get("tls"):
                    L.fail(o.st, "the registry exists once per thread: a class registered in one is unknown in another")
                elif info.get("internal"):
                    L.fail(o.st, "the registry exists once per translation unit")
                for o2 in lab.call(o.st, f, None):
                    if o2.k == "n" and o2.v != o.v:
                        L.fail(o2.st, "two calls return different objects", o2.v)
    # ---- destruction
    dt = [f for f in P.funcs.values() if f.n == "~Register" and "nfprobe::ProbeDerived" in f.q and f.b is not None]
    with Law(lab, "reg-live", "~Register", dt[0] if dt else None) as L:
        if not dt:
            L.npaths = 1        # nothing to run
        else:
            st = lab.start()
            x = lab.obj(st, "x")
            lq = lab.obj(st, "q")
            for b, s in fa.truths(L, st, fa.factoryHas, lq):
                for b1, s1 in fa.truths(L, s, fa.docHas, lq):
                    for o in L.run(s1, dt[0], x):
                        if L.kind(o, "n", "destructor"):
                            for b2, s2 in fa.truths(L, o.st, fa.factoryHas, lq):
                                if b2 != b:
                                    L.fail(s2, "destroying an object changes which classes are registered")
                            for b2, s2 in fa.truths(L, o.st, fa.docHas, lq):
                                if b2 != b1:
                                    L.fail(s2, "destroying an object changes which classes are documented")
