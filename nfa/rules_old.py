"""C33: registered fields and their old-time levels."""
from .absint import C, S, NULL, VOID, has_unk
from .engine import load
from .lab import Law, show
from .rules import rule
from .rules_clone import Copies

FVN = "NeoFOAM::finiteVolume::cellCentred::"
STRT = "std::basic_string<char, std::char_traits<char>, std::allocator<char>>"
VF = FVN + "VolumeField<double>"
T, IT, SC = 7, 3, 2
PARTS = ("exec_", "name", "mesh_", "field_", "boundaryConditions_")


class Olds(Copies):
    def probe(self, name):
        return self.one(None, name, where=lambda f: f.q == "nfprobe::" + name)

    def db(self, st):
        st.store[("p", "db")] = ("rec", "NeoFOAM::Database", (("collections_", ("map", None, ())),), None)
        return ("@", (("p", "db"), ()))

    def plain(self, st, name="origf", registered=False):
        """a field that is in no collection"""
        loc = self.field(st, name, "vol")
        v = st.store[loc[0]]
        more = (("key", C("")), ("fieldCollectionName", C("")), ("db_", ("optnone",)))
        st.store[loc[0]] = ("rec", v[1], tuple(sorted(v[2] + more)), v[3])
        return loc

    def get(self, st, loc, *path):
        return self.rd1((loc[0], loc[1] + tuple(("f", p) for p in path)), st)


def ok(law, o, what):
    if o.k != "n":
        law.fail(o.st, f"{what} does not return ({o.k} {show(o.v)[:60]})")
        return False
    return True


def begin(W, law, name=C("fields")):
    """(state, collection)"""
    st = W.start()
    db = W.db(st)
    for o in law.run(st, W.probe("fieldsOf"), None, db, name):
        if ok(law, o, "FieldCollection::instance"):
            yield o.st, o.v


def register(W, law, st, fc, fl, name="g", idx=(T, IT, SC)):
    for o in law.run(st, W.probe("registerVF"), None, fc, ("@", fl), C(name), *[C(i) for i in idx]):
        if ok(law, o, "registerField"):
            yield o.st, o.v[1]


def old(W, law, st, loc, f="oldOf"):
    for o in law.run(st, W.probe(f), None, ("@", loc)):
        if ok(law, o, "oldTime"):
            yield o.st, o.v[1]


def doc(W, law, st, fc, key, what):
    """(state, location of the document of the key)"""
    for o in law.run(st.clone(), W.probe("docOf"), None, fc, key):
        if ok(law, o, f"fieldDoc of {what}"):
            yield o.st, o.v[1]


def ask(W, law, st, loc, cls, name, *args):
    """value of a query on an object"""
    fs = [f for f in W.P.funcs.values() if f.c == cls and f.n == name and f.b is not None and len(f.p) == len(args)]
    if not fs:
        law.unds.append(f"no {name}")
        return None
    vals = set()
    for f in fs:
        for o in law.run(st.clone(), f, loc, *args):
            if not ok(law, o, name):
                continue
            v = o.v
            if v[0] == "@":
                v = W.rd1(v[1], o.st)
            vals.add(o.st.nz(v) if v is not None else None)
    if len(vals) > 1 and not any(v is None or has_unk(v) for v in vals):
        law.fail(st, f"{cls.split('::')[-1]}::{name} of one and the same object differs between its overloads", *vals)
    return vals.pop() if len(vals) == 1 else None


def entry(W, law, st, fc, loc, name, idx, what):
    """the field at loc is the one of its document in fc, under this name, with these indexes"""
    key, coll = W.get(st, loc, "key"), W.get(st, loc, "fieldCollectionName")
    if coll != C("fields"):
        law.fail(st, f"{what} says it is in the collection {show(coll)[:60]}", coll)
    for s, d in doc(W, law, st, fc, key, what):
        for o in law.run(s, W.probe("fieldIn"), None, ("@", d)):
            if ok(law, o, "field") and o.v[1] != loc:
                law.fail(o.st, f"the document of {what}'s key holds another field")
        q = lambda n: ask(W, law, s, d, FVN + "FieldDocument", n)
        if q("id") != st.nz(key):
            law.fail(st, f"the key of {what} is not the id of its document")
        for n, want in (("name", C(name)), ("timeIndex", C(idx[0])), ("iterationIndex", C(idx[1])), ("subCycleIndex", C(idx[2]))):
            v = q(n)
            if v is None or has_unk(v):
                law.unds.append(f"{n} of the document of {what} is {show(v)[:80] if v else v}")
            elif v != want:
                law.fail(st, f"{n} of the document of {what} is {show(v)[:60]} instead of {show(want)}", v)
    n = W.get(st, loc, "name")
    if n != C(name):
        law.fail(st, f"{what} is called {show(n)[:60]} instead of {name}", n)
    d = W.get(st, loc, "db_")
    if d != ("opt", ("ptr", (("p", "db"), ()))):
        law.fail(st, f"{what} does not know its database", d or C(None))
    return key


def copied(W, law, st, loc, st0, orig, what):
    for m in PARTS:
        if m == "name":
            continue
        k = (("f", m),)
        t = next((x["t"] for x in W.members(VF) if x["n"] == m), None)
        W.same((loc[0], loc[1] + k), (orig[0], orig[1] + k), st, st0, law, f"{what}.{m}", 0, t)


@rule("C33")
def c33(rep):
    rep.limit = True
    rep.rule("register", "a registered field is a copy of the one given, in the collection under its key, with its name and indexes", 5)
    rep.rule("collection", "instance gives the collection of that name, the one the field is in, and nothing for a field in none", 4)
    rep.rule("old", "oldTime gives one field per field and level: a copy of the values at its first use, one time index before, linked to its field", 7)
    W = Olds(load("full"), rep)
    reg = W.probe("registerVF")
    with Law(W, "register", "a field with indexes", reg) as law:
        for st, fc in begin(W, law):
            fl = W.plain(st)
            st0 = st.clone()
            for s, loc in register(W, law, st, fc, fl):
                entry(W, law, s, fc, loc, "g", (T, IT, SC), "the registered field")
                copied(W, law, s, loc, st0, fl, "the registered field")
                for m in PARTS + ("key", "fieldCollectionName", "db_"):
                    W.same((fl[0], fl[1] + (("f", m),)), (fl[0], fl[1] + (("f", m),)), s, st0, law, "the field given")
    with Law(W, "register", "two fields", reg) as law:
        for st, fc in begin(W, law):
            fl, gl = W.plain(st, "origf"), W.plain(st, "origg")
            st0 = st.clone()
            for s, a in register(W, law, st, fc, fl, "g"):
                for s2, b in register(W, law, s, fc, gl, "h", (1, 2, 3)):
                    if a == b or W.get(s2, a, "key") == W.get(s2, b, "key"):
                        law.fail(s2, "two fields share an entry")
                        continue
                    entry(W, law, s2, fc, a, "g", (T, IT, SC), "the first field")
                    entry(W, law, s2, fc, b, "h", (1, 2, 3), "the second field")
                    copied(W, law, s2, a, st0, fl, "the first field")
                    copied(W, law, s2, b, st0, gl, "the second field")
    with Law(W, "register", "a field like a registered one", W.probe("registerLike")) as law:
        for st, fc in begin(W, law):
            fl = W.plain(st)
            for s, a in register(W, law, st, fc, fl, "g"):
                s0 = s.clone()
                for o in law.run(s, W.probe("registerLike"), None, fc, ("@", a), C("h")):
                    if ok(law, o, "registerField"):
                        entry(W, law, o.st, fc, o.v[1], "h", (T, IT, SC), "the new field")
                        copied(W, law, o.st, o.v[1], s0, a, "the new field")
    for pos, n in enumerate(("timeIndex", "iterationIndex", "subCycleIndex")):
        with Law(W, "register", f"a field like a registered one but with another {n}", reg) as law:
            for st, fc in begin(W, law):
                fl = W.plain(st)
                for s, a in register(W, law, st, fc, fl, "g"):
                    idx = [(1 << 63) - 1] * 3
                    idx[pos] = 40
                    want = [T, IT, SC]
                    want[pos] = 40
                    for s2, b in register(W, law, s, fc, a, "h", idx):
                        entry(W, law, s2, fc, b, "h", want, "the new field")
    with Law(W, "register", "a document of a field", W.probe("makeDoc")) as law:
        fs = [f for f in W.P.funcs.values() if f.c == FVN + "FieldDocument" and f.ctor == 1 and len(f.p) == 4 and f.b is not None]
        fl = None
        for f in fs[:1]:
            st = W.start()
            W.db(st)
            fl = W.plain(st)
            st.store[("p", "doc")] = ("rec", FVN + "FieldDocument", (), None)
            st0 = st.clone()
            for o in law.run(st, f, (("p", "doc"), ()), ("@", fl), C(T), C(IT), C(SC)):
                if not ok(law, o, "FieldDocument"):
                    continue
                for n, want in (("name", W.get(st0, fl, "name")), ("timeIndex", C(T)), ("iterationIndex", C(IT)), ("subCycleIndex", C(SC))):
                    v = ask(W, law, o.st, (("p", "doc"), ()), FVN + "FieldDocument", n)
                    if v != want:
                        law.fail(o.st, f"its {n} is {show(v)[:60] if v else v} instead of {show(want)}", v or C(None))
        if fl is None:
            law.unds.append("not told")
    documents(W)
    collections(W)
    olds(W)


def documents(W):
    f, keys = W.probe("wrapDoc"), ("name", "timeIndex", "iterationIndex", "subCycleIndex", "field")
    FD, OD = FVN + "FieldDocument", FVN + "OldTimeDocument"
    with Law(W, "register", "a document is taken for a field's only if it has all entries of one", f) as law:
        for skip in (None,) + keys:
            for o in law.run(W.start(), f, None, *[C(k if k != skip else "another") for k in keys]):
                if skip is not None:
                    if o.k == "n":
                        law.fail(o.st, f"a document without {skip} is taken")
                elif ok(law, o, "FieldDocument"):
                    o.st.store[("p", "w")] = o.v
                    for n, want in (("name", C("f")), ("timeIndex", C(7)), ("iterationIndex", C(3)), ("subCycleIndex", C(2))):
                        v = ask(W, law, o.st, (("p", "w"), ()), FD, n)
                        if v is not None and not has_unk(v) and v != want:
                            law.fail(o.st, f"its {n} is {show(v)[:60]} instead of {show(want)}", v)
    with Law(W, "old", "an old-time document keeps what it was made with", W.probe("makeOld")) as law:
        for o in law.run(W.start(), W.probe("makeOld"), None, C("a"), C("b"), C("c"), C(4)):
            if ok(law, o, "OldTimeDocument"):
                o.st.store[("p", "w")] = o.v
                for n, want in (("nextTime", C("a")), ("previousTime", C("b")), ("currentTime", C("c")), ("level", C(4))):
                    v = ask(W, law, o.st, (("p", "w"), ()), OD, n)
                    if v is not None and not has_unk(v) and v != want:
                        law.fail(o.st, f"its {n} is {show(v)[:60]} instead of {show(want)}", v)


def collections(W):
    with Law(W, "collection", "the collection of a name is one", W.probe("fieldsOf")) as law:
        for st, fc in begin(W, law):
            for o in law.run(st.clone(), W.probe("fieldsOf"), None, ("@", (("p", "db"), ())), C("fields")):
                if ok(law, o, "instance") and o.v != fc:
                    law.fail(o.st, "asking again gives another collection")
            for o in law.run(st.clone(), W.probe("cfieldsOf"), None, ("@", (("p", "db"), ())), C("fields")):
                if ok(law, o, "instance") and o.v != fc:
                    law.fail(o.st, "asking a constant database gives another collection")
            for o in law.run(st.clone(), W.probe("fieldsOf"), None, ("@", (("p", "db"), ())), C("others")):
                if ok(law, o, "instance") and o.v == fc:
                    law.fail(o.st, "another name gives the same collection")
            for o in law.run(st.clone(), W.probe("cfieldsOf"), None, ("@", (("p", "db"), ())), C("others")):
                if o.k != "t":
                    law.fail(o.st, "a constant database invents a collection")
    for n in ("collectionOf", "ccollectionOf"):
        with Law(W, "collection", "the collection of a field" + (", constant" if n[1] == "c" else ""), W.probe(n)) as law:
            for st, fc in begin(W, law):
                fl = W.plain(st)
                for s, loc in register(W, law, st, fc, fl):
                    for o in law.run(s.clone(), W.probe(n), None, ("@", loc)):
                        if ok(law, o, "instance") and o.v != fc:
                            law.fail(o.st, "the collection is not the one the field is registered in")
    with Law(W, "collection", "a field in no collection", W.probe("collectionOf")) as law:
        for st, fc in begin(W, law):
            fl = W.plain(st)
            for n in ("collectionOf", "ccollectionOf", "oldOf", "coldOf"):
                for o in law.run(st.clone(), W.probe(n), None, ("@", fl)):
                    if o.k not in ("t", "x"):
                        law.fail(o.st, "a field in no collection is given " + ("an old time" if "old" in n else "a collection"))


def chain(W, law, st, fc, loc, prev, cur, level, what):
    """the old-time document of loc leads to prev, belongs to cur and has this level"""
    OC, OD = FVN + "OldTimeCollection", FVN + "OldTimeDocument"
    for o in law.run(st.clone(), W.probe("oldsOf"), None, fc):
        if not ok(law, o, "OldTimeCollection::instance"):
            continue
        oc, s = o.v[1], o.st
        k, p = W.get(s, loc, "key"), W.get(s, prev, "key")
        a, b = ask(W, law, s, oc, OC, "findNextTime", k), ask(W, law, s, oc, OC, "findPreviousTime", p)
        if a is None or b is None or a != b or a == C(""):
            law.fail(s, f"{what}: the documents found by the field and by its old field are not the same one")
            continue
        for o2 in law.run(s, W.P.funcs[sorted(f.u for f in W.P.funcs.values() if f.c == OC and f.n == "oldTimeDoc" and not f.const)[0]], oc, a):
            if not ok(law, o2, "oldTimeDoc"):
                continue
            for n, want in (("nextTime", k), ("previousTime", p), ("currentTime", W.get(s, cur, "key")), ("level", C(level))):
                v = ask(W, law, o2.st, o2.v[1], OD, n)
                if v is None:
                    law.unds.append(f"{what}: {n} cannot be read")
                elif v != want:
                    law.fail(o2.st, f"{what}: its document's {n} is {show(v)[:60]} and should be {show(want)[:60]}", v)


def olds(W):
    f = W.one(None, "oldTime", where=lambda f: f.q == FVN + "oldTime")
    with Law(W, "old", "the first old time", f) as law:
        for st, fc in begin(W, law):
            for s, loc in register(W, law, st, fc, W.plain(st)):
                s0 = s.clone()
                for s2, o in old(W, law, s, loc):
                    if o == loc:
                        law.fail(s2, "the old field is the field itself")
                        continue
                    entry(W, law, s2, fc, o, "g_0", (T - 1, IT, SC), "the old field")
                    entry(W, law, s2, fc, loc, "g", (T, IT, SC), "the field")
                    copied(W, law, s2, o, s0, loc, "the old field")
                    copied(W, law, s2, loc, s0, loc, "the field")
                    chain(W, law, s2, fc, loc, o, loc, 1, "the old field")
    with Law(W, "old", "asked again, the old field is the same and keeps its values", f) as law:
        for st, fc in begin(W, law):
            for s, loc in register(W, law, st, fc, W.plain(st)):
                for s2, o in old(W, law, s, loc):
                    A = W.accarr(s2, loc, ("GeometricFieldMixin", "internalField"), k="F")
                    if A is not None:
                        W.I.setcontent(A, ("fill", S("later")), s2)
                    s0 = s2.clone()
                    for n in ("oldOf", "coldOf"):
                        for s3, o3 in old(W, law, s2.clone(), loc, n):
                            if o3 != o:
                                law.fail(s3, "asking again gives another old field")
                            copied(W, law, s3, o, s0, o, "the old field")
                            entry(W, law, s3, fc, o, "g_0", (T - 1, IT, SC), "the old field")
    with Law(W, "old", "the second old time", f) as law:
        for st, fc in begin(W, law):
            for s, loc in register(W, law, st, fc, W.plain(st)):
                for s2, o in old(W, law, s, loc):
                    s0 = s2.clone()
                    for s3, oo in old(W, law, s2, o):
                        if oo in (o, loc):
                            law.fail(s3, "the old field's old field is not a new one")
                            continue
                        entry(W, law, s3, fc, oo, "g_0_0", (T - 2, IT, SC), "the old field's old field")
                        copied(W, law, s3, oo, s0, o, "the old field's old field")
                        chain(W, law, s3, fc, loc, o, loc, 1, "the old field")
                        chain(W, law, s3, fc, o, oo, loc, 2, "the old field's old field")
                        for s4, o4 in old(W, law, s3.clone(), loc):
                            if o4 != o:
                                law.fail(s4, "the old field is another one after its own old field was made")
                        for s4, o4 in old(W, law, s3.clone(), o):
                            if o4 != oo:
                                law.fail(s4, "asking again gives another second old field")
    with Law(W, "old", "old times of two fields", f) as law:
        for st, fc in begin(W, law):
            for s, a in register(W, law, st, fc, W.plain(st), "g"):
                for s2, b in register(W, law, s, fc, W.plain(s, "origg"), "h", (1, 2, 3)):
                    for s3, oa in old(W, law, s2, a):
                        s0 = s3.clone()
                        for s4, ob in old(W, law, s3, b):
                            if len({a, b, oa, ob}) < 4:
                                law.fail(s4, "fields share an old field")
                                continue
                            entry(W, law, s4, fc, oa, "g_0", (T - 1, IT, SC), "the first old field")
                            entry(W, law, s4, fc, ob, "h_0", (0, 2, 3), "the second old field")
                            copied(W, law, s4, ob, s0, b, "the second old field")
                            chain(W, law, s4, fc, a, oa, a, 1, "the first old field")
                            chain(W, law, s4, fc, b, ob, b, 1, "the second old field")
    with Law(W, "old", "a constant field without old time", f) as law:
        for st, fc in begin(W, law):
            for s, loc in register(W, law, st, fc, W.plain(st)):
                for s2, o in old(W, law, s.clone(), loc):
                    pass
                for o in law.run(s, W.probe("coldOf"), None, ("@", loc)):
                    if o.k == "n":
                        law.fail(o.st, "a field without old time gets one")
    with Law(W, "old", "the old-time collection belongs to the field collection", W.probe("oldsOf")) as law:
        for st, fc in begin(W, law):
            for o in law.run(st, W.probe("oldsOf"), None, fc):
                if not ok(law, o, "instance"):
                    continue
                for o2 in law.run(o.st.clone(), W.probe("oldsOf"), None, fc):
                    if ok(law, o2, "instance") and o2.v != o.v:
                        law.fail(o2.st, "asking again gives another collection")
                for o2 in law.run(o.st.clone(), W.probe("fieldsOf"), None, ("@", (("p", "db"), ())), C("others")):
                    if ok(law, o2, "instance"):
                        for o3 in law.run(o2.st, W.probe("oldsOf"), None, o2.v):
                            if ok(law, o3, "instance") and o3.v == o.v:
                                law.fail(o3.st, "two field collections share the old times")
    with Law(W, "old", "documents already there are not replaced", W.one(FVN + "OldTimeCollection", "insert")) as law:
        for st, fc in begin(W, law):
            for o in law.run(st, W.probe("oldsOf"), None, fc):
                if not ok(law, o, "instance"):
                    continue
                fs = [x for x in W.P.funcs.values() if x.c == FVN + "OldTimeDocument" and x.ctor == 1 and len(x.p) == 4 and x.b is not None]
                s = o.st
                s.store[("p", "od")] = ("rec", FVN + "OldTimeDocument", (), None)
                for o2 in law.run(s, fs[0], (("p", "od"), ()), C("a"), C("b"), C("c"), C(4)):
                    for o3 in law.run(o2.st, W.one(FVN + "OldTimeCollection", "insert"), o.v[1], ("@", (("p", "od"), ()))):
                        if o3.v != C(True):
                            law.fail(o3.st, "a new document is not inserted")
                        for n, a in (("findNextTime", "a"), ("findPreviousTime", "b")):
                            for other in "abcx":
                                v = ask(W, law, o3.st, o.v[1], FVN + "OldTimeCollection", n, C(other))
                                if (v != C("")) != (other == a):
                                    law.fail(o3.st, f"{n} of {other} is {show(v)[:60] if v else v} for a document with next time a, previous time b")
                        for o4 in law.run(o3.st, W.one(FVN + "OldTimeCollection", "insert"), o.v[1], ("@", (("p", "od"), ()))):
                            if o4.v != C(False):
                                law.fail(o4.st, "a document is inserted a second time")
