"""Properties of the database layer: database, collections, documents, stencil cache."""
from .rules import rule
from .engine import load, Broken
from .lab import Lab, Law, S, C, TRUE, FALSE, show, VOID
from .rules_core import DictObs, both, has_ta, cq, OOR, BAC, TAG, STR, DICT, check_keylist
from .absint import lin_sub, lin_add, lin_parts, contains as tcontains, has_unk, walk, SIZE

DB = "NeoFOAM::Database"
COL = "NeoFOAM::Collection"
PC = "nfprobe::ProbeCollection"
MIX = "NeoFOAM::CollectionMixin<nfprobe::ProbeDocument>"
DOC = "NeoFOAM::Document"


class DbObs:
    def __init__(self, lab):
        self.lab = lab
        self.contains = lab.fn(DB + "::contains", n=1)
        self.at = lab.fn(DB + "::at", n=1, const=True, where=lambda f: not f.ta)
        self.ident = lab.fn(COL + "::name", n=0)
        self.size = lab.fn(DB + "::size", n=0)

    def who(self, law, st, loc):
        """identity of a collection object: what its name() reaches"""
        r = []
        for o in self.lab.call(st, self.ident, loc):
            if o.k == "n":
                r += self.lab.read(o.st, o.v)
        return r

    def has(self, law, st, d, q):
        r = []
        for o in law.run(st, self.contains, d, q):
            if law.kind(o, "n", "contains"):
                for v, s in self.lab.read(o.st, o.v):
                    r += self.lab.I.truth(v, s)
        return r

    def snap(self, law, st, d, q):
        r = []
        for b, s in self.has(law, st, d, q):
            for o in law.run(s, self.at, d, q):
                if o.k == "n" and b and o.v[0] == "@":
                    for w, s2 in self.who(law, o.st, o.v[1]):
                        r.append(((True, w), s2))
                elif o.k == "t" and not b:
                    r.append(((False, None), o.st))
                else:
                    law.fail(o.st, "contains(%s) is %s but at() %s" % (show(q), b, "returns" if o.k == "n" else "fails"))
        return r

    def still(self, law, st, d, q, snap, what):
        for (b, w), s in self.snap(law, st, d, q):
            if b != snap[0]:
                law.fail(s, "%s: collection %s %s" % (what, show(q), "appeared" if b else "disappeared"))
            elif b:
                law.same(s, w, snap[1], "%s: collection %s" % (what, show(q)))

    def count(self, law, st, d):
        r = []
        for o in law.run(st, self.size, d):
            if law.kind(o, "n", "size"):
                r += self.lab.read(o.st, o.v)
        return r


@rule("C05")
def c05(rep):
    P = load("core")
    lab = Lab(P, rep)
    ob = DbObs(lab)
    rep.rule("db-insert", "insert(name, c) stores c if the name is free, else keeps the registered collection; it returns the registered one", 1)
    rep.rule("db-remove", "remove(name) says whether the name was registered, and afterwards it is not; others stay", 1)
    rep.rule("db-at", "at(name) yields the registered collection, throws out_of_range for a free name, never registers anything", 3)
    rep.rule("db-size", "size() counts the registered names", 3)
    rep.rule("db-query", "queries leave the database as it is", 2)
    insert = lab.fn(DB + "::insert", n=2)
    remove = lab.fn(DB + "::remove", n=1)
    k, q = S("k"), S("q")

    def objs(st):
        return lab.obj(st, "db"), lab.obj(st, "k"), lab.obj(st, "q"), lab.obj(st, "col")

    with Law(lab, "db-insert", "insert(k, c); q observed", insert) as L:
        st = lab.start()
        d, lk, lq, lc = objs(st)
        for w, s0 in ob.who(L, st, lc):
            for snap, s in ob.snap(L, s0, d, lq):
                for o in L.run(s, insert, d, lk, lc):
                    if not L.kind(o, "n", "insert"):
                        continue
                    for same, s2 in L.split(o.st, q, k):
                        if not same:
                            ob.still(L, s2, d, lq, snap, "after inserting under another name")
                            continue
                        want = snap if snap[0] else (True, w)
                        ob.still(L, s2, d, lq, want, "after insert under a %s name" % ("taken" if snap[0] else "free"))
                        if o.v[0] != "@":
                            L.fail(s2, "insert does not return a reference")
                            continue
                        for w2, s3 in ob.who(L, s2, s2.nz(o.v[1])):
                            L.same(s3, w2, want[1], "collection returned by insert")
    with Law(lab, "db-insert", "the returned reference is the registered collection", insert) as L:
        st = lab.start()
        d, lk, lq, lc = objs(st)
        lz = lab.obj(st, "z")
        for w, s0 in ob.who(L, st, lz):
            for o in L.run(s0, insert, d, lk, lc):
                if o.k != "n" or o.v[0] != "@":
                    continue
                for o2 in lab.I.wr(o.v[1], S("z"), o.st.clone()):
                    for (b, w2), s2 in ob.snap(L, o2.st, d, lk):
                        if not b:
                            L.fail(s2, "not registered after insert")
                        else:
                            L.same(s2, w2, w, "collection seen through at() after replacing the returned reference's target")
    with Law(lab, "db-insert", "inserting twice under one name keeps the first", insert) as L:
        st = lab.start()
        d, lk, lq, lc = objs(st)
        lz = lab.obj(st, "z")
        for w, s0 in ob.who(L, st, lc):
            for o in L.run(s0, insert, d, lk, lc):
                if o.k != "n":
                    continue
                for snap, s1 in ob.snap(L, o.st, d, lk):
                    for o2 in L.run(s1, insert, d, lk, lz):
                        if L.kind(o2, "n", "second insert"):
                            ob.still(L, o2.st, d, lk, snap, "after a second insert under the same name")
    with Law(lab, "db-remove", "remove(k); q observed", remove) as L:
        st = lab.start()
        d, lk, lq, lc = objs(st)
        for snap, s in ob.snap(L, st, d, lq):
            for o in L.run(s, remove, d, lk):
                if not L.kind(o, "n", "remove"):
                    continue
                for same, s2 in L.split(o.st, q, k):
                    if same:
                        for v, s3 in lab.read(s2, o.v):
                            for t, s4 in lab.I.truth(v, s3):
                                if t != snap[0]:
                                    L.fail(s4, "remove returns %s for a %s name" % (t, "registered" if snap[0] else "free"))
                        for b, s3 in ob.has(L, s2, d, lq):
                            if b:
                                L.fail(s3, "still registered after remove")
                    else:
                        ob.still(L, s2, d, lq, snap, "after removing another name")
    with Law(lab, "db-remove", "remove, then insert again", remove) as L:
        st = lab.start()
        d, lk, lq, lc = objs(st)
        for w, s0 in ob.who(L, st, lc):
            for o in L.run(s0, remove, d, lk):
                for o2 in L.run(o.st, insert, d, lk, lc):
                    if L.kind(o2, "n", "insert after remove"):
                        ob.still(L, o2.st, d, lk, (True, w), "after remove and insert")
    for f in both(lab, DB + "::at", n=1):
        T = f.ta[0]["t"].s if f.ta else None
        if T == COL:
            T = None
        nm = cq(f) + "at" + ("<Probe>" if T else "")
        with Law(lab, "db-at", nm, f) as L:
            st = lab.start()
            d, lk, lq, lc = objs(st)
            for (b, w), s in ob.snap(L, st, d, lk):
                for zs, s1 in ob.snap(L, s, d, lq):
                    for o in L.run(s1, f, d, lk):
                        if not b:
                            L.kind(o, ("t", OOR), nm + " of a free name")
                        elif T is None:
                            if L.kind(o, "n", nm) and o.v[0] == "@":
                                for w2, s2 in ob.who(L, o.st, o.v[1]):
                                    L.same(s2, w2, w, "collection returned by at")
                        elif o.k == "t":
                            L.kind(o, ("t", "std::bad_cast"), nm + " with a wrong collection type")
                        elif o.k == "x":
                            L.fail(o.st, nm + " ends the program")
                        if o.k != "x":
                            ob.still(L, o.st, d, lq, zs, "after " + nm)
    for nm, g, a in (("insert", insert, ("k", "col")), ("remove", remove, ("k",))):
        with Law(lab, "db-size", "size after " + nm, g) as L:
            st = lab.start()
            d, lk, lq, lc = objs(st)
            for b, s in ob.has(L, st, d, lk):
                for n, s1 in ob.count(L, s, d):
                    for o in L.run(s1, g, d, *([lk, lc] if nm == "insert" else [lk])):
                        if not L.kind(o, "n", nm):
                            continue
                        for n2, s2 in ob.count(L, o.st, d):
                            want = (n if b else lin_add(n, C(1))) if nm == "insert" else (lin_sub(n, C(1)) if b else n)
                            L.same(s2, n2, want, "size after %s of a %s name" % (nm, "registered" if b else "free"))
    with Law(lab, "db-size", "a registered name makes the size positive", ob.size) as L:
        st = lab.start()
        d, lk, lq, lc = objs(st)
        for b, s in ob.has(L, st, d, lk):
            if b:
                for n, s1 in ob.count(L, s, d):
                    for p, s2 in lab.I.pos(n, s1.clone()):
                        if not p:
                            if ("isempty",) in [x[:1] for x in s2.facts] and lin_parts(n) is not None and n[0] == "size":
                                continue
                            L.fail(s2, "size() is 0 although a name is registered")
    for nm in ("emptySize", "emptyHas"):
        g = lab.fn("nfprobe::" + nm)
        with Law(lab, "db-size", "a new database has no names", ob.size if nm == "emptySize" else ob.contains) as L:
            st = lab.start()
            for o in L.run(st, g, None, *([lab.obj(st, "q")] if g.p else [])):
                if L.kind(o, "n", nm):
                    L.val(o, C(0), "size()" if nm == "emptySize" else "contains()")
    rep.rule("db-validreg", "validateRegistration throws runtime_error with the message exactly for unregistered objects", 2)
    vr = lab.fn("NeoFOAM::validateRegistration", n=2)
    for want in (True, False):
        with Law(lab, "db-validreg", "a%s registered object" % ("" if want else "n un"), vr) as L:
            st = lab.start()
            lo, lm = lab.obj(st, "o"), lab.obj(st, "m")
            for r in lab.call(st, lab.fn("nfprobe::Reg::registered"), lo):
                for v, s in lab.read(r.st, r.v):
                    for t, s1 in lab.I.truth(v, s):
                        if t != want:
                            continue
                        for o in L.run(s1, vr, None, lo, lm):
                            if want:
                                L.kind(o, "n", "for a registered object")
                            elif L.kind(o, ("t", "std::runtime_error"), "for an unregistered object"):
                                L.same(o.st, o.v[2] if len(o.v) > 2 else VOID, S("m"), "message")
    for nm, g in (("contains", ob.contains), ("size", ob.size)):
        with Law(lab, "db-query", nm, g) as L:
            st = lab.start()
            d, lk, lq, lc = objs(st)
            for zs, s in ob.snap(L, st, d, lq):
                for o in L.run(s, g, d, *([lk] if g.p else [])):
                    if L.kind(o, "n", nm):
                        ob.still(L, o.st, d, lq, zs, "after " + nm)


def deleted(P, rec, what):
    """is the copy/move operation of a class deleted (directly or through a member)?"""
    r = P.records.get(rec)
    if r is None:
        raise Broken("class %s not found" % rec)
    ms = [m for m in r.get("methods", ()) if (m.get("ctor") == 2 if what == "copy ctor" else
                                              m.get("casg") if what == "copy assignment" else
                                              m.get("ctor") == 3)]
    if ms:
        return all(m.get("del") for m in ms), ms
    return None, ms


@rule("C06")
def c06(rep):
    P = load("core")
    lab = Lab(P, rep)
    rep.rule("col-forward", "every query of a collection handle is answered by the collection stored in it, with the same arguments and result", 8)
    rep.rule("col-as", "as<T>() yields the stored collection exactly when its type is T and throws bad_cast otherwise", 2)
    rep.rule("col-move", "a handle owns its collection: it cannot be copied, and moving it transfers the same collection", 3)
    model = COL + "::CollectionModel<nfprobe::ProbeCollection>"
    mk = [f for f in P.byq(COL + "::Collection") if f.ctor == 1 and f.ta]
    if not mk:
        raise Broken("constructor of Collection not instantiated")
    st = lab.start()
    # forwarding: on a handle made from probe collection pc, each query equals the query on pc
    for nm in ("doc", "find", "size", "type", "name", "db"):
        for f in both(lab, COL + "::" + nm):
            direct = [g for g in lab.fns(MIX + "::" + nm) + lab.fns(PC + "::" + nm) if len(g.p) == len(f.p)]
            if not direct:
                raise Broken("no %s on the probe collection" % nm)
            same = [g for g in direct if g.const == f.const] or direct
            g = same[0]
            with Law(lab, "col-forward", cq(f) + nm, f) as L:
                st = lab.start()
                h = lab.blank(st, "h", COL)
                pc = lab.obj(st, "pc")
                a = [lab.obj(st, "a%d" % i) for i in range(len(f.p))]
                for o in L.run(st, mk[0], h, S("pc")):
                    if not L.kind(o, "n", "construction of the handle"):
                        continue
                    if nm == "find":
                        # a loop over the documents: the outcome sets of both runs must agree
                        sides = []
                        for run in (lab.call(o.st, g, pc, *a), L.run(o.st, f, h, *a)):
                            vs = []
                            for x in run:
                                if x.k == "n":
                                    vs += [("n", v) for v, s1 in lab.read(x.st, x.v)]
                                else:
                                    vs.append((x.k, x.v[1:2]))
                            sides.append(vs)
                        for x in sides[1]:
                            if x not in sides[0]:
                                L.fail(o.st, "find of the handle gives %s, the collection gives %s" % (
                                    show(x[1])[:200], " or ".join(show(y[1])[:200] for y in sides[0])), x[1], *[y[1] for y in sides[0]])
                        if len(set(map(repr, sides[1]))) < len(set(map(repr, sides[0]))):
                            L.fail(o.st, "find of the handle loses outcomes of the collection's find", *[y[1] for y in sides[0]])
                        continue
                    # reference run first, on the bare collection
                    for o1 in lab.call(o.st, g, pc, *a):
                        for o2 in L.run(o1.st, f, h, *a):
                            if o1.k != o2.k:
                                L.fail(o2.st, "%s of the handle %s, of the collection %s" % (
                                    nm, {"n": "returns", "t": "throws"}.get(o2.k, o2.k), {"n": "returns", "t": "throws"}.get(o1.k, o1.k)))
                            elif o1.k == "t":
                                L.same(o2.st, o2.v[1:2], o1.v[1:2], "exception of " + nm) if o1.v[0] == "exc" == o2.v[0] else None
                            else:
                                for v1, s1 in lab.read(o2.st, o1.v):
                                    for v2, s2 in lab.read(s1, o2.v):
                                        L.same(s2, v2, v1, "result of " + nm)
                                if o2.v[0] == "@" and o1.v[0] != "@":
                                    L.unds.append("the handle returns a reference to what the collection returns by value")
                                if o1.v[0] == "@" and o2.v[0] != "@" and not f.const:
                                    L.unds.append("the handle returns a copy")
                                if o2.v[0] == "@" and not f.const:
                                    for o3 in lab.I.wr(o2.v[1], S("z"), o2.st.clone()):
                                        for o4 in lab.call(o3.st, f, h, *a):
                                            if L.kind(o4, "n", "second " + nm):
                                                L.val(o4, S("z"), "change made through the reference %s returned" % nm)
            # the answer follows the stored collection: ask, change the collection, ask again
            asf = lab.fn(COL + "::as", n=0, const=False)
            with Law(lab, "col-forward", cq(f) + nm + " after the collection changed", f) as L:
                st = lab.start()
                h = lab.blank(st, "h", COL)
                lab.obj(st, "pc")
                pd = lab.obj(st, "pd")
                a = [lab.obj(st, "a%d" % i) for i in range(len(f.p))]
                sides = [set(), set()]

                def note(side, run):
                    for x in run:
                        if x.k == "n":
                            side.update(("n", v) for v, s1 in lab.read(x.st, x.v))
                        else:
                            side.add((x.k, x.v[1:2]))
                last = None
                for o in L.run(st, mk[0], h, S("pc")):
                    for o1 in L.run(o.st, f, h, *a) if o.k == "n" else ():
                        for o2 in L.run(o1.st, asf, h) if o1.k != "x" else ():
                            if o2.k != "n" or o2.v[0] != "@":
                                continue
                            for o3 in lab.I.wr(o2.v[1], S("pd"), o2.st.clone()):
                                last = o3.st
                                note(sides[0], lab.call(o3.st, g, pd, *a))
                                note(sides[1], L.run(o3.st, f, h, *a))
                for k, v in sides[1]:
                    if (k, v) not in sides[0]:
                        L.fail(last, "%s of the handle gives %s, of the changed collection %s" % (
                            nm, show(v)[:150], " or ".join(sorted(show(y[1])[:150] for y in sides[0]))), v, *[y[1] for y in sides[0]])
                        break
    for f in both(lab, COL + "::as", n=0):
        with Law(lab, "col-as", cq(f) + "as<T>()", f) as L:
            st = lab.start()
            h = lab.obj(st, "h")
            seen = set()
            for o in L.run(st, f, h):
                facts = [(k, b) for k, b in o.st.facts.items() if k[0] == "dyn"]
                if not facts:
                    if o.k == "n":
                        L.fail(o.st, "as<T>() returns without checking the type of the stored collection")
                    elif o.k == "x":
                        L.fail(o.st, "as<T>() ends the program")
                    continue
                match = any(b and k[2] == model for k, b in facts)
                seen.add(match)
                if match:
                    L.kind(o, "n", "as<T>() of a stored T")
                else:
                    L.kind(o, ("t", "std::bad_cast"), "as<T>() of another type")
        with Law(lab, "col-as", cq(f) + "as<T>() gives the stored object", f) as L:
            st = lab.start()
            h = lab.blank(st, "h", COL)
            for o in L.run(st, mk[0], h, S("pc")):
                for o2 in L.run(o.st, f, h):
                    if L.kind(o2, "n", "as<T>() right after construction"):
                        nmf = lab.fn(MIX + "::name", n=0)
                        pc = lab.obj(o2.st, "pc")
                        for o3 in lab.call(o2.st, nmf, o2.v[1]):
                            for o4 in lab.call(o3.st, nmf, pc):
                                for v1, s1 in lab.read(o4.st, o3.v):
                                    for v2, s2 in lab.read(s1, o4.v):
                                        L.same(s2, v1, v2, "name of the collection inside")
    # ownership
    with Law(lab, "col-move", "copying a handle does not compile", None) as L:
        L.f = mk[0]
        L.npaths = 1
        for what in ("copy ctor", "copy assignment"):
            d, ms = deleted(P, COL, what)
            if d is False:
                L.fail(lab.start(), "the %s of Collection is available" % what)
    with Law(lab, "col-move", "copying a database does not compile", None) as L:
        L.f = lab.fn(DB + "::insert")
        L.npaths = 1
        for what in ("copy ctor", "copy assignment"):
            d, ms = deleted(P, DB, what)
            if d is False and ms:
                # an explicitly written copy would have to duplicate or share the collections
                if any(not m.get("implicit") and not m.get("del") for m in ms):
                    L.unds.append("user-written copy of Database")
    for f in [x for x in P.byq(COL + "::Collection") if x.ctor == 3] + lab.fns(COL + "::operator=", n=1):
        if f.b is None and not f.implicit:
            continue
        with Law(lab, "col-move", "move %s" % ("constructor" if f.ctor else "assignment"), f) as L:
            st = lab.start()
            src = lab.obj(st, "src")
            d = lab.blank(st, "d", COL) if f.ctor else lab.obj(st, "d")
            nm = lab.fn(COL + "::name", n=0)
            for o0 in lab.call(st, nm, src):
                for o in L.run(o0.st, f, d, src):
                    if L.kind(o, "n", "move"):
                        for o2 in lab.call(o.st, nm, d):
                            L.same(o2.st, o2.v, o0.v, "name() of the moved-to handle")


@rule("C07")
def c07(rep):
    P = load("core")
    lab = Lab(P, rep)
    rep.rule("mix-find", "find(p) returns the key of exactly those documents p accepts, each once, and p sees each document", 1)
    rep.rule("mix-doc", "doc(id) yields the document stored under id and throws out_of_range for an unknown id, creating nothing", 2)
    rep.rule("mix-keys", "sortedKeys() lists exactly the stored keys, in ascending order", 1)
    rep.rule("mix-size", "size() is the number of stored documents", 1)
    rep.rule("mix-meta", "name(), db() and type() are those given at construction / of the document class", 3)
    find = lab.fn(MIX + "::find", n=1)
    with Law(lab, "mix-find", "find(p) over an arbitrary collection", find, key="mix-find:id-instead-of-key") as L:
        st = lab.start()
        c, lp = lab.obj(st, "c"), lab.obj(st, "p")
        docs = docs_term(lab, P, st, c)
        okpaths = 0
        for o in L.run(st, find, c, lp):
            if not L.kind(o, "n", "find"):
                continue
            for v, s in lab.read(o.st, o.v):
                check_find(L, s, v, docs)
    small_collections(lab, rep, P, find, "mix-find")
    for f in both(lab, MIX + "::doc", n=1):
        with Law(lab, "mix-doc", cq(f) + "doc(id)", f) as L:
            st = lab.start()
            c, li, lz = lab.obj(st, "c"), lab.obj(st, "i"), lab.obj(st, "z")
            docs = docs_term(lab, P, st, c)
            for b, s in lab.I.has(docs, S("i"), st):
                for bz, s1 in lab.I.has(docs, S("z"), s):
                    for o in L.run(s1, f, c, li):
                        if not b:
                            L.kind(o, ("t", OOR), "doc of an unknown id")
                        elif L.kind(o, "n", "doc of a stored id"):
                            # identity: the document reached from the stored entry
                            if o.v[0] != "@" or S("i") not in flat(o.v[1]):
                                for v, s2 in lab.read(o.st, o.v):
                                    if not tcontains(v, ("sel", docs, S("i"))):
                                        L.fail(s2, "doc(id) yields %s" % show(v), v)
                        d2 = docs_now(lab, P, o.st, c)
                        for b2, s2 in lab.I.has(d2, S("z"), o.st.clone()):
                            if b2 != bz:
                                L.fail(s2, "doc(id) changed the set of stored documents")
    keys = lab.fn(MIX + "::sortedKeys", n=0)
    with Law(lab, "mix-keys", "sortedKeys() of an arbitrary collection", keys) as L:
        st = lab.start()
        c = lab.obj(st, "c")
        docs = docs_term(lab, P, st, c)
        for o in L.run(st, keys, c):
            if not L.kind(o, "n", "sortedKeys"):
                continue
            for v, s in lab.read(o.st, o.v):
                if v[0] == "sorted":
                    if len(v) > 2:
                        bad = order_of(lab, s, v[2:])
                        if bad is None:
                            L.unds.append("custom order: " + show(v[2:])[:80])
                        elif bad:
                            L.fail(s, "the keys are sorted by another order: " + bad)
                elif v[0] == "seq" and not has_unk(v):
                    if not (len(v[1]) == 0):
                        L.fail(s, "the keys are returned unsorted: " + show(v)[:160], v)
                check_keylist(L, s, v, docs)
    small_collections(lab, rep, P, keys, "mix-keys")
    size = lab.fn(MIX + "::size", n=0)
    with Law(lab, "mix-size", "size() of an arbitrary collection", size) as L:
        st = lab.start()
        c = lab.obj(st, "c")
        docs = docs_term(lab, P, st, c)
        for o in L.run(st, size, c):
            if L.kind(o, "n", "size"):
                L.val(o, SIZE(docs), "size")
    ctor = [f for f in P.byq(MIX + "::CollectionMixin") if f.ctor == 1]
    if not ctor:
        raise Broken("constructor of CollectionMixin not found")
    for nm in ("name", "db", "type"):
        for f in both(lab, MIX + "::" + nm, n=0):
            with Law(lab, "mix-meta", cq(f) + nm, f) as L:
                st = lab.start()
                c = lab.blank(st, "c", MIX)
                db, n = lab.obj(st, "thedb"), lab.obj(st, "n")
                for o in L.run(st, ctor[0], c, db, S("n")):
                    if not L.kind(o, "n", "construction"):
                        continue
                    for o2 in L.run(o.st, f, c):
                        if not L.kind(o2, "n", nm):
                            continue
                        if nm == "name":
                            L.val(o2, S("n"), "name()")
                        elif nm == "type":
                            L.val(o2, C("ProbeDocument"), "type()")
                        elif o2.v[0] != "@" or o2.st.nz(o2.v[1]) != db:
                            L.fail(o2.st, "db() is not the database given at construction")
                    for o2 in L.run(o.st, size, c):
                        if L.kind(o2, "n", "size"):
                            L.val(o2, C(0), "size of a new collection")


def flat(t):
    out = []
    if isinstance(t, tuple):
        out.append(t)
        for x in t:
            out += flat(x)
    return out


def order_of(lab, st, cmp):
    """"" if the comparator is the ascending order of distinct strings, a description if it is not, None if unknown"""
    if len(cmp) != 1:
        return None
    fv = cmp[0]
    if fv[0] == "rec":
        return "std::greater" if "std::greater" in (fv[1] or "") else "" if "std::less" in (fv[1] or "") else None
    a, b = S("cmp_a"), S("cmp_b")
    unknown = False
    for want, hi, lo in ((True, b, a), (False, a, b)):
        s = st.clone()
        s.facts[("pos", lin_sub(hi, lo))] = True
        x, y = sorted((a, b), key=repr)
        s.facts[("eq", x, y)] = False
        la, lb = lab.obj(s, "cmp_a"), lab.obj(s, "cmp_b")
        for o in lab.I.invoke(fv, (("@", la), ("@", lb)), s):
            if o.k != "n":
                return "the comparator does not return"
            for v, s1 in lab.read(o.st, o.v):
                if has_unk(v) or v[0] == "ret" or lab.tainted(s1):
                    unknown = True
                    continue
                for t, s2 in lab.I.truth(v, s1):
                    if t == want:
                        continue
                    new = [k for k in s2.facts if k not in st.facts]
                    if any(has_unk(k) for k in new):
                        unknown = True
                    else:
                        return "for keys a %s b the comparator says %s%s" % ("<" if want else ">", t, "".join(
                            ", when %s is %s" % (show(k[1:]), s2.facts[k]) for k in new if k[0] == "pos" and k[1] != lin_sub(hi, lo))[:200])
    return None if unknown else ""


def docs_field(P):
    for rn in [MIX] + P.bases(MIX):
        for f in P.records.get(rn, {}).get("fields", ()):
            t = f["t"]
            if t.tn in ("std::unordered_map", "std::map"):
                return f["n"]
    raise Broken("document map of CollectionMixin not found")


def docs_term(lab, P, st, c):
    return ("fld", st.store[c[0]], docs_field(P))


def docs_now(lab, P, st, c):
    return lab.rd(st, (c[0], (("f", docs_field(P)),)))[0][0]


def small_collections(lab, rep, P, f, rid):
    """the same query on collections of 0 to 3 named documents, every entry spelled out"""
    for names in ((), ("b",), ("doc_9", "doc_10"), ("doc_10", "b", "doc_9")):
        with Law(lab, rid, "%s on a collection of %d documents" % (f.n, len(names)), f) as L:
            st = lab.start()
            c, lp = lab.obj(st, "c"), lab.obj(st, "p")
            docs = ("map", None, tuple((C(n), S("D%d" % i)) for i, n in enumerate(names)))
            for o in lab.I.wr((c[0], (("f", docs_field(P)),)), docs, st):
                st = o.st
            for o in L.run(st, f, c, *([lp] if f.p else [])):
                if not L.kind(o, "n", f.n):
                    continue
                if any(e[0] == "loop" for e, _ in o.st.eff):
                    L.unds.append("the loop over the documents was not followed entry by entry")
                    continue
                for v, s in lab.read(o.st, o.v):
                    srt = v[0] == "sorted"
                    own = srt and len(v) > 2
                    if srt:
                        v = v[1]
                    if v[0] != "seq" or has_unk(v) or any(p[0] != "e" or s.nz(p[1])[0] != "c" for p in v[1]):
                        L.unds.append("result not understood: " + show(v)[:160])
                        continue
                    got = [s.nz(p[1])[1] for p in v[1]]
                    want = list(names)
                    if f.p:
                        want = []
                        for i, n in enumerate(names):
                            acc = [s.facts.get(("truth", ("ret", "call", e[1], e[2]))) for e, _ in s.eff
                                   if e[0] == "invoke" and s.nz(e[1]) == S("p") and tcontains(e[2], S("D%d" % i))]
                            if not acc:
                                L.fail(s, "the predicate never sees document %d of %d" % (i + 1, len(names)))
                            elif acc[-1]:
                                want.append(n)
                    if sorted(got) != sorted(want):
                        L.fail(s, "of the documents %s the result lists %s, expected %s" % (list(names), got, want))
                    elif not f.p and not srt and got != sorted(want):
                        L.fail(s, "the keys come as %s" % got)
                    elif own:
                        L.unds.append("custom order")


def check_find(L, s, v, docs):
    if has_unk(v):
        L.unds.append("result not understood: " + show(v)[:160])
        return
    if v[0] == "sorted":
        v = v[1]
    if v[0] != "seq":
        L.unds.append("result not understood: " + show(v)[:160])
        return
    if not v[1]:
        for b, s2 in L.lab.I.map_empty(docs, s.clone()):
            if not b:
                L.fail(s2, "find returns nothing although documents exist")
        return
    if len(v[1]) != 1 or v[1][0][0] != "comp":
        if any(p[0] == "e" for p in v[1]):
            L.fail(s, "result has elements that are not matches: " + show(v)[:160], v)
        else:
            L.unds.append("result not understood: " + show(v)[:160])
        return
    _, R, n, alts = v[1][0]
    if R != docs:
        L.unds.append("iterates " + show(R)[:100])
        return
    key = ("ekey", R, n)
    doc = ("sel", R, key)
    for facts, pushed in alts:
        pred = [b for k, b in facts if k[0] == "truth" and k[1][0] == "ret" and k[1][1] == "call"
                and k[1][2] == S("p") and len(k[1][3]) == 1 and tcontains(k[1][3][0], doc)]
        rest = [(k, b) for k, b in facts if not (k[0] == "truth" and k[1][0] == "ret" and k[1][1] == "call" and k[1][2] == S("p"))
                and k[0] not in ("ismap", "isempty")]
        if not pred:
            L.fail(s, "an entry is %s without asking the predicate about its document%s" % (
                "returned" if pushed else "skipped", " (when %s)" % ", ".join("%s=%s" % (show(k), b) for k, b in rest) if rest else ""))
            return
        if pred[0] and not pushed:
            L.fail(s, "a document the predicate accepts is left out when %s" % ", ".join("%s=%s" % (show(k), b) for k, b in rest))
            return
        if not pred[0] and pushed:
            L.fail(s, "a document the predicate rejects is returned")
            return
        if pushed and (len(pushed) != 1 or pushed[0][0] != "e"):
            L.fail(s, "a match contributes %d elements" % len(pushed))
            return
        if pushed and pushed[0][1] != key:
            L.fail(s, "for a match find returns %s, not the key doc() accepts" % show(pushed[0][1])[:200], pushed[0][1])
            return


@rule("C08")
def c08(rep):
    P = load("core")
    lab = Lab(P, rep)
    ob = DictObs(lab)
    rep.rule("doc-keepid", "an id given by the user is kept, whatever else happens", 1)
    rep.rule("doc-genid", "a document without an id gets one drawn from a process-wide counter in one indivisible step", 2)
    rep.rule("doc-id", "id() reports the document's id entry", 1)
    rep.rule("doc-distinct", "two generated ids differ", 1)
    rep.rule("doc-content", "construction keeps every other entry of the source dictionary", 1)
    ctors = [f for f in P.byq(DOC + "::Document") if f.ctor in (1, 4) and f.b is not None]
    fromd = [f for f in ctors if len(f.p) == 2 and f.p[0]["t"].bare == DICT]
    dflt = [f for f in ctors if not f.p]
    if not fromd or not dflt:
        raise Broken("constructors of Document not found")
    idf = lab.fn(DOC + "::id", n=0)
    ID = C("id")
    q = S("q")

    def make(L, st, f):
        d = lab.blank(st, "d", DOC)
        if f.p:
            a = [lab.obj(st, "dict"), lab.obj(st, "val")]
        else:
            a = []
        return d, a

    with Law(lab, "doc-keepid", "Document(dict with id)", fromd[0]) as L:
        st = lab.start()
        d, a = make(L, st, fromd[0])
        li = lab.obj(st, "idk", ID)
        for (b, x), s in ob.snap(L, st, a[0], li):
            if not b:
                continue
            for o in L.run(s, fromd[0], d, *a):
                if o.k == "n":
                    for (b2, x2), s2 in ob.snap(L, o.st, d, li):
                        if not b2:
                            L.fail(s2, "the given id is lost")
                        else:
                            L.same(s2, x2, x, "id entry")
    with Law(lab, "doc-content", "Document(dict): entry q", fromd[0]) as L:
        st = lab.start()
        d, a = make(L, st, fromd[0])
        lq = lab.obj(st, "q")
        for snap, s in ob.snap(L, st, a[0], lq):
            for isid, s1 in lab.eq(s, q, ID):
                if isid:
                    continue
                for o in L.run(s1, fromd[0], d, *a):
                    if o.k == "n":
                        ob.still(L, o.st, d, lq, snap, "in the document")
                    if o.k != "x":
                        ob.still(L, o.st, a[0], lq, snap, "in the source dictionary")
    for f in (fromd[0], dflt[0]):
        with Law(lab, "doc-genid", "Document(%s)" % ("dict without id" if f.p else ""), f) as L:
            st = lab.start()
            d, a = make(L, st, f)
            li = lab.obj(st, "idk", ID)
            starts = [s for (b, x), s in ob.snap(L, st, a[0], li) if not b] if a else [st]
            for s in starts:
                for o in L.run(s, f, d, *a):
                    if o.k != "n":
                        continue
                    for (b, x), s2 in ob.snap(L, o.st, d, li):
                        if not b:
                            L.fail(s2, "no id was generated")
                            continue
                        check_genid(L, lab, P, s2, x)
    with Law(lab, "doc-distinct", "two documents without id", fromd[0]) as L:
        st = lab.start()
        li = lab.obj(st, "idk", ID)
        for f1, f2 in ((fromd[0], fromd[0]), (dflt[0], dflt[0]), (dflt[0], fromd[0])):
            st = lab.start()
            li = lab.obj(st, "idk", ID)
            d1, d2 = lab.blank(st, "d1", DOC), lab.blank(st, "d2", DOC)
            dd, v = lab.obj(st, "dict"), lab.obj(st, "val")
            for (b, x), s in ob.snap(L, st, dd, li):
                if b:
                    continue
                for o in L.run(s, f1, d1, *([dd, v] if f1.p else [])):
                    if o.k != "n":
                        continue
                    for o2 in L.run(o.st, f2, d2, *([dd, v] if f2.p else [])):
                        if o2.k != "n":
                            continue
                        for (b1, x1), s1 in ob.snap(L, o2.st, d1, li):
                            for (b2, x2), s2 in ob.snap(L, s1, d2, li):
                                if b1 and b2:
                                    r = differ(s2.nz(x1), s2.nz(x2))
                                    if r is False:
                                        L.fail(s2, "both get the id %s" % show(x1), x1)
                                    elif r is None:
                                        L.unds.append("ids %s and %s" % (show(x1), show(x2)))
    with Law(lab, "doc-id", "id() of an arbitrary document", idf) as L:
        st = lab.start()
        d = lab.obj(st, "d")
        li = lab.obj(st, "idk", ID)
        for (b, x), s in ob.snap(L, st, d, li):
            if not b:
                continue
            for t, s1 in lab.I.anytype(x, STR, s.clone()):
                if not t:
                    continue
                for o in L.run(s1, idf, d):
                    if L.kind(o, "n", "id()"):
                        L.val(o, ("anyval", s1.nz(x), STR), "id()")
    for f in [x for x in P.byq(DOC + "::Document") if x.ctor in (2, 3)]:
        with Law(lab, "doc-id", "a %s document keeps its id" % ("copied" if f.ctor == 2 else "moved"), f) as L:
            st = lab.start()
            src, d = lab.obj(st, "src"), lab.blank(st, "d", DOC)
            li = lab.obj(st, "idk", ID)
            for snap, s in ob.snap(L, st, src, li):
                for o in L.run(s, f, d, src):
                    if L.kind(o, "n", "copying"):
                        ob.still(L, o.st, d, li, snap, "in the copy")


def counters(t, out):
    """global objects whose value a term depends on"""
    if isinstance(t, tuple):
        if t and t[0] == "glob":
            out.add(t[1])
        for x in t:
            counters(x, out)
    return out


def plain_of(x):
    return x[2] if x[0] == "any" else x


def check_genid(L, lab, P, st, x):
    """the generated id x must come from one indivisible update of a process-wide counter"""
    v = plain_of(st.nz(x))
    gs = counters(v, set())
    if has_unk(v):
        L.unds.append("generated id not understood: " + show(v)[:120])
        return
    if not gs and not any(y[0] == "op" and y[1] == "address" for y in flat(v) if isinstance(y, tuple) and len(y) > 1):
        if any(e[0] in ("opaque",) for e, _ in st.eff):
            L.unds.append("generated id comes from an unmodelled call")
            return
        L.fail(st, "the generated id is always %s" % show(v), v)
        return
    addr = any(y[0] == "op" and y[1] == "address" for y in flat(v) if isinstance(y, tuple) and len(y) > 1)
    if addr and not gs:
        L.fail(st, "the generated id is an address: a later document at the same place gets the same id", v)
        return
    rmw = [(e, site) for e, site in st.eff if e[0] == "rmw"]
    locks = [(e, site) for e, site in st.eff if e[0] == "lock"]
    moved = {e[1][0][1] for e, _ in rmw if e[1][0][0] == "g"} & set(gs)
    if moved:
        # others that this call leaves alone may still be part of the id
        gs = {g for g in gs if g in moved or st.store.get(("g", g)) not in (None, ("glob", g))}
    for g in sorted(gs):
        upd = [(e, s) for e, s in rmw if e[1][0] == ("g", g)]
        info = globinfo(P, g)
        if info.get("tls"):
            L.fail(st, "the id counter exists once per thread: two threads generate the same ids")
            return
        if info.get("internal") and info.get("header"):
            L.fail(st, "the id counter exists once per translation unit: two units generate the same ids")
            return
        if info["bits"] and info["bits"] < 32:
            L.fail(st, "the id counter has %d bits only: ids repeat after %d documents" % (info["bits"], 1 << info["bits"]))
            return
        now = st.store.get(("g", g))
        if not upd:
            if any(e[1] is not None and e[1][0][0] == "g" for e, _ in locks):
                continue
            if now is None or now == ("glob", g):
                L.fail(st, "the generated id %s repeats: nothing advances the counter" % show(v), v)
            else:
                L.fail(st, "the id counter is read and written in separate steps: threads can draw the same id", v)
            return
        for e, s in upd:
            if not (e[3][0] == "c" and isinstance(e[3][1], int) and e[3][1] != 0) or e[2] == "exchange":
                L.fail(st, "the counter does not advance by a fixed non-zero step")
                return
        if any(e[0] == "astore" and e[1][0] == ("g", g) for e, _ in st.eff):
            L.fail(st, "the counter is also overwritten: threads can draw the same id")
            return
        if any(e[0] == "aload" and e[1][0] == ("g", g) for e, _ in st.eff):
            L.fail(st, "the id uses a separate read of the counter: threads can draw the same id")
            return
        # the id must determine the drawn number
        parts = v[1] if v[0] == "cat" else (v,)
        var = [p for p in parts if p[0] != "c"]
        inj = len(var) == 1 and var[0][0] == "op" and var[0][1] in ("to_string", "fmt") and \
            lin_parts(var[0][2]) is not None and var[0][2][0] in ("glob", "lin")
        if not inj:
            if any(y[0] == "op" and y[1] in ("%", "/", "&", ">>", "string::substr") for y in flat(v) if isinstance(y, tuple) and len(y) > 1):
                L.fail(st, "different counter values give the same id: " + show(v), v)
            else:
                L.unds.append("id expression not understood: " + show(v)[:120])


def globinfo(P, g):
    d = dict(P.globals.get(g, {}))
    d["header"] = str(d.get("file", "")).endswith((".hpp", ".h"))
    if d.get("inline"):
        d["internal"] = 0
    for f in P.funcs.values():
        if f.b is None:
            continue
        for x in walk(f.b):
            if x.get("k") == "decl":
                for v in x["v"]:
                    if v.get("gu") == g:
                        d.setdefault("t", v["t"])
                        if v.get("tls"):
                            d["tls"] = 1
    t = d.get("t")
    t = t.strip() if t is not None else None
    if t is not None and t.tn == "std::atomic" and t.ta:
        t = t.ta[0]
    d["bits"] = t.bits if t is not None and t.k == "int" else None
    return d


def differ(a, b):
    """True if two id terms are known to differ, False if they are equal, else None"""
    a, b = plain_of(a), plain_of(b)
    if a == b:
        return False
    pa = a[1] if a[0] == "cat" else (a,)
    pb = b[1] if b[0] == "cat" else (b,)
    if len(pa) == len(pb):
        diff = [(x, y) for x, y in zip(pa, pb) if x != y]
        if len(diff) == 1:
            x, y = diff[0]
            if x[0] == "op" and y[0] == "op" and x[1] == y[1] and x[1] in ("to_string", "fmt"):
                d = lin_sub(x[2], y[2])
                if d[0] == "c":
                    return d[1] != 0
            if x[0] == "c" and y[0] == "c":
                return None
    return None


@rule("C09")
def c09(rep):
    P = load("core")
    lab = Lab(P, rep)
    ob = DictObs(lab)
    rep.rule("doc-valid", "a document constructed from a dictionary exists only if its validator accepted its final content", 1)
    rep.rule("doc-validate", "validate() applies the document's own validator to its current content and throws runtime_error on rejection", 2)
    rep.rule("doc-default", "the default validator accepts exactly the dictionaries with an id; a default-made document passes", 2)
    ctors = [f for f in P.byq(DOC + "::Document") if f.ctor in (1, 4) and f.b is not None]
    fromd = [f for f in ctors if len(f.p) == 2 and f.p[0]["t"].bare == DICT]
    dflt = [f for f in ctors if not f.p]
    if not fromd or not dflt:
        raise Broken("constructors of Document not found")
    validate = lab.fn(DOC + "::validate", n=0)

    def verdicts(s, val):
        """[(argument value, accepted?)] of the validator calls on this path"""
        r = []
        for e, _ in s.eff:
            if e[0] == "invoke" and s.nz(e[1]) == s.nz(val):
                ret = ("ret", "call", e[1], e[2])
                acc = s.facts.get(("truth", ret))
                r.append((e[2][0] if len(e[2]) == 1 else None, acc))
        return r

    with Law(lab, "doc-valid", "Document(dict, validator)", fromd[0]) as L:
        st = lab.start()
        d = lab.blank(st, "d", DOC)
        dd, v = lab.obj(st, "dict"), lab.obj(st, "val")
        lq = lab.obj(st, "q")
        sawthrow = False
        for o in L.run(st, fromd[0], d, dd, v):
            vs = verdicts(o.st, S("val"))
            if o.k == "n":
                good = [a for a, acc in vs if acc]
                if any(acc is False for a, acc in vs):
                    L.fail(o.st, "the document exists although its validator rejected it")
                    continue
                if not good:
                    if vs:
                        L.fail(o.st, "the document exists although the validator's verdict was not used")
                    else:
                        L.fail(o.st, "the document exists without having been validated")
                    continue
                # the accepted content is the final content
                arg = good[-1]
                s = o.st.clone()
                snaploc = lab.obj(s, "validated", arg)
                for snap, s2 in ob.snap(L, s, snaploc, lq):
                    ob.still(L, s2, d, lq, snap, "final content against validated content")
            elif o.k == "t":
                sawthrow = True
                if any(acc is False for a, acc in vs):
                    L.kind(o, ("t", "std::runtime_error"), "rejected document")
            else:
                L.fail(o.st, "construction ends the program")
    for exc in ("std::bad_any_cast", "std::out_of_range", "std::logic_error", "std::runtime_error", "std::exception",
                "NeoFOAM::NeoFOAMException", "a user's exception"):
        with Law(lab, "doc-valid", "a validator that throws %s" % exc, fromd[0]) as L:
            st = lab.start()
            d = lab.blank(st, "d", DOC)
            dd, v = lab.obj(st, "dict"), lab.obj(st, "val")
            lab.I.fnthrow[S("val")] = exc
            try:
                for o in L.run(st, fromd[0], d, dd, v):
                    if o.k == "n" and not any(e[0] == "loop" for e, _ in o.st.eff):
                        L.fail(o.st, "the document exists although its validator did not accept it but threw")
            finally:
                del lab.I.fnthrow[S("val")]
    vals = [("constructed", None)] + [("copied", f) for f in P.byq(DOC + "::Document") if f.ctor == 2] + \
        [("moved", f) for f in P.byq(DOC + "::Document") if f.ctor == 3] + \
        [("assigned", f) for f in lab.fns(DOC + "::operator=", n=1) if f.casg]
    for nm, cp in vals:
        with Law(lab, "doc-validate", "validate() of a %s document" % nm, cp or validate) as L:
            st = lab.start()
            d = lab.blank(st, "d", DOC)
            dd, v = lab.obj(st, "dict"), lab.obj(st, "val")
            lq, lv = lab.obj(st, "q"), lab.obj(st, "v")
            ins = lab.fn(DICT + "::insert", n=2)
            for o in lab.call(st, fromd[0], d, dd, v):
                if o.k != "n":
                    continue
                sts = [(d, o.st)]
                if cp is not None:
                    s = o.st.clone()
                    d2 = lab.blank(s, "d2", DOC) if cp.ctor else lab.obj(s, "d2")
                    sts = [(d2, o2.st) for o2 in lab.call(s, cp, d2, d) if o2.k == "n"]
                for dx, s in sts:
                    for o2 in lab.call(s, ins, dx, lq, lv):
                        n0 = len(o2.st.eff)
                        for o3 in L.run(o2.st, validate, dx):
                            s3 = o3.st.clone()
                            s3.eff = s3.eff[n0:]
                            vs = verdicts(s3, S("val"))
                            if not vs:
                                L.fail(o3.st, "validate() does not ask the validator given at construction")
                                continue
                            arg, acc = vs[-1]
                            if acc is False:
                                L.kind(o3, ("t", "std::runtime_error"), "validate() of a rejected document")
                            elif acc:
                                if L.kind(o3, "n", "validate() of an accepted document"):
                                    L.val(o3, TRUE, "validate()")
                            else:
                                L.fail(o3.st, "the validator's verdict is ignored")
                            if arg is not None:
                                al = lab.obj(s3, "validated", arg)
                                for snap, s4 in ob.snap(L, s3, dx, lq):
                                    ob.still(L, s4, al, lq, snap, "content given to the validator")
    hasid = lab.fn("NeoFOAM::hasId", n=1)
    with Law(lab, "doc-default", "hasId(d)", hasid) as L:
        st = lab.start()
        d = lab.obj(st, "d")
        li = lab.obj(st, "idk", C("id"))
        for b, s in ob.has(L, st, d, li):
            for o in L.run(s, hasid, None, S("d")):
                if L.kind(o, "n", "hasId"):
                    L.val(o, C(b), "hasId of a dictionary %s id" % ("with" if b else "without"))
    mk = lab.fn("nfprobe::makeDefault", n=1)
    remove = lab.fn(DICT + "::remove", n=1)
    with Law(lab, "doc-default", "a document made without naming a validator must have an id", fromd[0]) as L:
        st = lab.start()
        dd = lab.obj(st, "dict")
        li = lab.obj(st, "idk", C("id"))
        for o in L.run(st, mk, None, dd):
            if not L.kind(o, "n", "construction with the default validator"):
                continue
            s = o.st.clone()
            d = lab.obj(s, "made", o.v) if o.v[0] != "@" else o.v[1]
            for o2 in L.run(s, validate, d):
                if L.kind(o2, "n", "validate() right after construction"):
                    L.val(o2, TRUE, "validate()")
            for o2 in lab.call(s, remove, d, li):
                if o2.k == "n":
                    for o3 in L.run(o2.st, validate, d):
                        L.kind(o3, ("t", "std::runtime_error"), "validate() once the id is removed")
    with Law(lab, "doc-default", "validate() of a default-made document", dflt[0]) as L:
        st = lab.start()
        d = lab.blank(st, "d", DOC)
        for o in L.run(st, dflt[0], d):
            if L.kind(o, "n", "construction"):
                for o2 in L.run(o.st, validate, d):
                    if L.kind(o2, "n", "validate()"):
                        L.val(o2, TRUE, "validate()")
    for f in both(lab, "NeoFOAM::name", n=1):
        with Law(lab, "doc-validate", "name(%sdocument) is its name entry" % ("const " if f.p[0]["t"].to.const else ""), f) as L:
            st = lab.start()
            d = lab.obj(st, "d")
            ln = lab.obj(st, "nk", C("name"))
            for (b, x), s in ob.snap(L, st, d, ln):
                for o in L.run(s, f, None, d):
                    if not b:
                        L.kind(o, ("t", OOR), "name() without a name entry")
                    elif o.k == "n":
                        L.val(o, ("anyval", s.nz(x), STR), "name()")
                    else:
                        L.kind(o, ("t", BAC), "name() of a non-string entry")


@rule("C12")
def c12(rep):
    P = load("core")
    lab = Lab(P, rep)
    rep.rule("sten-insert", "insert(k, v) stores v under a free key and never replaces an existing entry", 1)
    rep.rule("sten-get", "get<T>(k) and [k] yield the stored value; an absent key throws out_of_range and is not created; a wrong type throws bad_any_cast", 4)
    rep.rule("sten-pure", "contains() answers without changing the store", 1)
    SD = "NeoFOAM::StencilDataBase"
    has = lab.fn(SD + "::contains", n=1)
    at = lab.fn(SD + "::operator[]", n=1, const=True)
    k, q = S("k"), S("q")

    def snap(L, st, d, lq):
        r = []
        for o in L.run(st, has, d, lq):
            if not L.kind(o, "n", "contains"):
                continue
            for v, s in lab.read(o.st, o.v):
                for b, s2 in lab.I.truth(v, s):
                    for o2 in L.run(s2, at, d, lq):
                        if not b:
                            if L.kind(o2, ("t", OOR), "[] of an absent key"):
                                r.append(((False, None), o2.st))
                        elif L.kind(o2, "n", "[] of a present key"):
                            for x, s3 in lab.read(o2.st, o2.v):
                                r.append(((True, x), s3))
        return r

    def still(L, st, d, lq, sn, what):
        for (b, x), s in snap(L, st, d, lq):
            if b != sn[0]:
                L.fail(s, "%s: entry %s" % (what, "appeared" if b else "disappeared"))
            elif b:
                L.same(s, x, sn[1], what)

    for f in both(lab, SD + "::insert", n=2):
        with Law(lab, "sten-insert", "insert<%s>" % f.ta[0]["t"].s, f) as L:
            st = lab.start()
            d, lk, lq = lab.obj(st, "d"), lab.obj(st, "k"), lab.obj(st, "q")
            for sn, s in snap(L, st, d, lq):
                for o in L.run(s, f, d, lk, S("v")):
                    if not L.kind(o, "n", "insert"):
                        continue
                    for same, s2 in L.split(o.st, q, k):
                        if not same or sn[0]:
                            still(L, s2, d, lq, sn, "after inserting under %s" % ("a taken key" if same else "another key"))
                        else:
                            for (b, x), s3 in snap(L, s2, d, lq):
                                if not b:
                                    L.fail(s3, "the inserted entry is missing")
                                else:
                                    L.same(s3, x, ("any", TAG, S("v")), "inserted entry")
    gets = [("[]", f, None) for f in both(lab, SD + "::operator[]", n=1)]
    gets += [("get<Tag>", f, TAG) for f in both(lab, SD + "::get", n=1, where=has_ta(TAG))]
    for nm, f, T in gets:
        with Law(lab, "sten-get", cq(f) + nm, f) as L:
            st = lab.start()
            d, lk, lq = lab.obj(st, "d"), lab.obj(st, "k"), lab.obj(st, "q")
            for (b, x), s in snap(L, st, d, lk):
                for zs, s1 in snap(L, s, d, lq):
                    cases = [(None, s1)] if not b or T is None else lab.I.anytype(x, T, s1.clone())
                    for tb, s2 in cases:
                        for o in L.run(s2, f, d, lk):
                            if not b:
                                L.kind(o, ("t", OOR), nm + " of an absent key")
                            elif tb is False:
                                L.kind(o, ("t", BAC), nm + " of another type")
                            elif L.kind(o, "n", nm):
                                L.val(o, ("anyval", s2.nz(x), T) if T else x, nm)
                            if o.k != "x":
                                still(L, o.st, d, lq, zs, "after " + nm)
    with Law(lab, "sten-pure", "contains", has) as L:
        st = lab.start()
        d, lk, lq = lab.obj(st, "d"), lab.obj(st, "k"), lab.obj(st, "q")
        for zs, s in snap(L, st, d, lq):
            for o in L.run(s, has, d, lk):
                if L.kind(o, "n", "contains"):
                    still(L, o.st, d, lq, zs, "after contains")
