"""Properties of the core containers (built scope): dictionary, token list."""
from .rules import rule
from .engine import load, Broken
from .lab import Lab, Law, S, C, TRUE, FALSE, NULL, show
from .absint import bind, Out, EMPTYSEQ, norm_seq, as_seq, seq_len, lin_add, lin_sub, SIZE, St   # noqa: F401

OOR = "std::out_of_range"
BAC = "std::bad_any_cast"
TAG = "nfprobe::Tag"
STR = "std::basic_string<char, std::char_traits<char>, std::allocator<char>>"
DICT = "NeoFOAM::Dictionary"
ANY = "std::any"


def both(lab, q, **kw):
    """const and non-const overloads"""
    r = lab.fns(q, **kw)
    if not r:
        raise Broken("interface function not found: " + q)
    return r


def has_ta(t):
    return lambda f: bool(f.ta) and f.ta[0].get("t") is not None and f.ta[0]["t"].s == t


def cq(f):
    return "const " if f.const else ""


# ---------------------------------------------------------------------------- dictionary observers
class DictObs:
    def __init__(self, lab):
        self.lab = lab
        self.contains = lab.fn(DICT + "::contains", n=1)
        self.at = lab.fn(DICT + "::operator[]", n=1, const=True)

    def has(self, law, st, d, q):
        """[(bool, state)]; anything else than a plain answer is a failure"""
        r = []
        for o in law.run(st, self.contains, d, q):
            if not law.kind(o, "n", "contains(%s)" % show(q)):
                continue
            for v, s in self.lab.read(o.st, o.v):
                for b, s2 in self.lab.I.truth(v, s):
                    r.append((b, s2))
        return r

    def get(self, law, st, d, q):
        """[(kind, value, state)] of d[q]"""
        r = []
        for o in law.run(st, self.at, d, q):
            if o.k == "n":
                for v, s in self.lab.read(o.st, o.v):
                    r.append(("n", v, s))
            elif law.kind(o, ("t", OOR), "operator[](%s)" % show(q)):
                r.append(("t", o.v, o.st))
        return r

    def snap(self, law, st, d, q):
        """[((present, value|None), state)] what a caller can see of entry q"""
        r = []
        for b, s in self.has(law, st, d, q):
            for k, v, s2 in self.get(law, s, d, q):
                if b != (k == "n"):
                    law.fail(s2, "contains(%s) is %s but operator[] %s" % (show(q), b, "returns" if k == "n" else "throws"))
                    continue
                r.append(((b, v if b else None), s2))
        return r

    def still(self, law, st, d, q, snap, what):
        """entry q looks as in snap"""
        for (b, v), s in self.snap(law, st, d, q):
            if b != snap[0]:
                law.fail(s, "%s: entry %s %s" % (what, show(q), "appeared" if b else "disappeared"))
            elif b:
                law.same(s, v, snap[1], "%s: entry %s" % (what, show(q)))


@rule("C01")
def c01(rep):
    P = load("core")
    lab = Lab(P, rep)
    ob = DictObs(lab)
    rep.rule("dict-insert", "after insert(k, v): k is present and maps to v, every other key looks as before", 1)
    rep.rule("dict-remove", "after remove(k): k is absent, every other key looks as before", 1)
    rep.rule("dict-ref", "references returned by operator[]/get/subDict/getMap denote the stored entry itself", 3)
    rep.rule("dict-empty", "empty() is true exactly when no key is present", 2)
    rep.rule("dict-keys", "keys() lists every key exactly once and nothing else", 1)
    rep.rule("dict-ctor", "construction from a map or a list of pairs stores exactly the given entries", 2)
    rep.rule("dict-copy", "a copy has the same entries and is independent of its source", 2)
    k, v, q, w = S("k"), S("v"), S("q"), S("w")
    insert = lab.fn(DICT + "::insert", n=2)
    remove = lab.fn(DICT + "::remove", n=1)

    def objs(st):
        return lab.obj(st, "d"), lab.obj(st, "k"), lab.obj(st, "v"), lab.obj(st, "q")

    with Law(lab, "dict-insert", "insert(k, v); q observed", insert) as L:
        st = lab.start()
        d, lk, lv, lq = objs(st)
        for snap, s in ob.snap(L, st, d, lq):
            for o in L.run(s, insert, d, lk, lv):
                if not L.kind(o, "n", "insert"):
                    continue
                for same, s2 in L.split(o.st, q, k):
                    if same:
                        for (b, x), s3 in ob.snap(L, s2, d, lq):
                            if not b:
                                L.fail(s3, "the inserted key is absent")
                            else:
                                L.same(s3, x, v, "value of the inserted key")
                    else:
                        ob.still(L, s2, d, lq, snap, "after inserting another key")

    with Law(lab, "dict-remove", "remove(k); q observed", remove) as L:
        st = lab.start()
        d, lk, lv, lq = objs(st)
        for snap, s in ob.snap(L, st, d, lq):
            for o in L.run(s, remove, d, lk):
                if not L.kind(o, "n", "remove"):
                    continue
                for same, s2 in L.split(o.st, q, k):
                    if same:
                        for b, s3 in ob.has(L, s2, d, lq):
                            if b:
                                L.fail(s3, "the removed key is still present")
                        for kk, x, s3 in ob.get(L, s2, d, lq):
                            if kk == "n":
                                L.fail(s3, "operator[] of the removed key returns")
                    else:
                        ob.still(L, s2, d, lq, snap, "after removing another key")

    # two-step histories: the second insertion of a key replaces, remove then insert
    with Law(lab, "dict-insert", "insert(k, v); insert(k, w): the last value wins", insert) as L:
        st = lab.start()
        d, lk, lv, lq = objs(st)
        lw = lab.obj(st, "w")
        for o in L.run(st, insert, d, lk, lv):
            if L.kind(o, "n", "insert"):
                for o2 in L.run(o.st, insert, d, lk, lw):
                    if L.kind(o2, "n", "second insert"):
                        for (b, x), s in ob.snap(L, o2.st, d, lk):
                            if not b:
                                L.fail(s, "key absent after two insertions")
                            else:
                                L.same(s, x, w, "value after two insertions")

    # references
    for f in both(lab, DICT + "::operator[]", n=1, const=False):
        with Law(lab, "dict-ref", "write through operator[](k)", f) as L:
            st = lab.start()
            d, lk, lv, lq = objs(st)
            for snap, s in ob.snap(L, st, d, lq):
                for o in L.run(s, f, d, lk):
                    if o.k != "n":
                        continue
                    if o.v[0] != "@":
                        L.fail(o.st, "does not return a reference")
                        continue
                    for o2 in lab.I.wr(o.v[1], v, o.st.clone()):
                        for same, s2 in L.split(o2.st, q, k):
                            if same:
                                for (b, x), s3 in ob.snap(L, s2, d, lq):
                                    if b:
                                        L.same(s3, x, v, "value written through the reference")
                                    else:
                                        L.fail(s3, "entry vanished")
                            else:
                                ob.still(L, s2, d, lq, snap, "after a write through operator[] of another key")
    for T in (TAG, STR):
        for f in both(lab, DICT + "::get", n=1, where=has_ta(T)):
            if f.const:
                continue
            with Law(lab, "dict-ref", "write through get<%s>(k)" % ("Tag" if T == TAG else "string"), f) as L:
                st = lab.start()
                d, lk, lv, lq = objs(st)
                for o in L.run(st, f, d, lk):
                    if o.k != "n" or o.v[0] != "@":
                        continue
                    for o2 in lab.I.wr(o.v[1], w, o.st.clone()):
                        for o3 in L.run(o2.st, f, d, lk):
                            if L.kind(o3, "n", "get after the write"):
                                L.val(o3, w, "value written through get's reference")
    sub = both(lab, DICT + "::subDict", n=1, const=False)[0]
    with Law(lab, "dict-ref", "insertion into subDict(k)", sub) as L:
        st = lab.start()
        d, lk, lv, lq = objs(st)
        for o in L.run(st, sub, d, lk):
            if o.k != "n" or o.v[0] != "@":
                continue
            for o2 in L.run(o.st, insert, o.v[1], lq, lv):
                if not L.kind(o2, "n", "insert"):
                    continue
                for o3 in L.run(o2.st, sub, d, lk):
                    if L.kind(o3, "n", "subDict again") and o3.v[0] == "@":
                        for (b, x), s in ob.snap(L, o3.st, o3.v[1], lq):
                            if not b:
                                L.fail(s, "entry inserted through subDict's reference is not in the dictionary")
                            else:
                                L.same(s, x, v, "entry inserted through subDict's reference")
    for f in both(lab, DICT + "::getMap", n=0):
        with Law(lab, "dict-ref", cq(f) + "getMap() shows exactly the entries", f) as L:
            st = lab.start()
            d, lk, lv, lq = objs(st)
            for snap, s in ob.snap(L, st, d, lq):
                for o in L.run(s, f, d):
                    if not L.kind(o, "n", "getMap"):
                        continue
                    for m, s2 in lab.read(o.st, o.v):
                        for b, s3 in lab.I.has(m, q, s2.clone()):
                            if b != snap[0]:
                                L.fail(s3, "getMap() and contains() disagree")
                            elif b:
                                for o3 in lab.I.select(m, q, s3):
                                    L.same(o3.st, o3.v, snap[1], "value in getMap()")

    # empty
    emp = lab.fn(DICT + "::empty", n=0)
    with Law(lab, "dict-empty", "empty() excludes any key", emp) as L:
        st = lab.start()
        d, lk, lv, lq = objs(st)
        for o in L.run(st, emp, d):
            if L.kind(o, "n", "empty"):
                for e, s in lab.I.truth(lab.read(o.st, o.v)[0][0], o.st):
                    if e:
                        for b, s2 in ob.has(L, s, d, lq):
                            if b:
                                L.fail(s2, "empty() is true although a key is present")
    with Law(lab, "dict-empty", "a dictionary with an entry is not empty", emp) as L:
        st = lab.start()
        d, lk, lv, lq = objs(st)
        for b, s in ob.has(L, st, d, lq):
            if b:
                for o in L.run(s, emp, d):
                    if L.kind(o, "n", "empty"):
                        L.val(o, FALSE, "empty() with an entry present")
        for o in L.run(st, insert, d, lk, lv):
            for o2 in L.run(o.st, emp, d):
                if L.kind(o2, "n", "empty"):
                    L.val(o2, FALSE, "empty() after insert")
    ctors = [f for f in P.byq(DICT + "::Dictionary") if f.ctor]
    dflt = [f for f in ctors if f.ctor == 4]
    if not dflt:
        raise Broken("no default constructor of Dictionary")
    with Law(lab, "dict-empty", "a new dictionary is empty", dflt[0]) as L:
        st = lab.start()
        d = lab.blank(st, "d", DICT)
        lq = lab.obj(st, "q")
        for o in L.run(st, dflt[0], d):
            if L.kind(o, "n", "construction"):
                for b, s in ob.has(L, o.st, d, lq):
                    if b:
                        L.fail(s, "a new dictionary contains a key")
                for o2 in L.run(o.st, emp, d):
                    if L.kind(o2, "n", "empty"):
                        L.val(o2, TRUE, "empty() of a new dictionary")
                # insert into it and take it out again
                lk, lv = lab.obj(o.st, "k"), lab.obj(o.st, "v")
                for o2 in L.run(o.st, insert, d, lk, lv):
                    for o3 in L.run(o2.st, remove, d, lk):
                        for o4 in L.run(o3.st, emp, d):
                            if L.kind(o4, "n", "empty"):
                                L.val(o4, TRUE, "empty() after the only entry was removed")

    # keys
    keys = lab.fn(DICT + "::keys", n=0)
    with Law(lab, "dict-keys", "keys() of an arbitrary dictionary", keys) as L:
        st = lab.start()
        d = lab.obj(st, "d")
        lq = lab.obj(st, "q")
        getmap = both(lab, DICT + "::getMap", n=0, const=True)[0]
        for o in L.run(st, keys, d):
            if not L.kind(o, "n", "keys"):
                continue
            for r, s in lab.read(o.st, o.v):
                for o2 in lab.call(s, getmap, d):
                    for m, s2 in lab.read(o2.st, o2.v):
                        check_keylist(L, s2, r, m)
    with Law(lab, "dict-keys", "keys() after two insertions into a new dictionary", keys) as L:
        st = lab.start()
        d = lab.blank(st, "d", DICT)
        lk, lv, lq = lab.obj(st, "k"), lab.obj(st, "v"), lab.obj(st, "q")
        for o in L.run(st, dflt[0], d):
            for o2 in L.run(o.st, insert, d, lk, lv):
                for o3 in L.run(o2.st, keys, d):
                    if L.kind(o3, "n", "keys"):
                        for r, s in lab.read(o3.st, o3.v):
                            if r[0] == "seq" and all(p[0] == "e" for p in r[1]):
                                if len(r[1]) != 1:
                                    L.fail(s, "keys() of a one-entry dictionary has %d elements" % len(r[1]))
                                else:
                                    L.same(s, r[1][0][1], k, "the only key")

    for n in (0, 1, 2, 3):
        with Law(lab, "dict-keys", "keys() of a dictionary with %d entries" % n, keys) as L:
            st = lab.start()
            d = lab.blank(st, "d", DICT)
            names = ["one", "two", "three"][:n]
            todo = [(o.st, 0) for o in L.run(st, dflt[0], d) if o.k == "n"]
            while todo:
                s, i = todo.pop()
                if i < n:
                    a, b = lab.obj(s, "k%d" % i, C(names[i])), lab.obj(s, "v%d" % i)
                    todo += [(o.st, i + 1) for o in L.run(s, insert, d, a, b) if o.k == "n"]
                    continue
                for o3 in L.run(s, keys, d):
                    if not L.kind(o3, "n", "keys"):
                        continue
                    for r, s2 in lab.read(o3.st, o3.v):
                        got = [s2.nz(p[1]) for p in r[1]] if r[0] == "seq" and all(p[0] == "e" for p in r[1]) else None
                        if got is None or not all(x[0] == "c" for x in got):
                            L.unds.append("the list is " + show(r)[:100])
                        elif sorted(str(x[1]) for x in got) != sorted(names):
                            L.fail(s2, "keys() of a dictionary with the keys %s is %s" % (names, [x[1] for x in got]))

    # constructors
    for f in ctors:
        if f.ctor != 1 or len(f.p) != 1:
            continue
        pt = f.p[0]["t"].strip()
        if pt.tn in ("std::unordered_map", "std::map"):
            with Law(lab, "dict-ctor", "from a map", f) as L:
                st = lab.start()
                d = lab.blank(st, "d", DICT)
                m = lab.obj(st, "m")
                lq = lab.obj(st, "q")
                for o in L.run(st, f, d, m):
                    if not L.kind(o, "n", "construction"):
                        continue
                    for (b, x), s in ob.snap(L, o.st, d, lq):
                        for hb, s2 in lab.I.has(S("m"), q, s.clone()):
                            if hb != b:
                                L.fail(s2, "key of the source map %s" % ("missing" if hb else "invented"))
                            elif hb:
                                for o3 in lab.I.select(S("m"), q, s2):
                                    L.same(o3.st, x, o3.v, "value of a source entry")
        elif pt.tn == "std::initializer_list":
            for n in (0, 1, 2, 3):
                with Law(lab, "dict-ctor", "from a list of %d pairs" % n, f) as L:
                    st = lab.start()
                    d = lab.blank(st, "d", DICT)
                    lq = lab.obj(st, "q")
                    ks = [S("k%d" % i) for i in range(n)]
                    vs = [S("v%d" % i) for i in range(n)]
                    il = lab.obj(st, "il", ("seq", tuple(("e", ("pair", a, b)) for a, b in zip(ks, vs))))
                    for i, a in enumerate(ks):
                        for b in ks[:i]:
                            x, y = sorted((a, b), key=repr)
                            st.facts[("eq", x, y)] = False
                    for o in L.run(st, f, d, il):
                        if not L.kind(o, "n", "construction"):
                            continue
                        todo = [(o.st.clone(), None)]
                        # which of the given keys is q?
                        cases = []
                        rest = [o.st.clone()]
                        for a, b in zip(ks, vs):
                            nxt = []
                            for s in rest:
                                for t, s2 in lab.eq(s, q, a):
                                    if t:
                                        cases.append((s2, b))
                                    else:
                                        nxt.append(s2)
                            rest = nxt
                        cases += [(s, None) for s in rest]
                        for s, want in cases:
                            for (b, x), s2 in ob.snap(L, s, d, lq):
                                if b != (want is not None):
                                    L.fail(s2, "listed key missing" if want is not None else "key that was not listed is present")
                                elif b:
                                    L.same(s2, x, want, "value of a listed key")
    # copies
    for f in [x for x in ctors if x.ctor in (2, 3)] + both(lab, DICT + "::operator=", n=1):
        move = f.ctor == 3 or (f.n == "operator=" and f.p[0]["t"].k == "rref")
        with Law(lab, "dict-copy", "%s %s" % ("move" if move else "copy", "constructor" if f.ctor else "assignment"), f) as L:
            st = lab.start()
            src = lab.obj(st, "src")
            d = lab.blank(st, "d", DICT) if f.ctor else lab.obj(st, "d")
            lk, lv, lq = lab.obj(st, "k"), lab.obj(st, "v"), lab.obj(st, "q")
            for snap, s in ob.snap(L, st, src, lq):
                for o in L.run(s, f, d, src):
                    if not L.kind(o, "n", "copying"):
                        continue
                    ob.still(L, o.st, d, lq, snap, "in the copy")
                    if not move:
                        ob.still(L, o.st, src, lq, snap, "in the source after copying")
                        for g, a in ((insert, (lk, lv)), (remove, (lk,))):
                            for o2 in L.run(o.st, g, d, *a):
                                if o2.k == "n":
                                    ob.still(L, o2.st, src, lq, snap, "in the source after changing the copy")
                            for o2 in L.run(o.st, g, src, *a):
                                if o2.k == "n":
                                    ob.still(L, o2.st, d, lq, snap, "in the copy after changing the source")


def check_keylist(L, st, r, m, conv=None):
    """r is a sequence term that must list every key of map term m exactly once"""
    from .absint import has_unk
    if has_unk(r):
        L.unds.append("key list not understood: " + show(r)[:200])
        return
    if r[0] == "sorted":
        r = r[1]
    if r[0] != "seq":
        L.unds.append("key list not understood: " + show(r)[:200])
        return
    parts = r[1]
    if len(parts) == 0:
        for b, s in L.lab.I.map_empty(m, st.clone()):
            if not b:
                L.fail(s, "the list is empty although entries exist")
        return
    if len(parts) != 1:
        if any(p[0] in ("e",) for p in parts):
            L.fail(st, "the list has elements besides the keys: " + show(r)[:200])
        else:
            L.unds.append("key list not understood: " + show(r)[:200])
        return
    p = parts[0]
    if p[0] == "e":
        # a single known key: only right for a map with one entry
        L.unds.append("single element")
        return
    if p[0] != "comp":
        L.unds.append("key list not understood: " + show(r)[:200])
        return
    _, R, n, alts = p
    if R != m and R != ("map", m, ()):
        L.unds.append("iterates something else than the entries: " + show(R)[:120])
        return
    key = ("ekey", R, n)
    for facts, pushed in alts:
        if not pushed:
            L.fail(st, "entries are left out when %s" % ", ".join("%s=%s" % (show(k), b) for k, b in facts) if facts else "entries are left out")
            return
        if len(pushed) != 1 or pushed[0][0] != "e":
            L.fail(st, "an entry contributes %d elements" % len(pushed))
            return
        if pushed[0][1] != key:
            L.same(st, pushed[0][1], key, "listed element")
            return


@rule("C02")
def c02(rep):
    P = load("core")
    lab = Lab(P, rep)
    ob = DictObs(lab)
    rep.rule("lookup-absent", "a lookup of an absent key throws out_of_range and creates nothing", 6)
    rep.rule("lookup-type", "a typed lookup returns the stored value only if its type is the requested one, else throws bad_any_cast", 4)
    rep.rule("lookup-pure", "no lookup, successful or failed, changes what the dictionary contains", 8)
    rep.rule("isdict", "isDict(k) is true exactly when k is present and holds a dictionary; it never throws", 1)
    q, z = S("q"), S("z")

    lookups = [("operator[]", f, None) for f in both(lab, DICT + "::operator[]", n=1)]
    lookups += [("get<Tag>", f, TAG) for f in both(lab, DICT + "::get", n=1, where=has_ta(TAG))]
    lookups += [("get<string>", f, STR) for f in both(lab, DICT + "::get", n=1, where=has_ta(STR))]
    lookups += [("subDict", f, DICT) for f in both(lab, DICT + "::subDict", n=1)]
    for nm, f, T in lookups:
        with Law(lab, "lookup-absent", cq(f) + nm, f) as L:
            st = lab.start()
            d, lq, lz = lab.obj(st, "d"), lab.obj(st, "q"), lab.obj(st, "z")
            for b, s in ob.has(L, st, d, lq):
                for o in L.run(s, f, d, lq):
                    if not b:
                        L.kind(o, ("t", OOR), nm + " of an absent key")
                    elif T is None:
                        L.kind(o, "n", nm + " of a present key")
        if T is not None:
            with Law(lab, "lookup-type", cq(f) + nm, f) as L:
                st = lab.start()
                d, lq = lab.obj(st, "d"), lab.obj(st, "q")
                for (b, x), s in ob.snap(L, st, d, lq):
                    if not b:
                        continue
                    for tb, s2 in lab.I.anytype(x, T, s.clone()):
                        for o in L.run(s2, f, d, lq):
                            if not tb:
                                L.kind(o, ("t", BAC), nm + " of an entry of another type")
                            elif L.kind(o, "n", nm + " of an entry of that type"):
                                L.val(o, ("anyval", s2.nz(x), T), nm + " result")
        with Law(lab, "lookup-pure", cq(f) + nm, f) as L:
            st = lab.start()
            d, lq, lz = lab.obj(st, "d"), lab.obj(st, "q"), lab.obj(st, "z")
            for snap, s in ob.snap(L, st, d, lz):
                for o in L.run(s, f, d, lq):
                    if o.k == "x":
                        L.fail(o.st, nm + " ends the program")
                        continue
                    ob.still(L, o.st, d, lz, snap, "after %s%s" % (nm, "" if o.k == "n" else " failed"))
    isd = lab.fn(DICT + "::isDict", n=1)
    with Law(lab, "isdict", "isDict(q)", isd) as L:
        st = lab.start()
        d, lq = lab.obj(st, "d"), lab.obj(st, "q")
        for (b, x), s in ob.snap(L, st, d, lq):
            cases = [(False, s)] if not b else lab.I.anytype(x, DICT, s.clone())
            for want, s2 in cases:
                for o in L.run(s2, isd, d, lq):
                    if L.kind(o, "n", "isDict"):
                        L.val(o, C(want), "isDict of %s" % ("an absent key" if not b else "a dictionary" if want else "another type"))
    for nm, f in [("isDict", isd), ("contains", ob.contains), ("keys", lab.fn(DICT + "::keys", n=0)),
                  ("empty", lab.fn(DICT + "::empty", n=0))] + [(cq(g) + "getMap", g) for g in both(lab, DICT + "::getMap", n=0)]:
        with Law(lab, "lookup-pure", nm, f) as L:
            st = lab.start()
            d, lq, lz = lab.obj(st, "d"), lab.obj(st, "q"), lab.obj(st, "z")
            for snap, s in ob.snap(L, st, d, lz):
                for o in L.run(s, f, d, *([lq] if f.p else [])):
                    if L.kind(o, "n", nm):
                        ob.still(L, o.st, d, lz, snap, "after " + nm)
    rep.assumptions.append("std::unordered_map, std::any and std::string behave as specified by the C++ standard")


# ---------------------------------------------------------------------------- token list
TL = "NeoFOAM::TokenList"


class TokObs:
    def __init__(self, lab):
        self.lab = lab
        self.size = lab.fn(TL + "::size", n=0)
        self.tokens = both(lab, TL + "::tokens", n=0)[0]

    def length(self, law, st, t):
        r = []
        for o in law.run(st, self.size, t):
            if law.kind(o, "n", "size"):
                r += self.lab.read(o.st, o.v)
        return r

    def seq(self, law, st, t):
        r = []
        for o in self.lab.call(st, self.tokens, t):
            if law.kind(o, "n", "tokens"):
                r += self.lab.read(o.st, o.v)
        return r

    def at(self, law, st, t, j):
        """[(element|None, state)]"""
        r = []
        for v, s in self.seq(law, st, t):
            for x, _, s2 in self.lab.I.seq_at(v, j, s.clone()):
                r.append((s2.nz(x) if x is not None else None, s2))
        return r

    def same_list(self, law, st, t, want, what):
        """the tokens are those of sequence term want"""
        for v, s in self.seq(law, st, t):
            law.same(s, norm_seq(as_seq(v)[1]), norm_seq(as_seq(want)[1]), what)


def tl_at(lab, seqterm, j, st):
    return [(s2.nz(x) if x is not None else None, s2) for x, _, s2 in lab.I.seq_at(seqterm, j, st.clone())]


def tl_make(lab, L, st, ctor, toks, cur):
    """a token list holding the arbitrary tokens toks with its cursor at cur"""
    t = lab.blank(st, "t", TL)
    lv = lab.obj(st, "toks", toks)
    r = []
    for o in lab.call(st, ctor, t, lv, cur):
        if L.kind(o, "n", "construction"):
            r.append(o.st)
    return t, r


def tl_ctors(lab):
    P = lab.P
    cs = [f for f in P.byq(TL + "::TokenList") if f.ctor]
    vec = [f for f in cs if f.ctor == 1 and len(f.p) == 2 and f.p[0]["t"].strip().tn == "std::vector"]
    if not vec:
        raise Broken("constructor TokenList(vector, index) not found")
    return cs, vec[0]


def typed(lab, L, st, x, T):
    return lab.I.anytype(x, T, st.clone())


@rule("C03")
def c03(rep):
    P = load("core")
    lab = Lab(P, rep)
    ob = TokObs(lab)
    rep.rule("tok-insert", "insert(v) appends v and leaves the tokens before it alone", 1)
    rep.rule("tok-remove", "remove(i) of a valid index takes out exactly token i and keeps the order", 1)
    rep.rule("tok-get", "get<T>(i) yields token i if it exists and has type T; otherwise it throws out_of_range or bad_any_cast; it changes nothing", 3)
    rep.rule("tok-size", "size() and empty() describe the number of tokens", 2)
    rep.rule("tok-ctor", "a token list holds exactly the tokens it was built from, in order", 3)
    rep.rule("tok-copy", "a copy holds the same tokens and is independent of its source", 2)
    rep.rule("tok-pop", "popFront<T>() returns the first token and removes exactly it; when it fails nothing is removed", 1)
    i, j, v = S("i"), S("j"), S("v")
    T0 = S("T0")
    cs, vec = tl_ctors(lab)
    insert = lab.fn(TL + "::insert", n=1)
    remove = lab.fn(TL + "::remove", n=1)
    empty = lab.fn(TL + "::empty", n=0)

    def mk(L, st):
        t, sts = tl_make(lab, L, st, vec, T0, S("c"))
        return t, sts

    with Law(lab, "tok-ctor", "from a vector", vec) as L:
        st = lab.start()
        t, sts = mk(L, st)
        for s in sts:
            ob.same_list(L, s, t, T0, "tokens of a new list")
            for n, s2 in ob.length(L, s, t):
                L.same(s2, n, SIZE(T0), "size of a new list")
    dflt = [f for f in cs if not f.p]
    for f in dflt:
        with Law(lab, "tok-ctor", "empty", f) as L:
            st = lab.start()
            t = lab.blank(st, "t", TL)
            for o in L.run(st, f, t):
                if L.kind(o, "n", "construction"):
                    for n, s2 in ob.length(L, o.st, t):
                        L.same(s2, n, C(0), "size of an empty list")
    for f in cs:
        if f.ctor == 1 and len(f.p) == 1 and f.p[0]["t"].strip().tn == "std::initializer_list":
            for n in (0, 1, 2, 3):
                with Law(lab, "tok-ctor", "from a list of %d" % n, f) as L:
                    st = lab.start()
                    t = lab.blank(st, "t", TL)
                    want = ("seq", tuple(("e", S("v%d" % k)) for k in range(n)))
                    il = lab.obj(st, "il", want)
                    for o in L.run(st, f, t, il):
                        if L.kind(o, "n", "construction"):
                            ob.same_list(L, o.st, t, want, "tokens of a new list")
    with Law(lab, "tok-size", "size() is the number of tokens", ob.size) as L:
        st = lab.start()
        t = lab.obj(st, "t")
        for sq, s in ob.seq(L, st, t):
            for n, s2 in ob.length(L, s, t):
                L.same(s2, n, seq_len(sq), "size")
    with Law(lab, "tok-size", "empty() agrees with size()", empty) as L:
        st = lab.start()
        t = lab.obj(st, "t")
        for n, s in ob.length(L, st, t):
            for p, s2 in lab.I.pos(n, s.clone()):
                for o in L.run(s2, empty, t):
                    if L.kind(o, "n", "empty"):
                        L.val(o, C(not p), "empty() of a list with %s tokens" % ("some" if p else "no"))
    with Law(lab, "tok-insert", "insert(v)", insert) as L:
        st = lab.start()
        t, sts = mk(L, st)
        for s in sts:
            lv = lab.obj(s, "v")
            for o in L.run(s, insert, t, lv):
                if L.kind(o, "n", "insert"):
                    ob.same_list(L, o.st, t, ("seq", as_seq(T0)[1] + (("e", v),)), "tokens after insert")
                    for n, s2 in ob.length(L, o.st, t):
                        L.same(s2, n, lin_add(SIZE(T0), C(1)), "size after insert")
    with Law(lab, "tok-remove", "remove(i), i < size", remove) as L:
        st = lab.start()
        t, sts = mk(L, st)
        for s in sts:
            for ok, s1 in lab.I.less(i, SIZE(T0), s.clone()):
                if not ok:
                    continue
                for o in L.run(s1, remove, t, i):
                    if not L.kind(o, "n", "remove"):
                        continue
                    for n, s2 in ob.length(L, o.st, t):
                        L.same(s2, n, lin_sub(SIZE(T0), C(1)), "size after remove")
                    # token j of the shorter list
                    for inb, s2 in lab.I.less(j, lin_sub(SIZE(T0), C(1)), o.st.clone()):
                        if not inb:
                            continue
                        for low, s3 in lab.I.less(j, i, s2):
                            for x, s4 in ob.at(L, s3, t, j):
                                for y, s5 in tl_at(lab, T0, j if low else lin_add(j, C(1)), s4):
                                    if y is None:
                                        continue
                                    if x is None:
                                        L.fail(s5, "token %s missing after remove" % ("before" if low else "after"))
                                    else:
                                        L.same(s5, x, y, "token %s the removed one" % ("before" if low else "after"))
    for n in (1, 2, 3):
        with Law(lab, "tok-remove", "remove from a list of %d" % n, remove) as L:
            full = tuple(("e", S("v%d" % k)) for k in range(n))
            for k in range(n):
                st = lab.start()
                t, sts = tl_make(lab, L, st, vec, ("seq", full), S("c"))
                for s in sts:
                    for o in L.run(s, remove, t, C(k)):
                        if L.kind(o, "n", "remove"):
                            ob.same_list(L, o.st, t, ("seq", full[:k] + full[k + 1:]), "tokens after removing token %d" % k)
    for f in both(lab, TL + "::get", n=1, where=lambda f: f.ta and f.ta[0].get("t") is not None and f.ta[0]["t"].s == TAG):
        with Law(lab, "tok-get", cq(f) + "get<Tag>(i)", f) as L:
            st = lab.start()
            t, sts = mk(L, st)
            for s in sts:
                li = lab.obj(s, "i")
                for x, s1 in tl_at(lab, T0, i, s):
                    cases = [(None, s1)] if x is None else typed(lab, L, s1, x, TAG)
                    for tb, s2 in cases:
                        for o in L.run(s2, f, t, li):
                            if tb is None:
                                L.kind(o, ("t", OOR), "get past the end")
                            elif not tb:
                                L.kind(o, ("t", BAC), "get of a token of another type")
                            elif L.kind(o, "n", "get of a token of that type"):
                                L.val(o, ("anyval", s2.nz(x), TAG), "get result")
                            if o.k != "x":
                                ob.same_list(L, o.st, t, T0, "tokens after get")
        if not f.const:
            with Law(lab, "tok-get", "write through get<Tag>(i)", f) as L:
                st = lab.start()
                t, sts = mk(L, st)
                for s in sts:
                    li = lab.obj(s, "i")
                    for o in L.run(s, f, t, li):
                        if o.k != "n" or o.v[0] != "@":
                            continue
                        for o2 in lab.I.wr(o.v[1], S("w"), o.st.clone()):
                            for o3 in L.run(o2.st, f, t, li):
                                if L.kind(o3, "n", "get after the write"):
                                    L.val(o3, S("w"), "value written through get's reference")
    for f in [x for x in cs if x.ctor in (2, 3)] + lab.fns(TL + "::operator=", n=1):
        if f.p[0]["t"].k == "rref":
            continue
        with Law(lab, "tok-copy", "copy %s" % ("constructor" if f.ctor else "assignment"), f) as L:
            st = lab.start()
            t, sts = mk(L, st)
            for s in sts:
                d = lab.blank(s, "d", TL) if f.ctor else lab.obj(s, "d")
                lv = lab.obj(s, "v")
                for o in L.run(s, f, d, t):
                    if not L.kind(o, "n", "copying"):
                        continue
                    ob.same_list(L, o.st, d, T0, "tokens of the copy")
                    for o2 in L.run(o.st, insert, d, lv):
                        ob.same_list(L, o2.st, t, T0, "tokens of the source after changing the copy")
                    for o2 in L.run(o.st, insert, t, lv):
                        ob.same_list(L, o2.st, d, T0, "tokens of the copy after changing the source")
    for f in both(lab, TL + "::popFront", n=0):
        with Law(lab, "tok-pop", "popFront<Tag>()", f) as L:
            st = lab.start()
            t, sts = mk(L, st)
            for s in sts:
                for x, s1 in tl_at(lab, T0, C(0), s):
                    cases = [(None, s1)] if x is None else typed(lab, L, s1, x, TAG)
                    for tb, s2 in cases:
                        for o in L.run(s2, f, t):
                            if tb is None:
                                ok = L.kind(o, ("t", OOR), "popFront of an empty list")
                            elif not tb:
                                ok = L.kind(o, ("t", BAC), "popFront of a token of another type")
                            else:
                                ok = L.kind(o, "n", "popFront")
                                if ok:
                                    L.val(o, ("anyval", s2.nz(x), TAG), "popFront result")
                                    ob.same_list(L, o.st, t, ("seq", (("sl", T0, C(1), SIZE(T0)),)), "tokens after popFront")
                                    continue
                            if ok:
                                ob.same_list(L, o.st, t, T0, "tokens after a failed popFront")


@rule("C04")
def c04(rep):
    P = load("core")
    lab = Lab(P, rep)
    ob = TokObs(lab)
    rep.rule("cur-next", "next<T>() yields the token at the cursor and advances by one; if it fails the cursor stays", 2)
    rep.rule("cur-still", "reading, inserting and querying do not move the cursor", 4)
    rep.rule("cur-start", "a new list starts at its first token (or the given position)", 3)
    rep.rule("cur-copy", "a copy continues where its source stands, and the two cursors are independent", 2)
    T0, c = S("T0"), S("c")
    cs, vec = tl_ctors(lab)
    insert = lab.fn(TL + "::insert", n=1)
    nexts = both(lab, TL + "::next", n=0, where=has_ta(TAG))

    def expect(L, st, t, f, seqterm, at, what):
        """next on t must behave as a typed read of seqterm[at]; returns the states after success / failure"""
        good, bad = [], []
        for x, s1 in tl_at(lab, seqterm, at, st):
            cases = [(None, s1)] if x is None else typed(lab, L, s1, x, TAG)
            for tb, s2 in cases:
                for o in L.run(s2, f, t):
                    if tb is None:
                        if L.kind(o, ("t", OOR), what + ": next past the end"):
                            bad.append(o.st)
                    elif not tb:
                        if L.kind(o, ("t", BAC), what + ": next on a token of another type"):
                            bad.append(o.st)
                    elif L.kind(o, "n", what + ": next"):
                        L.val(o, ("anyval", s2.nz(x), TAG), what + ": next result")
                        good.append(o.st)
        return good, bad

    for f in nexts:
        with Law(lab, "cur-next", cq(f) + "next three times", f) as L:
            st = lab.start()
            t, sts = tl_make(lab, L, st, vec, T0, c)
            for s in sts:
                g, b = expect(L, s, t, f, T0, c, "first")
                for s2 in b:
                    expect(L, s2, t, f, T0, c, "after a failed next")
                for s2 in g:
                    ob.same_list(L, s2, t, T0, "tokens after next")
                    g2, b2 = expect(L, s2, t, f, T0, lin_add(c, C(1)), "second")
                    for s3 in g2:
                        expect(L, s3, t, f, T0, lin_add(c, C(2)), "third")
                    for s3 in b2:
                        expect(L, s3, t, f, T0, lin_add(c, C(1)), "after a failed second next")
    f = nexts[0]
    others = [("size", ob.size, ()), ("empty", lab.fn(TL + "::empty", n=0), ()), ("tokens", ob.tokens, ()),
              ("insert", insert, ("v",))]
    for g in both(lab, TL + "::get", n=1, where=has_ta(TAG)):
        others.append((cq(g) + "get", g, ("i",)))
    for nm, g, a in others:
        with Law(lab, "cur-still", nm, g) as L:
            st = lab.start()
            t, sts = tl_make(lab, L, st, vec, T0, c)
            for s in sts:
                args = [lab.obj(s, x) for x in a]
                for o in L.run(s, g, t, *args):
                    if o.k == "x":
                        continue
                    sq = T0 if nm != "insert" else ("seq", as_seq(T0)[1] + (("e", S("v")),))
                    expect(L, o.st, t, f, sq, c, "after " + nm)
    pop = lab.fn(TL + "::popFront", n=0, where=has_ta(TAG))
    with Law(lab, "cur-still", "popFront", pop) as L:
        st = lab.start()
        t, sts = tl_make(lab, L, st, vec, T0, c)
        for s in sts:
            for o in L.run(s, pop, t):
                if o.k == "n":
                    for sq, s2 in ob.seq(L, o.st, t):
                        expect(L, s2, t, f, sq, c, "after popFront")
                elif o.k == "t":
                    expect(L, o.st, t, f, T0, c, "after a failed popFront")
    rem = lab.fn(TL + "::remove", n=1)
    with Law(lab, "cur-still", "remove of a valid index", rem) as L:
        st = lab.start()
        t, sts = tl_make(lab, L, st, vec, T0, c)
        for s in sts:
            for b, s1 in lab.I.less(S("i"), ("size", T0), s):
                if not b:
                    continue
                for o in L.run(s1, rem, t, S("i")):
                    if o.k == "n":
                        for sq, s2 in ob.seq(L, o.st, t):
                            expect(L, s2, t, f, sq, c, "after remove")
    with Law(lab, "cur-start", "vector constructor with its default position", vec) as L:
        if len(vec.p) == 2 and "init" in vec.p[1]:
            d0 = vec.p[1]["init"]
            if d0.get("k") == "cast":
                d0 = d0["e"]
            if d0.get("k") == "int":
                L.npaths += 1
                if int(d0["v"]) != 0:
                    L.fail(lab.start(), "the default start position is %s" % d0["v"])
        st = lab.start()
        t, sts = tl_make(lab, L, st, vec, T0, C(0))
        for s in sts:
            expect(L, s, t, f, T0, C(0), "first")
    for k in cs:
        if k.ctor == 1 and len(k.p) == 1:
            with Law(lab, "cur-start", "list constructor", k) as L:
                st = lab.start()
                t = lab.blank(st, "t", TL)
                want = ("seq", (("e", S("v0")), ("e", S("v1"))))
                il = lab.obj(st, "il", want)
                for o in L.run(st, k, t, il):
                    expect(L, o.st, t, f, want, C(0), "first")
        if not k.p:
            with Law(lab, "cur-start", "empty list, then two insertions", k) as L:
                st = lab.start()
                t = lab.blank(st, "t", TL)
                lv, lw = lab.obj(st, "v"), lab.obj(st, "w")
                for o in L.run(st, k, t):
                    for o2 in L.run(o.st, insert, t, lv):
                        for o3 in L.run(o2.st, insert, t, lw):
                            expect(L, o3.st, t, f, ("seq", (("e", S("v")), ("e", S("w")))), C(0), "first")
    for k in [x for x in cs if x.ctor == 2] + lab.fns(TL + "::operator=", n=1):
        if k.p[0]["t"].k == "rref":
            continue
        with Law(lab, "cur-copy", "copy %s" % ("constructor" if k.ctor else "assignment"), k) as L:
            st = lab.start()
            t, sts = tl_make(lab, L, st, vec, T0, c)
            for s in sts:
                d = lab.blank(s, "d", TL) if k.ctor else lab.obj(s, "d")
                for o in L.run(s, k, d, t):
                    g, b = expect(L, o.st, d, f, T0, c, "copy")
                    for s2 in g + b:
                        expect(L, s2, t, f, T0, c, "source after reading from the copy")
                    g, b = expect(L, o.st, t, f, T0, c, "source")
                    for s2 in g:
                        expect(L, s2, d, f, T0, c, "copy after reading from the source")
