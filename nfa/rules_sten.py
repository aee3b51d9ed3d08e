"""The cell-to-face stencil and the matrix pattern (C35): a slot argument over the launches.

Every slot of a cell's segment is handed out by a counter: it is reset to 0, and each hand-out adds one to it and is
followed by one write at (start of the segment) + (count before).  Then the slots of a cell are exactly the first m of
its segment, m being the number of hand-outs for it, each written once; what is left is to compare the hand-outs with
the mesh's connections, and the segments with their numbers."""
from . import poly as P
from .absint import C, S, lin_add, lin_sub, has_unk
from .engine import load
from .fv import BK, World, subst
from .kern import lin_parts
from .lab import Law, show
from .rules import rule

SP = "SparsityPattern"


def alpha(t, d=0):
    """prefix sums with their bound index renamed by depth"""
    if isinstance(t, frozenset):
        return frozenset(alpha(x, d) for x in t)
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "prefix" and len(t) == 4:
        return ("prefix", "#%d" % d, alpha(subst(t[2], {("bk", t[1]): S("#pre%d" % d)}), d + 1), alpha(t[3], d))
    return tuple(alpha(x, d) for x in t)


def untrunc(v):
    return v[2] if v[0] == "op" and v[1].startswith("trunc") else v


def atoms(t, pred, r=None):
    r = [] if r is None else r
    if isinstance(t, tuple):
        if pred(t):
            r.append(t)
        else:
            for x in t:
                atoms(x, pred, r)
    elif isinstance(t, frozenset):
        for x in t:
            atoms(x, pred, r)
    return r


class Sten(World):
    def __init__(self, P_, rep):
        super().__init__(P_, rep)
        self.own, self.nei, self.fc = self.arr["faceOwner"], self.arr["faceNeighbour"], self.arr["faceCells"]

    def array(self, st, loc, cls, name):
        base = cls.split("<")[0]
        for f in self.pick(base, name, n=0):
            if "<" in cls and not (f.cr or "").endswith(cls):
                continue
            outs = [o for o in self.I.enter(f, loc, (), st.clone()) if o.k == "n"]
            if len(outs) == 1 and outs[0].v[0] == "@":
                return self.I.finfo(self.I, outs[0].v[1], st)[0]
        return None

    def count(self, n, ix, c, st):
        return self.scat(n, ix, C(1), c, "I", st)

    def total(self, parts, c, st, base=0):
        r = C(base)
        for n, ix in parts:
            r = lin_add(r, self.count(n, ix, c, st))
        return r

    def counts(self, parts, base):
        """the number of hand-outs as a function of the cell, as a term over S("c")"""
        return lambda c, st: self.total(parts, c, st, base)

    def eq_(self, a, b):
        a, b = alpha(self.canon(a)), alpha(self.canon(b))
        return a == b or P.same(a, b)

    # ------------------------------------------------------------ segments
    def segments(self, law, st, A, cnt, what):
        if A is None:
            law.unds.append(what + ": offsets cannot be located")
            return
        got = st.nz(self.elem(A, C(0), "I", st))
        self.cmp(law, st, got, C(0), what + ": offset 0")
        s = st.clone()
        k = S("k")
        s.facts[("pos", k)] = True
        s.facts[("pos", lin_sub(lin_add(self.NC, C(1)), k))] = True
        got = self.elem(A, k, "I", s)
        j = lin_sub(k, C(1))
        want = lin_add(("prefix", 9, cnt(("bk", 9), s), j), cnt(j, s))
        self.cmp(law, s, got, want, what + ": offset k >= 1 (the sum of the numbers of entries of the cells before it)")

    def cmp(self, law, st, got, want, what):
        got = st.nz(got)
        if self.eq_(got, want):
            return True
        if has_unk(got) or atoms(got, lambda t: t[:1] in (("rdv",), ("ov",), ("velt",))):
            law.unds.append("%s: not known: %s" % (what, show(got)[:200]))
            return False
        law.fail(st, "%s is %s instead of %s" % (what, show(alpha(got))[:200], show(alpha(want))[:200]), got)
        return False

    # ------------------------------------------------------------ hand-outs
    def handouts(self, law, st, V, SEG):
        """[(n, lo, cell, value, slot, writes of the path)] of the launches filling V, with the counter checked"""
        launches = [(e, site) for e, site in st.eff if e[0] == "launch"]
        isf = lambda t: t[:1] == ("fetched",)
        ctr = {t[1] for e, _ in launches for _, log in e[6] for x in log if x[0] == "w" and x[1] == V for t in atoms(x[2], isf)}
        if len(ctr) != 1:
            law.unds.append("the entries are not placed by one counter (%d)" % len(ctr))
            return None
        ctr = ctr.pop()
        base = None
        cont = st.store.get(("arrc", ctr))
        while cont and cont[0] in ("map", "scat", "ov"):
            cont = cont[-1]
        if cont and cont[0] == "fill":
            base = st.nz(cont[1])
        out, loose = [], []
        for (ekind, kind, ex, lo, n, key, paths), site in [(tuple(e[:7]), s) for e, s in launches]:
            touched = any(x[1] == ctr and x[0] in ("w", "a") for _, log in paths for x in log)
            filled = any(x[1] == V and x[0] == "w" for _, log in paths for x in log)
            if not (touched or filled):
                continue
            new, newloose = [], []
            for facts, log in paths:
                l_, n_, rest = self.I.split(facts, n, key, st)
                at = {key: lin_add(l_, BK)}
                norm = lambda t: self.canon(subst(t, at))
                g = {x for x in rest}
                adds = [x for x in log if x[0] == "a" and x[1] == ctr]
                sets = [x for x in log if x[0] == "w" and x[1] == ctr]
                vws = [x for x in log if x[0] == "w" and x[1] == V]
                if g and (adds or sets or vws):
                    law.unds.append("entries placed under a condition: %s" % "; ".join(show(f)[:80] for f, _ in g))
                    return None
                if sets and not adds and not vws and len(sets) == 1:
                    v, ix = st.nz(sets[0][3]), norm(sets[0][2])
                    if self.eq_(ix, BK) and n_ == self.NC and v[0] == "c":
                        base, out, loose = v, [], []      # a reset of every counter
                        continue
                used = set()
                for w in vws:
                    fs = atoms(w[2], isf)
                    if len(fs) == 1 and fs[0][1] == ctr:
                        q, cell = fs[0], fs[0][2]
                        if q in used:
                            law.fail(st, "two entries are written to one slot of cell %s" % show(norm(cell))[:100])
                            return None
                        used.add(q)
                        seg = lin_sub(w[2], q)
                    elif not fs and len(sets) == 1 and self.eq_(norm(sets[0][2]), BK) and n_ == self.NC:
                        # the cell's own iteration: read, use, write back one more
                        cell = sets[0][2]
                        q = lin_sub(sets[0][3], C(1))
                        want = self.total([(h[0], h[2]) for h in out + new], BK, st, base[1] if base and base[0] == "c" else 0)
                        if not self.eq_(norm(q), want):
                            if has_unk(q):
                                law.unds.append("the counter's new value is not known")
                            else:
                                law.fail(st, "the counter of a cell is left at %s after %s entries and one more" % (show(norm(sets[0][3]))[:150], show(want)[:150]))
                            return None
                        used.add(("set", sets[0][2]))
                        seg = lin_sub(w[2], q)
                    else:
                        law.unds.append("an entry written at %s is not placed by the counter" % show(norm(w[2]))[:150])
                        return None
                    start = self.elem(SEG, st.nz(cell), "I", st)
                    if not self.eq_(norm(seg), norm(start)):
                        if has_unk(seg):
                            law.unds.append("start of the segment not known")
                        else:
                            self.off(law, st, norm, cell, seg, start)
                        return None
                    new.append((n_, l_, norm(cell), norm(w[3]), q, [(x[1], norm(x[2]), x[3]) for x in log if x[0] == "w" and x[1] != V and x[1] != ctr]))
                for x in adds:
                    if st.nz(x[3]) != C(1):
                        law.fail(st, "the counter of cell %s moves by %s" % (show(norm(x[2]))[:100], show(x[3])))
                        return None
                if len(adds) > len([u for u in used if u[0] == "fetched"]) or sets and ("set", sets[0][2]) not in used:
                    newloose.append(norm((adds or sets)[0][2]))
            out, loose = out + new, loose + newloose
        if loose:
            law.fail(st, "a slot of cell %s is handed out and nothing written to it" % show(loose[0])[:120])
            return None
        if base is None or base[0] != "c":
            law.unds.append("start of the counter not known")
            return None
        if base != C(0):
            law.fail(st, "the counters start at %s: the first slot of every cell is left out" % show(base))
            return None
        return out

    def off(self, law, st, norm, cell, seg, start):
        d = lin_sub(seg, start)
        p = lin_parts(st.nz(d))
        if p and not p[1]:
            law.fail(st, "entries of a cell are written %d after their slots" % p[0])
        else:
            law.fail(st, "an entry placed by the counter of cell %s is written relative to %s" % (
                show(norm(cell))[:100], show(norm(seg))[:160]))

    def judge_handouts(self, law, st, hs, allowed, what):
        """the hand-outs are exactly the allowed (n, cell, value)"""
        left = list(allowed)
        for n, lo, cell, value, q, ws in hs:
            for a in left:
                if self.eq_(a[1], cell) and a[0] == n:
                    left.remove(a)
                    if not self.eq_(value, a[2]):
                        if has_unk(value):
                            law.unds.append("entry not known")
                        else:
                            law.fail(st, "%s: the entry of %s is %s instead of %s" % (what, a[3], show(value)[:120], show(a[2])[:120]), value)
                        return False
                    break
            else:
                if has_unk(cell) or has_unk(n):
                    law.unds.append("cell of an entry not known")
                else:
                    law.fail(st, "%s: an entry for cell %s, e < %s, that the mesh does not have" % (what, show(cell)[:120], show(n)[:60]), cell)
                return False
        if left:
            law.fail(st, "%s: no entry for %s" % (what, left[0][3]))
            return False
        return True


@rule("C35")
def c35(rep):
    rep.limit = True
    rep.rule("sten", "the stencil has one segment per cell, holding every face of that cell once", 3)
    rep.rule("pattern", "row c of the pattern holds c and the other cell of each internal face of c, and the offsets say where", 8)
    W = Sten(load("full"), rep)
    stencil(W)
    pattern(W)


def stencil(W):
    fs = W.pick("CellToFaceStencil", "computeStencil", n=0)
    ct = [f for f in W.pick("CellToFaceStencil", "#ctor", n=1) if not f.implicit]
    f = fs[0] if fs else None
    c0 = ct[0] if ct else None
    CLS = "SegmentedField<unsigned int, unsigned int>"
    parts = [(W.NI, W.at(W.own, BK)), (W.NI, W.at(W.nei, BK)), (W.NB, W.at(W.fc, BK))]
    for mode in ("fill", "segments", "sizes"):
        with Law(W, "sten", {"fill": "every face of a cell once in its segment", "segments": "offsets: the numbers of faces of the cells",
                             "sizes": "sizes"}[mode], f) as law:
            if f is None or c0 is None:
                law.unds.append("no stencil")
                continue
            st = W.start()
            st.store[("p", "cf")] = ("rec", c0.c, (), None)
            for o in W.call(st, c0, (("p", "cf"), ()), ("@", W.mesh)):
                if not law.kind(o, "n", "constructor"):
                    continue
                for o2 in law.run(o.st, f, (("p", "cf"), ())):
                    if not law.kind(o2, "n", "computeStencil"):
                        continue
                    s = o2.st.clone()
                    s.store[("p", "res")] = o2.v
                    loc = (("p", "res"), ())
                    V, SEG = W.array(s, loc, CLS, "values"), W.array(s, loc, CLS, "segments")
                    if V is None or SEG is None:
                        law.unds.append("the result cannot be located")
                        continue
                    if mode == "fill":
                        hs = W.handouts(law, s, V, SEG)
                        if hs is not None:
                            W.judge_handouts(law, s, hs, [
                                (W.NI, parts[0][1], BK, "an internal face in its owner"),
                                (W.NI, parts[1][1], BK, "an internal face in its neighbour"),
                                (W.NB, parts[2][1], lin_add(W.NI, BK), "a boundary face in its cell")], "stencil")
                    elif mode == "segments":
                        W.segments(law, s, SEG, W.counts(parts, 0), "stencil")
                    else:
                        W.cmp(law, s, W.I.size_of(SEG, s), lin_add(W.NC, C(1)), "number of offsets")
                        W.cmp(law, s, W.I.size_of(V, s), ("prefix", 9, W.counts(parts, 0)(("bk", 9), s), W.NC), "number of entries")


def pattern(W):
    ct = [f for f in W.pick(SP, "#ctor", n=1) if not f.implicit and any("Mesh" in p["t"].s for p in f.p)]
    up = W.pick(SP, "update", n=0)
    f = up[0] if up else None
    parts = [(W.NI, W.at(W.own, BK)), (W.NI, W.at(W.nei, BK))]
    for when in ("built", "updated again"):
        for mode in ("fill", "segments", "sizes", "offsets"):
            lab = {"fill": "row contents", "segments": "row offsets", "sizes": "sizes", "offsets": "offsets of a face's and a cell's entries"}[mode]
            with Law(W, "pattern", "%s: %s" % (when, lab), f) as law:
                if f is None or not ct:
                    law.unds.append("no pattern")
                    continue
                st = W.start()
                st.store[("p", "sp")] = ("rec", ct[0].c, (), None)
                loc = (("p", "sp"), ())
                for o in law.run(st, ct[0], loc, ("@", W.mesh)):
                    if not law.kind(o, "n", "constructor"):
                        continue
                    sts = [o.st]
                    if when != "built":
                        s = o.st.clone()
                        s.eff = type(s.eff)()
                        sts = [x.st for x in law.run(s, f, loc) if law.kind(x, "n", "update")]
                    for s in sts:
                        one(W, law, s, loc, parts, mode)


def one(W, law, s, loc, parts, mode):
    acc = {n: W.array(s, loc, SP, n) for n in ("colIdxs", "rowPtrs", "ownerOffset", "neighbourOffset", "diagOffset")}
    bad = [n for n, a in acc.items() if a is None]
    if bad:
        law.unds.append("cannot be located: " + ", ".join(bad))
        return
    if mode == "segments":
        return W.segments(law, s, acc["rowPtrs"], W.counts(parts, 1), "pattern")
    if mode == "sizes":
        nnz = lin_add(W.NC, lin_add(W.NI, W.NI))
        for n, want in (("colIdxs", nnz), ("rowPtrs", lin_add(W.NC, C(1))), ("ownerOffset", W.NI), ("neighbourOffset", W.NI), ("diagOffset", W.NC)):
            W.cmp(law, s, W.I.size_of(acc[n], s), want, "size of " + n)
        for n, want in (("rows", W.NC), ("nnz", nnz)):
            for g in W.pick(SP, n, n=0)[:1]:
                for o in law.run(s.clone(), g, loc):
                    W.cmp(law, o.st, untrunc(o.st.nz(o.v)), want, n + "()")
        if len(set(acc.values())) != len(acc):
            law.fail(s, "two accessors of the pattern give the same array")
        return
    hs = W.handouts(law, s, acc["colIdxs"], acc["rowPtrs"])
    if hs is None:
        return
    own, nei = parts[0][1], parts[1][1]
    if mode == "fill":
        W.judge_handouts(law, s, hs, [
            (W.NI, nei, own, "a face's owner in its neighbour's row"),
            (W.NI, own, nei, "a face's neighbour in its owner's row"),
            (W.NC, BK, BK, "a cell in its own row")], "pattern")
        return
    # the offsets: one write for every face (cell), of the slot that was handed out for it
    for name, n, cell, what in (("neighbourOffset", W.NI, nei, "face"), ("ownerOffset", W.NI, own, "face"), ("diagOffset", W.NC, BK, "cell")):
        found = 0
        for hn, lo, hc, hv, q, ws in hs:
            for A, ix, v in ws:
                if A != acc[name]:
                    continue
                if has_unk(v) or has_unk(ix):
                    law.unds.append(name + ": not known")
                    return
                if not W.eq_(ix, lin_add(lo, BK)) and not W.eq_(ix, BK):
                    law.fail(s, "%s: written at %s" % (name, show(ix)[:100]))
                    return
                if not (W.eq_(hc, cell) and hn == n and untrunc(s.nz(v)) == q):
                    if sum(1 for h in hs if h[5] is ws or h[5] == ws) > 1:
                        continue       # several hand-outs in one iteration: another one may be meant
                    law.fail(s, "%s of a %s is %s: not the slot handed out for it in %s" % (name, what, show(v)[:100], show(cell)[:80]))
                    return
                found += 1
        if found != 1:
            ws = [1 for e, _ in s.eff if e[0] == "launch" for _, log in e[6] for x in log if x[0] == "w" and x[1] == acc[name]]
            if ws and found == 0:
                law.fail(s, "%s never holds the slot handed out in %s" % (name, show(cell)[:80]))
            elif not ws:
                law.fail(s, "%s is never written" % name)
            else:
                law.unds.append("%s: written %d times" % (name, found))
            return
