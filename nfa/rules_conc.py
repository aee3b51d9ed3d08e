"""Parallel launches: no two iterations touch the same element unsynchronised, and no iteration leaves its arrays."""
from .absint import C, S, isc, lin_add, lin_sub, lin_parts, has_unk, subst
from .lab import Law, show
from .rules import rule
from . import rules_fv as RF, rules_geo as RG, rules_bc as RB
from .rules_fv import loc

MAP_OFFSETS = ("ownerOffset", "neighbourOffset")


def runs(rep):
    """[(label, world, function, outcomes)] of everything that launches kernels"""
    out = []
    for gen in (RF.explicit_cases, RF.implicit_cases, RG.interpolation_cases, RG.geometry_cases, RG.conum_cases):
        for x in gen(rep):
            out.append((x.label, x.W, x.f, x.outs))
    for cls, k, kn, kind, f in RB.bc_runs(rep):
        b = RB.BC(rep, cls, k, kind)

        def go(b=b, f=f):
            r = []
            for st in b.built:
                r += b.W.call(st, f, loc("bc"), b.dom)
            return r
        out.append(("%s<%s>::correctBoundaryCondition" % (cls.split("cellCentred::")[-1], kn), b.W, f, go))
    return out


def launches(outs):
    """distinct launches of all paths: (kind, exec, lo, n, key, paths)"""
    seen, res = set(), []
    for o in outs:
        for e, site in o.st.eff:
            if e[0] == "launch":
                k = (e[1], e[3], e[4], e[5], e[6])
                if k not in seen:
                    seen.add(k)
                    res.append(e[1:])
    return res


def captured(outs):
    """reference-captured variables written inside a launch"""
    r = []
    for o in outs:
        prev = []
        for e, site in o.st.eff:
            if e[0] == "capturedwrite":
                prev.append(e[1])
            elif e[0] == "launch":
                if prev and e[1] in ("par", "reduce", "scan"):
                    r.append((prev, e))
                prev = []
    return r


def depends(t, key):
    if t == key:
        return True
    if isinstance(t, (tuple, frozenset)):
        return any(depends(x, key) for x in t)
    return False


def inner(t):
    """array and index of an array read term"""
    if t[0] in ("rd", "vrd", "cur") and len(t) >= 3:
        return t[1], t[2]
    return None


class Elem:
    """how the element an access touches depends on the iteration"""

    def __init__(self, W, idx, key):
        self.W, self.key = W, key
        self.idx = idx
        self.kind = self.classify(idx)

    def classify(self, t):
        """"inj": different iterations touch different elements; "many": some mesh makes two iterations meet;
        "same": every iteration touches the same element; "?": not known"""
        key, W = self.key, self.W
        if has_unk(t):
            return "?"
        if not depends(t, key):
            return "same"
        c, m = lin_parts(t)
        dep = {a: v for a, v in m.items() if depends(a, key)}
        if len(dep) == 1:
            (a, v), = dep.items()
            if a == key:
                return "inj"
            r = inner(a)
            if r is None:
                return "?"
            A, i = r
            if A in W.cellvalued:
                s = self.classify(i)
                return "many" if s in ("inj", "many") else s
            if A[0] == "s" and A[1] in MAP_OFFSETS:
                return "?"
            if self.isrow(A):
                return self.classify(i)
            return "?"
        if len(dep) == 2 and all(v == 1 for v in dep.values()):
            rows = [(a, inner(a)) for a in dep]
            row = [r for a, r in rows if r is not None and self.isrow(r[0])]
            off = [r for a, r in rows if r is not None and r[0][0] == "s" and r[0][1] in MAP_OFFSETS + ("diagOffset",)]
            if len(row) == 1 and len(off) == 1:
                (_, x), (O, y) = row[0], off[0]
                if O[1] == "diagOffset":
                    return self.classify(x) if x == y else "?"
                # the slot of a face in the row of its owner or neighbour belongs to that face alone
                rx = inner(x)
                if rx is not None and rx[0] in W.cellvalued and rx[1] == y:
                    return self.classify(y)
        return "?"

    def isrow(self, A):
        return getattr(self.W, "rowptrs", None) == A or (A[0] == "fld" and str(A[2]).startswith("row"))


def guarded(facts, key):
    """a condition on the path may single out iterations"""
    for k, truth in facts:
        if not depends(k, key):
            continue
        if k[0] in ("fpos", "feq", "fge"):
            if truth and k[0] == "feq":
                return True
            continue
        if k[0] == "pos":
            # a lower or upper bound on the index leaves more than one iteration
            continue
        return True
    return False


def conflict(W, key, n, w, acc):
    """can iteration i's write meet another iteration's access? True, False or None"""
    iw, ia = w, acc
    ew, ea = Elem(W, iw, key), Elem(W, ia, key)
    if iw == ia:
        return {"inj": False, "many": True, "same": True}.get(ew.kind)
    d = lin_sub(iw, ia)
    if isc(d) and ew.kind == "inj":
        return True if d[1] != 0 else False
    if ew.kind == "inj" and ea.kind == "many":
        c, m = lin_parts(iw)
        if key in m:
            return True         # element i is written by iteration i and read through a map by others
        return None
    if ew.kind == "many" and ea.kind in ("inj", "many"):
        c, m = lin_parts(ia)
        if ea.kind == "inj" and key in m or ea.kind == "many" and len(m) == 1:
            return True
        return None
    if ew.kind == "inj" and ea.kind == "same":
        return None
    return None


def flat(log):
    for e in log:
        if e[0] == "sub":
            continue
        yield e


def where(W, site):
    s = site[0] if isinstance(site, tuple) else str(site)
    return s[len(W.P.repo) + 1:] if s.startswith(W.P.repo) else s


def check_launch(W, L, la):
    kind, ex, lo, n, key, paths = la
    if kind == "seq":
        return
    if isc(n) and n[1] <= 1:
        return
    acc = {}
    for facts, log in paths:
        for e in flat(log):
            if e[0] in ("r", "w", "a", "aset"):
                acc.setdefault(e[1], []).append((e[0], e[2], e[-1], facts, e))
    for A, es in acc.items():
        plain = [x for x in es if x[0] == "w"]
        atom = [x for x in es if x[0] in ("a", "aset")]
        reads = [x for x in es if x[0] == "r"]
        seen = set()
        for op, idx, site, facts, e in plain:
            el = Elem(W, idx, key)
            k = (idx, "self")
            if k not in seen:
                seen.add(k)
                if el.kind == "many" or el.kind == "same":
                    if guarded(facts, key):
                        L.unds.append("write of %s under a condition on the iteration" % show(A))
                    elif el.kind == "same" and not depends(e[3], key) and not any(r[1] == idx for r in reads):
                        pass        # every iteration stores the same value
                    else:
                        L.fails.append(("%s: iterations write the same element %s[%s] without an atomic update" % (
                            where(W, site), show(A), show(idx)), []))
                elif el.kind == "?":
                    L.unds.append("%s: element written is not understood: %s[%s]" % (where(W, site), show(A), show(idx)[:120]))
            for op2, idx2, site2, facts2, e2 in reads + plain + atom:
                if idx2 == idx and op2 in ("r", "w"):
                    continue
                k = (idx, idx2, op2)
                if k in seen:
                    continue
                seen.add(k)
                c = conflict(W, key, n, idx, idx2)
                if c and not guarded(facts, key) and not guarded(facts2, key):
                    L.fails.append(("%s: element %s[%s] is written while another iteration %s it as %s[%s]" % (
                        where(W, site), show(A), show(idx), {"r": "reads", "w": "writes"}.get(op2, "updates"), show(A), show(idx2)), []))
                elif c is None and op2 == "w" and idx2 != idx:
                    if not distinct_slots(W, idx, idx2, key):
                        L.unds.append("%s: two writes to %s are not told apart: [%s], [%s]" % (where(W, site), show(A), show(idx)[:80], show(idx2)[:80]))
        for op, idx, site, facts, e in reads:
            for op2, idx2, site2, facts2, e2 in atom:
                if (idx, idx2, "ra") in seen:
                    continue
                seen.add((idx, idx2, "ra"))
                k1, k2 = Elem(W, idx, key).kind, Elem(W, idx2, key).kind
                if idx == idx2 and k2 == "many" or conflict(W, key, n, idx2, idx):
                    if not guarded(facts, key) and not guarded(facts2, key):
                        L.fails.append(("%s: element %s[%s] is read while other iterations update it" % (where(W, site), show(A), show(idx)), []))
                elif k1 == "?" or k2 == "?":
                    L.unds.append("%s: read of %s during atomic updates" % (where(W, site), show(A)))


def distinct_slots(W, a, b, key):
    """owner-, neighbour- and diagonal slots of matrix rows are different entries"""
    def off(t):
        c, m = lin_parts(t)
        o = [inner(x)[0][1] for x in m if inner(x) is not None and inner(x)[0][0] == "s" and inner(x)[0][1] in MAP_OFFSETS + ("diagOffset",)]
        return (o[0] if len(o) == 1 else None), c
    (x, cx), (y, cy) = off(a), off(b)
    return x is not None and y is not None and x != y and cx == cy == 0


@rule("C23")
def races(rep):
    rep.limit = True
    rep.rule("race", "no element written by one iteration of a parallel launch is written or read by another without an atomic update", 20)
    rep.rule("capture", "a parallel launch writes no variable it captured by reference", 20)
    n = 0
    for label, W, f, go in runs(rep):
        outs = None
        with Law(W, "race", label, f, key="race:" + label) as L:
            outs = go()
            ls = launches(outs)
            L.npaths += max(1, len(ls))
            n += len(ls)
            for la in ls:
                check_launch(W, L, la)
        if outs is None:
            continue
        with Law(W, "capture", label, f, key="capture:" + label) as L:
            L.npaths += len(outs)
            for locs, e in captured(outs):
                L.fails.append(("a launch writes %s, which all iterations share" % show(locs[0])[:120], []))
    rep.assumptions.append("%d parallel launches analysed" % n)


# ------------------------------------------------------------------ bounds
def below(W, big, small, facts=()):
    """is big > small for every mesh? True/False/None (sizes are independent and not negative)"""
    d = lin_sub(big, small)
    c, m = lin_parts(d)
    pc = [(lin_parts(k[1]), t) for k, t in facts if k[0] == "pos"]
    if all(v >= 0 for v in m.values()) and c > 0:
        return True
    for (fc, fm), t in pc:
        # d = lambda * fact + rest
        dd = dict(m)
        cc = c
        s = 1 if t else -1
        for a, v in fm.items():
            dd[a] = dd.get(a, 0) - s * v
        cc -= s * fc
        dd = {a: v for a, v in dd.items() if v}
        slack = 1 if t else 0
        if all(v >= 0 for v in dd.values()) and cc + slack > 0:
            return True
    if has_unk(d):
        return None
    sizes = {W.NC, W.NI, W.NB}
    if all(a in sizes for a in m):
        # independent sizes: some mesh makes the difference not positive
        return False
    return None


def outside(W, rel, ln, key, n, facts, low=False):
    """an index of the launch on some mesh that gets past every condition and is outside: a text, or None"""
    key0 = {W.NC: 0, W.NI: 1, W.NB: 2}

    def val(t, env):
        c, m = lin_parts(t)
        if any(a not in env for a in m):
            return None
        return c + sum(v * env[a] for a, v in m.items())
    conds = []
    for k, t in facts:
        if not depends(k, key):
            continue
        if k[0] not in ("pos", "eq0") or any(a != key and a not in key0 for a in lin_parts(k[1])[1]):
            return None
        conds.append((k, t))
    for mesh in RF.MESHES:
        env = {a: mesh[i] for a, i in key0.items()}
        last = val(n, env)
        if last is None:
            return None
        for i in range(last):
            env[key] = i
            if all((val(k[1], env) > 0 if k[0] == "pos" else val(k[1], env) == 0) == t for k, t in conds):
                x, size = val(rel, env), val(ln, env)
                if x is None or size is None:
                    return None
                if x < 0 if low else x >= size:
                    return "element %d of %d, for index %d on a mesh of %d cells, %d inner and %d boundary faces" % (x, size, i, *mesh)
    return None


def check_bounds(W, L, la, st):
    kind, ex, lo, n, key, paths = la
    count = 0
    for facts, log in paths:
        for e in flat(log):
            if e[0] != "ix":
                continue
            A, idx, rel, ln = e[1], e[2], e[3], e[4]
            count += 1
            if has_unk(ln) or has_unk(rel):
                continue
            r = inner(rel)
            if r is not None and r[0] in W.cellvalued:
                # a cell index: fits any array of at least nCells
                ok = below(W, lin_add(ln, C(1)), W.NC)
                if ok is False:
                    L.fails.append(("%s: %s is indexed with a cell, but has %s elements" % (where(W, e[5]), show(A), show(ln)), []))
                continue
            c, m = lin_parts(rel)
            dep = [a for a in m if depends(a, key)]
            if dep and dep != [key] or not dep and any(a not in (W.NC, W.NI, W.NB) for a in m):
                continue
            f2 = [(k, t) for k, t in facts]
            ok = below(W, ln, subst(rel, {key: lin_sub(n, C(1))})) if m.get(key, 0) >= 0 else None
            if ok is not True:
                ok2 = below(W, ln, rel, list(f2) + [(("pos", lin_sub(n, key)), True)])
                ok = True if ok2 is True else ok
            if ok is False and not any(depends(k, key) for k, t in facts):
                L.fails.append(("%s: element %s of %s, which has %s elements" % (
                    where(W, e[5]), show(subst(rel, {key: lin_sub(n, C(1))})), show(A), show(ln)), []))
            elif ok is not True:
                w = outside(W, rel, ln, key, n, facts)
                if w:
                    L.fails.append(("%s: %s: %s" % (where(W, e[5]), show(A), w), []))
            lowv = subst(rel, {key: C(0)}) if m.get(key, 0) >= 0 else subst(rel, {key: lin_sub(n, C(1))})
            ok = below(W, lin_add(lowv, C(1)), C(0))
            if ok is not True:
                ok2 = below(W, lin_add(rel, C(1)), C(0), list(f2) + [(("pos", lin_add(key, C(1))), True)])
                ok = True if ok2 is True else ok
            if ok is False and not any(depends(k, key) for k, t in facts):
                L.fails.append(("%s: negative element %s of %s" % (where(W, e[5]), show(lowv), show(A)), []))
            elif ok is not True:
                w = outside(W, rel, ln, key, n, facts, True)
                if w:
                    L.fails.append(("%s: %s: %s" % (where(W, e[5]), show(A), w), []))
    return count


@rule("C25")
def bounds(rep):
    rep.limit = True
    rep.rule("bounds", "every array access of a launch stays inside the array for every mesh", 20)
    n = 0
    for label, W, f, go in runs(rep):
        with Law(W, "bounds", label, f, key="bounds:" + label) as L:
            outs = go()
            L.npaths += max(1, len(outs))
            for o in outs:
                for e, site in o.st.eff:
                    if e[0] == "launch":
                        n += check_bounds(W, L, e[1:], o.st)
    rep.assumptions.append("%d array accesses analysed" % n)
