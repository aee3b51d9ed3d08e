"""Abstract models of the standard-library operations that the repository uses."""
import re
from .absint import *   # noqa: F401,F403
from .absint import N, Out, bind, C, NULL, TRUE, FALSE, VOID, EMPTYMAP, EMPTYSEQ, EXC
from .ir import bare


def AT(loc):
    return ("@", loc)


def isc_str(v):
    return v[0] == "c" and isinstance(v[1], str)


def install(I):
    M = I.models
    I.prefix_models = []

    def reg(*names):
        def d(f):
            for n in names:
                M[n] = f
            return f
        return d

    def cls(classes, meths):
        def d(f):
            for c in classes:
                for m in meths:
                    M[c + "::" + m] = f
            return f
        return d

    # pure function on values; f(I, st, obj value, *arg values) -> outcomes or a value
    def pure(*names):
        def d(f):
            def m(I, e, fi, ob, a, st):
                def go(vs, s):
                    def go2(o, s2):
                        vs2 = tuple(s2.nz(v) for v in vs)
                        r = f(I, s2, s2.nz(o), *vs2)
                        if isinstance(r, tuple):
                            return N(r, s2)
                        return r
                    if ob is None:
                        return go2(VOID, s)
                    return bind(I.rd(ob, s), go2)
                return bind(I.vals(a, st), go)
            for n in names:
                M[n] = m
            return f
        return d

    # mutator: f(I, st, obj value, *arg values) -> list of (new object value, result value, state)
    def mut(*names, **kw):
        def d(f):
            def m(I, e, fi, ob, a, st):
                def go(vs, s):
                    def go2(o, s2):
                        vs2 = tuple(s2.nz(v) for v in vs)
                        res = []
                        for x in f(I, s2, s2.nz(o), *vs2):
                            if isinstance(x, Out):
                                res.append(x)
                                continue
                            nv, r, s3 = x
                            for o3 in I.wr(ob, nv, s3):
                                res.append(Out("n", AT(ob) if r == "self" else r, o3.st))
                        return res
                    return bind(I.rd(ob, s), go2)
                return bind(I.vals(a, st), go)
            for n in names:
                M[n] = m
            return f
        return d

    def take(x, st, empty):
        """moves out of an argument: leaves `empty` behind"""
        if x[0] == "@":
            return bind(I.rd(x[1], st), lambda v, s: bind(I.wr(x[1], empty, s), lambda _, s2: N(v, s2)))
        return N(x, st)

    # ------------------------------------------------------------ utilities
    @reg("std::move", "std::forward", "std::as_const", "std::ref", "std::cref", "std::reference_wrapper::get",
         "std::move_if_noexcept", "std::launder", "std::reference_wrapper::operator type-parameter-0-0 &")
    def m_ident(I, e, f, ob, a, st):
        if len(a) == 3:
            return I_copy_range(I, e, f, ob, a, st)
        if not a and ob is not None:
            return N(AT(ob), st)
        x = a[0]
        if x[0] == "@":
            return N(x, st)
        return N(AT(I.tmp(x, st)), st)

    @reg("std::addressof", "std::__addressof")
    def m_addr(I, e, f, ob, a, st):
        return N(("ptr", I.loc_of(a[0], st)), st)

    @reg("std::swap")
    def m_swap(I, e, f, ob, a, st):
        la, lb = a[0][1], a[1][1]
        return bind(I.rd(la, st), lambda x, s: bind(I.rd(lb, s), lambda y, s2: bind(
            I.wr(la, y, s2), lambda _, s3: I.wr(lb, x, s3))))

    @reg("std::exchange")
    def m_exchange(I, e, f, ob, a, st):
        la = a[0][1]
        return bind(I.rd(la, st), lambda x, s: bind(I.val(a[1], s), lambda y, s2: bind(
            I.wr(la, y, s2), lambda _, s3: N(x, s3))))

    @reg("std::exit", "exit", "std::abort", "abort", "std::terminate", "std::_Exit", "std::quick_exit", "_Exit",
         "std::unreachable", "__builtin_unreachable", "__assert_fail", "std::rethrow_exception")
    def m_exit(I, e, f, ob, a, st):
        def go(vs, s):
            s.event("exit", f["q"], vs)
            return [Out("x", (f["q"],) + vs, s)]
        return bind(I.vals(a, st), go)

    for t in ("make_pair",):
        @pure("std::" + t)
        def m_mkpair(I, st, o, x, y):
            return ("pair", x, y)

    @pure("std::make_tuple", "std::tie", "std::forward_as_tuple")
    def m_mktuple(I, st, o, *xs):
        return ("tuple", xs)

    @reg("std::tuple::ctor")
    def m_tuple(I, e, f, ob, a, st):
        if f["ctor"] in (2, 3) and len(a) == 1:
            return I.val(a[0], st)
        return bind(I.vals(a, st), lambda vs, s: N(("tuple", vs), s))

    @reg("std::get")
    def m_get(I, e, f, ob, a, st):
        x = a[0]
        if x[0] != "@":
            x = AT(I.tmp(x, st))
        ta = f.get("ta", [])
        i = int(ta[0]["i"]) if ta and "i" in ta[0] else None
        pt = f["pt"][0].strip()
        if i is not None and pt.tn == "std::pair":
            return N(AT(I.ext(x[1], ("f", "first" if i == 0 else "second"))), st)
        if i is not None and pt.tn == "std::tuple":
            return N(AT(I.ext(x[1], ("t", i))), st)
        if pt.tn == "std::variant":
            t = None
            if i is not None:
                t = pt.ta[0][i].s if isinstance(pt.ta[0], tuple) else pt.ta[i].s
            elif ta and "t" in ta[0]:
                t = ta[0]["t"].bare

            def go(v, s):
                r = []
                for b, s2 in I.anytype(v, bare(t), s):
                    if b:
                        r.append(Out("n", AT((x[1][0], x[1][1] + (("a", bare(t)),))), s2))
                    else:
                        r.append(Out("t", EXC("std::bad_variant_access"), s2))
                return r
            return bind(I.rd(x[1], st), go)
        return None

    @reg("std::pair::ctor")
    def m_pair(I, e, f, ob, a, st):
        if len(a) == 1:
            return bind(I.val(a[0], st), lambda v, s: N(v if v[0] == "pair" else pairof(v), s))
        if len(a) == 2:
            def go(vs, s):
                t = e["t"]
                if t.ta[1].tn == "std::any" and vs[1][0] not in ("any", "any0"):
                    pt = f["pt"][1].strip()
                    if pt.tn != "std::any":
                        vs = (vs[0], ("any", decay(pt.bare), vs[1]))
                return bind(convert(vs[0], t.ta[0], s), lambda x, s2: bind(
                    convert(vs[1], t.ta[1], s2), lambda y, s3: N(("pair", x, y), s3)))
            return bind(I.vals(a, st), go)
        if not a:
            t = e["t"]
            return N(("pair", zero(t.ta[0]), zero(t.ta[1])), st)
        return None

    def pairof(v):
        return v if v[0] in ("unk", "elt", "s", "sel") else v

    def zero(t):
        if t.k == "rec":
            if t.tn in ("std::unordered_map", "std::map"):
                return EMPTYMAP
            if t.tn in ("std::vector", "std::deque", "std::list"):
                return EMPTYSEQ
            if t.tn == "std::basic_string":
                return C("")
            if t.tn == "std::any":
                return ("any0",)
            if t.tn in ("std::unique_ptr", "std::shared_ptr"):
                return ("uptr", NULL)
            if t.tn == "std::function":
                return NULL
            return ("rec", t.rec, (), None)
        if t.k == "ptr":
            return NULL
        if t.k == "bool":
            return FALSE
        return C(0)

    def convert(v, t, st):
        """implicit conversion of a value to type t (wrapping into any)"""
        if t.k == "rec" and t.tn == "std::any" and v[0] not in ("any", "any0") and is_scalarish(v):
            return N(v, st)
        return N(v, st)

    def is_scalarish(v):
        return False

    # ------------------------------------------------------------ strings
    STR = "std::basic_string"

    def heapuse(vs, st):
        """a buffer the C library allocated is read here"""
        for v in vs:
            if v[:2] == ("ret", "__cxa_demangle"):
                st.event("deref", v)
    for k in (STR, "std::basic_string_view"):
        @reg(k + "::ctor")
        def m_sctor(I, e, f, ob, a, st):
            if not a:
                return N(C(""), st)
            if f["ctor"] == 3:
                return take(a[0], st, ("moved",))
            # the allocator argument plays no role
            aa = [x for i, x in enumerate(a) if i >= len(f["pt"]) or f["pt"][i].bare.split("<")[0] != "std::allocator"]

            def go(vs, s):
                if len(vs) == 1:
                    if vs[0] == NULL:
                        return [Out("t", EXC("std::logic_error"), s)]
                    if f["pt"] and f["pt"][0].k == "ptr":
                        heapuse(vs, s)
                    return N(vs[0], s)
                return N(("op", "string", *vs), s)
            return bind(I.vals(aa, st), go)

    @pure("std::operator+")
    def m_splus(I, st, o, a, b):
        if a[0] == "it":
            return I.binop("+", a, b, st)
        return mkcat((a, b))

    @mut(STR + "::operator+=", STR + "::append")
    def m_sapp(I, st, o, *a):
        if len(a) != 1:
            return [(("op", "append", o, *a), "self", st)]
        return [(mkcat((o, a[0])), "self", st)]

    @mut(STR + "::push_back")
    def m_spush(I, st, o, c):
        return [(mkcat((o, ("op", "chr", c) if not isc(c) else C(chr(c[1])))), VOID, st)]

    @reg(STR + "::operator=")
    def m_sasg(I, e, f, ob, a, st):
        return bind(I.val(a[0], st), lambda v, s: (heapuse((v,) if f["pt"] and f["pt"][0].k == "ptr" else (), s), bind(I.wr(ob, v, s), lambda _, s2: N(AT(ob), s2)))[1])

    @pure("std::operator==")
    def m_eq(I, st, o, a, b=None):
        if b is None:
            return None
        if a[0] == "ord" or b[0] == "ord":
            return C((a if a[0] == "ord" else b)[1] == 0)
        return I.boolean(I.eqv(a, b, st))

    @pure("std::operator!=")
    def m_ne(I, st, o, a, b):
        if a[0] == "ord" or b[0] == "ord":
            return C((a if a[0] == "ord" else b)[1] != 0)
        return [Out("n", C(not t), s) for t, s in I.eqv(a, b, st)]

    def three_way(I, a, b, st):
        """[(-1 | 0 | 1, state)] for values of a totally ordered type"""
        a, b = st.nz(a), st.nz(b)
        if isc_str(a) and isc_str(b):
            x, y = a[1].encode(), b[1].encode()
            return [((x > y) - (x < y), st)]
        r = []
        for t, s in I.eqv(a, b, st):
            if t:
                r.append((0, s))
                continue
            x, y = sorted((a, b), key=repr)
            for lt, s2 in I.pos(lin_sub(y, x), s):
                r.append(((-1 if lt else 1) if x == a else (1 if lt else -1), s2))
        return r

    def m_cmp(op, test):
        @pure("std::operator" + op)
        def m_lt(I, st, o, a, b):
            if a[0] == "ord":
                return C(test(a[1], 0))
            if b[0] == "ord":
                return C(test(0, b[1]))
            if a[0] == "it" or b[0] == "it":
                return I.boolean(I.fork(st, ("truth", ("op", "cmp", a, b))))
            return [Out("n", C(test(n, 0)), s) for n, s in three_way(I, a, b, st)]
    m_cmp("<", lambda x, y: x < y)
    m_cmp(">", lambda x, y: x > y)
    m_cmp("<=", lambda x, y: x <= y)
    m_cmp(">=", lambda x, y: x >= y)

    @pure("std::operator<=>")
    def m_spaceship(I, st, o, a, b):
        if a[0] == "it" or b[0] == "it":
            return I.unk("<=>")
        return [Out("n", ("ord", n), s) for n, s in three_way(I, a, b, st)]

    @pure(STR + "::c_str", STR + "::data", STR + "::operator basic_string_view", "std::basic_string_view::data")
    def m_cstr(I, st, o):
        return o

    @pure(STR + "::empty", "std::basic_string_view::empty")
    def m_sempty(I, st, o):
        return I.boolean(I.eqv(o, C(""), st))

    @pure(STR + "::size", STR + "::length", "std::basic_string_view::size")
    def m_ssize(I, st, o):
        return C(len(o[1])) if isc_str(o) else SIZE(o)

    @mut(STR + "::clear")
    def m_sclear(I, st, o):
        return [(C(""), VOID, st)]

    @mut(STR + "::reserve", STR + "::shrink_to_fit")
    def m_sres(I, st, o, *a):
        return [(o, VOID, st)]

    @pure(STR + "::compare")
    def m_scmp(I, st, o, b, *r):
        if r:
            return ("op", "compare", o, b, *r)
        return [Out("n", C(n), s) for n, s in three_way(I, o, b, st)]

    for nm in ("find", "substr", "starts_with", "ends_with", "rfind", "find_first_of", "find_last_of",
               "find_first_not_of", "find_last_not_of", "at", "operator[]", "front", "back", "contains"):
        @pure(STR + "::" + nm, "std::basic_string_view::" + nm)
        def m_sop(I, st, o, *a, nm=nm):
            return ("op", "string::" + nm, o, *a)

    for nm in ("insert", "erase", "replace", "resize", "assign", "pop_back"):
        @mut(STR + "::" + nm)
        def m_smut(I, st, o, *a, nm=nm):
            if nm == "assign" and len(a) == 1:
                return [(a[0], "self", st)]
            return [(("op", "string::" + nm, o, *a), "self", st)]

    @pure("std::to_string")
    def m_tostr(I, st, o, x):
        return C(str(x[1])) if isc(x) and isinstance(x[1], int) else ("op", "to_string", x)

    # strings are not worth iterating over
    # ------------------------------------------------------------ streams
    def m_out(I, e, f, ob, a, st):
        args = list(a)
        tgt = ob
        if tgt is None and args:
            tgt = args[0][1] if args[0][0] == "@" else None
            args = args[1:]

        def go(vs, s):
            if tgt is not None and tgt[0][0] != "g":
                # a local stream: remember what was written
                outs = bind(I.rd(tgt, s), lambda o, s2: I.wr(tgt, ("stream", (o[1] if o[0] == "stream" else ()) + vs), s2))
            else:
                s.event("out", tgt, vs)
                outs = N(VOID, s)
            return bind(outs, lambda _, s2: N(AT(tgt if tgt is not None else (I.fresh("unkroot"), ())), s2))
        return bind(I.vals(args, st), go)
    for k in ("std::basic_ostream::operator<<", "std::operator<<", "std::basic_ostream::write", "std::basic_ostream::put",
              "std::basic_ostream::flush", "std::endl", "std::flush", "std::basic_ostream::operator basic_ostream"):
        M[k] = m_out

    @reg("std::basic_stringstream::ctor", "std::basic_ostringstream::ctor")
    def m_ss(I, e, f, ob, a, st):
        return N(("stream", ()), st)

    @pure("std::basic_stringstream::str", "std::basic_ostringstream::str")
    def m_ssstr(I, st, o, *a):
        if o[0] == "stream":
            return mkcat(tuple(x if x[0] in ("c", "cat") and not (isc(x) and not isinstance(x[1], str)) else ("op", "fmt", x)
                               for x in o[1]))
        return ("op", "str", o)

    # ------------------------------------------------------------ maps
    MAPC = ["std::unordered_map", "std::map"]

    def mapn(*ms):
        return [c + "::" + m for c in MAPC for m in ms]

    def setn(*ms):
        return [c + "::" + m for c in ("std::set", "std::unordered_set") for m in ms]

    # quantities that say nothing about the elements: their value is one the code has no say in
    for cls in tuple(MAPC) + ("std::set", "std::unordered_set", "std::vector", "std::deque"):
        for mth in ("bucket_count", "max_bucket_count", "load_factor", "max_load_factor", "max_size", "capacity"):
            @pure(cls + "::" + mth)
            def m_layout(I, st, o, *a, mth=mth):
                return ("op", mth, o)

    @reg(*mapn("ctor"))
    def m_mctor(I, e, f, ob, a, st):
        if f["ctor"] == 4 or not a:
            return N(EMPTYMAP, st)
        if f["ctor"] == 3:
            return take(a[0], st, EMPTYMAP)
        if f["ctor"] == 2:
            return I.val(a[0], st)
        # from an initializer list / iterator range
        pt = f["pt"][0].strip()
        if pt.tn == "std::initializer_list" or (a and a[0][0] == "seq"):
            return bind(I.val(a[0], st), lambda v, s: from_pairs(I, v, s, "first"))
        if len(a) >= 2:
            def go(vs, s):
                if vs[0][0] == "it" and vs[1][0] == "it" and vs[0][1] == vs[1][1] and vs[0][2] == ("begin",) and vs[1][2] == ("end",):
                    return bind(I.rd(vs[0][1], s), lambda v, s2: from_pairs(I, v, s2, "first"))
                return N(I.unk("map range"), s)
            if pt.k != "int":
                return bind(I.vals(a, st), go)
        if pt.k == "int":
            return N(EMPTYMAP, st)
        return N(I.unk("map ctor"), st)

    def from_pairs(I, v, st, mode):
        if v[0] == "map":
            return N(v, st)
        if v[0] == "seq" and all(p[0] == "e" and p[1][0] == "pair" for p in v[1]):
            outs = N(EMPTYMAP, st)
            for p in v[1]:
                def step(m, s, p=p):
                    k, x = p[1][1], p[1][2]
                    r = []
                    for b, s2 in I.has(m, k, s):
                        r.extend(N(m if b and mode == "first" else map_put(m, s2.nz(k), x), s2))
                    return r
                outs = bind(outs, step)
            return outs
        if v[0] == "seq" and v[1] == ():
            return N(EMPTYMAP, st)
        return N(("map", ("mapof", mode, EMPTYMAP, v, ("n", 0), ("fld", ("elt", v, ("eidx", v, ("n", 0))), "first"),
                          ("fld", ("elt", v, ("eidx", v, ("n", 0))), "second")), ()), st)

    @reg(*mapn("operator="), "std::vector::operator=", "std::set::operator=", "std::deque::operator=", "std::list::operator=",
         "std::pair::operator=", "std::tuple::operator=", "std::array::operator=", "std::variant::operator=")
    def m_masg(I, e, f, ob, a, st):
        mv = bool(f["pt"]) and f["pt"][0].k == "rref" and a[0][0] == "@"
        emp = EMPTYMAP if "map" in f["c"] else EMPTYSEQ

        def go(v, s):
            if v[0] == "seq" and "map" in f["c"]:
                return bind(from_pairs(I, v, s, "first"), lambda m, s2: bind(I.wr(ob, m, s2), lambda _, s3: N(AT(ob), s3)))
            if mv and a[0][1] != ob and ("map" in f["c"] or f["c"] == "std::vector"):
                for o in I.wr(a[0][1], emp, s):
                    s = o.st
            return bind(I.wr(ob, v, s), lambda _, s2: N(AT(ob), s2))
        return bind(I.val(a[0], st), go)

    def with_map(f):
        """f(I, e, fi, ob, map value, arg values, state)"""
        def m(I, e, fi, ob, a, st):
            st.facts[("ismap", ob)] = True
            return bind(I.vals(a, st), lambda vs, s: bind(I.rd(ob, s), lambda o, s2: f(
                I, e, fi, ob, s2.nz(o), tuple(s2.nz(v) for v in vs), s2)))
        return m

    def mreg(*ms):
        def d(f):
            g = with_map(f)
            for n in mapn(*ms):
                M[n] = g
            return f
        return d

    def missing(I, f, st):
        st.event("throws", f["q"])
        return [Out("t", EXC("std::out_of_range"), st)]

    @mreg("at")
    def m_at(I, e, f, ob, m, a, st):
        r = []
        for b, s in I.has(m, a[0], st):
            if b:
                r.append(Out("n", AT(I.ext(ob, ("k", s.nz(a[0])))), s))
            else:
                r += missing(I, f, s)
        return r

    @mreg("operator[]")
    def m_mbr(I, e, f, ob, m, a, st):
        r = []
        for b, s in I.has(m, a[0], st):
            k = s.nz(a[0])
            if b:
                r.append(Out("n", AT(I.ext(ob, ("k", k))), s))
            else:
                ot = e["o"]["t"].strip() if e.get("o") and e["o"].get("t") is not None else None
                vt = ot.ta[1] if ot is not None and len(ot.ta) > 1 else f["ret"].strip()
                for o in I.wr(ob, map_put(s.nz(m), k, zero(vt)), s):
                    r.append(Out("n", AT(I.ext(ob, ("k", k))), o.st))
        return r

    @mreg("contains")
    def m_mcontains(I, e, f, ob, m, a, st):
        return I.boolean(I.has(m, a[0], st))

    @mreg("count")
    def m_mcount(I, e, f, ob, m, a, st):
        return [Out("n", C(1 if b else 0), s) for b, s in I.has(m, a[0], st)]

    @mreg("find")
    def m_mfind(I, e, f, ob, m, a, st):
        return [Out("n", ("it", ob, ("k", s.nz(a[0])) if b else ("end",)), s) for b, s in I.has(m, a[0], st)]

    @mreg("equal_range")
    def m_meqr(I, e, f, ob, m, a, st):
        return N(I.unk("equal_range"), st)

    @mreg("begin", "cbegin")
    def m_mbegin(I, e, f, ob, m, a, st):
        return N(("it", ob, ("begin",)), st)

    @mreg("end", "cend")
    def m_mend(I, e, f, ob, m, a, st):
        return N(("it", ob, ("end",)), st)

    @mreg("size")
    def m_msize(I, e, f, ob, m, a, st):
        return [Out("n", n, s) for n, s in I.map_size(m, st)]

    @mreg("empty")
    def m_mempty(I, e, f, ob, m, a, st):
        return I.boolean(I.map_empty(m, st))

    @mreg("clear")
    def m_mclear(I, e, f, ob, m, a, st):
        return I.wr(ob, EMPTYMAP, st)

    @mreg("reserve", "rehash", "max_load_factor")
    def m_mres(I, e, f, ob, m, a, st):
        return N(VOID, st)

    @mreg("swap")
    def m_mswap(I, e, f, ob, m, a, st):
        return N(I.unk("swap"), st)

    @mreg("erase")
    def m_merase(I, e, f, ob, m, a, st):
        k = a[0]
        r = []
        if k[0] == "it":
            if k[2][0] == "k":
                return bind(I.wr(ob, map_put(m, k[2][1], None), st), lambda _, s: N(("it", ob, ("next", k[2])), s))
            return bind(I.wr(ob, I.unk("erase"), st), lambda _, s: N(I.unk("erase"), s))
        for b, s in I.has(m, k, st):
            if b:
                r += bind(I.wr(ob, map_put(s.nz(m), s.nz(k), None), s), lambda _, s2: N(C(1), s2))
            else:
                r += N(C(0), s)
        return r

    def insert_one(I, ob, m, k, v, st, overwrite, iscol=True):
        r = []
        for b, s in I.has(m, k, st):
            kk = s.nz(k)
            if b and not overwrite:
                r.append(Out("n", ("pair", ("it", ob, ("k", kk)), FALSE), s))
            else:
                for o in I.wr(ob, map_put(s.nz(m), kk, s.nz(v)), s):
                    r.append(Out("n", ("pair", ("it", ob, ("k", kk)), C(not b)), o.st))
        return r

    def m_minsert(I, e, fi, ob, a, st):
        st.facts[("ismap", ob)] = True
        n = fi["n"]
        if n == "insert" and fi["pt"] and fi["pt"][0].strip().tn == "std::initializer_list":
            return bind(I.val(a[0], st), lambda v, s: N(I.unk("insert range"), s))
        over = n == "insert_or_assign"
        ot = e["o"]["t"].strip() if e.get("o") and e["o"].get("t") is not None else None
        vt = ot.ta[1] if ot is not None and len(ot.ta) > 1 else None
        if n == "insert":
            if len(a) == 2:
                def two(vs, s):
                    if vs[0][0] == "it" and vs[1][0] == "it" and vs[0][1] != ob:
                        # a whole range of another container
                        if vs[0][2] == ("begin",) and vs[1][2] == ("end",):
                            return bind(I.rd(vs[0][1], s), lambda R, s2: bind(I.rd(ob, s2), lambda m, s3: (
                                bind(from_pairs(I, R, s3, "first"), lambda nm, s4: I.wr(ob, nm, s4)) if m == EMPTYMAP else
                                I.wr(ob, I.unk("insert range"), s3))))
                        return I.wr(ob, I.unk("insert range"), s)
                    if vs[0][0] == "it":
                        v = vs[1]
                        return bind(I.rd(ob, s), lambda m, s2: bind(insert_one(I, ob, m, fst(v), snd(v), s2, False),
                                                                    lambda p, s3: N(p[1], s3)))
                    return N(I.unk("insert"), s)
                return bind(I.vals(a, st), two)
            return bind(I.val(a[0], st), lambda v, s: bind(I.rd(ob, s), lambda m, s2: insert_one(
                I, ob, s2.nz(m), fst(s2.nz(v)), snd(s2.nz(v)), s2, False)))
        # emplace / try_emplace / insert_or_assign / emplace_hint
        if n == "emplace_hint":
            a = a[1:]
        if n == "emplace" and len(a) == 1:
            return bind(I.val(a[0], st), lambda v, s: bind(I.rd(ob, s), lambda m, s2: insert_one(
                I, ob, s2.nz(m), fst(s2.nz(v)), snd(s2.nz(v)), s2, False)))

        def go(k, s):
            def go2(m, s2):
                m, k2 = s2.nz(m), s2.nz(k)
                r = []
                for b, s3 in I.has(m, k2, s2):
                    kk = s3.nz(k2)
                    if b and not over:
                        # emplace may have constructed (and so moved from) its argument; try_emplace has not
                        if n == "emplace" and len(a) == 2 and moved_arg(e, 1 if n != "emplace_hint" else 2):
                            s3.event("moved-into-discarded", n)
                        r.append(Out("n", ("pair", ("it", ob, ("k", kk)), FALSE), s3))
                        continue
                    def put(v, s4, b=b, kk=kk):
                        return bind(I.rd(ob, s4), lambda m2, s5: bind(I.wr(ob, map_put(s5.nz(m2), kk, v), s5), lambda _, s6: N(
                            ("pair", ("it", ob, ("k", kk)), C(not b)), s6)))
                    r += bind(build(I, vt, a[1:], s3, e), put)
                return r
            return bind(I.rd(ob, s), go2)
        return bind(I.val(a[0], st), go)

    def moved_arg(e, i):
        try:
            x = e["a"][i]
        except IndexError:
            return False
        return x.get("k") == "call" and x.get("f", {}).get("q") == "std::move"

    def fst(v):
        return v[1] if v[0] == "pair" else ("fld", v, "first")

    def snd(v):
        return v[2] if v[0] == "pair" else ("fld", v, "second")

    for n in mapn("insert", "emplace", "try_emplace", "insert_or_assign", "emplace_hint"):
        M[n] = m_minsert

    def build(I, t, a, st, e=None, pts=None):
        """constructs a value of type t from evaluated arguments (library-side construction)"""
        if t is None:
            return bind(I.vals(a, st), lambda vs, s: N(vs[0] if len(vs) == 1 else I.unk("build"), s))
        t = t.strip()
        if t.k == "rec" and t.rec in I.P.records and not I.P.records[t.rec].get("foreign"):
            cands = [g for g in I.P.funcs.values() if g.ctor and g.cr == t.rec and len(g.p) == len(a) and g.b is not None]
            g = choose_ctor(I, cands, t, a, st, pts)
            if g is not None:
                r = I.fresh("t")
                st.store[r] = ("rec", t.rec, (), None)
                return bind(I.enter(g, (r, ()), a, st), lambda _, s: I.rd((r, ()), s))
            if len(a) == 1:
                return I.val(a[0], st)
            if not a:
                return N(("rec", t.rec, (), None), st)
            return N(I.unk("ctor of " + t.s), st)
        if t.k == "rec" and t.tn == "std::any" and len(a) == 1:
            return bind(I.val(a[0], st), lambda v, s: N(wrap_any(I, v, argtype(e)), s))
        if not a:
            return N(zero(t), st)
        return bind(I.vals(a, st), lambda vs, s: N(vs[0] if len(vs) == 1 else I.unk("build"), s))

    def argtype(e):
        if e and e.get("a"):
            x = e["a"][-1]
            t = x.get("t")
            return t.strip() if t is not None else None
        return None

    def wrap_any(I, v, t):
        if v[0] in ("any", "any0") or t is None or t.tn == "std::any":
            return v
        return ("any", t.bare, v)

    def valclass(I, v):
        if v[0] == "rec":
            return v[1]
        return None

    def choose_ctor(I, cands, t, a, st, pts=None):
        best, score = None, -1
        if pts is not None and len(pts) != len(a):
            pts = None
        for g in cands:
            sc, ok = 0, True
            for i, (p, x) in enumerate(zip(g.p, a)):
                pt = p["t"].strip()
                v = None
                if pts is not None and p["t"].k == "rref" and pts[i].k == "lref":
                    ok = False
                if x[0] == "@":
                    o = I.rd(x[1], st)
                    v = o[0].v if len(o) == 1 and o[0].k == "n" else None
                else:
                    v = x
                c = valclass(I, v) if v is not None else None
                if c is not None and pt.k == "rec":
                    if pt.rec == c:
                        sc += 3
                    elif I.derives(c, pt.rec):
                        sc += 1
                    else:
                        ok = False
                if p["t"].k == "rref":
                    sc += 1 if x[0] != "@" or True else 0
            if g.ctor == 2:
                sc -= 0 if pts is not None else 1
            if ok and sc > score:
                best, score = g, sc
        return best
    I.build = build

    # iterators
    for c in ("std::__detail::_Node_iterator", "std::__detail::_Node_const_iterator", "std::_Rb_tree_iterator",
              "std::_Rb_tree_const_iterator", "__gnu_cxx::__normal_iterator", "std::__detail::_Node_iterator_base",
              "std::_Deque_iterator", "std::_List_iterator", "std::_List_const_iterator"):
        @reg(c + "::operator*")
        def m_itderef(I, e, f, ob, a, st):
            return bind(I.rd(ob, st), lambda it, s: N(AT(I.deref(it, s)), s))

        @reg(c + "::operator->")
        def m_itarrow(I, e, f, ob, a, st):
            return bind(I.rd(ob, st), lambda it, s: N(("ptr", I.deref(it, s)), s))

        @reg(c + "::operator++", c + "::operator--")
        def m_itinc(I, e, f, ob, a, st):
            d = 1 if f["n"] == "operator++" else -1
            return bind(I.rd(ob, st), lambda it, s: bind(I.wr(ob, I.incr(it, d, s), s), lambda _, s2: N(
                it if a else AT(ob), s2)))

        @reg(c + "::operator+", c + "::operator-")
        def m_itplus(I, e, f, ob, a, st):
            return bind(I.rd(ob, st), lambda it, s: bind(I.val(a[0], s), lambda n, s2: I.binop(
                "+" if f["n"] == "operator+" else "-", it, n, s2)))

        @reg(c + "::ctor")
        def m_itctor(I, e, f, ob, a, st):
            return I.val(a[0], st) if a else N(I.unk("iterator"), st)

        @reg(c + "::operator=")
        def m_itasg(I, e, f, ob, a, st):
            return bind(I.val(a[0], st), lambda v, s: bind(I.wr(ob, v, s), lambda _, s2: N(AT(ob), s2)))

        @reg(c + "::operator==")
        def m_iteq(I, e, f, ob, a, st):
            return bind(I.rd(ob, st), lambda x, s: bind(I.val(a[0], s), lambda y, s2: I.boolean(I.eqv(x, y, s2))))

    @pure("std::__detail::operator==", "__gnu_cxx::operator==")
    def m_iteq2(I, st, o, a, b):
        return I.boolean(I.eqv(a, b, st))

    @pure("std::__detail::operator!=", "__gnu_cxx::operator!=")
    def m_itne2(I, st, o, a, b):
        return [Out("n", C(not t), s) for t, s in I.eqv(a, b, st)]

    @pure("__gnu_cxx::operator-")
    def m_itdiff(I, st, o, a, b):
        if a[0] == "it" and b[0] == "it" and a[1] == b[1]:
            def idx(p, s):
                return C(0) if p[0] == "begin" else p[1] if p[0] == "i" else None
            r = []
            for ov in I.rd(a[1], st):
                x, y = idx(a[2], ov.st), idx(b[2], ov.st)
                if a[2][0] == "end":
                    x = seq_len(ov.v)
                if b[2][0] == "end":
                    y = seq_len(ov.v)
                r += N(lin_sub(x, y) if x is not None and y is not None else I.unk("distance"), ov.st)
            return r
        return N(I.unk("distance"), st)
    M["std::distance"] = M["std::ranges::__distance_fn::operator()"] = lambda I, e, f, ob, a, st: M["__gnu_cxx::operator-"](
        I, e, f, None, (a[1], a[0]), st) if len(a) == 2 else None

    @reg("std::next", "std::prev", "std::ranges::__next_fn::operator()", "std::ranges::__prev_fn::operator()")
    def m_next(I, e, f, ob, a, st):
        sg = "+" if "next" in f["q"] else "-"
        return bind(I.val(a[0], st), lambda it, s: bind(I.val(a[1], s) if len(a) > 1 else N(C(1), s), lambda n, s2:
                    I.binop(sg, it, n, s2)))

    @reg("std::advance")
    def m_advance(I, e, f, ob, a, st):
        return bind(I.rd(a[0][1], st), lambda it, s: bind(I.val(a[1], s), lambda n, s2: bind(
            I.binop("+", it, n, s2), lambda v, s3: I.wr(a[0][1], v, s3))))

    def range_fn(which):
        def m(I, e, f, ob, a, st):
            loc = ob if ob is not None else I.loc_of(a[0], st)
            return N(("it", loc, (which,)), st)
        return m
    for w in ("begin", "end"):
        M["std::" + w] = M["std::c" + w] = M["std::ranges::__cust_access::_%s::operator()" % w.capitalize()] = \
            M["std::ranges::__access::_%s::operator()" % w.capitalize()] = range_fn(w)

    @reg("std::size", "std::ranges::__access::_Size::operator()", "std::ssize")
    def m_size(I, e, f, ob, a, st):
        return bind(I.val(a[-1], st), lambda v, s: N(seq_len(v), s))

    # ------------------------------------------------------------ sets
    def sreg(*ms):
        def d(f):
            g = with_map(f)
            for n in setn(*ms):
                M[n] = g
            return f
        return d

    @reg(*setn("ctor"))
    def m_setctor(I, e, f, ob, a, st):
        if f["ctor"] == 4 or not a:
            return N(EMPTYMAP, st)
        if f["ctor"] in (2, 3):
            return I.val(a[0], st)
        return N(I.unk("set"), st)

    @sreg("insert", "emplace")
    def m_setins(I, e, f, ob, m, a, st):
        return insert_one(I, ob, m, a[0], C(1), st, False)
    for n in ("contains", "count", "find", "size", "empty", "begin", "end", "erase", "clear", "cbegin", "cend"):
        for c in ("std::set", "std::unordered_set"):
            M[c + "::" + n] = M["std::unordered_map::" + n]

    # ------------------------------------------------------------ sequences
    SEQ = ["std::vector", "std::deque", "std::list", "std::initializer_list", "std::array", "std::span", "std::queue"]

    def seqn(*ms):
        return [c + "::" + m for c in SEQ for m in ms]

    def zerotxt(txt):
        """a value-initialised integer"""
        if re.search(r"\b(int|long|short|char|size_t|label|localIdx|uint\w+|unsigned)\b", txt) and "<" not in txt and "*" not in txt:
            return C(0)
        return None

    def zeroof(t):
        if t is None:
            return None
        if t.k == "rec" and t.tn in ("std::basic_string", "std::any"):
            return zero(t)
        return zerotxt(t.s)

    @reg(*[c + "::ctor" for c in SEQ])
    def m_vctor(I, e, f, ob, a, st):
        if f["ctor"] == 4 or not a:
            return N(EMPTYSEQ, st)
        if f["ctor"] == 3:
            return take(a[0], st, EMPTYSEQ)
        if f["ctor"] == 2:
            return I.val(a[0], st)
        pt = f["pt"][0].strip()
        if pt.tn == "std::initializer_list":
            return I.val(a[0], st)

        def go(vs, s):
            if len(vs) >= 2 and vs[0][0] == "it" and vs[1][0] == "it" and vs[0][1] == vs[1][1]:
                return subrange(I, vs[0], vs[1], s)
            n = s.nz(vs[0])
            if f["c"] == "std::vector" and n[0] == "c" and type(n[1]) is int and 0 <= n[1] <= 64 \
                    and len(f["pt"]) <= 3 and ("size_type" in pt.s or pt.s in ("size_t", "std::size_t", "unsigned long")):
                vals = [v for v, t in zip(vs[1:], f["pt"][1:]) if "llocator" not in t.strip().s and t.strip().tn != "std::allocator"]
                vals = [v for v in vals if not (v[0] == "rec" and str(v[1]).startswith("std::allocator"))]
                t = e.get("t") if isinstance(e, dict) else None
                t = t.strip() if t is not None else None
                x = vals[0] if vals else zeroof(t.ta[0]) if t is not None and t.ta else None
                if x is not None and len(vals) <= 1:
                    return N(norm_seq((("e", x),) * n[1]), s)
            return N(("op", "seq", f["q"], *vs), s)
        return bind(I.vals(a, st), go)

    def subrange(I, b, e2, st):
        if b[2] == ("begin",) and e2[2] == ("end",):
            return I.rd(b[1], st)

        def go(v, s):
            lo = C(0) if b[2][0] == "begin" else b[2][1] if b[2][0] == "i" else None
            hi = seq_len(v) if e2[2][0] == "end" else e2[2][1] if e2[2][0] == "i" else None
            if lo is None or hi is None:
                return N(I.unk("subrange"), s)
            q = as_seq(v)
            if len(q[1]) == 1 and q[1][0][0] == "sl":
                p = q[1][0]
                return N(norm_seq((("sl", p[1], lin_add(p[2], lo), lin_add(p[2], hi)),)), s)
            return N(I.unk("subrange"), s)
        return bind(I.rd(b[1], st), go)

    @mut(*seqn("push_back", "push"))
    def m_push(I, st, o, x):
        return [(norm_seq(as_seq(o)[1] + (("e", x),)), VOID, st)]

    @reg(*seqn("emplace_back"))
    def m_emplace_back(I, e, f, ob, a, st):
        ot = e["o"]["t"].strip()
        vt = ot.ta[0] if ot.ta else None
        return bind(build(I, vt, a, st, e), lambda x, s: bind(I.rd(ob, s), lambda o, s2: bind(
            I.wr(ob, norm_seq(as_seq(o)[1] + (("e", x),)), s2), lambda _, s3: N(AT(I.ext(ob, ("i", seq_len(o)))), s3))))

    @mut(*seqn("pop_back"))
    def m_popb(I, st, o):
        q = as_seq(o)
        if q[1] and q[1][-1][0] == "e":
            return [(norm_seq(q[1][:-1]), VOID, st)]
        return [(v if v is not None else I.unk("pop_back of empty"), VOID, s)
                for v, s in I.seq_erase(o, lin_sub(seq_len(o), C(1)), st)]

    @mut(*seqn("pop_front"))
    def m_popf(I, st, o):
        return [(v if v is not None else I.unk("pop_front of empty"), VOID, s) for v, s in I.seq_erase(o, C(0), st)]

    @mut(*seqn("push_front"))
    def m_pushf(I, st, o, x):
        return [(norm_seq((("e", x),) + as_seq(o)[1]), VOID, st)]

    @pure(*seqn("size"))
    def m_vsize(I, st, o):
        return seq_len(o)

    @pure("std::span::size_bytes")
    def m_vbytes(I, st, o):
        n, r = seq_len(o), C(0)
        for _ in range(8):               # the element size; any size beyond one byte serves
            r = lin_add(r, n)
        return r

    @pure(*seqn("empty"))
    def m_vempty(I, st, o):
        return [Out("n", C(not b), s) for b, s in I.pos(seq_len(o), st)]

    @mut(*seqn("clear"))
    def m_vclear(I, st, o):
        return [(EMPTYSEQ, VOID, st)]

    @mut(*seqn("reserve", "shrink_to_fit"))
    def m_vres(I, st, o, *a):
        return [(o, VOID, st)]

    def m_vresize(I, e, f, ob, a, st):
        def go(vs, s):
            def go2(o, s2):
                n = s2.nz(vs[0])
                if n[0] == "c" and isinstance(n[1], int) and n[1] <= 64 and o[0] == "seq" and all(p[0] == "e" for p in o[1]):
                    x = vs[1] if len(vs) > 1 else None
                    if x is None:
                        vt = e.get("o", {}).get("t") if isinstance(e, dict) else None
                        vt = vt.strip().ta[0] if vt is not None and vt.strip().ta else None
                        x = zeroof(vt)
                    if x is not None or len(o[1]) >= n[1]:
                        nv = norm_seq(o[1][:n[1]] + (("e", x),) * max(0, n[1] - len(o[1])))
                        return bind(I.wr(ob, nv, s2), lambda _, s3: N(VOID, s3))
                return bind(I.wr(ob, ("op", "resize", o, n, *vs[1:]), s2), lambda _, s3: N(VOID, s3))
            return bind(I.rd(ob, s), go2)
        return bind(I.vals(a, st), go)
    for n in seqn("resize"):
        M[n] = m_vresize

    def m_vat(I, e, f, ob, a, st):
        def go(i, s):
            def go2(o, s2):
                r = []
                for x, pos, s3 in I.seq_at(o, i, s2):
                    if x is None:
                        if f["n"] == "at":
                            r += missing(I, f, s3)
                        else:
                            s3.event("oob", f["q"], i)
                            r.append(Out("n", AT((I.fresh("unkroot"), ())), s3))
                    else:
                        r.append(Out("n", AT(I.ext(ob, ("i", s3.nz(i)))), s3))
                return r
            return bind(I.rd(ob, s), go2)
        return bind(I.val(a[0], st), go)

    def m_vbr(I, e, f, ob, a, st):
        # operator[] has a precondition: no case split, the index is taken to be in range
        return bind(I.val(a[0], st), lambda i, s: N(AT(I.ext(ob, ("i", s.nz(i)))), s))
    for n in seqn("at"):
        M[n] = m_vat
    for n in seqn("operator[]"):
        M[n] = m_vbr

    @reg(*seqn("front"))
    def m_front(I, e, f, ob, a, st):
        return N(AT(I.ext(ob, ("i", C(0)))), st)

    @reg(*seqn("back"))
    def m_back(I, e, f, ob, a, st):
        return bind(I.rd(ob, st), lambda o, s: N(AT(I.ext(ob, ("i", lin_sub(seq_len(o), C(1))))), s))

    @reg(*seqn("begin", "cbegin"))
    def m_vbegin(I, e, f, ob, a, st):
        return N(("it", ob, ("begin",)), st)

    @reg(*seqn("end", "cend"))
    def m_vend(I, e, f, ob, a, st):
        return N(("it", ob, ("end",)), st)

    @reg(*seqn("rbegin", "rend", "crbegin", "crend"))
    def m_vrb(I, e, f, ob, a, st):
        return N(("it", ob, (f["n"],)), st)

    @reg(*seqn("data"))
    def m_vdata(I, e, f, ob, a, st):
        return N(("ptr", I.ext(ob, ("i", C(0)))), st)

    @reg(*seqn("erase"))
    def m_verase(I, e, f, ob, a, st):
        def go(vs, s):
            it = vs[0]
            if len(vs) != 1 or it[0] != "it":
                return bind(I.wr(ob, I.unk("erase range"), s), lambda _, s2: N(I.unk("erase"), s2))
            i = C(0) if it[2][0] == "begin" else it[2][1] if it[2][0] == "i" else None
            if i is None:
                return bind(I.wr(ob, I.unk("erase"), s), lambda _, s2: N(I.unk("erase"), s2))

            def go2(o, s2):
                r = []
                for nv, s3 in I.seq_erase(o, i, s2):
                    if nv is None:
                        s3.event("ub", "erase out of range")
                        nv = I.unk("erase out of range")
                    for o3 in I.wr(ob, nv, s3):
                        r.append(Out("n", ("it", ob, ("i", i)), o3.st))
                return r
            return bind(I.rd(ob, s), go2)
        return bind(I.vals(a, st), go)

    @reg(*seqn("insert"))
    def m_vinsert(I, e, f, ob, a, st):
        def go(vs, s):
            it = vs[0]

            def go2(o, s2):
                if len(vs) == 2 and it[0] == "it":
                    if it[2][0] == "end":
                        nv = norm_seq(as_seq(o)[1] + (("e", vs[1]),))
                        return bind(I.wr(ob, nv, s2), lambda _, s3: N(("it", ob, ("i", seq_len(o))), s3))
                    if it[2][0] == "begin":
                        nv = norm_seq((("e", vs[1]),) + as_seq(o)[1])
                        return bind(I.wr(ob, nv, s2), lambda _, s3: N(("it", ob, ("i", C(0))), s3))
                return bind(I.wr(ob, I.unk("insert"), s2), lambda _, s3: N(I.unk("insert"), s3))
            return bind(I.rd(ob, s), go2)
        return bind(I.vals(a, st), go)

    # ------------------------------------------------------------ any
    @reg("std::any::ctor")
    def m_any(I, e, f, ob, a, st):
        if not a:
            return N(("any0",), st)
        if f["ctor"] == 3:
            return take(a[0], st, ("any0",))
        if f["ctor"] == 2:
            return I.val(a[0], st)
        t = argtype(e)
        ta = f.get("ta")
        tt = ta[0]["t"].bare if ta and "t" in ta[0] else (t.bare if t is not None else "?")
        return bind(I.val(a[0], st), lambda v, s: N(v if tt == "std::any" else ("any", decay(tt), v), s))

    def decay(s):
        if re.match(r"^const char\s*\[", s) or re.match(r"^char const\s*\[", s) or re.match(r"^char\s*\[", s):
            return "const char *"
        return s

    @reg("std::make_any")
    def m_makeany(I, e, f, ob, a, st):
        t = f["ta"][0]["t"]
        return bind(build(I, t, a, st), lambda v, s: N(("any", t.bare, v), s))

    @reg("std::any::operator=")
    def m_anyasg(I, e, f, ob, a, st):
        pt = f["pt"][0].strip()
        t = None if pt.tn == "std::any" else pt.bare

        def go(v, s):
            nv = v if t is None else ("any", t, v)
            if f["pt"][0].k == "rref" and t is None and a[0][0] == "@" and a[0][1] != ob:
                for o in I.wr(a[0][1], ("any0",), s):
                    s = o.st
            return bind(I.wr(ob, nv, s), lambda _, s2: N(AT(ob), s2))
        return bind(I.val(a[0], st), go)

    @reg("std::any::emplace")
    def m_anyempl(I, e, f, ob, a, st):
        t = f["ta"][0]["t"]
        return bind(build(I, t, a, st), lambda v, s: bind(I.wr(ob, ("any", t.bare, v), s), lambda _, s2: N(
            AT((ob[0], ob[1] + (("a", t.bare),))), s2)))

    @pure("std::any::has_value")
    def m_anyhv(I, st, o):
        if o[0] == "any":
            return TRUE
        if o == ("any0",):
            return FALSE
        return [Out("n", C(not b), s) for b, s in I.fork(st, ("anyempty", o))]

    @mut("std::any::reset")
    def m_anyreset(I, st, o):
        return [(("any0",), VOID, st)]

    @reg("std::any::swap")
    def m_anyswap(I, e, f, ob, a, st):
        return M["std::swap"](I, e, f, None, (AT(ob), a[0]), st)

    @pure("std::any::type")
    def m_anytype(I, st, o):
        if o[0] == "any":
            return ("typeid", o[1])
        if o == ("any0",):
            return ("typeid", "void")
        return ("anytype", o)

    @pure("std::type_info::operator==")
    def m_tieq(I, st, o, x):
        return I.boolean(I.eqv(o, x, st))

    @pure("std::type_info::operator!=")
    def m_tine(I, st, o, x):
        return [Out("n", C(not b), s) for b, s in I.eqv(o, x, st)]

    @pure("std::type_info::name")
    def m_tiname(I, st, o):
        return ("op", "typename", o)

    @pure("std::type_info::hash_code")
    def m_tihash(I, st, o):
        return ("op", "typehash", o)

    @reg("std::any_cast")
    def m_anycast(I, e, f, ob, a, st):
        t = f["ta"][0]["t"]
        want = t.bare
        isptr = f["pt"][0].k == "ptr"
        if isptr:
            def gp(p, s):
                p = s.nz(p)
                if p == NULL:
                    return N(NULL, s)
                l = I.deref(p, s)

                def g2(v, s2):
                    return [Out("n", ("ptr", (l[0], l[1] + (("a", want),))) if b else NULL, s3) for b, s3 in I.anytype(v, want, s2)]
                return bind(I.rd(l, s), g2)
            return bind(I.val(a[0], st), gp)
        loc = I.loc_of(a[0], st)

        def g(v, s):
            r = []
            for b, s2 in I.anytype(v, want, s):
                if b:
                    l = (loc[0], loc[1] + (("a", want),))
                    if e.get("glv") or f["ret"].isref():
                        r.append(Out("n", AT(l), s2))
                    else:
                        r += I.rd(l, s2)
                else:
                    s2.event("throws", "std::any_cast")
                    r.append(Out("t", EXC("std::bad_any_cast"), s2))
            return r
        return bind(I.rd(loc, st), g)

    # ------------------------------------------------------------ smart pointers
    UP = ["std::unique_ptr", "std::shared_ptr", "std::__shared_ptr", "std::__uniq_ptr_impl", "std::__shared_ptr_access"]

    def upn(*ms):
        return [c + "::" + m for c in UP for m in ms]

    @reg(*upn("ctor"))
    def m_upctor(I, e, f, ob, a, st):
        if not a:
            return N(("uptr", NULL), st)
        if f["ctor"] == 3 or (f["pt"][0].k == "rref" and f["pt"][0].strip().tn in UP):
            if f["c"] == "std::unique_ptr" or f["ctor"] == 3:
                return take(a[0], st, ("uptr", NULL))
        raw = f["pt"][0].strip().k == "ptr"

        def made(v, s):
            if raw and v[0] not in ("ptr", "c", "uptr"):
                t = (e or {}).get("t")
                dt = t.strip().ta[1] if t is not None and len(t.strip().ta) > 1 else None
                dv = None
                if len(a) > 1:
                    o = I.val(a[1], s.clone())
                    dv = o[0].v if o else None
                s.event("own", v, dv, (dt.bare if dt is not None else None))
                return N(("uptr", v), s)
            return N(v if v[0] == "uptr" else ("uptr", v) if v[0] in ("ptr", "c") else v, s)
        return bind(I.val(a[0], st), made)

    @reg(*upn("operator="))
    def m_upasg(I, e, f, ob, a, st):
        if f["pt"][0].k == "rref" and a[0][0] == "@":
            if a[0][1] == ob:
                return N(AT(ob), st)
            return bind(take(a[0], st, ("uptr", NULL)), lambda v, s: bind(I.wr(ob, v, s), lambda _, s2: N(AT(ob), s2)))
        return bind(I.val(a[0], st), lambda v, s: bind(I.wr(ob, ("uptr", v) if v[0] in ("ptr", "c") else v, s),
                                                      lambda _, s2: N(AT(ob), s2)))

    def ptrof(v):
        return v[1] if v[0] == "uptr" else ("upget", v) if v[0] not in ("ptr", "c", "unk") else v

    @pure(*upn("get"))
    def m_upget(I, st, o):
        return ptrof(o)

    @pure(*upn("operator->"))
    def m_uparrow(I, st, o):
        return ptrof(o)

    @reg(*upn("operator*"))
    def m_upstar(I, e, f, ob, a, st):
        return bind(I.rd(ob, st), lambda v, s: N(AT(I.deref(ptrof(v), s)), s))

    @pure(*upn("operator bool"))
    def m_upbool(I, st, o):
        return [Out("n", C(not b), s) for b, s in I.eqv(ptrof(o), NULL, st)]

    @mut(*upn("release"))
    def m_uprel(I, st, o):
        st.event("disown", ptrof(o))
        return [(("uptr", NULL), ptrof(o), st)]

    @mut(*upn("reset"))
    def m_upreset(I, st, o, *a):
        return [(("uptr", a[0] if a else NULL), VOID, st)]

    @reg("std::make_unique", "std::make_shared")
    def m_mkuniq(I, e, f, ob, a, st):
        t = f["ta"][0]["t"]

        def done(v, s):
            h = I.fresh("h")
            s.store[h] = v
            s.event("new", h, t.bare)
            return N(("uptr", ("ptr", (h, ()))), s)
        return bind(build(I, t, a, st, e, f["pt"]), done)

    # ------------------------------------------------------------ function
    @reg("std::function::ctor")
    def m_fn(I, e, f, ob, a, st):
        if not a:
            return N(NULL, st)
        if f["ctor"] == 3:
            return take(a[0], st, ("moved",))
        return I.val(a[0], st)

    @reg("std::function::operator=")
    def m_fnasg(I, e, f, ob, a, st):
        return bind(I.val(a[0], st), lambda v, s: bind(I.wr(ob, v, s), lambda _, s2: N(AT(ob), s2)))

    @reg("std::function::operator()")
    def m_fncall(I, e, f, ob, a, st):
        # by-value parameters copy their argument before the target sees it
        return bind(I.rd(ob, st), lambda fv, s: I.invoke(fv, a, s, e))

    @pure("std::function::operator bool")
    def m_fnbool(I, st, o):
        return I.boolean(I.truth(o, st))

    @reg("std::invoke", "std::__invoke")
    def m_invoke(I, e, f, ob, a, st):
        return bind(I.val(a[0], st), lambda fv, s: I.invoke(fv, a[1:], s, e))

    # ------------------------------------------------------------ atomic
    ATO = ["std::atomic", "std::__atomic_base", "std::atomic_int"]

    @reg("std::atomic::ctor", "std::__atomic_base::ctor")
    def m_atoctor(I, e, f, ob, a, st):
        return I.val(a[0], st) if a else N(C(0), st)
    for c in ATO:
        @reg(c + "::operator++", c + "::operator--", c + "::fetch_add", c + "::fetch_sub", c + "::operator+=", c + "::operator-=",
             c + "::exchange")
        def m_rmw(I, e, f, ob, a, st):
            n = f["n"]

            def go(vs, s):
                def g2(o, s2):
                    amt = C(1) if n in ("operator++", "operator--") else vs[0]
                    sub = n in ("operator--", "fetch_sub", "operator-=")
                    nv = vs[0] if n == "exchange" else lin_add(o, amt, -1 if sub else 1)
                    s2.event("rmw", ob, n, amt)
                    old = n in ("fetch_add", "fetch_sub", "exchange") or (n in ("operator++", "operator--") and len(a) == 1)
                    return bind(I.wr(ob, nv, s2), lambda _, s3: N(o if old else nv, s3))
                return bind(I.rd(ob, s), g2)
            return bind(I.vals(a, st), go)

        @reg(c + "::load", c + "::operator int", c + "::operator __integral_type", c + "::operator unsigned long",
             c + "::operator long", c + "::operator unsigned int", c + "::operator bool")
        def m_aload(I, e, f, ob, a, st):
            def g(v, s):
                s.event("aload", ob)
                return N(v, s)
            return bind(I.rd(ob, st), g)

        @reg(c + "::store", c + "::operator=")
        def m_astore(I, e, f, ob, a, st):
            def g(v, s):
                s.event("astore", ob)
                return bind(I.wr(ob, v, s), lambda _, s2: N(v, s2))
            return bind(I.val(a[0], st), g)

    # ------------------------------------------------------------ locks are neutral for the value analysis
    for c in ("std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock"):
        @reg(c + "::ctor")
        def m_lock(I, e, f, ob, a, st):
            st.event("lock", a[0][1] if a and a[0][0] == "@" else None)
            return N(("rec", "lock", (), None), st)

    @reg("std::mutex::lock", "std::mutex::unlock", "std::shared_mutex::lock", "std::shared_mutex::unlock")
    def m_mlock(I, e, f, ob, a, st):
        st.event("lock" if f["n"] == "lock" else "unlock", ob)
        return N(VOID, st)

    # ------------------------------------------------------------ variant / visit / optional
    @reg("std::visit")
    def m_visit(I, e, f, ob, a, st):
        vts = []
        for x in e["a"][1:]:
            t = x.get("t")
            vts.append(t.strip() if t is not None and t.strip().tn == "std::variant" else None)
        if not vts or None in vts or len(a) != len(vts) + 1:
            return N(I.unk("visit"), st)
        locs = [I.loc_of(x, st) for x in a[1:]]

        def choose(i, chosen, s):
            if i == len(vts):
                return visit_one(I, a[0], chosen, s, e)
            vt, loc = vts[i], locs[i]
            alts = vt.ta[0] if vt.ta and isinstance(vt.ta[0], tuple) else vt.ta

            def go(v, s):
                res = []
                todo = [s]
                for j, t in enumerate(alts):
                    nxt = []
                    for s2 in todo:
                        last = j == len(alts) - 1
                        for b, s3 in I.anytype(v, t.bare, s2):
                            if b:
                                res.extend(choose(i + 1, chosen + [((loc[0], loc[1] + (("a", t.bare),)), t)], s3))
                            elif not last:
                                nxt.append(s3)
                    todo = nxt
                return res
            return bind(I.rd(loc, s), go)
        return choose(0, [], st)

    def visit_one(I, fn, chosen, st, e):
        args = tuple(AT(l) for l, _ in chosen)

        def go(fv, s):
            if fv[0] == "lam" and fv[4]:
                c = [I.P.funcs[u] for u in fv[4] if u in I.P.funcs and I.P.funcs[u].b is not None
                     and len(I.P.funcs[u].p) == len(chosen)
                     and all(p["t"].bare == t.bare for p, (_, t) in zip(I.P.funcs[u].p, chosen))]
                if c:
                    return I.enter(c[0], None, args, s, lam=fv)
            return I.invoke(fv, args, s, e)
        return bind(I.val(fn, st), go)

    @reg("std::variant::ctor")
    def m_var(I, e, f, ob, a, st):
        t = (e or {}).get("t")
        t = t.strip() if t is not None else None
        alts = None
        if t is not None and t.tn == "std::variant" and t.ta:
            alts = t.ta[0] if isinstance(t.ta[0], tuple) else t.ta
        if f["ctor"] in (2, 3) and a:
            def copied(v, s):
                # the alternative held is copied with its own constructor
                alt = [x for x in alts or () if v[0] == "any" and x.bare == v[1]]
                if alt and a[0][0] == "@":
                    x = alt[0].strip()
                    g = [g for g in I.P.funcs.values() if g.cr == x.rec and g.ctor == f["ctor"] and g.b is not None and not g.implicit]
                    if x.k == "rec" and g:
                        r = I.fresh("t")
                        s.store[r] = ("rec", x.rec, (), None)
                        arg = (AT((a[0][1][0], a[0][1][1] + (("a", x.bare),))),)
                        return bind(I.enter(g[0], (r, ()), arg, s), lambda _, s2: bind(I.rd((r, ()), s2), lambda w, s3: N(("any", v[1], w), s3)))
                return N(v, s)
            return bind(I.val(a[0], st), copied)
        if not a and alts:
            return bind(build(I, alts[0], (), st, e), lambda v, s: N(("any", alts[0].bare, v), s))
        t = argtype(e)
        return bind(I.val(a[0], st), lambda v, s: N(("any", t.bare if t is not None else "?", v), s)) if a else N(I.unk("variant"), st)

    @reg("std::variant::emplace")
    def m_varempl(I, e, f, ob, a, st):
        x = f["ta"][0] if f["ta"] else None
        t = x.get("t") if isinstance(x, dict) else None
        if t is None:
            return bind(I.wr(ob, I.unk("variant"), st), lambda _, s: N(I.unk("emplace"), s))
        return bind(build(I, t, a, st, e, f["pt"]), lambda v, s: bind(I.wr(ob, ("any", t.bare, v), s), lambda _, s2: N(
            AT((ob[0], ob[1] + (("a", t.bare),))), s2)))

    @reg("std::variant::index")
    def m_varidx(I, e, f, ob, a, st):
        t = None
        for x in (e.get("o"),):
            if x is not None and x.get("t") is not None:
                t = x["t"].strip()
                if t.k == "ptr":
                    t = t.el.strip() if getattr(t, "el", None) is not None else None
        if t is None or t.tn != "std::variant":
            return N(I.unk("index"), st)
        alts = t.ta[0] if t.ta and isinstance(t.ta[0], tuple) else t.ta

        def go(v, s):
            res, todo = [], [s]
            for j, x in enumerate(alts):
                nxt = []
                for s2 in todo:
                    if j == len(alts) - 1:
                        res += N(C(j), s2)
                        continue
                    for b, s3 in I.anytype(v, x.bare, s2):
                        if b:
                            res += N(C(j), s3)
                        else:
                            nxt.append(s3)
                todo = nxt
            return res
        return bind(I.rd(ob, st), go)

    @reg("std::holds_alternative")
    def m_holds(I, e, f, ob, a, st):
        t = f["ta"][0]["t"].bare
        return bind(I.val(a[0], st), lambda v, s: I.boolean(I.anytype(v, t, s)))

    @reg("std::get_if")
    def m_getif(I, e, f, ob, a, st):
        ta = f["ta"][0]
        if "t" not in ta:
            return None
        t = ta["t"].bare

        def gp(p, s):
            l = I.deref(p, s)
            return bind(I.rd(l, s), lambda v, s2: [Out("n", ("ptr", (l[0], l[1] + (("a", t),))) if b else NULL, s3)
                                                    for b, s3 in I.anytype(v, t, s2)])
        return bind(I.val(a[0], st), gp)

    @reg("std::optional::ctor")
    def m_opt(I, e, f, ob, a, st):
        if not a:
            return N(("optnone",), st)
        if f["ctor"] in (2, 3):
            return I.val(a[0], st)
        if f["pt"] and f["pt"][0].strip().tn == "std::nullopt_t":
            return N(("optnone",), st)
        return bind(I.val(a[0], st), lambda v, s: N(("opt", v), s))

    @pure("std::optional::has_value", "std::optional::operator bool")
    def m_opthv(I, st, o):
        if o == ("optnone",):
            return FALSE
        if o[0] == "opt":
            return TRUE
        return I.boolean(I.fork(st, ("opthas", o)))

    @reg("std::optional::operator*", "std::optional::value")
    def m_optval(I, e, f, ob, a, st):
        return N(AT((ob[0], ob[1] + (("o",),))), st)

    @reg("std::optional::operator->")
    def m_optarrow(I, e, f, ob, a, st):
        return N(("ptr", (ob[0], ob[1] + (("o",),))), st)

    # ------------------------------------------------------------ exceptions
    def m_excctor(I, e, f, ob, a, st):
        if f["ctor"] in (2, 3):
            return I.val(a[0], st)
        t = e["t"].bare
        return bind(I.vals(a, st), lambda vs, s: N(EXC(t, *vs), s))
    for t in ("out_of_range", "invalid_argument", "length_error", "logic_error", "runtime_error", "bad_cast",
              "bad_any_cast", "exception", "bad_alloc", "domain_error", "range_error", "bad_typeid"):
        M["std::%s::ctor" % t] = m_excctor

        @pure("std::%s::what" % t)
        def m_what(I, st, o):
            return ("op", "what", o[1] if o[0] == "exc" else o)

    # ------------------------------------------------------------ algorithms
    def unwrap_range(I, a, st):
        """(location, remaining arguments, ok) of the range an algorithm works on"""
        out = []

        def go(vs, s):
            if len(vs) >= 2 and vs[0][0] == "it" and vs[1][0] == "it":
                b, e2 = vs[0], vs[1]
                if b[1] == e2[1] and b[2] == ("begin",) and e2[2] == ("end",):
                    return N(("R", b[1], 2), s)
                return N(("R", None, 2), s)
            return N(("R", a[0][1] if a[0][0] == "@" else I.tmp(a[0], s), 1), s)
        return bind(I.evs(a[:2], I.val, st), go)

    def itpos(it, v):
        """the index an iterator into the sequence v stands at"""
        return C(0) if it[2] == ("begin",) else seq_len(v) if it[2] == ("end",) else it[2][1] if it[2][0] == "i" else None

    def cutseq(I, v, lo, hi, st):
        """[(parts of elements [lo, hi) of v | None, state)]"""
        q = as_seq(v)
        if lo == hi:
            return [((), st)]
        if len(q[1]) == 1 and q[1][0][0] == "sl":
            p = q[1][0]
            return [((("sl", p[1], lin_add(p[2], lo), lin_add(p[2], hi)),), st)]
        if isc(lo) and isc(hi) and all(p[0] == "e" for p in q[1]) and 0 <= lo[1] <= hi[1] <= len(q[1]):
            return [(q[1][lo[1]:hi[1]], st)]
        return [(None, st)]

    def shiftdown(I, st, first, last, out):
        """copying [first, last) of a sequence to an earlier place out of the same sequence"""
        def go(v, s):
            v = s.nz(v)
            x, y, z = (itpos(it, v) for it in (first, last, out))
            if None in (x, y, z):
                return None
            n = lin_sub(y, x)
            w = lin_add(z, n)
            res = []
            for over, s1 in I.less(y, x, s):
                if over:
                    s1.event("oob", v, x)
                    res += N(I.unk("range"), s1)
                    continue
                for late, s2 in I.less(x, z, s1):
                    if late:
                        return None
                    parts = []
                    for lo, hi in ((C(0), z), (x, y), (w, seq_len(v))):
                        (c, s2), = cutseq(I, v, lo, hi, s2)
                        if c is None:
                            return None
                        parts += c
                    res += bind(I.wr(first[1], norm_seq(tuple(parts)), s2), lambda _, s3: N(("it", out[1], ("i", w)), s3))
            return res
        o = I.rd(first[1], st)
        if len(o) != 1 or o[0].k != "n":
            return None
        return go(o[0].v, o[0].st)

    def tn_of(I, loc, st):
        if st.facts.get(("ismap", loc)):
            return "std::unordered_map"
        return None

    MAPIT = ("_Node_iterator", "_Node_const_iterator", "_Rb_tree_iterator", "_Rb_tree_const_iterator")

    def algo(*names):
        def d(f):
            def m(I, e, fi, ob, a, st):
                def go(r, s):
                    loc, k = r[1], r[2]
                    if loc is None:
                        return None
                    if k == 1 and e["a"][0].get("t") is not None:
                        t = e["a"][0]["t"].strip()
                        if t.tn in I.MAPS:
                            s.facts[("ismap", loc)] = True
                    rest = a[k:]
                    if k == 2 and e["a"] and e["a"][0].get("t") is not None and (e["a"][0]["t"].strip().tn or "").split("::")[-1] in MAPIT:
                        s.facts[("ismap", loc)] = True
                    # projections and similar defaults are ignored when they are std::identity
                    rest = [x for i, x in enumerate(rest) if not (k + i < len(e["a"]) and is_identity(e["a"][k + i]))]
                    return f(I, e, fi, loc, rest, s)
                outs = unwrap_range(I, a, st)
                res = []
                for o in outs:
                    if o.k != "n":
                        res.append(o)
                        continue
                    r = go(o.v, o.st)
                    if r is None:
                        return None
                    res += r
                return res
            for n in names:
                M["std::" + n] = m
                M["std::ranges::__%s_fn::operator()" % n] = m
            return f
        return d

    def is_identity(x):
        t = x.get("t")
        return t is not None and t.strip().s in ("std::identity", "std::ranges::equal_to")

    def each(I, loc, fn, st, k):
        """loop applying fn to each element; k(result value, element, state) -> outcomes"""
        def body(el, s):
            return bind(I.val(fn, s), lambda fv, s2: bind(I.invoke(fv, (el,), s2), lambda r, s3: bind(
                I.val(r, s3), lambda rv, s4: k(rv, el, s4))))
        return I.loop_over(loc, tn_of(I, loc, st), body, st)

    def tobool(I, v, s, yes, no):
        r = []
        for b, s2 in I.truth(v, s):
            r += yes(s2) if b else no(s2)
        return r

    def fin(outs, endval):
        """loop outcomes -> expression outcomes; "r" carries the result"""
        res = []
        for o in outs:
            if o.k == "r":
                res.append(Out("n", o.v, o.st))
            elif o.k == "n":
                v = endval(o.st)
                res += v if isinstance(v, list) else [Out("n", v, o.st)]
            else:
                res.append(o)
        return res

    def elit(loc, el):
        if el[0] == "@":
            p = el[1][1][-1]
            if p[0] == "p":
                return ("it", loc, ("k", p[1]))
            if p[0] == "i":
                return ("it", loc, ("i", p[1]))
        return ("it", loc, ("set", el))

    @algo("find_if", "find_if_not")
    def a_findif(I, e, f, loc, a, st):
        neg = "not" in f["q"]

        def k(v, el, s):
            y = lambda s2: [Out("r", elit(loc, el), s2)]   # noqa: E731
            n = lambda s2: N(VOID, s2)                      # noqa: E731
            return tobool(I, v, s, n if neg else y, y if neg else n)
        return fin(each(I, loc, a[0], st, k), lambda s: ("it", loc, ("end",)))

    @algo("find")
    def a_find(I, e, f, loc, a, st):
        def body(el, s):
            def go(x, s2):
                def g2(y, s3):
                    r = []
                    for b, s4 in I.eqv(x, y, s3):
                        r += [Out("r", elit(loc, el), s4)] if b else N(VOID, s4)
                    return r
                return bind(I.val(a[0], s2), g2)
            return bind(I.val(el, s), go)
        return fin(I.loop_over(loc, tn_of(I, loc, st), body, st), lambda s: ("it", loc, ("end",)))

    @algo("any_of")
    def a_any(I, e, f, loc, a, st):
        return fin(each(I, loc, a[0], st, lambda v, el, s: tobool(I, v, s, lambda s2: [Out("r", TRUE, s2)], lambda s2: N(VOID, s2))),
                   lambda s: FALSE)

    @algo("none_of")
    def a_none(I, e, f, loc, a, st):
        return fin(each(I, loc, a[0], st, lambda v, el, s: tobool(I, v, s, lambda s2: [Out("r", FALSE, s2)], lambda s2: N(VOID, s2))),
                   lambda s: TRUE)

    @algo("all_of")
    def a_all(I, e, f, loc, a, st):
        return fin(each(I, loc, a[0], st, lambda v, el, s: tobool(I, v, s, lambda s2: N(VOID, s2), lambda s2: [Out("r", FALSE, s2)])),
                   lambda s: TRUE)

    @algo("for_each")
    def a_foreach(I, e, f, loc, a, st):
        return fin(each(I, loc, a[0], st, lambda v, el, s: N(VOID, s)), lambda s: I.val(a[0], s))

    @algo("count_if")
    def a_countif(I, e, f, loc, a, st):
        c = I.tmp(C(0), st)
        outs = each(I, loc, a[0], st, lambda v, el, s: tobool(I, v, s, lambda s2: bind(
            I.rd(c, s2), lambda x, s3: I.wr(c, lin_add(x, C(1)), s3)), lambda s2: N(VOID, s2)))
        return fin(outs, lambda s: I.rd(c, s))

    def push_to(I, it, v, s):
        """writes through an output iterator"""
        if it[0] == "inserter":
            return bind(I.rd(it[1], s), lambda o, s2: I.wr(it[1], norm_seq(as_seq(o)[1] + (("e", v),)), s2))
        return bind(I.wr(it[1], I.unk("output iterator"), s) if it[0] == "it" else N(VOID, s), lambda _, s2: N(VOID, s2))

    @reg("std::back_inserter", "std::inserter")
    def m_backins(I, e, f, ob, a, st):
        if f["n"] == "inserter":
            return N(I.unk("inserter"), st)
        return N(("inserter", a[0][1]), st)

    @algo("transform")
    def a_transform(I, e, f, loc, a, st):
        def go(it, s):
            if it[0] != "inserter":
                return N(I.unk("transform target"), s) if it[0] != "it" else bind(
                    I.wr(it[1], I.unk("transform target"), s), lambda _, s2: N(I.unk("it"), s2))
            return fin(each(I, loc, a[1], s, lambda v, el, s2: push_to(I, it, v, s2)), lambda s2: it)
        return bind(I.val(a[0], st), go)

    @algo("copy_if", "remove_copy_if")
    def a_copyif(I, e, f, loc, a, st):
        neg = "remove" in f["q"]

        def go(it, s):
            if it[0] != "inserter":
                return N(I.unk("copy_if target"), s)

            def k(v, el, s2):
                y = lambda s3: bind(I.val(el, s3), lambda x, s4: push_to(I, it, x, s4))   # noqa: E731
                n = lambda s3: N(VOID, s3)                                                # noqa: E731
                return tobool(I, v, s2, n if neg else y, y if neg else n)
            return fin(each(I, loc, a[1], s, k), lambda s2: it)
        return bind(I.val(a[0], st), go)

    def I_copy_range(I, e, f, ob, a, st):
        o = I.vals(a, st.clone())
        if len(o) == 1 and o[0].k == "n" and all(x[0] == "it" for x in o[0].v) and len({x[1] for x in o[0].v}) == 1:
            r = shiftdown(I, o[0].st, *o[0].v)
            if r is not None:
                return r
        return m_copy(I, e, f, ob, a, st)

    @algo("copy")
    def a_copy(I, e, f, loc, a, st):
        def go(it, s):
            if it[0] == "inserter":
                return fin(I.loop_over(loc, tn_of(I, loc, s), lambda el, s2: bind(
                    I.val(el, s2), lambda x, s3: push_to(I, it, x, s3)), s), lambda s2: it)
            if it[0] == "it":
                return bind(I.wr(it[1], I.unk("copy target"), s), lambda _, s2: N(I.unk("it"), s2))
            return N(I.unk("copy"), s)
        return bind(I.val(a[0], st), go)
    m_copy = M["std::copy"]
    M["std::copy"] = I_copy_range

    @reg("std::rotate", "std::_V2::rotate")
    def m_rotate(I, e, f, ob, a, st):
        o = I.vals(a, st.clone())
        if len(o) != 1 or o[0].k != "n" or not all(x[0] == "it" for x in o[0].v) or len({x[1] for x in o[0].v}) != 1:
            return None
        first, mid, last = o[0].v

        def go(v, s):
            v = s.nz(v)
            x, m, y = (itpos(it, v) for it in (first, mid, last))
            if None in (x, m, y):
                return None
            parts = []
            for lo, hi in ((C(0), x), (m, y), (x, m), (y, seq_len(v))):
                (c, s), = cutseq(I, v, lo, hi, s)
                if c is None:
                    return None
                parts += c
            return bind(I.wr(first[1], norm_seq(tuple(parts)), s), lambda _, s3: N(("it", first[1], ("i", lin_add(x, lin_sub(y, m)))), s3))
        o = I.rd(first[1], o[0].st)
        return go(o[0].v, o[0].st) if len(o) == 1 and o[0].k == "n" else None

    @algo("accumulate")
    def a_accumulate(I, e, f, loc, a, st):
        def go(init, s):
            acc = I.tmp(init, s)

            def body(el, s2):
                def g(av, s3):
                    if len(a) > 1:
                        return bind(I.val(a[1], s3), lambda fv, s4: bind(I.invoke(fv, (av, el), s4), lambda r, s5: bind(
                            I.val(r, s5), lambda rv, s6: I.wr(acc, rv, s6))))
                    return bind(I.val(el, s3), lambda x, s4: I.wr(acc, mkcat((av, x)) if isc_str(av) or av[0] == "cat" else lin_add(av, x), s4))
                return bind(I.rd(acc, s2), g)
            return fin(I.loop_over(loc, tn_of(I, loc, s), body, s), lambda s2: I.rd(acc, s2))
        return bind(I.val(a[0], st), go)

    @algo("sort", "stable_sort")
    def a_sort(I, e, f, loc, a, st):
        cmpv = tuple(x for x in a)
        return bind(I.rd(loc, st), lambda v, s: bind(I.vals(a, s), lambda vs, s2: bind(
            I.wr(loc, sorted_of(v, vs), s2), lambda _, s3: N(VOID, s3))))

    def sorted_of(v, vs):
        vs = tuple(x for x in vs if not (x[0] == "rec" and x[1] and ("less" in x[1] or "identity" in x[1])))
        return ("sorted", v) + vs

    @algo("reverse")
    def a_reverse(I, e, f, loc, a, st):
        return bind(I.rd(loc, st), lambda v, s: I.wr(loc, ("op", "reverse", v), s))

    @reg("std::min", "std::max")
    def m_minmax(I, e, f, ob, a, st):
        def go(vs, s):
            if len(vs) != 2:
                return N(("op", f["n"], *vs), s)
            r = []
            for b, s2 in I.less(vs[0], vs[1], s):
                small = 0 if b else 1
                r.append(Out("n", vs[small if f["n"] == "min" else 1 - small], s2))
            return r
        return bind(I.vals(a, st), go)

    @pure("strlen", "std::strlen")
    def m_strlen(I, st, o, x):
        return C(len(x[1])) if isc_str(x) else SIZE(x)

    @pure("strcmp", "std::strcmp")
    def m_strcmp(I, st, o, a, b):
        return [Out("n", C(n), s) for n, s in three_way(I, a, b, st)]

    # C memory
    @reg("free", "std::free")
    def m_free(I, e, f, ob, a, st):
        return bind(I.val(a[0], st), lambda p, s: (s.event("free", p), N(VOID, s))[1])

    @reg("abi::__cxa_demangle", "__cxxabiv1::__cxa_demangle", "__cxa_demangle")
    def m_demangle(I, e, f, ob, a, st):
        def go(vs, s):
            name, buf, ln, stp = vs
            h = ("ret", "__cxa_demangle", name)
            ok, bad = s, s.clone()
            out = []
            # success: status 0 and an allocated string
            res = []
            for code, s2 in ((0, ok), (-2, bad), (-1, bad.clone())):
                good = code == 0
                s2.event("demangle", name, buf, ln, good)
                outs = N(VOID, s2)
                if stp[0] == "ptr":
                    outs = I.wr(stp[1], C(code), s2)
                if good:
                    res += bind(outs, lambda _, s3: (s3.event("alloc", h), N(h, s3))[1])
                    for o in res:
                        a2, b2 = sorted((h, NULL), key=repr)
                        o.st.facts[("eq", a2, b2)] = False
                        o.st.facts[("truth", h)] = True
                else:
                    res += bind(outs, lambda _, s3: N(NULL, s3))
            return res
        return bind(I.vals(a, st), go)

    @reg("std::ios_base::Init::ctor", "std::allocator::ctor", "std::hash::ctor", "std::greater::ctor", "std::less::ctor",
         "std::equal_to::ctor")
    def m_unit(I, e, f, ob, a, st):
        return N(("rec", f.get("cr"), (), None), st)

    @reg("std::numeric_limits::max", "std::numeric_limits::min", "std::numeric_limits::lowest")
    def m_numlim(I, e, f, ob, a, st):
        t = e.get("t") if isinstance(e, dict) else None
        t = t.strip() if t is not None else None
        if t is None or t.k != "int" or not t.bits:
            return None
        if f["n"] == "max":
            return N(C((1 << t.bits) - 1 if t.uns else (1 << (t.bits - 1)) - 1), st)
        return N(C(0 if t.uns else -(1 << (t.bits - 1))), st)

    @reg("std::__str_hash_base::operator()")
    def m_strhash(I, e, f, ob, a, st):
        return bind(I.vals(a, st), lambda vs, s: N(("op", "hash", *vs), s))

    # ------------------------------------------------------------ MPI
    @reg("MPI_Abort")
    def m_mpiabort(I, e, f, ob, a, st):
        def go(vs, s):
            s.event("exit", f["q"], vs)
            return [Out("x", (f["q"],) + vs, s)]
        return bind(I.vals(a, st), go)

    @reg("MPI_Comm_rank", "MPI_Comm_size")
    def m_mpiquery(I, e, f, ob, a, st):
        def go(vs, s):
            s.event("mpi", f["q"], vs[0])
            if vs[1][0] != "ptr":
                return None
            return bind(I.wr(vs[1][1], ("ret", f["q"], vs[0]), s), lambda _, s2: N(C(0), s2))
        return bind(I.vals(a, st), go)

    @reg("MPI_Init", "MPI_Init_thread", "MPI_Finalize")
    def m_mpiinit(I, e, f, ob, a, st):
        def go(vs, s):
            s.event("mpi", f["q"], *vs[2:3])
            if f["q"] == "MPI_Init_thread" and len(vs) == 4 and vs[3][0] == "ptr":
                return bind(I.wr(vs[3][1], getattr(I, "provided", None) or ("s", "provided"), s), lambda _, s2: N(C(0), s2))
            return N(C(0), s)
        return bind(I.vals(a, st), go)

    @reg("MPI_Initialized", "MPI_Finalized")
    def m_mpistate(I, e, f, ob, a, st):
        """within the life of one MPIInit: what the calls made so far say"""
        def go(vs, s):
            w = "MPI_Init" if f["q"] == "MPI_Initialized" else "MPI_Finalize"
            r = any(ev[0] == "mpi" and ev[1].startswith(w) for ev, _ in s.eff) or (
                w == "MPI_Init" and getattr(I, "mpiup", False))
            if vs[0][0] != "ptr":
                return None
            return bind(I.wr(vs[0][1], C(1 if r else 0), s), lambda _, s2: N(C(0), s2))
        return bind(I.vals(a, st), go)
