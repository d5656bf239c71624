"""Assumed contracts on the C++ standard library (the trusted dependency surface), as symbolic transformers."""
import z3
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal, ForAll
from .vals import *
from .engine import nid


def val(st, v):
    return st.get(v) if isinstance(v, Loc) else v


def arr_def(st, like, f, inv=None):
    """fresh lifted value a' with a'[k] == f(leafarray)(k) for every leaf; f(leaf, k, path...)"""
    k = z3.Int("k!m")

    def mk(t, *ws):
        n = z3.Const(fresh_name("a"), t.sort())
        st.pc.append(("f", FA([k], n[k] == f(k, t, *ws), [n[k]])))
        if inv is not None and z3.is_const(t):
            for cond, i in inv(k):
                st.pc.append(("f", FA([k], Implies(cond, n[i] == t[k]), [t[k]])))
        eng = ENG[0]
        if eng is not None:
            ts = [x for x in (eng.typed_root(a) for a in (t,) + ws if isinstance(a.sort(), z3.ArraySortRef)) if x is not None]
            if ts and all(x.get("s") == ts[0].get("s") for x in ts) and eng.arrsort_int(n):
                eng.type_array(st, n, ts[0])
        return n
    return mk


ENG = [None]


def seq_fill(eng, st, data, lo, hi, v):
    mk = arr_def(st, data, lambda k, t, w: If(And(k >= lo, k < hi), w, t[k]))
    return mapv(mk, data, v)


def seq_copy(eng, st, dst, dlo, n, src, slo):
    mk = arr_def(st, dst, lambda k, t, u: If(And(k >= dlo, k < dlo + n), u[k - dlo + slo], t[k]))
    return mapv(mk, dst, src)


def ispair(eng, v):
    return isinstance(v, Rec) and v.rec is not None and eng.ast.records[v.rec]["plain"] == "std::pair"


def default_elem(eng, rec):
    """value-initialised element"""
    t = eng.ast.ty(eng.targ(rec, 0))
    if t["k"] == "rec":
        r = eng.ast.records[t["rec"]]
        if eng.model_of(r) is None:
            return eng.fresh(eng.targ(rec, 0), "elem")
    return eng.zero(eng.targ(rec, 0))


def getseq(eng, st, obj):
    s = st.get(obj)
    if not isinstance(s, Seq):
        from .engine import Unsupported
        raise Unsupported("sequence operation on %r" % (s,))
    eng.seq_len(st, s)
    return s


def range_of(eng, st, a, b, what):
    """iterator pair -> (Loc of seq, lo, hi)"""
    from .engine import Unsupported
    a, b = val(st, a), val(st, b)
    if not isinstance(a, Ptr) or not isinstance(b, Ptr):
        raise Unsupported("%s on non-pointer iterators" % what)
    if a.root is None and b.root is None:
        return None, IntVal(0), IntVal(0)
    if a.root != b.root or not eng.eqpath(st, a.path, b.path):
        eng.check(st, BoolVal(False), "%s: range within one object" % what)
        raise Unsupported("range")
    if a.idx is None:
        eng.check(st, BoolVal(b.idx is None), "%s: range" % what)
        return None, IntVal(0), IntVal(0)
    l = Loc(a.root, a.path)
    n = eng.seq_len(st, st.get(l))
    eng.check(st, And(a.idx >= 0, a.idx <= b.idx, b.idx <= n), "%s: valid range" % what)
    return l, a.idx, b.idx


def conv_elem(eng, st, v, tid, srct=None):
    """convert scalar to element type"""
    t = eng.ast.strip(tid)
    if t["k"] in ("int", "float", "bool") and isterm(v):
        return eng.convert(st, v, srct, t)
    return v


def auto_patterns(k, body):
    """array reads and logical functions directly applied to the bound variable"""
    out, seen, stack, scaled = [], set(), [body], {}
    while stack:
        t = stack.pop()
        if t.get_id() in seen or z3.is_quantifier(t):
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if z3.is_select(t) and z3.is_app_of(t.arg(1), z3.Z3_OP_IDIV) and t.arg(1).arg(0).eq(k) and okpat(t.arg(0)):
                scaled.setdefault(t.arg(0).get_id(), t)
            if z3.is_select(t) and t.arg(1).eq(k) and okpat(t) and not z3.is_store(t.arg(0)) and not z3.is_K(t.arg(0)):
                out.append(t)
            stack.extend(t.children())
    # a[k] next to a[k / c]: matching a[k] alone would never end
    out = [z3.MultiPattern(t, scaled[t.arg(0).get_id()]) if t.arg(0).get_id() in scaled else t for t in out]
    return out[:3]


def typed_reads(eng, t):
    """every array read in the fact is from an array whose entries are known to be in range"""
    stack, seen, any_ = [t], set(), False
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
        elif z3.is_app(t):
            if z3.is_select(t) and not isinstance(t.sort(), z3.ArraySortRef):
                any_ = True
                if eng.typed_root(t) is None:
                    return False
            stack.extend(t.children())
    return any_


def only_bound(t, k):
    """range of k alone"""
    stack = [t]
    while stack:
        t = stack.pop()
        if z3.is_const(t):
            if not (t.eq(k) or z3.is_int_value(t)):
                return False
        elif z3.is_app(t):
            if not (z3.is_and(t) or t.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE)):
                return False
            stack.extend(t.children())
        else:
            return False
    return True


def table(eng0):
    from .engine import Unsupported, SpecUndefined as SpecUndef, mentions
    T = {}
    ENG[0] = eng0

    def d(*names):
        def deco(f):
            for n in names:
                T[n] = f
            return f
        return deco

    # ---------------------------------------------------------------- specification functions (drivers/cv.hxx)
    @d("cv::require")
    def cv_require(eng, st, obj, args, node, fr, f):
        st.pc.append(("f", eng.tobool(val(st, args[0]))))
        return [(st, None)]

    @d("cv::ensure")
    def cv_ensure(eng, st, obj, args, node, fr, f):
        nm = args[1].what[4:] if len(args) > 1 and isinstance(args[1], Opaque) else "postcondition"
        eng.cur = node.get("loc", eng.cur)
        eng.check(st, eng.tobool(val(st, args[0])), nm)
        return [(st, None)]

    def quant(eng, st, lo, hi, lam):
        k = z3.Int(fresh_name("q"))
        g = And(k >= lo, k < hi)
        fs, v = eng.lam_apply(lam, st, [k], True, g)
        # type ranges: entries of typed arrays are in range anyway (type_array), the bound variable is between size_t
        # bounds, and what does not depend on it is a fact of its own
        keep = []
        for kd, t in fs:
            if kd == "r":
                if not mentions(t, {k.get_id()}):
                    st.pc.append(("r", t))
                    continue
                if typed_reads(eng, t) or only_bound(t, k):
                    continue
            keep.append(t)
        fs = keep
        return k, g, fs, eng.tobool(v)

    @d("cv::forall")
    def cv_forall(eng, st, obj, args, node, fr, f):
        k, g, fs, v = quant(eng, st, val(st, args[0]), val(st, args[1]), args[2])
        body = Implies(And(g, *fs), v)
        pats = auto_patterns(k, v)
        return [(st, FA([k], body, pats))]

    @d("cv::exists")
    def cv_exists(eng, st, obj, args, node, fr, f):
        k, g, fs, v = quant(eng, st, val(st, args[0]), val(st, args[1]), args[2])
        return [(st, z3.Exists([k], And(g, v)))]

    @d("cv::inductive")
    def cv_inductive(eng, st, obj, args, node, fr, f):
        """an invariant template of this contract: tried at every loop reached from here, its parameters being the
        integer variables (or iterator positions) the loop changes; only instances proved inductive are used"""
        lam = args[0]
        key = "%s" % lam.node.get("loc", nid(lam.node))
        import itertools

        def g(ctx):
            res = []
            def locs(t):
                rec = eng.ast.records[t["rec"]]
                if rec is not None and rec["plain"] in eng.seq_models:
                    et = eng.ast.ty(eng.targ(rec, 0))
                    es = z3.IntSort() if et["k"] in ("int", "enum") else z3.BoolSort() if et["k"] == "bool" else eng.fsort(et) if et["k"] == "float" else None
                    return [Loc(r, tuple(("f", x) for x in p[:-1])) for r, p, srt in ctx.mods if p and p[-1] == "#" and isinstance(srt, z3.ArraySortRef) and srt.range() == es and isinstance(ctx.s0.store.get(r), (Rec, Seq)) and "#" not in p[:-1]]
                res = [Loc(r) for r in sorted(set(x[0] for x in ctx.mods), key=str) if isinstance(ctx.s0.store.get(r), Rec) and ctx.s0.store[r].rec == t["rec"]]
                th = ctx.fr.this                 # the object whose member function contains the loop
                if isinstance(th, Loc):
                    o = ctx.s0.get(th)
                    if isinstance(o, Rec) and o.rec == t["rec"] and not any(x.root == th.root and not th.path for x in res):
                        res.append(th)
                return res
            roots = []
            for p in lam.node["params"]:
                t = eng.ast.strip(p["t"])
                roots.append(locs(t) if t["k"] == "rec" else ctx.bools() if t["k"] == "bool" else ctx.reals() if t["k"] == "float" else ctx.ints())
            for xs in itertools.product(*roots):
                if len(set(map(str, xs))) < len(xs):
                    continue
                def inst(s, xs=xs):
                    fs, v = eng.lam_apply(lam, s, [x if isinstance(x, Loc) else ctx.leaf(s, x) for x in xs], True)
                    eng.side = [t for kd, t in fs if kd == "r" and not typed_reads(eng, t)]
                    fs = [t for kd, t in fs if kd != "r"]
                    v = eng.tobool(v)
                    v = z3.BoolVal(v) if isinstance(v, bool) else v
                    return Implies(And(*fs), v) if fs else v
                try:
                    inst(ctx.s0)
                    eng.side = ()
                except (Unsupported, SpecUndef):
                    continue
                res.append(("template %s at %s" % (key.rsplit(":", 1)[-1], ",".join("seq" if isinstance(x, Loc) else str(x[1][-1] if x[1] else x[0][-1]) for x in xs)), inst))
            return res
        g.key = key
        eng.loop_cands = [h for h in eng.loop_cands if getattr(h, "key", None) != key] + [g]
        return [(st, None)]

    @d("cv::any")
    def cv_any(eng, st, obj, args, node, fr, f):
        v = eng.fresh(f["ret"], "any", st)
        t = eng.ast.ty(f["ret"])
        if t["k"] == "int":
            st.assume(eng.range_fact(v, t))
        return [(st, v)]

    @d("cv::no_leak")
    def cv_noleak(eng, st, obj, args, node, fr, f):
        live = [r for r in st.store if isinstance(r, tuple) and r and r[0] == "heap" and r not in st.dead]
        eng.cur = node.get("loc", eng.cur)
        eng.check(st, BoolVal(not live), "every allocation has been freed")
        return [(st, None)]

    def specfn(eng, f):
        """uninterpreted or recursively defined logical function named by its cv::fn_<name> declaration"""
        h = eng.specfns.get(f["short"])
        if h is None:
            raise Unsupported("no logical function %s" % f["short"])
        return h

    @d("cv::spec")
    def cv_spec(eng, st, obj, args, node, fr, f):
        nm = args[0].what[4:]
        h = eng.specfns.get(nm)
        if h is None:
            raise Unsupported("no logical function %s" % nm)
        vs = []
        for a in args[1:]:
            a = val(st, a)
            if isinstance(a, Ptr):
                a = st.get(Loc(a.root, a.path))
            if isinstance(a, Seq):
                a = a.data
            vs.append(a)
        return [(st, h(*vs))]

    # ---------------------------------------------------------------- fallback
    @d("*")
    def unknown(eng, st, obj, args, node, fr, f):
        rt = eng.ast.ty(f["ret"]) if "ret" in f else {"k": "void"}
        if isinstance(obj, Loc) and not isinstance(st.get(obj), Opaque) and not f.get("const"):
            raise Unsupported("library function %s" % f["plain"])
        for a, p in zip(args, f["params"]):
            t = eng.ast.ty(p["t"])
            if t["k"] == "ref" and not eng.ast.ty(t["to"]).get("const") and isinstance(a, Loc) and not isinstance(st.get(a), Opaque):
                raise Unsupported("library function %s" % f["plain"])
            if t["k"] == "ptr" and isinstance(a, Ptr) and a.root is not None:
                raise Unsupported("library function %s" % f["plain"])
            if t["k"] != "ptr" and isinstance(val(st, a), Ptr) and val(st, a).root is not None:   # an iterator may be written through
                raise Unsupported("library function %s" % f["plain"])
        if rt["k"] == "void":
            return [(st, None)]
        if rt["k"] == "ref":
            if isinstance(obj, Loc):
                return [(st, obj)]
            for a in args:
                if isinstance(a, Loc):
                    return [(st, a)]
            st.store[("opaque",)] = Opaque("lib")
            return [(st, Loc(("opaque",)))]
        if rt["k"] in ("bool", "int", "float"):
            v = eng.fresh(f["ret"], f["short"])
            if rt["k"] == "int":
                st.assume(eng.range_fact(v, rt))
            return [(st, v)]
        return [(st, Opaque(f["plain"]))]

    @d("Opaque::*")
    def opq(eng, st, obj, args, node, fr, f):
        return unknown(eng, st, obj, args, node, fr, f)

    @d("ctor:Opaque", "ctor:Iter")
    def copq(eng, st, rec, f, vs, e, fr):
        if len(vs) == 1:
            v = val(st, vs[0])
            if isinstance(v, (Ptr, Rec)):
                return [(st, v)]
        return [(st, Opaque(rec["plain"]))]

    # ---------------------------------------------------------------- pair
    @d("ctor:std::pair")
    def cpair(eng, st, rec, f, vs, e, fr):
        vs = [val(st, v) for v in vs]
        if len(vs) == 1 and isinstance(vs[0], Rec):
            v = vs[0]
            return [(st, Rec({"first": conv_elem(eng, st, v.f["first"], eng.targ(rec, 0)), "second": conv_elem(eng, st, v.f["second"], eng.targ(rec, 1))}, rec["id"]))]
        if not vs:
            return [(st, Rec({"first": eng.zero(eng.targ(rec, 0)), "second": eng.zero(eng.targ(rec, 1))}, rec["id"]))]
        return [(st, Rec({"first": conv_elem(eng, st, vs[0], eng.targ(rec, 0)), "second": conv_elem(eng, st, vs[1], eng.targ(rec, 1))}, rec["id"]))]

    @d("std::make_pair")
    def mkpair(eng, st, obj, args, node, fr, f):
        return [(st, Rec({"first": val(st, args[0]), "second": val(st, args[1])}))]

    @d("std::pair::operator=")
    def pasg(eng, st, obj, args, node, fr, f):
        v = val(st, args[0])
        cls = eng.ast.records[f["cls"]]
        v = Rec({"first": conv_elem(eng, st, v.f["first"], eng.targ(cls, 0)), "second": conv_elem(eng, st, v.f["second"], eng.targ(cls, 1))}, cls["id"])
        st.put(obj, v)
        return [(st, obj)]

    # ---------------------------------------------------------------- sequences
    @d("ctor:Seq")
    def cseq(eng, st, rec, f, vs, e, fr):
        et = eng.targ(rec, 0)
        empty = eng.zero_seq(rec) if hasattr(eng, "zero_seq") else Seq(IntVal(0), eng.fresh(et, "v", None, 1), "vec")
        args = vs
        pk = [eng.ast.strip(p["t"]) for p in f["params"]]
        if pk and pk[-1]["k"] == "rec" and "allocator" in eng.ast.records[pk[-1]["rec"]]["plain"]:
            args = args[:-1]
            pk = pk[:-1]
        if not args:
            return [(st, empty)]
        v0 = val(st, args[0])
        if isinstance(v0, Seq):
            return [(st, Seq(v0.len, v0.data, "vec"))]
        if len(args) == 1 and isterm(v0):
            eng.check(st, v0 <= MAXL, "requested length is allocatable") if False else None
            if pk[0].get("sg"):
                eng.check(st, v0 >= 0, "vector length is not negative")
            st.assume(v0 <= MAXL)
            return [(st, Seq(v0, lift(default_elem(eng, rec)), "vec"))]
        v1 = val(st, args[1])
        if isinstance(v0, Ptr):
            l, lo, hi = range_of(eng, st, v0, v1, "vector(first,last)")
            if l is None:
                return [(st, empty)]
            src = st.get(l)
            n = z3.simplify(hi - lo)
            if z3.is_int_value(lo) and lo.as_long() == 0:
                return [(st, Seq(n, src.data, "vec"))]
            return [(st, Seq(n, seq_copy(eng, st, src.data, IntVal(0), n, src.data, lo), "vec"))]
        if isterm(v0):
            st.assume(v0 <= MAXL)
            return [(st, Seq(v0, lift(conv_elem(eng, st, v1, et)), "vec"))]
        raise Unsupported("vector constructor")

    MAXL = 2 ** 56

    @d("Seq::size", "Seq::length")
    def size(eng, st, obj, args, node, fr, f):
        return [(st, getseq(eng, st, obj).len)]

    @d("Seq::empty")
    def empty(eng, st, obj, args, node, fr, f):
        return [(st, getseq(eng, st, obj).len == 0)]

    @d("Seq::capacity", "Seq::max_size")
    def capacity(eng, st, obj, args, node, fr, f):
        v = z3.Int(fresh_name("cap"))
        st.assume(And(v >= getseq(eng, st, obj).len, v <= MAXL))
        return [(st, v)]

    @d("Seq::operator[]")
    def sub(eng, st, obj, args, node, fr, f):
        i = val(st, args[0])
        r = eng.index(st, obj, i, "vector subscript")
        if eng.ast.ty(f["ret"])["k"] == "bool":      # constant vector<bool>
            return [(st, val(st, r))]
        return [(st, r)]

    @d("Seq::at")
    def at(eng, st, obj, args, node, fr, f):
        i = val(st, args[0])
        s = getseq(eng, st, obj)
        a, b = eng.branch(st, And(i >= 0, i < s.len))
        if b is not None:
            from .engine import Out
            fr.throws.append(Out("throw", b, "std::out_of_range"))
        if a is None:
            return []
        return [(a, Loc(obj.root, obj.path + (("i", i),)))]

    @d("Seq::front")
    def front(eng, st, obj, args, node, fr, f):
        return [(st, eng.index(st, obj, IntVal(0), "front of vector"))]

    @d("Seq::back")
    def back(eng, st, obj, args, node, fr, f):
        return [(st, eng.index(st, obj, z3.simplify(getseq(eng, st, obj).len - 1), "back of vector"))]

    @d("Seq::begin", "Seq::cbegin", "Seq::data")
    def begin(eng, st, obj, args, node, fr, f):
        getseq(eng, st, obj)
        return [(st, Ptr(obj.root, obj.path, IntVal(0)))]

    @d("Seq::end", "Seq::cend")
    def end(eng, st, obj, args, node, fr, f):
        return [(st, Ptr(obj.root, obj.path, getseq(eng, st, obj).len))]

    @d("Seq::push_back", "Seq::emplace_back", "Seq::push_front_")
    def push(eng, st, obj, args, node, fr, f):
        s = getseq(eng, st, obj)
        v = val(st, args[0])
        rec = eng.ast.records[f["cls"]]
        v = conv_elem(eng, st, v, eng.targ(rec, 0))
        st.assume(s.len < MAXL)
        try:
            nd = sto(s.data, s.len, v)
        except Structural as x:
            if z3.is_int_value(s.len) and s.len.as_long() == 0:
                nd = lift(v)
            else:
                raise Unsupported("push_back: %s" % x)
        st.put(obj, Seq(z3.simplify(s.len + 1), nd, s.kind))
        return [(st, None)]

    @d("Seq::pop_back")
    def pop(eng, st, obj, args, node, fr, f):
        s = getseq(eng, st, obj)
        eng.check(st, s.len > 0, "pop_back of a non-empty vector")
        st.put(obj, Seq(z3.simplify(s.len - 1), s.data, s.kind))
        return [(st, None)]

    @d("Seq::clear")
    def clear(eng, st, obj, args, node, fr, f):
        s = getseq(eng, st, obj)
        st.put(obj, Seq(IntVal(0), s.data, s.kind))
        return [(st, None)]

    @d("Seq::reserve", "Seq::shrink_to_fit")
    def reserve(eng, st, obj, args, node, fr, f):
        return [(st, None)]

    @d("Seq::resize")
    def resize(eng, st, obj, args, node, fr, f):
        s = getseq(eng, st, obj)
        n = val(st, args[0])
        st.assume(And(n >= 0, n <= MAXL))
        rec = eng.ast.records[f["cls"]]
        v = conv_elem(eng, st, val(st, args[1]), eng.targ(rec, 0)) if len(args) > 1 else default_elem(eng, rec)
        if z3.is_int_value(s.len) and s.len.as_long() == 0:
            st.put(obj, Seq(n, lift(v), s.kind))
            return [(st, None)]
        if eng.provable(st, n <= s.len):
            st.put(obj, Seq(n, s.data, s.kind))
            return [(st, None)]
        st.put(obj, Seq(n, seq_fill(eng, st, s.data, s.len, n, v), s.kind))
        return [(st, None)]

    @d("Seq::assign")
    def assign(eng, st, obj, args, node, fr, f):
        s = getseq(eng, st, obj)
        a, b = val(st, args[0]), val(st, args[1])
        if isinstance(a, Ptr):
            l, lo, hi = range_of(eng, st, a, b, "vector::assign")
            if l is None:
                st.put(obj, Seq(IntVal(0), s.data, s.kind))
                return [(st, None)]
            src = st.get(l)
            n = z3.simplify(hi - lo)
            data = src.data if z3.is_int_value(lo) and lo.as_long() == 0 else seq_copy(eng, st, src.data, IntVal(0), n, src.data, lo)
            st.put(obj, Seq(n, data, s.kind))
            return [(st, None)]
        rec = eng.ast.records[f["cls"]]
        st.put(obj, Seq(a, lift(conv_elem(eng, st, b, eng.targ(rec, 0))), s.kind))
        return [(st, None)]

    @d("Seq::insert")
    def insert(eng, st, obj, args, node, fr, f):
        s = getseq(eng, st, obj)
        p = val(st, args[0])
        if len(args) == 2:
            v = val(st, args[1])
            rec = eng.ast.records[f["cls"]]
            v = conv_elem(eng, st, v, eng.targ(rec, 0))
            eng.check(st, And(p.idx >= 0, p.idx <= s.len), "insert position valid")
            mk = arr_def(st, s.data, lambda k, t, w: If(k < p.idx, t[k], If(k == p.idx, w, t[k - 1])), lambda k: [(k < p.idx, k), (k >= p.idx, k + 1)])
            nd = mapv(mk, s.data, v)
            st.put(obj, Seq(s.len + 1, nd, s.kind))
            return [(st, Ptr(obj.root, obj.path, p.idx))]
        if len(args) == 3:
            a, b = val(st, args[1]), val(st, args[2])
            if isterm(a) and not isinstance(a, Ptr):
                rec = eng.ast.records[f["cls"]]
                b = conv_elem(eng, st, b, eng.targ(rec, 0))
                eng.check(st, And(p.idx >= 0, p.idx <= s.len), "insert position valid")
                st.assume(s.len + a <= MAXL)
                if eng.provable(st, p.idx == s.len):
                    nd = seq_fill(eng, st, s.data, s.len, s.len + a, b)
                else:
                    mk = arr_def(st, s.data, lambda k, t, w: If(k < p.idx, t[k], If(k < p.idx + a, w, t[k - a])))
                    nd = mapv(mk, s.data, b)
                st.put(obj, Seq(z3.simplify(s.len + a), nd, s.kind))
                return [(st, p)]
            if isinstance(a, Ptr) and eng.provable(st, p.idx == s.len):
                l, lo, hi = range_of(eng, st, a, b, "vector::insert")
                if l is None:
                    return [(st, p)]
                src = st.get(l)
                st.put(obj, Seq(s.len + (hi - lo), seq_copy(eng, st, s.data, s.len, hi - lo, src.data, lo), s.kind))
                return [(st, p)]
        raise Unsupported("vector::insert form")

    @d("Seq::erase")
    def erase(eng, st, obj, args, node, fr, f):
        s = getseq(eng, st, obj)
        p = val(st, args[0])
        if len(args) == 1:
            eng.check(st, And(p.idx >= 0, p.idx < s.len), "erase position valid")
            n = IntVal(1)
        else:
            q = val(st, args[1])
            eng.check(st, And(p.idx >= 0, p.idx <= q.idx, q.idx <= s.len), "erase range valid")
            n = q.idx - p.idx
        mk = arr_def(st, s.data, lambda k, t: If(k < p.idx, t[k], t[k + n]), lambda k: [(k < p.idx, k), (k >= p.idx + n, k - n)])
        nd = mapv(mk, s.data)
        st.put(obj, Seq(z3.simplify(s.len - n), nd, s.kind))
        return [(st, Ptr(obj.root, obj.path, p.idx))]

    @d("Seq::operator=")
    def sasg(eng, st, obj, args, node, fr, f):
        v = val(st, args[0])
        if not isinstance(v, Seq):
            raise Unsupported("vector assignment")
        st.put(obj, Seq(v.len, v.data, st.get(obj).kind if isinstance(st.get(obj), Seq) else "vec"))
        return [(st, obj)]

    @d("Seq::swap")
    def sswap(eng, st, obj, args, node, fr, f):
        a, b = st.get(obj), st.get(args[0])
        st.put(obj, b)
        st.put(args[0], a)
        return [(st, None)]

    # ---------------------------------------------------------------- iterators of vectors (pointers)
    def it(st, x):
        return val(st, x)

    @d("Iter::operator*")
    def ideref(eng, st, obj, args, node, fr, f):
        return [(st, eng.deref(st, it(st, obj), "iterator"))]

    @d("Iter::operator->")
    def iarrow(eng, st, obj, args, node, fr, f):
        return [(st, it(st, obj))]

    @d("Iter::base")
    def ibase(eng, st, obj, args, node, fr, f):
        return [(st, it(st, obj))]

    @d("Iter::operator[]")
    def isub(eng, st, obj, args, node, fr, f):
        return [(st, eng.deref(st, eng.ptrarith(st, "+", it(st, obj), val(st, args[0])), "iterator"))]

    def istep(op):
        def g(eng, st, obj, args, node, fr, f):
            p = it(st, obj)
            n = eng.ptrarith(st, op, p, IntVal(1))
            st.put(obj, n)
            return [(st, p if args else obj)]
        return g
    T["Iter::operator++"] = istep("+")
    T["Iter::operator--"] = istep("-")

    def iadd(op, asg):
        def g(eng, st, obj, args, node, fr, f):
            n = eng.ptrarith(st, op, it(st, obj), val(st, args[0]))
            if asg:
                st.put(obj, n)
                return [(st, obj)]
            return [(st, n)]
        return g
    T["Iter::operator+"] = iadd("+", False)
    T["Iter::operator-"] = iadd("-", False)
    T["Iter::operator+="] = iadd("+", True)
    T["Iter::operator-="] = iadd("-", True)

    @d("Iter::operator=")
    def iasg(eng, st, obj, args, node, fr, f):
        st.put(obj, it(st, args[0]))
        return [(st, obj)]

    def icmp(op):
        def g(eng, st, obj, args, node, fr, f):
            a = ([obj] if obj is not None else []) + list(args)
            return [(st, eng.compare(st, op, val(st, a[0]), val(st, a[1])))]
        return g
    for op in ("==", "!=", "<", "<=", ">", ">="):
        T["__gnu_cxx::operator" + op] = icmp(op)

    @d("__gnu_cxx::operator-")
    def idiff(eng, st, obj, args, node, fr, f):
        return [(st, eng.ptrarith(st, "-", val(st, args[0]), val(st, args[1])))]

    @d("__gnu_cxx::operator+")
    def iplus(eng, st, obj, args, node, fr, f):
        return [(st, eng.ptrarith(st, "+", val(st, args[0]), val(st, args[1])))]

    # ---------------------------------------------------------------- algorithms
    @d("std::min", "std::max")
    def mm(eng, st, obj, args, node, fr, f):
        a, b = args[0], args[1]
        x, y = val(st, a), val(st, b)
        if len(args) == 3:
            raise Unsupported("min with comparator")
        r = eng.ast.ty(f["ret"])
        c = eng.compare(st, "<", y, x) if f["short"] == "min" else eng.compare(st, "<", x, y)
        v = z3.simplify(If(c, y, x)) if not z3.is_fp(x) else If(c, y, x)
        root = eng.temp(fr, node, "t")
        st.store[root] = v
        return [(st, Loc(root) if r["k"] == "ref" else v)]

    @d("std::swap")
    def swap(eng, st, obj, args, node, fr, f):
        a, b = st.get(args[0]), st.get(args[1])
        st.put(args[0], b)
        st.put(args[1], a)
        return [(st, None)]

    @d("std::move", "std::forward", "std::ref", "std::cref")
    def move(eng, st, obj, args, node, fr, f):
        if len(args) != 1:
            return copy(eng, st, obj, args, node, fr, f)
        return [(st, args[0])]

    @d("std::fill")
    def fill(eng, st, obj, args, node, fr, f):
        l, lo, hi = range_of(eng, st, args[0], args[1], "std::fill")
        if l is None:
            return [(st, None)]
        s = st.get(l)
        v = val(st, args[2])
        pt = eng.ast.strip(f["params"][2]["t"])
        if isinstance(s.data, z3.ExprRef) and isterm(v):
            rs = s.data.sort().range()
            if rs == z3.RealSort():
                v = eng.tofloat(v)
            elif rs == z3.BoolSort():
                v = eng.tobool(v)
            elif rs == z3.IntSort():
                v = eng.toint(v)
        st.put(l, Seq(s.len, seq_fill(eng, st, s.data, lo, hi, v), s.kind))
        return [(st, None)]

    @d("std::fill_n")
    def filln(eng, st, obj, args, node, fr, f):
        p = val(st, args[0])
        n = val(st, args[1])
        q = Ptr(p.root, p.path, p.idx + n)
        fill(eng, st, obj, [p, q, args[2]], node, fr, f)
        return [(st, q)]

    @d("std::copy", "std::copy_n_", "std::uninitialized_copy")
    def copy(eng, st, obj, args, node, fr, f):
        l, lo, hi = range_of(eng, st, args[0], args[1], "std::copy")
        o = val(st, args[2])
        if l is None:
            return [(st, o)]
        n = z3.simplify(hi - lo)
        if not isinstance(o, Ptr) or o.idx is None:
            if isinstance(o, Ptr) and o.root is None:
                eng.check(st, n == 0, "std::copy: destination is not null")
                return [(st, o)]
            if isinstance(o, Opaque) and o.what == "uninit":
                eng.check(st, n == 0, "std::copy: destination is initialised")
                return [(st, o)]
            raise Unsupported("std::copy destination %r" % (o,))
        dl = Loc(o.root, o.path)
        if o.root in st.dead:
            eng.check(st, n == 0, "std::copy: destination is not freed memory")
        if l.root in st.dead:
            eng.check(st, n == 0, "std::copy: source is not freed memory")
        ds = st.get(dl)
        eng.check(st, Implies(n > 0, And(o.idx >= 0, o.idx + n <= eng.seq_len(st, ds))), "std::copy: destination in bounds")
        if o.root == l.root and eng.eqpath(st, o.path, l.path):
            eng.check(st, Or(n == 0, o.idx < lo, o.idx >= hi), "std::copy: destination does not start inside the source")
        ss = st.get(l)
        sd = ss.data
        if isterm(sd) and isterm(ds.data) and sd.sort() != ds.data.sort():
            if ds.data.sort().range() == z3.RealSort() and sd.sort().range() == z3.IntSort():
                k = z3.Int("k!m")
                nn = z3.Const(fresh_name("a"), ds.data.sort())
                st.pc.append(("f", FA([k], nn[k] == If(And(k >= o.idx, k < o.idx + n), z3.ToReal(sd[k - o.idx + lo]), ds.data[k]), [nn[k]])))
                st.put(dl, Seq(ds.len, nn, ds.kind))
                return [(st, Ptr(o.root, o.path, z3.simplify(o.idx + n)))]
            raise Unsupported("std::copy with conversion")
        st.put(dl, Seq(ds.len, seq_copy(eng, st, ds.data, o.idx, n, sd, lo), ds.kind))
        return [(st, Ptr(o.root, o.path, z3.simplify(o.idx + n)))]

    @d("std::__new_allocator::allocate", "std::allocator::allocate")
    def allocate(eng, st, obj, args, node, fr, f):
        tid = eng.targ(eng.ast.records[f["cls"]], 0)
        n = val(st, args[0])
        st.nheap += 1
        r = ("heap", fr.path, nid(node), st.nheap)
        st.store[r] = Seq(n, eng.fresh(tid, "heap", None, 1), "heap()")
        return [(st, Ptr(r, (), IntVal(0)))]

    @d("std::__new_allocator::deallocate", "std::allocator::deallocate")
    def deallocate(eng, st, obj, args, node, fr, f):
        p = val(st, args[0])
        if isinstance(p, Opaque):
            eng.check(st, BoolVal(False), "deallocated pointer is initialised")
            return [(st, None)]
        if p.root is None:
            return [(st, None)]
        heap = isinstance(p.root, tuple) and p.root[0] == "heap" and not p.path and isinstance(st.store.get(p.root), Seq) and st.store[p.root].kind == "heap()"
        eng.check(st, BoolVal(bool(heap)), "deallocated memory was obtained from the allocator")
        eng.check(st, BoolVal(p.root not in st.dead), "memory is not freed twice")
        if heap:
            eng.check(st, p.idx == 0, "deallocated pointer is the start of the block")
            eng.check(st, st.store[p.root].len == val(st, args[1]), "deallocated with the size it was allocated with")
            st.dead = st.dead | {p.root}
        return [(st, None)]

    @d("memcpy", "std::memcpy")
    def memcpy(eng, st, obj, args, node, fr, f):
        e = node["args"][1]
        while e["e"] == "cast" or eng.ast.strip(eng.ast.strip(e["t"]).get("to", e["t"])).get("k") == "void":
            e = e["x"]
        t = eng.ast.strip(eng.ast.strip(e["t"])["to"])
        if t["k"] not in ("int", "float", "bool"):
            raise Unsupported("memcpy of %s" % t["k"])
        sz = max(1, t["w"] // 8)
        b = z3.simplify(val(st, args[2]))
        n = None
        if z3.is_int_value(b):
            n = IntVal(b.as_long() // sz)
        elif b.decl().kind() == z3.Z3_OP_MUL and z3.is_int_value(b.arg(0)) and b.arg(0).as_long() == sz:
            n = z3.simplify(z3.Product(*b.children()[1:]) if b.num_args() > 2 else b.arg(1))
        else:
            n = z3.FreshInt("n")
            st.assume(n * sz == b)
            eng.check(st, b % sz == 0, "whole elements are copied")
        d, q = val(st, args[0]), val(st, args[1])
        if isinstance(q, Ptr) and q.root is None or isinstance(d, Ptr) and d.root is None:
            eng.check(st, n == 0, "memcpy: pointers are not null")
            return [(st, args[0])]
        end = Ptr(q.root, q.path, z3.simplify((q.idx if q.idx is not None else IntVal(0)) + n))
        copy(eng, st, obj, [q, end, d], node, fr, f)
        return [(st, args[0])]

    @d("std::distance")
    def distance(eng, st, obj, args, node, fr, f):
        return [(st, eng.ptrarith(st, "-", val(st, args[1]), val(st, args[0])))]

    @d("std::advance")
    def advance(eng, st, obj, args, node, fr, f):
        p = st.get(args[0])
        st.put(args[0], eng.ptrarith(st, "+", p, val(st, args[1])))
        return [(st, None)]

    @d("std::abs", "std::fabs", "fabs", "abs")
    def fabs(eng, st, obj, args, node, fr, f):
        v = val(st, args[0])
        t = eng.ast.ty(f["ret"])
        if z3.is_fp(v):
            return [(st, z3.fpAbs(v))]
        if t["k"] == "float":
            v = eng.tofloat(v)
            return [(st, If(v >= 0, v, -v))]
        r = If(v >= 0, v, -v)
        return [(st, eng.wrap(st, r, t))]

    # ---------------------------------------------------------------- exponential, logarithm, power (real mode)
    R = z3.RealSort()

    def real_fn(name, nargs, unfold):
        key = ("real", name)
        if key not in eng0.spec_cache:
            from .solver import SpecFn
            eng0.spec_cache[key] = SpecFn(name, [R] * nargs, R, unfold)
        return eng0.spec_cache[key]

    def exp_unfold(x):
        e = EXP()
        out = [e(x) > 0]
        if z3.is_add(x):
            p = e(x.arg(0))
            for i in range(1, x.num_args()):
                p = p * e(x.arg(i))
            out.append(e(x) == p)
        elif z3.is_sub(x):
            p = e(x.arg(0))
            for i in range(1, x.num_args()):
                p = p / e(x.arg(i))
            out.append(e(x) == p)
        elif z3.is_app_of(x, z3.Z3_OP_ITE):
            out.append(e(x) == If(x.arg(0), e(x.arg(1)), e(x.arg(2))))
        elif z3.is_mul(x) and x.num_args() == 2 and z3.is_rational_value(x.arg(0)) and x.arg(0).as_fraction() == -1:
            out.append(e(x) * e(x.arg(1)) == 1)
        elif z3.is_rational_value(x) and x.as_fraction() == 0:
            out.append(e(x) == 1)
        elif z3.is_app_of(x, z3.Z3_OP_UMINUS):
            out.append(e(x) * e(x.arg(0)) == 1)
        return out

    def EXP():
        return real_fn("exp", 1, exp_unfold)

    def LOG():
        return real_fn("log", 1, lambda x: [Implies(x > 0, EXP()(LOG()(x)) == x)])

    def POW():
        return real_fn("pow", 2, lambda x, y: [Implies(x > 0, POW()(x, y) > 0), Implies(y == 1, POW()(x, y) == x), Implies(y == 0, POW()(x, y) == 1)])

    def realfun(F, n):
        def g(eng, st, obj, args, node, fr, f):
            vs = [eng.tofloat(val(st, a)) for a in args]
            if eng.fmode != "real":
                raise Unsupported("elementary function in IEEE mode")
            eng.assumed.add("exp / log / pow are the real functions (functional equations instantiated where they occur)")
            return [(st, F()(*vs))]
        return g
    for nm, F, n in (("exp", EXP, 1), ("log", LOG, 1), ("pow", POW, 2)):
        T[nm] = T["std::" + nm] = realfun(F, n)

    def comparator(eng, st, args, f, i, node):
        """the comparison an algorithm was given, as a function on values: the default <, the standard functors, or
        the operator() of the class it was called with (its real body, evaluated like a specification)"""
        if len(args) <= i:
            return lambda x, y: eng.compare(st, "<", x, y)
        cv = val(st, args[i])
        ct = eng.ast.rec_of(f["params"][i]["t"])
        std = {"std::less": "<", "std::greater": ">", "std::less_equal": "<=", "std::greater_equal": ">="}.get(ct["plain"] if ct else None)
        if std:
            return lambda x, y: eng.compare(st, std, x, y)
        if type(cv).__name__ == "Lam":
            def lam(x, y):
                facts, t = eng.lam_apply(cv, st, [x, y])
                if facts:
                    raise Unsupported("comparator with side conditions")
                return eng.tobool(t)
            return lam
        fs = [g for g in eng.ast.functions.values() if ct and g.get("cls") == ct["id"] and g["short"] == "operator()" and "body" in g]
        if len(fs) != 1 or not isinstance(cv, Rec):
            raise Unsupported("comparator of %s" % f["short"])
        g = fs[0]

        def user(x, y):
            from .engine import Frame
            s2 = st.copy()
            n0 = len(s2.pc)
            s2.store[("cmp", "o")] = cv
            s2.store[("cmp", "x")] = x
            s2.store[("cmp", "y")] = y
            fr = Frame(None, None, ("cmp",))
            eng.silent += 1
            eng.disc += 1
            eng.specmode += 1
            try:
                vs = [Loc(("cmp", n)) if eng.ast.ty(p["t"])["k"] == "ref" else v for n, v, p in (("x", x, g["params"][0]), ("y", y, g["params"][1]))]
                rs = eng.inline(g, Loc(("cmp", "o")), vs, s2, fr, node)
            finally:
                eng.specmode -= 1
                eng.silent -= 1
                eng.disc -= 1
            if fr.throws or not rs:
                raise Unsupported("comparator may throw")
            out = None
            for s3, v in reversed(rs):
                if isinstance(v, Loc):
                    v = s3.get(v)
                facts = [t for _, t in s3.pc[n0:]]
                out = v if out is None else If(And(*facts), v, out)
            return eng.tobool(out)
        eng.functions[g["id"]] = g
        return user

    def bound(eng, st, s, lo, hi, v, cmp, upper):
        """first position whose entry is not below v (lower) / is above v (upper), by the definition of the algorithm"""
        r = z3.Int(fresh_name("ub" if upper else "lb"))
        st.assume(And(r >= lo, r <= hi))
        k, j = z3.Ints("k!m j!m")
        at = lambda i: sel(s.data, i)
        below = (lambda i: Not(cmp(v, at(i)))) if upper else (lambda i: cmp(at(i), v))
        eng.check(st, FA([k, j], Implies(And(lo <= k, k < j, j < hi, below(j)), below(k))), "%s_bound: range is partitioned" % ("upper" if upper else "lower"))
        tr = [at(k)] if isterm(at(k)) else []
        st.pc.append(("f", FA([k], Implies(And(lo <= k, k < r), below(k)), tr)))
        st.pc.append(("f", FA([k], Implies(And(r <= k, k < hi), Not(below(k))), tr)))
        st.pc.append(("f", Implies(r < hi, Not(below(r)))))
        st.pc.append(("f", Implies(r > lo, below(r - 1))))
        return r

    @d("std::lower_bound", "std::upper_bound", "std::equal_range", "std::binary_search")
    def lower(eng, st, obj, args, node, fr, f):
        l, lo, hi = range_of(eng, st, args[0], args[1], f["short"])
        v = val(st, args[2])
        a = val(st, args[0])
        if l is None:
            return [(st, {"equal_range": Rec({"first": a, "second": a}), "binary_search": BoolVal(False)}.get(f["short"], a))]
        s = st.get(l)
        cmp = comparator(eng, st, args, f, 3, node)
        P = lambda r: Ptr(a.root, a.path, r)
        if f["short"] == "upper_bound":
            return [(st, P(bound(eng, st, s, lo, hi, v, cmp, True)))]
        r = bound(eng, st, s, lo, hi, v, cmp, False)
        if f["short"] == "lower_bound":
            return [(st, P(r))]
        if f["short"] == "binary_search":
            return [(st, And(r < hi, Not(cmp(v, sel(s.data, r)))))]
        q = bound(eng, st, s, lo, hi, v, cmp, True)
        st.pc.append(("f", r <= q))   # a strict weak ordering has no entry both below and above v
        rec = eng.ast.rec_of(f["ret"])
        return [(st, Rec({"first": P(r), "second": P(q)}, rec["id"] if rec else None))]

    @d("std::find")
    def find(eng, st, obj, args, node, fr, f):
        l, lo, hi = range_of(eng, st, args[0], args[1], "std::find")
        a = val(st, args[0])
        v = val(st, args[2])
        if l is None:
            return [(st, a)]
        s = st.get(l)
        r = z3.Int(fresh_name("fi"))
        k = z3.Int("k!m")
        st.assume(And(r >= lo, r <= hi))
        st.pc.append(("f", FA([k], Implies(And(lo <= k, k < r), s.data[k] != v), [s.data[k]])))
        st.pc.append(("f", Implies(r < hi, s.data[r] == v)))
        return [(st, Ptr(a.root, a.path, r))]

    def extreme(name, le, lt):
        @d("std::" + name)
        def g(eng, st, obj, args, node, fr, f):
            if len(args) != 2:
                raise Unsupported("std::%s with a comparison" % name)
            l, lo, hi = range_of(eng, st, args[0], args[1], "std::" + name)
            a = val(st, args[0])
            if l is None:
                return [(st, a)]
            s = st.get(l)
            if not isterm(s.data):
                raise Unsupported("std::%s over records" % name)
            r = z3.Int(fresh_name("mx"))
            k = z3.Int("k!m")
            ci = eng.compare
            st.assume(And(r >= lo, r <= hi, Implies(lo < hi, r < hi)))
            st.pc.append(("f", FA([k], Implies(And(lo <= k, k < hi), ci(st, le, s.data[k], s.data[r])), [s.data[k]])))
            st.pc.append(("f", FA([k], Implies(And(lo <= k, k < r), ci(st, lt, s.data[k], s.data[r])), [s.data[k]])))
            return [(st, Ptr(a.root, a.path, r))]
        return g
    extreme("max_element", "<=", "<")
    extreme("min_element", ">=", ">")

    @d("std::sort", "std::stable_sort")
    def sort(eng, st, obj, args, node, fr, f):
        """some permutation of the range, ordered if the order is that of numbers or of pairs of numbers"""
        l, lo, hi = range_of(eng, st, args[0], args[1], "std::sort")
        if l is None:
            return [(st, None)]
        s = st.get(l)
        pi = z3.Function(fresh_name("perm"), z3.IntSort(), z3.IntSort())
        inv = z3.Function(fresh_name("perminv"), z3.IntSort(), z3.IntSort())
        k, j = z3.Int("k!m"), z3.Int("j!m")
        here = And(k >= lo, k < hi)
        st.pc.append(("f", FA([k], Implies(here, And(pi(k) >= lo, pi(k) < hi, inv(pi(k)) == k)), [pi(k)])))
        st.pc.append(("f", FA([k], Implies(here, And(inv(k) >= lo, inv(k) < hi, pi(inv(k)) == k)), [inv(k)])))
        mk = arr_def(st, s.data, lambda k, t: If(And(k >= lo, k < hi), t[pi(k)], t[k]))

        def leaf(t):
            n = mk(t)
            b, at = t, []
            while z3.is_store(b):
                b, i, _ = b.children()
                at.append(i)
            for i in at:
                st.pc.append(("f", Implies(And(i >= lo, i < hi), And(inv(i) >= lo, inv(i) < hi, pi(inv(i)) == i, n[inv(i)] == t[i]))))
            if z3.is_const(b):
                st.pc.append(("f", FA([k], Implies(here, And(inv(k) >= lo, inv(k) < hi, pi(inv(k)) == k, n[inv(k)] == t[k])), [b[k]])))
            return n
        data = mapv(leaf, s.data)
        st.put(l, Seq(s.len, data, s.kind))
        if len(args) == 2:
            if isterm(data) and data.sort().range() in (z3.IntSort(), z3.RealSort()):
                st.pc.append(("f", FA([k, j], Implies(And(k >= lo, k <= j, j < hi), data[k] <= data[j]), [z3.MultiPattern(data[k], data[j])])))
            elif ispair(eng, data) and all(isterm(x) and x.sort().range() in (z3.IntSort(), z3.RealSort()) for x in (data.f["first"], data.f["second"])):
                a, b = data.f["first"], data.f["second"]
                st.pc.append(("f", FA([k, j], Implies(And(k >= lo, k <= j, j < hi), Or(a[k] < a[j], And(a[k] == a[j], b[k] <= b[j]))), [z3.MultiPattern(a[k], a[j])])))
        return [(st, None)]

    @d("std::_Bit_reference::operator=")
    def bitset_(eng, st, obj, args, node, fr, f):
        """an element of a vector<bool> (the proxy is the element)"""
        if not isinstance(obj, Loc):
            raise Unsupported("bit reference %r" % (obj,))
        st.put(obj, eng.tobool(val(st, args[0])))
        return [(st, obj)]

    @d("std::_Bit_reference::operator bool")
    def bitget(eng, st, obj, args, node, fr, f):
        return [(st, eng.tobool(val(st, obj)))]

    @d("std::equal")
    def equal(eng, st, obj, args, node, fr, f):
        l, lo, hi = range_of(eng, st, args[0], args[1], "std::equal")
        if l is None:
            return [(st, BoolVal(True))]
        o = val(st, args[2])
        s, s2 = st.get(l), st.get(Loc(o.root, o.path))
        eng.check(st, And(o.idx >= 0, o.idx + (hi - lo) <= eng.seq_len(st, s2)), "std::equal: second range in bounds")
        b = z3.Bool(fresh_name("eq"))
        k = z3.Int("k!m")
        w = z3.Int(fresh_name("w"))
        st.pc.append(("f", Implies(b, FA([k], Implies(And(lo <= k, k < hi), s.data[k] == s2.data[k - lo + o.idx])))))
        st.pc.append(("f", Implies(Not(b), And(lo <= w, w < hi, s.data[w] != s2.data[w - lo + o.idx]))))
        if l.root == o.root and eng.eqpath(st, l.path, o.path) and z3.is_true(z3.simplify(lo - o.idx == 1)):
            # a sequence equal to itself shifted by one is constant (induction over the position)
            st.pc.append(("f", Implies(b, FA([k], Implies(And(o.idx <= k, k < hi), s.data[k] == s.data[o.idx]), [s.data[k]]))))
        return [(st, b)]

    @d("std::accumulate")
    def accumulate(eng, st, obj, args, node, fr, f):
        """executed by its definition: for(;first != last; ++first) init = op(init, *first)"""
        l, lo, hi = range_of(eng, st, args[0], args[1], "std::accumulate")
        init = val(st, args[2])
        at = eng.ast.strip(f["params"][2]["t"])
        if l is None:
            return [(st, init)]
        s = st.get(l)
        if len(args) == 4:
            ct = eng.ast.rec_of(f["params"][3]["t"])
            op = ct["plain"] if ct else "?"
            oprec = ct
        else:
            op, oprec = "std::plus", None
        h = eng.models.get("fold:" + op)
        lo_, hi_ = z3.simplify(lo), z3.simplify(hi)
        et = eng.ast.ty(eng.targ(oprec, 0)) if oprec and oprec.get("targs") else at
        c = {"std::multiplies": "*", "std::plus": "+"}.get(op)

        def step(s1, acc, x):
            if c is None:
                raise Unsupported("accumulate with %s" % op)
            return eng.convert(s1, eng.arith(s1, c, eng.convert(s1, acc, at, et), eng.convert(s1, x, None, et) if et["k"] == "float" else x, et), et, at)
        if z3.is_int_value(lo_) and z3.is_int_value(hi_) and hi_.as_long() - lo_.as_long() <= 32:
            acc = init
            for i in range(lo_.as_long(), hi_.as_long()):
                acc = step(st, acc, sel(s.data, IntVal(i)))
            return [(st, acc)]
        if h is not None:
            return h(eng, st, s, lo, hi, init, at, oprec)
        if not isterm(s.data):
            raise Unsupported("accumulate over records")
        return [(st, fold_fn(eng, op, step, s.data, init, et, at)(s.data, init, lo, hi))]

    def fold_fn(eng, op, step, data, init, et, at):
        from .engine import State
        from .solver import SpecFn
        key = ("fold", op, str(et.get("s")), str(at.get("s")), str(data.sort()), str(init.sort()))
        fn = eng.spec_cache.get(key)
        if fn is None:
            def unfold(d, i0, lo, hi):
                s1 = State()
                prev = fn(d, i0, lo, hi - 1)
                x = d[hi - 1]
                if at["k"] == "int":
                    s1.assume(eng.range_fact(prev, at))
                eng.specmode += 1
                try:
                    v = step(s1, prev, x)
                finally:
                    eng.specmode -= 1
                app = fn(d, i0, lo, hi)
                out = [app == If(hi <= lo, i0, v)]
                if at["k"] == "int":
                    out.append(Implies(eng.range_fact(i0, at), eng.range_fact(app, at)))
                # folds over sequences that agree are equal (induction over the length)
                if app.get_id() in fn.used:
                    for o in list(fn.used.values())[:8]:
                        if o.get_id() != app.get_id() and not o.arg(0).eq(d):
                            ks = tuple(sorted((o.get_id(), app.get_id())))
                            if ks not in fn.pairs:
                                fn.pairs[ks] = z3.Int(fresh_name("w"))
                            w = fn.pairs[ks]
                            n = hi - lo
                            out.append(Or(o == app, o.arg(1) != i0, o.arg(3) - o.arg(2) != n, And(0 <= w, w < n, d[lo + w] != o.arg(0)[o.arg(2) + w])))
                return out
            fn = SpecFn("accumulate#%d" % len(eng.spec_cache), [data.sort(), init.sort(), z3.IntSort(), z3.IntSort()], init.sort(), unfold)
            fn.used, fn.pairs = {}, {}
            eng.spec_cache[key] = fn

        def mk(d, i0, lo, hi):
            t = fn(d, i0, lo, hi)
            eng.spec_apps.append(t)
            fn.used[t.get_id()] = t
            return t
        return mk

    # ---------------------------------------------------------------- functors
    def functor(op):
        def g(eng, st, obj, args, node, fr, f):
            a, b = val(st, args[0]), val(st, args[1])
            t = eng.ast.ty(f["ret"])
            if op in ("<", ">", "==", "!=", "<=", ">="):
                return [(st, eng.compare(st, op, a, b))]
            if op == "&&":
                return [(st, And(eng.tobool(a), eng.tobool(b)))]
            if op == "||":
                return [(st, Or(eng.tobool(a), eng.tobool(b)))]
            return [(st, eng.arith(st, op, a, b, t))]
        return g
    for n, op in (("plus", "+"), ("minus", "-"), ("multiplies", "*"), ("divides", "/"), ("less", "<"), ("greater", ">"), ("equal_to", "=="),
                  ("not_equal_to", "!="), ("less_equal", "<="), ("greater_equal", ">="), ("logical_and", "&&"), ("logical_or", "||")):
        T["std::%s::operator()" % n] = functor(op)

    # ---------------------------------------------------------------- maps with integer keys
    @d("ctor:Map")
    def cmap(eng, st, rec, f, vs, e, fr):
        vs = [val(st, v) for v in vs]
        if vs and isinstance(vs[0], Rec) and "dom" in vs[0].f:
            return [(st, vs[0])]
        return [(st, eng.zero({"k": "rec", "rec": rec["id"]}))]

    @d("Map::operator[]")
    def mapsub(eng, st, obj, args, node, fr, f):
        k = val(st, args[0])
        m = st.get(obj)
        rec = eng.ast.records[f["cls"]]
        z = eng.zero(eng.targ(rec, 1))
        have = z3.simplify(m.f["dom"][k])
        nv = mapv(lambda o, n: If(have, o, n), sel(m.f["val"], k), z)
        st.put(obj, Rec({"dom": sto(m.f["dom"], k, BoolVal(True)), "val": sto(m.f["val"], k, nv)}, m.rec))
        return [(st, Loc(obj.root, obj.path + (("f", "val"), ("i", k))))]

    @d("Map::find")
    def mapfind(eng, st, obj, args, node, fr, f):
        k = val(st, args[0])
        m = st.get(obj)
        return [(st, Rec({"m": Ptr(obj.root, obj.path), "k": k, "end": z3.simplify(Not(m.f["dom"][k]))}))]

    @d("Map::end", "Map::cend")
    def mapend(eng, st, obj, args, node, fr, f):
        return [(st, Rec({"m": Ptr(obj.root, obj.path), "k": IntVal(0), "end": BoolVal(True)}))]

    @d("Map::count")
    def mapcount(eng, st, obj, args, node, fr, f):
        m = st.get(obj)
        return [(st, If(m.f["dom"][val(st, args[0])], IntVal(1), IntVal(0)))]

    @d("Map::clear")
    def mapclear(eng, st, obj, args, node, fr, f):
        m = st.get(obj)
        st.put(obj, Rec({"dom": z3.K(z3.IntSort(), BoolVal(False)), "val": m.f["val"]}, m.rec))
        return [(st, None)]

    @d("Map::operator=")
    def mapasg(eng, st, obj, args, node, fr, f):
        st.put(obj, val(st, args[0]))
        return [(st, obj)]

    @d("Map::insert")
    def mapins(eng, st, obj, args, node, fr, f):
        v = val(st, args[0])
        m = st.get(obj)
        k = v.f["first"]
        have = z3.simplify(m.f["dom"][k])
        nv = mapv(lambda o, n: If(have, o, n), sel(m.f["val"], k), v.f["second"])
        st.put(obj, Rec({"dom": sto(m.f["dom"], k, BoolVal(True)), "val": sto(m.f["val"], k, nv)}, m.rec))
        return [(st, Rec({"first": Rec({"m": Ptr(obj.root, obj.path), "k": k, "end": BoolVal(False)}), "second": Not(have)}))]

    def miteq(neg):
        def g(eng, st, obj, args, node, fr, f):
            a = ([obj] if obj is not None else []) + list(args)
            x, y = val(st, a[0]), val(st, a[1])
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                return [(st, eng.compare(st, "!=" if neg else "==", x, y))]
            if isinstance(x, Seq) and isinstance(y, Seq):
                b = z3.Bool(fresh_name("veq"))
                k = z3.Int("k!m")
                w = z3.Int(fresh_name("w"))
                def leaves(u, v):
                    if isterm(u) and isterm(v) and not isinstance(u.sort().range(), z3.ArraySortRef):
                        return [(u, v)]
                    if ispair(eng, u) and ispair(eng, v):
                        return leaves(u.f["first"], v.f["first"]) + leaves(u.f["second"], v.f["second"])
                    raise Unsupported("vector comparison of records")
                ls = leaves(x.data, y.data)
                for u, v in ls:
                    st.pc.append(("f", Implies(b, And(x.len == y.len, FA([k], Implies(And(0 <= k, k < x.len), u[k] == v[k]))))))
                st.pc.append(("f", Implies(Not(b), Or(x.len != y.len, And(0 <= w, w < x.len, Or([u[w] != v[w] for u, v in ls]))))))
                return [(st, Not(b) if neg else b)]
            if ispair(eng, x) and ispair(eng, y) and all(isterm(t) for r in (x, y) for t in r.f.values()):
                b = And(eng.compare(st, "==", x.f["first"], y.f["first"]), eng.compare(st, "==", x.f["second"], y.f["second"]))
                return [(st, Not(b) if neg else b)]
            if not isinstance(x, Rec) or "end" not in x.f:
                raise Unsupported("library comparison")
            r = And(x.f["end"] == y.f["end"], Or(x.f["end"], x.f["k"] == y.f["k"]))
            return [(st, Not(r) if neg else r)]
        return g
    T["std::operator=="] = miteq(False)
    T["std::operator!="] = miteq(True)

    for itn in ("std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "std::__detail::_Node_iterator", "std::__detail::_Node_const_iterator"):
        def mitarrow(eng, st, obj, args, node, fr, f):
            x = val(st, obj)
            eng.check(st, Not(x.f["end"]), "map iterator is not end() when dereferenced")
            m = st.get(Loc(x.f["m"].root, x.f["m"].path))
            r = eng.temp(fr, node, "t")
            st.store[r] = Rec({"first": x.f["k"], "second": sel(m.f["val"], x.f["k"])})
            return [(st, Ptr(r) if f["short"] == "operator->" else Loc(r))]
        T[itn + "::operator->"] = mitarrow
        T[itn + "::operator*"] = mitarrow

        def mitasg(eng, st, obj, args, node, fr, f):
            st.put(obj, val(st, args[0]))
            return [(st, obj)]
        T[itn + "::operator="] = mitasg

    return T
