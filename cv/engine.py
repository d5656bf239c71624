"""Verification-condition generation by symbolic execution of the instantiated clang AST of the real code.

Branches are joined, calls use the callee's contract when one is registered and its body otherwise, loops are
cut by inductive invariants (candidates filtered to an inductive subset, Houdini), every proof obligation goes
to the prover together with the path condition."""
import time
import re
import z3
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal, RealVal
from .vals import *
from .solver import Prover, SpecFn

MAXLEN = 2 ** 56
UNROLL = 48


NODE = [0]


def nid(e):
    """number of a syntax node (in the order of first use: reproducible, unlike addresses)"""
    if isinstance(e, dict):
        k = e.get("#id")
        if k is None:
            NODE[0] += 1
            k = e["#id"] = NODE[0]
        return k
    k = getattr(e, "nid", None)
    if k is None:
        NODE[0] += 1
        k = e.nid = NODE[0]
    return k


class Unsupported(Exception):
    pass


class SpecUndefined(Unsupported):
    """dereference of a null pointer in a specification: any value (it is guarded by the quantifier's range)"""


class State:
    __slots__ = ("store", "pc", "nheap", "dead")

    def __init__(self, store=None, pc=None, nheap=0, dead=frozenset()):
        self.store = store if store is not None else {}
        self.pc = pc if pc is not None else []
        self.nheap = nheap
        self.dead = dead

    def copy(self):
        return State(dict(self.store), list(self.pc), self.nheap, self.dead)

    def assume(self, t, kind="f"):
        t = z3.simplify(t) if not z3.is_quantifier(t) else t
        if z3.is_true(t):
            return
        if self.pc and self.pc[-1][1].eq(t):
            return
        self.pc.append((kind, t))

    def facts(self):
        return [e[1] for e in self.pc]

    def get(self, loc):
        v = self.store[loc.root]
        for k, x in loc.path:
            if k == "f":
                v = v.f[x]
            else:
                if isinstance(v, Seq):
                    v = sel(v.data, x)
                else:
                    v = sel(v, x)
        return v

    def put(self, loc, w):
        self.store[loc.root] = upd(self.store[loc.root], loc.path, w)


def upd(v, path, w):
    if not path:
        return w
    k, x = path[0]
    if k == "f":
        return v.set(x, upd(v.f[x], path[1:], w))
    d = v.data if isinstance(v, Seq) else v
    nd = upd(sel(d, x), path[1:], w) if len(path) > 1 else w
    nd = sto(d, x, nd)
    return Seq(v.len, nd, v.kind) if isinstance(v, Seq) else nd


class Lam(Opaque):
    __slots__ = ("node", "fr", "nid")

    def __init__(self, node, fr):
        self.what = "lambda"
        self.node = node
        self.fr = fr


class Out:
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val=None):
        self.kind = kind
        self.st = st
        self.val = val


class Frame:
    def __init__(self, fn, this, path):
        self.fn = fn
        self.this = this
        self.path = path
        self.vars = {}
        self.names = {}
        self.params = []
        self.throws = []


def has_read(t):
    """the term reads an array or applies a logical function"""
    stack, seen = [t], set()
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return True
        if z3.is_select(t) or (t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            return True
        stack.extend(t.children())
    return False


class Ctx:
    """what a unit's invariant generator sees of a loop"""

    def __init__(self, eng, fr, s0, s1, mods, types):
        self.eng = eng
        self.fr = fr
        self.fn = fr.fn["plain"]
        self.s0 = s0
        self.s1 = s1
        self.mods = mods      # list of (root, leafpath, sort)
        self.types = types

    def ints(self):
        out = [(r, p) for r, p, srt in self.mods if srt == z3.IntSort() and not (p and p[-1] == "#len")]
        for r, p, srt in self.mods:              # elements of short arrays
            if p and p[-1] == "#" and isinstance(srt, z3.ArraySortRef) and srt.domain() == z3.IntSort() and srt.range() == z3.IntSort():
                try:
                    n = z3.simplify(leaf_get(self.s0.store[r], p[:-1] + ("#len",)))
                except (KeyError, AttributeError):
                    continue
                if z3.is_int_value(n) and n.as_long() <= 4:
                    out += [(r, p + (("at", i),)) for i in range(n.as_long())]
        return out

    def bools(self):
        return [(r, p) for r, p, srt in self.mods if srt == z3.BoolSort()]

    def reals(self):
        return [(r, p) for r, p, srt in self.mods if srt == z3.RealSort()]

    def arrays(self, rng=None):
        return [(r, p) for r, p, srt in self.mods if isinstance(srt, z3.ArraySortRef) and (rng is None or srt.range() == rng)]

    def seqlens(self):
        return [(r, p) for r, p, srt in self.mods if p and p[-1] == "#len" and srt == z3.IntSort()]

    def leaf(self, s, rp):
        return leaf_get(s.store[rp[0]], rp[1])


def leaf_get(v, path):
    for k in path:
        if k == "#len":
            v = v.len
        elif k == "#":
            v = v.data
        elif k == "#idx":
            v = v.idx
        elif isinstance(k, tuple) and k[0] == "at":
            v = v[k[1]]
        else:
            v = v.f[k]
    return v


def leaf_set(v, path, t):
    if not path:
        return t
    k = path[0]
    if k == "#len":
        return Seq(leaf_set(v.len, path[1:], t), v.data, v.kind)
    if k == "#":
        return Seq(v.len, leaf_set(v.data, path[1:], t), v.kind)
    if k == "#idx":
        return Ptr(v.root, v.path, leaf_set(v.idx, path[1:], t))
    return v.set(k, leaf_set(v.f[k], path[1:], t))


def stable(name):
    """candidate name without the numbers of fresh constants"""
    return re.sub(r"!\d+", "!", name)


class Obligation:
    __slots__ = ("unit", "name", "where", "status", "detail", "backend", "model")

    def __init__(self, unit, name, where, status, detail=None, model=None):
        self.unit, self.name, self.where, self.status, self.detail, self.model = unit, name, where, status, detail, model


class Engine:
    def __init__(self, ast, unit="unit"):
        self.ast = ast
        self.unit = unit
        self.prover = Prover()
        self.obls = []
        self.silent = 0
        self.disc = 0
        self.contracts = {}          # function id -> handler(eng, st, this, args, node, fr) -> [(st, val)]
        self.loop_cands = []         # f(ctx) -> [(name, lambda state: formula)]
        self.loop_measures = []      # f(ctx) -> [(name, lambda state: int term)]
        self.survivors = {}
        self.functions = {}          # functions whose body was executed
        self.assumed = set()
        self.abstract = {}           # record plain name -> model name
        self.nowrap = False
        self.termination = True
        self.fmode = "real"
        self.mark_throw = None
        self.typed = {}
        self.cur = "?"
        self.uid = 0
        self.INF = z3.Real("INF")
        self.notes = []
        self.opaque_calls = set()
        self.field_types = {}
        self.maxdepth = 60
        self.loop_report = {}
        self.specfns = {}
        self.spec_cache = {}
        self.spec_apps = []
        self.goal_apps = []
        self.auto_arrays = True
        self.seq_models = {"std::vector": "Seq", "std::initializer_list": "Seq", "std::deque": "Seq", "std::array": "Seq"}
        from . import models
        self.models = models.table(self)

    # ------------------------------------------------------------------ obligations
    def check(self, st, cond, name, where=None):
        """emit a proof obligation and continue under its truth"""
        if isinstance(cond, bool):
            cond = BoolVal(cond)
        if self.specmode:
            return
        if self.silent:
            st.assume(cond)
            return
        where = where or self.cur
        t0 = time.time()
        ok, info = self.prover.prove(st.facts(), cond)
        if self.verbose_loops:
            print("  obl", ok, name, where, round(time.time() - t0, 2), flush=True)
        ob = Obligation(self.unit, name, where, "proved" if ok else "failed")
        if not ok:
            ob.detail = info[0]
            ob.model = info[1]
            ob.backend = None
        self.obls.append(ob)
        st.assume(cond)

    def provable(self, st, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return not self.prover.feasible(st.pc, Not(cond))

    def branch(self, st, cond):
        """-> (state where cond or None, state where not cond or None)"""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return st, None
        if z3.is_false(c):
            return None, st
        a = b = None
        if self.prover.feasible(st.pc, c):
            a = st.copy()
            a.pc.append(("b", c))
        if a is None:
            st.assume(Not(c))
            return None, st
        if self.prover.feasible(st.pc, Not(c)):
            b = st.copy()
            b.pc.append(("b", z3.simplify(Not(c))))
        else:
            st.assume(c)
            return st, None
        return a, b

    # ------------------------------------------------------------------ joins
    def merge(self, items, base=None):
        """items: [(state, value)] -> joined list (possibly of length 1)"""
        if len(items) <= 1:
            return items
        pcs = [s.pc for s, _ in items]
        n = 0
        m = min(len(p) for p in pcs)
        while n < m and all(p[n] is pcs[0][n] for p in pcs):
            n += 1
        gs = []
        for p in pcs:
            bs = [t for k, t in p[n:] if k == "b"]
            gs.append(z3.simplify(And(*bs)) if bs else BoolVal(True))
        if any(z3.is_true(g) for g in gs):
            return items
        try:
            roots = {}
            dead = items[0][0].dead
            for s, _ in items:
                for r in s.store:
                    roots[r] = 1
            store = {}
            for r in roots:
                have = [(g, s.store[r]) for g, (s, _) in zip(gs, items) if r in s.store]
                v = have[-1][1]
                try:
                    for g, w in reversed(have[:-1]):
                        if not same(w, v):
                            v = self.ite(g, w, v)
                except Structural:
                    if r[0] in ("ref", "t", "c", "o"):
                        continue      # a temporary or a reference that is rebound before its next use
                    raise
                store[r] = v
            val = items[-1][1]
            for g, (_, w) in reversed(list(zip(gs, items))[:-1]):
                if not same_any(w, val):
                    if val is None or w is None:
                        raise Structural("void")
                    val = self.ite(g, w, val)
            defs = []
            for r in store:
                store[r] = self.name_arrays(store[r], items, r, defs)
            val = self.name_arrays(val, None, None, defs) if val is not None and not isinstance(val, (Loc, tuple)) else val
            if any(s.dead != dead for s, _ in items):
                raise Structural("heap")
        except Structural:
            return items
        st = State(store, list(pcs[0][:n]), max(s.nheap for s, _ in items), dead)
        # facts learnt on each branch
        g_or = z3.simplify(Or(*gs))
        if not z3.is_true(g_or):
            st.pc.append(("b", g_or))
        for dfn in defs:
            st.pc.append(("f", dfn))
        for g, p in zip(gs, pcs):
            for kd in "fr":
                fs = [t for k, t in p[n:] if k == kd]
                if kd == "r":
                    # the range of a variable or of an entry of a typed array does not depend on the branch
                    have = set(t.get_id() for _, t in st.pc[n:])
                    for t in fs:
                        if self.plain_range(t) and t.get_id() not in have:
                            have.add(t.get_id())
                            st.pc.append(("r", t))
                    fs = [t for t in fs if not self.plain_range(t)]
                if fs:
                    st.pc.append((kd, Implies(g, And(*fs) if len(fs) > 1 else fs[0])))
        return [(st, val)]

    def plain_range(self, t):
        if z3.is_quantifier(t):
            return True
        xs = t.children() if z3.is_and(t) else [t]
        for x in xs:
            if not (z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE)):
                return False
            a, b = x.arg(0), x.arg(1)
            if z3.is_int_value(a):
                a, b = b, a
            if not z3.is_int_value(b) or not ((z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED) or (z3.is_select(a) and self.typed_root(a) is not None)):
                return False
        return True

    def name_arrays(self, v, items, r, defs):
        """joined arrays get a name (quantifier patterns cannot mention if-then-else)"""
        def f(t):
            if z3.is_app_of(t, z3.Z3_OP_ITE) and isinstance(t.sort(), z3.ArraySortRef):
                n = z3.Const(fresh_name("j"), t.sort())
                defs.append(n == t)
                return n
            return t
        return mapv(f, v) if isinstance(v, (Rec, Seq)) or isterm(v) else v

    def ite(self, g, a, b):
        if isinstance(a, Loc) or isinstance(b, Loc):
            raise Structural("reference")
        if isinstance(a, bool) or isinstance(b, bool):
            raise Structural("py")
        if isinstance(a, Ptr) and isinstance(b, Ptr) and (a.root != b.root or not samepath(a.path, b.path)):
            raise Structural("ptr")
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return a
        if isinstance(a, Opaque) != isinstance(b, Opaque):
            raise Structural("opaque")
        return ite(g, a, b)

    # ------------------------------------------------------------------ types and fresh values
    def rng(self, t):
        w, sg = t.get("w", 32), t.get("sg", True)
        return (-(2 ** (w - 1)), 2 ** (w - 1) - 1) if sg else (0, 2 ** w - 1)

    def range_fact(self, v, t):
        lo, hi = self.rng(t)
        return And(v >= lo, v <= hi)

    def model_of(self, rec):
        p = rec["plain"]
        if p in self.abstract:
            return self.abstract[p]
        if p in self.seq_models:
            return "Seq"
        if p in ("std::map", "std::unordered_map"):
            return "Map"
        if p == "__gnu_cxx::__normal_iterator":
            return "Iter"
        if rec.get("sys") and p not in ("std::pair",):
            return "Opaque"
        return None

    def targ(self, rec, i):
        a = rec["targs"][i]
        return a["t"]

    def fresh(self, tid, base, st=None, dims=0):
        """arbitrary value of the type (scalars unconstrained; ranges are added when read)"""
        t = self.ast.ty(tid) if isinstance(tid, int) else tid

        def lf(sort):
            for _ in range(dims):
                sort = z3.ArraySort(z3.IntSort(), sort)
            return z3.Const(fresh_name(base), sort)
        k = t["k"]
        if k == "ref":
            return Opaque("ref")
        if k == "bool":
            return lf(z3.BoolSort())
        if k == "int":
            c = lf(z3.IntSort())
            if dims and st is not None:
                self.type_array(st, c, t)
            return c
        if k == "float":
            return lf(self.fsort(t))
        if k == "ptr":
            return Opaque("uninit")
        if k == "arr":
            ln = IntVal(t["n"])
            for _ in range(dims):
                ln = z3.K(z3.IntSort(), ln)
            return Seq(ln, self.fresh(t["to"], base, st, dims + 1), "arr")
        if k == "rec":
            rec = self.ast.records[t["rec"]]
            m = self.model_of(rec)
            if m == "Seq":
                ln = lf(z3.IntSort())
                if st is not None and dims == 0:
                    st.assume(And(ln >= 0, ln <= MAXLEN))
                return Seq(ln, self.fresh(self.targ(rec, 0), base, st, dims + 1), "vec")
            if m == "Map":
                kt = self.ast.strip(self.targ(rec, 0))
                if kt["k"] != "int" or dims:
                    return Opaque("map")
                return Rec({"dom": z3.Const(fresh_name(base), z3.ArraySort(z3.IntSort(), z3.BoolSort())),
                            "val": self.fresh(self.targ(rec, 1), base, st, dims + 1)}, rec["id"])
            if m in ("Opaque", "Iter"):
                return Opaque(rec["plain"])
            return Rec({f["n"]: self.fresh(f["t"], base + "." + f["n"], st, dims) for f in self.ast.fields(rec)}, rec["id"])
        return Opaque(t.get("s", "?"))

    def type_array(self, st, c, t):
        """entries of an arbitrary array of integers are in the range of their type"""
        self.typed[c.decl().name()] = t
        ks = []
        e = c
        while isinstance(e.sort(), z3.ArraySortRef):
            ks.append(z3.Int("k!ty%d" % len(ks)))
            e = e[ks[-1]]
        st.pc.append(("r", FA(ks, self.range_fact(e, t), [e])))

    def leaf_type(self, v, p):
        """declared type of the integers in an array inside an object, if it can be read off the class"""
        t = None
        for x in p:
            if isinstance(v, Rec):
                if v.rec is None:
                    return None
                fs = [f for f in self.ast.fields(self.ast.records[v.rec]) if f["n"] == x]
                if len(fs) != 1:
                    return None
                t = self.ast.ty(fs[0]["t"])
                v = v.f[x]
            elif isinstance(v, Seq) and x == "#" and t is not None:
                if t["k"] == "arr":
                    t = self.ast.ty(t["to"])
                elif t["k"] == "rec" and self.model_of(self.ast.records[t["rec"]]) == "Seq":
                    t = self.ast.ty(self.targ(self.ast.records[t["rec"]], 0))
                else:
                    return None
                v = v.data
            else:
                return None
        return t if t is not None and t["k"] == "int" else None

    def arrsort_int(self, c):
        s = c.sort()
        while isinstance(s, z3.ArraySortRef):
            s = s.range()
        return s == z3.IntSort()

    def typed_root(self, t):
        """the array an entry is read from, if its entries are known to be in range"""
        while z3.is_app(t) and (z3.is_select(t) or z3.is_store(t)):
            t = t.arg(0)
        return self.typed.get(t.decl().name()) if z3.is_const(t) else None

    def fsort(self, t=None):
        return z3.RealSort() if self.fmode == "real" else z3.Float64() if not t or t.get("w") == 64 else z3.Float32()

    def zero(self, tid, dims=0):
        t = self.ast.ty(tid) if isinstance(tid, int) else tid
        k = t["k"]

        def lf(v):
            for _ in range(dims):
                v = z3.K(z3.IntSort(), v)
            return v
        if k == "bool":
            return lf(BoolVal(False))
        if k == "int":
            return lf(IntVal(0))
        if k == "float":
            return lf(self.fval("0", t))
        if k == "ptr":
            return NULL
        if k == "arr":
            return Seq(lf(IntVal(t["n"])), self.zero(t["to"], dims + 1), "arr")
        if k == "rec":
            rec = self.ast.records[t["rec"]]
            m = self.model_of(rec)
            if m == "Seq":
                return Seq(lf(IntVal(0)), self.fresh(self.targ(rec, 0), "empty", None, dims + 1), "vec")
            if m == "Map":
                if dims:
                    raise Unsupported("nested map")
                return Rec({"dom": z3.K(z3.IntSort(), BoolVal(False)), "val": self.fresh(self.targ(rec, 1), "m", None, 1)}, rec["id"])
            if m in ("Opaque", "Iter"):
                return Opaque(rec["plain"])
            return Rec({f["n"]: self.zero(f["t"], dims) for f in self.ast.fields(rec)}, rec["id"])
        return Opaque(t.get("s", "?"))

    def fval(self, s, t=None):
        if self.fmode == "real":
            if s == "inf":
                return self.INF
            if s == "-inf":
                return -self.INF
            if s == "nan":
                raise Unsupported("nan")
            return RealVal(s)
        srt = self.fsort(t)
        if s == "inf":
            return z3.fpPlusInfinity(srt)
        if s == "-inf":
            return z3.fpMinusInfinity(srt)
        return z3.fpToFP(z3.RNE(), RealVal(s), srt)

    # ------------------------------------------------------------------ reading
    def read(self, st, loc, t=None):
        try:
            v = st.get(loc)
        except (KeyError, AttributeError) as e:
            raise Unsupported("read of %s: %r" % (loc, e))
        if t is not None and isterm(v) and t["k"] == "int" and z3.is_int(v) and not z3.is_int_value(v):
            st.assume(self.range_fact(v, t), "r")
        return v

    def seq_len(self, st, seq):
        if isterm(seq.len) and not z3.is_int_value(seq.len):
            st.assume(And(seq.len >= 0, seq.len <= MAXLEN), "r")
        return seq.len

    def deref(self, st, p, what="pointer"):
        if isinstance(p, Loc):
            return p
        if isinstance(p, Opaque):
            if p.what == "uninit" and self.specmode:
                raise SpecUndefined()
            if p.what == "uninit":
                self.check(st, BoolVal(False), "%s is initialised when dereferenced" % what)
            raise Unsupported("dereference of %s" % p.what)
        if p.root is None:
            if self.specmode:
                raise SpecUndefined()
            self.check(st, BoolVal(False), "%s is not null when dereferenced" % what)
            raise Unsupported("null dereference")
        if p.root in st.dead:
            self.check(st, BoolVal(False), "%s does not point to freed memory" % what)
        if p.idx is None:
            return Loc(p.root, p.path)
        seq = st.get(Loc(p.root, p.path))
        n = self.seq_len(st, seq)
        self.check(st, And(p.idx >= 0, p.idx < n), "%s in bounds" % what)
        return Loc(p.root, p.path + (("i", p.idx),))

    def index(self, st, loc, i, what="subscript"):
        """element location of a sequence at loc; bounds obligation"""
        seq = st.get(loc)
        if not isinstance(seq, Seq):
            raise Unsupported("subscript of %r" % (seq,))
        n = self.seq_len(st, seq)
        self.check(st, And(i >= 0, i < n), "%s in bounds" % what)
        return Loc(loc.root, loc.path + (("i", i),))

    # ------------------------------------------------------------------ arithmetic
    def wrap(self, st, v, t, what="", neg_ok=False):
        """value of an integer expression of mathematical value v and type t"""
        lo, hi = self.rng(t)
        if z3.is_int_value(v):
            n = v.as_long()
            if lo <= n <= hi:
                return v
            if not t.get("sg"):
                return IntVal(n % (2 ** t["w"]))
        inr = And(v >= lo, v <= hi)
        if t.get("sg"):
            if what == "cast":
                if self.provable(st, inr):
                    return v
                m = 2 ** t["w"]
                return If(v % m > hi, v % m - m, v % m)
            if self.provable(st, inr):
                return v
            if self.nowrap:
                self.assumed.add("signed arithmetic does not overflow (%s)" % self.cur)
                st.assume(inr)
                return v
            self.check(st, inr, "no signed overflow")
            return v
        if self.provable(st, inr):
            return v
        if self.nowrap:
            self.assumed.add("unsigned arithmetic treated as mathematical where not proved to stay in range (%s)" % self.cur)
            st.assume(inr)
            return v
        return v % IntVal(2 ** t["w"])

    def arith(self, st, op, a, b, t, node=None):
        k = t["k"]
        if k == "float":
            a = self.tofloat(a, t)
            b = self.tofloat(b, t)
            if self.fmode == "fp":
                rm = z3.RNE()
                if op == "+":
                    return z3.fpAdd(rm, a, b)
                if op == "-":
                    return z3.fpSub(rm, a, b)
                if op == "*":
                    return z3.fpMul(rm, a, b)
                if op == "/":
                    return z3.fpDiv(rm, a, b)
                raise Unsupported("fp " + op)
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "/":
                self.assumed.add("floating division treated as real division")
                return a / b
            raise Unsupported("float " + op)
        if k == "bool":
            a, b = self.toint(a), self.toint(b)
        if op == "+":
            return self.wrap(st, a + b, t)
        if op == "-":
            return self.wrap(st, a - b, t)
        if op == "*":
            return self.wrap(st, a * b, t)
        if op in "/%":
            self.check(st, b != 0, "divisor is not zero")
            if not t.get("sg") or (self.provable(st, And(a >= 0, b > 0))):
                return a / b if op == "/" else a % b
            q = If(a >= 0, If(b > 0, a / b, -(a / (-b))), If(b > 0, -((-a) / b), (-a) / (-b)))
            return q if op == "/" else a - q * b
        if op in ("<<", ">>"):
            if z3.is_int_value(b):
                m = IntVal(2 ** b.as_long())
                return self.wrap(st, a * m, t) if op == "<<" else a / m
        if op in ("&", "|", "^"):
            if z3.is_bool(a) and z3.is_bool(b):
                r = And(a, b) if op == "&" else Or(a, b) if op == "|" else z3.Xor(a, b)
                return If(r, IntVal(1), IntVal(0))
            if op == "&" and z3.is_int_value(b) and (b.as_long() & (b.as_long() + 1)) == 0 and not t.get("sg"):
                return a % (b + 1)
            if z3.is_int_value(a) and z3.is_int_value(b):
                x, y = a.as_long(), b.as_long()
                return IntVal(x & y if op == "&" else x | y if op == "|" else x ^ y)
            ba, bb = self.asbool01(a), self.asbool01(b)
            if ba is None and z3.is_int(a) and self.provable(st, And(a >= 0, a <= 1)):
                ba = a == 1
            if bb is None and z3.is_int(b) and self.provable(st, And(b >= 0, b <= 1)):
                bb = b == 1
            if ba is not None and bb is not None:
                r = And(ba, bb) if op == "&" else Or(ba, bb) if op == "|" else z3.Xor(ba, bb)
                return If(r, IntVal(1), IntVal(0))
        raise Unsupported("operator %s" % op)

    def asbool01(self, v):
        if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)) and v.arg(1).as_long() == 1 and v.arg(2).as_long() == 0:
            return v.arg(0)
        if z3.is_int_value(v) and v.as_long() in (0, 1):
            return BoolVal(v.as_long() == 1)
        return None

    def tofloat(self, v, t=None):
        if self.fmode == "fp":
            if z3.is_fp(v):
                srt = self.fsort(t)
                return v if v.sort() == srt else z3.fpToFP(z3.RNE(), v, srt)
            if z3.is_bool(v):
                return If(v, self.fval("1", t), self.fval("0", t))
            if z3.is_int_value(v):
                return self.fval(str(v.as_long()), t)
            raise Unsupported("int to fp")
        if z3.is_bool(v):
            return If(v, RealVal(1), RealVal(0))
        if z3.is_int(v):
            return z3.ToReal(v) if not z3.is_int_value(v) else RealVal(v.as_long())
        return v

    def toint(self, v):
        if z3.is_bool(v):
            if z3.is_true(v):
                return IntVal(1)
            if z3.is_false(v):
                return IntVal(0)
            return If(v, IntVal(1), IntVal(0))
        return v

    def tobool(self, v):
        if isinstance(v, Ptr):
            return BoolVal(v.root is not None)
        if z3.is_bool(v):
            return v
        if z3.is_fp(v):
            return Not(z3.fpIsZero(v))
        b = self.asbool01(v)
        return b if b is not None else v != 0

    def compare(self, st, op, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            for v in (a, b):
                if isinstance(v, Opaque) and v.what == "uninit":
                    self.check(st, BoolVal(False), "compared pointer is initialised")
            raise Unsupported("comparison of opaque values %r %r" % (a, b))
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if z3.is_int_value(a) if isterm(a) else False:
                a = NULL
            if z3.is_int_value(b) if isterm(b) else False:
                b = NULL
            if a.root is None or b.root is None:
                r = BoolVal(a.root is None and b.root is None)
                return r if op == "==" else Not(r)
            if a.root == b.root and self.eqpath(st, a.path, b.path):
                if a.idx is None and b.idx is None:
                    r = BoolVal(True)
                    return r if op == "==" else Not(r)
                x = a.idx if a.idx is not None else IntVal(0)
                y = b.idx if b.idx is not None else IntVal(0)
                return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
            if op in ("==", "!=") and (a.root != b.root or self.disjoint(a.path, b.path)):
                return BoolVal(op == "!=")
            if a.root != b.root:
                # distinct objects do not overlap: their order is arbitrary but fixed
                x, y = (z3.Int("base_%s" % (r,)) for r in (a.root, b.root))
                st.assume(x != y)
                return x < y if op in ("<", "<=") else x > y
            raise Unsupported("comparison of pointers to different objects %r %r" % (a, b))
        if z3.is_bool(a) and z3.is_bool(b):
            if op == "==":
                return a == b
            if op == "!=":
                return z3.Xor(a, b)
        if z3.is_fp(a) or z3.is_fp(b):
            a, b = self.tofloat(a), self.tofloat(b)
            return {"==": z3.fpEQ, "!=": lambda x, y: Not(z3.fpEQ(x, y)), "<": z3.fpLT, "<=": z3.fpLEQ, ">": z3.fpGT, ">=": z3.fpGEQ}[op](a, b)
        if z3.is_real(a) != z3.is_real(b):
            a, b = self.tofloat(a), self.tofloat(b)
        a, b = self.toint(a), self.toint(b)
        return {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[op]()

    def eqpath(self, st, p, q):
        if len(p) != len(q):
            return False
        for x, y in zip(p, q):
            if x[0] != y[0]:
                return False
            if isterm(x[1]):
                if not x[1].eq(y[1]) and not self.provable(st, x[1] == y[1]):
                    return False
            elif x[1] != y[1]:
                return False
        return True

    def disjoint(self, p, q):
        for x, y in zip(p, q):
            if x[0] == "f" and y[0] == "f" and x[1] != y[1]:
                return True
            if x[0] != y[0]:
                return False
            if isterm(x[1]) and not x[1].eq(y[1]):
                return False
        return False

    def convert(self, st, v, src, dst, what="cast"):
        """scalar conversion"""
        if dst["k"] == "int":
            if isinstance(v, Ptr):
                raise Unsupported("pointer to integer")
            if z3.is_real(v) or z3.is_fp(v):
                if z3.is_fp(v):
                    raise Unsupported("fp to int")
                if z3.is_app_of(v, z3.Z3_OP_TO_REAL):
                    return v.arg(0)
                r = If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
                self.check(st, self.range_fact(r, dst), "float to integer conversion in range")
                return r
            if z3.is_bool(v):
                return self.toint(v)
            if src is not None and src["k"] == "int":
                a, b = self.rng(src)
                c, d = self.rng(dst)
                if c <= a and b <= d:
                    return v
                if a < 0 and c == 0 and d >= b and not z3.is_int_value(v):   # negative values wrap around
                    return v if self.provable(st, v >= 0) else If(v >= 0, v, v + (d + 1))
            return self.wrap(st, v, dst, "cast")
        if dst["k"] == "float":
            return self.tofloat(v, dst)
        if dst["k"] == "bool":
            return self.tobool(v)
        return v

    # ------------------------------------------------------------------ expressions
    def evs(self, es, st, fr):
        """left to right; -> [(st, [values])]"""
        res = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in res:
                for s2, v in self.ev(e, s, fr):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def ev(self, e, st, fr):
        m = getattr(self, "e_" + e["e"], None)
        if m is None:
            raise Unsupported("expression %s %s (%s)" % (e["e"], e.get("why", ""), e.get("loc", self.cur)))
        if "loc" in e:
            self.cur = e["loc"]
        if self.specmode and e["e"] in ("sub", "un"):
            try:
                return m(e, st, fr)
            except SpecUndefined:
                r = self.temp(fr, e, "undef")
                st.store[r] = self.fresh(e["t"], "undef")
                return [(st, Loc(r))]
        return m(e, st, fr)

    def rvalue(self, e, st, fr):
        """evaluate and read if it is a glvalue"""
        out = []
        for s, v in self.ev(e, st, fr):
            if isinstance(v, Loc) and e.get("lv"):
                v = self.read(s, v, self.ast.strip(e["t"]))
            out.append((s, v))
        return out

    def e_int(self, e, st, fr):
        t = self.ast.ty(e["t"])
        n = int(e["v"])
        return [(st, BoolVal(n != 0) if t["k"] == "bool" else IntVal(n))]

    def e_float(self, e, st, fr):
        return [(st, self.fval(e["v"], self.ast.ty(e["t"])))]

    def e_str(self, e, st, fr):
        return [(st, Opaque("str:" + e.get("v", "")))]

    def e_lambda(self, e, st, fr):
        return [(st, Lam(e, fr))]

    def lam_apply(self, lam, st, terms, kinds=False, guard=None):
        """value of a pure lambda (used in specifications) at the given argument terms -> (facts, term)"""
        self.silent += 1
        self.disc += 1
        self.specmode += 1
        fr = lam.fr
        thr = fr.throws
        fr.throws = []
        save = {}
        try:
            s = st.copy()
            if guard is not None:
                s.pc.append(("f", guard))
            n0 = len(s.pc)
            for p, t in zip(lam.node["params"], terms):
                save[p["id"]] = fr.vars.get(p["id"])
                if isinstance(t, Loc):
                    fr.vars[p["id"]] = t
                    continue
                r = ("v", fr.path, p["id"], nid(lam))
                s.store[r] = t
                fr.vars[p["id"]] = Loc(r)
            outs = self.join(self.ex(lam.node["body"], s, fr))
            outs = [o for o in outs if o.kind == "return"]
            if len(outs) != 1:
                raise Unsupported("lambda in a specification must be one expression")
            v = outs[0].val
            if isinstance(v, Loc):
                v = self.read(outs[0].st, v)
            return [(kd, t) if kinds else t for kd, t in outs[0].st.pc[n0:]], v
        finally:
            self.specmode -= 1
            self.silent -= 1
            self.disc -= 1
            fr.throws = thr
            for k, v in save.items():
                if v is None:
                    fr.vars.pop(k, None)
                else:
                    fr.vars[k] = v

    def e_null(self, e, st, fr):
        return [(st, NULL)]

    def e_zero(self, e, st, fr):
        return [(st, self.zero(e["t"]))]

    def e_this(self, e, st, fr):
        return [(st, Ptr(fr.this.root, fr.this.path) if isinstance(fr.this, Loc) else fr.this)]

    def e_var(self, e, st, fr):
        v = fr.vars.get(e["d"])
        if isinstance(v, tuple):
            p = st.store.get(v[1])
            if not isinstance(p, Ptr):
                raise Unsupported("reference %s is not bound on this path" % e["n"])
            return [(st, Loc(p.root, p.path + ((("i", p.idx),) if p.idx is not None else ())))]
        if v is None:
            if e.get("static"):
                raise Unsupported("static local %s" % e["n"])
            raise Unsupported("unknown variable %s" % e["n"])
        if isinstance(v, Ptr):
            return [(st, Loc(v.root, v.path))]
        return [(st, v)]

    def e_gvar(self, e, st, fr):
        g = self.ast.globals.get(e["d"])
        if g is not None and g.get("init") is not None:
            out = []
            root = ("g", e["d"])
            if root not in st.store:
                for s, v in self.ev(g["init"], st, fr):
                    s.store[root] = v
                    out.append((s, Loc(root)))
                return out
            return [(st, Loc(root))]
        root = ("g", e["d"])
        if root not in st.store:
            st.store[root] = self.fresh(e["t"], "g_" + e["n"])
        return [(st, Loc(root))]

    def e_mem(self, e, st, fr):
        out = []
        for s, b in self.ev(e["b"], st, fr):
            if e.get("arrow"):
                b = self.deref(s, b)
            if isinstance(b, Rec):          # member of a prvalue
                out.append((s, b.f[e["f"]]))
                continue
            if isinstance(b, Opaque):
                raise Unsupported("member %s of opaque %s" % (e["f"], b.what))
            if not isinstance(b, Loc):
                raise Unsupported("member of %r" % (b,))
            loc = Loc(b.root, b.path + (("f", e["f"]),))
            v = s.get(b)
            if not isinstance(v, Rec) or e["f"] not in v.f:
                raise Unsupported("member %s of %s" % (e["f"], type(v).__name__))
            v = v.f[e["f"]]
            ft = self.mem_type(e)
            if ft is not None and ft["k"] == "ref":
                if isinstance(v, Ptr):
                    out.append((s, self.deref(s, v)))
                    continue
                if isinstance(v, Loc):
                    out.append((s, v))
                    continue
                raise Unsupported("reference member %s" % e["f"])
            out.append((s, loc))
        return out

    def mem_type(self, e):
        key = e.get("fid")
        if key not in self.field_types:
            r = None
            if "rec" in e:
                for f in self.ast.records[e["rec"]].get("fields", []):
                    if f["n"] == e["f"]:
                        r = self.ast.ty(f["t"])
            self.field_types[key] = r
        return self.field_types[key]

    def e_memfn(self, e, st, fr):
        return [(st, Opaque("memfn"))]

    def e_func(self, e, st, fr):
        return [(st, ("fn", e["f"]))]

    def e_sub(self, e, st, fr):
        out = []
        for s, (b, i) in self.evs([e["b"], e["i"]], st, fr):
            if isinstance(b, Ptr):
                if isterm(b.idx):
                    i = b.idx + i
                    out.append((s, self.deref(s, Ptr(b.root, b.path, z3.simplify(i)), "subscript")))
                    continue
                if b.root is not None and b.idx is None and z3.is_int_value(i) and i.as_long() == 0:
                    out.append((s, self.deref(s, b)))
                    continue
                out.append((s, self.deref(s, b)))
                raise Unsupported("subscript of a pointer to a single object")
            elif isinstance(b, Loc):
                out.append((s, self.index(s, b, i)))
            else:
                self.deref(s, b, "subscripted pointer")
                raise Unsupported("subscript of %r" % (b,))
        return out

    def e_cast(self, e, st, fr):
        ck = e["ck"]
        out = []
        dst = self.ast.ty(e["t"])
        for s, v in self.ev(e["x"], st, fr):
            if ck == "LValueToRValue":
                if isinstance(v, Loc):
                    v = self.read(s, v, self.ast.strip(e["t"]))
                out.append((s, v))
            elif ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "BitCast", "UserDefinedConversion",
                        "ConstructorConversion", "FunctionToPointerDecay", "LValueBitCast", "Dynamic"):
                out.append((s, v))
            elif ck == "ArrayToPointerDecay":
                if isinstance(v, Loc):
                    out.append((s, Ptr(v.root, v.path, IntVal(0))))
                elif isinstance(v, Opaque):
                    out.append((s, v))
                else:
                    raise Unsupported("array decay")
            elif ck in ("IntegralCast", "IntegralToBoolean", "IntegralToFloating", "FloatingToIntegral", "FloatingCast",
                        "FloatingToBoolean", "BooleanToSignedIntegral", "PointerToBoolean"):
                out.append((s, self.convert(s, v, self.ast.strip(e["x"]["t"]), dst)))
            elif ck == "NullToPointer":
                out.append((s, NULL))
            elif ck == "ToVoid":
                out.append((s, None))
            else:
                raise Unsupported("cast %s" % ck)
        return out

    def e_bin(self, e, st, fr):
        op = e["op"]
        if op in ("&&", "||"):
            return self.shortcircuit(e, st, fr)
        if op == "=":
            out = []
            # right operand first (C++17)
            for s, (r, l) in self.evs([e["r"], e["l"]], st, fr):
                if isinstance(r, Loc) and e["r"].get("lv"):
                    r = self.read(s, r)
                self.assign(s, l, r)
                out.append((s, l))
            return out
        if op == ",":
            return [(s, vs[1]) for s, vs in self.evs([e["l"], e["r"]], st, fr)]
        out = []
        for s, (a, b) in self.evs([e["l"], e["r"]], st, fr):
            out.append((s, self.binop(s, op, a, b, e)))
        return out

    def binop(self, s, op, a, b, e):
        t = self.ast.ty(e["t"])
        if op in ("==", "!=", "<", "<=", ">", ">="):
            r = self.compare(s, op, a, b)
            return r if t["k"] == "bool" else self.toint(r)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptrarith(s, op, a, b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("arith")
        return self.arith(s, op, a, b, t)

    def ptrarith(self, s, op, a, b):
        if op == "-" and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.root != b.root or not self.eqpath(s, a.path, b.path):
                self.check(s, BoolVal(False), "subtracted pointers belong to one object")
                raise Unsupported("pointer difference")
            x = a.idx if a.idx is not None else IntVal(0)
            y = b.idx if b.idx is not None else IntVal(0)
            return z3.simplify(x - y)
        if op == "+" and isinstance(b, Ptr):
            a, b = b, a
        if a.root is None:
            if self.provable(s, b == 0):
                return a
            raise Unsupported("null pointer arithmetic")
        if a.idx is None:
            if self.provable(s, b == 0):
                return a
            raise Unsupported("arithmetic on pointer to single object")
        return Ptr(a.root, a.path, z3.simplify(a.idx + b if op == "+" else a.idx - b))

    def shortcircuit(self, e, st, fr):
        out = []
        for s, a in self.ev(e["l"], st, fr):
            a = self.tobool(a)
            c = a if e["op"] == "&&" else Not(a)
            t, f = self.branch(s, c)
            items = []
            if t is not None:
                for s2, b in self.ev(e["r"], t, fr):
                    items.append((s2, self.tobool(b)))
            if f is not None:
                items.append((f, BoolVal(e["op"] == "||")))
            out += self.merge(items)
        return out

    def e_cond(self, e, st, fr):
        out = []
        for s, c in self.ev(e["c"], st, fr):
            c = self.tobool(c)
            t, f = self.branch(s, c)
            items = []
            if t is not None:
                items += self.ev(e["a"], t, fr)
            if f is not None:
                items += self.ev(e["b"], f, fr)
            out += self.merge(items)
        return out

    def assign(self, s, l, v):
        if not isinstance(l, Loc):
            raise Unsupported("assignment to %r" % (l,))
        old = s.get(l)
        if isinstance(old, Rec) and isinstance(v, Rec) and set(v.f) != set(old.f):
            v = Rec({k: v.f.get(k, old.f[k]) for k in old.f}, old.rec)
        try:
            s.put(l, v)
        except Structural as x:
            raise Unsupported("store: %s" % x)

    def e_cassign(self, e, st, fr):
        out = []
        for s, (r, l) in self.evs([e["r"], e["l"]], st, fr):
            a = self.read(s, l, self.ast.strip(e["l"]["t"]))
            if isinstance(a, Ptr):
                v = self.ptrarith(s, e["op"], a, r)
            else:
                ct, lt = self.ast.ty(e["ct"]), self.ast.strip(e["l"]["t"])
                clt = self.ast.ty(e["clt"])
                a2 = self.convert(s, a, lt, clt)
                v = self.arith(s, e["op"], a2, r, ct)
                v = self.convert(s, v, ct, lt)
            self.assign(s, l, v)
            out.append((s, l))
        return out

    def silent_len(self, st, p):
        try:
            v = st.get(Loc(p.root, p.path))
        except (KeyError, AttributeError, Unsupported):
            return None
        return self.seq_len(st, v) if isinstance(v, Seq) else None

    def e_un(self, e, st, fr):
        op = e["op"]
        out = []
        if op == "&" and e["x"]["e"] == "sub":    # &a[i] may be the end of the array
            for s, (b, i) in self.evs([e["x"]["b"], e["x"]["i"]], st, fr):
                if isinstance(b, Ptr) and b.root is not None and isterm(b.idx) and not self.provable(s, i == 0):
                    d = self.silent_len(s, b)
                    if d is not None:
                        self.check(s, And(b.idx + i >= 0, b.idx + i <= d), "address in or just behind the array")
                        out.append((s, Ptr(b.root, b.path, z3.simplify(b.idx + i))))
                        continue
                out = None
                break
            if out is not None:
                return out
            out = []
        for s, v in self.ev(e["x"], st, fr):
            if op in ("++", "--"):
                t = self.ast.strip(e["x"]["t"])
                a = self.read(s, v, t)
                if isinstance(a, Ptr):
                    n = self.ptrarith(s, op[0], a, IntVal(1))
                elif t["k"] == "float":
                    n = self.arith(s, op[0], a, self.fval("1", t), t)
                else:
                    n = self.wrap(s, a + 1 if op == "++" else a - 1, t)
                self.assign(s, v, n)
                out.append((s, a if e.get("post") else v))
            elif op == "*":
                out.append((s, self.deref(s, v)))
            elif op == "&":
                if isinstance(v, tuple):
                    out.append((s, v))
                elif not isinstance(v, Loc):
                    raise Unsupported("address of %r" % (v,))
                elif v.path and v.path[-1][0] == "i":
                    out.append((s, Ptr(v.root, v.path[:-1], v.path[-1][1])))
                else:
                    out.append((s, Ptr(v.root, v.path)))
            elif op == "!":
                out.append((s, Not(self.tobool(v))))
            elif op == "-":
                t = self.ast.ty(e["t"])
                if t["k"] == "float":
                    out.append((s, z3.fpNeg(v) if z3.is_fp(v) else -v))
                else:
                    out.append((s, self.wrap(s, -v, t)))
            elif op == "+":
                out.append((s, v))
            else:
                raise Unsupported("unary " + op)
        return out

    def temp(self, fr, e, tag="t"):
        return (tag, fr.path, nid(e))

    def e_mtmp(self, e, st, fr):
        out = []
        for s, v in self.ev(e["x"], st, fr):
            if isinstance(v, Loc):
                out.append((s, v))
                continue
            r = self.temp(fr, e)
            s.store[r] = v
            out.append((s, Loc(r)))
        return out

    def e_initlist(self, e, st, fr):
        t = self.ast.ty(e["t"])
        if t["k"] == "arr":
            out = []
            for s, vs in self.evs(e["a"], st, fr):
                n = t["n"]
                d = self.zero(t["to"], 1)
                for i, v in enumerate(vs):
                    if isinstance(v, Loc):
                        v = s.get(v)
                    d = sto(d, IntVal(i), v)
                out.append((s, Seq(IntVal(n), d, "arr")))
            return out
        if t["k"] == "rec":
            rec = self.ast.records[t["rec"]]
            if self.model_of(rec) is None:
                out = []
                for s, vs in self.evs(e["a"], st, fr):
                    fl = self.ast.fields(rec)
                    f = {}
                    for i, x in enumerate(fl):
                        v = vs[i] if i < len(vs) else self.zero(x["t"])
                        f[x["n"]] = s.get(v) if isinstance(v, Loc) else v
                    out.append((s, Rec(f, rec["id"])))
                return out
        if len(e["a"]) == 1:
            return self.ev(e["a"][0], st, fr)
        if not e["a"]:
            return [(st, self.zero(e["t"]))]
        raise Unsupported("initializer list")

    def e_stdinit(self, e, st, fr):
        out = []
        for s, v in self.ev(e["x"], st, fr):
            if isinstance(v, Loc):
                v = s.get(v)
            out.append((s, v))
        return out

    def e_throw(self, e, st, fr):
        tn = self.ast.ty(e["tt"])["s"] if "tt" in e else "?"
        fr.throws.append(Out("throw", st, tn))
        return []

    def e_new(self, e, st, fr):
        if e.get("placement"):
            raise Unsupported("placement new")
        out = []
        items = self.ev(e["n"], st, fr) if e.get("n") is not None else [(st, None)]
        for s, n in items:
            s.nheap += 1
            r = ("heap", fr.path, nid(e), s.nheap)
            if n is not None:
                t = self.ast.ty(e["at"])
                self.check(s, n >= 0, "allocation size is not negative")
                if e.get("init") is not None and e["init"]["e"] in ("zero",):
                    d = self.zero(e["at"], 1)
                else:
                    d = self.fresh(e["at"], "heap", None, 1)
                s.store[r] = Seq(n, d, "heap[]")
                out.append((s, Ptr(r, (), IntVal(0))))
            else:
                s.store[r] = self.fresh(e["at"], "heap")
                if e.get("init") is not None:
                    for s2, v in self.init_value(e["init"], s, fr, Loc(r), e["at"]):
                        if v is not None:
                            s2.store[r] = v
                        out.append((s2, Ptr(r)))
                else:
                    out.append((s, Ptr(r)))
        return out

    def e_delete(self, e, st, fr):
        out = []
        for s, p in self.ev(e["x"], st, fr):
            if isinstance(p, Opaque):
                self.check(s, BoolVal(False), "deleted pointer is initialised" if p.what == "uninit" else "delete of a known pointer")
                out.append((s, None))
                continue
            if p.root is None:
                out.append((s, None))
                continue
            isheap = isinstance(p.root, tuple) and p.root and p.root[0] == "heap"
            if e.get("dtor") is not None and "body" in self.ast.functions.get(e["dtor"], {}):
                if e.get("virtual"):
                    raise Unsupported("virtual destructor")
                if e.get("array"):
                    raise Unsupported("delete[] of objects with destructors")
                if p.root in s.dead:
                    self.check(s, BoolVal(False), "memory is not freed twice")
                rs = self.call(e["dtor"], self.deref(s, p), [], s, fr, e)
                if len(rs) != 1:
                    for s2, _ in rs:
                        if p.root not in s2.dead:
                            s2.dead = s2.dead | {p.root}
                        out.append((s2, None))
                    continue
                s = rs[0][0]
            self.check(s, BoolVal(bool(isheap) and not p.path), "deleted memory was obtained from new")
            self.check(s, BoolVal(p.root not in s.dead), "memory is not freed twice")
            if isheap:
                if p.idx is not None:
                    self.check(s, p.idx == 0, "deleted pointer is the start of the block")
                arr = isinstance(s.store.get(p.root), Seq) and s.store[p.root].kind == "heap[]"
                self.check(s, BoolVal(arr == bool(e.get("array"))), "delete form matches new form")
                s.dead = s.dead | {p.root}
            out.append((s, None))
        return out

    def e_icall(self, e, st, fr):
        out = []
        for s, vs in self.evs([e["fn"]] + e["args"], st, fr):
            f = vs[0]
            if isinstance(f, tuple) and f[0] == "fn":
                out += self.call(f[1], None, vs[1:], s, fr, e)
            else:
                raise Unsupported("indirect call")
        return out

    def e_call(self, e, st, fr):
        f = self.ast.functions.get(e["f"])
        if f is None:
            raise Unsupported("call of unknown function")
        args = e["args"]
        if self.specmode and f["short"] == "operator[]" and f.get("cls") is not None and self.model_of(self.ast.records[f["cls"]]) == "Seq":
            # an index that would wrap around is out of bounds: the entry is arbitrary either way
            args = [a["x"] if a["e"] == "cast" and a["ck"] == "IntegralCast" and self.ast.ty(a["t"])["k"] == "int" and self.ast.strip(a["x"]["t"])["k"] == "int" and self.ast.strip(a["x"]["t"])["w"] > 1 else a for a in args]
        es = ([e["obj"]] if "obj" in e else []) + args
        out = []
        for s, vs in self.evs(es, st, fr):
            obj = None
            args = vs
            if "obj" in e:
                obj = vs[0]
                args = vs[1:]
                if e.get("arrow"):
                    obj = self.deref(s, obj, "object pointer")
            self.cur = e.get("loc", self.cur)
            out += self.call(e["f"], obj, args, s, fr, e)
        return out

    def e_ctor(self, e, st, fr):
        """constructor expression as a prvalue"""
        t = self.ast.ty(e["t"])
        r = self.temp(fr, e, "c")
        out = []
        for s, v in self.construct(e, st, fr, Loc(r), e["t"]):
            if v is None:
                v = s.store[r]
            out.append((s, v))
        return out

    def construct(self, e, st, fr, loc, tid):
        """run constructor e on loc; -> [(st, None)] when done in place or [(st, value)]"""
        f = self.ast.functions.get(e["f"])
        t = self.ast.ty(tid)
        if t["k"] == "arr":
            return [(st, self.fresh(tid, "arr"))]
        if t["k"] != "rec":
            raise Unsupported("constructor of non-record")
        rec = self.ast.records[t["rec"]]
        out = []
        for s, vs in self.evs(e["args"], st, fr):
            m = self.model_of(rec)
            if m is not None:
                h = self.models.get("ctor:" + m)
                if h is None:
                    raise Unsupported("constructor of model %s" % m)
                out += [(s2, v) for s2, v in h(self, s, rec, f, vs, e, fr)]
                continue
            if e.get("copy") and ("body" not in f or f.get("defaulted")) and not (not rec.get("sys") and not self.shallow(rec) and self.ast.nested_copy(rec, "ucopy") and "body" in f):
                v = vs[0]
                if isinstance(v, Loc):
                    v = s.get(v)
                out.append((s, v))
                continue
            if rec.get("sys") and "body" not in f:
                h = self.models.get("ctor:" + rec["plain"])
                if h:
                    out += h(self, s, rec, f, vs, e, fr)
                    continue
            s.store[loc.root] = s.store.get(loc.root)
            init = self.zero(tid) if e.get("zero") else self.fresh(tid, "obj")
            if loc.path:
                s.put(loc, init)
            else:
                s.store[loc.root] = init
            if e.get("zero") and "body" not in f:
                out.append((s, None))
                continue
            if "body" not in f and not f.get("inits"):
                # implicit trivial constructor
                if f.get("params"):
                    raise Unsupported("constructor %s without body" % f["name"])
                out.append((s, None))
                continue
            for s2, _ in self.call(e["f"], loc, vs, s, fr, e):
                out.append((s2, None))
        return out

    def init_value(self, e, st, fr, loc, tid):
        """initialise an object at loc by expression e: -> [(st, value or None if done in place)]"""
        if e["e"] == "ctor":
            return self.construct(e, st, fr, loc, tid)
        t = self.ast.ty(tid)
        out = []
        for s, v in self.ev(e, st, fr):
            if isinstance(v, Loc) and t["k"] != "ref":
                v = s.get(v)
            out.append((s, v))
        return out

    # ------------------------------------------------------------------ calls
    def call(self, fid, obj, args, st, fr, node):
        """obj: Loc of the object, or a prvalue"""
        f = self.ast.functions[fid]
        if fid in self.contracts:
            return self.contracts[fid](self, st, obj, args, node, fr)
        if obj is not None and not isinstance(obj, Loc) and not isinstance(obj, Opaque):
            r = self.temp(fr, node, "o")
            st.store[r] = obj
            obj = Loc(r)
        if f["plain"].startswith("S::"):
            return [(st, self.spec_call(f, st, args))]
        h = self.find_model(f, obj, st)
        if h is not None:
            return h(self, st, obj, args, node, fr, f)
        if f.get("sys") or ("body" not in f and not f.get("defaulted") and not f.get("ctor")):
            if "body" not in f and (f.get("copyassign") or f.get("copyctor")):
                return self.builtin_copy(f, st, obj, args)
            self.opaque_calls.add(f["plain"])
            h = self.models.get("*")
            return h(self, st, obj, args, node, fr, f)
        if (f.get("copyassign")) and (f.get("defaulted") or "body" not in f):
            rec = self.ast.records[f["cls"]]
            if not ("body" in f and not rec.get("sys") and not self.shallow(rec) and self.ast.nested_copy(rec, "uassign")):
                return self.builtin_copy(f, st, obj, args)
        return self.inline(f, obj, args, st, fr, node)

    def spec_call(self, f, st, args):
        """functions of namespace S are logical functions: uninterpreted, with their body as defining equation"""
        terms, shape = [], []
        for a in args:
            v = st.get(a) if isinstance(a, Loc) else a
            if isinstance(v, Ptr) and v.root is not None:
                seq = st.get(Loc(v.root, v.path))
                if isinstance(seq, Seq) and v.idx is not None:
                    lv = leaves(seq)
                    shape.append(("ptr", seq, [p for p, _ in lv]))
                    terms += [t for _, t in lv] + [v.idx]
                    continue
                v = seq
            if isinstance(v, (Opaque, Ptr)) or v is None:
                raise Unsupported("argument of logical function %s" % f["plain"])
            lv = leaves(v)
            shape.append(("val", v, [p for p, _ in lv]))
            terms += [t for _, t in lv]
        key = (f["id"], tuple(str(t.sort()) for t in terms), tuple(k for k, _, _ in shape))
        fn = self.spec_cache.get(key)
        if fn is None:
            rt = self.ast.ty(f["ret"])
            ret = z3.BoolSort() if rt["k"] == "bool" else z3.IntSort() if rt["k"] == "int" else self.fsort(rt)
            fn = SpecFn(f["plain"] + "#%d" % len(self.spec_cache), [t.sort() for t in terms], ret, None)
            shape_ = shape

            def unfold(*ts):
                if "body" not in f:
                    return []
                ts = list(ts)
                s2 = State()
                av = []
                for i, (k, v, ps) in enumerate(shape_):
                    w = v
                    for p in ps:
                        w = leaf_set(w, p, ts.pop(0))
                    root = ("specarg", i)
                    s2.store[root] = w
                    av.append(Loc(root) if k == "val" else Ptr(root, (), ts.pop(0)))
                app = fn.decl(*unfold_args[0])
                fr = Frame(None, None, ("spec", f["id"]))
                self.silent += 1
                self.disc += 1
                self.specmode += 1
                fns = self.functions
                self.functions = {}
                try:
                    rs = self.inline(f, None, av, s2, fr, None)
                finally:
                    self.functions = fns
                    self.specmode -= 1
                    self.silent -= 1
                    self.disc -= 1
                if len(rs) != 1:
                    raise Unsupported("logical function %s is not one expression" % f["plain"])
                s3, v = rs[0]
                if isinstance(v, Loc):
                    v = s3.get(v)
                out = [app == v]
                if rt["k"] == "int":
                    out.append(self.range_fact(app, rt))
                return out
            unfold_args = [None]

            def unfold2(*ts):
                unfold_args[0] = ts
                return unfold(*ts)
            fn.unfold = unfold2
            self.spec_cache[key] = fn
        t = fn.decl(*terms)
        if "body" not in f:                       # declared only: an arbitrary function of its arguments
            rt = self.ast.ty(f["ret"])
            if rt["k"] == "int":
                st.assume(self.range_fact(t, rt))
            return t
        self.spec_apps.append(t)
        return t

    def shallow(self, rec):
        """objects of rec are values of a model: copied as a value"""
        return self.model_of(rec) is not None or bool(self.abstract.get(rec["plain"]))

    def builtin_copy(self, f, st, obj, args):
        v = args[0]
        if isinstance(v, Loc):
            v = st.get(v)
        self.assign(st, obj, v)
        return [(st, obj)]

    def find_model(self, f, obj, st):
        h = self.models.get(f["plain"])
        if h is not None:
            return h
        if "cls" in f:
            rec = self.ast.records[f["cls"]]
            m = self.model_of(rec)
            if m is not None:
                h = self.models.get(m + "::" + f["short"])
                if h is None:
                    h = self.models.get(m + "::*")
                if h is None and not self.abstract.get(rec["plain"]) and "body" in f and not rec.get("sys"):
                    return None
                if h is None and m != "Opaque":
                    raise Unsupported("no model of %s" % f["name"])
                return h
        return None

    def inline(self, f, obj, args, st, fr, node):
        if len(fr.path) > self.maxdepth:
            raise Unsupported("call depth")
        path = fr.path + ((nid(node) if node is not None else 0),)
        if sum(1 for x in fr.path if x == f["id"]) > 0 and False:
            raise Unsupported("recursion")
        nf = Frame(f, obj, path)
        nf.caller = fr
        lam = obj
        if isinstance(obj, Loc):
            try:
                lam = st.get(obj)
            except (KeyError, AttributeError):
                lam = None
        if isinstance(lam, Lam):                  # call of a lambda: its captures are the variables of its frame
            nf.vars.update(lam.fr.vars)
            nf.this = lam.fr.this
        c = fr
        n = 0
        while c is not None:
            if c.fn is not None and c.fn["id"] == f["id"]:
                n += 1
            c = getattr(c, "caller", None)
        if n > 12:
            raise Unsupported("recursive function %s needs a contract" % f["plain"])
        self.functions[f["id"]] = f
        self.bind_params(f, nf, args, st)
        save = self.cur
        outs = []
        states = [st]
        if f.get("ctor"):
            states = self.ctor_inits(f, nf, st)
        rets = []
        for s in states:
            if f.get("body") is None:
                rets.append((s, None))
                continue
            for o in self.ex(f["body"], s, nf):
                if o.kind == "return":
                    rets.append((o.st, o.val))
                elif o.kind == "normal":
                    rets.append((o.st, None))
                else:
                    raise Unsupported("outcome %s at function end" % o.kind)
        fr.throws += nf.throws
        self.cur = save
        # locals of the callee are gone
        merged = self.merge(rets)
        for s, v in merged:
            self.drop_frame(s, nf, v)
        return merged

    def drop_frame(self, s, nf, v):
        keep = set()
        if isinstance(v, (Loc, Ptr)):
            keep.add(v.root)
        for r in nf.vars.values():
            if isinstance(r, Loc) and isinstance(r.root, tuple) and r.root[0] == "v" and r.root[1] == nf.path and r.root not in keep:
                s.store.pop(r.root, None)

    def bind_params(self, f, nf, args, st):
        for i, p in enumerate(f["params"]):
            t = self.ast.ty(p["t"])
            if i >= len(args):
                raise Unsupported("missing argument of %s" % f["name"])
            a = args[i]
            if t["k"] == "ref":
                if not isinstance(a, Loc):
                    if isinstance(a, Ptr) and a.idx is None and self.ast.strip(t)["k"] != "ptr":
                        a = Loc(a.root, a.path)
                    else:
                        r = ("v", nf.path, p["id"])
                        st.store[r] = a
                        a = Loc(r)
                nf.vars[p["id"]] = a
            else:
                if isinstance(a, Loc):
                    a = self.read(st, a, t)
                if t["k"] == "int" and z3.is_int(a) and not z3.is_int_value(a) and not self.silent:
                    pass
                r = ("v", nf.path, p["id"])
                st.store[r] = a
                nf.vars[p["id"]] = Loc(r)
            nf.names[p["n"]] = nf.vars[p["id"]]
            nf.params.append(nf.vars[p["id"]])

    def ctor_inits(self, f, nf, st):
        states = [st]
        for i in f.get("inits", []):
            nxt = []
            for s in states:
                if i.get("x") is None:
                    nxt.append(s)
                    continue
                if "base" in i or "deleg" in i:
                    x = i["x"]
                    if x["e"] != "ctor":
                        for s2, _ in self.ev(x, s, nf):
                            nxt.append(s2)
                        continue
                    bf = self.ast.functions.get(x["f"])
                    for s2, vs in self.evs(x["args"], s, nf):
                        if bf is None or ("body" not in bf and not bf.get("inits")):
                            if x.get("copy"):
                                v = vs[0]
                                v = s2.get(v) if isinstance(v, Loc) else v
                                cur = s2.get(nf.this)
                                if isinstance(v, Rec) and isinstance(cur, Rec):
                                    bt = self.ast.rec_of(x["t"])
                                    names = [y["n"] for y in self.ast.fields(bt)] if bt else []
                                    for n in names:
                                        if n in v.f:
                                            cur = cur.set(n, v.f[n])
                                    s2.put(nf.this, cur)
                            nxt.append(s2)
                            continue
                        for s3, _ in self.call(x["f"], nf.this, vs, s2, nf, x):
                            nxt.append(s3)
                else:
                    loc = Loc(nf.this.root, nf.this.path + (("f", i["f"]),))
                    obj = s.get(nf.this)
                    ft = None
                    for fl in self.ast.fields(self.ast.records[f["cls"]]):
                        if fl["n"] == i["f"]:
                            ft = fl["t"]
                    if ft is not None and self.ast.ty(ft)["k"] == "ref":
                        for s2, v in self.ev(i["x"], s, nf):
                            if not isinstance(v, Loc):
                                raise Unsupported("reference member initialised by temporary")
                            s2.put(nf.this, s2.get(nf.this).set(i["f"], Ptr(v.root, v.path)))
                            nxt.append(s2)
                        continue
                    for s2, v in self.init_value(i["x"], s, nf, loc, ft):
                        if v is not None:
                            t = self.ast.ty(ft)
                            s2.put(nf.this, s2.get(nf.this).set(i["f"], v))
                        nxt.append(s2)
            states = nxt
        return states

    # ------------------------------------------------------------------ statements
    def ex(self, n, st, fr):
        if n is None:
            return [Out("normal", st)]
        m = getattr(self, "s_" + n["s"], None)
        if m is None:
            raise Unsupported("statement %s %s (%s)" % (n["s"], n.get("why", ""), n.get("loc", "")))
        if "loc" in n:
            self.cur = n["loc"]
        return m(n, st, fr)

    def join(self, outs):
        """merge outcomes of the same kind"""
        res = []
        for kind in ("normal", "break", "continue"):
            items = [(o.st, None) for o in outs if o.kind == kind]
            if items:
                res += [Out(kind, s) for s, _ in self.merge(items)]
        rets = [(o.st, o.val) for o in outs if o.kind == "return"]
        if len(rets) > 1:
            rets = self.merge(rets)
        res += [Out("return", s, v) for s, v in rets]
        return res

    def s_block(self, n, st, fr):
        states = [st]
        outs = []
        for b in n["b"]:
            nxt = []
            for s in states:
                for o in self.ex(b, s, fr):
                    if o.kind == "normal":
                        nxt.append(o.st)
                    else:
                        outs.append(o)
            states = nxt
            if not states:
                break
        return outs + [Out("normal", s) for s in states]

    def s_null(self, n, st, fr):
        return [Out("normal", st)]

    def s_expr(self, n, st, fr):
        return [Out("normal", s) for s, _ in self.ev(n["x"], st, fr)]

    def s_decl(self, n, st, fr):
        states = [st]
        for v in n["v"]:
            nxt = []
            for s in states:
                nxt += self.declare(v, s, fr)
            states = nxt
        return [Out("normal", s) for s in states]

    def declare(self, v, s, fr):
        if v.get("static"):
            raise Unsupported("static local variable %s" % v["n"])
        t = self.ast.ty(v["t"])
        r = ("v", fr.path, v["id"])
        if t["k"] == "ref":
            out = []
            for s2, x in self.ev(v["init"], s, fr):
                if not isinstance(x, Loc):
                    s2.store[r] = x
                    x = Loc(r)
                # the binding is per path: keep it in the store as a pointer
                rb = ("ref", fr.path, v["id"])
                if x.path and x.path[-1][0] == "i":
                    s2.store[rb] = Ptr(x.root, x.path[:-1], x.path[-1][1])
                else:
                    s2.store[rb] = Ptr(x.root, x.path)
                out.append(s2)
            fr.vars[v["id"]] = ("ref", ("ref", fr.path, v["id"]))
            return out
        fr.vars[v["id"]] = Loc(r)
        fr.names[v["n"]] = Loc(r)
        if v.get("init") is None:
            s.store[r] = self.fresh(v["t"], v["n"], s)
            return [s]
        out = []
        for s2, x in self.init_value(v["init"], s, fr, Loc(r), v["t"]):
            if x is not None:
                s2.store[r] = x
            out.append(s2)
        return out

    def s_return(self, n, st, fr):
        if n.get("x") is None:
            return [Out("return", st)]
        rt = self.ast.ty(fr.fn["ret"])
        out = []
        for s, v in self.ev(n["x"], st, fr):
            if rt["k"] != "ref" and isinstance(v, Loc):
                v = self.read(s, v, rt)
            out.append(Out("return", s, v))
        return out

    def s_break(self, n, st, fr):
        return [Out("break", st)]

    def s_continue(self, n, st, fr):
        return [Out("continue", st)]

    def s_if(self, n, st, fr):
        pre = [st]
        if n.get("init"):
            pre = [o.st for o in self.ex(n["init"], st, fr)]
        outs = []
        for s0 in pre:
            if n.get("cv"):
                ss = self.declare(n["cv"], s0, fr)
            else:
                ss = [s0]
            for s1 in ss:
                for s, c in self.ev(n["c"], s1, fr):
                    t, f = self.branch(s, self.tobool(c))
                    here = []
                    if t is not None:
                        here += self.ex(n["a"], t, fr)
                    if f is not None:
                        here += self.ex(n["b"], f, fr)
                    outs += self.join(here)
        return outs

    def s_try(self, n, st, fr):
        k = len(fr.throws)
        r = self.ex(n["b"], st, fr)
        if len(fr.throws) > k:
            hs = n.get("h", [])
            if not (hs and hs[0]["all"]):
                raise Unsupported("exception caught by type")
            ts = fr.throws[k:]
            del fr.throws[k:]
            for o in ts:
                r = r + self.ex(hs[0]["b"], o.st, fr)
            r = self.join(r)
        return r

    def s_switch(self, n, st, fr):
        body = n["b"]["b"] if n["b"]["s"] == "block" else [n["b"]]
        # flatten: list of (labels, stmt)
        seq = []
        for b in body:
            labels = []
            while b is not None and b["s"] in ("case", "default"):
                labels.append(b["v"] if b["s"] == "case" else None)
                b = b["b"]
            seq.append((labels, b))
        outs = []
        for s, c in self.ev(n["c"], st, fr):
            c = self.toint(c)
            consts = []
            pos = {}
            for i, (ls, _) in enumerate(seq):
                for l in ls:
                    if l is not None:
                        v = int(l["v"]) if l["e"] == "int" else None
                        if v is None:
                            raise Unsupported("case label")
                        consts.append(v)
                        pos[v] = i
                    else:
                        pos["d"] = i
            rest = s
            starts = []
            for v in consts:
                if rest is None:
                    break
                t, rest = self.branch(rest, c == v)
                if t is not None:
                    starts.append((t, pos[v]))
            if rest is not None:
                starts.append((rest, pos.get("d", len(seq))))
            for s1, i in starts:
                states = [s1]
                done = []
                for _, b in seq[i:]:
                    nx = []
                    for q in states:
                        for o in self.ex(b, q, fr):
                            if o.kind == "normal":
                                nx.append(o.st)
                            elif o.kind == "break":
                                done.append(Out("normal", o.st))
                            else:
                                done.append(o)
                    states = nx
                outs += done + [Out("normal", q) for q in states]
        return self.join(outs)

    # ------------------------------------------------------------------ loops
    def s_for(self, n, st, fr):
        outs = []
        if n.get("init"):
            pre = self.ex(n["init"], st, fr)
        else:
            pre = [Out("normal", st)]
        for o in pre:
            outs += self.loop(n, o.st, fr, n.get("c"), n.get("inc"), n["b"], False)
        return self.join(outs)

    def s_while(self, n, st, fr):
        return self.join(self.loop(n, st, fr, n["c"], None, n["b"], False))

    def s_do(self, n, st, fr):
        return self.join(self.loop(n, st, fr, n["c"], None, n["b"], True))

    def s_rangefor(self, n, st, fr):
        outs = []
        states = [st]
        for k in ("range", "begin", "end"):
            nx = []
            for s in states:
                nx += [o.st for o in self.ex(n[k], s, fr)]
            states = nx
        body = {"s": "block", "b": [n["var"], n["b"]]}
        if "_body" not in n:
            n["_body"] = body
        for s in states:
            outs += self.loop(n, s, fr, n["c"], n["inc"], n["_body"], False)
        return self.join(outs)

    def eval_cond(self, c, st, fr):
        if c is None:
            return [(st, BoolVal(True))]
        return [(s, self.tobool(v)) for s, v in self.ev(c, st, fr)]

    def iterate(self, n, st, fr, c, inc, body, dowhile, first=False):
        """one iteration from st: -> (exits [state], backs [state], other outs).  For do-while the condition is
        evaluated after the body."""
        exits, backs, others = [], [], []

        def run_body(s):
            res = []
            for o in self.join(self.ex(body, s, fr)):
                if o.kind in ("normal", "continue"):
                    res.append(o.st)
                elif o.kind == "break":
                    exits.append(o.st)
                else:
                    others.append(o)
            res = [s for s, _ in self.merge([(s, None) for s in res])]
            return res
        if not dowhile:
            for s, v in self.eval_cond(c, st, fr):
                t, f = self.branch(s, v)
                if f is not None:
                    exits.append(f)
                if t is not None:
                    for s2 in run_body(t):
                        if inc is not None:
                            backs += [q for q, _ in self.ev(inc, s2, fr)]
                        else:
                            backs.append(s2)
        else:
            for s2 in run_body(st):
                for s3, v in self.eval_cond(c, s2, fr):
                    t, f = self.branch(s3, v)
                    if f is not None:
                        exits.append(f)
                    if t is not None:
                        backs.append(t)
        return exits, backs, others

    def loop(self, n, st, fr, c, inc, body, dowhile):
        # 1. concrete unrolling: as long as the condition is decided literally
        cnt0 = len(self.obls)
        thr0 = len(fr.throws)
        try:
            r = self.unroll(n, st.copy(), fr, c, inc, body, dowhile)
        except _NotConcrete:
            r = None
        if r is not None:
            return r
        del self.obls[cnt0:]
        del fr.throws[thr0:]
        return self.symloop(n, st, fr, c, inc, body, dowhile)

    def concrete(self, s, v):
        v = z3.simplify(v)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def unroll(self, n, st, fr, c, inc, body, dowhile):
        outs = []
        cur = st
        k = 0
        skip = dowhile
        while True:
            if k > UNROLL:
                raise _NotConcrete()
            if not skip:
                ev = self.eval_cond(c, cur, fr)
                if len(ev) != 1 or c is None and k > 8:
                    raise _NotConcrete()
                cur, v = ev[0]
                b = self.concrete(cur, v)
                if b is None:
                    raise _NotConcrete()
                if not b:
                    outs.append(Out("normal", cur))
                    return self.join(outs)
            elif k == 0:
                # do-while: only unroll if the condition turns out literal
                pass
            skip = False
            k += 1
            nxt = []
            for o in self.join(self.ex(body, cur, fr)):
                if o.kind in ("normal", "continue"):
                    nxt.append(o.st)
                elif o.kind == "break":
                    outs.append(Out("normal", o.st))
                else:
                    outs.append(o)
            if inc is not None:
                nxt = [q for s in nxt for q, _ in self.ev(inc, s, fr)]
            nxt = [s for s, _ in self.merge([(s, None) for s in nxt])]
            if not nxt:
                return self.join(outs)
            if len(nxt) > 1 or c is None and any(o.kind in ("normal", "return") for o in outs):
                raise _NotConcrete()
            cur = nxt[0]

    def havoc(self, st, mods):
        s = st.copy()
        for (r, p), _ in mods.items():
            v = s.store[r]
            old = leaf_get(v, p)
            nv = z3.Const(fresh_name("h"), old.sort())
            s.store[r] = leaf_set(v, p, nv)
            if isinstance(nv.sort(), z3.ArraySortRef) and self.arrsort_int(nv):
                t = self.typed_root(old) or self.leaf_type(v, p)
                if t is not None:
                    self.type_array(s, nv, t)
            if p and p[-1] == "#len" and z3.is_int(nv):
                s.assume(And(nv >= 0, nv <= MAXLEN))
        return s

    def diff(self, a, b, mods, only):
        """leaves of roots (existing at loop entry) that differ between states a and b; adds to mods"""
        ch = False
        for r in only:
            if r not in b.store or r not in a.store:
                continue
            x, y = a.store[r], b.store[r]
            if x is y or same(x, y):
                continue
            lx = leaves(x)
            try:
                for p, t in lx:
                    u = leaf_get(y, p)
                    if not isterm(u) or u.sort() != t.sort():
                        raise Unsupported("loop changes the structure of a value")
                    if not u.eq(t) and (r, p) not in mods:
                        mods[(r, p)] = 1
                        ch = True
                if not self.sameshape(x, y):
                    raise Unsupported("loop changes where a pointer points")
            except (AttributeError, KeyError):
                raise Unsupported("loop changes the structure of a value")
        return ch

    def sameshape(self, x, y):
        try:
            mapv(lambda a, b: a, x, y)
            return True
        except Structural:
            return False

    inloop = 0

    def symloop(self, *a):
        self.inloop += 1
        try:
            return self.symloop1(*a)
        finally:
            self.inloop -= 1

    def symloop1(self, n, st, fr, c, inc, body, dowhile):
        key = (fr.path, nid(n))
        where = n.get("loc", "?")
        roots = list(st.store.keys())
        # --- which leaves change
        mods = {}
        self.silent += 1
        self.disc += 1
        throws = fr.throws
        try:
            while True:
                s1 = self.havoc(st, mods)
                fr.throws = []
                _, backs, _ = self.iterate(n, s1.copy(), fr, c, inc, body, dowhile)
                if not any([self.diff(s1, b, mods, roots) for b in backs]):
                    break
        finally:
            self.silent -= 1
            self.disc -= 1
            fr.throws = throws
        if not backs:
            pass
        if self.disc:
            s1 = self.havoc(st, mods)
            exits, backs, others = self.iterate(n, s1, fr, c, inc, body, dowhile)
            if dowhile:
                e2, b2, o2 = [], [], []
            return [Out("normal", s) for s in exits] + others
        # --- candidates
        s1 = self.havoc(st, mods)
        cands = self.candidates(n, st, s1, fr, c, mods, dowhile)
        cands += self.derived(n, st, fr, c, inc, body, mods, dowhile)
        key = key + (tuple(sorted(str(m) for m in mods)),)
        known = self.survivors.get(key) if self.inloop > 1 else None
        if known is not None:
            cands = [x for x in cands if stable(x[0]) in known]
        live = []
        facts0 = st.facts()
        for nm, f in cands:
            try:
                g = f(st)
            except (KeyError, AttributeError, z3.Z3Exception):
                continue
            if g is None:
                continue
            if self.prover.prove(facts0 + self.take_side(), g, "template" if nm.startswith("template") else "quick")[0]:
                live.append((nm, f))
        if self.verbose_loops:
            print("  loop", where, fr.fn["plain"], "mods", [(r if isinstance(r, str) else r[0], p) for r, p in mods], "cands", len(cands), "init", len(live))
        self.silent += 1
        throws = fr.throws
        try:
            while True:
                s1 = self.havoc(st, mods)
                for nm, f in live:
                    self.assume_cand(s1, f)
                fr.throws = []
                head = s1.copy()
                exits, backs, others = self.iterate(n, s1, fr, c, inc, body, dowhile)
                drop = set()
                for b in backs:
                    bf = b.facts()
                    for nm, f in live:
                        if nm in drop:
                            continue
                        g = f(b)
                        if not self.prover.prove(bf + self.take_side(), g, "template" if nm.startswith("template") else "quick")[0]:
                            drop.add(nm)
                if not drop:
                    break
                if self.verbose_loops:
                    print("     dropped", sorted(drop))
                live = [x for x in live if x[0] not in drop]
        finally:
            self.silent -= 1
            thr = fr.throws
            fr.throws = throws
        self.survivors[key] = set(stable(nm) for nm, _ in live)
        if self.silent:
            fr.throws = throws + thr
            return [Out("normal", s) for s in exits] + others
        # --- final pass: obligations inside the body, under the invariant
        if self.verbose_loops:
            print("     kept", [nm for nm, _ in live])
        s1 = self.havoc(st, mods)
        for nm, f in live:
            self.assume_cand(s1, f)
        head = s1.copy()
        exits, backs, others = self.iterate(n, s1, fr, c, inc, body, dowhile)
        self.loop_report.setdefault((fr.fn["plain"], where), sorted(nm for nm, _ in live))
        for nm, f in live:
            self.obls.append(Obligation(self.unit, "loop invariant established and preserved: %s" % nm, where, "proved"))
        if self.termination and backs:
            self.check_term(n, fr, st, head, backs, mods, where, c)
        return [Out("normal", s) for s in exits] + others

    side = ()

    def take_side(self):
        """type facts the last evaluated template relies on"""
        r, self.side = list(self.side), ()
        return r

    def assume_cand(self, s, f):
        g = f(s)
        for t in self.take_side():
            s.assume(t, "r")
        s.assume(g)

    verbose_loops = False
    specmode = 0

    def check_term(self, n, fr, st, head, backs, mods, where, c):
        ms = []
        ctx = self.ctx(fr, st, head, mods)
        for g in self.loop_measures:
            ms += g(ctx)
        ints = ctx.ints()
        s1 = head
        bounds = self.bounds
        for x in ints:
            for nm, bt in self.last_bounds.get((fr.path, nid(n)), []):
                ms.append(("%s - counter" % nm, lambda s, x=x, bt=bt: bt - ctx.leaf(s, x)))
                ms.append(("counter - %s" % nm, lambda s, x=x, bt=bt: ctx.leaf(s, x) - bt))
        for x in ints:
            ms.append(("counter", lambda s, x=x: ctx.leaf(s, x)))
        for x in ints:
            for y in ints:
                if x != y:
                    ms.append(("difference of counters", lambda s, x=x, y=y: ctx.leaf(s, x) - ctx.leaf(s, y)))
        for nm, f in ms:
            try:
                m0 = f(head)
                good = True
                for b in backs:
                    m1 = f(b)
                    # well-founded: bounded below at the start of every iteration that continues, and smaller after it
                    if not self.prover.prove(b.facts(), And(m0 >= 0, m1 < m0), "quick")[0]:
                        good = False
                        break
            except (KeyError, AttributeError):
                good = False
            if good:
                self.obls.append(Obligation(self.unit, "loop terminates (measure: %s)" % nm, where, "proved"))
                return
        self.obls.append(Obligation(self.unit, "loop terminates", where, "failed", "no measure found"))

    def ctx(self, fr, s0, s1, mods):
        ml = [(r, p, leaf_get(s1.store[r], p).sort()) for (r, p) in mods]
        return Ctx(self, fr, s0, s1, ml, None)

    bounds = None
    last_bounds = {}

    def candidates(self, n, s0, s1, fr, c, mods, dowhile):
        ctx = self.ctx(fr, s0, s1, mods)
        cands = []
        ints = ctx.ints()
        nm = {}
        for r, p, srt in ctx.mods:
            nm[(r, p)] = "%s%s" % (r if isinstance(r, str) else (r[0] + str(r[2] if len(r) > 2 and r[0] in "v" else r[1:2])), "".join("." + str(k) for k in p))
        for r, p in ints:
            if (r, p) not in nm:
                nm[(r, p)] = "%s[%s]" % (nm[(r, p[:-1])], p[-1][1])
        L = ctx.leaf
        for x in ints:
            x0 = L(s0, x)
            cands.append((nm[x] + ">=entry", lambda s, x=x, x0=x0: L(s, x) >= x0))
            cands.append((nm[x] + "<=entry", lambda s, x=x, x0=x0: L(s, x) <= x0))
        for x in ctx.seqlens():
            x0 = L(s0, x)
            cands.append((nm[x] + ">=entry", lambda s, x=x, x0=x0: L(s, x) >= x0))
            for y in ints:
                y0 = L(s0, y)
                cands.append(("%s~%s" % (nm[x], nm[y]), lambda s, x=x, x0=x0, y=y, y0=y0: L(s, x) - x0 == L(s, y) - y0))
        for x in ctx.bools():
            x0 = L(s0, x)
            cands.append((nm[x] + "==entry", lambda s, x=x, x0=x0: L(s, x) == x0))
        # bounds from the loop condition
        hs = {L(s1, x).get_id(): x for x in ints}
        fresh_ids = set(L(s1, (r, p)).get_id() for r, p, _ in ctx.mods)
        bl = []
        if c is not None:
            self.silent += 1
            thr = fr.throws
            fr.throws = []
            try:
                for s, v in self.eval_cond(c, s1.copy(), fr):
                    for x, b in self.cond_bounds(v, hs, fresh_ids):
                        bl.append((str(b)[:40], b))
                        cands.append((nm[x] + "<=" + str(b)[:40], lambda s, x=x, b=b: L(s, x) <= b))
                        cands.append((nm[x] + ">=" + str(b)[:40], lambda s, x=x, b=b: L(s, x) >= b))
            except Unsupported:
                pass
            finally:
                self.silent -= 1
                fr.throws = thr
        # also bounds compared against anywhere: lengths of sequences in scope are common bounds
        self.last_bounds = dict(self.last_bounds)
        self.last_bounds[(fr.path, nid(n))] = bl
        for i, x in enumerate(ints):
            for y in ints[i + 1:]:
                x0, y0 = L(s0, x), L(s0, y)
                cands.append(("%s~%s" % (nm[x], nm[y]), lambda s, x=x, y=y, x0=x0, y0=y0: L(s, x) - x0 == L(s, y) - y0))
                cands.append(("%s~-%s" % (nm[x], nm[y]), lambda s, x=x, y=y, x0=x0, y0=y0: L(s, x) - x0 == y0 - L(s, y)))
        if self.auto_arrays:
            k = z3.Int("k!f")
            for a in ctx.arrays():
                a0 = L(s0, a)
                for x in ints:
                    x0 = L(s0, x)
                    cands.append(("frame %s outside [entry,%s)" % (nm[a], nm[x]), lambda s, a=a, x=x, x0=x0, a0=a0: FA([k], Implies(Or(k < x0, k >= L(s, x)), L(s, a)[k] == a0[k]))))
                    cands.append(("frame %s outside (%s,entry]" % (nm[a], nm[x]), lambda s, a=a, x=x, x0=x0, a0=a0: FA([k], Implies(Or(k > x0, k <= L(s, x)), L(s, a)[k] == a0[k]))))
                    if x[1] and x[1][-1] == "#idx":
                        cands.append(("frame %s outside (entry,%s]" % (nm[a], nm[x]), lambda s, a=a, x=x, x0=x0, a0=a0: FA([k], Implies(Or(k <= x0, k > L(s, x)), L(s, a)[k] == a0[k]))))
        if self.last_bounds is None:
            self.last_bounds = {}
        for g in self.loop_cands:
            for name, f in g(ctx):
                cands.append((name, f))
        return cands

    def derived(self, n, st, fr, c, inc, body, mods, dowhile):
        """candidate invariants read off one symbolic iteration: what a counter's iteration k wrote, which branch
        it took, and how folds in the specification relate to accumulating variables"""
        out = []
        snap = counter()
        s1 = self.havoc(st, mods)
        self.silent += 1
        self.disc += 1
        thr = fr.throws
        fr.throws = []
        try:
            head = s1.copy()
            exits, backs, others = self.iterate(n, s1, fr, c, inc, body, dowhile)
        except Unsupported:
            return []
        finally:
            self.silent -= 1
            self.disc -= 1
            fr.throws = thr
        if not backs:
            return []
        hv = {}
        for (r, p) in mods:
            hv[(r, p)] = leaf_get(head.store[r], p)
        ints = [m for m in mods if z3.is_int(hv[m])]
        step = {}
        for m in ints:
            ds = set()
            for b in backs:
                d = z3.simplify(leaf_get(b.store[m[0]], m[1]) - hv[m])
                ds.add(d.as_long() if z3.is_int_value(d) else None)
            if len(ds) == 1 and None not in ds:
                step[m] = ds.pop()
        k = z3.Int("k!d")

        def usable(t, sub):
            """only the counter (and values in lockstep with it) and loop-invariant values occur"""
            bad = [False]
            seen = set()
            stack = [t]
            while stack:
                u = stack.pop()
                if u.get_id() in seen:
                    continue
                seen.add(u.get_id())
                if z3.is_quantifier(u) or z3.is_var(u):
                    return False
                if z3.is_const(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    nm = u.decl().name()
                    q = nm.rsplit("!", 1)
                    if len(q) == 2 and q[1].isdigit() and int(q[1]) > snap and u.get_id() not in sub:
                        return False
                    if u.get_id() in hids and u.get_id() not in sub:
                        return False
                stack.extend(u.children())
            return True
        hids = set(t.get_id() for t in hv.values())
        for x in step:
            if step[x] not in (1, -1):
                continue
            up = step[x] == 1
            x0 = leaf_get(st.store[x[0]], x[1])
            subs = []
            for y in step:
                y0 = leaf_get(st.store[y[0]], y[1])
                d = step[y] * step[x]
                subs.append((hv[y], k if y == x else (y0 + d * (k - x0))))
            sub = set(a.get_id() for a, _ in subs)
            inst = lambda t: z3.substitute(t, *subs)

            def rng(s, x=x, x0=x0, up=up):
                cur = leaf_get(s.store[x[0]], x[1])
                return And(x0 <= k, k < cur) if up else And(cur < k, k <= x0)
            nm = "%s%s" % (x[0] if isinstance(x[0], str) else x[0][-1], x[1])
            # branch conditions that held in every iteration that continued
            npc = len(head.pc)
            common = None
            for b in backs:
                cs = {}
                for kd, t in b.pc[npc:]:
                    if kd == "b" or (kd != "r" and z3.is_app(t) and not z3.is_quantifier(t) and has_read(t)):
                        cs[t.get_id()] = t
                common = cs if common is None else {i: t for i, t in common.items() if i in cs}
            for i, t in (common or {}).items():
                if usable(t, sub) and mentions(t, sub):
                    g = inst(t)
                    out.append(("every iteration of %s: %s" % (nm, str(t)[:80].replace("\n", " ")), lambda s, g=g, rng=rng: FA([k], Implies(rng(s), g), self.pats(g, k))))
            if len(backs) != 1:
                continue
            b = backs[0]
            # array writes
            for m in mods:
                a = leaf_get(b.store[m[0]], m[1])
                if not isinstance(a.sort(), z3.ArraySortRef):
                    continue
                a = self.undef(a, b)
                a0 = leaf_get(st.store[m[0]], m[1])
                chain = []
                while z3.is_store(a):
                    chain.append((a.arg(1), a.arg(2)))
                    a = a.arg(0)
                if not a.eq(hv[m]):
                    continue
                for idx, val in chain:
                    if not usable(idx, sub):
                        continue
                    ik = z3.simplify(inst(idx))
                    v2 = z3.substitute(val, (z3.simplify(z3.Select(hv[m], idx)), z3.Select(a0, idx))) if True else val
                    if not usable(v2, sub):
                        continue
                    off = z3.simplify(ik - k)
                    if mentions(off, {k.get_id()}):
                        off2 = None
                        # decreasing or strided index: state it without a shift
                        vk = inst(v2)
                        out.append(("written by %s at %s" % (nm, str(idx)[:30]), lambda s, m=m, ik=ik, vk=vk, rng=rng: FA([k], Implies(rng(s), leaf_get(s.store[m[0]], m[1])[ik] == vk))))
                        continue
                    vk = z3.substitute(inst(v2), (k, k - off))

                    def f(s, m=m, vk=vk, rng=rng, off=off):
                        ar = leaf_get(s.store[m[0]], m[1])
                        return FA([k], Implies(z3.substitute(rng(s), (k, k - off)), ar[k] == vk), [ar[k]])
                    out.append(("written by %s at %s" % (nm, str(idx)[:30]), f))
            # Boolean accumulators
            for m in mods:
                t = leaf_get(b.store[m[0]], m[1])
                if z3.is_bool(t):
                    h = hv[m]
                    b0 = leaf_get(st.store[m[0]], m[1])
                    for val in (True, False):
                        w = z3.simplify(z3.substitute(t, (h, BoolVal(val))))
                        if not usable(w, sub) or z3.is_true(w) or z3.is_false(w):
                            continue
                        g = inst(w)
                        if val:
                            out.append(("all of %s" % nm, lambda s, m=m, g=g, rng=rng, b0=b0: leaf_get(s.store[m[0]], m[1]) == And(b0, FA([k], Implies(rng(s), g), self.pats(g, k)))))
                        else:
                            out.append(("any of %s" % nm, lambda s, m=m, g=g, rng=rng, b0=b0: leaf_get(s.store[m[0]], m[1]) == Or(b0, Not(FA([k], Implies(rng(s), Not(g)), self.pats(g, k))))))
        # folds named by the specification
        for app in self.goal_apps:
            args = app.children()
            for x in ints:
                if not z3.is_int(args[-1]):
                    break
                x0 = leaf_get(st.store[x[0]], x[1])
                for m in mods:
                    if hv[m].sort() != app.sort():
                        continue
                    if m == x:
                        continue
                    for sh in (False, True):
                        if sh and z3.is_int_value(x0) and x0.as_long() == 0:
                            continue

                        def f(s, x=x, m=m, app=app, args=args, sh=sh, x0=x0):
                            cur = leaf_get(s.store[x[0]], x[1])
                            return leaf_get(s.store[m[0]], m[1]) == app.decl()(*(args[:-1] + [cur - x0 if sh else cur]))
                        out.append(("%s = %s up to %s%s" % (m, app.decl().name(), x, " (shifted)" if sh else ""), f))
        return out

    def pats(self, g, k):
        from .models import auto_patterns
        return auto_patterns(k, g)

    def undef(self, a, st):
        """array constant introduced for a join -> its definition, when that is a plain term"""
        if z3.is_const(a):
            for _, t in reversed(st.pc):
                if z3.is_eq(t) and t.arg(0).eq(a):
                    return t.arg(1)
        return a

    def cond_bounds(self, v, hs, fresh_ids):
        out = []
        v = z3.simplify(v, arith_lhs=False)

        def clean(t):
            st = [t]
            while st:
                u = st.pop()
                if u.get_id() in fresh_ids:
                    return False
                st.extend(u.children())
            return True

        def rec(t):
            if z3.is_and(t) or z3.is_or(t) or z3.is_not(t) or (z3.is_app_of(t, z3.Z3_OP_ITE) and z3.is_bool(t)):
                for ch in t.children():
                    rec(ch)
                return
            if z3.is_app(t) and t.num_args() == 2 and z3.is_int(t.arg(0)):
                a, b = t.arg(0), t.arg(1)
                for p, q in ((a, b), (b, a)):
                    if p.get_id() in hs and clean(q):
                        out.append((hs[p.get_id()], q))
                    elif z3.is_app_of(p, z3.Z3_OP_ITE) or z3.is_mod(p) or z3.is_mul(p):
                        # a converted or scaled counter
                        xs = [x for h, x in hs.items() if mentions(p, {h})]
                        if len(xs) == 1 and clean(q):
                            out.append((xs[0], q))
                    else:
                        # p = x + const  or  x + y
                        for h, x in hs.items():
                            for ch in p.children() if z3.is_add(p) else []:
                                if ch.get_id() == h:
                                    d = z3.simplify(q - p + ch)
                                    if clean(d):
                                        out.append((x, d))
        rec(v)
        res, seen = [], set()
        for x, d in out:
            key = (str(x), d.get_id())
            if key not in seen:
                seen.add(key)
                res.append((x, d))
        return res


def counter():
    from . import vals
    return vals._n[0]


def mentions(t, ids):
    seen, stack = set(), [t]
    while stack:
        u = stack.pop()
        if u.get_id() in ids:
            return True
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        stack.extend(u.children())
    return False


class _NotConcrete(Exception):
    pass


def same_any(a, b):
    if isinstance(a, Loc) and isinstance(b, Loc):
        return a.root == b.root and samepath(a.path, b.path)
    if isinstance(a, tuple) or isinstance(b, tuple):
        return a == b
    return same(a, b)
