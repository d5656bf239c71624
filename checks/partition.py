"""Disjoint-set partition: opengm/datastructures/partition.hxx"""
import z3
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal, ForAll, Select, Store, Xor
from cv.unit import *

I = z3.IntSort()
AI = z3.ArraySort(I, I)
P = "opengm::Partition::"
k = z3.Int("k!p")

cnt = SpecFn("roots", [AI, I], I, lambda a, n: cnt(a, n) == If(n <= 0, 0, cnt(a, n - 1) + If(a[n - 1] == n - 1, 1, 0)))

L_eq = Lemma("roots_ext", [AI, AI, I], lambda a, b, n: And(n >= 0, FA([k], Implies(And(0 <= k, k < n), (a[k] == k) == (b[k] == k)))),
             lambda a, b, n: cnt(a, n) == cnt(b, n))
L_one = Lemma("roots_drop_one", [AI, AI, I, I], lambda a, b, r, n: And(n >= 0, r >= 0, a[r] == r, b[r] != r, FA([k], Implies(And(0 <= k, k < n, k != r), (a[k] == k) == (b[k] == k)))),
              lambda a, b, r, n: cnt(b, n) == cnt(a, n) - If(r < n, 1, 0))


def wf(n, par, rep, d):
    """representation invariant of the forest with ghost representative map rep and depth d"""
    return [
        FA([k], Implies(And(0 <= k, k < n), And(par[k] >= 0, par[k] < n)), [par[k]]),
        FA([k], Implies(And(0 <= k, k < n), And(rep[k] >= 0, rep[k] < n, par[rep[k]] == rep[k], rep[rep[k]] == rep[k])), [rep[k]]),
        FA([k], Implies(And(0 <= k, k < n), rep[par[k]] == rep[k]), [par[k]]),
        FA([k], Implies(And(0 <= k, k < n, par[k] == k), rep[k] == k), [par[k]]),
        FA([k], Implies(And(0 <= k, k < n), And(d[k] >= 0, (par[k] == k) == (d[k] == 0), Implies(par[k] != k, d[par[k]] < d[k]))), [par[k]]),
    ]


class PS:
    def __init__(self, u, f):
        self.this = u.this(f)
        o = u.st.get(self.this)
        self.rep = z3.Const("rep", AI)
        self.d = z3.Const("depth", AI)
        self.n = o.f["numberOfElements_"]
        self.par = o.f["parents_"].data
        self.sets = o.f["numberOfSets_"]
        u.assume(o.f["parents_"].len == self.n, o.f["ranks_"].len == self.n, self.n >= 0, self.n <= 2**48)
        u.assume(*wf(self.n, self.par, self.rep, self.d))
        u.assume(self.sets == cnt(self.par, self.n))
        u.assume(self.sets >= 0)


def view(st, loc):
    o = st.get(loc)
    return o.f["numberOfElements_"], o.f["parents_"], o.f["ranks_"], o.f["numberOfSets_"]


def check_wf(u, o, this, rep, d, what=""):
    n, par, rk, sets = view(o.st, this)
    u.post(o, "parents has one entry per element", par.len == n)
    u.post(o, "ranks has one entry per element", rk.len == n)
    nm = ["parent is an element", "parent and element have one representative, which is a root", "representative constant along parents", "roots represent themselves", "forest is acyclic"]
    for a, b in zip(nm, wf(n, par.data, rep, d)):
        u.post(o, "invariant: " + a, b)


def root_cands(ps):
    def g(ctx):
        L = ctx.leaf
        res = []
        for x in ctx.ints():
            res.append(("in range", lambda s, x=x: And(L(s, x) >= 0, L(s, x) < ps.n)))
            x0 = L(ctx.s0, x)
            res.append(("same set as at entry", lambda s, x=x, x0=x0: ps.rep[L(s, x)] == ps.rep[x0]))
        for a in ctx.arrays(I):
            for i, f in enumerate(wf(ps.n, ctx.leaf(ctx.s0, a), ps.rep, ps.d)):
                res.append(("wf%d" % i, lambda s, a=a, i=i: wf(ps.n, L(s, a), ps.rep, ps.d)[i]))
            a0 = L(ctx.s0, a)
            res.append(("root status kept", lambda s, a=a, a0=a0: FA([k], Implies(And(0 <= k, k < ps.n), (L(s, a)[k] == k) == (a0[k] == k)), [L(s, a)[k], a0[k]])))
        res = [(n + str(i), f) for i, (n, f) in enumerate(res)]
        return res
    return g


def depth_measure(ps):
    def g(ctx):
        return [("depth", lambda s, x=x: ps.d[ctx.leaf(s, x)]) for x in ctx.ints()]
    return g


def find_const(u):
    f = u.fn(P + "find", const=True)
    ps = PS(u, f)
    x = u.arg(f, 0)
    u.assume(u.v(x) < ps.n)
    u.cands(root_cands(ps))
    u.measures(depth_measure(ps))
    for o in u.call(f, ps.this, [x]):
        u.post(o, "no exception", BoolVal(o.kind == "normal"))
        u.post(o, "find returns the representative", o.val == ps.rep[u.v(x, u.old)])
        u.frame(o)


def find_mut(u):
    f = u.fn(P + "find", const=False)
    ps = PS(u, f)
    x = u.arg(f, 0)
    u.assume(u.v(x) < ps.n)
    u.cands(root_cands(ps))
    u.measures(depth_measure(ps))
    for o in u.call(f, ps.this, [x]):
        u.post(o, "no exception", BoolVal(o.kind == "normal"))
        u.post(o, "find returns the representative", o.val == ps.rep[u.v(x, u.old)])
        check_wf(u, o, ps.this, ps.rep, ps.d)
        n, par, rk, sets = view(o.st, ps.this)
        u.lemma(o.st, L_eq, ps.par, par.data, ps.n)
        u.post(o, "number of sets is the number of roots", sets == cnt(par.data, n))
        u.frame(o, except_=[("this", "parents_")])


L_grow = Lemma("roots_of_fresh_elements", [AI, AI, I, I], lambda a, b, n, m: And(n >= 0, m >= 0, FA([k], Implies(And(0 <= k, k < n), (a[k] == k) == (b[k] == k))), FA([k], Implies(And(n <= k, k < n + m), b[k] == k))),
               lambda a, b, n, m: cnt(b, n + m) == cnt(b, n) + m)
L_mono = Lemma("roots_monotone", [AI, I, I], lambda a, n, m: And(n >= 0, m >= 0), lambda a, n, m: And(cnt(a, n) <= cnt(a, n + m), cnt(a, n + m) <= cnt(a, n) + m))
L_nn = Lemma("roots_nonnegative", [AI, I], lambda a, n: n >= 0, lambda a, n: And(cnt(a, n) >= 0, cnt(a, n) <= n))


def find_contract(u, ps, const):
    """contract of find(x): x is an element and the invariant holds => the representative; the mutable overload may
    rewrite parents, keeping the invariant (same representatives) and which elements are roots"""
    f = u.fn(P + "find", const=const)

    def h(eng, st, obj, args, node, fr):
        x = st.get(args[0]) if isinstance(args[0], Loc) else args[0]
        o = st.get(obj)
        n, par = o.f["numberOfElements_"], o.f["parents_"]
        eng.check(st, And(x >= 0, x < n, par.len == n), "precondition of find: element exists")
        for w in wf(n, par.data, ps.rep, ps.d):
            eng.check(st, w, "precondition of find: forest invariant")
        if not const:
            np = z3.Const(fresh_name("par"), AI)
            st.pc.append(("f", FA([k], Implies(And(0 <= k, k < n), (np[k] == k) == (par.data[k] == k)), [np[k], par.data[k]])))
            for w in wf(n, np, ps.rep, ps.d):
                st.pc.append(("f", w))
            st.put(obj, o.set("parents_", Seq(par.len, np)))
        st.assume(And(ps.rep[x] >= 0, ps.rep[x] < n))
        return [(st, ps.rep[x])]
    u.contract(f, h)


def merge(u):
    f = u.fn(P + "merge")
    ps = PS(u, f)
    a, b = u.arg(f, 0), u.arg(f, 1)
    va, vb = u.v(a), u.v(b)
    u.assume(va < ps.n, vb < ps.n)
    find_contract(u, ps, False)
    find_contract(u, ps, True)
    u.lemma(u.st, L_nn, ps.par, ps.n)
    r1, r2 = ps.rep[va], ps.rep[vb]
    u.lemma(u.st, L_two, ps.par, r1, r2, ps.n)
    for o in u.call(f, ps.this, [a, b]):
        u.post(o, "no exception", BoolVal(o.kind == "normal"))
        n, par, rk, sets = view(o.st, ps.this)
        # witness: every element of the two sets is represented by the surviving root
        w = If(par.data[r1] == r1, r1, r2)
        lost = If(par.data[r1] == r1, r2, r1)
        rep2 = z3.Const(fresh_name("rep2"), AI)
        d2 = z3.Const(fresh_name("depth2"), AI)
        o.st.pc.append(("f", FA([k], rep2[k] == If(Or(ps.rep[k] == r1, ps.rep[k] == r2), w, ps.rep[k]), [rep2[k]])))
        o.st.pc.append(("f", FA([k], d2[k] == ps.d[k] + If(And(ps.rep[k] == lost, r1 != r2), 1, 0), [d2[k]])))
        u.post(o, "the merged set has one root", Implies(r1 != r2, Xor(par.data[r1] == r1, par.data[r2] == r2)))
        u.post(o, "merging one set with itself keeps its root", Implies(r1 == r2, par.data[r1] == r1))
        check_wf(u, o, ps.this, rep2, d2)
        u.post(o, "number of elements unchanged", n == ps.n)
        u.lemma(o.st, L_eq, ps.par, par.data, ps.n)
        u.lemma(o.st, L_one, ps.par, par.data, r1, ps.n)
        u.lemma(o.st, L_one, ps.par, par.data, r2, ps.n)
        u.post(o, "number of sets drops by one iff two sets were joined", sets == ps.sets - If(r1 == r2, 0, 1))
        u.post(o, "number of sets is the number of roots", sets == cnt(par.data, n))


L_two = Lemma("two_roots", [AI, I, I, I], lambda a, r, s, n: And(n >= 0, r >= 0, s >= 0, a[r] == r, a[s] == s), lambda a, r, s, n: And(cnt(a, n) >= If(r < n, 1, 0), cnt(a, n) >= If(s < n, 1, 0), Implies(And(r < n, s < n, r != s), cnt(a, n) >= 2)))


def ident_cands(n0, val):
    def g(ctx):
        L = ctx.leaf
        res = []
        for a in ctx.arrays(I):
            for x in ctx.ints():
                res.append(("entries [n0,x) initialised %s" % (a,), lambda s, a=a, x=x: FA([k], Implies(And(n0 <= k, k < L(s, x)), L(s, a)[k] == k), [L(s, a)[k]])))
                res.append(("entries [n0,x) zero %s" % (a,), lambda s, a=a, x=x: FA([k], Implies(And(n0 <= k, k < L(s, x)), L(s, a)[k] == 0), [L(s, a)[k]])))
        return [(nm + str(i), f) for i, (nm, f) in enumerate(res)]
    return g


def singletons(u, o, this, size):
    n, par, rk, sets = view(o.st, this)
    u.post(o, "number of elements", n == size)
    u.post(o, "every element is its own set", FA([k], Implies(And(0 <= k, k < size), par.data[k] == k)))
    ident = z3.Const(fresh_name("id"), AI)
    zero = z3.K(I, IntVal(0))
    o.st.pc.append(("f", FA([k], ident[k] == k, [ident[k]])))
    check_wf(u, o, this, ident, zero)
    u.lemma(o.st, L_grow, par.data, par.data, IntVal(0), size)
    u.post(o, "number of sets", sets == size)
    u.post(o, "number of sets is the number of roots", sets == cnt(par.data, n))
    u.post(o, "ranks start at zero", FA([k], Implies(And(0 <= k, k < size), rk.data[k] == 0)))


def reset(u):
    f = u.fn(P + "reset")
    this = u.this(f)
    x = u.arg(f, 0)
    u.assume(u.v(x) <= 2**48)
    u.cands(ident_cands(IntVal(0), None))
    for o in u.call(f, this, [x]):
        u.post(o, "no exception", BoolVal(o.kind == "normal"))
        singletons(u, o, this, u.v(x, u.old))


def ctor(u):
    f = u.fn(P + "Partition", nparams=1, where=lambda f: not f.get("copyctor"))
    this = u.this(f)
    x = u.arg(f, 0)
    u.assume(u.v(x) <= 2**48)
    u.cands(ident_cands(IntVal(0), None))
    for o in u.call(f, this, [x]):
        u.post(o, "no exception", BoolVal(o.kind == "normal"))
        singletons(u, o, this, u.v(x, u.old))


def ctor0(u):
    f = u.fn(P + "Partition", nparams=0)
    this = u.this(f)
    for o in u.call(f, this, []):
        u.post(o, "no exception", BoolVal(o.kind == "normal"))
        singletons(u, o, this, IntVal(0))


def insert(u):
    f = u.fn(P + "insert")
    ps = PS(u, f)
    x = u.arg(f, 0)
    num = u.v(x)
    u.assume(num <= 2**48)
    u.lemma(u.st, L_nn, ps.par, ps.n)
    u.cands(ident_cands(ps.n, None))
    for o in u.call(f, ps.this, [x]):
        u.post(o, "no exception", BoolVal(o.kind == "normal"))
        n, par, rk, sets = view(o.st, ps.this)
        u.post(o, "number of elements grows", n == ps.n + num)
        u.post(o, "old elements keep their parents", FA([k], Implies(And(0 <= k, k < ps.n), par.data[k] == ps.par[k])))
        u.post(o, "each new element is its own set", FA([k], Implies(And(ps.n <= k, k < ps.n + num), par.data[k] == k)))
        rep2 = z3.Const(fresh_name("rep2"), AI)
        d2 = z3.Const(fresh_name("depth2"), AI)
        o.st.pc.append(("f", FA([k], rep2[k] == If(k < ps.n, ps.rep[k], k), [rep2[k]])))
        o.st.pc.append(("f", FA([k], d2[k] == If(k < ps.n, ps.d[k], 0), [d2[k]])))
        check_wf(u, o, ps.this, rep2, d2)
        u.lemma(o.st, L_grow, ps.par, par.data, ps.n, num)
        u.lemma(o.st, L_eq, ps.par, par.data, ps.n)
        u.post(o, "number of sets grows", sets == ps.sets + num)
        u.post(o, "number of sets is the number of roots", sets == cnt(par.data, n))


def getters(u):
    for nm, fld in (("numberOfElements", "numberOfElements_"), ("numberOfSets", "numberOfSets_")):
        f = u.fn(P + nm)
        u.pre_ok = False
        this = u.this(f)
        for o in u.call(f, this, []):
            u.post(o, nm + " reports the state", o.val == u.old.get(this).f[fld])
            u.frame(o)


def out_spec(par, a, j, m):
    """a[0..m) lists the roots below j in increasing order"""
    return [FA([k], Implies(And(0 <= k, k < j, par[k] == k), And(a[cnt(par, k)] == k, cnt(par, k) < m)), [cnt(par, k)]),
            FA([k], Implies(And(0 <= k, k < m), And(a[k] >= 0, a[k] < j, par[a[k]] == a[k], cnt(par, a[k]) == k)), [a[k]])]


def representatives(u):
    f = u.fn(P + "representatives")
    ps = PS(u, f)
    out = Seq(z3.Int("outlen"), z3.Const("outdata", AI))
    u.st.store["out"] = out
    u.assume(out.len == ps.sets)
    u.eng.prover.unfold_depth = 1

    def g(ctx):
        L = ctx.leaf
        res = []
        xs = ctx.ints()
        for j in xs:
            for i in xs:
                if i == j:
                    continue
                res.append(("output position counts the roots below", lambda s, i=i, j=j: L(s, i) == cnt(ps.par, L(s, j))))
                for a in ctx.arrays(I):
                    for q in range(2):
                        res.append(("output lists the roots %d" % q, lambda s, a=a, i=i, j=j, q=q: out_spec(ps.par, L(s, a), L(s, j), L(s, i))[q]))
        return [(nm + str(i), f) for i, (nm, f) in enumerate(res)]
    cntbound(u, ps)
    u.cands(g)
    for o in u.call(f, ps.this, [Ptr("out", (), IntVal(0))]):
        u.post(o, "no exception", BoolVal(o.kind == "normal"))
        d = o.st.get(Loc("out")).data
        for nm, q in zip(("every root is output at its rank", "every output is a root"), out_spec(ps.par, d, ps.n, ps.sets)):
            u.post(o, nm, q)
        u.frame(o, except_=["out"])


def repr_contract(u, ps):
    f = u.fn(P + "representatives")

    def h(eng, st, obj, args, node, fr):
        it = st.get(args[0]) if isinstance(args[0], Loc) else args[0]
        l = Loc(it.root, it.path)
        s = st.get(l)
        eng.check(st, And(it.idx == 0, s.len >= ps.sets), "precondition of representatives: room for every set")
        d = z3.Const(fresh_name("reps"), AI)
        for q in out_spec(ps.par, d, ps.n, ps.sets):
            st.pc.append(("f", q))
        st.put(l, Seq(s.len, d, s.kind))
        return [(st, None)]
    u.contract(f, h)


def label_spec(ps, m, j):
    """map m: the roots with count < j are mapped to their count, nothing else is mapped"""
    return [FA([k], m.f["dom"][k] == And(0 <= k, k < ps.n, ps.par[k] == k, cnt(ps.par, k) < j), [m.f["dom"][k]]),
            FA([k], Implies(And(0 <= k, k < ps.n, ps.par[k] == k, cnt(ps.par, k) < j), m.f["val"][k] == cnt(ps.par, k)), [m.f["val"][k]])]


def cntbound(u, ps):
    u.lemmas_used[L_mono.name] = L_mono
    u.lemmas_used[L_nn.name] = L_nn
    u.eng.prover.axioms.append(FA([k], Implies(And(k >= 0, k < ps.n, ps.par[k] == k), And(cnt(ps.par, k) >= 0, cnt(ps.par, k) < cnt(ps.par, ps.n))), [cnt(ps.par, k)]))
    k2 = z3.Int("k2!p")
    u.check("lemma instance: the count below a root is smaller than the total", [L_nn.at(ps.par, k2), L_mono.at(ps.par, k2, ps.n - k2), L_mono.at(ps.par, k2 + 1, ps.n - k2 - 1), k2 >= 0, k2 < ps.n, ps.par[k2] == k2, cnt(ps.par, k2 + 1) == cnt(ps.par, k2) + 1], And(cnt(ps.par, k2) >= 0, cnt(ps.par, k2) < cnt(ps.par, ps.n)))


def representativeLabeling(u):
    f = u.fn(P + "representativeLabeling")
    ps = PS(u, f)
    m = u.arg(f, 0, "map")
    cntbound(u, ps)
    repr_contract(u, ps)
    u.eng.prover.unfold_depth = 0

    def g(ctx):
        L = ctx.leaf
        res = []
        for j in ctx.ints():
            for q in range(2):
                res.append(("labels of the roots seen %d" % q, lambda s, j=j, q=q: label_spec(ps, s.get(m), L(s, j))[q]))
        return [(nm + str(i), f) for i, (nm, f) in enumerate(res)]
    u.cands(g)
    for o in u.call(f, ps.this, [m]):
        u.post(o, "no exception", BoolVal(o.kind == "normal"))
        for nm, q in zip(("exactly the roots are labeled", "labels are consecutive in order of the roots"), label_spec(ps, o.st.get(m), ps.sets)):
            u.post(o, nm, q)
        u.frame(o, except_=["map"])


def elementLabeling(u):
    f = u.fn(P + "elementLabeling")
    ps = PS(u, f)
    cntbound(u, ps)
    u.eng.prover.unfold_depth = 0
    out = Seq(z3.Int("outlen"), z3.Const("outdata", AI))
    u.st.store["out"] = out
    u.assume(out.len == ps.n)
    find_contract(u, ps, True)
    fl = u.fn(P + "representativeLabeling")

    def h(eng, st, obj, args, node, fr):
        mm = eng.fresh(fl["params"][0]["t"], "x")
        t = eng.ast.strip(fl["params"][0]["t"])
        mm = eng.fresh(t, "labels", st)
        for q in label_spec(ps, mm, ps.sets):
            st.pc.append(("f", q))
        st.put(args[0], mm)
        return [(st, None)]
    u.contract(fl, h)

    def g(ctx):
        L = ctx.leaf
        res = []
        for j in ctx.ints():
            for a in ctx.arrays(I):
                if a[0] == "out":
                    res.append(("labels output", lambda s, j=j, a=a: FA([k], Implies(And(0 <= k, k < L(s, j)), L(s, a)[k] == cnt(ps.par, ps.rep[k])), [L(s, a)[k]])))
        for r in ctx.s1.store:
            if isinstance(ctx.s1.store[r], Rec) and "dom" in ctx.s1.store[r].f:
                for q in range(2):
                    res.append(("label map kept", lambda s, r=r, q=q: label_spec(ps, s.store[r], ps.sets)[q]))
        return [(nm + str(i), f) for i, (nm, f) in enumerate(res)]
    u.cands(g)
    for o in u.call(f, ps.this, [Ptr("out", (), IntVal(0))]):
        u.post(o, "no exception", BoolVal(o.kind == "normal"))
        d = o.st.get(Loc("out")).data
        a, b = z3.Ints("e1 e2")
        u.post(o, "label of an element is the number of roots before its representative", FA([k], Implies(And(0 <= k, k < ps.n), d[k] == cnt(ps.par, ps.rep[k]))))
        u.post(o, "labels are below the number of sets", FA([k], Implies(And(0 <= k, k < ps.n), And(d[k] >= 0, d[k] < ps.sets))))
        ra, rb = ps.rep[a], ps.rep[b]
        for x, y in ((ra, rb), (rb, ra)):
            o.st.pc.append(("f", L_mono.at(ps.par, x + 1, y - x - 1)))
        o.st.pc.append(("f", Implies(ps.par[ra] == ra, cnt(ps.par, ra + 1) == If(ra + 1 <= 0, 0, cnt(ps.par, ra) + 1))))
        o.st.pc.append(("f", Implies(ps.par[rb] == rb, cnt(ps.par, rb + 1) == If(rb + 1 <= 0, 0, cnt(ps.par, rb) + 1))))
        u.post(o, "two elements have one label iff they are in one set", Implies(And(0 <= a, a < ps.n, 0 <= b, b < ps.n), (d[a] == d[b]) == (ps.rep[a] == ps.rep[b])))
        u.frame(o, except_=["out"])


UNITS = {"find const": find_const, "find": find_mut, "merge": merge, "reset": reset, "constructor(n)": ctor, "constructor()": ctor0, "insert": insert,
         "getters": getters, "representatives": representatives, "representativeLabeling": representativeLabeling, "elementLabeling": elementLabeling}
DRIVER = "partition.cxx"
