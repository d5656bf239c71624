"""Symbolic values.  Scalars are z3 terms (Int / Bool / Real).  A value stored under n levels of arrays is
'lifted': every leaf term has n extra Array-Int dimensions.  All values are immutable."""
import z3
from z3 import Select, Store, If, And, IntVal, BoolVal, RealVal


class Rec:
    __slots__ = ("f", "rec")

    def __init__(self, f, rec=None):
        self.f = f
        self.rec = rec

    def set(self, k, v):
        g = dict(self.f)
        g[k] = v
        return Rec(g, self.rec)

    def __repr__(self):
        return "Rec(%s)" % self.f


class Seq:
    """std::vector / C array / heap block: length and (lifted) contents"""
    __slots__ = ("len", "data", "kind")

    def __init__(self, len, data, kind="vec"):
        self.len = len
        self.data = data
        self.kind = kind

    def __repr__(self):
        return "Seq(%s,%s)" % (self.len, self.data)


class Ptr:
    """pointer / iterator: object location (root + path) and, inside a sequence, an index term"""
    __slots__ = ("root", "path", "idx")

    def __init__(self, root, path=(), idx=None):
        self.root = root
        self.path = tuple(path)
        self.idx = idx

    def __repr__(self):
        return "Ptr(%s,%s,%s)" % (self.root, self.path, self.idx)


NULL = Ptr(None)


class Loc:
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root = root
        self.path = tuple(path)

    def __repr__(self):
        return "Loc(%s,%s)" % (self.root, self.path)


class Opaque:
    """value the engine does not interpret (streams, strings, ...)"""
    __slots__ = ("what",)

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return "Opaque(%s)" % self.what


class Structural(Exception):
    """two values cannot be combined because their shapes differ"""


def isterm(v):
    return isinstance(v, z3.ExprRef)


def same(a, b):
    if a is b:
        return True
    if isterm(a) and isterm(b):
        return a.eq(b)
    if a is None or b is None:
        return a is b
    if type(a) is not type(b):
        return False
    if isinstance(a, Rec):
        return a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Seq):
        return same(a.len, b.len) and same(a.data, b.data)
    if isinstance(a, Ptr):
        return a.root == b.root and samepath(a.path, b.path) and same(a.idx, b.idx)
    if isinstance(a, Opaque):
        return True
    return a == b


def samepath(p, q):
    return len(p) == len(q) and all(x[0] == y[0] and (x[1].eq(y[1]) if isterm(x[1]) and isterm(y[1]) else (not isterm(x[1]) and not isterm(y[1]) and x[1] == y[1])) for x, y in zip(p, q))


def mapv(f, v, *ws):
    """apply f leaf-wise"""
    if isinstance(v, Rec):
        for w in ws:
            if not isinstance(w, Rec) or w.f.keys() != v.f.keys():
                raise Structural("record shapes differ")
        return Rec({k: mapv(f, v.f[k], *[w.f[k] for w in ws]) for k in v.f}, v.rec)
    if isinstance(v, Seq):
        for w in ws:
            if not isinstance(w, Seq):
                raise Structural("sequence vs other")
        return Seq(f(v.len, *[w.len for w in ws]), mapv(f, v.data, *[w.data for w in ws]), v.kind)
    if isinstance(v, Ptr):
        for w in ws:
            if not isinstance(w, Ptr):
                raise Structural("pointer vs other")
            if w.root != v.root or not samepath(v.path, w.path):
                raise Structural("pointers to different objects")
        if v.idx is None:
            for w in ws:
                if w.idx is not None:
                    raise Structural("pointer index")
            return v
        return Ptr(v.root, v.path, f(v.idx, *[w.idx for w in ws]))
    if isinstance(v, Opaque) or v is None:
        return v
    return f(v, *ws)


def leaves(v, pre=()):
    """[(path, term)]"""
    if isinstance(v, Rec):
        out = []
        for k in v.f:
            out += leaves(v.f[k], pre + (k,))
        return out
    if isinstance(v, Seq):
        return [(pre + ("#len",), v.len)] + leaves(v.data, pre + ("#",))
    if isinstance(v, Ptr):
        return [(pre + ("#idx",), v.idx)] if v.idx is not None else []
    if isterm(v):
        return [(pre, v)]
    return []


def sel(v, i):
    return mapv(lambda t: select1(t, i), v)


def select1(t, i):
    # cheap read-over-write so that constant-index code stays literal
    while True:
        if z3.is_store(t):
            a, j, x = t.children()
            if j.eq(i):
                return x
            if z3.is_int_value(j) and z3.is_int_value(i):
                t = a
                continue
        elif z3.is_K(t):
            return t.arg(0)
        return Select(t, i)


def sto(v, i, w):
    def st1(t, x):
        if z3.is_store(t) and t.arg(1).eq(i):
            t = t.arg(0)
        return Store(t, i, x)
    return mapv(st1, v, w)


def ite(c, a, b):
    return mapv(lambda x, y: x if x.eq(y) else If(c, x, y), a, b)


def eqv(a, b):
    """conjunction of leaf equalities"""
    out = []

    def f(x, y):
        if not x.eq(y):
            out.append(x == y)
        return x
    mapv(f, a, b)
    return And(*out) if len(out) != 1 else out[0] if out else BoolVal(True)


def lift(v):
    """constant array of value v"""
    return mapv(lambda t: z3.K(z3.IntSort(), t), v)


_n = [0]


def fresh_name(base):
    _n[0] += 1
    return "%s!%d" % (base, _n[0])


def fresh_like(v, base):
    def f(t):
        return z3.Const(fresh_name(base), t.sort())
    return mapv(f, v)


_badpat = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_IMPLIES}


def okpat(t):
    st = [t]
    while st:
        u = st.pop()
        if z3.is_quantifier(u):
            return False
        if z3.is_app(u):
            if u.decl().kind() in _badpat:
                return False
            st.extend(u.children())
    return True


def FA(vs, body, pats=()):
    """universal quantifier; patterns the solvers would reject are dropped"""
    ps = [p for p in pats if isinstance(p, z3.PatternRef) or okpat(p)]
    if z3.is_true(body):
        return body
    return z3.ForAll(vs, body, patterns=ps) if ps else z3.ForAll(vs, body)
