"""A verification unit: one function of the real code against its contract."""
import os, time, traceback, z3
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal, ForAll
from .vals import *
from .engine import Engine, State, Frame, Obligation, Unsupported, Out
from .solver import SpecFn
from . import ast as A

U64 = 2 ** 64 - 1


class Lemma:
    """forall vars. hyp => concl, proved by induction on the last variable (a natural number) before it is used"""
    all = {}

    def __init__(self, name, sorts, hyp, concl, induct=True, depth=2, ih=None):
        self.name, self.sorts, self.hyp, self.concl, self.induct, self.depth = name, sorts, hyp, concl, induct, depth
        self.ih = ih
        Lemma.all[name] = self

    def at(self, *a):
        return Implies(self.hyp(*a), self.concl(*a))

    def prove(self, prover):
        vs = [z3.Const("L%d" % i, s) for i, s in enumerate(self.sorts)]
        d = prover.unfold_depth
        prover.unfold_depth = self.depth
        res = []
        try:
            if not self.induct:
                ok, info = prover.prove([], self.at(*vs))
                return [("lemma %s" % self.name, ok, info)]
            n = vs[-1]
            base = vs[:-1] + [IntVal(0)]
            ok, info = prover.prove([self.hyp(*base)], self.concl(*base))
            res.append(("lemma %s: base case" % self.name, ok, info))
            step = vs[:-1] + [n + 1]
            ihs = [self.at(*vs)]
            if self.ih:
                ihs += [self.at(*x) for x in self.ih(*vs)]
            ok, info = prover.prove([n >= 0, self.hyp(*step)] + ihs, self.concl(*step))
            res.append(("lemma %s: induction step" % self.name, ok, info))
            return res
        finally:
            prover.unfold_depth = d


class Unit:
    def __init__(self, name, ast):
        self.name = name
        self.ast = ast
        self.eng = Engine(ast, name)
        self.eng.verbose_loops = bool(os.environ.get("CV_VERBOSE"))
        self.st = State()
        self.lemmas_used = {}
        self.contract_used = set()
        self.bounded = None
        self.target = None
        self.subcases = 0

    # ---- building the precondition
    def fn(self, plain, **sel):
        return self.ast.fn(plain, **sel)

    def rec_type(self, f):
        """type id of the class of member function f"""
        for i, t in enumerate(self.ast.types):
            if t["k"] == "rec" and t["rec"] == f["cls"] and not t.get("const"):
                return i
        for i, t in enumerate(self.ast.types):
            if t["k"] == "rec" and t["rec"] == f["cls"]:
                return i
        raise A.ExtractionError("type of %s" % f["name"])

    def obj(self, root, tid):
        if isinstance(tid, dict):
            tid = self.rec_type(tid)
        self.st.store[root] = self.eng.fresh(tid, root, self.st)
        return Loc(root)

    def this(self, f):
        return self.obj("this", self.rec_type(f))

    def arg(self, f, i, name=None, st=None):
        """arbitrary argument for parameter i; references get an object of their own"""
        p = f["params"][i]
        t = self.ast.ty(p["t"])
        name = name or "arg%d" % i
        if t["k"] == "ref":
            inner = self.ast.strip(t)
            self.st.store[name] = self.eng.fresh(t["to"], name, self.st)
            v = self.st.store[name]
            if inner["k"] == "int":
                self.st.assume(self.eng.range_fact(v, inner))
            return Loc(name)
        v = self.eng.fresh(p["t"], name, self.st)
        if t["k"] == "int":
            self.st.assume(self.eng.range_fact(v, t))
        return v

    def args(self, f):
        return [self.arg(f, i) for i in range(len(f["params"]))]

    def v(self, a, st=None):
        return (st or self.st).get(a) if isinstance(a, Loc) else a

    def assume(self, *fs):
        for f in fs:
            self.st.pc.append(("f", f))

    def lemma(self, st, l, *terms):
        self.lemmas_used[l.name] = l
        st.pc.append(("f", l.at(*terms)))

    def cands(self, g):
        self.eng.loop_cands.append(g)

    def measures(self, g):
        self.eng.loop_measures.append(g)

    def contract(self, f, h, name=None):
        self.contract_used.add(f["name"])
        self.eng.contracts[f["id"]] = h

    # ---- running
    def call(self, f, this=None, args=(), st=None):
        self.target = self.target or f
        st = st or self.st
        if not getattr(self, "pre_ok", False):
            # vacuity: the precondition must not be contradictory
            s = z3.Solver()
            s.set("rlimit", 20000000)
            s.add(st.facts())
            from .solver import instances
            s.add(instances(st.facts()))
            r = s.check()
            self.eng.obls.append(Obligation(self.name, "precondition is not contradictory (%s)" % r, f.get("loc", "?"), "failed" if r == z3.unsat else "proved"))
            self.pre_ok = True
        fr = Frame(None, None, ())
        self.old = st.copy()
        self.subcases += 1
        fr.path = ("c%d" % self.subcases,)
        rs = self.eng.call(f["id"], this, list(args), st.copy(), fr, {"e": "call", "loc": f.get("loc", "?"), "id": self.subcases})
        outs = [Out("normal", s, v) for s, v in rs] + fr.throws
        self.eng.cur = f.get("loc", "?")
        return outs

    def post(self, o, name, cond):
        self.eng.cur = (self.target or {}).get("loc", "?")
        self.eng.check(o.st, cond, name)

    def frame(self, o, old=None, except_=(), roots=None):
        """every object of the precondition not listed is unchanged"""
        old = old or self.old
        for r, v in old.store.items():
            if roots is not None and r not in roots:
                continue
            if any(x == r for x in except_):
                continue
            w = o.st.store.get(r)
            for p, t in leaves(v):
                if any(isinstance(x, tuple) and x[0] == r and tuple(p[:len(x) - 1]) == tuple(x[1:]) for x in except_):
                    continue
                try:
                    from .engine import leaf_get
                    u = leaf_get(w, p)
                except Exception:
                    u = None
                if u is None:
                    self.post(o, "frame: %s keeps its structure" % (r,), BoolVal(False))
                elif not u.eq(t):
                    if isinstance(t.sort(), z3.ArraySortRef):
                        k = z3.Int("k!fr")
                        self.post(o, "frame: %s.%s unchanged" % (r, ".".join(map(str, p))), ForAll([k], u[k] == t[k]))
                    else:
                        self.post(o, "frame: %s.%s unchanged" % (r, ".".join(map(str, p))), u == t)

    def check(self, name, facts, cond):
        """stand-alone obligation (a lemma over contracts)"""
        ok, info = self.eng.prover.prove(list(facts), cond)
        ob = Obligation(self.name, name, "lemma", "proved" if ok else "failed")
        if not ok:
            ob.detail, ob.model = info
        self.eng.obls.append(ob)


def pre_state(terms, n0):
    stack, seen = list(terms), set()
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            q = t.decl().name().rsplit("!", 1)
            if len(q) == 2 and q[1].isdigit() and int(q[1]) > n0:
                return False
        stack.extend(t.children())
    return True


def model_text(m, limit=60):
    if m is None:
        return None
    out = {}
    for d in list(m.decls())[:limit]:
        try:
            out[str(d.name())] = str(m[d])[:120]
        except Exception:
            pass
    return out


def run_unit(name, driver_json, func):
    """-> plain dict (crosses process boundary)"""
    t0 = time.time()
    import json
    z3.set_param("smt.random_seed", 0)
    res = {"unit": name, "status": "ok", "obligations": 0, "discharged": 0, "failed": [], "by": {}, "solver_s": 0.0, "functions": [], "lemmas": 0, "assumed": [], "error": None}
    try:
        with open(driver_json) as f:
            ast = A.Ast(json.load(f))
        from . import vals
        vals._n[0] = 0
        u = Unit(name, ast)
        first = None
        try:
            func(u)
        except Unsupported as x:
            first = x
        apps = u.eng.spec_apps
        n0 = getattr(u, "n_args", 0)
        if apps and (first or any(o.status != "proved" for o in u.eng.obls)):
            # second pass: the folds the specification mentions become invariant templates
            goal = []
            seen = set()
            for a in apps:
                if not z3.is_int(a.children()[-1]):
                    continue
                key = str(a.decl().name()) + "|" + "|".join(c.sexpr() for c in a.children()[:-1])
                if key in seen or not pre_state(a.children()[:-1], n0):
                    continue
                seen.add(key)
                goal.append(a)
            if goal:
                vals._n[0] = 0
                u2 = Unit(name, ast)
                u2.eng.goal_apps = goal[:12]
                u2.eng.spec_cache = u.eng.spec_cache
                u2.second = True
                q, t = u.eng.prover.queries, u.eng.prover.time
                u = u2
                first = None
                func(u)
                u.eng.prover.queries += q
                u.eng.prover.time += t
        if first:
            raise first
        eng = u.eng
        for l in u.lemmas_used.values():
            for nm, ok, info in l.prove(eng.prover):
                ob = Obligation(name, nm, "lemma", "proved" if ok else "failed")
                if not ok:
                    ob.detail, ob.model = info
                eng.obls.append(ob)
                res["lemmas"] += 1
        res["obligations"] = len(eng.obls)
        res["discharged"] = sum(1 for o in eng.obls if o.status == "proved")
        for o in eng.obls:
            if o.status != "proved":
                res["failed"].append({"obligation": o.name, "where": str(o.where), "solver": str(o.detail), "model": model_text(o.model)})
        names = {}
        for o in eng.obls:
            names[o.name] = names.get(o.name, 0) + 1
        res["names"] = names
        res["by"] = eng.prover.by
        res["queries"] = eng.prover.queries
        res["solver_s"] = round(eng.prover.time, 3)
        res["functions"] = sorted(set("%s (%s)" % (f["plain"], rel(f.get("loc", "?"))) for f in eng.functions.values()))
        res["assumed"] = sorted(eng.assumed)
        res["contracts_used"] = sorted(u.contract_used)
        res["opaque"] = sorted(eng.opaque_calls)
        res["invariants"] = {"%s %s" % k: v for k, v in eng.loop_report.items()}
        res["target"] = u.target["name"] if u.target else None
        res["bounded"] = u.bounded
        if res["obligations"] == 0:
            res["status"] = "vacuous"
            res["error"] = "no obligation generated"
        elif res["failed"]:
            res["status"] = "failed"
    except (Unsupported, A.ExtractionError, Structural) as x:
        res["status"] = "undecided"
        res["error"] = "%s: %s" % (type(x).__name__, x)
        if os.environ.get("CV_TRACE"):
            traceback.print_exc()
    except RecursionError:
        res["status"] = "undecided"
        res["error"] = "recursion limit"
    except Exception as x:
        res["status"] = "undecided"
        res["error"] = "%s: %s" % (type(x).__name__, traceback.format_exc()[-1500:])
        if os.environ.get("CV_TRACE"):
            traceback.print_exc()
    res["wall_s"] = round(time.time() - t0, 2)
    return res


def rel(loc):
    return loc.replace(A.REPO + "/", "")


def harness_units(driver, ns="H", cands=None, prefix="", setup=None, flags=None, names=None, **opts):
    """names of the contract harnesses in a driver: every function of namespace `ns`"""
    import re
    src = open(os.path.join(A.VERIF, "drivers", driver)).read()
    given = bool(names)
    names = list(names or [])
    for m in [] if given else re.finditer(r"^\s*(?:void|auto)\s+([A-Za-z_]\w*)\s*\(", src, re.M):   # (not the macros' own lines)
        if m.group(1) not in names and not src[:m.start()].rstrip(" \t\n").endswith("\\"):
            names.append(m.group(1))
    for m in [] if given else re.finditer(r"^// units:(.*)$", src, re.M):   # harnesses made by macros
        names += [n for n in m.group(1).split() if n not in names]
    res = {}
    for n in names:
        res[prefix + n] = harness(n, ns, (cands or {}).get(n), setup, driver, flags, opts)
    return res


def pure(u, plain):
    """contract of a function whose result depends on its (integer, by-value) arguments only: same arguments, same result.
    Used where a contract needs no more; that the function reads and writes nothing else is checked on its AST."""
    import z3
    try:
        f = u.fn(plain)
    except A.ExtractionError:
        return                                   # not called by this driver any more
    if not local_only(u.ast, f):
        return                                   # executed instead
    def h(eng, st, obj, args, node, fr):
        vs = [st.get(a) if hasattr(a, "root") and hasattr(a, "path") and not hasattr(a, "idx") else a for a in args]
        d = z3.Function("pure:" + plain, *([v.sort() for v in vs] + [z3.IntSort()]))
        t = d(*vs)
        st.assume(eng.range_fact(t, eng.ast.ty(f["ret"])))
        return [(st, t)]
    u.contract(f, h)


def local_only(ast, f):
    """no calls, no references to anything but parameters and local variables"""
    def walk(n):
        if isinstance(n, dict):
            if n.get("k") in ("call", "icall", "ctor", "new", "delete", "gvar", "this", "lambda", "throw") or n.get("static"):
                return False
            return all(walk(v) for v in n.values())
        if isinstance(n, list):
            return all(walk(v) for v in n)
        return True
    return walk(f.get("body"))


def harness(n, ns, cands, setup, driver, flags, opts):
    def run(u):
        f = u.fn(ns + "::" + n)
        if cands:
            for c in cands if isinstance(cands, (list, tuple)) else [cands]:
                u.cands(c)
        for k, v in opts.items():
            if k == "unfold":
                u.eng.prover.unfold_depth = v
            elif k == "feas":
                u.eng.prover.feas = v
            else:
                setattr(u.eng, k, v)
        if setup:
            setup(u, n)
        args = u.args(f)
        from . import vals
        u.n_args = vals._n[0]
        live = False
        for o in u.call(f, None, args):
            if not live:
                s = z3.Solver()
                s.set("rlimit", 2000000)
                s.add(o.st.facts())
                live = s.check() != z3.unsat
            if o.kind == "throw":
                if n.endswith("_throws"):
                    continue
                u.post(o, "no exception is thrown (%s)" % (o.val,), BoolVal(False))
        if not live:
            u.eng.obls.append(Obligation(u.name, "contract is not vacuous", f.get("loc", "?"), "failed", "no reachable end of the contract"))
        if not any(o for o in u.eng.obls if "precondition" not in o.name):
            u.eng.obls.append(Obligation(u.name, "contract generates an obligation", f.get("loc", "?"), "failed", "no obligation"))
    run.driver = driver
    run.contract = (driver, ns, n)
    if flags:
        run.flags = flags
    return run
