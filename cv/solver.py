"""Back ends.  prove(facts, goal) is True only when a solver answers `unsat` for facts /\\ not goal."""
import os, subprocess, tempfile, time, z3

TIER = os.environ.get("VERIF_TIER", "quick")


class SpecFn:
    """logical function, uninterpreted for the solver; the tool adds ground instances of its defining axiom"""
    all = {}

    def __init__(self, name, sorts, ret, unfold=None):
        self.name = name
        self.decl = z3.Function(name, *(list(sorts) + [ret]))
        self.unfold = unfold
        SpecFn.all[self.decl.get_id()] = self

    def __call__(self, *a):
        return self.decl(*a)


def spec_apps(terms, seen):
    out = []
    stack = list(terms)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen[i] = t
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_app(t):
            if t.num_args() and t.decl().get_id() in SpecFn.all:
                out.append(t)
            stack.extend(t.children())
    return out


def has_var(t, memo={}):
    i = t.get_id()
    if i in memo and memo[i][0].eq(t):
        return memo[i][1]
    if z3.is_var(t):
        r = True
    elif z3.is_quantifier(t):
        r = True
    else:
        r = any(has_var(c) for c in t.children())
    if len(memo) > 200000:
        memo.clear()
    memo[i] = (t, r)
    return r


def instances(terms, depth=2):
    if not SpecFn.all:
        return []
    seen = {}
    out = []
    cur = list(terms)
    done = set()
    for _ in range(depth):
        new = []
        for a in spec_apps(cur, seen):
            if a.get_id() in done or has_var(a):
                continue
            done.add(a.get_id())
            s = SpecFn.all[a.decl().get_id()]
            if s.unfold:
                r = s.unfold(*a.children())
                new += r if isinstance(r, list) else [r]
        if not new:
            break
        out += new
        cur = new
    return out


class Prover:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.by = {}
        self.axioms = []
        self.unfold_depth = 2
        self.lin_cache = {}
        self.inc = None
        self.feas = 400000
        self.stack = []

    # incremental pruning queries ------------------------------------------------
    def feasible(self, entries, extra):
        """False only if the path is certainly infeasible"""
        t0 = time.time()
        self.queries += 1
        if self.inc is None:
            self.inc = z3.Solver()
            self.inc.set("rlimit", self.feas)
            self.inc.set("smt.mbqi", False)
            self.inc.set("timeout", 1500)
            if self.feas < 400000:
                self.inc.set("smt.qi.max_instances", 200)
            self.stack = []
        n = 0
        while n < len(self.stack) and n < len(entries) and self.stack[n] is entries[n]:
            n += 1
        if n < len(self.stack):
            self.inc.pop(len(self.stack) - n)
            del self.stack[n:]
        for e in entries[n:]:
            self.inc.push()
            self.inc.add(e[1])
            self.stack.append(e)
        self.inc.push()
        self.inc.add(extra)
        r = self.inc.check()
        self.inc.pop()
        if r == z3.unknown and self.inc.reason_unknown() == "timeout" or time.time() - t0 > 1:
            # the incremental solver got stuck: start afresh
            self.inc = None
            s = z3.Solver()
            s.set("rlimit", self.feas)
            s.set("smt.mbqi", False)
            s.add([e[1] for e in entries] + [extra])
            r = s.check()
        self.time += time.time() - t0
        return r != z3.unsat

    # full queries -----------------------------------------------------------------
    def prove(self, facts, goal, kind="obl", want_model=False):
        t0 = time.time()
        self.queries += 1
        try:
            return self._prove(facts, goal, kind, want_model)
        finally:
            self.time += time.time() - t0

    def _prove(self, facts, goal, kind, want_model):
        g = z3.simplify(goal)
        if z3.is_true(g):
            self._by("simplifier")
            return (True, None)
        facts = list(facts) + self.axioms
        inst = instances(facts + [goal], self.unfold_depth)
        every = facts + inst + [z3.Not(goal)]
        last = "unknown"
        model = None
        txt = None
        # (back end, resource limit, options); limits are deterministic counters, not wall time
        if kind == "quick":
            plan = [("py", 400000, {"smt.mbqi": False, "smt.qi.max_instances": 400}), ("z3old", 600000, "smt.mbqi=false"), ("cvc5", 100000, "")]
        elif kind == "template":
            plan = [("py", 600000, {"smt.mbqi": False, "smt.qi.max_instances": 600}), ("z3old", 6000000, "smt.mbqi=false smt.arith.solver=2"), ("z3old", 6000000, "smt.mbqi=false smt.arith.solver=2 smt.random_seed=5"), ("py", 8000000, {"smt.mbqi": False})]
        else:
            plan = [("py", 600000, {"smt.mbqi": False, "smt.qi.max_instances": 600}),
                    ("z3old", 4000000, "smt.mbqi=false"),
                    ("z3old", 4000000, "smt.mbqi=false smt.arith.solver=2"),
                    ("cvc5", 400000, ""),
                    ("py", 4000000, {}),
                    ("z3old", 40000000, ""),
                    ("z3old", 20000000, "smt.mbqi=false smt.arith.solver=2"),
                    ("py", 10000000, {"smt.mbqi": False, "smt.arith.solver": 2}),
                    ("cvc5", 4000000, ""),
                    ("py", 30000000, {"smt.random_seed": 7, "smt.mbqi": False})]
        for n, (be, rl, opt) in enumerate(plan):
            if n == 1:
                try:
                    lin = self.linear(every)
                except z3.Z3Exception:
                    lin = None
                if lin is not None:
                    s = z3.Solver()
                    s.set("rlimit", 2 * plan[0][1])
                    for k, v in plan[0][2].items():
                        s.set(k, v)
                    s.add(lin)
                    if s.check() == z3.unsat:
                        self._by("z3 (python), products uninterpreted")
                        return (True, None)
            if be == "py":
                s = z3.Solver()
                s.set("rlimit", rl)
                for k, v in opt.items():
                    s.set(k, v)
                s.add(every)
                r = s.check()
                if r == z3.unsat:
                    self._by("z3 (python)")
                    return (True, None)
                if r == z3.sat:
                    return (False, ("sat", s.model()))
                last = "unknown (%s)" % s.reason_unknown()
                continue
            if txt is None:
                s = z3.Solver()
                s.add(every)
                txt = s.to_smt2()
            r = self._ext(be, rl, opt, txt)
            if r == "unsat":
                self._by("z3 4.8.12" if be == "z3old" else "cvc5")
                return (True, None)
            if r == "sat":
                last = "sat (%s)" % be
                break
        return (False, (last, model))

    def linear(self, ts):
        """the formulas with every product of two unknowns read as an uninterpreted function: weaker, so a proof of the
        goal from it is a proof; None if there is no such product"""
        cache = self.lin_cache
        hit = [False]

        def go(t):
            k = t.get_id()
            if k in cache:
                hit[0] = hit[0] or cache[k][1]
                return cache[k][0]
            h0, hit[0] = hit[0], False
            if z3.is_quantifier(t):
                if t.is_lambda():
                    r = t
                else:
                    vs = [z3.FreshConst(t.var_sort(i), t.var_name(i)) for i in range(t.num_vars())]
                    sub = lambda u: go(z3.substitute_vars(u, *reversed(vs)))
                    b = sub(t.body())
                    if hit[0]:
                        ps = []
                        for i in range(t.num_patterns()):
                            pt = t.pattern(i)
                            ps.append(z3.MultiPattern(*[sub(pt.arg(j)) for j in range(pt.num_args())]) if pt.num_args() > 1 else sub(pt.arg(0)))
                        r = (z3.ForAll if t.is_forall() else z3.Exists)(vs, b, patterns=ps) if ps else (z3.ForAll if t.is_forall() else z3.Exists)(vs, b)
                    else:
                        r = t
            elif z3.is_app(t) and t.num_args():
                cs = [go(c) for c in t.children()]
                if t.decl().kind() == z3.Z3_OP_MUL and sum(1 for c in cs if not (z3.is_int_value(c) or z3.is_rational_value(c))) > 1:
                    hit[0] = True
                    num = [c for c in cs if z3.is_int_value(c) or z3.is_rational_value(c)]
                    oth = sorted([c for c in cs if not (z3.is_int_value(c) or z3.is_rational_value(c))], key=lambda c: c.get_id())
                    srt = t.sort()
                    f = z3.Function("times_%s" % srt, srt, srt, srt)
                    r = oth[0]
                    for c in oth[1:]:
                        r = f(r, c)
                    for c in num:
                        r = c * r
                elif hit[0]:
                    r = t.decl()(*cs)
                else:
                    r = t
            else:
                r = t
            cache[k] = (r, hit[0], t)
            hit[0] = hit[0] or h0
            return r
        out = [go(t) for t in ts]
        return out if hit[0] else None

    def _by(self, b):
        self.by[b] = self.by.get(b, 0) + 1

    def _ext(self, be, rl, opt, txt):
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            if be == "cvc5":
                f.write("(set-logic ALL)\n")
            f.write(txt)
        try:
            if be == "z3old":
                cmd = ["z3", "rlimit=%d" % rl, "-T:120"] + opt.split() + [f.name]
            else:
                cmd = ["cvc5", "--rlimit=%d" % rl, "--tlimit=120000", "--arrays-exp"] + [f.name]
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=150)
            return p.stdout.strip().split("\n")[0] if p.stdout.strip() else "error"
        except Exception:
            return "error"
        finally:
            os.unlink(f.name)
