#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property id>: extract the real code, prove every obligation, replay failures on the real code."""
import sys, os
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
import sys, os, json, time, subprocess, multiprocessing as mp, importlib, hashlib, glob, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from cv import ast as A, unit as U

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BUILD = os.path.join(HERE, "build")
DEADLINE = {"quick": 600, "thorough": 3000}[TIER if TIER in ("quick", "thorough") else "quick"]
NPROC = int(os.environ.get("CV_JOBS", "8"))

TRUSTED = [
    "clang 18 front end (instantiated AST of /repo's headers) and tool/astx.cpp (AST export, no code dropped silently: unsupported constructs make the unit undecided)",
    "cv/engine.py (verification-condition generator: path joins, frame by functional store, loop cutting by proved-inductive invariants)",
    "cv/models.py (assumed contracts of the C++ standard library: vector, map, pair, iterators, algorithms)",
    "z3 and cvc5 answering unsat",
    "machine model: 64-bit, unsigned arithmetic exact or proved not to wrap unless listed, floating point treated as real numbers unless the unit is in IEEE mode",
    "assertions compiled out (NDEBUG); allocation never fails; implicit destructors of locals have no observable effect",
]


def registry():
    return json.load(open(os.path.join(HERE, "registry.json")))


def worker(name, drv, modname, conn):
    sys.setrecursionlimit(20000)
    m = importlib.import_module("checks." + modname)
    r = U.run_unit(name, drv, m.UNITS[name])
    conn.send(r)
    conn.close()


def schedule(jobs, deadline):
    """jobs: [(key, args)] -> {key: result}"""
    results = {}
    pend = list(jobs)
    run = []
    while pend or run:
        while pend and len(run) < NPROC:
            key, a, limit = pend.pop(0)
            pc, cc = mp.Pipe(False)
            p = mp.Process(target=worker, args=a + (cc,))
            p.start()
            cc.close()
            run.append((key, p, pc, time.time() + limit))
        time.sleep(0.02)
        nxt = []
        for key, p, pc, lim in run:
            if pc.poll():
                try:
                    results[key] = pc.recv()
                except EOFError:
                    results[key] = {"unit": key, "status": "undecided", "error": "worker died", "obligations": 0, "discharged": 0, "failed": []}
                p.join()
            elif not p.is_alive():
                results[key] = {"unit": key, "status": "undecided", "error": "worker died", "obligations": 0, "discharged": 0, "failed": []}
            elif time.time() > lim or time.time() > deadline:
                p.kill()
                p.join()
                results[key] = {"unit": key, "status": "undecided", "error": "time limit", "obligations": 0, "discharged": 0, "failed": []}
            else:
                nxt.append((key, p, pc, lim))
        run = nxt
    return results


def compile_native(src, exe, extra):
    cmd = ["g++", "-std=gnu++17", "-O1", "-g0", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-I" + A.REPO + "/include", "-I" + os.path.join(HERE, "native"), src, "-o", exe] + extra
    if "-DNDEBUG" not in extra and "-DOPENGM_DEBUG" not in extra:
        cmd.insert(2, "-DNDEBUG")
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def main():
    pid = sys.argv[1]
    t0 = time.time()
    reg = registry()[pid]
    mods = reg.get("modules", [])
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(BUILD, "run_%s_%d" % (pid, os.getpid()))
    os.makedirs(tmp)
    try:
        return run(pid, reg, mods, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(pid, reg, mods, tmp, t0):
    subprocess.run(["bash", os.path.join(HERE, "setup.sh")], check=True)
    # native builds in the background
    nat = []
    for n in reg.get("native", []):
        src = os.path.join(HERE, "native", n["src"])
        exe = os.path.join(tmp, n["src"].replace(".cxx", "") + "_" + hashlib.md5(str(n.get("flags", "")).encode()).hexdigest()[:6])
        nat.append((n, exe, compile_native(src, exe, n.get("flags", []))))
    # the contract harnesses themselves, compiled to run on sampled arguments
    byd = {}
    for mn in mods:
        m = importlib.import_module("checks." + mn)
        for name, f in m.UNITS.items():
            c = getattr(f, "contract", None)
            if c:
                byd.setdefault((c[0], tuple(getattr(f, "flags", getattr(m, "FLAGS", ())))), []).append((c[1], c[2]))
    for (d, fl), hs in byd.items():
        src = os.path.join(tmp, "contracts_%d.cxx" % len(nat))
        with open(src, "w") as g:
            g.write('#include "%s"\nnamespace nv { static void run_contracts() {\n' % os.path.join(HERE, "drivers", d))
            for ns, n in hs:
                g.write('   cv::run("%s", &%s::%s, %s);\n' % (n, ns, n, "true" if n.endswith("_throws") else "false"))
            g.write("} }\n")
        exe = src[:-4]
        nat.append(({"src": "contracts of drivers/" + d, "role": "the proved contracts executed on sampled arguments (replay)", "bounds": "seeded random arguments"}, exe,
                    compile_native(src, exe, ["-DCV_NATIVE", "-I" + os.path.join(HERE, "drivers")] + list(fl))))
    # extraction
    jobs = []
    drv = {}
    undecided_extract = []
    for mn in mods:
        m = importlib.import_module("checks." + mn)
        for name, f in m.UNITS.items():
            d = getattr(f, "driver", m.DRIVER)
            fl = tuple(getattr(f, "flags", getattr(m, "FLAGS", ())))
            if (d, fl) not in drv:
                p = os.path.join(tmp, "ast_%s_%d.json" % (d, len(drv)))
                try:
                    A.load(d, flags=fl, keep=p)
                    drv[(d, fl)] = p
                except A.ExtractionError as x:
                    drv[(d, fl)] = None
                    undecided_extract.append(str(x)[-1500:])
            if TIER != "thorough" and getattr(f, "thorough_only", False):
                continue
            key = mn + ": " + name
            if drv[(d, fl)] is None:
                jobs.append((key, None, 0))
            else:
                jobs.append((key, (name, drv[(d, fl)], mn), getattr(f, "limit", 400)))
    res = {}
    for k, a, l in jobs:
        if a is None:
            res[k] = {"unit": k, "status": "undecided", "error": "extraction failed: " + "; ".join(undecided_extract)[:500], "obligations": 0, "discharged": 0, "failed": []}
    res.update(schedule([j for j in jobs if j[1] is not None], t0 + DEADLINE))
    # native runs
    natres = []
    fails = []
    for n, exe, p in nat:
        out, _ = p.communicate()
        r = {"source": n["src"], "role": n.get("role", "replay"), "bounds": n.get("bounds", ""), "covers": n.get("covers", "")}
        if p.returncode != 0:
            r["status"] = "does not compile against this tree"
            r["log"] = out[-1500:]
            natres.append(r)
            continue
        cmd = [exe, "--seed", str(SEED)] + (["--thorough"] if TIER == "thorough" else [])
        try:
            q = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=max(60, min(250 if TIER == "quick" else 2500, t0 + 850 - time.time() if TIER == "quick" else 1e9)), cwd=tmp, errors="replace", text=True)
            so, se, rc = q.stdout, q.stderr, q.returncode
        except subprocess.TimeoutExpired as x:
            so, se, rc = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), "", "timeout"
        fl = [l for l in so.split("\n") if l.startswith("FAIL ")]
        cs = [l for l in so.split("\n") if l.startswith("CASES ")]
        r["summary"] = cs[-1] if cs else ""
        r["sections"] = [l[8:] for l in so.split("\n") if l.startswith("SECTION ")]
        r["rc"] = rc
        r["status"] = "failing input found" if fl else "no failing input" if rc == 0 else "ended with %s" % rc
        if not fl and rc not in (0, "timeout"):
            fl = ["FAIL section=? case=[process ended with %s] what=%s" % (rc, (se or "")[-300:].replace("\n", " "))]
            r["status"] = "crashed"
        r["cases"] = int(cs[-1].split()[1]) if cs else 0
        for l in fl:
            fails.append((n["src"], l, (se or "")[:3000]))
        natres.append(r)
    # known findings
    known = []
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k.get("property") == pid and k.get("status") == "known"]
    real = []
    seen_known = set()
    for src, l, se in fails:
        hit = [k for k in known if k.get("match") and k["match"] in l]
        if hit:
            seen_known.add(hit[0]["match"])
        else:
            real.append((src, l, se))
    failed = []
    for k, r in res.items():
        for o in r["failed"]:
            nm = "%s | %s" % (k, o["obligation"])
            hit = [q for q in known if q.get("obligation") == nm]
            if hit:
                seen_known.add(nm)
            else:
                failed.append((k, o))
    for q in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, q["what"]))
    undec = {k: r["error"] for k, r in res.items() if r["status"] in ("undecided", "vacuous")}
    # evidence
    ob = sum(r["obligations"] for r in res.values())
    dis = sum(r["discharged"] for r in res.values())
    by = {}
    for r in res.values():
        for b, c in r.get("by", {}).items():
            by[b] = by.get(b, 0) + c
    funcs = sorted(set(f for r in res.values() for f in r.get("functions", [])))
    assumed = sorted(set(a for r in res.values() for a in r.get("assumed", [])))
    for m in mods:
        assumed += getattr(importlib.import_module("checks." + m), "ASSUMES", [])
    trusted = list(TRUSTED) + reg.get("trusted", [])
    ev = {
        "property": pid, "tier": TIER, "seed": SEED, "level": reg.get("level", "proof"),
        "coverage": {
            "obligations": ob, "discharged": dis,
            "checker_cmd": "python3-vt check.py %s (z3 4.8.12, z3 python %s, cvc5 1.1.2)" % (pid, __import__("z3").get_version_string()),
            "trusted_base": trusted,
            "units": {k: {"status": r["status"], "target": r.get("target"), "obligations": r["obligations"], "discharged": r["discharged"], "solver_s": r.get("solver_s"), "bounded": r.get("bounded"), "error": r.get("error"), "contracts_used_for": r.get("contracts_used"), "loop_invariants": r.get("invariants")} for k, r in res.items()},
            "obligation_names": {k: r.get("names") for k, r in res.items()},
            "functions_under_contract": [r.get("target") for r in res.values() if r.get("target")],
            "functions_verified_or_inlined": funcs,
            "solver_answers_by_back_end": by,
            "solver_seconds": round(sum(r.get("solver_s", 0) or 0 for r in res.values()), 1),
            "lemmas_proved": sum(r.get("lemmas", 0) or 0 for r in res.values()),
            "undecided_units": undec,
            "bounded_not_proved": natres,
            "explanation": reg.get("explanation", ""),
        },
        "assumptions": assumed + ["library calls abstracted to an unconstrained result: " + ", ".join(sorted(set(o for r in res.values() for o in r.get("opaque", []))))],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(real) + len(failed),
    }
    if ev["level"] != "proof":
        ev["coverage"]["evaluations"] = sum(r.get("cases", 0) for r in natres)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d units, %d/%d obligations discharged, %d undecided units, native cases %s, %.1f s" % (pid, len(res), dis, ob, len(undec), [r.get("cases") for r in natres], ev["wall_s"]))
    for k, e in undec.items():
        print("  undecided: %s: %s" % (k, (e or "").strip().split("\n")[-1][:300]))
    for r in natres:
        if r["status"] != "no failing input":
            print("  native %s: %s %s" % (r["source"], r["status"], r.get("log", "")[-600:]))
    for k, o in failed[:20]:
        print("  failed obligation: %s | %s (%s) %s" % (k, o["obligation"], U.rel(o["where"]), o["solver"]))
    if not real and not failed:
        return 0
    rdir = os.path.join(HERE, "replay")
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, "%s_%d.json" % (pid, int(time.time() * 1000) % 10**10))
    json.dump({"property": pid,
               "failed_obligations": [{"unit": k, **o} for k, o in failed],
               "failing_inputs_on_real_code": [{"harness": s, "line": l, "stderr": se} for s, l, se in real[:20]],
               "how_to_replay": "build native/<harness> with -I/repo/include (see compile_native in check.py) and run it with --seed %d" % SEED},
              open(rp, "w"), indent=1)
    for s, l, _ in real[:5]:
        print("  " + l[:400])
    if real:
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    else:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
    return 1


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
