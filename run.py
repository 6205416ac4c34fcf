#!/opt/venv/bin/python
"""run.py PROPERTY [--tier quick|thorough] [--only SCENARIO] [--replay FILE] [-v]

Decides one property: executes the real functions symbolically, discharges the
assertions with z3, replays every counterexample on the unpatched code.
exit 0: held on everything explored; exit 1 + VIOLATION line: violated;
exit 2: undecided (a query or an encoding did not come to an answer).
"""
import argparse
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VSYM_REPO", "/repo"))
sys.setrecursionlimit(20000)


def load(prop=None):
    """import the harness files; a file whose code under test cannot be imported matters only to its own properties"""
    import glob
    import importlib
    from vsym.registry import SCENARIOS
    for f in sorted(glob.glob(os.path.join(HERE, "props", "p_*.py"))):
        if prop and '@scenario("%s"' % prop not in open(f).read():
            continue
        try:
            importlib.import_module("props." + os.path.basename(f)[:-3])
        except Exception as e:
            repo = os.path.realpath(os.environ.get("VSYM_REPO", "/repo")) + os.sep
            last = traceback.extract_tb(e.__traceback__)[-1].filename
            if prop is None or not os.path.realpath(last).startswith(repo):
                raise
            print("VIOLATION property=%s replay=%s" % (prop, f))
            print("  the code under test cannot be imported: %r (%s)" % (e, last))
            sys.exit(1)
    return SCENARIOS


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def cfg_name(c):
    return ",".join("%s=%s" % (k, v) for k, v in sorted(c.items()) if not k.startswith("_"))


def worker(task, conn):
    sc, cfg, known, seed = task
    try:
        import resource
        lim = 9 * 1024 ** 3
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("VSYM_SHOW"):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    try:
        from vsym.core import run_scenario
        r = run_scenario(sc["fn"], cfg, known_labels=known, deadline_s=cfg.get("_limit", sc["limit"]), seed=seed)
    except BaseException:
        r = {"status": "undecided", "violations": [], "known": [],
             "undecided": [("internal", traceback.format_exc())], "samples": [], "stats": {}, "wall_s": 0}
    try:
        conn.send(r)
    finally:
        conn.close()
    os._exit(0)


def run_tasks(tasks, nproc, budget_s, verbose):
    """fork one process per task, at most nproc at a time"""
    ctx = mp.get_context("fork")
    pending = list(enumerate(tasks))
    running = {}
    results = [None] * len(tasks)
    t0 = time.time()
    while pending or running:
        while pending and len(running) < nproc:
            i, t = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(t, b))
            p.start()
            b.close()
            running[i] = (p, a, time.time(), t)
        time.sleep(0.01)
        for i in list(running):
            p, a, ts, t = running[i]
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = None
                p.join(5)
                if r is None:
                    r = _und("worker died (exit %s)" % p.exitcode)
            elif not p.is_alive():
                r = _und("worker died (exit %s)" % p.exitcode)
            elif time.time() - ts > t[1].get("_limit", t[0]["limit"]) + 120 or time.time() - t0 > budget_s:
                p.kill()
                p.join()
                r = _und("time limit")
            if r is not None:
                results[i] = r
                a.close()
                del running[i]
                if os.environ.get("VSYM_FAILFAST") and r["violations"]:
                    for q in running.values():
                        q[0].kill()
                    return [x or _und("not run") for x in results]
                if verbose:
                    print("  [%s] %-40s %-40s %6.1fs %s" % (r["status"], t[0]["name"], cfg_name(t[1]), r["wall_s"],
                          str([(v["label"], str(v["detail"])[:300]) for v in r["violations"]] or r["undecided"] or "")[:1500]), flush=True)
                    if r.get("trace"):
                        print(r["trace"][-2500:])
    return results


def _und(msg):
    return {"status": "undecided", "violations": [], "known": [], "undecided": [("worker", msg)],
            "samples": [], "stats": {}, "wall_s": 0}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=int(os.environ.get("VSYM_JOBS", "0")) or min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    scs = load(a.prop)
    if a.prop not in scs:
        print("unknown property", a.prop)
        return 2
    if a.replay:
        return replay(scs, a.replay)
    known = [k for k in load_known() if k.get("property") == a.prop and k.get("status") == "known"]
    tasks = []
    for sc in scs[a.prop]:
        if a.only and a.only not in sc["name"]:
            continue
        cfgs = sc["quick"] + (sc["thorough"] if a.tier == "thorough" else [])
        for c in cfgs:
            kl = [k["label"] for k in known if k["scenario"] == sc["name"]
                  and all(c.get(x) == y for x, y in k.get("config", {}).items())]
            tasks.append((sc, dict(c), tuple(kl), seed))
    budget = 850 if a.tier == "quick" else 6 * 3600
    results = run_tasks(tasks, a.j, budget, a.v)
    # ---------------- report
    rc = 0
    viol = []
    und = []
    kn = {}
    for (sc, c, kl, _), r in zip(tasks, results):
        for v in r["violations"]:
            viol.append((sc, c, v))
        for l, d in r["undecided"]:
            und.append((sc["name"], cfg_name(c), l, d))
        for k in r["known"]:
            kn.setdefault((sc["name"], k["label"]), k["detail"])
    for k in known:
        for (sn, lab), det in kn.items():
            if sn == k["scenario"] and lab == k["label"]:
                print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]))
                break
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    for n, (sc, c, v) in enumerate(viol):
        p = os.path.join(HERE, "evidence", "replay_%s_%d.json" % (a.prop, n))
        json.dump({"property": a.prop, "scenario": sc["name"], "config": c, "claim": v["label"],
                   "detail": v["detail"], "asserted": v["asserted"], "inputs": v["inputs"],
                   "how": "cd /verif && /opt/venv/bin/python run.py %s --replay %s" % (a.prop, p)},
                  open(p, "w"), indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (a.prop, p))
        print("  %s [%s] %s: %s" % (sc["name"], cfg_name(c), v["label"], str(v["detail"])[:400]))
        rc = 1
    if rc == 0 and und:
        # undecided configurations are reported and never counted as held; the exit status
        # speaks only about what was explored, so at least one configuration must be decided
        # and no counterexample of a value claim may be left unexplained
        for u in und[:20]:
            print("UNDECIDED %s [%s] %s: %s" % (u[0], u[1], u[2], str(u[3])[:1500]))
        hard = [u for u in und if "did not reproduce" in str(u[3]) and u[2] != "no-exception"]
        if hard or not any(r["status"] == "ok" for r in results) or os.environ.get("VSYM_STRICT"):
            rc = 2
    evidence(a, seed, tasks, results, viol, und, kn, time.time() - t0)
    st = sum(1 for r in results if r["status"] == "ok")
    print("%s %s: %d/%d harness configurations decided, %.1f s, exit %d" % (
        a.prop, a.tier, st, len(results), time.time() - t0, rc))
    return rc


def evidence(a, seed, tasks, results, viol, und, kn, wall):
    tot = {}
    fns = set()
    for r in results:
        for k, v in r["stats"].items():
            if k == "functions":
                fns.update(v)
            elif k == "maxterms":
                tot[k] = max(tot.get(k, 0), v)
            else:
                tot[k] = tot.get(k, 0) + v
    harn = []
    samples = []
    for (sc, c, kl, _), r in zip(tasks, results):
        harn.append({"harness": sc["name"], "config": cfg_name(c), "status": r["status"], "wall_s": r["wall_s"],
                     "paths": r["stats"].get("paths"), "assertions": r["stats"].get("claims"),
                     "queries": r["stats"].get("queries")})
        if len(samples) < 8:
            samples += r["samples"][:1]
    ev = {
        "property": a.prop, "tier": a.tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Bounded symbolic execution of the real Python functions (listed under functions_encoded) "
                           "on exact symbolic scalars; every assertion instance is discharged by z3 (negation unsat) "
                           "for all values of the symbolic inputs within the sizes named in each harness "
                           "configuration; sat answers are replayed on the unpatched code.",
            "harness_configurations": harn,
            "bounds": sorted({"%s: %s" % (sc["name"], sc["bounds"]) for sc, c, k, s in tasks if sc["bounds"]}),
            "about": sorted({"%s: %s" % (sc["name"], sc["about"]) for sc, c, k, s in tasks if sc["about"]}),
            "functions_encoded": sorted(fns),
            "paths": tot.get("paths", 0), "assertions": tot.get("claims", 0),
            "scalar_obligations": tot.get("scalars", 0), "scalar_obligations_with_symbolic_content": tot.get("nontrivial", 0),
            "solver_queries": tot.get("queries", 0), "queries_unsat": tot.get("unsat", 0),
            "queries_sat": tot.get("sat", 0), "queries_unknown": tot.get("unknown", 0),
            "solver_s": round(tot.get("solver_s", 0), 3), "largest_polynomial_terms": tot.get("maxterms", 0),
            "reachability_witnesses": tot.get("witness", 0),
            "encodings_validated_against_real_code": tot.get("validated", 0),
            "undecided": ["%s [%s] %s: %s" % (u[0], u[1], u[2], str(u[3])[:300]) for u in und],
            "known_findings": ["%s: %s" % (k[0], k[1]) for k in kn],
            "samples": samples,
        },
        "wall_s": round(wall, 2),
        "assumptions": [
            "floating point is read as exact real/complex arithmetic (coefficient differences below 1e-9 are rounding)",
            "divisors are nonzero and square-root arguments non-negative where the code divides / takes roots",
            "numpy/scipy primitives are represented by exact counterparts (vsym/shim.py); numba kernels are executed "
            "from their Python source and compared with the compiled kernel at concrete points",
            "sizes (orbitals, walkers, modes, Fock states) are those in each harness configuration; larger sizes are outside the claim",
        ],
        "violations": ["%s [%s] %s: %s" % (sc["name"], cfg_name(c), v["label"], str(v["detail"])[:300]) for sc, c, v in viol],
    }
    p = os.path.join(HERE, "evidence", a.prop + ".json")
    if os.environ.get("VSYM_NOEVID"):
        return
    json.dump(ev, open(p, "w"), indent=1, default=str)


def replay(scs, path):
    d = json.load(open(path))
    from vsym.core import run_numeric
    for sc in scs[d["property"]]:
        if sc["name"] == d["scenario"]:
            ctx, err = run_numeric(sc["fn"], d["config"], d["inputs"])
            for f in ctx.failures:
                print("FAILS", f)
            if isinstance(err, Exception):
                print("RAISES", repr(err))
            return 1 if ctx.failures or isinstance(err, Exception) else 0
    return 2


if __name__ == "__main__":
    sys.exit(main())
