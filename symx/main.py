"""check runner:  python -m symx.main C01 [--tier quick|thorough] | --replay FILE"""
import argparse
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection  # noqa: F401
import os
import resource
import shutil
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True

BUDGET = {"quick": 600, "thorough": 780}


def _start_trace(seen):
    mon = sys.monitoring
    tid = mon.PROFILER_ID
    try:
        mon.use_tool_id(tid, "symx")
    except ValueError:
        return

    def on_start(code, _off):
        f = code.co_filename
        i = f.find("/lumos/")
        if i >= 0 and "site-packages" not in f:
            seen.add(f[i + 1:] + ":" + code.co_qualname)
        return mon.DISABLE

    mon.register_callback(tid, mon.events.PY_START, on_start)
    mon.set_events(tid, mon.events.PY_START)


def run_task(job):
    prop, idx, task, seed, deadline = job
    import numpy as np
    np.random.seed(seed)
    seen = set()
    _start_trace(seen)
    from symx import engine, smt
    for k in smt.STATS:
        smt.STATS[k] = 0 if k != "seconds" else 0.0
    try:
        mod = importlib.import_module("checks." + prop.lower())
        h = getattr(mod, task["harness"])
        opts = dict(task.get("opts", {}))
        r = engine.explore(h, task.get("params", {}), seed=seed, deadline=deadline, **opts)
    except BaseException as e:  # engine failure: no verdict
        r = {"status": "inconclusive", "note": "".join(traceback.format_exception(e)), "paths": 0,
             "obligations": 0, "labels": {}, "witness": None, "wall": 0, "stats": dict(smt.STATS),
             "violation": None, "forks": 0}
    r["task"] = task["name"]
    r["idx"] = idx
    r["functions"] = sorted(seen)
    import logging
    logging.shutdown()
    return r


MEMORY = 14 << 30  # one instance out of hand must not take the machine with it


def _child(job, conn):
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    try:
        conn.send(run_task(job))
        conn.close()
    finally:
        os._exit(0)


def _lost(job, why):
    from symx import smt
    return {"status": "inconclusive", "note": why, "paths": 0, "obligations": 0, "labels": {}, "witness": None,
            "wall": 0.0, "stats": {k: 0 for k in smt.STATS}, "violation": None, "forks": 0,
            "task": job[2]["name"], "idx": job[1], "functions": []}


AFTER_VIOLATION = 60


def pool(jobs, deadline, width=8, stop=lambda r: False):
    """one forked process per harness instance, at most `width` at a time; a process that dies
    or overruns yields an inconclusive result, never silence"""
    ctx = mp.get_context("fork")
    todo, live, why = list(jobs), {}, "time limit"
    while todo or live:
        while todo and len(live) < width:
            j = todo.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(j, w))
            p.start()
            w.close()
            live[r] = (p, j)
        ready = mp.connection.wait(list(live), timeout=max(0.1, min(5.0, deadline - time.time())))
        for r in ready:
            p, j = live.pop(r)
            try:
                out = r.recv()
            except EOFError:
                p.join()
                out = _lost(j, f"the process running the instance died (exit code {p.exitcode})")
            p.join()
            r.close()
            if stop(out) and time.time() + AFTER_VIOLATION < deadline:
                # the verdict is known: the other instances get a little longer, to report theirs
                deadline, why = time.time() + AFTER_VIOLATION, "stopped after a violation"
            yield out
        if time.time() > deadline:
            for r, (p, j) in live.items():
                p.kill()
                yield _lost(j, why)
            for j in todo:
                yield _lost(j, why)
            return


def _known(findings, r):
    label = r["violation"]["label"]
    return any(f.get("task") == r["task"] and f.get("label", label) == label for f in findings)


def load_findings():
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                d = {}
                head, _, text = line[len("finding:"):].partition(" :: ")
                for kv in head.split():
                    k, _, v = kv.partition("=")
                    d[k] = v
                d["text"] = text
                out.append(d)
    return out


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return str(x)


def replay(path):
    d = json.load(open(path))
    mod = importlib.import_module("checks." + d["property"].lower())
    from symx import engine
    task = next(t for t in mod.tasks("thorough") + mod.tasks("quick") if t["name"] == d["task"])
    k, out = engine.run_concrete(getattr(mod, task["harness"]), task.get("params", {}), d["assignment"])
    if k == "violation":
        print(f"reproduced: property={d['property']} task={d['task']} {out.label}: {out.detail}")
        return 1
    print(f"not reproduced ({k})")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--serial", action="store_true")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        import z3
        x = z3.Real("x")
        s = z3.Solver()
        s.add(x * x < 0)
        import lumos  # noqa: F401
        print("z3", z3.get_version_string(), "lumos", os.path.dirname(lumos.__file__))
        return 0 if s.check() == z3.unsat else 2
    seed = int(os.environ.get("VERIF_SEED", "1"))
    evdir = os.path.join(ROOT, "evidence")
    repdir = os.path.join(ROOT, "evidence", "replays")
    scratch = tempfile.mkdtemp(prefix="lumosverif.")
    os.chdir(scratch)
    try:
        if a.replay:
            return replay(a.replay)
        return run(a, seed, evdir, repdir)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def run(a, seed, evdir, repdir):
    t0 = time.time()
    prop = a.prop.upper()
    os.makedirs(evdir, exist_ok=True)
    os.makedirs(repdir, exist_ok=True)
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    try:
        mod = importlib.import_module("checks." + prop.lower())
        tasks = mod.tasks(a.tier)
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={prop} the harness could not be loaded")
        return 2
    if a.only:
        tasks = [t for t in tasks if a.only in t["name"]]
    findings = [f for f in load_findings() if f.get("property") == prop]
    deadline = t0 + BUDGET.get(a.tier, 780)
    jobs = [(prop, i, t, seed, deadline) for i, t in enumerate(tasks)]
    jobs.sort(key=lambda j: -j[2].get("cost", 1))
    results = []
    if a.serial:
        for j in jobs:
            results.append(run_task(j))
    else:
        def stop(r):
            return r["status"] == "violation" and not _known(findings, r)
        for r in pool(jobs, deadline + 45, stop=stop):
            results.append(r)
            if a.v:
                print(f"  [{time.time()-t0:6.1f}s] {r['task']}: {r['status']} paths={r['paths']} "
                      f"obl={r['obligations']} {r['wall']:.1f}s", flush=True)
    results.sort(key=lambda r: r["idx"])
    code = 0
    nviol = 0  # every violation gets its line, the first five also their details
    for r in results:
        if r["status"] == "violation":
            v = r["violation"]
            if _known(findings, r):
                r["status"] = "known"
                continue
            nviol += 1
            path = os.path.join(repdir, f"{prop}_{r['task'].replace('/', '_')}.json")
            with open(path, "w") as f:
                json.dump(jsonable({"property": prop, "task": r["task"], "label": v["label"], "detail": v["detail"],
                                    "symbolic": v["symbolic_detail"], "assignment": v["assignment"]}), f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            if nviol <= 5:
                print(f"  task {r['task']}: {v['label']}: {v['detail']}"[:600])
                print("  inputs: " + json.dumps(jsonable(v["assignment"]))[:300])
            code = 1
    for f in findings:
        print(f"KNOWN-FINDING: property={prop} {f['text']}")
    for r in results:
        if r["status"] == "inconclusive" and r["note"] != "stopped after a violation":
            print(f"INCONCLUSIVE property={prop} task={r['task']}: {r['note'][-1500:]}")
            if code == 0:
                code = 2
    st = {}
    for r in results:
        for k, x in r["stats"].items():
            st[k] = st.get(k, 0) + x
    fns = sorted({f for r in results for f in r["functions"]})
    obligations = sum(r["obligations"] for r in results)
    doc = (mod.__doc__ or "").strip()
    ev = {
        "property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed,
        "level": getattr(mod, "LEVEL", "other"),
        "coverage": {
            "explanation": "solver-based symbolic execution of the real code: every obligation below was "
                           "decided for all values of the symbolic inputs within the stated bounds. " + doc,
            "bounds": getattr(mod, "BOUNDS", ""),
            "functions_encoded": fns,
            "harness_instances": len(results),
            "paths": sum(r["paths"] for r in results),
            "forks": sum(r.get("forks", 0) for r in results),
            "obligations": obligations,
            "solver_queries": st.get("queries", 0), "unsat": st.get("unsat", 0), "sat": st.get("sat", 0),
            "unknown": st.get("unknown", 0), "branch_queries": st.get("branch_queries", 0),
            "equations_normalised_to_0": st.get("nf_discharged", 0),
            "of_these_also_decided_by_z3_unnormalised": st.get("raw_discharged", 0),
            "solver_seconds": round(st.get("seconds", 0.0), 2),
            "samples": [{"task": r["task"], "status": r["status"], "paths": r["paths"],
                         "obligations": r["obligations"], "labels": r["labels"],
                         "wall_s": round(r["wall"], 2)} for r in results][:60],
            "witnesses": [jsonable({"task": r["task"], **r["witness"]}) for r in results if r["witness"]][:5],
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
            "arithmetic is exact real arithmetic: IEEE rounding, overflow and NaN propagation are outside",
            "numpy object-array execution computes the same function as numpy float execution",
        ],
        "violations": nviol,
    }
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(jsonable(ev), f, indent=1)
    print(f"{prop} {a.tier}: {len(results)} harness instances, {ev['coverage']['paths']} paths, {obligations} obligations, "
          f"{ev['coverage']['solver_queries']} queries, {ev['wall_s']}s, exit {code}")
    return code


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
