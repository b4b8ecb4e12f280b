"""Iteration logs: for every iterate, scale, mesh and formulation, and every history of iterations and solves, each logged row holds
the physical values of the iterate it belongs to under the right names and mesh positions, with the model's outputs and the residuals of
its constraints there; every recorded iteration and the last one are in the combined log, nothing else is, and the metrics
point at the largest violation.

The log files are written, read back, sorted and combined by the real code: a symbolic value is written as a unique number, increasing
with the order of writing, and the number is turned back into the value when the harness reads the file."""
import contextlib
import glob
import os
import shutil
import tempfile
import zlib

import numpy as np
import pandas as pd

from lumos.optimal_control.config import LoggingConfig
from symx.term import Sym

from . import ocp_common as O

BOUNDS = ("scaled/fixed mesh x lifted/condensed x cyclic or not x 3 transcriptions x three model shapes, 1..2 intervals; solves of 1..3 "
          "iterations (thorough: 4) with rejected trial points and repeated notifications as symbolic choices, one or two solves, or one after one that breaks off, "
          "recording every 0,1,2,3 iterations; decision vectors, scales, mesh, model coefficients and metrics symbolic (the largest "
          "violation: fixed numbers)")
ASSUMPTIONS = ["the optimiser evaluates the objective at an accepted iterate last before it reports the iteration (Ipopt's callback does not pass "
               "the iterate); it reports an iteration number again only with the same iterate"]
METRICS = ("alg_mod", "iter_count", "obj_value", "inf_pr", "inf_du", "mu", "d_norm", "regularization_size", "alpha_du", "alpha_pr", "ls_trials")


class Fixed:
    """numbers in place of symbolic values (choices stay)"""

    def __init__(self, ctx):
        self.ctx = ctx

    def __getattr__(self, n):
        return getattr(self.ctx, n)

    def real(self, name, lo=None, hi=None, gt=None, lt=None, nonzero=False):
        lo = lo if lo is not None else gt if gt is not None else -1.0
        hi = hi if hi is not None else lt if lt is not None else 1.0
        if name.startswith("pt"):
            return int(name[2:]) * 0.3
        return lo + (hi - lo) * (1 + zlib.crc32(name.encode()) % 9973) / 9975

    def vec(self, name, n, **k):
        return self.ctx.array([self.real(f"{name}[{i}]", **k) for i in range(n)])


@contextlib.contextmanager
def _files(ctx):
    """-> decode function for a value read from a file"""
    if not ctx.symbolic:
        yield lambda v: v
        return
    table = {}
    real = pd.DataFrame.to_csv

    def token(v):
        if isinstance(v, Sym):
            t = 1e9 + len(table)
            table[t] = v
            return t
        return v

    def to_csv(self, *a, **k):
        f = self.copy()
        for i, c in enumerate(f.columns):
            if f.dtypes.iloc[i] == object:
                f[c] = [token(v) for v in f[c]]
        return real(f, *a, **k)
    pd.DataFrame.to_csv = to_csv
    try:
        yield lambda v: table.get(v, v) if isinstance(v, float) else v
    finally:
        pd.DataFrame.to_csv = real


def _cons(ocp):
    return [c for c in ("continuity", "model_algebra", "cyclic") if c in ocp._constraints]


def _rows(ctx, ocp, sh, p, xh):
    """what one logged iterate should say: list over stages of {column: value}"""
    op, m = ocp.dec_var_operator, ocp.model
    ns = op.num_stages
    x = xh * ocp._dec_var_scales
    scale = ocp._mesh_scale if isinstance(ocp, O.FixedMeshOCP) else x[int(op.get_var_index_in_dec("global", "mesh_scale"))]
    mesh = ocp._flat_normalized_mesh * scale
    rows = [{} for _ in range(ns)]
    for k in range(ns):
        for g in ("states", "inputs", "states_dot", "con_outputs"):
            for n in m.get_group_names(g):
                rows[k][f"{g}.{n}"] = x[int(op.get_var_index_in_dec(g, n, k))]
        ref, _ = O.make_model(ctx, sh, hasattr(ocp, "_c26_mesh"))
        ref.set_con_outputs(sh.con)
        r = ref.forward({n: rows[k][f"states.{n}"] for n in m.get_group_names("states")},
                        {n: rows[k][f"inputs.{n}"] for n in m.get_group_names("inputs")}, mesh[k])
        for n in sh.outputs:
            rows[k][f"outputs.{n}"] = r.outputs[n]
        rows[k]["mesh"] = mesh[k]
    con = ocp.split_constraints(ocp.constraints(xh))
    ni = (ns - 1) * m.num_states
    if ocp.is_condensed:
        between, at = con["model_algebra"][:ni], con["model_algebra"][ni:]
        names = [*m.get_group_names("con_outputs"), *m.get_group_names("residuals")]
    else:
        between, at = con["continuity"], con["model_algebra"]
        names = [*m.get_group_names("states_dot"), *m.get_group_names("con_outputs"), *m.get_group_names("residuals")]
    for k in range(ns):
        for i, n in enumerate(m.get_group_names("states")):
            rows[k]["interval_con." + n] = between[(k - 1) * m.num_states + i] if k else 0.0
        for i, n in enumerate(names):
            rows[k]["stage_con." + n] = at[k * len(names) + i]
        if "cyclic" in con:
            for i, n in enumerate(ocp._cyclic_vars):
                rows[k]["cyclic_con." + n] = con["cyclic"][i] if k == ns - 1 else 0.0
    return rows


def _compare(ctx, tag, frame, decode, want, it):
    ctx.check(tag + ":rows", len(frame) == len(want), f"{len(frame)} rows")
    for k, row in enumerate(want):
        for c, v in row.items():
            ctx.check(tag + ":has-" + c, c in frame.columns)
            ctx.eq(f"{tag}:{c}", decode(frame[c].iloc[k]), v)
        ctx.check(tag + ":iteration", int(frame["iter"].iloc[k]) == it)


class Boom(Exception):
    pass


def log(ctx, every, most, solves, fixed_numbers=False, mesh_dep=True, failures=0, **k):
    c = Fixed(ctx) if fixed_numbers else ctx
    d = tempfile.mkdtemp(prefix="symx")
    try:
        ocp, sh, p = O.build(c, logging_config=LoggingConfig("run", d, every), mesh_dep=mesh_dep and k["fixed"], **k)
        if mesh_dep and k["fixed"]:
            ocp._c26_mesh = True
        ctx.check("directory", os.path.isdir(ocp.logging_dir) and os.path.dirname(ocp.logging_dir) == d)
        with _files(ctx) as decode:
            for s in range(failures):  # solves that break off leave nothing in the log of the next one
                how = ctx.choice(f"how{s}", ["status", "raises"])
                n = ctx.choice(f"broken{s}", list(range(most + 2)))

                def broken(problem, x0, sol):
                    for i in range(n):
                        problem.objective(c.vec(f"b{s}.{i}", ocp.num_dec, lo=0.1, hi=2))
                        problem.intermediate(0, i, *[c.real(f"b{s}.m{i}.{j}", lo=0, hi=1) for j in range(len(METRICS) - 3)], 1)
                    if how == "raises":
                        raise Boom()
                with O.StubIpopt(c.vec("start", ocp.num_dec, lo=0.1, hi=2), callbacks=broken, info={"status": -13, "status_msg": b"bad"}):
                    ctx.raises("broken-off", Boom if how == "raises" else RuntimeError,
                               lambda: ocp.solve(c.vec("start", ocp.num_dec, lo=-2, hi=2), print_level=0))
            for s in range(solves):
                count = ctx.choice(f"count{s}", list(range(1, most + 1)))
                its = [c.vec(f"x{s}.{i}", ocp.num_dec, lo=-2, hi=2) for i in range(count)]
                if not k["fixed"]:
                    for i, x in enumerate(its):  # a mesh has a positive length
                        x[int(ocp.dec_var_operator.get_var_index_in_dec("global", "mesh_scale"))] = c.real(f"length{s}.{i}", lo=0.1, hi=2)
                mets = []

                def run(problem, x0, sol):
                    for i in range(count):
                        if i and ctx.choice(f"trial{s}.{i}", [False, True]):
                            problem.objective(c.vec(f"trial{s}.{i}", ocp.num_dec, lo=-2, hi=2))
                        problem.objective(its[i])
                        met = [0, i] + [c.real(f"m{s}.{i}.{j}", lo=0, hi=1) for j in range(len(METRICS) - 3)] + [1]
                        mets.append(met)
                        problem.intermediate(*met)
                        if i == count - 1 and ctx.choice(f"repeat{s}", [False, True]):
                            problem.intermediate(*met)
                with O.StubIpopt(its[-1], callbacks=run):
                    sol, _ = ocp.solve(c.vec("start", ocp.num_dec, lo=-2, hi=2), print_level=0)
                files = sorted(os.path.basename(f) for f in glob.glob(os.path.join(ocp.logging_dir, "*")))
                ctx.check("files", set(files) == {"results.csv", "metrics_history.csv", *(["all_iters.parquet"] if every else [])}, str(files))
                want = [_rows(c, ocp, sh, p, x) for x in its]
                res = pd.read_csv(os.path.join(ocp.logging_dir, "results.csv"))
                _compare(ctx, "results", res, decode, want[-1], count - 1)
                m = pd.read_csv(os.path.join(ocp.logging_dir, "metrics_history.csv"))
                ctx.check("metrics:rows", len(m) == count, f"{len(m)} rows for {count} iterations")
                for i in range(count):
                    for name, v in zip(METRICS, mets[i]):
                        ctx.eq("metrics:" + name, decode(m[name].iloc[i]), v)
                if not every:
                    continue
                al = pd.read_parquet(os.path.join(ocp.logging_dir, "all_iters.parquet"))
                kept = [i for i in range(count) if i % every == 0 or i == count - 1]
                ns = len(want[0])
                ctx.check("combined:iterations", list(al["iter"]) == [i for i in kept for _ in range(ns)], str(list(al["iter"])))
                for j, i in enumerate(kept):
                    _compare(ctx, "combined", al.iloc[j * ns:(j + 1) * ns], decode, want[i], i)
                if not fixed_numbers:
                    continue
                for i in range(count):
                    name, at = m["max_violation_con_name"].iloc[i], m["max_violation_mesh"].iloc[i]
                    if i not in kept:
                        ctx.check("violation:not-recorded", name == "NotRecorded" and at == -1.0)
                        continue
                    big = max(abs(float(v)) for r in want[i] for c_, v in r.items() if "_con." in c_)
                    at_ = [r for r in want[i] if abs(float(r["mesh"]) - at) < 1e-9]
                    ctx.check("violation:position", len(at_) == 1)
                    ctx.eq("violation:largest", abs(float(at_[0][name])), big, tol=1e-9)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def silent(ctx):
    """without a logging configuration nothing is written (but the optimiser's own output)"""
    d = tempfile.mkdtemp(prefix="symx")
    cwd = os.getcwd()
    os.chdir(d)
    try:
        ocp, sh, p = O.build(ctx, fixed=False, n=1)
        x = ctx.vec("x", ocp.num_dec, lo=-2, hi=2)

        def run(problem, x0, sol):
            problem.objective(x)
            problem.intermediate(0, 0, *[0.0] * 9)
        with O.StubIpopt(x, callbacks=run):
            ocp.solve(x, print_level=0)
        ctx.check("nothing-written", set(os.listdir(d)) <= {"ipopt.out"}, str(os.listdir(d)))
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def tasks(tier):
    th = tier == "thorough"
    out = []

    def add(name, **k):
        out.append(dict(name=name, harness="log", params=k, cost=20 if k["solves"] > 1 else 10))
    trs = (("Trapezoidal", "Trapezoidal"), ("LGR", ("LGR", {"num_stages": 3})), ("LGRIntegral", ("LGRIntegral", {"num_stages": 3})))
    for fixed in (False, True):
        for cond in (False, True):
            for t, tr in trs:
                for shape in ("std", "tiny", "wide"):
                    for cyc in (False, True):
                        if cyc != (shape == "std") and not th:
                            continue
                        add(f"rows-{fixed}-{cond}-{t}-{shape}-{cyc}", every=1, most=2 if th else 1, solves=1, fixed=fixed, condensed=cond, tr=tr, n=2,
                            shape=shape, cyclic=cyc, pts=True)
            for every in (0, 1, 2, 3):
                add(f"history-{fixed}-{cond}-{every}", every=every, most=4 if th else 3, solves=1, fixed=fixed, condensed=cond, n=1, shape="tiny",
                    cyclic=True, pts=False)
                add(f"largest-{fixed}-{cond}-{every}", every=every, most=3, solves=1, fixed=fixed, condensed=cond, n=2, shape="std",
                    cyclic=bool(every % 2), pts=True, fixed_numbers=True)
            add(f"again-{fixed}-{cond}", every=1, most=2, solves=2, fixed=fixed, condensed=cond, n=1, shape="tiny", pts=False)
            add(f"broken-{fixed}-{cond}", every=1 + fixed, most=2, solves=1, failures=1, fixed=fixed, condensed=cond, n=1, shape="tiny", pts=False)
            add(f"again-every-2-{fixed}-{cond}", every=2, most=2, solves=2, fixed=fixed, condensed=cond, n=1, shape="tiny", pts=False, fixed_numbers=True)
    out.append(dict(name="silent", harness="silent", params={}))
    return out
