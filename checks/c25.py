"""The steady-state solver: for every history of scales, bounds and objectives requested on a model, the problem it
poses - objective, constraints, their derivatives and structures, bounds handed to the optimiser - is the requested objective and the
operating conditions on the model's own equations with the model's parameters, and results come back under the right names."""
import contextlib
import io

import numpy as np

from lumos.optimal_control.model_solver import ModelSolver
from symx import backends

from . import backend_common as B
from . import ocp_common as O
from .c16 import _num_hess

BOUNDS = ("small library and composed models (drone, track kinematics, nested composition, function-heavy model) with derivatives, the "
          "vehicle and the vehicle on track without; histories of up to 3 (thorough: 4) symbolic choices among scales, bounds, "
          "objectives, removed objectives and rejected requests, parameters changed afterwards; all parameters, decision variables, multipliers, scales, bounds "
          "and weights symbolic; casadi backend (the only one offered)")
INF = float("inf")


def _close(v):
    try:
        return bool(np.isinf(float(v)))
    except Exception:
        return False


def _full(ctx, n, m, rows, cols, vals):
    rows, cols = np.ravel(rows), np.ravel(cols)
    vals = np.ravel(np.asarray(vals))
    ctx.check("count", len(rows) == len(cols) == len(vals))
    out = B.np.zeros((n, m), dtype=object if ctx.symbolic else float)
    for r, c, v in zip(rows, cols, vals):
        out[int(r), int(c)] = out[int(r), int(c)] + v
    return out


def problem(ctx, name, steps, deriv="", part=None):
    con = B.CON.get(name) or B.CON[name.split("-")[0]]
    con = con[:2]
    x_sol = None
    with backends.captured(ctx):
        m = B.make(name, con=False)
        m.set_recursive_params(B.params(ctx, m))
        had = m.get_recursive_params().to_flat_dict()[0]
        ms = ModelSolver(m, "casadi", con_outputs=list(con))
        names = [(g, n) for g in ("states", "inputs", "states_dot", "con_outputs") for n in m.get_group_names(g)]
        ctx.check("size", ms.num_dec == len(names))
        ctx.check("names", list(ms.input_names) == [f"{g}.{n}" for g, n in names])
        at = {gn: i for i, gn in enumerate(names)}
        scale, lo, hi, objs = {gn: 1.0 for gn in names}, {gn: -INF for gn in names}, {gn: INF for gn in names}, {}
        some = [("states", m.get_group_names("states")[-1]), ("inputs", m.get_group_names("inputs")[0]), ("con_outputs", con[-1]),
                ("states_dot", m.get_group_names("states_dot")[0])]
        some = [s for s in some if s in at]
        for k in range(steps):
            op = part[k] if part else ctx.choice(f"step{k}", ("scale", "objective", "bound", "remove", "rejected"))
            gn = some[(k - (op != "scale")) % len(some)]  # so that requests meet on the same variable
            if op == "bound":
                gn = some[(k // 2) % len(some)]  # also bounds and bounds
            if op == "scale":
                gn = some[k % 3] if some[k % 3][0] != "states_dot" else some[0]
                v = ctx.real(f"scale{k}", lo=0.1, hi=20)
                ms.set_var_scale(*gn, v)
                scale[gn] = v
            elif op == "objective":
                w = (ctx.real(f"weight{k}", lo=-3, hi=3), 2.5, -1.0)[k % 3]
                objs[ms.add_obj_from_var(*gn, weight=w)] = (gn, w)
                # asked for again with another weight: both count
                more = ms.add_obj_from_var(*gn, weight=0.125 * (k + 1))
                ctx.check("another-objective", more not in objs)
                objs[more] = (gn, 0.125 * (k + 1))
                if k % 2 == 0:  # weights that are close are still two
                    for w in (1.0000125, 1.000025):
                        more = ms.add_obj_from_var(*some[k % len(some)], weight=w)
                        ctx.check("close-weights", more not in objs)
                        objs[more] = (some[k % len(some)], w)
            elif op == "bound":
                a = ctx.real(f"bound{k}", lo=-9, hi=9)
                if k % 2:
                    ms.set_bounds(*gn, a)
                    lo[gn] = hi[gn] = a
                else:
                    b = a + ctx.real(f"width{k}", lo=0, hi=4)
                    ms.set_bounds(*gn, (a, b))
                    lo[gn], hi[gn] = a, b
            elif op == "remove":
                if objs:
                    first = sorted(objs, key=str)[0]
                    ms.delete_objective(first)
                    del objs[first]
            else:
                a = ctx.real(f"bad{k}", lo=0.1, hi=9)
                ctx.raises("contradictory-bounds", AssertionError, lambda: ms.set_bounds(*gn, (a, -a)))
                ctx.raises("scale-of-derivative", KeyError, lambda: ms.set_var_scale("states_dot", m.get_group_names("states_dot")[0], a))
                ctx.raises("scale-of-unknown", KeyError, lambda: ms.set_var_scale("states", "nothing", a))
                ctx.raises("not-positive", AssertionError, lambda: ms.set_var_scale(*some[0], -a))
                ctx.raises("unknown-variable", Exception, lambda: ms.set_bounds("states", "nothing", a))
                ctx.raises("unknown-variable", Exception, lambda: ms.add_obj_from_var("states", "nothing"))
        s = ctx.array([scale[gn] for gn in names])
        st, _ = B.stage(ctx, m, 0)
        x = np.concatenate([st[g] for g in ("states", "inputs", "states_dot", "con_outputs")])
        z = x / s  # what the optimiser works on
        # bounds: physical for the user, scaled for the optimiser
        for gn in names:
            for got, want in zip(ms.get_bounds(*gn), (lo[gn], hi[gn])):
                if _close(want):
                    ctx.check("unbounded", _close(got) and float(got) == want)
                else:
                    ctx.eq("bounds", got, want)
        # a separate model with the same parameters is what the constraints are about
        ref = B.make(name, con=False)
        ref.set_con_outputs(tuple(con))
        tree = m.get_recursive_params()
        ref.set_recursive_params(tree)

        def res(x):
            d = dict(zip(("states", "inputs", "states_dot", "con_outputs"),
                         np.split(np.asarray(x), np.cumsum([len(st[g]) for g in ("states", "inputs", "states_dot")]))))
            r = ref.forward_with_arrays(d["states"], d["inputs"], 0.0)
            return np.concatenate([r.states_dot - d["states_dot"], r.con_outputs - d["con_outputs"], r.residuals])
        rs = np.concatenate([[scale["states", n] for n in m.get_group_names("states")], [scale["con_outputs", n] for n in con],
                             np.ones(m.num_residuals)])
        want = res(x) / rs
        ctx.check("constraint-count", ms.num_con == len(want))
        ctx.eq("constraints", np.ravel(np.asarray(ms.constraints(z))), want, tol=1e-6)
        ctx.eq("equalities", [*ms.cl, *ms.cu], np.zeros(2 * len(want)))
        obj = 0.0
        grad = [0.0] * len(names)
        for gn, w in objs.values():
            obj = obj + w * x[at[gn]]
            grad[at[gn]] = grad[at[gn]] + w * s[at[gn]]
        if objs:
            ctx.eq("objective", ms.objective(z), obj)
            ctx.eq("gradient", ms.gradient(z), grad)
        # the solve
        sol = ctx.vec("sol", len(names), lo=-3, hi=3)
        with O.StubIpopt(sol) as ip:
            got, info = ms.solve(x, print_level=0)
            made = ip.made[-1]
            ctx.eq("start", ip.solved[-1], z)
        for k, bounds in (("lb", lo), ("ub", hi)):
            for gn in names:
                if _close(bounds[gn]):
                    ctx.check("optimiser-unbounded", _close(made[k][at[gn]]) and float(made[k][at[gn]]) == bounds[gn])
                else:
                    ctx.eq("optimiser-bounds", made[k][at[gn]], bounds[gn] / scale[gn])
        ctx.check("optimiser-size", made["n"] == len(names) and made["m"] == len(want))
        ctx.eq("optimiser-equalities", [*made["cl"], *made["cu"]], np.zeros(2 * len(want)))
        ctx.eq("solution", [ms.get_var(got, *gn) for gn in names], sol * s)
        if not objs:
            ctx.eq("feasibility-only", [ms.objective(z), *ms.gradient(z)], np.zeros(1 + len(names)))
        now = m.get_recursive_params().to_flat_dict()[0]
        for p in had:
            ctx.eq("parameters-kept", now[p], had[p])
        if not deriv:
            return
        # (a path through a where has its kink)
        if name == "functions":
            ctx.assume(ctx.any_(st["states"][0] - st["inputs"][0] > 0.03, st["states"][0] - st["inputs"][0] < -0.03))
        nv, nc = len(names), len(want)
        J = _full(ctx, nc, nv, *ms.jacobianstructure(), ms.jacobian(z))
        D = ctx.gradient(res(x), list(x), res, x)
        for i in range(nc):
            for j in range(nv):
                ctx.eq("jacobian", J[i, j], D[i][j] * s[j] / rs[i], tol=1e-5)
        lam = ctx.vec("lam", nc, lo=-2, hi=2)
        f = ctx.real("factor", lo=0, hi=2)
        H = _full(ctx, nv, nv, *ms.hessianstructure(), ms.hessian(z, lam, f))
        r, c = ms.hessianstructure()
        ctx.check("triangle", all(int(i) <= int(j) for i, j in zip(r, c)) or all(int(i) >= int(j) for i, j in zip(r, c)))
        if ctx.symbolic:
            g = [sum((lam[i] / rs[i] * D[i][j] for i in range(nc)), 0.0) for j in range(nv)]
            E = ctx.gradient(g, list(x))
        else:
            E = _num_hess(lambda y: float(np.dot(lam / rs, np.asarray(res(y), dtype=float))), np.asarray(x, dtype=float))
        for i in range(nv):
            for j in range(nv):
                a, b = H[i, j], H[j, i]
                ctx.eq("hessian", a if i == j else a + b, E[i][j] * s[i] * s[j], tol=1e-3)


def drift(ctx, name):
    """parameters of the model that are changed after the problem was made: constraints and their derivatives stay those of one
    and the same model (the former or the new one)"""
    with backends.captured(ctx):
        m = B.make(name, con=False)
        m.set_recursive_params(B.params(ctx, m))
        ms = ModelSolver(m, "casadi", con_outputs=list(B.CON[name][:2]))
        x = ctx.vec("x", ms.num_dec, lo=0.25, hi=2)
        ctx.assume(x[0] - x[2] > 0.03)  # (a path through a where has its kink)
        tree = m.get_recursive_params()
        for p, v in tree.to_flat_dict()[0].items():
            if np.ndim(v) == 0:
                tree.set_param(p, v * ctx.real("f." + p, lo=1.5, hi=2))
        m.set_recursive_params(tree)
        g = lambda z: np.ravel(np.asarray(ms.constraints(z)))
        c = g(x)
        nc, nv = len(c), ms.num_dec
        J = _full(ctx, nc, nv, *ms.jacobianstructure(), ms.jacobian(x))
        D = ctx.gradient(c, list(x), g, x)
        for i in range(nc):
            for j in range(nv):
                ctx.eq("jacobian", J[i, j], D[i][j], tol=1e-5)
        lam = ctx.vec("lam", nc, lo=-2, hi=2)
        H = _full(ctx, nv, nv, *ms.hessianstructure(), ms.hessian(x, lam, 1.0))
        if ctx.symbolic:
            E = ctx.gradient([sum((lam[i] * D[i][j] for i in range(nc)), 0.0) for j in range(nv)], list(x))
        else:
            E = _num_hess(lambda y: float(np.dot(lam, g(y))), np.asarray(x, dtype=float))
        for i in range(nv):
            for j in range(nv):
                ctx.eq("hessian", H[i, j] if i == j else H[i, j] + H[j, i], E[i][j], tol=1e-3)


def printed(ctx):
    """print_result names every variable with its value"""
    with backends.captured(ctx):
        m = B.make("drone", con=False)
        ms = ModelSolver(m, "casadi")
        x = np.arange(1.0, ms.num_dec + 1)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            ms.print_result(x)
        lines = buf.getvalue().split("\n")
        for i, n in enumerate(ms.input_names):
            ctx.check("printed", any(n in ln and str(x[i]) in ln for ln in lines))
        ctx.check("no-constraint-outputs", m.num_con_outputs == 0 and ms.num_con == m.num_states)
        ctx.raises("other-backend", Exception, lambda: ModelSolver(B.make("drone"), "numpy"))


def tasks(tier):
    th = tier == "thorough"
    out = []
    for name in ("drone", "kinematics", "composed", "functions"):
        out.append(dict(name=f"history-{name}", harness="problem", params=dict(name=name, steps=4 if th else 3), cost=10))
        for i, part in enumerate((("scale", "scale", "scale"), ("objective", "scale", "scale"), ("scale", "objective", "objective"))):
            out.append(dict(name=f"derivatives-{name}-{i}", harness="problem", params=dict(name=name, steps=3, deriv="jh", part=part), cost=10))
    for name in ("vehicle-perantoni", "vehicle-mf52", "track-perantoni", "track-mf52"):
        for i, part in enumerate((("scale", "objective", "bound"), ("objective", "scale", "scale"))):
            out.append(dict(name=f"{name}-{i}", harness="problem", params=dict(name=name, steps=3, part=part), cost=30))
    for name in ("composed", "functions"):
        out.append(dict(name=f"drift-{name}", harness="drift", params=dict(name=name), cost=10))
    out.append(dict(name="printed", harness="printed", params={}))
    return out
