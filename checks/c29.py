"""Sparsity of the models' equations: for each library model, each way of composing it and each backend,
an equation whose entry for a variable is missing from the Jacobian structure does not change when that variable
changes, whatever the rest; a pair missing from the Hessian structure (in both orders) has no interaction (mixed difference) in any
equation - for all states, inputs, mesh points and parameters, whatever the parameters were when the structure was made.
The same for the structures of whole problems made of these models."""
import numpy as np

from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP
from symx import backends

from . import backend_common as B

BOUNDS = ("models of CATALOG (library models and composed variants) on jax and casadi, built with default parameters and with all "
          "parameters that may be zero set to zero; arbitrary further values of every variable; Hessian structure of the vehicle models: every pair "
          "of variables that is missing; whole problems: 2 intervals, lifted and condensed")
GROUPS = ("states", "inputs", "states_dot", "con_outputs")


def _eval(ctx, m, cut, mesh):
    def f(x):
        st = dict(zip(GROUPS, np.split(np.asarray(x), cut)))
        r = m.forward_with_arrays(st["states"], st["inputs"], mesh)
        return np.concatenate([r.states_dot - st["states_dot"], r.con_outputs - st["con_outputs"], r.residuals])
    return f


def _zeros(m, name):
    """parameters set to zero as far as the model can be evaluated with them"""
    t = m.get_recursive_params()
    for p, d in m.get_recursive_default_params().to_flat_dict()[0].items():
        if np.shape(d) or name in ("drone", "composed", "functions", "kinematics"):
            t.set_param(p, np.asarray(d, dtype=float) * 0.0 if np.shape(d) else 0.0)
        elif any(k in p for k in ("Cx", "Cz", "drag", "roll", "LCX", "RBX", "RBY", "PDX2", "PHX", "PVX", "PHY", "PVY")):
            t.set_param(p, 0.0)
    m.set_recursive_params(t)


def model(ctx, name, backend, hess):
    with backends.captured(ctx):
        m = B.make(name)
        if ctx.choice("built-with", ("defaults", "zeros")) == "zeros":
            _zeros(m, name)
        m.make_model_algebra_cons(backend)
        js = {(int(r), int(c)) for r, c in zip(*[np.ravel(v) for v in m.model_algebra.jacobianstructure()])}
        hs = {(int(r), int(c)) for r, c in zip(*[np.ravel(v) for v in m.model_algebra.hessianstructure()])}
        ref = B.make(name)
        ref.set_recursive_params(B.params(ctx, ref))
        st, mesh = B.stage(ctx, ref, 0)
        other, _ = B.stage(ctx, ref, 1)
        x, y = (np.concatenate([s[g] for g in GROUPS]) for s in (st, other))
        cut = np.cumsum([len(st[g]) for g in GROUPS])[:-1]
        f = _eval(ctx, ref, cut, mesh)
        base = f(x)
        nr, nv = len(base), len(x)
        ctx.check("inside", all(0 <= r < nr and 0 <= c < nv for r, c in js) and all(0 <= a < nv and 0 <= b < nv for a, b in hs))

        def at(*idx):
            z = x.copy()
            for i in idx:
                z[i] = y[i]
            return f(z)
        one = [None] * nv
        for j in range(nv):
            out = [i for i in range(nr) if (i, j) not in js]
            if out or hess:
                one[j] = at(j)
            if out:
                ctx.eq("jacobian", [one[j][i] for i in out], [base[i] for i in out])
        if not hess:
            return
        for j in range(nv):
            for k in range(j, nv):
                if (j, k) in hs or (k, j) in hs:
                    continue
                if j == k:
                    # no curvature along j: any third value lies on the line
                    t = ctx.real(f"t{j}", lo=-1, hi=2)
                    z = x.copy()
                    z[j] = x[j] + t * (y[j] - x[j])
                    ctx.eq("hessian", f(z), base + t * (one[j] - base))
                else:
                    # equations without one of the two need no evaluation: they have just been shown not to depend on it
                    rows = [i for i in range(nr) if (i, j) in js and (i, k) in js]
                    if rows:
                        ctx.eq("hessian", (at(j, k) - one[j] - one[k] + base)[rows], [0.0] * len(rows))


def problem(ctx, name, backend, condensed):
    """a problem built with parameters that make derivatives vanish"""
    with backends.captured(ctx):
        m = B.make(name, con=False)
        if ctx.choice("built-with", ("defaults", "zeros")) == "zeros":
            _zeros(m, name)
        con = B.CON.get(name) or B.CON[name.split("-")[0]]
        o = ScaledMeshOCP(m, ScaledMeshOCP.get_sim_config(num_intervals=2, transcription="Trapezoidal", backend=backend,
                                                          is_condensed=condensed, con_output_names=con))
        tree = B.params(ctx, m)
        for p, v in tree.to_flat_dict()[0].items():
            o.modify_model_param(p, v)
        js = {(int(r), int(c)) for r, c in zip(*[np.ravel(v) for v in o.jacobianstructure()])}
        op = o.dec_var_operator

        def var(tag):
            out = {}
            for g in GROUPS:
                names = m.get_group_names(g)
                out[g] = np.stack([ctx.array([B.value(ctx, f"{tag}{k}.{g}.{n}", n, None) for n in names]) for k in range(op.num_stages)])
            return op.flatten_var(mesh_scale=ctx.real(tag + "mesh", lo=0.5, hi=2), **out)
        x, y = var("x"), var("y")
        base = o.constraints(x)
        # (the derivative by a scaled mesh is documented not to be taken)
        for j in range(len(x) - 1):
            out = [i for i in range(len(base)) if (i, j) not in js]
            if not out:
                continue
            z = x.copy()
            z[j] = y[j]
            c = o.constraints(z)
            ctx.eq("jacobian", [c[i] for i in out], [base[i] for i in out])


def tasks(tier):
    th = tier == "thorough"
    out = []
    for name in B.CATALOG:
        small = name in ("drone", "kinematics", "composed", "functions")
        for backend in ("jax", "casadi"):
            out.append(dict(name=f"{name}-{backend}", harness="model", 
                            # (the Hessian of this one is slow to decide; it is that of vehicle-perantoni and of track-mf52)
                            params=dict(name=name, backend=backend, hess=th or (name, backend) != ("track-perantoni", "casadi")),
                            opts=dict(max_paths=500), cost=2 if small else 60))
            if small or th:
                for cond in (False, True):
                    out.append(dict(name=f"problem-{name}-{backend}-{'condensed' if cond else 'lifted'}", harness="problem",
                                    params=dict(name=name, backend=backend, condensed=cond), opts=dict(max_paths=500), cost=10))
    return out
