"""Backend equivalence: for each model of the library, the constraint function, its Jacobian and Hessian
values, and the batched forward function that the jax and the casadi backends build equal the plain
python (numpy) evaluation of the model and the exact derivatives of that, for all states, inputs, mesh
points, multipliers and parameters - also parameters other than those present when the functions were
built.  The traced jax program and the generated casadi functions are read back and compared as terms."""
import numpy as np

from symx import backends
from . import backend_common as B

BOUNDS = ("the library's models and composed variants in CATALOG (vehicle with MF5.2, Perantoni and mixed tyres; constant, "
          "small GP and MLP aero), 1..2 stages; parameters (all leaves, arrays included), states, inputs, mesh symbolic "
          "within the sign ranges of the physical quantities; derivatives compared for the models marked so")


def _flat(st):
    return np.concatenate([st[g] for g in ("states", "inputs", "states_dot", "con_outputs")])


def _reference(ctx, name, tree, sts):
    """numpy evaluation, stage by stage, of a separate model object"""
    m = B.make(name)
    m.set_recursive_params(tree)
    outs, res = [], []
    for st, mesh in sts:
        r = m.forward_with_arrays(st["states"], st["inputs"], mesh)
        outs.append(r)
        res.append(np.concatenate([r.states_dot - st["states_dot"], r.con_outputs - st["con_outputs"], r.residuals]))
    return m, outs, res


def model(ctx, name, backend, stages, deriv):
    with backends.captured(ctx):
        m = B.make(name)
        if ctx.choice("replaced", [False, True]) and not deriv:
            # parameters replaced before building as well
            m.set_recursive_params(B.params(ctx, m, "early."))
        had = m.get_recursive_params().to_flat_dict()[0]
        m.make_model_algebra_cons(backend)
        tree = B.params(ctx, m)
        sts = [B.stage(ctx, m, k) for k in range(stages)]
        if name == "functions" and deriv:
            for st, _ in sts:  # (away from the kink of its where)
                ctx.assume(ctx.any_(st["states"][0] - st["inputs"][0] > 0.03, st["states"][0] - st["inputs"][0] < -0.03))
        ref, outs, res = _reference(ctx, name, tree, sts)
        X = np.stack([_flat(s) for s, _ in sts])
        mesh = ctx.array([t for _, t in sts])
        alg = m.model_algebra
        arg = tree.tree_ravel()[0] if backend == "casadi" else tree
        got = np.asarray(alg.mapped_constraints(X, mesh, arg))
        ctx.eq("constraints", got, np.stack(res))
        f = m.batched_forward(np.stack([s["states"] for s, _ in sts]), np.stack([s["inputs"] for s, _ in sts]), mesh, tree)
        for g in ("states_dot", "outputs", "con_outputs", "residuals"):
            ctx.eq("forward:" + g, np.asarray(getattr(f, g)).reshape(stages, -1),
                   np.stack([getattr(o, g) for o in outs]).reshape(stages, -1))
        # the model itself still evaluates by itself with the parameters it had
        _kept(ctx, m, had)
        if not deriv:
            return
        nr, nv = len(res[0]), X.shape[1]
        lam = ctx.mat("lam", (stages, nr), lo=-2, hi=2)

        def con(z, k):
            r = ref._apply_and_flat_implicit(np.asarray(z), sts[k][1], tree)
            return r
        J = np.asarray(alg.mapped_jacobian(X, mesh, arg)).reshape(stages, -1)
        rows, cols = [np.ravel(v) for v in alg.jacobianstructure()]
        ctx.check("jacobian-count", J.shape[1] == len(rows))
        H = np.asarray(alg.mapped_hessian(X, lam, mesh, arg)).reshape(stages, -1) if "h" in deriv else None
        for k in range(stages):
            D = ctx.gradient(res[k], list(X[k]), lambda z: con(z, k), X[k])
            got = B.np.zeros((nr, nv), dtype=object if ctx.symbolic else float)
            for r, c, v in zip(rows, cols, J[k]):
                got[r, c] = got[r, c] + v
            ctx.eq("jacobian", got, D, tol=1e-5)
            if H is None:
                continue
            rr, cc = [np.ravel(v) for v in alg.hessianstructure()]
            ctx.check("hessian-count", H.shape[1] == len(rr))
            # Hessian of the Lagrangian: derivative of its gradient
            if ctx.symbolic:
                g = [sum((lam[k][i] * D[i, j] for i in range(nr)), 0.0) for j in range(nv)]
                E = ctx.gradient(g, list(X[k]))
            else:
                E = _num_hess(lambda z: float(np.dot(lam[k], np.asarray(con(z, k), dtype=float))), np.asarray(X[k], dtype=float))
            got = B.np.zeros((nv, nv), dtype=object if ctx.symbolic else float)
            for r, c, v in zip(rr, cc, H[k]):
                got[r, c] = got[r, c] + v
            ctx.eq("hessian", got, E, tol=1e-3)


def _num_hess(f, x):
    n = len(x)
    H = np.zeros((n, n))
    h = 1e-3 * np.maximum(1.0, np.abs(x))
    for i in range(n):
        for j in range(n):
            e = np.zeros(n)
            d = np.zeros(n)
            e[i], d[j] = h[i], h[j]
            H[i, j] = (f(x + e + d) - f(x + e - d) - f(x - e + d) + f(x - e - d)) / (4 * h[i] * h[j])
    return H


def _kept(ctx, m, had):
    got = m.get_recursive_params().to_flat_dict()[0]
    ctx.check("parameters-kept", set(got) == set(had))
    for p in had:
        kind = type(got[p]).__module__.split(".")[0]
        ctx.check("parameters-kept:kind", kind not in ("casadi", "jax", "jaxlib"), f"{p} {kind}")
        ctx.eq("parameters-kept:" + p, got[p], had[p])


def tasks(tier):
    th = tier == "thorough"
    out = []
    for name in B.CATALOG:
        for backend in ("jax", "casadi"):
            small = name in ("drone", "kinematics", "composed", "functions")
            for n in (1, 2) if small or th else (2,):
                out.append(dict(name=f"{name}-{backend}-{n}", harness="model",
                                params=dict(name=name, backend=backend, stages=n, deriv=""), cost=1 if small else 60))
            if small:
                out.append(dict(name=f"{name}-{backend}-deriv", harness="model",
                                params=dict(name=name, backend=backend, stages=1 if name == "functions" else 2, deriv="jh"), cost=20))
    return out
