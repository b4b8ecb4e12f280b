"""The active backend: for every program of nested selections (fresh and reused selection objects, as
contexts and as decorators, with settings and failures inside) leaving restores the backend active at entry;
building functions of a model under any active backend, with the model failing at any of its evaluations,
leaves the active backend alone; the functions evaluate with the backend they were built for, whichever is
active at build or call time, also after an evaluation that failed."""
import casadi as cas
import jax.numpy as jnp
import numpy as np

import lumos.numpy as lnp
import lumos.numpy.casadi_numpy as cnp
from symx import backends
from . import backend_common as B

BOUNDS = ("every program of up to 4 (quick) / 5 (thorough) steps, nested to that depth; 3 backends and one that does not exist; "
          "model builds for jax, casadi and custom under each active backend, failures of the model's 1st..4th evaluation, "
          "during build and call; states, inputs, mesh, parameters symbolic")

NAMES = ("numpy", "jax", "casadi")
MODULES = {"numpy": np, "jax": jnp, "casadi": cnp}


class Boom(Exception):
    pass


def _is(ctx, want, where):
    got = lnp.get_backend()
    ctx.check("active", got == want, f"{where}: {got}, expected {want}")
    # the namespace dispatches to it
    for n in ("interp", "array", "where", "split"):
        ctx.check("dispatch", getattr(lnp, n) is getattr(MODULES[want], n), f"{where}: {n} of another backend than {want}")


def contexts(ctx, steps, first):
    """run a program chosen step by step; `active` is what should be active"""
    pool = {n: lnp.use_backend(n) for n in ("numpy", "casadi", "cupy")}  # reused objects (also re-entered)
    state = {"left": steps, "n": 0}

    def body(active, depth):
        """-> backend that should be active at the end; may raise Boom"""
        while state["left"] > 0:
            state["left"] -= 1
            state["n"] += 1
            i = state["n"]
            op = first if i == 1 and first else ctx.choice(f"op{i}", ["with", "shared", "decorated", "set", "end", "raise"])
            if op == "end":
                return active
            if op == "raise":
                raise Boom()
            if op == "set":
                b = ctx.choice(f"to{i}", ["numpy", "jax", "cupy"])
                lnp.set_backend(b)
                active = b if b in NAMES else active
                _is(ctx, active, f"set {b}")
                continue
            b = ctx.choice(f"sel{i}", ["jax", "casadi"] if op == "with" else ["numpy", "casadi", "cupy"])
            inner = b if b in NAMES else active
            try:
                if op == "with":
                    with lnp.use_backend(b):
                        _is(ctx, inner, "entered")
                        body(inner, depth + 1)
                elif op == "shared":
                    with pool[b]:
                        _is(ctx, inner, "entered")
                        body(inner, depth + 1)
                else:
                    @pool[b]
                    def f(v):
                        _is(ctx, inner, "called")
                        body(inner, depth + 1)
                        return v + 1
                    ctx.check("returns", f(1) == 2)
                failed = False
            except Boom:
                failed = True
            _is(ctx, active, f"left {b}" + (" by a failure" if failed else ""))
            # the program goes on, or passes the failure on
            if failed and depth > 0 and ctx.choice(f"pass{i}", [True, False]):
                raise Boom()
        return active

    was = lnp.get_backend()
    start = "jax" if first in ("shared", "decorated") else "numpy"
    lnp.set_backend(start)
    try:
        try:
            body(start, 0)
        except Boom:
            pass
        with lnp.use_backend("jax"):
            _is(ctx, "jax", "afterwards")
    finally:
        lnp.set_backend(was)


class Faulty(B.FunModel):
    """fails at its k-th evaluation"""
    countdown = None

    def forward(self, states, inputs, mesh=0.0):
        if Faulty.countdown is not None:
            Faulty.countdown -= 1
            if Faulty.countdown == 0:
                raise Boom()
        return super().forward(states, inputs, mesh)


def _model(con=True):
    m = Faulty()
    if con:
        m.set_con_outputs(("o",))
    return m


def _with(active, f):
    """call f with `active` as the active backend -> (result or None, failed, backend active afterwards)"""
    lnp.set_backend(active)
    try:
        r, failed = f(), False
    except Boom:
        r, failed = None, True
    after = lnp.get_backend()
    lnp.set_backend("numpy")
    return r, failed, after


def building(ctx, backend, active, fault, calling):
    was = lnp.get_backend()
    Faulty.countdown = None
    try:
        with backends.captured(ctx):
            m = _model()
            p = B.params(ctx, m)
            m.set_recursive_params(m.get_recursive_default_params())
            if fault == "build":
                Faulty.countdown = ctx.choice("k", [1, 2, 3])
            _, failed, after = _with(active, lambda: m.make_model_algebra_cons(backend))
            ctx.check("active-after-build", after == active, f"{after}, was {active}" + (" (failed)" if failed else ""))
            Faulty.countdown = None
            if failed:
                m = _model()  # (a failed build leaves no functions to use; a new model must build)
                _, failed, after = _with(active, lambda: m.make_model_algebra_cons(backend))
                ctx.check("builds-after-failure", not failed and after == active)
            sts = [B.stage(ctx, m, k) for k in range(2)]
            ref = B.FunModel()
            ref.set_con_outputs(("o",))
            ref.set_recursive_params(p)
            outs = [ref.forward_with_arrays(s["states"], s["inputs"], t) for s, t in sts]
            res = np.stack([np.concatenate([r.states_dot - s["states_dot"], r.con_outputs - s["con_outputs"], r.residuals])
                            for r, (s, t) in zip(outs, sts)])
            X = np.stack([np.concatenate([s[g] for g in ("states", "inputs", "states_dot", "con_outputs")]) for s, _ in sts])
            mesh = ctx.array([t for _, t in sts])
            S, I = np.stack([s["states"] for s, _ in sts]), np.stack([s["inputs"] for s, _ in sts])
            alg = m.model_algebra
            arg = p.tree_ravel()[0] if backend == "casadi" else p
            if fault == "call":
                Faulty.countdown = ctx.choice("k", [1, 2])
                _, failed, after = _with(calling, lambda: alg.mapped_constraints(X, mesh, arg))
                ctx.check("active-after-call", after == calling, f"{after}, was {calling}" + (" (failed)" if failed else ""))
                Faulty.countdown = 1
                _, failed, after = _with(calling, lambda: m.batched_forward(S, I, mesh, p))
                ctx.check("active-after-call", after == calling, f"{after}, was {calling}" + (" (failed)" if failed else ""))
                Faulty.countdown = None
            got, failed, after = _with(calling, lambda: alg.mapped_constraints(X, mesh, arg))
            ctx.check("active-after-call", after == calling)
            ctx.eq("constraints", np.asarray(got), res)
            J, failed, after = _with(calling, lambda: alg.mapped_jacobian(X, mesh, arg))
            ctx.check("active-after-call", after == calling)
            lam = ctx.mat("lam", (2, res.shape[1]))
            _, failed, after = _with(calling, lambda: alg.mapped_hessian(X, lam, mesh, arg))
            ctx.check("active-after-call", after == calling)
            f, failed, after = _with(calling, lambda: m.batched_forward(S, I, mesh, p))
            ctx.check("active-after-call", after == calling)
            for g in ("states_dot", "outputs", "con_outputs"):
                ctx.eq("forward:" + g, np.asarray(getattr(f, g)).reshape(2, -1), np.stack([getattr(o, g) for o in outs]).reshape(2, -1))
    finally:
        Faulty.countdown = None
        lnp.set_backend(was)


def exporting(ctx, active, fault):
    """exporting code restores the backend and the parameters, failing or not"""
    was = lnp.get_backend()
    try:
        with backends.captured(ctx):
            m = _model()
            p = B.params(ctx, m)
            m.set_recursive_params(p)
            Faulty.countdown = ctx.choice("k", [1]) if fault else None
            _, failed, after = _with(active, lambda: m.export_c_code("model.c"))
            ctx.check("active-after-export", after == active and failed == bool(fault), f"{after}, was {active}")
            Faulty.countdown = None
    finally:
        Faulty.countdown = None
        lnp.set_backend(was)


def tasks(tier):
    th = tier == "thorough"
    out = []
    for op in ("with", "shared", "decorated", "set"):
        out.append(dict(name=f"contexts-{op}", harness="contexts", params=dict(steps=5 if th else 4, first=op), opts=dict(max_paths=200000),
                        cost=50))
    for backend in ("jax", "casadi"):
        for active in NAMES:
            for calling in NAMES:
                out.append(dict(name=f"building-{backend}-{active}-{calling}", harness="building",
                                params=dict(backend=backend, active=active, fault=None, calling=calling), cost=5))
            out.append(dict(name=f"building-{backend}-{active}-failing", harness="building",
                            params=dict(backend=backend, active=active, fault="build", calling="numpy"), cost=5))
            if backend == "jax":
                out.append(dict(name=f"calling-{backend}-{active}-failing", harness="building",
                                params=dict(backend=backend, active="numpy", fault="call", calling=active), cost=8))
    for active in NAMES:
        for fault in (False, True):
            out.append(dict(name=f"exporting-{active}-{fault}", harness="exporting", params=dict(active=active, fault=fault)))
    return out
