"""Objectives: total time is the mesh scale (scaled mesh) or the difference of the time state between
the last and the first stage (fixed mesh); the lap objective adds the mean squared steering; sums of
several objectives add up; gradient and objective Hessian are the exact derivatives, under any scales."""
import numpy as np

from . import ocp_common as O
from . import sim_common as S
from lumos.optimal_control.config import ScaleConfig
from lumos.optimal_control.nlp import BaseObjective

BOUNDS = ("scaled/fixed mesh, lifted/condensed, 4 transcriptions, 1..4 intervals; laptime simulation on the real "
          "vehicle model with 2..3 intervals; drone simulation; 0..2 additional quadratic objectives (dense and sparse "
          "Hessians); decision vector and scales symbolic")


def _check(ctx, ocp, f, x, s):
    """f: expected objective as a function of unscaled decision variables"""
    g = lambda z: f(z * s)  # noqa: E731
    ctx.eq("objective", ocp.objective(x), g(x))
    G = ctx.gradient([g(x)], x, f=g, x0=x)[0]
    ctx.eq("gradient", ocp.gradient(x), G)


def _obj_hessian(ctx, ocp, f, x, s):
    n = ocp.num_dec
    H = np.zeros((n, n))
    for o in ocp._objectives.values():
        r, c = np.ravel(o.hessianstructure()[0]), np.ravel(o.hessianstructure()[1])
        v = np.ravel(o.hessian(x))
        ctx.check("hessian-length", len(r) == len(c) == len(v))
        H = H + O.dense(r, c, v, (n, n))
    g = (lambda z: ctx.gradient([f(z * s)], z)[0]) if ctx.symbolic else ocp.gradient
    H2 = ctx.gradient(g(x), x, f=g, x0=x)
    ctx.eq("hessian", H, H2)


def _scale_vec(ctx, ocp, scs):
    op = ocp.dec_var_operator
    s = [1.0] * op.num_dec
    for sc in scs:
        idx = op.get_var_index_in_dec(sc.group, sc.name)
        for i in np.atleast_1d(np.asarray(idx)):
            s[int(i)] = sc.value
    return ctx.array(s)


def time(ctx, extra=0, **k):
    ocp, sh, _ = O.build(ctx, **k)
    s = _scale_vec(ctx, ocp, O.scales(ctx, sh, k["fixed"]))
    op = ocp.dec_var_operator
    n = ocp.num_dec
    i0 = int(op.get_var_index_in_dec("states", "time", 0))
    i1 = int(op.get_var_index_in_dec("states", "time", -1))
    terms = [(lambda z: z[i1] - z[i0]) if k["fixed"] else (lambda z: z[n - 1])]
    for e in range(extra):
        a, b = ctx.real(f"c{e}.a", lo=-2, hi=2), ctx.real(f"c{e}.b", lo=-2, hi=2)
        p, q = e, n - 1 - e
        terms.append(lambda z, a=a, b=b, p=p, q=q: a * z[p] * z[p] + b * z[p] * z[q] + z[q])

        def grad(z, a=a, b=b, p=p, q=q):
            g = np.zeros(n)
            g[p] = g[p] + 2 * a * z[p] + b * z[q]
            g[q] = g[q] + b * z[p] + 1
            return g

        def hess_sparse(z, a=a, b=b):
            return np.array([2 * a, b, b])

        def hess_dense(z, a=a, b=b, p=p, q=q):
            h = np.zeros((n, n))
            h[p, p] = 2 * a
            h[p, q] = b
            h[q, p] = b
            return np.ravel(h)
        ocp.add_objective(f"extra{e}", BaseObjective(
            num_in=n, objective=terms[-1], gradient=grad, hessian=hess_sparse if e == 0 else hess_dense,
            hessian_structure=(np.array([p, p, q]), np.array([p, q, p])) if e == 0 else None))
    x = ctx.vec("x", n, lo=-2, hi=2)
    f = lambda z: sum(t(z) for t in terms)  # noqa: E731
    _check(ctx, ocp, f, x, s)
    _obj_hessian(ctx, ocp, f, x, s)


def laptime(ctx, n=2, scaled=True, **cfg):
    tracks = {"t": S.sym_track(ctx, "t")}
    scs = ()
    if scaled:
        scs = tuple(ScaleConfig(g, v, ctx.real(f"s.{g}.{v}", lo=0.1, hi=20))
                    for g, v in (("states", "time"), ("states", "vx"), ("inputs", "steer"), ("inputs", "throttle")))
    with S.patched(tracks):
        sim = S.laptime(ctx, tracks, "t", num_intervals=n, scales=scs, **cfg)
        op = sim.dec_var_operator
        s = _scale_vec(ctx, sim, scs)
        ns = op.num_stages
        steer = [int(i) for i in op.get_var_index_in_dec("inputs", "steer")]
        i0 = int(op.get_var_index_in_dec("states", "time", 0))
        i1 = int(op.get_var_index_in_dec("states", "time", ns - 1))
        f = lambda z: z[i1] - z[i0] + sum(z[i] * z[i] for i in steer) / ns  # noqa: E731
        x = ctx.vec("x", op.num_dec, lo=-2, hi=2)
        ctx.check("stage-count", len(steer) == ns)
        _check(ctx, sim, f, x, s)
        _obj_hessian(ctx, sim, f, x, s)


def drone(ctx, n=2, scaled=True, **cfg):
    scs = (ScaleConfig("global", "mesh_scale", ctx.real("s.m", lo=0.1, hi=10)),
           ScaleConfig("states", "x", ctx.real("s.x", lo=0.1, hi=10))) if scaled else ()
    with S.patched():
        sim = S.drone(ctx, num_intervals=n, scales=scs, **cfg)
        s = _scale_vec(ctx, sim, scs)
        x = ctx.vec("x", sim.num_dec, lo=-2, hi=2)
        f = lambda z: z[sim.num_dec - 1]  # noqa: E731
        _check(ctx, sim, f, x, s)
        _obj_hessian(ctx, sim, f, x, s)
        ctx.eq("total-time", sim.get_total_time(x * s), f(x * s))


def tasks(tier):
    out = []
    ns = (1, 2, 4) if tier == "quick" else (1, 2, 3, 4, 6, 9)
    for fixed in (False, True):
        for cond in (False, True):
            for tr in ("Trapezoidal", ("LGR", {"num_stages": 3}), ("LGRIntegral", {"num_stages": 4}), "ForwardEuler"):
                for n in ns:
                    for extra in (0, 2):
                        if (cond or tr != "Trapezoidal") and n == 4 or (extra and n != 2):
                            continue
                        k = dict(fixed=fixed, condensed=cond, tr=tr, n=n, shape="std", extra=extra)
                        out.append(dict(name=f"time-{fixed}-{cond}-{tr if isinstance(tr, str) else tr[0]}-{n}-{extra}",
                                        harness="time", params=k, cost=n))
    for n in (2, 3):
        for tr in ("Trapezoidal", ("LGR", {"num_stages": 3})):
            for cyc in (False, True):
                out.append(dict(name=f"laptime-{n}-{tr if isinstance(tr, str) else tr[0]}-{cyc}", harness="laptime",
                                params=dict(n=n, transcription=tr, is_cyclic=cyc, scaled=cyc or n == 2), cost=20))
        out.append(dict(name=f"drone-{n}", harness="drone", params=dict(n=n, transcription="LGR"), cost=5))
    return out
