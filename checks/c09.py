"""Mesh: stage positions of an accepted mesh are the interval points and the scheme's points between
them times the mesh scale (from 0 to the scale, increasing); a normalised mesh is accepted exactly when
it has one point per interval boundary, starts at 0, ends at 1 and strictly increases, and a rejected
request changes nothing; after any history of mesh and scale changes the problem evaluates like one
freshly built with the last mesh and scale."""
import numpy as np

from . import ocp_common as O
from lumos.optimal_control.transcription import get_transcription_options, make_transcription

BOUNDS = ("1..4 intervals (thorough 6), forward Euler, trapezoidal, LGR and LGRIntegral with 2..5 stages, symbolic interval "
          "points in [-2,2] and mesh scale; histories of 2 (thorough 3) symbolic choices among new mesh, uniform mesh, "
          "new fixed scale and rejected mesh, on mesh-dependent and plain models, lifted and condensed")

TRS = ["Trapezoidal", "ForwardEuler"] + [(t, {"num_stages": k}) for t in ("LGR", "LGRIntegral") for k in (2, 3, 4, 5)]


def radau(n):
    """the n right Radau points on [0, 1], from the Legendre polynomials"""
    from numpy.polynomial.legendre import legroots
    c = np.zeros(n + 1)
    c[n - 1] = 1
    c[n] = -1
    return (np.sort(legroots(c).real) + 1) / 2


RADAU = {n: radau(n) for n in range(1, 7)}  # plain numpy, outside the harness


def unit_points(tr):
    if isinstance(tr, str):
        return np.array([0.0, 1.0])
    return np.concatenate([[0.0], RADAU[tr[1]["num_stages"] - 1]])


def flat(ctx, pts, c):
    """expected stage positions for interval points pts and unit points c"""
    out = [pts[0]]
    for i in range(len(pts) - 1):
        out += [pts[i] + float(c[k]) * (pts[i + 1] - pts[i]) for k in range(1, len(c))]
    return ctx.array(out)


def mesh(ctx, tr, n, fixed, uniform):
    ocp, _, _ = O.build(ctx, shape="tiny", fixed=fixed, tr=tr, n=n, scaled=False, pts=not uniform)
    pts = ctx.array([i / n for i in range(n + 1)]) if uniform else O.points(ctx, n)
    exp = flat(ctx, pts, unit_points(tr))
    k = ctx.real("k", lo=0.1, hi=5)
    m = ocp.get_mesh_from_scale(k)
    ctx.eq("positions", m, exp * k, tol=1e-6)
    ctx.check("one-per-stage", len(m) == ocp.num_stages)
    ctx.check("increasing", ctx.all_(*[m[i] < m[i + 1] for i in range(len(m) - 1)]))
    x = ctx.vec("x", ocp.num_dec, lo=0.1, hi=2)
    sc = ctx.real("mesh_scale", lo=0.1, hi=5) if fixed else x[ocp.num_dec - 1]
    ctx.eq("of-decision-vector", ocp.get_mesh_from_dec_var(x), exp * sc, tol=1e-6)
    if fixed:
        ctx.eq("fixed-mesh", ocp.get_mesh(), exp * sc, tol=1e-6)


def accept(ctx, tr, n, size):
    ocp, _, _ = O.build(ctx, shape="tiny", tr=tr, n=n, scaled=False, pts=False)
    before = np.array(ocp.get_mesh_from_scale(2.0))
    p = ctx.vec("p", size, lo=-2, hi=2)
    try:
        ocp.set_normalized_mesh(p)
        ok = True
    except ValueError:
        ok = False
    good = size == n + 1
    if ok:
        ctx.check("accepted-size", good)
        ctx.check("accepted-valid", ctx.all_(*([p[i] < p[i + 1] for i in range(n)] + [
            p[0] <= 1e-5, p[0] >= -1e-5, p[n] <= 1 + 1e-5, p[n] >= 1 - 1e-5])))
        ctx.eq("takes-effect", ocp.get_mesh_from_scale(2.0), 2.0 * flat(ctx, p, unit_points(tr)), tol=1e-6)
    else:
        if good:
            ctx.check("rejected-invalid", ctx.any_(*([p[i] >= p[i + 1] for i in range(n)] + [
                p[0] < 0, p[0] > 0, p[n] < 1, p[n] > 1])))
        ctx.eq("unchanged", ocp.get_mesh_from_scale(2.0), before)


def history(ctx, fixed, condensed, tr, n, steps, mesh_dep):
    kw = dict(shape="std", fixed=fixed, condensed=condensed, tr=tr, n=n, scaled=False, mesh_dep=mesh_dep)
    ocp, _, _ = O.build(ctx, pts=False, **kw)
    k = ctx.real("mesh_scale", lo=0.1, hi=5) if fixed else None
    pts = None
    for j in range(steps):
        op = ctx.choice(f"op{j}", ["points", "uniform", "rejected", "evaluate"] + (["scale"] if fixed else []))
        if op == "points":
            pts = [0.0] + [ctx.real(f"n{j}.{i}", gt=0, lt=1) for i in range(1, n)] + [1.0]
            for a, b in zip(pts, pts[1:]):
                ctx.assume(a + 0.01 <= b)
            pts = ctx.array(pts)
            ocp.set_normalized_mesh(pts)
        elif op == "uniform":
            pts = None
            ocp.set_normalized_mesh()
        elif op == "rejected":
            ctx.raises("rejected", ValueError, lambda: ocp.set_normalized_mesh(ctx.array([0.0] + [0.5] * n + [1.0])))
        elif op == "scale":
            k = ctx.real(f"k{j}", lo=0.1, hi=5)
            ocp.set_mesh_scale(k)
        else:
            ocp.constraints(ctx.array([0.5] * ocp.num_dec))
    model, _ = O.make_model(ctx, O.STD, mesh_dep)
    cls = O.FixedMeshOCP if fixed else O.ScaledMeshOCP
    fresh = cls(model, cls.get_sim_config(num_intervals=n, interval_points=pts, transcription=tr, backend="custom",
                                          is_condensed=condensed, con_output_names=O.STD.con),
                **({"mesh_scale": k} if fixed else {}))
    N, M = ocp.num_dec, ocp.num_con
    x = ctx.vec("x", N, lo=-2, hi=2)
    lam = ctx.vec("lam", M, lo=-2, hi=2)
    ctx.eq("mesh", ocp.get_mesh_from_dec_var(x), fresh.get_mesh_from_dec_var(x))
    ctx.eq("objective", ocp.objective(x), fresh.objective(x))
    ctx.eq("constraints", ocp.constraints(x), fresh.constraints(x))
    ctx.eq("jacobian", O.dense(*ocp.jacobianstructure(), ocp.jacobian(x), (M, N)),
           O.dense(*fresh.jacobianstructure(), fresh.jacobian(x), (M, N)))
    ctx.eq("hessian", O.dense(*ocp.hessianstructure(), ocp.hessian(x, lam, 1.0), (N, N)),
           O.dense(*fresh.hessianstructure(), fresh.hessian(x, lam, 1.0), (N, N)))


def names(ctx):
    ctx.raises("unknown-transcription", RuntimeError, lambda: make_transcription("nonsense"))
    for t in get_transcription_options():
        ctx.check("known", make_transcription(t) is not None)
    for bad in (0.0, -1.0):
        m, _ = O.make_model(ctx, O.TINY, symbolic_params=False)
        ctx.raises("mesh-scale-positive", AssertionError, lambda: O.FixedMeshOCP(
            m, O.FixedMeshOCP.get_sim_config(num_intervals=1, backend="custom"), mesh_scale=bad))


def _n(tr):
    return tr if isinstance(tr, str) else f"{tr[0]}{tr[1]['num_stages']}"


def tasks(tier):
    out = [dict(name="names", harness="names", params={}, cost=1)]
    N = (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6)
    for tr in TRS:
        for n in N:
            for fixed in (False, True):
                out.append(dict(name=f"mesh-{_n(tr)}-{n}-{fixed}", harness="mesh",
                                params=dict(tr=tr, n=n, fixed=fixed, uniform=(n + fixed) % 3 == 0), cost=n))
    for tr in ("Trapezoidal", ("LGR", {"num_stages": 3})):
        for n in N[:4]:
            for size in (n, n + 1, n + 2):
                out.append(dict(name=f"accept-{_n(tr)}-{n}-{size}", harness="accept", params=dict(tr=tr, n=n, size=size),
                                cost=n))
    for fixed in (False, True):
        for cond in (False, True):
            for tr in ("Trapezoidal", ("LGR", {"num_stages": 3}), ("LGRIntegral", {"num_stages": 3})):
                if cond and isinstance(tr, tuple) and tier == "quick" and tr[0] == "LGR":
                    continue
                for md in (False, True):
                    if md and not fixed:
                        continue  # derivatives of mesh-dependent models on a scaled mesh are documented as unsupported
                    out.append(dict(name=f"hist-{fixed}-{cond}-{_n(tr)}-{md}", harness="history",
                                    params=dict(fixed=fixed, condensed=cond, tr=tr, n=2, mesh_dep=md,
                                                steps=2 if tier == "quick" else 3), cost=20))
    return out
