"""A lap-time problem after any history of track changes is the problem built with the last track: mesh, curvature and
heading data, lateral bounds, constraints and their constant derivatives and the initial guess agree with a fresh problem and with the
track itself; requests by the user (bounds, boundary conditions, scales) stay; the initial guess satisfies the model's
equations for state derivatives and constraint outputs."""
import numpy as np

from lumos.optimal_control.config import BoundaryConditionConfig, BoundConfig, ScaleConfig

from . import sim_common as S

BOUNDS = ("lap-time problems on the real vehicle model, 1..3 intervals, trapezoidal and Legendre transcriptions, cyclic or not, "
          "lifted or condensed; histories of up to 3 (thorough: 4) steps, each a symbolic choice of a track change, a rejected track, "
          "a bound update; tracks of 2..3 points with symbolic lengths, curvature, heading and widths; bounds, boundary values and scales symbolic")
KEYS = ("lb", "ub")


def _same(ctx, tag, a, b, x):
    ctx.eq(tag + ":distances", a.distance_mesh, b.distance_mesh)
    ctx.eq(tag + ":mesh", a.get_mesh(), b.get_mesh())
    for k in KEYS:
        p, q = getattr(a, k), getattr(b, k)
        fin = [i for i in range(len(p)) if not _inf(p[i])]
        ctx.check(tag + ":" + k + "-unbounded", all(_inf(q[i]) == (i not in fin) and (i in fin or float(p[i]) == float(q[i])) for i in range(len(p))))
        ctx.eq(tag + ":" + k, [p[i] for i in fin], [q[i] for i in fin])
    g0, g1 = a.get_init_guess(), b.get_init_guess()
    ctx.eq(tag + ":initial-guess", g0, g1)
    for name in a._constraints if x is not None else ():
        if name != "model_algebra":
            ctx.eq(f"{tag}:{name}", a._constraints[name].constraints(x), b._constraints[name].constraints(x))
            ctx.eq(f"{tag}:{name}-jacobian", a._constraints[name].jacobian(x), b._constraints[name].jacobian(x))
    if x is not None:
        ctx.eq(tag + ":objective", a.objective(x), b.objective(x))
    return g0


def _inf(v):
    try:
        return bool(np.isinf(float(v)))
    except Exception:
        return False


def _bound(ocp, group, name, k):
    op = ocp.dec_var_operator
    i = int(op.get_var_index_in_dec(group, name, k))
    return ocp.lb[i], ocp.ub[i]


def _of_track(ctx, tag, sim, track, g0, fixed):
    """mesh, bounds and guess against the track"""
    op = sim.dec_var_operator
    ns = op.num_stages
    total = track.total_distance
    d = sim.distance_mesh
    ctx.eq(tag + ":starts", d[0], 0.0)
    ctx.eq(tag + ":mesh-of-the-problem", d, sim.get_mesh())
    ctx.eq(tag + ":ends", d[-1], total)
    for k in range(ns):
        if k:
            ctx.check(tag + ":forward", d[k] > d[k - 1])
        for name, at in (("track_curvature", track.curvature_at), ("track_heading", track.heading_at)):
            v = at(d[k])
            ctx.eq(f"{tag}:{name}", [*_bound(sim, "inputs", name, k), g0[int(op.get_var_index_in_dec("inputs", name, k))]], [v, v, v])
        if ("states", "n", k) in fixed:
            v = fixed["states", "n", k]
            ctx.eq(tag + ":boundary-condition", [*_bound(sim, "states", "n", k)], [v, v])
        else:
            ctx.eq(tag + ":between-the-edges", [*_bound(sim, "states", "n", k)], [-track.right_distance_at(d[k]), track.left_distance_at(d[k])])
        ctx.eq(tag + ":guess-time", g0[int(op.get_var_index_in_dec("states", "time", k))] * g0[int(op.get_var_index_in_dec("states", "vx", k))], d[k])
    for (g, n, k), v in fixed.items():
        ctx.eq(tag + ":kept", [*_bound(sim, g, n, k)], [v, v])


def history(ctx, steps, n, m=3, user=True, part=None, **cfg):
    tracks = {f"t{i}": S.sym_track(ctx, f"t{i}", m) for i in range(steps + 1)}
    cyclic = cfg.get("is_cyclic", True)
    scs, bcs, fixed = (), [BoundaryConditionConfig(0, "states", "time", 0.0)], {("states", "time", 0): 0.0}
    bounds = ()
    if user:
        scs = tuple(ScaleConfig(g, v, ctx.real(f"s.{g}.{v}", lo=0.1, hi=20)) for g, v in (("states", "time"), ("states", "n"), ("inputs", "track_curvature")))
        lo = ctx.real("vx.lo", lo=1, hi=30)
        bounds = (BoundConfig("states", "vx", (lo, lo + 50)), BoundConfig("states", "n", (-100.0, 100.0)))
        if not cyclic:
            v = ctx.real("start.n", lo=-1, hi=1)
            bcs.append(BoundaryConditionConfig(0, "states", "n", v))
            fixed["states", "n", 0] = v

    def build(track):
        return S.laptime(ctx, tracks, track, num_intervals=n, scales=scs, bounds=bounds, boundary_conditions=tuple(bcs), **cfg)

    with S.patched(tracks):
        sim = build("t0")
        last, later = "t0", []
        for k in range(steps):
            ops = ("track", "rejected", "bound")
            op = part[k] if part else ctx.choice(f"step{k}", ops)
            if op == "track":
                sim.set_track(f"t{k + 1}")
                last = f"t{k + 1}"
            elif op == "rejected":
                ctx.raises("missing-track", Exception, lambda: sim.set_track("nowhere"))
            else:
                a = ctx.real(f"yaw{k}", lo=0.1, hi=5)
                later.append((BoundConfig("states", "yaw_rate", (-a, a)),))
                sim.update_bounds(later[-1])
        fresh = build(last)
        for b in later:
            fresh.update_bounds(b)
        x = ctx.vec("x", sim.num_dec, lo=-2, hi=2)
        g0 = _same(ctx, "as-fresh", sim, fresh, x)
        _of_track(ctx, "track", sim, tracks[last], g0, fixed)
        for k in range(sim.dec_var_operator.num_stages):
            if later:
                b = later[-1][0].values
                ctx.eq("user-bound", [*_bound(sim, "states", "yaw_rate", k)], [*b])
            if user:
                ctx.eq("configured-bound", [*_bound(sim, "states", "vx", k)], [lo, lo + 50])


def guess(ctx, n, m=2, **cfg):
    """the initial guess satisfies the model algebra of the problem"""
    tracks = {"a": S.sym_track(ctx, "a", m), "b": S.sym_track(ctx, "b", m)}
    with S.patched(tracks):
        sim = S.laptime(ctx, tracks, "a", num_intervals=n, **cfg)
        for when in ("built", "changed", "heavier"):
            if when == "changed":
                sim.set_track("b")
            if when == "heavier":
                sim.modify_model_param("vehicle.vehicle_mass", ctx.real("mass", lo=500, hi=2000))
            g0 = sim.get_init_guess()
            op = sim.dec_var_operator
            ctx.check(when + ":size", np.shape(g0) == (sim.num_dec,))
            for k in range(op.num_stages):
                get = lambda g: g0[[int(op.get_var_index_in_dec(g, v, k)) for v in sim.model.get_group_names(g)]]  # noqa: E731
                if when == "heavier":
                    sim.model.set_recursive_params(sim._params)
                r = sim.model.forward_with_arrays(get("states"), get("inputs"), sim.distance_mesh[k])
                ctx.eq(when + ":state-derivatives", get("states_dot"), r.states_dot)
                ctx.eq(when + ":constraint-outputs", get("con_outputs"), r.con_outputs)
            if not cfg.get("is_condensed"):
                c = sim._constraints["model_algebra"].constraints(g0 / sim._dec_var_scales)
                # (residuals may be open: an initial guess of the acceleration inputs is not a solution)
                c = np.reshape(np.array(c, dtype=object), (op.num_stages, -1))[:, :sim.model.num_states + sim.model.num_con_outputs]
                ctx.eq(when + ":model-equations", c.ravel(), np.zeros(c.size))


def tasks(tier):
    th = tier == "thorough"
    out = []
    trs = ("Trapezoidal", ("LGR", {"num_stages": 3}))
    for tr in trs:
        t = tr if isinstance(tr, str) else tr[0]
        for cyc in (True, False):
            for cond in (False, True):
                for n in (1, 2, 3):
                    if n == 3 and (cond or t == "LGR") and not th:
                        continue
                    s = f"{t}-{cyc}-{cond}-{n}"
                    out.append(dict(name="history-" + s, harness="history", cost=30 * n,
                                    params=dict(steps=(3 if n == 1 else 2) if th else (2 if n < 3 else 1), n=n, m=3 if n < 3 else 2, transcription=tr, is_cyclic=cyc, is_condensed=cond)))
                    if n == 2 and (th or not cond):  # intervals of unequal lengths
                        out.append(dict(name="points-" + s, harness="history", cost=40,
                                        params=dict(steps=1, n=n, transcription=tr, is_cyclic=cyc, is_condensed=cond, interval_points=[0.0, 0.3, 1.0])))
                    if n <= 2:
                        out.append(dict(name="guess-" + s, harness="guess", cost=20 * n, params=dict(n=n, transcription=tr, is_cyclic=cyc, is_condensed=cond)))
    return out
