"""The ready-made simulations, end to end: what the constraints of a drone or lap-time problem accept at a decision vector are exactly
the points that move by the physical equations between the stages (written down here independently for the drone, the
vehicle model's own forward evaluation on the track for the lap), that close on themselves where the problem is cyclic and whose
outputs are the model's; the cost is the time of flight or of the lap; user settings replace exactly the defaults they name;
start points satisfy the model equations."""
import numpy as np

from lumos.optimal_control.config import BoundaryConditionConfig, BoundConfig, ScaleConfig

from . import backend_common as B
from . import sim_common as S

BOUNDS = ("drone problem with 1..3 intervals (thorough 6), lap-time problem with 1..2 (thorough 3) intervals on tracks of 3 points with "
          "symbolic data; four transcriptions, lifted and condensed, cyclic or not, scaled or not; histories of up to 2 (thorough 3) "
          "symbolic choices among changes of gravity or mass, mesh, bounds, boundary conditions, scales, track; "
          "decision vectors, parameters, mesh, bounds and scales symbolic")
TRS = ("Trapezoidal", "ForwardEuler", ("LGR", {"num_stages": 3}), ("LGRIntegral", {"num_stages": 3}))


def _defects(ctx, sim, tr, states, dots, mesh, scales):
    """collocation defects of every interval, per equation and state"""
    per = sim.dec_var_operator.num_stages_per_interval
    out = []
    for i in range(sim.num_intervals):
        a = i * (per - 1)
        h = mesh[a + per - 1] - mesh[a]
        s, d = states[a:a + per], dots[a:a + per]
        if tr == "Trapezoidal":
            rows = [[d[0][v] * (h / 2) + d[1][v] * (h / 2) - (s[1][v] - s[0][v]) for v in range(len(s[0]))]]
        elif tr == "ForwardEuler":
            rows = [[d[0][v] * h - (s[1][v] - s[0][v]) for v in range(len(s[0]))]]
        else:  # (the matrices of the transcription are the subject of another check)
            A, M = sim.transcription.get_continuity_matrices()
            rows = [[sum(M[r][j] * d[j][v] for j in range(per)) * h - sum(A[r][j] * s[j][v] for j in range(per))
                     for v in range(len(s[0]))] for r in range(per - 1)]
        out += [[-e / scales[v] for v, e in enumerate(row)] for row in rows]
    return out


def _compare(ctx, tag, sim, x, law, tr, mesh, scale, cyclic=()):
    """constraints at x (in the user's units) against the equations: law(stage variables) -> state derivatives, con outputs, residuals"""
    op = sim.dec_var_operator
    names = {g: list(sim.model.get_group_names(g)) for g in ("states", "inputs", "states_dot", "con_outputs")}
    st = [{g: {n: x[int(op.get_var_index_in_dec(g, n, k))] for n in names[g]} for g in names} for k in range(op.num_stages)]
    sc = np.array([scale.get(i, 1.0) for i in range(sim.num_dec)], dtype=object)
    got = sim.constraints(x / sc)
    sx = [scale.get(int(op.get_var_index_in_dec("states", n, 0)), 1.0) for n in names["states"]]
    cx = [scale.get(int(op.get_var_index_in_dec("con_outputs", n, 0)), 1.0) for n in names["con_outputs"]]
    want, dots = [], []
    for v, m in zip(st, mesh):
        sd, con, res = law(v["states"], v["inputs"], m)
        con = [(con[n] - v["con_outputs"][n]) / c for n, c in zip(names["con_outputs"], cx)]
        if sim.is_condensed:
            dots.append([sd[n] for n in names["states"]])
            want += con + list(res)
        else:
            dots.append([v["states_dot"][n] for n in names["states"]])
            want += [(sd[n] - v["states_dot"][n]) / c for n, c in zip(names["states"], sx)] + con + list(res)
    defects = [e for row in _defects(ctx, sim, tr, [[v["states"][n] for n in names["states"]] for v in st], dots, mesh, sx) for e in row]
    want = defects + want if sim.is_condensed else want + defects
    closing = [(st[0][g][n] - st[-1][g][n]) for g, n in cyclic]
    if sim.is_condensed:  # (cyclic constraints come first there: they were there before)
        ctx.eq(tag + ":constraints", got, closing + want)
    else:
        ctx.eq(tag + ":constraints", got, want + closing)
    ctx.check(tag + ":equalities", all(float(v) == 0 for v in sim.cl) and all(float(v) == 0 for v in sim.cu) and
              len(sim.cl) == len(got) == len(sim.cu))


def _bounds(ctx, tag, sim, want, scale=None):
    """want: {(group, name, stage): (lo, hi)}"""
    op = sim.dec_var_operator
    for (g, n, k), (lo, hi) in want.items():
        i = int(op.get_var_index_in_dec(g, n, None if g == "global" else k))
        ctx.eq(f"{tag}:bounds {g}.{n}", [sim.lb[i], sim.ub[i]], [lo, hi])


DEFAULT = {("states", "x"): (-50, 50), ("states", "x_dot"): (-50, 50), ("states", "z"): (-50, 50), ("states", "z_dot"): (-50, 50),
           ("states", "theta"): (-10 * np.pi, 10 * np.pi), ("inputs", "f"): (1, 20), ("inputs", "omega"): (-10, 10)}
ENDS = {("x", 0): 0.0, ("x_dot", 0): 0.0, ("z", 0): 0.0, ("z_dot", 0): 0.0, ("theta", 0): 0.0, ("x", -1): 0.0, ("x_dot", -1): 0.0,
        ("z", -1): 5.0, ("z_dot", -1): 0.0, ("theta", -1): 2 * np.pi}


def drone(ctx, n, tr, condensed, steps):
    def law(g):
        def f(s, u, mesh):
            return (dict(x=s["x_dot"], x_dot=u["f"] * np.sin(s["theta"]), z=s["z_dot"], z_dot=u["f"] * np.cos(s["theta"]) - g,
                         theta=u["omega"]), dict(sin_theta=np.sin(s["theta"])), ())
        return f
    kw, bnd, ends = {}, dict(DEFAULT), dict(ENDS)
    tmax = (0.1, 50)
    own = ctx.choice("own", ("defaults", "bounds", "ends", "mesh"))
    pts = None
    if own == "bounds":  # bounds given by the user replace the default ones
        lo = ctx.real("f.lo", lo=0, hi=2)
        kw["bounds"] = (BoundConfig("inputs", "f", (lo, lo + 9)),)
        bnd = {("inputs", "f"): (lo, lo + 9)}
        tmax = None
    elif own == "ends":
        h = ctx.real("height", lo=-9, hi=9)
        kw["boundary_conditions"] = (BoundaryConditionConfig(-1, "states", "z", h),)
        ends = {("z", -1): h}
    elif own == "mesh":
        pts = [0.0] + sorted(0.1 * k + 0.05 for k in range(1, n)) + [1.0]
        kw["interval_points"] = ctx.array(pts)
    with S.patched():
        sim = S.drone(ctx, num_intervals=n, transcription=tr, is_condensed=condensed, **kw)
    op = sim.dec_var_operator
    ns, mi = op.num_stages, int(op.get_var_index_in_dec("global", "mesh_scale"))
    g, scale = 9.81, {}
    for k in range(steps):
        what = ctx.choice(f"change{k}", ("gravity", "mesh", "bound", "end", "scale", "guess"))
        if what == "gravity":
            g = ctx.real(f"g{k}", lo=-5, hi=20)
            sim.modify_model_param("gravity", g)
        elif what == "mesh":
            pts = [0.0] + [ctx.real(f"m{k}.{i}", lo=(i - 0.4) / n, hi=(i + 0.4) / n) for i in range(1, n)] + [1.0]
            sim.set_normalized_mesh(ctx.array(pts))
        elif what == "bound":
            w = ctx.real(f"w{k}", lo=1, hi=9)
            sim.update_bounds((BoundConfig("inputs", "omega", (-w, w)), BoundConfig("states", "theta", (-2 * w, w))))
            bnd["inputs", "omega"], bnd["states", "theta"] = (-w, w), (-2 * w, w)
        elif what == "end":
            v = ctx.real(f"e{k}", lo=-3, hi=3)
            sim.update_boundary_conditions((BoundaryConditionConfig(ns - 1, "states", "x_dot", v),))
            ends["x_dot", -1] = v
        elif what == "scale":
            v = [ctx.real(f"s{k}.{i}", lo=0.1, hi=10) for i in range(3)]
            sim.set_scales((ScaleConfig("states", "theta", v[0]), ScaleConfig("con_outputs", "sin_theta", v[1]),
                            ScaleConfig("global", "mesh_scale", v[2])))
            scale = {mi: v[2]}
            for j in range(ns):
                scale[int(op.get_var_index_in_dec("states", "theta", j))] = v[0]
                scale[int(op.get_var_index_in_dec("con_outputs", "sin_theta", j))] = v[1]
        else:
            sim.get_init_guess()
    x = ctx.vec("x", sim.num_dec, lo=-4, hi=4)
    norm = sim.get_mesh_from_scale(1.0)
    per = op.num_stages_per_interval
    ctx.eq("interval-ends", norm[::per - 1], pts if pts else np.linspace(0, 1, n + 1))
    mesh = [x[mi] * v for v in norm]
    _compare(ctx, "flight", sim, x, law(g), tr, mesh, scale)
    sc = np.array([scale.get(i, 1.0) for i in range(sim.num_dec)], dtype=object)
    ctx.eq("time-of-flight", [sim.objective(x / sc), sim.get_total_time(x)], [x[mi], x[mi]])
    want = {(gr, v, k): b for (gr, v), b in bnd.items() for k in range(ns)}
    for (v, k), val in ends.items():
        want["states", v, k % ns] = (val, val)
    if tmax:
        want["global", "mesh_scale", 0] = tmax
    _bounds(ctx, "flight", sim, want)
    # the start point moves by the equations (it is given in the user's units)
    x0 = sim.get_init_guess()
    ctx.check("start:size", np.shape(x0) == (sim.num_dec,))
    for k in range(ns):
        at = lambda gr: {v: x0[int(op.get_var_index_in_dec(gr, v, k))] for v in sim.model.get_group_names(gr)}  # noqa: E731
        sd, con, _ = law(g)(at("states"), at("inputs"), None)
        for v in sd:
            ctx.eq("start:" + v, at("states_dot")[v], sd[v])
        ctx.eq("start:output", at("con_outputs")["sin_theta"], con["sin_theta"])


def lap(ctx, n, tr, condensed, cyclic, change):
    tracks = {t: S.sym_track(ctx, t, 3) for t in "ab"}
    kw = dict(num_intervals=n, transcription=tr, is_condensed=condensed, is_cyclic=cyclic)
    with S.patched(tracks):
        sim = S.laptime(ctx, tracks, "a", **kw)
        track = tracks["a"]
        model = S.SimpleVehicleOnTrack()
        p = model.get_recursive_params()
        if change == "track":
            sim.set_track("b")
            track = tracks["b"]
        elif change == "mass":
            m = ctx.real("mass", lo=500, hi=2000)
            sim.modify_model_param("vehicle.vehicle_mass", m)
            p.set_param("vehicle.vehicle_mass", m)
            model.set_recursive_params(p)
        op = sim.dec_var_operator
        groups = ("states", "inputs", "states_dot", "con_outputs")
        x = op.flatten_var(**{g: np.stack([ctx.array([B.value(ctx, f"x{k}.{g}.{v}", v, None) for v in sim.model.get_group_names(g)])
                                           for k in range(op.num_stages)]) for g in groups})
        mesh = sim.get_mesh()
        ctx.eq("lap:length", [mesh[0], mesh[-1]], [0.0, track.total_distance])
        for k in range(op.num_stages):  # the inputs a solution can have there are the track's
            for v, f in (("track_curvature", track.curvature_at), ("track_heading", track.heading_at)):
                i = int(op.get_var_index_in_dec("inputs", v, k))
                ctx.eq("lap:" + v, [sim.lb[i], sim.ub[i]], [f(mesh[k])] * 2)
                x[i] = f(mesh[k])
        con = list(sim.model.get_group_names("con_outputs"))

        def law(s, u, at):
            r = model.forward(s, u, at)
            return r.states_dot, {c: r.outputs[c] for c in con}, [r.outputs[c] for c in sim.model.get_group_names("residuals")]
        scale = {i: float(v) for i, v in enumerate(sim._dec_var_scales)}
        closing = []
        if cyclic:
            closing = [(g, v) for g in ("states", "inputs") for v in sim.model.get_group_names(g)
                       if (g, v) not in (("states", "time"), ("inputs", "track_heading"))]
        _compare(ctx, "lap", sim, x, law, tr, mesh, scale, closing)
        sc = np.array([scale[i] for i in range(sim.num_dec)], dtype=object)
        t = [x[int(op.get_var_index_in_dec("states", "time", k))] for k in (0, op.num_stages - 1)]
        pen = sum(x[int(i)] * x[int(i)] for i in op.get_var_index_in_dec("inputs", "steer")) / op.num_stages
        ctx.eq("lap:cost", sim.objective(x / sc), t[1] - t[0] + pen)
        ctx.eq("lap:starts-at-time-zero", [sim.lb[int(op.get_var_index_in_dec("states", "time", 0))],
                                           sim.ub[int(op.get_var_index_in_dec("states", "time", 0))]], [0.0, 0.0])


def tasks(tier):
    th = tier == "thorough"
    name = lambda tr: tr if isinstance(tr, str) else tr[0]  # noqa: E731
    out = []
    for tr in TRS:
        for cond in (False, True):
            for n in (1, 2, 3, 6) if th else (1, 3):
                out.append(dict(name=f"drone-{n}-{name(tr)}-{cond}", harness="drone", params=dict(n=n, tr=tr, condensed=cond, steps=3 if th and n < 6 else 2),
                                opts=dict(max_paths=5000), cost=5 * n))
            for change in ("track", "mass"):
                for n in (1, 2, 3) if th else (2,):
                    cyc = cond == (change == "mass")
                    out.append(dict(name=f"lap-{n}-{name(tr)}-{cond}-{change}", harness="lap",
                                    params=dict(n=n, tr=tr, condensed=cond, cyclic=cyc, change=change), cost=20))
    return out
