"""Track kinematics and drone: for every speed, heading, curvature, offset and parameter set the derivatives are
those of geometry - the velocity of the point the curvilinear coordinates describe is the vehicle's velocity -
and posing the vehicle over distance scales each of its time derivatives by the time per distance."""
import numpy as np

from . import backend_common as B
from lumos.models.composition import ModelMaker
from lumos.models.drone_model import DroneModel
from lumos.models.kinematics import TrackPosition2D

BOUNDS = ("all states, inputs and parameters symbolic: vx in [1, 90], vy in [-20, 20], heading errors in [-1.4, 1.4], offsets in [-20, 20], "
          "curvature in [-0.2, 0.2], with forward progress along the track and the car between the track and its centre of curvature")


def _kin_inputs(ctx):
    s = dict(time=ctx.real("time", lo=-1e3, hi=1e3), n=ctx.real("n", lo=-20, hi=20), eta=ctx.real("eta", lo=-1.4, hi=1.4))
    u = dict(vx=ctx.real("vx", lo=1, hi=90), vy=ctx.real("vy", lo=-20, hi=20), yaw_rate=ctx.real("yaw_rate", lo=-3, hi=3),
             track_curvature=ctx.real("k", lo=-0.2, hi=0.2), track_heading=ctx.real("heading", lo=-7, hi=7))
    ctx.assume(1 - s["n"] * u["track_curvature"] > 0.05)
    c, sn = np.cos(s["eta"]), np.sin(s["eta"])
    ctx.assume(u["vx"] * c - u["vy"] * sn > 0.5)
    return s, u


def _geometry(ctx, s, v, d, kin_out):
    """d: derivatives by distance along the centre line; v: velocities and track of the point"""
    k, psi, eta, n = v["track_curvature"], v["track_heading"], s["eta"], s["n"]
    t = d["time"]
    c, sn, cp, sp = np.cos(eta), np.sin(eta), np.cos(psi), np.sin(psi)
    # position (X - n sin psi, Y + n cos psi) with X' = cos psi, Y' = sin psi, psi' = k
    px, py = cp - d["n"] * sp - n * cp * k, sp + d["n"] * cp - n * sp * k
    cy, sy = cp * c - sp * sn, sp * c + cp * sn  # of the yaw angle psi + eta
    ctx.eq("velocity", [px, py], [t * (v["vx"] * cy - v["vy"] * sy), t * (v["vx"] * sy + v["vy"] * cy)], tol=1e-6)
    ctx.eq("yaw-rate", d["eta"] + k, t * v["yaw_rate"], tol=1e-6)
    ctx.check("time-runs", t > 0)
    ctx.eq("progress", t * (v["vx"] * c - v["vy"] * sn), 1 - n * k, tol=1e-6)
    ctx.eq("yaw-angle", kin_out["yaw_angle"], psi + eta)
    ctx.eq("curvature", kin_out["curvature"], k)


def kinematics(ctx):
    s, u = _kin_inputs(ctx)
    m = TrackPosition2D()
    r = m.forward(s, u, ctx.real("mesh"))
    ctx.check("names", set(r.states_dot) == {"time", "n", "eta"})
    _geometry(ctx, s, u, r.states_dot, r.outputs)
    # neither when nor which way the track points matters
    r2 = m.forward({**s, "time": ctx.real("time2")}, {**u, "track_heading": ctx.real("heading2")}, 0.0)
    for k in ("time", "n", "eta"):
        ctx.eq("invariance", r2.states_dot[k], r.states_dot[k])
    # the mirrored situation
    r3 = m.forward({**s, "n": -s["n"], "eta": -s["eta"]}, {**u, "vy": -u["vy"], "yaw_rate": -u["yaw_rate"],
                                                          "track_curvature": -u["track_curvature"]}, 0.0)
    ctx.eq("mirror", [r3.states_dot[k] for k in ("time", "n", "eta")],
           [r.states_dot["time"], -r.states_dot["n"], -r.states_dot["eta"]])
    # on a straight, aligned: time per distance is the inverse of speed
    r4 = m.forward({**s, "eta": 0.0}, {**u, "track_curvature": 0.0, "vy": 0.0, "yaw_rate": 0.0}, 0.0)
    ctx.eq("straight", [r4.states_dot[k] * u["vx"] for k in ("time", "n", "eta")], [1.0, 0.0, 0.0])


def on_track(ctx, variant):
    m = B.make(variant, con=False)
    t = B.params(ctx, m)
    m.set_recursive_params(t)
    ks, ku = _kin_inputs(ctx)
    s, u = dict(ks), {}
    vehicle = m.get_submodel("vehicle")
    for n in vehicle.get_group_names("states"):
        s[n] = ku[n] if n in ku else ctx.real("s." + n, lo=5, hi=60)
    for n in vehicle.get_group_names("inputs"):
        u[n] = ctx.real("u." + n, lo=0, hi=1) if n in ("throttle", "brake") else ctx.real("u." + n, lo=-1, hi=1)
    u.update(track_curvature=ku["track_curvature"], track_heading=ku["track_heading"])
    ctx.check("names", set(m.get_group_names("states")) == set(s) and set(m.get_group_names("inputs")) == set(u))
    for w in ("track_front", "track_rear"):
        half = s["yaw_rate"] * t.get_param("vehicle." + w)
        ctx.assume(s["vx"] - half > 0.5)
        ctx.assume(s["vx"] + half > 0.5)
    r = m.forward({n: s[n] for n in m.get_group_names("states")}, {n: u[n] for n in m.get_group_names("inputs")}, ctx.real("mesh"))
    d = r.states_dot
    ctx.check("derivative-names", set(d) == set(s))
    _geometry(ctx, s, {**s, **u}, d, {n: r.outputs["kinematics." + n] for n in ("yaw_angle", "curvature")})
    one = vehicle.forward({n: s[n] for n in vehicle.get_group_names("states")}, {n: u[n] for n in vehicle.get_group_names("inputs")}, 0.0)
    for n, v in one.states_dot.items():
        ctx.eq("distance-domain:" + n, d[n], v * d["time"], tol=1e-6)
    for n, v in one.outputs.items():
        ctx.eq("output:" + n, r.outputs["vehicle." + n], v, tol=1e-6)
    ctx.check("outputs", set(r.outputs) == {"kinematics.yaw_angle", "kinematics.curvature"} | {"vehicle." + n for n in one.outputs})


def drone(ctx):
    m = DroneModel()
    t = m.get_recursive_params()
    g = ctx.real("gravity", lo=0, hi=30)
    t.set_param("gravity", g)
    m.set_recursive_params(t)
    s = {n: ctx.real("s." + n, lo=-100, hi=100) for n in m.get_group_names("states")}
    u = {n: ctx.real("u." + n, lo=-100, hi=100) for n in m.get_group_names("inputs")}
    r = m.forward(s, u, ctx.real("mesh"))
    d, o = r.states_dot, r.outputs
    ctx.check("names", set(d) == set(s) == {"x", "x_dot", "z", "z_dot", "theta"} and set(u) == {"f", "omega"})
    ctx.eq("positions", [d["x"], d["z"], d["theta"]], [s["x_dot"], s["z_dot"], u["omega"]])
    ctx.eq("thrust", [d["x_dot"], d["z_dot"] + g], [u["f"] * np.sin(s["theta"]), u["f"] * np.cos(s["theta"])])
    ctx.eq("thrust-size", d["x_dot"] ** 2 + (d["z_dot"] + g) ** 2, u["f"] ** 2, tol=1e-6)
    ctx.eq("outputs", [o["sin_theta"], o["f_omega"]], [np.sin(s["theta"]), u["f"] * u["omega"]])
    # mirrored, shifted, moving frame of reference
    r2 = m.forward({**s, "x": -s["x"], "x_dot": -s["x_dot"], "theta": -s["theta"]}, {**u, "omega": -u["omega"]}, 0.0)
    for n in d:
        ctx.eq("mirror:" + n, r2.states_dot[n], -d[n] if n in ("x", "x_dot", "theta") else d[n])
    a = ctx.vec("shift", 4, lo=-50, hi=50)
    r3 = m.forward({**s, "x": s["x"] + a[0], "z": s["z"] + a[1], "x_dot": s["x_dot"] + a[2], "z_dot": s["z_dot"] + a[3]}, u, 0.0)
    for n, v in zip(("x", "z", "x_dot", "z_dot", "theta"), (a[2], a[3], 0.0, 0.0, 0.0)):
        ctx.eq("frame:" + n, r3.states_dot[n], d[n] + v)


def tasks(tier):
    return [dict(name="kinematics", harness="kinematics", params={}), dict(name="drone", harness="drone", params={})] + \
        [dict(name=f"on-{v}", harness="on_track", params=dict(variant=v), cost=20) for v in ("track-perantoni", "track-mf52")]
