"""Vehicle physics: for every state, input and parameter set the outputs and state derivatives of the
vehicle model satisfy the laws of a planar rigid body with four wheels - written here from the laws, not
from the code: force and moment balance, transport terms, vertical load with pitch and roll balance, wheel
spin balance, power and differential law, brake split, contact-point velocities and slips, what each tyre
and the aero model are given, mirror symmetry; the learnt aero models equal their formulas.

Tyres are the library's and a stand-in whose forces depend on all its inputs with coefficients of its own,
so that the routing between vehicle and tyres is seen."""
import numpy as np

from . import backend_common as B
from lumos.models.base import ModelReturn, model_io
from lumos.models.composition import ModelMaker
from lumos.models.tree_utils import ParameterTree
from lumos.models.tires.base import BaseTire

BOUNDS = ("all states, inputs and parameters symbolic within the sign ranges of the physical quantities (speeds, masses, lengths, "
          "inertias positive; parameters within 0.8..1.25 of their defaults, tyre stand-in coefficients in [-2, 2])")

CORNERS = ("fl", "fr", "rl", "rr")
SIDE = dict(fl=1.0, fr=-1.0, rl=1.0, rr=-1.0)
IN = ("Fz", "kappa", "alpha", "vx", "gamma")


@model_io(inputs=IN, outputs=("Fx", "Fy", "Mx", "My", "Mz"))
class RoutingTire(BaseTire):
    def forward(self, inputs):
        p = self._params
        g = lambda w: sum(w[i] * inputs[n] for i, n in enumerate(IN)) + w[5] * inputs["kappa"] * inputs["Fz"] + w[6] * inputs["alpha"] * inputs["vx"] + w[7]
        return ModelReturn(outputs=dict(Fx=g(p["x"]), Fy=g(p["y"]), Mx=0.0, My=0.0, Mz=0.0))

    @classmethod
    def get_default_params(cls):
        return {"x": np.linspace(0.1, 0.8, 8), "y": np.linspace(-0.5, 0.7, 8)}


def _vehicle(variant):
    B.register()
    try:
        ModelMaker.add_to_registry(RoutingTire)
    except ValueError:
        pass
    cfg = ModelMaker.make_config("SimpleVehicle")
    for c in CORNERS:
        name = {"routing": "RoutingTire", "mf52": "MF52", "perantoni": "PerantoniTire",
                "mixed": "RoutingTire" if c in ("fl", "rr") else "PerantoniTire"}[variant]
        cfg.replace_subtree("tire_" + c, ModelMaker.make_config(name))
    return ModelMaker.make_model_from_config(cfg)


def _setup(ctx, variant, same_tires=False):
    m = _vehicle(variant)
    t = B.params(ctx, m)
    if variant in ("routing", "mixed"):
        for c in CORNERS:
            for k in "xy":
                if (variant, c) in (("mixed", "fr"), ("mixed", "rl")):
                    continue
                t.set_param(f"tire_{c}.{k}", ctx.vec(f"w.{'all' if same_tires else c}.{k}", 8, lo=-2, hi=2))
    if same_tires:
        for c in CORNERS[1:]:
            for path in m.get_recursive_default_params().to_flat_dict()[0]:
                if path.startswith("tire_fl."):
                    t.set_param(path.replace("tire_fl", "tire_" + c), t.get_param(path))
    m.set_recursive_params(t)
    x, _ = B.stage(ctx, m, 0)
    s = dict(zip(m.get_group_names("states"), x["states"]))
    u = dict(zip(m.get_group_names("inputs"), x["inputs"]))
    s = {k: ctx.real("s." + k, lo=5, hi=60) if "wheel" in k or k == "vx" else ctx.real("s." + k, lo=-1, hi=1) for k in s}
    u = {k: ctx.real("u." + k, lo=-10, hi=10) if k in ("ax", "ay") else ctx.real("u." + k, lo=-1, hi=1) if k == "steer" else ctx.real("u." + k, lo=0, hi=1)
         for k in u}
    return m, t, s, u


def _run(m, s, u):
    r = m.forward(s, u, 0.0)
    return r.states_dot, r.outputs


def laws(ctx, variant):
    m, t, s, u = _setup(ctx, variant)
    p = {k: t.get_param(k) for k in ("gravity", "vehicle_mass", "Iz", "cog_to_fa", "cog_to_ra", "cog_height", "mech_balance", "track_front",
                                     "track_rear", "rolling_radius", "kd", "air_density", "max_steer_angle", "max_power",
                                     "max_total_brake_torque", "brake_balance", "wheel_inertia")}
    Cx, Cz = t.get_param("aero.Cx"), t.get_param("aero.Cz")
    d, o = _run(m, s, u)
    mass, h, r, vx, vy = p["vehicle_mass"], p["cog_height"], s["yaw_rate"], s["vx"], s["vy"]
    lf, lr, tf, tr, R = p["cog_to_fa"], p["cog_to_ra"], p["track_front"], p["track_rear"], p["rolling_radius"]
    ctx.assume(vx - r * tf > 1.0)
    ctx.assume(vx + r * tf > 1.0)
    ctx.assume(vx - r * tr > 1.0)
    ctx.assume(vx + r * tr > 1.0)
    q = 0.5 * p["air_density"] * (vx * vx + vy * vy)
    Fx, Fy, Fz = ({c: o[f"F{a}_tire_{c}"] for c in CORNERS} for a in "xyz")
    pos = dict(fl=(lf, tf / 2), fr=(lf, -tf / 2), rl=(-lr, tr / 2), rr=(-lr, -tr / 2))
    # vertical: weight and downforce are carried; pitch and roll moments of the accelerations are balanced
    ctx.eq("vertical", sum(Fz.values()), mass * p["gravity"] + Cz * q)
    ctx.eq("pitch", sum(Fz[c] * pos[c][0] for c in CORNERS), -mass * h * u["ax"], tol=1e-6)
    front, rear = (Fz["fl"] - Fz["fr"]) * tf / 2, (Fz["rl"] - Fz["rr"]) * tr / 2
    ctx.eq("roll", front + rear, -mass * h * u["ay"], tol=1e-6)
    ctx.eq("roll-distribution", front, -mass * h * u["ay"] * p["mech_balance"], tol=1e-6)
    # Newton and Euler in the plane
    ctx.eq("longitudinal", mass * o["ax"], sum(Fx.values()) - Cx * q, tol=1e-6)
    ctx.eq("lateral", mass * o["ay"], sum(Fy.values()), tol=1e-6)
    ctx.eq("yaw", p["Iz"] * d["yaw_rate"], sum(pos[c][0] * Fy[c] - pos[c][1] * Fx[c] for c in CORNERS), tol=1e-6)
    ctx.eq("transport-x", d["vx"], o["ax"] + r * vy)
    ctx.eq("transport-y", d["vy"], o["ay"] - r * vx)
    ctx.eq("residual-ax", o["res_ax"], o["ax"] - u["ax"])
    ctx.eq("residual-ay", o["res_ay"], o["ay"] - u["ay"])
    # tyres: contact velocity in the wheel's frame, slips, forces handed back in the body frame
    delta = dict(fl=u["steer"] * p["max_steer_angle"], fr=u["steer"] * p["max_steer_angle"], rl=0.0, rr=0.0)
    wheel_x = {}
    for c in CORNERS:
        cs, sn = np.cos(delta[c]), np.sin(delta[c])
        bx, by = vx - r * pos[c][1], vy + r * pos[c][0]
        wx, wy = cs * bx + sn * by, cs * by - sn * bx
        w = s["wheel_speed_" + c]
        kappa, alpha = R * w / vx - 1, np.arctan(wy / wx)
        ctx.eq("slip-ratio", o["slip_ratio_" + c], kappa)
        ctx.eq("slip-angle", o["slip_angle_" + c], alpha)
        tx, ty = o[f"tire_{c}.Fx"], o[f"tire_{c}.Fy"] * SIDE[c]
        ctx.eq("body-x", Fx[c], cs * tx - sn * ty, tol=1e-6)
        ctx.eq("body-y", Fy[c], sn * tx + cs * ty, tol=1e-6)
        wheel_x[c] = tx
        one = m.get_submodel("tire_" + c).forward(dict(Fz=Fz[c], kappa=kappa, alpha=alpha * SIDE[c], vx=wx, gamma=0.0)).outputs
        ctx.eq("tyre-given", [o[f"tire_{c}.Fx"], o[f"tire_{c}.Fy"]], [one["Fx"], one["Fy"]], tol=1e-6)
    # driveline and brakes
    drive = dict(fl=0.0, fr=0.0, rl=o["drive_torque_rl"], rr=o["drive_torque_rr"])
    ctx.eq("power", sum(drive[c] * s["wheel_speed_" + c] for c in ("rl", "rr")), u["throttle"] * p["max_power"], tol=1e-4)
    ctx.eq("differential", drive["rl"] - drive["rr"], -p["kd"] * (s["wheel_speed_rl"] - s["wheel_speed_rr"]), tol=1e-6)
    brake = {c: drive[c] - wheel_x[c] * R - p["wheel_inertia"] * d["wheel_speed_" + c] for c in CORNERS}
    ctx.eq("brake-total", sum(brake.values()), u["brake"] * p["max_total_brake_torque"], tol=1e-4)
    ctx.eq("brake-balance", brake["fl"] + brake["fr"], p["brake_balance"] * u["brake"] * p["max_total_brake_torque"], tol=1e-4)
    ctx.eq("brake-sides", [brake["fl"], brake["rl"]], [brake["fr"], brake["rr"]], tol=1e-4)
    # aero: what is reported is what acted
    ctx.eq("aero", [o["aero.Cx"], o["aero.Cz"]], [Cx, Cz])


def mirror(ctx, variant):
    """reflecting state and input reflects the response"""
    m, t, s, u = _setup(ctx, variant, same_tires=True)
    d, o = _run(m, s, u)
    sw = dict(fl="fr", fr="fl", rl="rr", rr="rl")

    def other(k):
        return k[:-2] + sw[k[-2:]] if k[-2:] in sw else k
    ms = {k: (-s[k] if k in ("vy", "yaw_rate") else s[other(k)]) for k in s}
    mu = {k: (-v if k in ("steer", "ay") else v) for k, v in u.items()}
    d2, o2 = _run(m, ms, mu)
    for k in d:
        ctx.eq("state-derivative:" + k, d2[k], -d[k] if k in ("vy", "yaw_rate") else d[other(k)], tol=1e-6)
    for k in o:
        if "." in k:
            continue
        neg = k in ("ay", "res_ay") or k.startswith(("Fy_", "slip_angle"))
        v = o[other(k)] if k[-2:] in sw else o[k]
        ctx.eq("output:" + k, o2[k], -v if neg else v, tol=1e-6)


def straight(ctx, variant):
    """driving straight on a symmetric car: no lateral motion arises"""
    m, t, s, u = _setup(ctx, variant, same_tires=True)
    s = {**s, "vy": 0.0, "yaw_rate": 0.0, "wheel_speed_fr": s["wheel_speed_fl"], "wheel_speed_rr": s["wheel_speed_rl"]}
    u = {**u, "steer": 0.0, "ay": 0.0}
    d, o = _run(m, s, u)
    for k in ("vy", "yaw_rate"):
        ctx.eq("straight:" + k, d[k], 0.0, tol=1e-6)
    ctx.eq("equal-sides", [d["wheel_speed_fl"], d["wheel_speed_rl"]], [d["wheel_speed_fr"], d["wheel_speed_rr"]], tol=1e-6)


def aero(ctx, variant, points):
    """the learnt aero models against their formulas"""
    B.register()
    if variant == "gp":
        class Model(B.GPAero):
            num_points = points
    else:
        class Model(B.MLPAero):
            num_layers = points
            layer_dim = 2
    m = Model()
    x = ctx.vec("x", 3, lo=-2, hi=2)
    inputs = dict(zip(m.get_group_names("inputs"), x))
    P = {}
    for k, v in m.get_default_params().items():
        if np.shape(v):
            a = np.empty(np.shape(v), dtype=object if ctx.symbolic else float)
            for i in np.ndindex(*a.shape):
                a[i] = ctx.real(f"{k}{list(i)}", lo=-2, hi=2)
            P[k] = a
        else:
            P[k] = ctx.real(k, lo=0.5, hi=2)
    m = Model(params=ParameterTree(P))
    o = m.forward(inputs).outputs
    if variant == "gp":
        k = [np.exp(-sum((x[j] - P["gp_points"][i, j]) ** 2 for j in range(3))) for i in range(points)]
        want = [sum(P["alpha"][a, i] * k[i] for i in range(points)) for a in range(3)]
    else:
        y = list(x)
        for layer in range(points + 1):
            W = P[f"weights_layer_{layer}"]
            y = [np.tanh(sum(W[i, j] * y[j] for j in range(len(y)))) for i in range(W.shape[0])]
        want = y
    ctx.check("coefficients", tuple(o) == ("Cx", "Cy", "Cz") or set(o) == {"Cx", "Cy", "Cz"})
    ctx.eq("coefficients", [o[n] for n in ("Cx", "Cy", "Cz")], want)


def tasks(tier):
    out = []
    for v in ("routing", "perantoni", "mf52", "mixed"):
        out.append(dict(name=f"laws-{v}", harness="laws", params=dict(variant=v), cost=30))
        if v != "mixed":
            out.append(dict(name=f"straight-{v}", harness="straight", params=dict(variant=v), cost=30))
    for v in ("routing", "perantoni"):  # (MF5.2 has side-dependent offsets, mirrored by the vehicle model itself)
        out.append(dict(name=f"mirror-{v}", harness="mirror", params=dict(variant=v), cost=60))
    out.append(dict(name="mirror-mf52", harness="mirror", params=dict(variant="mf52"), cost=90))
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        out.append(dict(name=f"aero-gp-{n}", harness="aero", params=dict(variant="gp", points=n)))
        out.append(dict(name=f"aero-mlp-{n}", harness="aero", params=dict(variant="mlp", points=n)))
    return out
