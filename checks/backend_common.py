"""Models of the library (and composed variants of it) for the checks on backends and sparsity."""
import symx  # noqa: F401
import numpy as np

from . import model_common as M
import lumos.models  # noqa: F401
from lumos.models.aero.aero import GPAero, MLPAero
from lumos.models.tires.pacejka import MF52
from lumos.models.drone_model import DroneModel
from lumos.models.base import StateSpaceModel, StateSpaceModelReturn, state_space_io
from lumos.models.composition import ModelMaker


class TinyGP(GPAero):
    num_points = 3


class FullMF52(MF52):
    """with moments"""

    def __init__(self, model_config={}, params={}):
        super().__init__(model_config=model_config, params=params, opt_mode=False)


class TinyMLP(MLPAero):
    num_layers = 2
    layer_dim = 3


class DeepMLP(MLPAero):
    num_layers = 12
    layer_dim = 3


@state_space_io(states=("a", "b"), inputs=("u",), outputs=("o", "l", "r"), residuals=("r",))
class FunModel(StateSpaceModel):
    """uses the functions models are written with: matrices, vectors, stacking, selection, elementary functions"""

    def __init__(self, model_config={}, params={}):
        super().__init__(model_config=model_config, params=params)

    def forward(self, states, inputs, mesh=0.0):
        import lumos.numpy as lnp
        p = self._params
        x = lnp.array([states["a"], states["b"], inputs["u"]])
        y = p["w"] @ x
        z = lnp.array([y[0] * p["k"], lnp.sin(y[1])])
        c = lnp.cross(x, lnp.array([z[0], z[1], mesh]))
        n = lnp.sqrt(lnp.dot(z, z) + 1.0)
        s = lnp.sum(c) + lnp.where(states["a"] > inputs["u"], states["a"] * z[1], inputs["u"])
        t = lnp.tanh(p["v"][1]) * lnp.exp(states["b"]) + p["v"][0] ** 2 * lnp.arctan(mesh) * (1 + states["b"] ** 2)
        return StateSpaceModelReturn(
            states_dot=self.make_dict("states_dot", b=s, a=t * y[1]),
            outputs=self.make_dict("outputs", l=mesh * p["w"][1, 2], o=n, r=c[1] - z[0]))

    @classmethod
    def get_default_params(cls):
        return {"w": np.array([[1.0, 2.0, -0.5], [0.25, -1.0, 3.0]]), "k": 0.3, "v": np.array([0.5, -0.25])}


def register():
    M.register()
    for c in (DroneModel, TinyGP, TinyMLP, DeepMLP, FunModel, FullMF52):
        try:
            ModelMaker.add_to_registry(c)
        except ValueError:
            pass


TIRES = ("tire_fl", "tire_fr", "tire_rl", "tire_rr")
# name -> (class name, {submodel path: variant})
CATALOG = {
    "drone": ("DroneModel", {}),
    "kinematics": ("TrackPosition2D", {}),
    "composed": ("Top", {"mid.b": "LeafB"}),
    "functions": ("FunModel", {}),
    "vehicle-perantoni": ("SimpleVehicle", {t: "PerantoniTire" for t in TIRES}),
    "vehicle-mf52": ("SimpleVehicle", {}),
    "vehicle-moments": ("SimpleVehicle", {"tire_fl": "FullMF52", **{t: "PerantoniTire" for t in TIRES[1:]}}),
    "vehicle-mixed": ("SimpleVehicle", {"tire_fl": "PerantoniTire", "tire_rr": "PerantoniTire"}),
    "vehicle-gp": ("SimpleVehicle", {**{t: "PerantoniTire" for t in TIRES}, "aero": "TinyGP"}),
    "vehicle-mlp": ("SimpleVehicle", {**{t: "PerantoniTire" for t in TIRES}, "aero": "TinyMLP"}),
    "vehicle-deep-mlp": ("SimpleVehicle", {**{t: "PerantoniTire" for t in TIRES}, "aero": "DeepMLP"}),
    "track-perantoni": ("SimpleVehicleOnTrack", {"vehicle." + t: "PerantoniTire" for t in TIRES}),
    "track-mf52": ("SimpleVehicleOnTrack", {}),
}
CON = {
    "vehicle-moments": ("tire_fl.Mx", "tire_fl.My", "tire_fl.Mz", "tire_fl.GSum"),
    "drone": ("sin_theta", "f_omega"), "kinematics": ("curvature",), "composed": ("mid.s", "t"), "functions": ("o",),
    "vehicle": ("slip_ratio_fl", "tire_rl.Fx", "Fz_tire_rr"), "track": ("vehicle.slip_ratio_fl", "vehicle.Fz_tire_fr"),
}
POSITIVE = ("vx", "Fz", "max_power", "mass", "inertia", "gravity", "track_", "radius", "cog", "Iz", "Qx", "Qy", "FNOMIN",
            "UNLOADED", "Fz1", "wheel_speed", "density", "kappa1", "kappa2", "alpha1", "alpha2", "LONGVL")


def config(name):
    register()
    cls, subs = CATALOG[name]
    cfg = ModelMaker.make_config(cls)
    for path, variant in subs.items():
        cfg.replace_subtree(path, ModelMaker.make_config(variant))
    return cfg


def make(name, con=True):
    cfg = config(name)
    m = ModelMaker.make_model_from_config(cfg)
    if con:
        m.set_con_outputs(CON.get(name) or CON[name.split("-")[0]])
    return m


def value(ctx, tag, name, default):
    """a symbolic value near what the name stands for; the sign of physically positive quantities is kept"""
    d = float(default) if default is not None else 1.0
    if default is None:
        return ctx.real(tag, lo=0.5, hi=60) if any(k in name for k in POSITIVE) else ctx.real(tag, lo=-0.2, hi=0.2)
    if d == 0:
        return ctx.real(tag, lo=-0.05, hi=0.05)
    lo, hi = sorted((0.8 * d, 1.25 * d))
    return ctx.real(tag, lo=lo, hi=hi)


def params(ctx, model, tag="p.", keep=()):
    """-> tree with symbolic leaves"""
    t = model.get_recursive_params()
    for path, d in model.get_recursive_default_params().to_flat_dict()[0].items():
        if path in keep:
            continue
        if np.shape(d):
            a = np.empty(np.shape(d), dtype=object if ctx.symbolic else float)
            for i in np.ndindex(*np.shape(d)):
                a[i] = value(ctx, f"{tag}{path}[{','.join(map(str, i))}]", path, d[i])
            t.set_param(path, a)
        else:
            t.set_param(path, value(ctx, tag + path, path, d))
    return t


def stage(ctx, model, k):
    """-> per group vectors of one stage, mesh"""
    out = {}
    for g in ("states", "inputs", "states_dot", "con_outputs"):
        out[g] = ctx.array([value(ctx, f"x{k}.{g}.{n}", n, None) for n in model.get_group_names(g)])
    return out, ctx.real(f"mesh{k}", lo=0, hi=5)
