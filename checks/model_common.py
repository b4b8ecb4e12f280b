"""A family of composed models (registered for the run of the checks only)."""
import symx  # noqa: F401
import numpy as np

import lumos.numpy as lnp
from lumos.models.base import Model, ModelReturn, StateSpaceModel, StateSpaceModelReturn, model_io, state_space_io
from lumos.models.composition import ModelMaker


@model_io(inputs=("x", "y"), outputs=("o", "p"), residuals=())
class LeafA(Model):
    def __init__(self, model_config={}, params={}):
        super().__init__(model_config=model_config, params=params)

    def forward(self, inputs):
        p = self._params
        return ModelReturn(outputs=dict(o=p["g"] * inputs["x"] + p["h"] * inputs["y"], p=inputs["x"] * inputs["y"]))

    @classmethod
    def get_default_params(cls):
        return {"g": 2.0, "h": -1.5}


@model_io(inputs=("x", "y"), outputs=("o", "p"), residuals=())
class LeafB(Model):
    """same interface, other law and parameters (a variant)"""

    def __init__(self, model_config={}, params={}):
        super().__init__(model_config=model_config, params=params)

    def forward(self, inputs):
        p = self._params
        return ModelReturn(outputs=dict(o=p["k"] * inputs["x"] * inputs["x"] - inputs["y"], p=p["m"] + inputs["y"]))

    @classmethod
    def get_default_params(cls):
        return {"k": 0.5, "m": 3.0}


@model_io(inputs=("u", "v"), outputs=("s",), residuals=())
class Mid(Model):
    """two children; the second is fed with an output of the first"""

    def __init__(self, model_config={}, params={}):
        super().__init__(model_config=model_config, params=params)

    def forward(self, inputs):
        p = self._params
        a = self.call_submodel("a", inputs=dict(x=inputs["u"], y=p["c"]))
        b = self.call_submodel("b", inputs=dict(y=inputs["v"], x=a.outputs["o"]))
        return ModelReturn(outputs=self.make_outputs_dict(s=a.outputs["p"] + p["c"] * b.outputs["o"]))

    @classmethod
    def get_default_submodel_config(cls):
        return {"a": "LeafA", "b": "LeafA"}

    @classmethod
    def get_default_params(cls):
        return {"c": 0.75}


@state_space_io(states=("z", "w"), inputs=("u", "v"), outputs=("t", "q"), residuals=("q",))
class Top(StateSpaceModel):
    def __init__(self, model_config={}, params={}):
        super().__init__(model_config=model_config, params=params)

    def forward(self, states, inputs, mesh=0.0):
        p = self._params
        m = self.call_submodel("mid", inputs=dict(u=states["z"], v=inputs["u"]))
        r = self.call_submodel("tail", inputs=dict(y=states["w"], x=m.outputs["s"]))
        sd = self.make_dict("states_dot", z=p["d"] * r.outputs["o"], w=inputs["v"] - states["z"])
        out = self.make_outputs_dict(t=r.outputs["p"] + p["e"] * mesh, q=m.outputs["s"] - inputs["v"])
        return StateSpaceModelReturn(states_dot=sd, outputs=out)

    @classmethod
    def get_default_submodel_config(cls):
        return {"mid": "Mid", "tail": "LeafA"}

    @classmethod
    def get_default_params(cls):
        return {"d": 1.25, "e": -0.5}


ALL = (LeafA, LeafB, Mid, Top)


def register():
    for c in ALL:
        try:
            ModelMaker.add_to_registry(c)
        except ValueError:
            pass


# ---- the family's definition, independent of the library: kind tree and parameters by path

DEFAULTS = {"LeafA": {"g": 2.0, "h": -1.5}, "LeafB": {"k": 0.5, "m": 3.0}, "Mid": {"c": 0.75}, "Top": {"d": 1.25, "e": -0.5}}
CHILDREN = {"LeafA": (), "LeafB": (), "Mid": ("a", "b"), "Top": ("mid", "tail")}
DEFAULT_KINDS = {"": "Top", "mid": "Mid", "mid.a": "LeafA", "mid.b": "LeafA", "tail": "LeafA"}


def default_params(kinds):
    return {(n + "." if n else "") + k: v for n, c in kinds.items() for k, v in DEFAULTS[c].items()}


def leaf(kind, p, pre, x, y):
    if kind == "LeafA":
        return {"o": p[pre + ".g"] * x + p[pre + ".h"] * y, "p": x * y}
    return {"o": p[pre + ".k"] * x * x - y, "p": p[pre + ".m"] + y}


def top(kinds, p, st, inp, mesh):
    """-> (states_dot, outputs by full name)"""
    a = leaf(kinds["mid.a"], p, "mid.a", st["z"], p["mid.c"])
    b = leaf(kinds["mid.b"], p, "mid.b", a["o"], inp["u"])
    s = a["p"] + p["mid.c"] * b["o"]
    r = leaf(kinds["tail"], p, "tail", s, st["w"])
    out = {"t": r["p"] + p["e"] * mesh, "q": s - inp["v"], "mid.s": s}
    for n, d in (("mid.a", a), ("mid.b", b), ("tail", r)):
        out.update({n + "." + k: v for k, v in d.items()})
    return {"z": p["d"] * r["o"], "w": inp["v"] - st["z"]}, out
