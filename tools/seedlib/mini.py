"""Small model and problems for the demonstrations."""
import os
import tempfile
import warnings

warnings.filterwarnings("ignore")
os.environ.setdefault("JAX_PLATFORMS", "cpu")
SCRATCH = tempfile.mkdtemp()
import atexit
import shutil
import sys

sys.path.insert(0, os.getcwd())
atexit.register(shutil.rmtree, SCRATCH, True)
os.chdir(SCRATCH)
import jax

jax.config.update("jax_enable_x64", True)
import numpy as np

import lumos.numpy as lnp
from lumos.models.base import StateSpaceModel, StateSpaceModelReturn, state_space_io
from lumos.optimal_control.config import *  # noqa: F401,F403
from lumos.optimal_control.config import SimConfig
from lumos.optimal_control.fixed_mesh_ocp import FixedMeshOCP
from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP


@state_space_io(states=("time", "a"), inputs=("u", "v"), outputs=("w", "y", "r"), residuals=("r",))
class Mini(StateSpaceModel):
    def __init__(self, model_config={}, params={}):
        super().__init__(model_config=model_config, params=params)

    @classmethod
    def get_default_params(cls):
        return {"k": 1.3, "c": 0.7}

    def forward(self, states, inputs, mesh=0.0):
        p = self._params
        t, a, u, v = states["time"], states["a"], inputs["u"], inputs["v"]
        sd = self.make_dict("states_dot", time=1.0 + p["k"] * a * a, a=p["c"] * u * a - t * t + v)
        out = self.make_dict("outputs", w=a * v, y=p["k"] * u * v + a, r=a * a - t * v)
        return StateSpaceModelReturn(states_dot=sd, outputs=out)


def ocp(fixed=False, **kw):
    kw.setdefault("transcription", "Trapezoidal")
    tr = kw.pop("transcription")
    base = dict(num_intervals=3, transcription=tr if isinstance(tr, tuple) else (tr, {}), is_cyclic=False,
                is_condensed=False, backend="jax", con_output_names=("y",), logging_config=None, bounds=(), scales=(),
                boundary_conditions=())
    cls = FixedMeshOCP if fixed else ScaledMeshOCP
    base.update(kw)
    return cls(model=Mini(), sim_config=cls.get_sim_config(**base))


def dense(rows, cols, vals, shape):
    m = np.zeros(shape)
    np.add.at(m, (np.ravel(rows), np.ravel(cols)), np.ravel(vals))
    return m


def jac(o, x):
    return dense(*o.jacobianstructure(), np.array(o.jacobian(x)), (o.num_con, o.num_dec))


def hess(o, x, lam, f=1.0):
    h = dense(*o.hessianstructure(), np.array(o.hessian(x, lam, f)), (o.num_dec,) * 2)
    return np.triu(h) + np.triu(h, 1).T + np.tril(h, -1)


def num_jac(f, x, h=1e-6):
    cols = []
    for i in range(len(x)):
        d = np.zeros(len(x))
        d[i] = h
        cols.append((np.array(f(x + d)) - np.array(f(x - d))) / (2 * h))
    return np.stack(cols, axis=-1)


def close(a, b, tol=1e-5):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def done(ok, what=""):
    print("OK" if ok else "FAIL " + what)
    sys.exit(0 if ok else 1)
