"""Laptime / drone simulation problems for the harnesses: the real problem classes on the real
models, with the model-algebra derivative callbacks of the custom backend replaced by constants (only their
structure is needed to build the problem; no check looks at their values), and a track given by symbolic data."""
import contextlib

import symx  # noqa: F401
import numpy as np

import lumos.simulations.drone_simulation as ds
import lumos.simulations.laptime_simulation as ls
from lumos.models.drone_model import DroneModel
from lumos.models.simple_vehicle_on_track import SimpleVehicleOnTrack
from lumos.models.tracks import RaceTrack


def _stub(base):
    class Stub(base):
        def _implicit_jac(self, v, mesh, params):
            return np.ones(len(self._implicit_jacobianstructure()[0]))

        def _implicit_hess(self, v, mult, mesh, params):
            return np.zeros(len(self._implicit_hessianstructure()[0]))

        def _implicit_jacobianstructure(self):
            return self._model_algebra_jacobianstructure()

        def _implicit_hessianstructure(self):
            return self._model_algebra_hessianstructure()
    Stub.__name__ = base.__name__
    Stub.__qualname__ = base.__qualname__
    return Stub


StubVehicle = _stub(SimpleVehicleOnTrack)
StubDrone = _stub(DroneModel)


@contextlib.contextmanager
def patched(tracks=None):
    """LaptimeSimulation/DroneSimulation build stub models; track files are looked up in `tracks`
    (name -> RaceTrack)"""
    undo = []
    for mod in (ls, ds):
        for k, v in list(vars(mod).items()):
            if v is SimpleVehicleOnTrack:
                undo.append((mod, k, v))
                setattr(mod, k, StubVehicle)
            if v is DroneModel:
                undo.append((mod, k, v))
                setattr(mod, k, StubDrone)
    real = RaceTrack.__dict__["from_tum_csv"]
    if tracks is not None:
        RaceTrack.from_tum_csv = staticmethod(lambda f, *a, **k: tracks[f])
    try:
        yield
    finally:
        RaceTrack.from_tum_csv = real
        for mod, k, v in undo:
            setattr(mod, k, v)


def sym_track(ctx, name, m=3, lo=0.5, hi=3):
    """a track of m symbolic sample points (curvature, heading, widths), distances increasing"""
    s = [0.0]
    for i in range(m - 1):
        s.append(s[-1] + ctx.real(f"{name}.ds{i}", lo=lo, hi=hi))
    return RaceTrack(x=ctx.vec(name + ".x", m, lo=-5, hi=5), y=ctx.vec(name + ".y", m, lo=-5, hi=5), s=ctx.array(s),
                     curvature=ctx.vec(name + ".curv", m, lo=-0.05, hi=0.05),
                     heading=ctx.vec(name + ".head", m, lo=-3, hi=3),
                     left_distance=ctx.vec(name + ".left", m, lo=1, hi=8),
                     right_distance=ctx.vec(name + ".right", m, lo=1, hi=8))


def laptime(ctx, tracks, track, **cfg):
    cfg.setdefault("backend", "custom")
    cfg.setdefault("num_intervals", 2)
    cfg.setdefault("non_cyclic_vars", [])
    sim_config = ls.LaptimeSimulation.get_sim_config(track=track, **cfg)
    return ls.LaptimeSimulation(sim_config=sim_config)


def drone(ctx, **cfg):
    cfg.setdefault("backend", "custom")
    cfg.setdefault("num_intervals", 2)
    return ds.DroneSimulation(sim_config=ds.DroneSimulation.get_sim_config(**cfg))
