"""Problem configurations: converted to a dictionary (also one that went through lists, as a text format makes of tuples) and
rebuilt, a configuration has the same content and builds the same problem, independently of the original; every spelling of a setting
means the same; contradictory bounds and unknown settings are rejected, and nothing else is."""
import copy
import os
import shutil
import tempfile

import numpy as np

from lumos.optimal_control.config import BoundaryConditionConfig, BoundConfig, LoggingConfig, ScaleConfig, SimConfig
from lumos.simulations.laptime_simulation import LTCConfig

from . import ocp_common as O

BOUNDS = ("fixed and scaled meshes, lifted and condensed, cyclic or not, 4 transcriptions in every spelling, 1..2 intervals, with and without "
          "bounds (scalar, per stage), boundary conditions, scales, interval points, constraint outputs and logging as symbolic choices; all "
          "numbers symbolic; bound pairs of up to 4 symbolic values")


def _lists(v):
    """what a text format such as json makes of it"""
    if isinstance(v, dict):
        return {k: _lists(x) for k, x in v.items()}
    if isinstance(v, (tuple, list)):
        return [_lists(x) for x in v]
    return v


def _equal(ctx, tag, a, b):
    """the same content (tuples and lists alike)"""
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        ctx.check(tag + ":sequence", isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b), f"{a} {b}")
        for x, y in zip(a, b):
            _equal(ctx, tag, x, y)
    elif isinstance(a, dict):
        ctx.check(tag + ":keys", isinstance(b, dict) and set(a) == set(b))
        for k in a:
            _equal(ctx, f"{tag}.{k}", a[k], b[k])
    elif hasattr(a, "__dataclass_fields__"):
        ctx.check(tag + ":kind", type(a) is type(b), f"{type(a)} {type(b)}")
        for k in a.__dataclass_fields__:
            _equal(ctx, f"{tag}.{k}", getattr(a, k), getattr(b, k))
    elif isinstance(a, np.ndarray) and a.ndim:
        ctx.check(tag + ":array", np.shape(a) == np.shape(b))
        ctx.eq(tag, a, b)
    elif a is None or isinstance(a, (str, bool)):
        ctx.check(tag, a == b and type(a) is type(b), f"{a} {b}")
    else:
        ctx.check(tag + ":number", not isinstance(b, (str, bool)) and b is not None)
        ctx.eq(tag, a, b)


def _inf(v):
    try:
        return bool(np.isinf(float(v)))
    except Exception:
        return False


def _same_problem(ctx, tag, a, b, x, lam):
    ctx.check(tag + ":size", (a.num_dec, a.num_con, list(a._constraints), list(a._objectives)) == (b.num_dec, b.num_con, list(b._constraints), list(b._objectives)))
    for k in ("lb", "ub"):
        p, q = getattr(a, k), getattr(b, k)
        ctx.check(f"{tag}:{k}-unbounded", all(_inf(u) == _inf(v) and (not _inf(u) or float(u) == float(v)) for u, v in zip(p, q)))
        fin = [i for i in range(len(p)) if not _inf(p[i])]
        ctx.eq(f"{tag}:{k}", [p[i] for i in fin], [q[i] for i in fin])
    for name, f in dict(mesh=lambda o: o._flat_normalized_mesh, scales=lambda o: o._dec_var_scales, cons=lambda o: [*o.cl, *o.cu],
                        objective=lambda o: o.objective(x), gradient=lambda o: o.gradient(x), constraints=lambda o: o.constraints(x),
                        jacobian=lambda o: o.jacobian(x), hessian=lambda o: o.hessian(x, lam, 1.0)).items():
        ctx.eq(f"{tag}:{name}", f(a), f(b))
    for f in ("jacobianstructure", "hessianstructure"):
        ctx.check(f"{tag}:{f}", all(np.array_equal(u, v) for u, v in zip(getattr(a, f)(), getattr(b, f)())))


SPELL = {"Trapezoidal": ("Trapezoidal", ("Trapezoidal",), ("Trapezoidal", {})), "ForwardEuler": ("ForwardEuler", ("ForwardEuler",)),
         "LGR": ("LGR", ("LGR", {"num_stages": 3}), ("LGR",)), "LGRIntegral": ("LGRIntegral", ("LGRIntegral", {"num_stages": 2}))}


def rebuilt(ctx, fixed, condensed, tr, n, full):
    sh = O.SHAPES["std"]
    spell = ctx.choice("spelling", list(range(len(SPELL[tr]))))
    kw = dict(num_intervals=n, transcription=copy.deepcopy(SPELL[tr][spell]), backend="custom", is_condensed=condensed, con_output_names=sh.con)
    arrays = False
    if ctx.choice("cyclic", [False, True]):
        kw.update(is_cyclic=True, non_cyclic_vars=["states.time"] if ctx.choice("some-not-cyclic", [False, True]) else [])
    if full:
        lo, hi = ctx.real("lo", lo=-5, hi=0), ctx.real("hi", lo=0, hi=5)
        bounds = [BoundConfig("states", "a", (lo, hi))]
        if ctx.choice("array-bounds", [False, True]):
            arrays = True
            ns = n * (dict(LGR=3, LGRIntegral=2).get(tr, 2) if not (tr in ("LGR", "LGRIntegral") and "num_stages" not in str(SPELL[tr][spell])) else 3) - n + 1
            a = ctx.vec("a", ns, lo=-5, hi=-1)
            bounds.append(BoundConfig("inputs", "u", (a, a + 3)))
        if not fixed:
            bounds.append(BoundConfig("global", "mesh_scale", (0.5, float("inf"))))
        kw["bounds"] = tuple(bounds)
        kw["boundary_conditions"] = (BoundaryConditionConfig(0, "states", "time", 0.0),) + (
            (BoundaryConditionConfig(-1, "states", "a", ctx.real("end.value", lo=-5, hi=5)),) if ctx.choice("end", [False, True]) else ())
        kw["scales"] = O.scales(ctx, sh, fixed)
        if n > 1 and ctx.choice("points", [False, True]):
            kw["interval_points"] = O.points(ctx, n)
    d = None
    try:
        if full and ctx.choice("logged", [False, True]):
            d = tempfile.mkdtemp(prefix="symx")
            kw["logging_config"] = LoggingConfig(sim_name="s", results_dir=d, log_every_nth_iter=2)
        cls = O.FixedMeshOCP if fixed else O.ScaledMeshOCP
        cfg = cls.get_sim_config(**kw)
        d1 = cfg.to_dict()
        keep = copy.deepcopy(d1)
        again = type(cfg)(**d1)
        _equal(ctx, "rebuilt", cfg, again)
        _equal(ctx, "dictionary", d1, again.to_dict())
        _equal(ctx, "twice", again, type(cfg)(**again.to_dict()))
        m = {"mesh_scale": ctx.real("mesh_scale", lo=0.1, hi=5)} if fixed else {}
        ps = [cls(O.make_model(ctx, sh, False)[0], c, **m) for c in (cfg, again)]
        x, lam = ctx.vec("x", ps[0].num_dec, lo=-2, hi=2), ctx.vec("lam", ps[0].num_con, lo=-2, hi=2)
        _same_problem(ctx, "problem", *ps, x, lam)
        ctx.check("logging", (ps[0].logging_dir is None) == (d is None) == (ps[1].logging_dir is None))
        if not arrays:
            text = type(cfg)(**_lists({k: (list(v) if isinstance(v, np.ndarray) else v) for k, v in keep.items()}))
            q = cls(O.make_model(ctx, sh, False)[0], text, **m)
            _same_problem(ctx, "from-text", ps[0], q, x, lam)
        # building and using problems leaves the configuration as it was
        _equal(ctx, "unchanged", cfg.to_dict(), keep)
        # the rebuilt configuration is a separate one
        again.non_cyclic_vars.append("x")
        again.transcription = ("ForwardEuler",)
        if again.logging_config is not None:
            again.logging_config.sim_name = "other"
        _equal(ctx, "separate", cfg.to_dict(), keep)
    finally:
        if d:
            shutil.rmtree(d, ignore_errors=True)


def pairs(ctx, n):
    """bounds are accepted exactly when no lower bound exceeds its upper bound"""
    lo, hi = ctx.vec("lo", n, lo=-9, hi=9), ctx.vec("hi", n, lo=-9, hi=9)
    inf = float("inf")
    for k, side in (("lo", lo), ("hi", hi)):
        v = ctx.choice("unbounded-" + k, [None, -inf, inf])
        if v is not None:
            side[ctx.choice("at-" + k, list(range(n)))] = v

    def le(a, b):
        fa, fb = _inf(a), _inf(b)
        return a <= b if not (fa or fb) else bool((fa and a < 0) or (fb and b > 0))

    scalar = n == 1 and ctx.choice("scalar", [False, True])
    vals = (lo[0], hi[0]) if scalar else (lo, hi)
    if ctx.choice("as-list", [False, True]):
        vals = list(vals)
    ok = ctx.all_(*[le(lo[i], hi[i]) for i in range(n)])

    def same(tag, got):
        got, want = list(got), [*lo, *hi]
        ctx.check(tag + ":unbounded", len(got) == 2 * n and all(_inf(u) == _inf(v) and (not _inf(u) or float(u) == float(v)) for u, v in zip(got, want)))
        fin = [i for i in range(2 * n) if not _inf(want[i])]
        ctx.eq(tag, [got[i] for i in fin], [want[i] for i in fin])

    try:
        b = BoundConfig("states", "a", vals)
        accepted = True
    except AssertionError:
        accepted = False
    if accepted:
        ctx.check("accepted-in-order", ok)
        same("values", [*np.ravel(b.values[0]), *np.ravel(b.values[1])])
        c = BoundConfig(**{f: getattr(b, f) for f in b.__dataclass_fields__})
        same("copied", [*np.ravel(c.values[0]), *np.ravel(c.values[1])])
    else:
        ctx.check("rejected-out-of-order", ctx.any_(*[(not x) if isinstance(x, bool) else lo[i] > hi[i] for i in range(n) for x in (le(lo[i], hi[i]),)]))


def rejected(ctx, fixed, condensed):
    """settings which do not fit"""
    sh = O.SHAPES["std"]
    v = ctx.real("v", lo=-3, hi=3)
    a2, a3 = ctx.vec("p", 2, lo=-1, hi=0), ctx.vec("q", 3, lo=1, hi=2)
    ctx.raises("sizes", AssertionError, lambda: BoundConfig("states", "a", (a2, a3)))
    ctx.raises("two-dimensional", AssertionError, lambda: BoundConfig("states", "a", (a2.reshape(1, 2), a2.reshape(1, 2))))
    ctx.raises("scalar-and-array", TypeError, lambda: BoundConfig("states", "a", (-5.0, a3)))
    ctx.raises("unknown-setting", TypeError, lambda: SimConfig(number_of_intervals=3))
    cls = O.FixedMeshOCP if fixed else O.ScaledMeshOCP
    base = dict(num_intervals=2, backend="custom", is_condensed=condensed, con_output_names=sh.con)

    def build(**kw):
        return cls(O.make_model(ctx, sh, False)[0], cls.get_sim_config(**{**base, **kw}), **({"mesh_scale": 1.0} if fixed else {}))
    ctx.check("base-builds", build().num_con > 0)
    nb = (v, v + 1)
    for tag, kw in dict(
            bound=dict(bounds=(BoundConfig("states", "nobody", nb),)), bound_group=dict(bounds=(BoundConfig("nothing", "a", nb),)),
            bound_stages=dict(bounds=(BoundConfig("states", "a", (a2, a2 + 1)),)), scale=dict(scales=(ScaleConfig("states", "nobody", 2.0),)),
            scale_group=dict(scales=(ScaleConfig("nothing", "a", 2.0),)),
            condition=dict(boundary_conditions=(BoundaryConditionConfig(0, "states", "nobody", v),)),
            output=dict(con_output_names=("nobody",)), cyclic=dict(is_cyclic=True, non_cyclic_vars=["states.nobody"]),
            transcription=dict(transcription="Simpson"), transcription_option=dict(transcription=("LGR", {"order": 3})),
            backend=dict(backend="fortran"), points=dict(interval_points=np.array([0.0, 1.0])),
            points_order=dict(interval_points=np.array([0.0, 0.7, 0.6])), points_outside=dict(interval_points=np.array([0.0, 0.5, 1.5])),
    ).items():
        ctx.raises("unknown-" + tag, Exception, lambda kw=kw: build(**kw))


def laptime(ctx):
    """lap-time configurations: a track is required, time and heading are never cyclic"""
    ctx.raises("no-track", ValueError, lambda: LTCConfig())
    given = ctx.choice("given", ([], ["states.time"], ["inputs.track_heading"], ["states.time", "inputs.track_heading"], ["states.vx"]))
    cyc = ctx.choice("cyclic", [False, True])
    cfg = LTCConfig(track="t", is_cyclic=cyc, non_cyclic_vars=list(given), num_intervals=ctx.choice("n", [3, 7]),
                    bounds=(BoundConfig("states", "vx", (ctx.real("lo", lo=0, hi=5), 50.0)),))
    want = {*given, "states.time", "inputs.track_heading"}
    ctx.check("non-cyclic", set(cfg.non_cyclic_vars) == want and len(cfg.non_cyclic_vars) == len(want), str(cfg.non_cyclic_vars))
    again = LTCConfig(**cfg.to_dict())
    _equal(ctx, "rebuilt", cfg, again)
    _equal(ctx, "from-text", cfg, LTCConfig(**_lists(cfg.to_dict())))
    other = LTCConfig(track="u")
    ctx.check("defaults-separate", set(other.non_cyclic_vars) == {"states.time", "inputs.track_heading"})
    ctx.check("defaults", len(other.bounds) > 0 and all(isinstance(b, BoundConfig) for b in other.bounds)
              and all(isinstance(b, ScaleConfig) for b in other.scales) and all(isinstance(b, BoundaryConditionConfig) for b in other.boundary_conditions))


def tasks(tier):
    th = tier == "thorough"
    out = []
    for fixed in (False, True):
        for cond in (False, True):
            for tr in SPELL:
                for n in (1, 2) + ((3,) if th else ()):
                    if n == 2 and tr in ("LGRIntegral", "ForwardEuler") and not th:
                        continue
                    for full in (False, True):
                        out.append(dict(name=f"rebuilt-{fixed}-{cond}-{tr}-{n}-{full}", harness="rebuilt", cost=5 * n + 20 * full,
                                        params=dict(fixed=fixed, condensed=cond, tr=tr, n=n, full=full)))
            out.append(dict(name=f"rejected-{fixed}-{cond}", harness="rejected", params=dict(fixed=fixed, condensed=cond)))
    for n in (1, 2, 3) + ((4, 5) if th else ()):
        out.append(dict(name=f"pairs-{n}", harness="pairs", params=dict(n=n)))
    out.append(dict(name="laptime", harness="laptime", params={}))
    return out
