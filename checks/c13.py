"""Isolation of models and problems: after any history of building models from given or default
parameters and configurations, of setting parameters, of editing the trees and dictionaries that were
passed in or handed out, each model evaluates with exactly the parameters last given to it; the
defaults of a class, the caller's own trees and other optimal control problems (bounds, boundary
conditions, scales, mesh, parameters, configuration objects) are as they were."""
import numpy as np

from . import model_common as M
from . import ocp_common as O
from lumos.models.composition import ModelMaker
from lumos.models.tree_utils import ConfigTree, ParameterTree
from lumos.optimal_control.config import BoundaryConditionConfig, BoundConfig, ScaleConfig

BOUNDS = ("composed models of 5 nodes in 3 levels (variants of the leaf models, parts described by separate objects or by one), up to 3 models alive; histories of up "
          "to 3 (quick) / 4 (thorough) steps among 9 kinds; pairs of optimal control problems, histories of 2 / 3 steps "
          "among 7 kinds; parameter values, states and inputs symbolic")

PATHS = ("d", "mid.c", "mid.a.g", "tail.h")


def check_model(ctx, tag, model, kinds, ref, pt):
    st, inp, mesh = pt
    sd, out = M.top(kinds, ref, st, inp, mesh)
    r = model.forward(states=dict(st), inputs=dict(inp), mesh=mesh)
    for n in sd:
        ctx.eq(f"{tag}:dot.{n}", r.states_dot[n], sd[n])
    ctx.check(tag + ":outputs", set(r.outputs) == set(out), f"{sorted(r.outputs)} {sorted(out)}")
    for n in out:
        ctx.eq(f"{tag}:{n}", r.outputs[n], out[n])
    got = model.get_recursive_params().to_flat_dict()[0]
    ctx.check(tag + ":params", set(got) == set(ref))
    for n in ref:
        ctx.eq(f"{tag}:param.{n}", got[n], ref[n])


def check_tree(ctx, tag, tree, ref):
    got = tree.to_flat_dict()[0]
    ctx.check(tag + ":keys", set(got) == set(ref), f"{sorted(got)} {sorted(ref)}")
    for n in ref:
        ctx.eq(f"{tag}:{n}", got[n], ref[n])


def models(ctx, steps, start, part=(0, 1)):
    M.register()
    pt = ({k: ctx.real("st." + k, lo=-3, hi=3) for k in ("z", "w")}, {k: ctx.real("in." + k, lo=-3, hi=3) for k in "uv"},
          ctx.real("mesh", lo=0, hi=3))
    kinds = dict(M.DEFAULT_KINDS)
    # the caller's own trees
    cfg = ModelMaker.make_config("Top")
    if start == "variant":
        cfg.replace_subtree("mid.b", ModelMaker.make_config("LeafB"))
        kinds["mid.b"] = "LeafB"
    one = ModelMaker.make_config("LeafA")

    def share(cfg):  # one object describes several parts of the model
        if start == "shared":
            for path in ("mid.a", "mid.b", "tail"):
                cfg.replace_subtree(path, one)
        return cfg
    share(cfg)
    base = M.default_params(kinds)
    first = M.Top(model_config=cfg)
    own = first.get_recursive_params()
    ref_own = dict(base)
    mods = [["m0", first, kinds, dict(base)]]
    if start != "single":
        for p in PATHS[:2]:
            v = ctx.real("own0." + p)
            own.set_param(p, v)
            ref_own[p] = v
        mods.append(["m1", M.Top(model_config=cfg, params=own), kinds, dict(ref_own)])
    taken = None
    for k in range(steps):
        ops = ["set", "set-tree", "edit-own", "edit-handed-out", "edit-config", "edit-defaults", "new-from-own",
               "new-default", "submodel-set"]
        op = ctx.choice(f"op{k}", ops[part[0]::part[1]] if k == 0 else ops)
        i = ctx.choice(f"i{k}", list(range(len(mods)))) if op in ("set", "set-tree", "edit-handed-out",
                                                                   "submodel-set") else 0
        p = PATHS[k % len(PATHS)]
        v = ctx.real(f"v{k}", lo=-5, hi=5)
        if op == "set":  # read the parameters, change one, give them to the model, then spoil the tree
            t = mods[i][1].get_recursive_params()
            t.set_param(p, v)
            mods[i][1].set_recursive_params(t)
            mods[i][3][p] = v
            t.set_param(p, v + 1)
            t.set_param("tail.g", v + 2)
        elif op == "set-tree":
            if mods[i][2] != kinds:
                continue  # (the tree of another composition)
            mods[i][1].set_recursive_params(own)
            mods[i][3] = dict(ref_own)
        elif op == "edit-own":
            own.set_param(p, v)
            ref_own[p] = v
        elif op == "edit-handed-out":
            t = mods[i][1].get_recursive_params()
            for q in base:
                t.set_param(q, v)
            d = t.to_dict()
            d["data"]["d"] = v
            taken = d
        elif op == "edit-config":
            cfg.replace_subtree("tail", ConfigTree("LeafB"))
            cfg.replace_subtree("mid", ConfigTree("Nonsense"))
            M.Top.get_recursive_default_model_config().replace_subtree("tail", ConfigTree("LeafB"))
            ModelMaker.make_config("Mid").replace_subtree("a", ConfigTree("LeafB"))
            cfg = ModelMaker.make_config("Top")
            if start == "variant":
                cfg.replace_subtree("mid.b", ModelMaker.make_config("LeafB"))
            share(cfg)
        elif op == "edit-defaults":
            t = mods[0][1].get_recursive_default_params()
            t.set_param(p, v)
            for c in M.ALL:
                d = c.get_default_params()
                for q in d:
                    d[q] = v
        elif op == "new-from-own":
            mods.append([f"n{k}", M.Top(model_config=cfg, params=own), kinds, dict(ref_own)])
        elif op == "new-default":
            mods.append([f"n{k}", ModelMaker.make_model_from_name("Top"), dict(M.DEFAULT_KINDS),
                         M.default_params(M.DEFAULT_KINDS)])
        elif op == "submodel-set":  # parameters given to a part reach that part only
            sub = mods[i][1].get_submodel("mid.a")
            t = sub.get_recursive_params()
            t.set_param("h", v)
            sub.set_recursive_params(t)
            mods[i][3]["mid.a.h"] = v
    for n, m, kd, ref in mods:
        check_model(ctx, n, m, kd, ref, pt)
    check_tree(ctx, "own", own, ref_own)
    fresh = ModelMaker.make_model_from_name("Top")
    check_model(ctx, "fresh", fresh, M.DEFAULT_KINDS, M.default_params(M.DEFAULT_KINDS), pt)
    for n, m, kd, ref in mods:  # evaluating models leaves the others alone too
        check_tree(ctx, n + "-after", m.get_recursive_params(), ref)
    del taken


def _state(ctx, tag, ocp, x, exp=None):
    """everything observable of a problem at x"""
    v = {"f": ocp.objective(x), "g": ocp.constraints(x), "J": ocp.jacobian(x), "lb": _fin(ocp.lb), "ub": _fin(ocp.ub),
         "mesh": ocp.get_mesh_from_scale(2.0)}
    if exp is not None:
        for k in exp:
            ctx.eq(f"{tag}:{k}", v[k], exp[k])
    return v


def _fin(v):
    return np.array([(1e30 if float(e) > 0 else -1e30) if not hasattr(e, "op") and np.isinf(float(e)) else e for e in v],
                    dtype=object)


def problems(ctx, steps, fixed, condensed):
    """two problems built from one configuration object; everything done to one stays there"""
    cls = O.FixedMeshOCP if fixed else O.ScaledMeshOCP
    b = (ctx.real("b.lo", lo=-9, hi=0), ctx.real("b.hi", lo=0, hi=9))
    pts = ctx.array([0.0, 0.25, 1.0])
    cfg = cls.get_sim_config(
        num_intervals=2, interval_points=pts, transcription="Trapezoidal", backend="custom", is_condensed=condensed,
        con_output_names=O.STD.con, bounds=(BoundConfig("states", "a", b),), is_cyclic=True,
        non_cyclic_vars=["states.time"], boundary_conditions=(BoundaryConditionConfig(0, "states", "time", b[1]),),
        scales=(ScaleConfig("inputs", "u", ctx.real("sc", lo=0.1, hi=10)),))
    kw = {"mesh_scale": 2.0} if fixed else {}
    mk = O.make_model_class(O.STD, True)
    params = {n: ctx.real("p." + n, lo=-2, hi=2) for n in O.coef_names(O.STD)}
    tree = ParameterTree(dict(params))
    A, B = cls(mk(params=tree), cfg, **kw), cls(mk(params=tree), cfg, **kw)
    x = ctx.vec("x", A.num_dec, lo=-3, hi=3)
    s0 = _state(ctx, "b0", B, x)
    _state(ctx, "same", A, x, s0)
    dropped = False
    before = {k: v for k, v in vars(cfg).items() if k not in ("interval_points",)}
    for k in range(steps):
        op = ctx.choice(f"op{k}", ["param", "bound", "bc", "scale", "mesh", "edit-tree", "drop-objective", "direct"])
        v = ctx.real(f"v{k}", lo=0.2, hi=5)
        if op == "param":
            A.modify_model_param("q_0_1_2", v)
        elif op == "bound":
            A.update_bounds((BoundConfig("inputs", "u", (-v, v)),))
        elif op == "bc":
            A.update_boundary_conditions((BoundaryConditionConfig(-1, "states", "a", v),))
        elif op == "scale":
            A.set_scales((ScaleConfig("states", "a", v),))
        elif op == "mesh":
            A.set_normalized_mesh(ctx.array([0.0, v / 10, 1.0]))
        elif op == "edit-tree":
            tree.set_param("q_0_1_2", v)
            tree.set_param("a_0_1", v + 1)
        elif op == "drop-objective":
            if not dropped:
                A.delete_objective("time")
            dropped = True
        elif op == "direct":
            A.set_state_bounds("a", 1, v)
    _state(ctx, "other", B, x, s0)
    for k, e in before.items():
        ctx.check("config:" + k, vars(cfg)[k] == e, f"{vars(cfg)[k]} {e}")
    ctx.eq("config:mesh", cfg.interval_points, ctx.array([0.0, 0.25, 1.0]))
    C = cls(mk(params=ParameterTree(dict(params))), cfg, **kw)
    _state(ctx, "built-later", C, x, s0)


def tasks(tier):
    th = tier == "thorough"
    out = []
    for start in ("single", "two", "variant", "shared"):
        for j in range(3):
            out.append(dict(name=f"models-{start}-{j}", harness="models",
                            params=dict(steps=4 if th else (3 if start == "single" else 2), start=start, part=(j, 3)),
                            cost=100, opts=dict(max_paths=60000)))
    for fixed in (False, True):
        for cond in (False, True):
            out.append(dict(name=f"problems-{fixed}-{cond}", harness="problems",
                            params=dict(steps=3 if th else 2, fixed=fixed, condensed=cond), cost=60,
                            opts=dict(max_paths=5000)))
    return out
