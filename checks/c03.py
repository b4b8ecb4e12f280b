"""Condensed == lifted with the derivative variables eliminated: at every decision vector, when the
states_dot variables of the lifted problem are replaced by the model's own derivatives, the defect,
constraint-output, residual and cyclic rows of the lifted problem equal the rows of the condensed
problem; objective and gradient agree; states_dot has no effect in the condensed problem and is fixed."""
import numpy as np

from . import ocp_common as O
from lumos.optimal_control.config import BoundConfig, BoundaryConditionConfig

BOUNDS = ("as C01: scaled/fixed mesh, 4 transcriptions, 1..3 intervals, three model shapes with arbitrary quadratic "
          "coefficients, symbolic interval points, scales and decision vector; mesh-dependent models included on both "
          "mesh kinds")


def equiv(ctx, **k):
    bounds = []
    sh0 = O.SHAPES[k["shape"]]
    lo = ctx.real("b.lo", lo=-5, hi=0)
    hi = ctx.real("b.hi", lo=0, hi=5)
    bounds = (BoundConfig("states", sh0.states[0], (lo, hi)), BoundConfig("inputs", sh0.inputs[0], (lo, hi)))
    bcs = (BoundaryConditionConfig(0, "states", sh0.states[0], ctx.real("b.bc", lo=-1, hi=1)),)
    lift, sh, p = O.build(ctx, condensed=False, bounds=bounds, boundary_conditions=bcs, **k)
    cond, _, _ = O.build(ctx, condensed=True, bounds=bounds, boundary_conditions=bcs, **k)
    ctx.check("same-variables", cond.num_dec == lift.num_dec)
    x = ctx.vec("x", lift.num_dec, lo=-2, hi=2)
    op = lift.dec_var_operator
    s = lift._dec_var_scales
    ctx.eq("same-scales", s, cond._dec_var_scales)
    X = x * s
    v = op.unflatten_var(X)
    mesh = lift.get_mesh_from_dec_var(X)
    # the model evaluated independently, stage by stage
    sd = []
    for i in range(op.num_stages):
        r = lift.model.forward(dict(zip(lift.model.get_group_names("states"), v.states[i])),
                               dict(zip(lift.model.get_group_names("inputs"), v.inputs[i])), mesh[i])
        sd.append([r.states_dot[n] for n in lift.model.get_group_names("states_dot")])
    xl = np.copy(x)
    idx = [[op.get_var_index_in_dec("states_dot", n, stage=i) for n in lift.model.get_group_names("states_dot")]
           for i in range(op.num_stages)]
    for i in range(op.num_stages):
        for j, c in enumerate(idx[i]):
            xl[c] = sd[i][j] / s[c]
    cl = lift.split_constraints(lift.constraints(xl))
    cc = cond.split_constraints(cond.constraints(x))
    ns = len(sh.states)
    alg = np.reshape(cl["model_algebra"], (op.num_stages, -1))
    ctx.eq("eliminated", alg[:, :ns], np.zeros((op.num_stages, ns)))
    want = np.concatenate([np.ravel(cl["continuity"]), np.ravel(alg[:, ns:])])
    ctx.eq("rows", cc["model_algebra"], want)
    if k.get("cyclic"):
        ctx.eq("cyclic", cc["cyclic"], cl["cyclic"])
    ctx.eq("objective", cond.objective(x), lift.objective(x))
    ctx.eq("gradient", cond.gradient(x), lift.gradient(x))
    # states_dot variables are fixed and unused in the condensed problem
    flat = [int(c) for r in idx for c in r]
    ctx.eq("fixed", np.array([cond.lb[c] for c in flat] + [cond.ub[c] for c in flat], dtype=object if ctx.symbolic else float),
           np.zeros(2 * len(flat)))
    rest = [i for i in range(op.num_dec) if i not in flat]
    ctx.check("infinite-bounds", all(_inf(cond.lb[i]) == _inf(lift.lb[i]) and _inf(cond.ub[i]) == _inf(lift.ub[i])
                                     for i in rest))
    fin = [i for i in rest if not _inf(cond.lb[i])]
    ctx.eq("lb", cond.lb[fin], lift.lb[fin])
    fin = [i for i in rest if not _inf(cond.ub[i])]
    ctx.eq("ub", cond.ub[fin], lift.ub[fin])
    z = np.copy(x)
    z[flat] = ctx.vec("other", len(flat), lo=-2, hi=2)
    ctx.eq("unused-constraints", cond.constraints(z), cond.constraints(x))
    ctx.eq("unused-jacobian", cond.jacobian(z), cond.jacobian(x))
    ctx.eq("constraint-bounds", np.concatenate([cond.cl, cond.cu, lift.cl, lift.cu]),
           np.zeros(2 * (cond.num_con + lift.num_con)))
    ctx.check("num-con", len(cond.cl) == cond.num_con and len(lift.cl) == lift.num_con)


def _inf(v):
    try:
        return bool(np.isinf(float(v)))
    except Exception:
        return False


def tasks(tier):
    g = O.grid("equiv", tier, conds=(None,))
    for t in g:
        t["params"].pop("condensed")
    g = [t for t in g if "pieces" not in t["params"].get("use", ())]
    # mesh-dependent models are fine here on both mesh kinds
    for fixed in (False, True):
        for tr in ("Trapezoidal", ("LGR", {"num_stages": 3})):
            g.append(dict(name=f"mesh-{fixed}-{tr[0] if tr[0] != 'T' else tr}", harness="equiv", cost=3,
                          params=dict(fixed=fixed, tr=tr, n=2, shape="std", mesh_dep=True)))
    seen, out = set(), []
    for t in g:
        t["name"] = t["name"].replace("condensed=None-", "")
        if t["name"] not in seen:
            seen.add(t["name"])
            out.append(t)
    return out
