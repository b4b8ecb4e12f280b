"""Decision-vector layout: packing and unpacking are inverse, every lookup (group, name, stage,
negative stage, all stages, group at a stage, group over the problem, interval tensors, stage arrays)
addresses the entry that unpacking reports, indices are a bijection onto the vector, and stages out of
range or unknown names are rejected."""
from collections import namedtuple

import numpy as np

from . import ocp_common as O
from lumos.optimal_control.utils import DecVarOperator

BOUNDS = ("layouts: 1..3 intervals (thorough 5) x 2..4 stages per interval x group sizes (states/states_dot 1..3, "
          "inputs 1..3, con_outputs 0..2) x 0..2 globals, group order permuted; entries and queried stage symbolic")

GROUPS = ("states", "inputs", "states_dot", "con_outputs")


def layout(ctx, n, w, sizes, order, glob):
    names = {"states": ["xa", "xb", "xc"], "inputs": ["ua", "ub", "uc"], "states_dot": ["xa_dot", "xb_dot", "xc_dot"],
             "con_outputs": ["oa", "ob"], "outputs": ["oa", "ob", "oc"], "residuals": []}
    names = {g: tuple(v[:dict(zip(GROUPS, sizes)).get(g, len(v))]) for g, v in names.items()}
    tup = namedtuple("Names", list(names))(**names)
    groups = tuple(GROUPS[i] for i in order if names[GROUPS[i]])
    if not names["con_outputs"]:
        groups = groups + ("con_outputs",)
    gnames = ("mesh_scale", "slack")[:glob]
    op = DecVarOperator(model_var_names=tup, num_intervals=n, num_stages_per_interval=w, stage_var_groups=groups,
                        global_var_names=gnames)
    ns = n * (w - 1) + 1
    nv = sum(len(names[g]) for g in groups)
    N = ns * nv + glob
    ctx.check("sizes", (op.num_stages, op.num_var_stage, op.num_var_interval, op.num_all_stage_var, op.num_global_var,
                        op.num_dec) == (ns, nv, nv * w, ns * nv, glob, N))
    ctx.check("has-global", bool(op.has_global_var()) == (glob > 0))
    x = ctx.vec("x", N)
    v = op.unflatten_var(x)
    # pack . unpack = id and unpack . pack = id
    ctx.eq("pack-unpack", op.flatten_var(**v._asdict()), x)
    fresh = {g: ctx.mat("v." + g, (ns, len(names[g]))) for g in groups}
    fresh.update({g: ctx.real("v." + g) for g in gnames})
    y = op.flatten_var(**fresh)
    ctx.eq("keyword-order", op.flatten_var(**{g: fresh[g] for g in reversed(list(fresh))}), y)
    back = op.unflatten_var(y)._asdict()
    ctx.check("groups", set(back) == set(fresh))
    for g in fresh:
        ctx.eq("unpack-pack:" + g, back[g], fresh[g])
    # lookups against unpacking
    used = []
    stage = ctx.int("stage", -ns, ns - 1)
    st = int(stage)
    for g in groups:
        blk = getattr(v, g)
        ctx.check("group-size", op.get_stage_var_size(g) == len(names[g]))
        ctx.eq("group-at-stage", x[op.get_group_indices_at_stage(g, st)] if names[g] else ctx.array([]),
               blk[st % ns])
        if names[g]:
            ctx.eq("group-in-dec", x[op.get_group_indcies_in_dec(g)], np.ravel(blk))
        ten = op.get_interval_tensor(x, g)
        ctx.check("tensor-shape", tuple(ten.shape) == (n, w, len(names[g])))
        for i in range(n):
            ctx.eq("tensor", ten[i], blk[i * (w - 1):i * (w - 1) + w])
        for k, nm in enumerate(names[g]):
            ctx.check("in-group", op.get_var_index_in_group(g, nm) == k)
            idx = np.asarray(op.get_var_index_in_dec(g, nm))
            used += [int(i) for i in idx]
            ctx.eq("all-stages", x[idx], blk[:, k])
            ctx.eq("get-all", op.get_var(x, g, nm), blk[:, k])
            ctx.eq("at-stage", x[op.get_var_index_in_dec(g, nm, st)], blk[st % ns, k])
            ctx.eq("get-at-stage", op.get_var(x, group=g, name=nm, stage=st), blk[st % ns, k])
            for bad in (ns, -ns - 1):
                ctx.raises("stage-range", ValueError, lambda: op.get_var_index_in_dec(g, nm, bad))
        for bad in (ns, -ns - 1):
            ctx.raises("group-stage-range", ValueError, lambda: op.get_group_indices_at_stage(g, bad))
        ctx.raises("unknown-name", Exception, lambda: op.get_var_index_in_dec(g, "nonsense", 0))
    for k, g in enumerate(gnames):
        i = int(op.get_var_index_in_dec("global", g))
        used.append(i)
        ctx.check("global-in-group", op.get_var_index_in_group("global", g) == k)
        ctx.eq("global", x[i], getattr(v, g))
        ctx.eq("get-global", op.get_var(x, "global", g), getattr(v, g))
    ctx.check("bijection", sorted(used) == list(range(N)))
    # stage array and names
    arr = op.get_stage_var_array(x)
    ctx.check("stage-array-shape", tuple(arr.shape) == (ns, nv))
    ctx.check("stage-names", len(op.stage_var_names) == nv)
    for c, full in enumerate(op.stage_var_names):
        g, nm = full.split(".")
        ctx.eq("stage-array", arr[:, c], op.get_var(x, g, nm))
    a, b = op.split_stage_and_global_vars(x)
    ctx.eq("merge", op.merge_stage_and_global_vars(a, b), x)
    ctx.eq("split", b, x[ns * nv:])


def problem(ctx, fixed, n, shape, tr):
    """the operator of a real problem agrees with the model's declared names"""
    ocp, sh, _ = O.build(ctx, shape=shape, fixed=fixed, n=n, tr=tr, scaled=False)
    op = ocp.dec_var_operator
    x = ctx.vec("x", ocp.num_dec)
    v = op.unflatten_var(x)
    exp = {"states": sh.states, "inputs": sh.inputs, "states_dot": tuple(s + "_dot" for s in sh.states),
           "con_outputs": sh.con}
    for g, ns in exp.items():
        ctx.check("names", tuple(ocp.model.get_group_names(g)) == tuple(ns) or g == "states_dot")
        for k, nm in enumerate(ocp.model.get_group_names(g)):
            ctx.eq("entry", op.get_var(x, g, nm), getattr(v, g)[:, k])
    ctx.check("mesh-scale", fixed or op.get_var_index_in_dec("global", "mesh_scale") == ocp.num_dec - 1)
    ctx.check("num-stages", ocp.num_stages == op.num_stages and len(ocp.get_mesh_from_scale(1.0)) == op.num_stages)


def tasks(tier):
    out = []
    ns = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5)
    ws = (2, 3, 4) if tier == "quick" else (2, 3, 4, 5, 6)
    shapes = [((1, 1, 1, 0), (0, 1, 2, 3)), ((2, 1, 2, 1), (0, 1, 2, 3)), ((3, 2, 3, 2), (0, 1, 2, 3)),
              ((2, 3, 2, 1), (3, 1, 0, 2)), ((2, 2, 2, 2), (1, 2, 3, 0))]
    for n in ns:
        for w in ws:
            for j, (sz, od) in enumerate(shapes):
                for glob in ((0, 1) if j != 2 else (2,)):
                    out.append(dict(name=f"layout-{n}-{w}-{j}-{glob}", harness="layout",
                                    params=dict(n=n, w=w, sizes=sz, order=od, glob=glob), cost=n * w * sum(sz)))
    for fixed in (False, True):
        for shape in ("std", "wide", "tiny"):
            out.append(dict(name=f"problem-{fixed}-{shape}", harness="problem",
                            params=dict(fixed=fixed, n=2, shape=shape, tr=("LGR", {"num_stages": 3})), cost=2))
    return out
