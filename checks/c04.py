"""Scaling is transparent: with any positive variable scales the problem seen by the solver is the
unscaled problem under the change of variables x = s*x_hat with each constraint row divided by a
positive row scale: constraints, Jacobian, Hessian, objective, gradient and bounds correspond, the
initial guess is mapped in and the solution is mapped out; re-scaling replaces earlier scales."""
import numpy as np

from . import ocp_common as O
from lumos.optimal_control.config import BoundConfig, ScaleConfig

BOUNDS = ("as C01 (scaled/fixed mesh x lifted/condensed x 4 transcriptions x three model shapes); histories: scales "
          "set at construction, set again afterwards, replaced, a rejected request, with three constraints and two objectives of the user added before or after; scales in [0.1,10]; solver replaced by a stub")


def _row_scales(ocp, sh, sc):
    """documented row scaling: defects and state equations by the state's scale, constraint outputs by theirs"""
    g = lambda grp, n: sc.get((grp, n), 1.0)  # noqa: E731
    m = ocp.model
    st = [g("states", n) for n in m.get_group_names("states")]
    co = [g("con_outputs", n) for n in m.get_group_names("con_outputs")] + [1.0] * m.num_residuals
    op = ocp.dec_var_operator
    cont = st * (op.num_intervals * (op.num_stages_per_interval - 1))
    out = []
    for name, c in ocp.split_constraints(np.arange(ocp.num_con)).items():
        if name == "cyclic" or name.startswith("piece_"):
            out += [1.0] * len(c)
        elif name == "continuity":
            out += cont
        elif ocp.is_condensed:
            out += cont + co * op.num_stages
        else:
            out += (st + co) * op.num_stages
    return out


def scaling(ctx, history="init", pieces="", **k):
    sh = O.SHAPES[k["shape"]]
    lo, hi = ctx.real("b.lo", lo=-5, hi=0), ctx.real("b.hi", lo=0, hi=5)
    bounds = (BoundConfig("states", sh.states[0], (lo, hi)), BoundConfig("inputs", sh.inputs[0], (lo, hi)),)
    base, _, _ = O.build(ctx, scaled=False, bounds=bounds, **k)
    if pieces:
        O.add_pieces(ctx, base)
    scs = O.scales(ctx, sh, k["fixed"])
    if history == "init":
        ocp, _, _ = O.build(ctx, scaled=True, bounds=bounds, **k)
    elif history == "later":
        ocp, _, _ = O.build(ctx, scaled=False, bounds=bounds, **k)
        if pieces == "before":
            O.add_pieces(ctx, ocp)
        ocp.set_scales(scs)
    elif history == "rejected":  # a request that is rejected changes nothing
        ocp, _, _ = O.build(ctx, scaled=True, bounds=bounds, **k)
        if pieces == "before":
            O.add_pieces(ctx, ocp)
        for bad in (ScaleConfig("states", "nope", 2.0), ScaleConfig("nope", sh.states[0], 2.0)):
            ctx.raises("rejected", Exception, lambda: ocp.set_scales((ScaleConfig("states", sh.states[0], ctx.real("s3", lo=0.1, hi=10)), bad)))
    else:  # earlier scales of other variables are replaced, not accumulated
        ocp, _, _ = O.build(ctx, scaled=True, bounds=bounds, **k)
        if pieces == "before":
            O.add_pieces(ctx, ocp)
        scs = (ScaleConfig("states", sh.states[-1], ctx.real("s2.a", lo=0.1, hi=10)),
               ScaleConfig("inputs", sh.inputs[0], ctx.real("s2.b", lo=0.1, hi=10)))
        ocp.set_scales(scs)
    if pieces == "after":
        O.add_pieces(ctx, ocp)
    sc = {(c.group, c.name): c.value for c in scs}
    # expected variable scales from the names alone
    op = base.dec_var_operator
    s = [None] * op.num_dec
    for st in range(op.num_stages):
        for g in ("states", "inputs", "states_dot", "con_outputs"):
            for n in base.model.get_group_names(g):
                s[int(op.get_var_index_in_dec(g, n, stage=st))] = sc.get((g, n), 1.0)
    if not k["fixed"]:
        s[int(op.get_var_index_in_dec("global", "mesh_scale"))] = sc.get(("global", "mesh_scale"), 1.0)
    s = ctx.array(s)
    rs = ctx.array(_row_scales(ocp, sh, sc))
    xh = ctx.vec("x", op.num_dec, lo=-2, hi=2)
    x = xh * s
    n, m = base.num_dec, base.num_con
    ctx.check("sizes", ocp.num_dec == n and ocp.num_con == m)
    ctx.eq("objective", ocp.objective(xh), base.objective(x))
    ctx.eq("gradient", ocp.gradient(xh), base.gradient(x) * s)
    ctx.eq("constraints", ocp.constraints(xh) * rs, base.constraints(x))
    J = O.dense(*ocp.jacobianstructure(), ocp.jacobian(xh), (m, n))
    J0 = O.dense(*base.jacobianstructure(), base.jacobian(x), (m, n))
    ctx.eq("jacobian", J * rs.reshape(-1, 1), J0 * s.reshape(1, -1))
    lam = ctx.vec("lam", m, lo=-3, hi=3)
    of = ctx.real("of", lo=-2, hi=2)
    H = O.dense(*ocp.hessianstructure(), ocp.hessian(xh, lam, of), (n, n))
    H0 = O.dense(*base.hessianstructure(), base.hessian(x, lam / rs, of), (n, n))
    ctx.eq("hessian", H, H0 * s.reshape(1, -1) * s.reshape(-1, 1))
    # the bounds the user sees are unscaled, the ones given to the solver are scaled
    sol = ctx.vec("sol", n, lo=-2, hi=2)
    guess = ctx.vec("guess", n, lo=-2, hi=2)
    with O.StubIpopt(sol, callbacks=lambda o, x0, z: o.objective(z)) as stub:
        out, info = ocp.solve(init_guess=guess)
    P = stub.made[-1]
    ctx.check("problem-size", P["n"] == n and P["m"] == m and P["obj"] is ocp)
    ctx.eq("guess-in", stub.solved[-1] * s, guess)
    ctx.eq("solution-out", out, sol * s)
    fin = [i for i in range(n) if not _inf(base.lb[i])]
    ctx.check("finite-bounds", all(_inf(P["lb"][i]) == _inf(base.lb[i]) and _inf(P["ub"][i]) == _inf(base.ub[i])
                                   for i in range(n)))
    ctx.eq("lb", (P["lb"] * s)[fin], base.lb[fin])
    ctx.eq("ub", (P["ub"] * s)[fin], base.ub[fin])
    ctx.eq("user-lb", ocp.lb[fin], base.lb[fin])
    ctx.eq("user-ub", ocp.ub[fin], base.ub[fin])
    ctx.eq("cl-cu", np.concatenate([P["cl"], P["cu"]]), np.concatenate([base.cl, base.cu]))


def _inf(v):
    try:
        return bool(np.isinf(float(v)))
    except Exception:
        return False


def tasks(tier):
    g = O.grid("scaling", tier)
    out = []
    for i, t in enumerate(g):
        out.append(t)
    hist = []
    for h in ("later", "replaced", "rejected"):
        for fixed in (False, True):
            for cond in (False, True):
                k = dict(history=h, fixed=fixed, condensed=cond, tr=("LGR", {"num_stages": 3}), n=2, shape="wide")
                hist.append(dict(name=f"hist={h}-fixed={fixed}-cond={cond}", harness="scaling", params=k, cost=3))
    for h, pc in (("init", "after"), ("later", "before"), ("later", "after"), ("replaced", "before"), ("rejected", "before"), ("rejected", "after")):
        for fixed in (False, True):
            for cond in (False, True):
                k = dict(history=h, pieces=pc, fixed=fixed, condensed=cond, tr="Trapezoidal", n=2, shape="std")
                hist.append(dict(name=f"pieces-{pc}-hist={h}-fixed={fixed}-cond={cond}", harness="scaling", params=k,
                                 cost=3))
    return out + hist
