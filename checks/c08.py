"""Histories of bound and boundary-condition updates on a built problem: afterwards each decision
variable's bounds are those of the last request addressing it (boundary conditions stay in force over
later path bounds), nothing else moves, the user sees physical units and the solver gets them divided
by the scales; contradictory or wrongly sized requests are rejected and change nothing."""
import numpy as np

from . import ocp_common as O
from lumos.optimal_control.config import BoundaryConditionConfig, BoundConfig, ScaleConfig

BOUNDS = ("scaled/fixed mesh x lifted/condensed, 2 intervals (3..5 stages); histories of up to 3 (quick) / 4 (thorough) "
          "steps, each a symbolic choice among path bounds (scalar or per-stage), bounds of several variables at once, "
          "boundary conditions (value or range, first/last/negative stage), direct state/input/constraint-output bounds "
          "and rejected requests; histories of up to 4 (5) requests meeting at the same stages under any of their numbers; bound values, scales symbolic")


def _pair(ctx, name):
    a, b = ctx.real(name + ".lo", lo=-9, hi=9), ctx.real(name + ".hi", lo=-9, hi=9)
    ctx.assume(a <= b)
    return a, b


def _arr(ctx, name, n):
    p = [_pair(ctx, f"{name}[{i}]") for i in range(n)]
    return ctx.array([a for a, _ in p]), ctx.array([b for _, b in p])


INF = float("inf")


class Ref:
    """what was requested, by (group, name, stage)"""

    def __init__(self, ocp, groups, ns):
        self.v = {(g, n, s): (-INF, INF) for g in groups for n in ocp.model.get_group_names(g) for s in range(ns)}
        if "mesh_scale" in ocp.global_var_names:
            self.v["global", "mesh_scale", None] = (-INF, INF)
        self.ns = ns
        self.bcs = []

    def set(self, g, n, stage, val):
        lo, hi = val if isinstance(val, tuple) else (val, val)
        if g == "global":
            self.v[g, n, None] = (lo, hi)
            return
        for s in range(self.ns) if stage is None else [stage % self.ns]:
            self.v[g, n, s] = (lo[s], hi[s]) if np.ndim(lo) else (lo, hi)

    def reapply(self):
        for b in self.bcs:
            self.set(*b)


def _check(ctx, tag, ocp, ref):
    op = ocp.dec_var_operator
    lo, hi = [None] * ocp.num_dec, [None] * ocp.num_dec
    for (g, n, s), (a, b) in ref.v.items():
        i = int(op.get_var_index_in_dec(g, n) if s is None else op.get_var_index_in_dec(g, n, s))
        lo[i], hi[i] = a, b
    for nm, got, exp in (("lb", ocp.lb, lo), ("ub", ocp.ub, hi)):
        fin = [i for i in range(ocp.num_dec) if not _inf(exp[i])]
        rest = [i for i in range(ocp.num_dec) if i not in fin]
        ctx.eq(f"{tag}:{nm}", np.array([got[i] for i in fin]), np.array([exp[i] for i in fin]))
        ctx.check(f"{tag}:{nm}-unbounded", all(_inf(got[i]) and float(got[i]) == exp[i] for i in rest))
    return lo, hi


def _inf(v):
    try:
        return bool(np.isinf(float(v)))
    except Exception:
        return False


def history(ctx, steps, fixed, condensed, tr, initial, part=(0, 1)):
    kw = {}
    if initial:
        b0 = _pair(ctx, "i0")
        kw["bounds"] = (BoundConfig("states", "a", b0),)
        kw["boundary_conditions"] = (BoundaryConditionConfig(0, "states", "a", ctx.real("ibc", lo=-9, hi=9)),)
    scs = (ScaleConfig("states", "a", ctx.real("sc.a", lo=0.1, hi=10)),
           ScaleConfig("inputs", "u", ctx.real("sc.u", lo=0.1, hi=10)))
    ocp, _, _ = _build(ctx, fixed, condensed, tr, scs, kw)
    other, _, _ = O.build(ctx, shape="std", n=2, fixed=fixed, condensed=condensed, tr=tr, scaled=False, pts=False)
    ns = ocp.num_stages
    groups = ("states", "inputs", "states_dot", "con_outputs")
    ref, ref2 = Ref(ocp, groups, ns), Ref(other, groups, ns)
    for r in (ref, ref2):
        if condensed:
            for n in ocp.model.get_group_names("states_dot"):
                r.set("states_dot", n, None, (0.0, 0.0))
    if initial:
        ref.set("states", "a", None, b0)
        ref.bcs.append(("states", "a", 0, kw["boundary_conditions"][0].value))
        ref.reapply()
    for k in range(steps):
        opts = ["path-scalar", "path-array", "path-many", "bc-value", "bc-range", "bc-input", "direct-state", "direct-input",
                "direct-con", "bad-array", "bad-order", "bad-stage", "bad-bc", "bad-many"] + ([] if fixed else ["path-global"])
        op = ctx.choice(f"op{k}", opts[part[0]::part[1]] if k == 0 else opts)
        p = _pair(ctx, f"v{k}")
        if op == "path-scalar":
            ocp.update_bounds((BoundConfig("states", "a", p),))
            ref.set("states", "a", None, p)
        elif op == "path-array":
            q = _arr(ctx, f"arr{k}", ns)
            ocp.update_bounds((BoundConfig("states", "a", q),))
            ref.set("states", "a", None, q)
        elif op == "path-many":  # the later of two requests for the same variable wins
            p2 = _pair(ctx, f"w{k}")
            ocp.update_bounds((BoundConfig("inputs", "u", p), BoundConfig("con_outputs", "y", p2),
                               BoundConfig("inputs", "u", p2)))
            ref.set("con_outputs", "y", None, p2)
            ref.set("inputs", "u", None, p2)
        elif op == "path-global":
            ocp.update_bounds((BoundConfig("global", "mesh_scale", p),))
            ref.set("global", "mesh_scale", None, p)
        elif op in ("bc-value", "bc-range"):
            val = p if op == "bc-range" else p[0]
            stage = [-1, 0, 1][k % 3]
            ocp.update_boundary_conditions((BoundaryConditionConfig(stage, "states", "a", val),))
            ref.bcs.append(("states", "a", stage, val))
        elif op == "bc-input":
            g, nm = (("inputs", "u"), ("con_outputs", "y"))[k % 2]
            ocp.update_boundary_conditions((BoundaryConditionConfig(0, g, nm, p),))
            ref.bcs.append((g, nm, 0, p))
        elif op == "direct-state":
            ocp.set_state_bounds("a", -2, p)
            ref.set("states", "a", -2, p)
        elif op == "direct-input":
            ocp.set_input_bounds("u", 0, p[1])
            ref.set("inputs", "u", 0, p[1])
        elif op == "direct-con":
            ocp.set_con_output_bounds("y", 1, p)
            ref.set("con_outputs", "y", 1, p)
        elif op == "bad-array":
            q = _arr(ctx, f"arr{k}", ns + 1)
            ctx.raises("wrong-length", Exception, lambda: ocp.set_state_bounds("a", None, q))
            q1 = tuple(v[:1] for v in q)
            ctx.raises("single-entry", Exception, lambda: ocp.set_state_bounds("a", None, q1))
            ctx.raises("single-entry-config", Exception, lambda: ocp.update_bounds((BoundConfig("inputs", "u", q1),)))
        elif op == "bad-order":
            bad = (p[1] + 1, p[0])
            ctx.raises("crossed", Exception, lambda: BoundConfig("states", "a", bad))
            ctx.raises("crossed-direct", Exception, lambda: ocp.set_state_bounds("a", 0, bad))
            lo, hi = (list(v) for v in _arr(ctx, f"arr{k}", ns))
            lo[k % ns] = hi[k % ns] + p[1] - p[0] + 0.5  # crossed at one stage only
            ctx.raises("crossed-entry", Exception,
                       lambda: ocp.set_input_bounds("u", None, (ctx.array(lo), ctx.array(hi))))
        elif op == "bad-stage":
            ctx.raises("stage-range", ValueError, lambda: ocp.set_state_bounds("a", ns, p))
        elif op == "bad-bc":  # a rejected boundary condition is not a request in force, also for what comes later
            good, q = BoundaryConditionConfig(0, "states", "a", p), (p[1] + 1, p[0])
            for exc, *bad in ((ValueError, ns, "states", "a", p[0]), (Exception, 0, "states", "nope", p[0]),
                              (AssertionError, 1, "inputs", "u", q)):
                bcs = (BoundaryConditionConfig(*bad),)
                ctx.raises("bad-bc", exc, lambda: ocp.update_boundary_conditions(bcs if k % 2 else (good, *bcs)))
        elif op == "bad-many":  # rejected as a whole
            bad = BoundConfig("states", "nope", p) if k % 2 else BoundConfig("states", "a", _arr(ctx, f"arr{k}", ns + 1))
            ctx.raises("bad-many", Exception, lambda: ocp.update_bounds((BoundConfig("inputs", "u", p), bad)))
        if op.startswith("path") or op.startswith("bc"):
            ref.reapply()
    lo, hi = _check(ctx, "end", ocp, ref)
    _check(ctx, "other-problem", other, ref2)
    op = ocp.dec_var_operator
    ctx.eq("get-lb", np.array([v for v in ocp.get_lb("states", "a") if not _inf(v)]),
           np.array([ref.v["states", "a", s][0] for s in range(ns) if not _inf(ref.v["states", "a", s][0])]))
    ctx.eq("get-ub", np.array([v for v in ocp.get_ub("inputs", "u") if not _inf(v)]),
           np.array([ref.v["inputs", "u", s][1] for s in range(ns) if not _inf(ref.v["inputs", "u", s][1])]))
    s = [1.0] * ocp.num_dec
    for sc in scs:
        for i in op.get_var_index_in_dec(sc.group, sc.name):
            s[int(i)] = sc.value
    sol = ctx.array([0.5] * ocp.num_dec)
    with O.StubIpopt(sol, callbacks=lambda o, x0, z: o.objective(z)) as stub:
        ocp.solve(init_guess=sol)
    P = stub.made[-1]
    for nm, got, exp in (("solver-lb", P["lb"], lo), ("solver-ub", P["ub"], hi)):
        fin = [i for i in range(ocp.num_dec) if not _inf(exp[i])]
        ctx.eq(nm, np.array([got[i] * s[i] for i in fin]), np.array([exp[i] for i in fin]))
        ctx.check(nm + "-unbounded", all(_inf(got[i]) == _inf(exp[i]) for i in range(ocp.num_dec)))
    ctx.eq("equalities", np.concatenate([P["cl"], P["cu"]]), np.zeros(2 * ocp.num_con))


def _build(ctx, fixed, condensed, tr, scs, kw):
    model, p = O.make_model(ctx, O.STD, False, symbolic_params=False)
    cls = O.FixedMeshOCP if fixed else O.ScaledMeshOCP
    cfg = cls.get_sim_config(num_intervals=2, transcription=tr, backend="custom", is_condensed=condensed,
                             con_output_names=O.STD.con, scales=scs, **kw)
    return cls(model, cfg, **({"mesh_scale": 2.0} if fixed else {})), O.STD, p


def stages(ctx, steps, fixed, first):
    """requests that meet at the same stages, under whatever number they name them"""
    ocp, _, _ = _build(ctx, fixed, False, "Trapezoidal", (), {})
    ns = ocp.num_stages
    ref = Ref(ocp, ("states", "inputs", "states_dot", "con_outputs"), ns)
    for k in range(steps):
        stage = first if k == 0 else ctx.choice(f"stage{k}", (-1, ns - 1, 0, -ns, "path", "state"))
        p = _pair(ctx, f"v{k}")
        if stage == "path":
            ocp.update_bounds((BoundConfig("states", "a", p),))
            ref.set("states", "a", None, p)
            ref.reapply()
        elif stage == "state":
            ocp.set_state_bounds("a", -1, p)
            ref.set("states", "a", -1, p)
        else:
            ocp.update_boundary_conditions((BoundaryConditionConfig(stage, "states", "a", p if k % 2 else p[0]),))
            ref.bcs.append(("states", "a", stage, p if k % 2 else p[0]))
            ref.reapply()
    _check(ctx, "end", ocp, ref)


def config(ctx, n):
    """what a bound configuration accepts: lower <= upper, both scalars or both vectors of one length"""
    a, b = ctx.real("a", lo=-9, hi=9), ctx.real("b", lo=-9, hi=9)
    ok = True
    try:
        BoundConfig("states", "a", (a, b))
    except AssertionError:
        ok = False
    ctx.check("accepted-iff-ordered", (a <= b) if ok else ctx.all_(a > b))
    va, vb = ctx.vec("va", n, lo=-9, hi=9), ctx.vec("vb", n, lo=-9, hi=9)
    try:
        BoundConfig("states", "a", (va, vb))
        ok = True
    except AssertionError:
        ok = False
    allok = ctx.all_(*[p <= q for p, q in zip(va, vb)])
    ctx.check("vector-accepted-iff-ordered", allok if ok else ctx.implies(allok, False))
    ctx.raises("mixed", TypeError, lambda: BoundConfig("states", "a", (a, vb)))
    ctx.raises("lengths", AssertionError, lambda: BoundConfig("states", "a", (va - 100, ctx.array([1.0] * (n + 1)))))


def tasks(tier):
    st = 3 if tier == "quick" else 4
    out = [dict(name=f"config-{n}", harness="config", params=dict(n=n), cost=1) for n in (1, 2, 4)]
    for fixed, first in ((False, -1), (False, 2), (True, 0), (True, -3)):
        out.append(dict(name=f"stages-{fixed}-{first}", harness="stages", params=dict(steps=st + (fixed == 0), fixed=fixed, first=first),
                        cost=80, opts=dict(max_paths=30000)))
    for fixed in (False, True):
        for cond in (False, True):
            for init in (False, True):
                big = not (fixed or cond) or tier == "thorough"
                for j in range(4 if big else 1):
                    out.append(dict(name=f"hist-{fixed}-{cond}-{init}" + (f"-{j}" if big else ""), harness="history",
                                    params=dict(steps=st - (1 if (fixed or cond) else 0), fixed=fixed, condensed=cond,
                                                tr="Trapezoidal" if init else ("LGR", {"num_stages": 3}), initial=init,
                                                part=(j, 4 if big else 1)),
                                    cost=100, opts=dict(max_paths=30000)))
    return out
