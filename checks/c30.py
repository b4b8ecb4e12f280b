"""Model parameters of a problem: after every history of parameter changes (single values and whole arrays, of the
model and of its submodels, mixed with evaluations and mesh changes, starting from any parameters - also ones
with which derivatives vanish) constraints, Jacobian, Hessian, objective, their structures and the bounds of the problem
describe the problem built with the final parameters from the start; building functions and evaluating
leaves the parameters of the model as they were."""
import numpy as np

from lumos.models.tree_utils import ParameterTree
from lumos.optimal_control.fixed_mesh_ocp import FixedMeshOCP
from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP
from symx import backends

from . import backend_common as B
from . import model_common as M
from . import ocp_common as O
from . import sim_common as S

BOUNDS = ("synthetic quadratic models (custom backend; scaled/fixed mesh x lifted/condensed x Trapezoidal/LGR), composed and function-"
          "heavy models (jax and casadi backends, lifted/condensed, 2 intervals) and the lap-time problem (constraints and initial guess); "
          "parameters at construction all zero or symbolic; histories of up to 3 (thorough 4) steps, each a symbolic choice "
          "among changes of two parameters, evaluation, mesh change and a rejected change; C export for both casadi types")


def _compare(ctx, a, b, hess=True, tag=""):
    """problem a (changed) equals problem b (fresh) everywhere"""
    n = b.num_dec
    ctx.check(tag + "sizes", a.num_dec == n and a.num_con == b.num_con)
    x = ctx.vec(tag + "x", n, lo=-2, hi=2)
    ca, cb = a.constraints(x), b.constraints(x)
    ctx.eq(tag + "constraints", ca, cb)
    ctx.eq(tag + "objective", a.objective(x), b.objective(x))
    ctx.eq(tag + "gradient", a.gradient(x), b.gradient(x))
    shape = (b.num_con, n)
    ja = O.dense(*a.jacobianstructure(), a.jacobian(x), shape)
    jb = O.dense(*b.jacobianstructure(), b.jacobian(x), shape)
    ctx.eq(tag + "jacobian", ja, jb)
    if hess:
        lam = ctx.vec(tag + "lam", b.num_con, lo=-2, hi=2)
        w = ctx.real(tag + "w", lo=0, hi=2)
        ctx.eq(tag + "hessian", O.dense(*a.hessianstructure(), a.hessian(x, lam, w), (n, n)),
               O.dense(*b.hessianstructure(), b.hessian(x, lam, w), (n, n)))
    ctx.eq(tag + "bounds", np.concatenate([a.cl, a.cu]), np.concatenate([b.cl, b.cu]))
    return x, cb, jb


def synthetic(ctx, fixed, condensed, tr, shape="std", steps=3, scaled=True):
    sh = O.SHAPES[shape]
    names = O.coef_names(sh)
    cls = FixedMeshOCP if fixed else ScaledMeshOCP
    make = O.make_model_class(sh, fixed)
    zero = ctx.choice("built-with", ("zeros", "values"))
    cur = {n: 0.0 if zero == "zeros" else ctx.real("p0." + n, lo=-2, hi=2) for n in names}
    cfg = dict(num_intervals=2, transcription=tr, backend="custom", is_condensed=condensed, con_output_names=sh.con,
               scales=O.scales(ctx, sh, fixed) if scaled else ())
    kw = {"mesh_scale": ctx.real("mesh_scale", lo=0.1, hi=5)} if fixed else {}

    def problem(params, mesh=None):
        o = cls(make(params=ParameterTree(dict(params))), cls.get_sim_config(**cfg), **kw)
        if mesh is not None:
            o.set_normalized_mesh(mesh)
        return o
    ocp = problem(cur)
    mesh = None
    lin, quad = [n for n in names if n[0] == "a"], [n for n in names if n[0] == "q"]
    for k in range(steps):
        op = ctx.choice(f"step{k}", ("linear", "quadratic", "evaluate", "mesh", "rejected"))
        if op in ("linear", "quadratic"):
            # several at once so that every derivative gets a chance to come alive
            for j, n in enumerate(lin if op == "linear" else quad):
                if (j + k) % 2 == 0 or k == 0:
                    cur[n] = ctx.real(f"new{k}.{n}", lo=-2, hi=2)
                    ocp.modify_model_param(n, cur[n])
        elif op == "evaluate":
            z = ctx.vec(f"z{k}", ocp.num_dec, lo=-2, hi=2)
            ocp.constraints(z)
            ocp.jacobian(z)
            ocp.jacobianstructure()
            ocp.hessian(z, np.ones(ocp.num_con), 1.0)
            ocp.hessianstructure()
        elif op == "mesh":
            mesh = np.array([0.0, [0.25, 0.7, 0.4, 0.6][k], 1.0])
            ocp.set_normalized_mesh(mesh)
        else:
            ctx.raises("unknown-parameter", Exception, lambda: ocp.modify_model_param("nothing.like.it", 1.0))
    fresh = problem(cur, mesh)
    x, con, J = _compare(ctx, ocp, fresh)
    # (and the derivatives of that are right)
    ctx.eq("exact", O.dense(*ocp.jacobianstructure(), ocp.jacobian(x), J.shape), ctx.gradient(con, x, f=fresh.constraints, x0=x))
    ctx.check("model-parameters", set(ocp.model.get_recursive_params().to_flat_dict()[0]) == set(names))
    for n in names:
        ctx.eq("model-parameters", ocp.model.get_recursive_params().get_param(n), cur[n])


CHANGED = {"composed": ("mid.c", "mid.b.k", "tail.g", "d"), "functions": ("k", "w", "v")}


def compiled(ctx, name, backend, condensed, steps=3, hess=False):
    cfg = dict(num_intervals=2, transcription="Trapezoidal", backend=backend, is_condensed=condensed,
               con_output_names=B.CON[name])

    with backends.captured(ctx):
        cls = ScaledMeshOCP

        def problem(tree):
            m = B.make(name, con=False)
            m.set_recursive_params(tree)
            return cls(m, cls.get_sim_config(**cfg)), m
        m0 = B.make(name, con=False)
        defaults = m0.get_recursive_default_params().to_flat_dict()[0]
        start = ctx.choice("built-with", ("zeros", "defaults"))
        cur = {}
        t = m0.get_recursive_params()
        for p, d in defaults.items():
            cur[p] = np.asarray(d) * 0.0 if start == "zeros" and np.shape(d) else 0.0 if start == "zeros" else d
            t.set_param(p, cur[p])
        ocp, model = problem(t)
        for k in range(steps):
            op = ctx.choice(f"step{k}", ("change", "change-next", "evaluate"))
            if op == "evaluate":
                z = np.linspace(0.1, 0.9, ocp.num_dec) + k
                ocp.constraints(z)
                ocp.jacobian(z)
                ocp.hessian(z, np.ones(ocp.num_con), 1.0)
                ocp.model.batched_forward(np.ones((2, ocp.model.num_states)), np.ones((2, ocp.model.num_inputs)), np.zeros(2),
                                          ocp.model.get_recursive_params())
            else:
                path = CHANGED[name][(k + (op == "change-next")) % len(CHANGED[name])]
                d = defaults[path]
                v = ctx.vec(f"new{k}", int(np.size(d)), lo=-2, hi=2).reshape(np.shape(d)) if np.shape(d) else \
                    ctx.real(f"new{k}", lo=-2, hi=2)
                cur[path] = v
                ocp.modify_model_param(path, v)
        tree = B.make(name, con=False).get_recursive_params()
        for p in cur:
            tree.set_param(p, cur[p])
        fresh, _ = problem(tree)
        n = fresh.num_dec
        x = ctx.vec("x", n, lo=-0.5, hi=0.5)
        if name == "functions":
            for k in range(fresh.num_stages):  # away from the kink of its where
                op = fresh.dec_var_operator
                a, u = (x[op.get_var_index_in_dec(g, v, k)] for g, v in (("states", "a"), ("inputs", "u")))
                ctx.assume(a - u > 0.03)
        ctx.check("sizes", ocp.num_dec == n and ocp.num_con == fresh.num_con)
        want = fresh.constraints(x)
        ctx.eq("constraints", ocp.constraints(x), want)
        shape = (fresh.num_con, n)
        J = O.dense(*ocp.jacobianstructure(), ocp.jacobian(x), shape)
        ctx.eq("jacobian-as-fresh", J, O.dense(*fresh.jacobianstructure(), fresh.jacobian(x), shape), tol=1e-5)
        # (these models depend on the mesh; the derivative by a scaled mesh is documented not to be taken)
        ctx.eq("jacobian", J[:, :-1], ctx.gradient(want, x, f=fresh.constraints, x0=x)[:, :-1], tol=1e-5)
        if hess:
            lam = ctx.vec("lam", fresh.num_con, lo=-2, hi=2)
            ctx.eq("hessian", O.dense(*ocp.hessianstructure(), ocp.hessian(x, lam, 1.0), (n, n)),
                   O.dense(*fresh.hessianstructure(), fresh.hessian(x, lam, 1.0), (n, n)), tol=1e-5)
        now = ocp.model.get_recursive_params().to_flat_dict()[0]
        ctx.check("model-parameters", set(now) == set(cur))
        for p in cur:
            ctx.eq("model-parameters:" + p, now[p], cur[p])


def laptime(ctx, condensed, cyclic, steps=2):
    tr = S.sym_track(ctx, "t", m=3)
    kw = dict(track="t", is_condensed=condensed, is_cyclic=cyclic)
    with S.patched({"t": tr}):
        ocp = S.laptime(ctx, {"t": tr}, **kw)
        have = ocp.model.get_recursive_params().to_flat_dict()[0]
        use = [p for p in have if any(p.endswith(e) for e in ("mass", "PDX1", "PKY1", "Iz", "gravity"))][:4] or list(have)[:3]
        cur = {}
        for k in range(steps):
            i = ctx.choice(f"which{k}", tuple(use))
            d = float(have[i])
            cur[i] = ctx.real(f"new{k}", lo=min(0.8 * d, 1.2 * d), hi=max(0.8 * d, 1.2 * d))
            ocp.modify_model_param(i, cur[i])
        fresh = S.laptime(ctx, {"t": tr}, **kw)
        t = fresh.model.get_recursive_params()
        for p, v in cur.items():
            t.set_param(p, v)
        # (the way a user gives parameters at construction)
        fresh = S.ls.LaptimeSimulation(model_params=t, sim_config=S.ls.LaptimeSimulation.get_sim_config(
            **{"backend": "custom", "num_intervals": 2, "non_cyclic_vars": [], **kw}))
        x = fresh.dec_var_operator.flatten_var(**{
            g: np.stack([ctx.array([B.value(ctx, f"x{k}.{g}.{n}", n, None) for n in fresh.model.get_group_names(g)])
                         for k in range(fresh.num_stages)]) for g in ("states", "inputs", "states_dot", "con_outputs")})
        ctx.eq("constraints", ocp.constraints(x), fresh.constraints(x))
        now, want = (o.model.get_recursive_params().to_flat_dict()[0] for o in (ocp, fresh))
        ctx.check("model-parameters", set(now) == set(want))
        for p in want:
            ctx.eq("model-parameters", now[p], want[p])


def export(ctx, name, kind):
    """exporting C code leaves parameters alone, before and after the functions of a problem were built"""
    import casadi
    with backends.captured(ctx):
        m = B.make(name)
        tree = B.params(ctx, m)
        m.set_recursive_params(tree)
        had = m.get_recursive_params().to_flat_dict()[0]
        for k in range(3):
            op = ctx.choice(f"step{k}", ("export", "jax", "casadi", "forward"))
            if op == "export":
                m.export_c_code("exported.c", CasType=getattr(casadi, kind))
            elif op == "forward":
                m.forward_with_arrays(np.ones(m.num_states), np.ones(m.num_inputs), 0.0)
            else:
                m.make_model_algebra_cons(op)
            got = m.get_recursive_params().to_flat_dict()[0]
            ctx.check("kept", set(got) == set(had))
            for p in had:
                ctx.eq("kept:" + p, got[p], had[p])
        v = [ctx.vec("v" + g, m.get_num_vars(g), lo=-0.5, hi=0.5) for g in ("states", "inputs")]
        r = m.forward_with_arrays(*v, 0.25)
        ref = B.make(name)
        ref.set_recursive_params(tree)
        w = ref.forward_with_arrays(*v, 0.25)
        for g in ("states_dot", "outputs", "con_outputs", "residuals"):
            ctx.eq("still-usable:" + g, getattr(r, g), getattr(w, g))


def tasks(tier):
    th = tier == "thorough"
    out = []
    for fixed in (False, True):
        for cond in (False, True):
            for tr in ("Trapezoidal", ("LGR", {"num_stages": 3})):
                for shape in ("std", "wide") if th else ("std",):
                    out.append(dict(name=f"synthetic-{'fixed' if fixed else 'scaled'}-{'condensed' if cond else 'lifted'}-{tr[:3] if tr[0] == 'T' else tr[0]}-{shape}",
                                    harness="synthetic", params=dict(fixed=fixed, condensed=cond, tr=tr, shape=shape, steps=3 if th else 2),
                                    opts=dict(max_paths=2000), cost=20))
    for name in ("composed", "functions"):
        for backend in ("jax", "casadi"):
            for cond in (False, True):
                out.append(dict(name=f"{name}-{backend}-{'condensed' if cond else 'lifted'}", harness="compiled",
                                params=dict(name=name, backend=backend, condensed=cond, steps=3 if th else 2, hess=th),
                                opts=dict(max_paths=500), cost=40))
    for cond in (False, True):
        out.append(dict(name=f"laptime-{'condensed' if cond else 'lifted'}", harness="laptime",
                        params=dict(condensed=cond, cyclic=cond), cost=30))
    for kind in ("SX", "MX"):
        for name in ("composed", "functions"):
            out.append(dict(name=f"export-{name}-{kind}", harness="export", params=dict(name=name, kind=kind),
                            opts=dict(max_paths=500), cost=10))
    return out
