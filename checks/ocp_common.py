"""Shared OCP harness pieces: a quadratic model family with symbolic coefficients (the generic
second-order behaviour of any smooth model at a point) and its analytic derivatives."""
import symx  # noqa: F401
import numpy as np

from lumos.models.tree_utils import ParameterTree
from lumos.models.base import StateSpaceModel, StateSpaceModelReturn, state_space_io
from lumos.optimal_control.config import (BoundConfig, BoundaryConditionConfig, LoggingConfig, ScaleConfig,
                                          SimConfig)
from lumos.optimal_control.fixed_mesh_ocp import FixedMeshOCP
from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP

# which coefficients are non-zero: (row, ...) rows are [states_dot..., con/outputs..., residuals...]
# linear a[row, z], quadratic q[row, z, z'] (z = states then inputs), mesh m[row]


class Shape:
    def __init__(self, states, inputs, outputs, con, res, lin, quad, mesh=()):
        self.states, self.inputs, self.outputs = states, inputs, outputs
        self.con, self.res, self.lin, self.quad, self.mesh = con, res, lin, quad, mesh
        self.rows = list(states) + list(outputs)
        self.nz = len(states) + len(inputs)


#: two states (the first is called "time" so that the fixed-mesh objective exists), one input,
#: outputs y (constraint output), w (plain) and a residual r
STD = Shape(("time", "a"), ("u",), ("w", "y", "r"), ("y",), ("r",),
            lin=[(0, 1), (1, 0), (1, 2), (2, 0), (3, 1), (4, 2), (4, 0)],
            quad=[(0, 1, 2), (0, 1, 1), (1, 2, 2), (1, 0, 1), (2, 0, 2), (3, 1, 2), (3, 2, 2), (4, 0, 0), (4, 1, 2)],
            mesh=[1, 3])
#: one state, one input, no outputs
TINY = Shape(("time",), ("u",), (), (), (), lin=[(0, 0)], quad=[(0, 0, 1), (0, 1, 1)], mesh=[0])
#: three states and two inputs, two constraint outputs in non-declaration order
WIDE = Shape(("b", "time", "a"), ("v", "u"), ("y1", "y2"), ("y2", "y1"), (),
             lin=[(0, 1), (1, 2), (2, 3), (3, 4), (4, 0)],
             quad=[(0, 0, 3), (1, 1, 2), (1, 4, 4), (2, 0, 4), (3, 3, 4), (4, 2, 2), (2, 1, 1)],
             mesh=[2, 4])
SHAPES = {"std": STD, "tiny": TINY, "wide": WIDE}


def coef_names(sh):
    return [f"a_{i}_{j}" for i, j in sh.lin] + [f"q_{i}_{j}_{k}" for i, j, k in sh.quad] + \
           [f"m_{i}" for i in sh.mesh]


def make_model_class(sh, mesh_dep):
    @state_space_io(states=sh.states, inputs=sh.inputs, outputs=sh.outputs, residuals=sh.res)
    class SynthModel(StateSpaceModel):
        def __init__(self, model_config={}, params={}):
            super().__init__(model_config=model_config, params=params)

        def forward(self, states, inputs, mesh=0.0):
            p = self._params
            z = [states[n] for n in sh.states] + [inputs[n] for n in sh.inputs]
            out = [0.0] * len(sh.rows)
            for i, j in sh.lin:
                out[i] = out[i] + p[f"a_{i}_{j}"] * z[j]
            for i, j, k in sh.quad:
                out[i] = out[i] + p[f"q_{i}_{j}_{k}"] * z[j] * z[k]
            if mesh_dep:
                for i in sh.mesh:
                    out[i] = out[i] + p[f"m_{i}"] * mesh
            d = dict(zip(sh.rows[:len(sh.states)], out))
            o = dict(zip(sh.rows[len(sh.states):], out[len(sh.states):]))
            return StateSpaceModelReturn(states_dot=self.make_dict("states_dot", **d),
                                         outputs=self.make_dict("outputs", **o))

        @classmethod
        def get_default_params(cls):
            return {n: 0.5 for n in coef_names(sh)}

        # ---- analytic derivatives of the implicit form (custom backend)
        def _imp_rows(self):
            """implicit row -> output row"""
            nr = list(range(len(sh.states)))
            for g in ("con_outputs", "residuals"):
                nr += [sh.rows.index(n, len(sh.states)) for n in self.get_group_names(g)]
            return nr

        def _zcol(self, j):
            ns = len(sh.states)
            return self.get_var_index_in_flat("states", sh.states[j]) if j < ns else \
                self.get_var_index_in_flat("inputs", sh.inputs[j - ns])

        def _jac_entries(self):
            ent = []
            rows = self._imp_rows()
            for r, i in enumerate(rows):
                for j in range(sh.nz):
                    lin = [(i, j)] if (i, j) in sh.lin else []
                    qd = [t for t in sh.quad if t[0] == i and j in t[1:]]
                    if lin or qd:
                        ent.append((r, self._zcol(j), lin, qd, j))
            for s, n in enumerate(sh.states):
                ent.append((s, self.get_var_index_in_flat("states_dot", n), None, None, None))
            for c, n in enumerate(self.get_group_names("con_outputs")):
                ent.append((len(sh.states) + c, self.get_var_index_in_flat("con_outputs", n), None, None, None))
            return ent

        def _implicit_jac(self, flat_vars, mesh, params):
            p = params.data
            z = [flat_vars[self._zcol(j)] for j in range(sh.nz)]
            vals = []
            for r, c, lin, qd, j in self._jac_entries():
                if lin is None:
                    vals.append(-1.0)
                    continue
                v = 0.0
                for i, _ in lin:
                    v = v + p[f"a_{i}_{j}"]
                for (i, k, l) in qd:
                    cf = p[f"q_{i}_{k}_{l}"]
                    if k == j:
                        v = v + cf * z[l]
                    if l == j:
                        v = v + cf * z[k]
                vals.append(v)
            return np.array(vals)

        def _implicit_jacobianstructure(self):
            e = self._jac_entries()
            return np.array([x[0] for x in e]), np.array([x[1] for x in e])

        def _hess_entries(self):
            ent = []
            for r, i in enumerate(self._imp_rows()):
                for (ii, k, l) in sh.quad:
                    if ii == i:
                        a, b = self._zcol(k), self._zcol(l)
                        ent.append((min(a, b), max(a, b), r, f"q_{ii}_{k}_{l}", 2.0 if k == l else 1.0))
                        if a != b:
                            # both triangles, as a full (dense) backend would give
                            ent.append((max(a, b), min(a, b), r, f"q_{ii}_{k}_{l}", 1.0))
            return ent

        def _implicit_hess(self, flat_vars, mult, mesh, params):
            return np.array([params.data[n] * mult[r] * f for _, _, r, n, f in self._hess_entries()])

        def _implicit_hessianstructure(self):
            e = self._hess_entries()
            return np.array([x[0] for x in e], dtype=int), np.array([x[1] for x in e], dtype=int)

    return SynthModel


def make_model(ctx, sh, mesh_dep=False, symbolic_params=True):
    cls = make_model_class(sh, mesh_dep)
    p = {n: ctx.real("p." + n, lo=-2, hi=2) for n in coef_names(sh)} if symbolic_params else \
        {n: 0.25 + 0.5 * i for i, n in enumerate(coef_names(sh))}
    return cls(params=ParameterTree(p)), p


def points(ctx, n):
    """strictly increasing symbolic interval points 0 = p0 < ... < pn = 1"""
    ps = [0.0]
    for i in range(1, n):
        ps.append(ctx.real(f"pt{i}", gt=0, lt=1))
    ps.append(1.0)
    for i in range(n):
        ctx.assume(ps[i] + 0.01 <= ps[i + 1])
    return ctx.array(ps)


def scales(ctx, sh, fixed):
    out = []
    for g, names in (("states", sh.states), ("inputs", sh.inputs), ("states_dot", sh.states), ("con_outputs", sh.con)):
        for n in names:
            out.append(ScaleConfig(g, n, ctx.real(f"s.{g}.{n}", lo=0.1, hi=10)))
    if not fixed:
        out.append(ScaleConfig("global", "mesh_scale", ctx.real("s.mesh", lo=0.1, hi=10)))
    return tuple(out)


def build(ctx, shape="std", use=(), **k):
    """a problem, after the history `use`: "remesh" (evaluated on another mesh first), "pieces"
    (further objectives and constraints added), "rescaled" (other scales first)"""
    ocp, sh, p = _build(ctx, shape, **k)
    if "remesh" in use:
        n = k.get("n", 2)
        final = [v for v in _interval_points(ocp)]
        _evaluate(ocp)
        ocp.set_normalized_mesh(np.linspace(0, 1, n + 1) ** 2)
        if k.get("fixed"):
            ocp.set_mesh_scale(0.37)
        _evaluate(ocp)
        ocp.set_normalized_mesh(ctx.array(final))
        if k.get("fixed"):
            ocp.set_mesh_scale(ctx.real("mesh_scale2", lo=0.1, hi=5))
    if "rescaled" in use:
        from lumos.optimal_control.config import ScaleConfig
        ocp.set_scales((ScaleConfig("states", sh.states[-1], 3.0), ScaleConfig("states_dot", sh.states[0], 0.3)))
        _evaluate(ocp)
        ocp.set_scales(scales(ctx, sh, k.get("fixed", False)))
    if "pieces" in use:
        add_pieces(ctx, ocp)
    return ocp, sh, p


def add_pieces(ctx, ocp):
    """two objectives and two constraints with symbolic coefficients, sparse and dense"""
    from .c06 import Con, Obj
    for nm, kind in (("piece_sparse", "sparse"), ("piece_linear", "linear"), ("piece_dense", "dense")):
        ocp.add_constraints(nm, Con(ctx, nm, ocp.num_dec, kind).make())
    for nm, kind in (("more_sparse", "sparse"), ("more_dense", "dense")):
        ocp.add_objective(nm, Obj(ctx, nm, ocp.num_dec, kind).make())


def _interval_points(ocp):
    m = list(ocp.get_mesh_from_scale(1.0))
    w = ocp.dec_var_operator.num_stages_per_interval - 1
    return m[::w]


def _evaluate(ocp):
    x = 0.3 + 0.1 * np.arange(ocp.num_dec) / ocp.num_dec
    ocp.objective(x), ocp.gradient(x), ocp.constraints(x), ocp.jacobian(x)
    ocp.hessian(x, np.ones(ocp.num_con), 1.0), ocp.jacobianstructure(), ocp.hessianstructure()


def _build(ctx, shape="std", fixed=False, tr="Trapezoidal", n=2, condensed=False, scaled=True, cyclic=False,
          mesh_dep=False, pts=True, non_cyclic=(), **extra):
    sh = SHAPES[shape]
    model, p = make_model(ctx, sh, mesh_dep)
    cls = FixedMeshOCP if fixed else ScaledMeshOCP
    cfg = cls.get_sim_config(
        num_intervals=n, interval_points=points(ctx, n) if pts else None, transcription=tr, backend="custom",
        is_condensed=condensed, is_cyclic=cyclic, non_cyclic_vars=list(non_cyclic), con_output_names=sh.con,
        scales=scales(ctx, sh, fixed) if scaled else (), **extra)
    kw = {}
    if fixed:
        kw["mesh_scale"] = ctx.real("mesh_scale", lo=0.1, hi=5)
    ocp = cls(model, cfg, **kw)
    return ocp, sh, p


def dense(rows, cols, vals, shape):
    """sum duplicates of a triplet matrix into a dense array"""
    rows, cols, vals = np.ravel(rows), np.ravel(cols), np.ravel(vals)
    assert len(rows) == len(cols) == len(vals), "triplet lengths differ"
    a = np.zeros(shape)
    for r, c, v in zip(rows, cols, vals):
        r, c = int(r), int(c)
        assert 0 <= r < shape[0] and 0 <= c < shape[1], "index outside the matrix"
        a[r, c] = a[r, c] + v
    return a


def grid(harness, tier, conds=(False, True)):
    """instances shared by the derivative properties"""
    out = []

    def add(**k):
        name = "-".join(f"{a}={v}" for a, v in sorted(k.items())).replace(" ", "").replace("'", "") or "default"
        out.append(dict(name=name, harness=harness, params=k, cost=k.get("n", 2) * (3 if k.get("shape") == "wide" else 1)))

    for fixed in (False, True):
        for cond in conds:
            for tr in ("Trapezoidal", "ForwardEuler", ("LGR", {"num_stages": 3}), ("LGRIntegral", {"num_stages": 3})):
                add(fixed=fixed, condensed=cond, tr=tr, n=2, shape="std")
            add(fixed=fixed, condensed=cond, tr=("LGR", {"num_stages": 3}), n=2, shape="wide")
            add(fixed=fixed, condensed=cond, tr=("LGR", {"num_stages": 2}), n=1, shape="std")
            add(fixed=fixed, condensed=cond, tr="Trapezoidal", n=3, shape="tiny", cyclic=True)
            add(fixed=fixed, condensed=cond, tr="Trapezoidal", n=2, shape="std", cyclic=True,
                non_cyclic=("states.time",))
        if fixed:
            for cond in conds:
                add(fixed=True, condensed=cond, tr=("LGR", {"num_stages": 3}), n=2, shape="std", mesh_dep=True)
    if harness != "scaling":
        for fixed in (False, True):
            for cond in conds:
                add(fixed=fixed, condensed=cond, tr=("LGR", {"num_stages": 3}), n=2, shape="std", use=("pieces",))
                add(fixed=fixed, condensed=cond, tr="Trapezoidal", n=2, shape="std", use=("remesh",))
                add(fixed=fixed, condensed=cond, tr=("LGR", {"num_stages": 3}), n=1, shape="std", cyclic=True,
                    use=("remesh", "rescaled", "pieces"))
    if tier == "thorough":
        for fixed in (False, True):
            for cond in conds:
                for shape in ("std", "tiny", "wide"):
                    for tr in ("ForwardEuler", ("LGR", {"num_stages": 4}), ("LGRIntegral", {"num_stages": 4}),
                               ("LGRIntegral", {"num_stages": 2}), ("LGR", {"num_stages": 5})):
                        for n in (1, 3):
                            for cyc in (False, True):
                                add(fixed=fixed, condensed=cond, tr=tr, n=n, shape=shape, cyclic=cyc)
                add(fixed=fixed, condensed=cond, tr="Trapezoidal", n=6, shape="std")
    return out


def stages_of(op, x):
    """decision vector -> (dict group -> [stage, var], globals)"""
    return op.unflatten_var(x)


class StubIpopt:
    """Stand-in for cyipopt.Problem: records what it is given; solve() calls back once and returns
    the values set by the harness."""

    def __init__(self, sol, info=None, callbacks=None):
        self.sol, self.info, self.callbacks = sol, info or {"status": 0, "status_msg": b"ok"}, callbacks
        self.made = []
        self.solved = []

    def make(self, n, m, problem_obj=None, lb=None, ub=None, cl=None, cu=None):
        stub = self

        class P:
            def add_option(self, name, value):
                if name == "output_file" and value:
                    # the real solver writes its statistics here (scratch working directory)
                    with open(value, "w") as f:
                        f.write("Total seconds in IPOPT (w/o function evaluations)    =      0.250\n"
                                "Total seconds in NLP function evaluations            =      0.125\n")
            addOption = add_option

            def set_problem_scaling(self, *a, **k):
                stub.scaling = (a, k)

            def solve(self, x0, lagrange=[], zl=[], zu=[]):
                stub.solved.append(x0)
                if stub.callbacks:
                    stub.callbacks(problem_obj, x0, stub.sol)
                return stub.sol, dict(stub.info)
        self.made.append(dict(n=n, m=m, obj=problem_obj, lb=lb, ub=ub, cl=cl, cu=cu))
        return P()

    def __enter__(self):
        import sys

        import cyipopt
        self._undo = []
        real = [v for n in ("Problem", "problem") for v in [getattr(cyipopt, n, None)] if v is not None]
        for name, mod in list(sys.modules.items()):
            if name == "cyipopt" or name.split(".")[0] == "lumos":
                for k, v in list(vars(mod).items()):
                    if any(v is r for r in real):
                        self._undo.append((mod, k, v))
                        setattr(mod, k, self.make)
        return self

    def __exit__(self, *a):
        for mod, k, v in self._undo:
            setattr(mod, k, v)
