"""Model input and output names: whatever the declared order of states, inputs, outputs, constrained outputs
and residuals, and whatever the order in which values are supplied or returned, each value is found under
its own name (dictionaries, vectors, index lookups, flat vectors, composed models' prefixed outputs), the
implicit form is the model's output minus the corresponding variable in declared order, and missing names
are rejected."""
import itertools

import numpy as np

from . import model_common as M
from lumos.models.base import (Model, ModelReturn, StateSpaceModel, StateSpaceModelReturn, model_io, state_space_io)
from lumos.models.tree_utils import ParameterTree
from lumos.models.composition import ModelMaker

BOUNDS = ("state space models with 1..3 states, 1..2 inputs, 2..3 outputs, all declared orders, every ordered choice of "
          "constrained outputs and residuals among the outputs; argument and result orders declared/reversed/rotated; "
          "composed models of 5 nodes and 3 levels, with residuals at every level; any part of the names supplied with up to two others; all values symbolic")


def perms(xs):
    return list(itertools.permutations(xs))


def sub_perms(xs):
    return [p for k in range(len(xs) + 1) for p in itertools.permutations(xs, k)]


def order(d, how):
    k = list(d)
    k = {"same": k, "rev": k[::-1], "rot": k[1:] + k[:1]}[how]
    return {n: d[n] for n in k}


def make(states, inputs, outputs, con, res, how):
    @state_space_io(states=states, inputs=inputs, outputs=outputs, con_outputs=con, residuals=res)
    class PermModel(StateSpaceModel):
        def __init__(self, model_config={}, params={}):
            super().__init__(model_config=model_config, params=params)

        def forward(self, states, inputs, mesh=0.0):
            sd, out = law(self._params, states, inputs, mesh)
            return StateSpaceModelReturn(states_dot=self.make_dict("states_dot", **order(sd, how)),
                                         outputs=self.make_outputs_dict(**order({n: out[n] for n in outputs}, how)))

        @classmethod
        def get_default_params(cls):
            return {"k1": 1.0, "k2": 2.0, "k3": 3.0}

        def _implicit_jac(self, flat_vars, mesh, params):
            return np.zeros(1)

        def _implicit_jacobianstructure(self):
            return np.array([0]), np.array([0])

        def _implicit_hess(self, flat_vars, mult, mesh, params):
            return np.zeros(1)

        def _implicit_hessianstructure(self):
            return np.array([0]), np.array([0])
    return PermModel


def law(p, st, inp, mesh):
    s = {n: st[n] for n in st}
    su = sum(c * inp[n] for c, n in zip((1.0, 2.0), sorted(inp)))
    sd = {n: p["k1"] * s[n] * (i + 1) + su * (i - 2) + mesh for i, n in enumerate(sorted(s))}
    tot = sum(s[n] * (j + 1) for j, n in enumerate(sorted(s)))
    out = {n: p["k2"] * tot * (i + 1) - p["k3"] * su * i + mesh * (i + 2) for i, n in enumerate(("o1", "o2", "o3"))}
    return sd, out


def _inputs(ctx, states, inputs):
    st = {n: ctx.real("st." + n, lo=-3, hi=3) for n in sorted(states)}
    inp = {n: ctx.real("in." + n, lo=-3, hi=3) for n in sorted(inputs)}
    return st, inp, ctx.real("mesh", lo=-3, hi=3)


def space(ctx, ns, nu, no, part=(0, 1)):
    states = ctx.choice("states", perms(("a", "b", "c")[:ns])[part[0]::part[1]])
    inputs = ctx.choice("inputs", perms(("u", "w")[:nu]))
    outs = ctx.choice("outputs", perms(("o1", "o2", "o3")[:no]))
    con = ctx.choice("con", sub_perms(sorted(outs)))
    res = ctx.choice("res", sub_perms(sorted(outs)[:2]))
    how = ctx.choice("how", ["same", "rev", "rot"])
    late = ctx.choice("late", [False, True])
    params = {k: ctx.real(k, lo=-3, hi=3) for k in ("k1", "k2", "k3")}
    m = make(states, inputs, outs, () if late else con, res, how)(params=ParameterTree(dict(params)))
    if late:
        m.set_con_outputs(con)
    st, inp, mesh = _inputs(ctx, states, inputs)
    sd, out = law(params, st, inp, mesh)
    # by name
    r = m.forward(order(st, how), order(inp, how), mesh)
    for n in states:
        ctx.eq("dot:" + n, r.states_dot[n], sd[n])
    for n in outs:
        ctx.eq("out:" + n, r.outputs[n], out[n])
    # vectors
    vs, vi = m.make_vector("states", **order(st, how)), m.make_vector("inputs", **order(inp, how))
    for n in states:
        ctx.eq("state-vector:" + n, vs[states.index(n)], st[n])
        ctx.eq("get_state:" + n, m.get_state(vs, n), st[n])
        ctx.check("index:" + n, m.get_var_index("states", n) == states.index(n))
    for n in inputs:
        ctx.eq("input-vector:" + n, vi[inputs.index(n)], inp[n])
        ctx.eq("get_input:" + n, m.get_input(vi, n), inp[n])
    a = m.forward_with_arrays(vs, vi, mesh)
    ctx.eq("array:dot", a.states_dot, ctx.array([sd[n] for n in states]))
    ctx.eq("array:outputs", a.outputs, ctx.array([out[n] for n in outs]))
    ctx.eq("array:con", a.con_outputs, ctx.array([out[n] for n in con]))
    ctx.eq("array:res", a.residuals, ctx.array([out[n] for n in res]))
    for n in outs:
        ctx.eq("get_output:" + n, m.get_output(a.outputs, n), out[n])
    # implicit form
    yd = ctx.vec("sd", ns, lo=-3, hi=3)
    yc = ctx.vec("co", len(con), lo=-3, hi=3)
    exp = ctx.array([sd[n] - yd[i] for i, n in enumerate(states)] + [out[n] - yc[i] for i, n in enumerate(con)] +
                    [out[n] for n in res])
    ctx.eq("implicit", m.implicit(states=vs, inputs=vi, states_dot=yd, con_outputs=yc, mesh=mesh), exp)
    ctx.check("sizes", (m.num_states, m.num_inputs, m.num_outputs, m.num_con_outputs, m.num_residuals,
                        m.num_implicit_res, m.num_implicit_var) ==
              (ns, nu, no, len(con), len(res), ns + len(con) + len(res), 2 * ns + nu + len(con)))
    # the flat vector, through the constraint function and the lookups
    z = np.concatenate([vs, vi, yd, yc])
    # (flat positions are those of the lookups: a vector filled through them means the same values)
    z2 = ctx.array([0.0] * len(z))
    for g, names, vals in (("states", states, vs), ("inputs", inputs, vi), ("states_dot", states, yd), ("con_outputs", con, yc)):
        idx = m.get_group_indices_in_flat(g)
        ctx.check("flat-group:" + g, len(idx) == len(names))
        for k, n in enumerate(names):
            j = m.get_var_index_in_flat(g, n)
            ctx.check("flat-index:" + g, idx[k] == j)
            z2[j] = vals[k]
    ctx.eq("flat", z2, z)
    tree = ParameterTree(dict(params))
    con_fn = m.make_model_algebra_cons("custom")["constraints"]
    ctx.eq("flat-implicit", con_fn(z2, mesh, tree), exp)
    other = {k: ctx.real("other." + k, lo=-3, hi=3) for k in params}
    sd2, out2 = law(other, st, inp, mesh)
    b = m.apply_and_forward(st, inp, mesh, ParameterTree(dict(other)))
    for n in states:
        ctx.eq("apply:" + n, b.states_dot[n], sd2[n])
    b = m.apply_and_forward_with_arrays(vs, vi, mesh, ParameterTree(dict(other)))
    ctx.eq("apply-arrays", b.outputs, ctx.array([out2[n] for n in outs]))


def composed(ctx, con, kind):
    """outputs and residuals of the parts under their prefixed names, constrained or not"""
    M.register()
    kinds = dict(M.DEFAULT_KINDS)
    cfg = ModelMaker.make_config("Top")
    for n in ("mid.b", "tail"):
        if kind == n:
            cfg.replace_subtree(n, ModelMaker.make_config("LeafB"))
            kinds[n] = "LeafB"
    p = {k: ctx.real("p." + k, lo=-2, hi=2) for k in M.default_params(kinds)}
    m = M.Top(model_config=cfg)
    t = m.get_recursive_params()
    for k in p:
        t.set_param(k, p[k])
    m.set_recursive_params(t)
    m.set_con_outputs(con)
    st, inp, mesh = _inputs(ctx, "zw", "uv")
    sd, out = M.top(kinds, p, st, inp, mesh)
    names = m.get_group_names("outputs")
    ctx.check("names", set(names) == set(out) and len(set(names)) == len(names), f"{names}")
    vs, vi = m.make_vector("states", w=st["w"], z=st["z"]), m.make_vector("inputs", v=inp["v"], u=inp["u"])
    a = m.forward_with_arrays(vs, vi, mesh)
    for n in out:
        ctx.eq("out:" + n, a.outputs[m.get_var_index("outputs", n)], out[n])
    ctx.eq("con", a.con_outputs, ctx.array([out[n] for n in con]))
    ctx.eq("res", a.residuals, ctx.array([out["q"]]))
    yd, yc = ctx.vec("sd", 2, lo=-3, hi=3), ctx.vec("co", len(con), lo=-3, hi=3)
    ctx.eq("implicit", m.implicit(vs, vi, yd, yc, mesh),
           ctx.array([sd["z"] - yd[0], sd["w"] - yd[1]] + [out[n] - yc[i] for i, n in enumerate(con)] + [out["q"]]))


@model_io(inputs=("x",), outputs=("o", "r"), residuals=("r",))
class DeepLeaf(Model):
    def __init__(self, model_config={}, params={}):
        super().__init__(model_config=model_config, params=params)

    def forward(self, inputs):
        return ModelReturn(outputs=dict(r=self._params["g"] - inputs["x"], o=self._params["g"] * inputs["x"]))

    @classmethod
    def get_default_params(cls):
        return {"g": 2.0}


@state_space_io(states=("s",), inputs=("x",), outputs=("k", "r2"), residuals=("r2",))
class DeepMid(StateSpaceModel):
    def __init__(self, model_config={}, params={}):
        super().__init__(model_config=model_config, params=params)

    def forward(self, states, inputs, mesh=0.0):
        b = self.call_submodel("lb", inputs=dict(x=inputs["x"] * 2))
        a = self.call_submodel("la", inputs=dict(x=states["s"]))
        return StateSpaceModelReturn(
            states_dot=dict(s=inputs["x"]),
            outputs=self.make_outputs_dict(r2=a.outputs["o"] - b.outputs["o"], k=a.outputs["r"]))

    @classmethod
    def get_default_submodel_config(cls):
        return {"la": "DeepLeaf", "lb": "DeepLeaf"}

    @classmethod
    def get_default_params(cls):
        return {}


@state_space_io(states=("s", "t"), inputs=("u",), outputs=("top",), residuals=("top",))
class DeepTop(StateSpaceModel):
    def __init__(self, model_config={}, params={}):
        super().__init__(model_config=model_config, params=params)

    def forward(self, states, inputs, mesh=0.0):
        e = self.call_submodel("end", inputs=dict(x=states["t"]))
        m = self.call_submodel("mid", states=dict(s=states["s"]), inputs=dict(x=inputs["u"]), mesh=mesh)
        return StateSpaceModelReturn(
            states_dot=self.make_dict("states_dot", s=m.states_dot["s"], t=e.outputs["o"]),
            outputs=self.make_outputs_dict(top=m.outputs["k"] - inputs["u"]))

    @classmethod
    def get_default_submodel_config(cls):
        return {"mid": "DeepMid", "end": "DeepLeaf"}

    @classmethod
    def get_default_params(cls):
        return {}


def deep(ctx, late):
    """residuals and outputs of parts of parts reach the top under their full names, in a consistent order"""
    for c in (DeepLeaf, DeepMid, DeepTop):
        try:
            ModelMaker.add_to_registry(c)
        except ValueError:  # (already there)
            pass
    m = ModelMaker.make_model_from_name("DeepTop")
    p = {n: ctx.real("p." + n, lo=-3, hi=3) for n in ("mid.la", "mid.lb", "end")}
    t = m.get_recursive_params()
    for n in p:
        t.set_param(n + ".g", p[n])
    m.set_recursive_params(t)
    s, q, u = ctx.real("s", lo=-3, hi=3), ctx.real("t", lo=-3, hi=3), ctx.real("u", lo=-3, hi=3)
    lf = lambda n, x: {n + ".o": p[n] * x, n + ".r": p[n] - x}  # noqa: E731
    exp = {**lf("mid.la", s), **lf("mid.lb", 2 * u), **lf("end", q)}
    exp["mid.k"], exp["mid.r2"] = exp["mid.la.r"], exp["mid.la.o"] - exp["mid.lb.o"]
    exp["top"] = exp["mid.k"] - u
    res = {"top", "mid.r2", "mid.la.r", "mid.lb.r", "end.r"}
    con = ("end.o", "mid.lb.o") if late else ()
    if late:
        m.set_con_outputs(con)
    ctx.check("names", sorted(m.get_group_names("outputs")) == sorted(exp), f"{m.get_group_names('outputs')}")
    ctx.check("residual-names", sorted(m.get_group_names("residuals")) == sorted(res), f"{m.get_group_names('residuals')}")
    ctx.check("sizes", m.num_residuals == 5 and m.num_implicit_res == 2 + len(con) + 5)
    vs, vi = m.make_vector("states", t=q, s=s), m.make_vector("inputs", u=u)
    a = m.forward_with_arrays(vs, vi, 0.0)
    ctx.eq("outputs", a.outputs, ctx.array([exp[n] for n in m.get_group_names("outputs")]))
    ctx.eq("residuals", a.residuals, ctx.array([exp[n] for n in m.get_group_names("residuals")]))
    yd, yc = ctx.vec("sd", 2, lo=-3, hi=3), ctx.vec("co", len(con), lo=-3, hi=3)
    ctx.eq("implicit", m.implicit(vs, vi, yd, yc, 0.0), ctx.array(
        [u - yd[0], exp["end.o"] - yd[1]] + [exp[n] - yc[i] for i, n in enumerate(con)] +
        [exp[n] for n in m.get_group_names("residuals")]))


def static(ctx, ni, no):
    """stateless models: outputs and residuals"""
    ins = ctx.choice("ins", perms(("x", "y", "z")[:ni]))
    outs = ctx.choice("outs", perms(("o", "p", "q")[:no]))
    res = ctx.choice("res", sub_perms(("r1", "r2")))
    how = ctx.choice("how", ["same", "rev", "rot"])
    x = {n: ctx.real(n, lo=-3, hi=3) for n in sorted(ins)}
    g = ctx.real("g", lo=-3, hi=3)

    def vals(i):
        o = {n: g * sum(i[k] * (j + 1) for j, k in enumerate(sorted(i))) - q for q, n in enumerate(("o", "p", "q"))}
        return {n: o[n] for n in sorted(outs)}, {n: i["x"] * (2 + len(n)) + int(n[1]) for n in sorted(res)}

    @model_io(inputs=ins, outputs=outs, residuals=res)
    class Static(Model):
        def __init__(self, model_config={}, params={}):
            super().__init__(model_config=model_config, params=params)

        def forward(self, inputs):
            o, r = vals(inputs)
            return ModelReturn(outputs=order(o, how), residuals=order(r, how))

        @classmethod
        def get_default_params(cls):
            return {}
    m = Static()
    o, r = vals(x)
    v = m.make_vector("inputs", **order(x, how))
    a = m.forward_with_arrays(v)
    ctx.eq("outputs", a.outputs, ctx.array([o[n] for n in outs]))
    ctx.eq("residuals", a.residuals, ctx.array([r[n] for n in res]))
    for n in ins:
        ctx.eq("get_input:" + n, m.get_input(v, n), x[n])
    ctx.check("const", m.make_const_dict("inputs", g).keys() == x.keys())
    ctx.eq("const-vector", m.make_const_vector("outputs", 2.5), [2.5] * no)


def rejects(ctx):
    M.register()
    m = ModelMaker.make_model_from_name("Top")
    v = ctx.real("v")
    drop = ctx.choice("drop", ["z", "w"])
    st = {"z": v, "w": v + 1}
    st.pop(drop)
    ctx.raises("missing-state", KeyError, lambda: m.make_vector("states", **st))
    ctx.raises("missing-dict", KeyError, lambda: m.make_dict("states", **st))
    ctx.raises("renamed", KeyError, lambda: m.make_vector("states", extra=v, **st))
    ctx.raises("unknown-name", KeyError, lambda: m.get_var_index("states", "nope"))
    ctx.raises("other-group", KeyError, lambda: m.get_var_index("inputs", "z"))
    ctx.raises("unknown-name-flat", KeyError, lambda: m.get_var_index_in_flat("states", "u"))
    full = {"z": v, "w": v + 1}
    ctx.eq("extra-ignored", m.make_vector("states", extra=v + 5, **full), ctx.array([v, v + 1]))
    ctx.raises("con-not-an-output", ValueError, lambda: make(("a",), ("u",), ("o1",), ("o2",), (), "same")())
    ctx.raises("res-not-an-output", ValueError, lambda: make(("a",), ("u",), ("o1",), (), ("o2",), "same")())
    ctx.raises("state-space-on-model", RuntimeError, lambda: state_space_io(states=("a",))(M.LeafA))
    ctx.raises("unknown-backend", ValueError, lambda: m.make_model_algebra_cons("nope"))


@model_io(inputs=("x", "y"), outputs=("o",), residuals=())
class Named(Model):
    """a part that gives its inputs back"""
    def __init__(self, model_config={}, params={}):
        super().__init__(model_config=model_config, params=params)

    def forward(self, inputs):
        return ModelReturn(outputs=self.make_outputs_dict(o=inputs["x"] + 3 * inputs["y"]))

    @classmethod
    def get_default_params(cls):
        return {}


@state_space_io(states=("a", "b"), inputs=("u",), outputs=("o", "p"), con_outputs=("p",), residuals=("o",))
class NamedSpace(StateSpaceModel):
    def __init__(self, model_config={}, params={}):
        super().__init__(model_config=model_config, params=params)

    def forward(self, states, inputs, mesh=0.0):
        return StateSpaceModelReturn(states_dot=self.make_dict("states_dot", **states),
                                     outputs=self.make_dict("outputs", o=inputs["u"], p=states["a"]))

    @classmethod
    def get_default_params(cls):
        return {}


@state_space_io(states=("a",), inputs=("u",), outputs=("w",))
class NamedParent(StateSpaceModel):
    supplied = None

    def __init__(self, model_config={}, params={}):
        super().__init__(model_config=model_config, params=params)

    def forward(self, states, inputs, mesh=0.0):
        r = self.call_submodel("part", **self.supplied) if self.which == "part" else self.call_submodel("space", mesh=mesh, **self.supplied)
        self.call_submodel("space" if self.which == "part" else "part",
                           **(dict(states=dict(a=0.0, b=0.0), inputs=dict(u=0.0), mesh=mesh) if self.which == "part" else dict(inputs=dict(x=0.0, y=0.0))))
        return StateSpaceModelReturn(states_dot=self.make_dict("states_dot", a=states["a"]), outputs=self.make_outputs_dict(w=r.outputs["o"]))

    @classmethod
    def get_default_submodel_config(cls):
        return {"part": "Named", "space": "NamedSpace"}

    @classmethod
    def get_default_params(cls):
        return {}


def _supplied(ctx, tag, names):
    """any part of the names, with any number of others instead or on top"""
    got = {}
    for n in names:
        if ctx.choice(f"{tag}.{n}", [True, False]):
            got[n] = ctx.real(f"{tag}.v.{n}", lo=-3, hi=3)
    for i in range(ctx.choice(tag + ".others", [0, 1, 2])):
        got[("other", "more")[i]] = ctx.real(f"{tag}.other{i}", lo=-3, hi=3)
    if ctx.choice(tag + ".others-first", [False, True]):
        got = {n: got[n] for n in reversed(got)}
    return got, set(names) <= set(got)


def supplied(ctx, group, how):
    """values by name are accepted exactly when every name has one, and then are those of the names"""
    m = NamedSpace()
    names = m.get_group_names(group)
    got, ok = _supplied(ctx, group, names)
    f = {"vector": lambda: m.make_vector(group, **got), "dict": lambda: m.make_dict(group, **got), "outputs": lambda: m.make_outputs_dict(**got)}[how]
    if not ok:
        ctx.raises("missing:" + how, KeyError, f)
        return
    v = f()
    if how == "vector":
        ctx.eq("vector", v, ctx.array([got[n] for n in names]))
    else:
        for n in names:
            ctx.eq("dict:" + n, v[n], got[n])


def part(ctx, which):
    """the same for the arguments of a part"""
    for c in (Named, NamedSpace):
        try:
            ModelMaker.add_to_registry(c)
        except ValueError:  # (already there)
            pass
    m = NamedParent()
    m.which = which
    if which == "part":
        got, ok = _supplied(ctx, "inputs", ("x", "y"))
        m.supplied = dict(inputs=got)
        want = lambda: got["x"] + 3 * got["y"]  # noqa: E731
    else:
        st, ok1 = _supplied(ctx, "states", ("a", "b"))
        got, ok2 = _supplied(ctx, "inputs", ("u",))
        m.supplied, ok = dict(states=st, inputs=got), ok1 and ok2
        want = lambda: got["u"]  # noqa: E731
    f = lambda: m.forward({"a": 1.0}, {"u": 2.0}, 0.0)  # noqa: E731
    if not ok:
        ctx.raises("missing-argument", KeyError, f)
    else:
        ctx.eq("argument", f().outputs["w"], want())


def tasks(tier):
    th = tier == "thorough"
    out = []
    for ns in (1, 2, 3):
        for nu in (1, 2):
            for no in (2, 3):
                if not th and no == 3 and ns + nu > 3:
                    continue
                n = 6 if ns == 3 else ns
                for j in range(n):
                    out.append(dict(name=f"space-{ns}-{nu}-{no}-{j}", harness="space",
                                    params=dict(ns=ns, nu=nu, no=no, part=(j, n)), cost=40, opts=dict(max_paths=20000)))
    for i, con in enumerate(((), ("t",), ("mid.s", "tail.o"), ("mid.b.p", "q", "t"), ("tail.p", "mid.a.o"))):
        for kind in ("", "mid.b", "tail"):
            out.append(dict(name=f"composed-{i}-{kind or 'default'}", harness="composed", params=dict(con=con, kind=kind), cost=2))
    for late in (False, True):
        out.append(dict(name=f"deep-{late}", harness="deep", params=dict(late=late), cost=2))
    for ni in (1, 2, 3):
        for no in (1, 2, 3):
            out.append(dict(name=f"static-{ni}-{no}", harness="static", params=dict(ni=ni, no=no), cost=8))
    for g in ("states", "inputs", "states_dot", "outputs", "con_outputs", "residuals"):
        for how in ("vector", "dict") + (("outputs",) if g == "outputs" else ()):
            out.append(dict(name=f"supplied-{g}-{how}", harness="supplied", params=dict(group=g, how=how)))
    for which in ("part", "space"):
        out.append(dict(name="part-" + which, harness="part", params=dict(which=which)))
    out.append(dict(name="rejects", harness="rejects", params={}, cost=1))
    return out
