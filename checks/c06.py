"""Histories of adding and removing objectives and constraints, of rescaling and of evaluating: after
each history the problem is exactly the one made of the surviving pieces, in the order they were
added (values, Jacobian, Hessian, structures, number of constraints, splitting by name); adding a
name twice or a piece of the wrong size is rejected and changes nothing."""
import numpy as np

from . import ocp_common as O
from lumos.optimal_control.config import ScaleConfig
from lumos.optimal_control.nlp import BaseConstraints, BaseObjective, CompositeProblem, LinearConstraints

BOUNDS = ("composite problems of 3 variables and optimal control problems (scaled/fixed mesh, lifted/condensed); "
          "histories of up to 3 (quick) / 4 (thorough) steps, each step a symbolic choice among add/remove of 3 "
          "constraint and 3 objective pieces (sparse, dense and linear; Hessians given as triangle or as full matrix), "
          "rescaling, evaluation, and rejected requests; point, multipliers, coefficients and scales symbolic")


class Con:
    """a constraint piece and its definition"""

    def __init__(self, ctx, name, n, kind):
        self.name, self.kind, self.n = name, kind, n
        self.a, self.b = ctx.real(name + ".a", lo=-2, hi=2), ctx.real(name + ".b", lo=-2, hi=2)
        self.m = {"sparse": 2, "dense": 1, "linear": 2}[kind]

    def g(self, z):
        a, b = self.a, self.b
        if self.kind == "sparse":
            return np.array([a * z[0] * z[1] + z[2], b * z[1] * z[1] - z[0]])
        if self.kind == "dense":
            return np.array([a * z[0] * z[2] + b * z[1] + z[2] * z[2]])
        return np.array([a * z[0] - z[2], b * z[1]])

    def J(self, z):
        a, b = self.a, self.b
        j = np.zeros((self.m, self.n))
        if self.kind == "sparse":
            j[0, 0], j[0, 1], j[0, 2] = a * z[1], a * z[0], 1.0
            j[1, 1], j[1, 0] = 2 * b * z[1], -1.0
        elif self.kind == "dense":
            j[0, 0], j[0, 1], j[0, 2] = a * z[2], b, a * z[0] + 2 * z[2]
        else:
            j[0, 0], j[0, 2], j[1, 1] = a, -1.0, b
        return j

    def H(self, z, lam):
        h = np.zeros((self.n, self.n))
        if self.kind == "sparse":
            h[0, 1] = h[1, 0] = self.a * lam[0]
            h[1, 1] = 2 * self.b * lam[1]
        elif self.kind == "dense":
            h[0, 2] = h[2, 0] = self.a * lam[0]
            h[2, 2] = 2.0 * lam[0]
        return h

    JS = {"sparse": ([0, 0, 0, 1, 1], [0, 1, 2, 1, 0]), "linear": ([0, 0, 1], [0, 2, 1])}
    HS = {"sparse": ([1, 0, 1], [0, 1, 1])}  # both triangles

    def make(self):
        k = self.kind
        if k == "linear":
            r, c = map(np.array, self.JS[k])
            return LinearConstraints(self.n, self.m, self.g, lambda z: self.J(z)[r, c], (r, c))
        if k == "dense":
            return BaseConstraints(self.n, self.m, self.g, lambda z: np.ravel(self.J(z)),
                                   lambda z, lam: np.ravel(self.H(z, lam)))
        jr, jc = map(np.array, self.JS[k])
        hr, hc = map(np.array, self.HS[k])
        return BaseConstraints(self.n, self.m, self.g, lambda z: self.J(z)[jr, jc], lambda z, lam: self.H(z, lam)[hr, hc],
                               jacobian_structure=(jr, jc), hessian_structure=(hr, hc))


class Obj:
    def __init__(self, ctx, name, n, kind):
        self.name, self.kind, self.n = name, kind, n
        self.a, self.b = ctx.real(name + ".a", lo=-2, hi=2), ctx.real(name + ".b", lo=-2, hi=2)

    def f(self, z):
        if self.kind == "linear":
            return self.a * z[1] + self.b * z[2]
        return self.a * z[0] * z[2] + self.b * z[1] * z[1] + z[2]

    def G(self, z):
        g = np.zeros(self.n)
        if self.kind == "linear":
            g[1], g[2] = self.a, self.b
        else:
            g[0], g[1], g[2] = self.a * z[2], 2 * self.b * z[1], self.a * z[0] + 1
        return g

    def H(self, z):
        h = np.zeros((self.n, self.n))
        if self.kind != "linear":
            h[0, 2] = h[2, 0] = self.a
            h[1, 1] = 2 * self.b
        return h

    def make(self):
        if self.kind == "linear":
            e = np.array([], dtype=int)
            return BaseObjective(self.n, self.f, self.G, lambda z: np.array([]), (e, e))
        if self.kind == "dense":
            return BaseObjective(self.n, self.f, self.G, lambda z: np.ravel(self.H(z)))
        r, c = np.array([2, 1, 0]), np.array([0, 1, 2])
        return BaseObjective(self.n, self.f, self.G, lambda z: self.H(z)[r, c], (r, c))


def _compare(ctx, tag, p, cons, objs, s, x, of, base=None, rs=None):
    """p against the definition: base = (constraint dict of the untouched problem, evaluators)"""
    n = p.num_dec
    z = x * s
    base = base or {}
    cons_v, jac, names, sizes = [], [], [], []
    for name, c in cons:
        names.append(name)
        if c is None:
            b = base[name]
            cons_v.append(b["g"])
            jac.append(b["J"])
            sizes.append(len(b["g"]))
        else:
            cons_v.append(c.g(z))
            jac.append(c.J(z) * s.reshape(1, -1))
            sizes.append(c.m)
    m = sum(sizes)
    ctx.check(tag + ":num-con", p.num_con == m and isinstance(p.num_con, int))
    lam = ctx.vec("lam", m, lo=-3, hi=3) if m else ctx.array([])
    H = np.zeros((n, n))
    k = 0
    for (name, c), sz in zip(cons, sizes):
        l = lam[k:k + sz]
        H = H + (base[name]["H"](l) if c is None else c.H(z, l) * s.reshape(-1, 1) * s.reshape(1, -1))
        k += sz
    for name, o in objs:
        H = H + of * (base[name]["oH"] if o is None else o.H(z) * s.reshape(-1, 1) * s.reshape(1, -1))
    if objs:
        ctx.eq(tag + ":objective", p.objective(x), sum((base[nm]["f"] if o is None else o.f(z)) for nm, o in objs))
        ctx.eq(tag + ":gradient", p.gradient(x), sum((base[nm]["G"] if o is None else o.G(z) * s) for nm, o in objs))
    if cons:
        ctx.eq(tag + ":constraints", p.constraints(x), np.concatenate(cons_v))
        ctx.eq(tag + ":jacobian", O.dense(*p.jacobianstructure(), p.jacobian(x), (m, n)), np.vstack(jac))
        sp = p.split_constraints(lam)
        ctx.check(tag + ":split-names", list(sp) == names, f"{list(sp)} {names}")
        k = 0
        for nm, sz in zip(names, sizes):
            ctx.eq(tag + ":split", sp[nm], lam[k:k + sz])
            k += sz
    if cons and objs:
        hv = p.hessian(x, lam, of)  # before the structure is asked for
        r, c = p.hessianstructure()
        ctx.check(tag + ":hess-len", len(hv) == len(r) == len(c))
        ctx.check(tag + ":upper", all(int(a) <= int(b) for a, b in zip(r, c)))
        ctx.eq(tag + ":hessian", O.dense(r, c, hv, (n, n)), np.triu(np.ones((n, n))) * H)
        ctx.eq(tag + ":hessian-again", p.hessian(x, lam, of), hv)


def composite(ctx, steps=3, start=(), part=(0, 1)):
    n = 3
    C = {k: Con(ctx, k, n, k) for k in ("sparse", "dense", "linear")}
    Q = {k: Obj(ctx, k, n, k) for k in ("osparse", "odense", "olinear")}
    for k, o in Q.items():
        o.kind = k[1:]
    p = CompositeProblem(n)
    cons, objs = [], []
    x = ctx.vec("x", n, lo=-2, hi=2)
    of = ctx.real("of", lo=-2, hi=2)
    s = ctx.array([1.0] * n)
    for arg in start:  # a problem in use: pieces added and evaluated
        if arg in C:
            p.add_constraints(arg, C[arg].make())
            cons.append((arg, C[arg]))
        else:
            p.add_objective(arg, Q[arg].make())
            objs.append((arg, Q[arg]))
    if start:
        _compare(ctx, "start", p, cons, objs, s, x, of)
    for k in range(steps):
        opts = ["eval", "bad-size"]
        opts += ["add." + c for c in C if c not in dict(cons)] + ["del." + c for c in dict(cons)]
        opts += ["dup"] if cons or objs else []
        opts += ["oadd." + o for o in Q if o not in dict(objs)] + ["odel." + o for o in dict(objs)]
        op, _, arg = ctx.choice(f"op{k}", opts[part[0]::part[1]] if k == 0 else opts).partition(".")
        if op == "add":
            p.add_constraints(arg, C[arg].make())
            cons.append((arg, C[arg]))
        elif op == "del":
            p.delete_constraints(arg)
            cons = [c for c in cons if c[0] != arg]
        elif op == "oadd":
            p.add_objective(arg, Q[arg].make())
            objs.append((arg, Q[arg]))
        elif op == "odel":
            p.delete_objective(arg)
            objs = [o for o in objs if o[0] != arg]
        elif op == "dup":
            if cons:
                ctx.raises("duplicate-constraint", ValueError, lambda: p.add_constraints(cons[0][0], C["dense"].make()))
            if objs:
                ctx.raises("duplicate-objective", NameError, lambda: p.add_objective(objs[0][0], Q["odense"].make()))
        elif op == "bad-size":
            bad = Con(ctx, "bad", n + 1, "dense")
            ctx.raises("wrong-size", ValueError, lambda: p.add_constraints("bad", bad.make()))
        elif op == "eval":
            _compare(ctx, "mid", p, cons, objs, s, x, of)
    _compare(ctx, "end", p, cons, objs, s, x, of)


def ocp(ctx, steps=2, cyclic=False, **k):
    sh = O.SHAPES["tiny"]
    mk = lambda scaled: O.build(ctx, shape="tiny", n=1, scaled=scaled, cyclic=cyclic, **k)[0]  # noqa: E731
    p = mk(False)
    n = p.num_dec
    C = {c: Con(ctx, c, n, c) for c in ("sparse", "linear")}
    Q = {"odense": Obj(ctx, "odense", n, "dense")}
    names0 = list(p.split_constraints(np.arange(p.num_con)))
    cons, objs, scale = [(c, None) for c in names0], [("time", None)], 0
    x = ctx.vec("x", n, lo=-2, hi=2)
    of = ctx.real("of", lo=-2, hi=2)
    op_ = p.dec_var_operator

    def scales_of(i):
        if i == 0:
            return ()
        return tuple(ScaleConfig(g, v, ctx.real(f"s{i}.{g}.{v}", lo=0.1, hi=10))
                     for g, v in (("states", "time"), ("inputs", "u"))[:3 - i])

    def svec(i):
        s = [1.0] * n
        for sc in scales_of(i):
            for j in np.atleast_1d(np.asarray(op_.get_var_index_in_dec(sc.group, sc.name))):
                s[int(j)] = sc.value
        return ctx.array(s)

    for j in range(steps):
        opts = ["eval", "scale.1", "scale.2", "scale.0"]
        opts += ["add." + c for c in C if c not in dict(cons)] + ["del." + c for c in dict(cons) if c in C or c == "cyclic"]
        opts += ["oadd." + o for o in Q if o not in dict(objs)]
        opts += ["odel." + o for o in dict(objs)] if len(objs) > 1 else []
        what, _, arg = ctx.choice(f"op{j}", opts).partition(".")
        if what == "eval":
            p.hessian(x, ctx.array([1.0] * p.num_con), of)
            p.jacobian(x)
        elif what == "scale":
            scale = int(arg)
            p.set_scales(scales_of(scale))
        elif what == "add":
            p.add_constraints(arg, C[arg].make())
            cons.append((arg, C[arg]))
        elif what == "del":
            p.delete_constraints(arg)
            cons = [c for c in cons if c[0] != arg]
        elif what == "oadd":
            p.add_objective(arg, Q[arg].make())
            objs.append((arg, Q[arg]))
        elif what == "odel":
            p.delete_objective(arg)
            objs = [o for o in objs if o[0] != arg]
    # reference for the untouched pieces: a fresh problem with the last scales
    ref = mk(False)
    if scale:
        ref.set_scales(scales_of(scale))
    m0 = ref.num_con
    J0 = O.dense(*ref.jacobianstructure(), ref.jacobian(x), (m0, n))
    base = {"time": dict(f=ref.objective(x), G=ref.gradient(x), oH=np.zeros((n, n)))}
    g0 = ref.split_constraints(ref.constraints(x))
    rows = ref.split_constraints(np.arange(m0))
    for c in names0:
        def H(l, c=c):
            lam = np.zeros(m0)
            for i, r in enumerate(rows[c]):
                lam[int(r)] = l[i]
            return O.dense(*ref.hessianstructure(), ref.hessian(x, lam, 0.0), (n, n))
        base[c] = dict(g=g0[c], J=J0[[int(r) for r in rows[c]], :], H=H)
    _compare(ctx, "end", p, cons, objs, svec(scale), x, of, base)
    p.set_cons()
    ctx.eq("equality-bounds", np.concatenate([p.cl, p.cu]), np.zeros(2 * p.num_con))


def tasks(tier):
    st = 3 if tier == "quick" else 4
    out = [dict(name=f"composite-{st}", harness="composite", params=dict(steps=st), cost=100,
                opts=dict(max_paths=20000))]
    for i, start in enumerate((("sparse", "osparse", "dense"), ("dense", "linear", "odense"))):
        for j in range(2):
            out.append(dict(name=f"composite-used-{i}-{j}", harness="composite",
                            params=dict(steps=st - 1, start=start, part=(j, 2)), cost=60,
                            opts=dict(max_paths=20000)))
    for fixed in (False, True):
        for cond in (False, True):
            out.append(dict(name=f"ocp-{fixed}-{cond}", harness="ocp",
                            params=dict(steps=st - 1, fixed=fixed, condensed=cond, cyclic=cond != fixed), cost=50))
    return out
