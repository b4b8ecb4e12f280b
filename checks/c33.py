"""Problems written as plain functions (direct subclasses of NLPFunction): gradient, Jacobian and Lagrangian
Hessian that the base class derives are the exact derivatives of the objective and constraint functions at every
point, multiplier and objective factor; several problems of one class alive together, asked in any order, each get
their own.  The traced jax programs are read back and evaluated on terms."""
import jax.numpy as jnp
import numpy as np

from symx import jaxpr as J
from lumos.optimal_control.nlp import NLPFunction

BOUNDS = ("problems of 1..4 variables and 1..4 constraints with products, powers, quotients and transcendental functions; "
          "up to 3 problems of one class alive, sequences of 3 requests; points in [0.2, 2], multipliers and objective factor symbolic")


def _objective(xp, k, x):
    n = len(x)
    s = k * x[0] ** 3
    for i in range(1, n):
        s = s + x[i - 1] * x[i] ** 2 * (i + k)
    return s + xp.sin(x[n - 1]) + x[0] * x[n - 1] / (1 + x[0] ** 2)


def _constraints(xp, k, x, m):
    n = len(x)
    return [x[j % n] * x[(j + 1) % n] * (j + 1) + k * x[(j + 2) % n] ** 3 + (xp.exp(x[j % n]) if j % 2 else j) for j in range(m)]


class Plain(NLPFunction):
    def __init__(self, n, m, k):
        super().__init__()
        self.num_dec, self.num_con, self.k = n, m, k

    def _compute_objective(self, x):
        return _objective(jnp, self.k, x)

    def constraints(self, x):
        return jnp.stack(_constraints(jnp, self.k, x, self.num_con))


def _exact(ctx, n, m, k, x, lag, of):
    c = lambda v: np.array(_constraints(np, k, v, m))
    f = lambda v: _objective(np, k, v)
    g = lambda v: np.array([f(v)])
    grad = ctx.gradient(g(x), x, g, x)[0]
    jac = ctx.gradient(c(x), x, c, x)
    L = lambda v: np.array([of * f(v) + sum(l * r for l, r in zip(lag, c(v)))])

    if ctx.symbolic:
        first = ctx.gradient(L(x), x, L, x)[0]
        hess = ctx.gradient(first, x, None, x)
    else:
        h = 1e-4
        hess = np.zeros((n, n))
        for i in range(n):
            for j in range(n):
                e, d = np.eye(n)[i] * h, np.eye(n)[j] * h
                hess[i, j] = (L(x + e + d) - L(x + e - d) - L(x - e + d) + L(x - e - d))[0] / (4 * h * h)
    return f(x), c(x), grad, jac, hess


def _ask(ctx, what, p, n, m, k, x, lag, of, where):
    val, con, grad, jac, hess = _exact(ctx, n, m, k, x, lag, of)
    if what == "gradient":
        got = J.call(ctx, p.gradient, x)
        ctx.check("shape", np.shape(got) == (n,), where)
        ctx.eq(f"gradient {where}", got, grad, 1e-4)
    elif what == "jacobian":
        got = J.call(ctx, p.jacobian, x)
        ctx.check("shape", np.shape(got) == (m, n), where)
        ctx.eq(f"jacobian {where}", got, jac, 1e-4)
    elif what == "values":
        ctx.eq(f"objective {where}", J.call(ctx, p.objective, x), val, 1e-6)
        ctx.eq(f"constraints {where}", J.call(ctx, p.constraints, x), con, 1e-6)
        ctx.eq(f"lagrangian {where}", J.call(ctx, p.lagrangian, x, lag, of),
               of * val + sum(l * r for l, r in zip(lag, con)), 1e-6)
    else:
        rows, cols = (np.asarray(v) for v in p.hessianstructure())
        got = np.asarray(J.call(ctx, p.hessian, x, lag, of))
        ctx.check("shape", got.shape == rows.shape == cols.shape, where)
        ctx.check("triangle", bool(np.all(rows <= cols)), where)
        ctx.check("once", len(set(zip(rows.tolist(), cols.tolist()))) == len(rows), where)
        full = np.zeros((n, n), dtype=object if ctx.symbolic else float)
        for r, c, v in zip(rows, cols, got):
            full[r, c] = full[r, c] + v
        for i in range(n):
            for j in range(i, n):
                ctx.eq(f"hessian[{i},{j}] {where}", full[i, j], hess[i, j], 1e-3)


def one(ctx, n, m):
    p = Plain(n, m, 2.0)
    x, lag, of = ctx.vec("x", n, lo=0.2, hi=2), ctx.vec("l", m, lo=-3, hi=3), ctx.real("of", -2, 2)
    for what in ("values", "gradient", "jacobian", "hessian"):
        _ask(ctx, what, p, n, m, 2.0, x, lag, of, "")


def several(ctx, steps):
    """instances of one class, of the same and of other sizes, asked in turn at points of their own"""
    kinds = [(2, 2, 2.0), (2, 2, 3.0), (3, 1, 2.0)]
    ps = [Plain(*k) for k in kinds]
    for s in range(steps):
        i = ctx.choice(f"p{s}", range(len(ps)))
        what = ctx.choice(f"w{s}", ["values", "gradient", "jacobian", "hessian"])
        n, m, k = kinds[i]
        x, lag, of = ctx.vec(f"x{s}", n, lo=0.2, hi=2), ctx.vec(f"l{s}", m, lo=-3, hi=3), ctx.real(f"of{s}", -2, 2)
        _ask(ctx, what, ps[i], n, m, k, x, lag, of, f"{s}: problem {i}")


def tasks(tier):
    for n in range(1, 5 if tier == "quick" else 7):
        for m in (1, 2, 4):
            yield dict(name=f"one/{n}x{m}", harness="one", params=dict(n=n, m=m), cost=n)
    yield dict(name="several", harness="several", params=dict(steps=2 if tier == "quick" else 3), opts=dict(max_paths=3000), cost=9)
