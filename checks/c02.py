"""Hessian: the triplets returned for the whole problem lie in the upper triangle, and summed
over duplicates they equal the upper triangle of the exact second derivative of
obj_factor*objective + multipliers . constraints, at every decision vector, multiplier vector and
objective factor."""
import numpy as np

from . import ocp_common as O
from .c01 import BOUNDS  # noqa: F401


def hess(ctx, **k):
    ocp, sh, _ = O.build(ctx, **k)
    x = ctx.vec("x", ocp.num_dec, lo=-2, hi=2)
    lam = ctx.vec("lam", ocp.num_con, lo=-3, hi=3)
    of = ctx.real("obj_factor", lo=-2, hi=2)
    rows, cols = ocp.hessianstructure()
    ctx.check("integer-structure", np.asarray(rows).dtype.kind == "i" and np.asarray(cols).dtype.kind == "i")
    ctx.check("upper-triangle", bool(np.all(rows <= cols)))
    H = O.dense(rows, cols, ocp.hessian(x, lam, of), (ocp.num_dec, ocp.num_dec))

    def dlag(z):
        # exact first derivative comes from C01's subject; differentiate the functions themselves
        if ctx.symbolic:
            L = of * ocp.objective(z) + np.dot(lam, ocp.constraints(z))
            return ctx.gradient([L], z)[0]
        J = O.dense(*ocp.jacobianstructure(), ocp.jacobian(z), (ocp.num_con, ocp.num_dec))
        return of * ocp.gradient(z) + lam @ J
    H2 = ctx.gradient(dlag(x), x, f=dlag, x0=x)
    iu = np.triu_indices(ocp.num_dec)
    ctx.eq("hessian", H[iu], H2[iu])


def tasks(tier):
    return O.grid("hess", tier)
