"""Jacobian: the triplets returned for the whole problem, summed over duplicates, equal the
exact derivative of the constraint vector at every decision vector (symbolic: decision vector,
model coefficients, interval points, variable scales, mesh scale)."""
from . import ocp_common as O

BOUNDS = ("problem classes scaled/fixed mesh x lifted/condensed x ForwardEuler/Trapezoidal/LGR(2..4)/LGRIntegral(2..4), "
          "1..3 intervals, 1..3 states, 1..2 inputs, 0..2 constraint outputs, 0..1 residuals, models quadratic in "
          "(states, inputs) with arbitrary coefficients (every smooth model agrees with one to second order at a "
          "point); mesh-dependent models only on the fixed mesh (the code documents that the derivative with respect "
          "to a scaled mesh is not taken); decision variables in [-2,2], scales in [0.1,10]")


def jac(ctx, x=None, **k):
    ocp, sh, _ = O.build(ctx, **k)
    x = ctx.vec("x", ocp.num_dec, lo=-2, hi=2)
    rows, cols = ocp.jacobianstructure()
    con = ocp.constraints(x)
    ctx.check("size", len(con) == ocp.num_con)
    J = O.dense(rows, cols, ocp.jacobian(x), (ocp.num_con, ocp.num_dec))
    ctx.eq("jacobian", J, ctx.gradient(con, x, f=ocp.constraints, x0=x))


def tasks(tier):
    return O.grid("jac", tier)
