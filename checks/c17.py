"""The casadi numpy layer against numpy: every function of lumos.numpy.casadi_numpy is applied to casadi
symbols (SX and MX), the expression it returns is read back and compared, as a term, with numpy's function
of that name on an array of the same symbolic elements.  A column of casadi stands for a 1-d array, (1, 1)
for a scalar.  Also the vector functions of lumos.numpy under every backend, and rotation and
finite-difference helpers against their definitions."""
import itertools

import casadi as cas
import numpy as np

from symx import cas as sc
from symx.npshim import real_numpy
import lumos.numpy as lnp
import lumos.numpy.casadi_numpy as cnp

BOUNDS = ("vectors of 1..5, matrices up to 3x4, shifts -4..7, orders 0..3, stacks of 1..3 arrays, every split point; SX and MX; "
          "arguments all casadi, and mixed with plain numpy constants where the function takes several; element values unbounded "
          "except where the function itself is only defined on a range")
ASSUMPTIONS = ["roll of a 1-row matrix without an axis leaves it as it is (pinned by an existing test of the repository)",
               "logical functions are given truth values", "casadi's interpolant is linear between and beyond the points"]

CONST = {(3,): [1.5, -2.0, 0.5], (2,): [-0.5, 3.0], (2, 3): [[1.0, 2.0, -0.5], [0.25, -1.0, 3.0]], (4,): [0.5, 1.0, -1.5, 2.0],
         (3, 2): [[1.0, 2.0], [-0.5, 0.25], [-1.0, 3.0]], (1,): [0.75], (2, 2): [[1.0, -2.0], [0.5, 3.0]], (): 1.25}


def _cshape(s):
    return (1, 1) if s == () else (s[0], 1) if len(s) == 1 else s


def _same(ctx, label, got, ref):
    """got: dense 2-d array; ref: what numpy gives"""
    r = np.asarray(ref, dtype=object)
    want = _cshape(r.shape)
    ctx.check("shape", tuple(got.shape) == want, f"{label}: {got.shape}, expected {want}")
    if tuple(got.shape) == want:
        ctx.eq(label, got, r.reshape(want))


def _args(ctx, kind, shapes, lo, hi, mixed):
    """-> casadi arguments, their symbols, values for them in casadi's shapes, numpy arguments"""
    cargs, syms, cv, nargs = [], [], [], []
    for i, s in enumerate(shapes):
        if i in mixed:
            v = np.array(CONST[s])
            cargs.append(v if s else float(v))
            nargs.append(v.astype(object) if ctx.symbolic and s else v if s else float(v))
            continue
        y = getattr(cas, kind).sym(f"a{i}", *_cshape(s))
        v = np.empty(s, dtype=object)
        for j in np.ndindex(*s):
            v[j] = ctx.real(f"a{i}[{','.join(map(str, j))}]", lo=lo, hi=hi)
        cargs.append(y)
        syms.append(y)
        cv.append(v.reshape(_cshape(s)))
        nargs.append(v if s else v.item())
        if not ctx.symbolic:
            nargs[-1] = nargs[-1].astype(float) if s else float(nargs[-1])
    return cargs, syms, cv, nargs


def case(ctx, name, kind, shapes, mixed, k):
    _, _, f, ref, opt = CASES[name]
    k = dict(k)
    cargs, syms, cv, nargs = _args(ctx, kind, shapes, *opt.get("range", (-3.0, 3.0)), mixed)
    with real_numpy():  # (only casadi symbols and plain numbers here)
        out = f(cnp, *cargs, **k)
    outs = list(out) if isinstance(out, (list, tuple)) else [out]
    want = ref(ctx, *nargs, **k)
    want = list(want) if isinstance(out, (list, tuple)) else [want]
    ctx.check("count", len(outs) == len(want), f"{len(outs)} results, expected {len(want)}")
    got = sc.evaluate(ctx, outs, syms, cv)
    for n, (g, w) in enumerate(zip(got, want)):
        _same(ctx, f"{name}[{n}]" if len(want) > 1 else name, g, w)


# ---- references written out where numpy itself cannot run on terms

def _sqrt(v):
    return np.sqrt(v)


def _norm(ctx, x, ord=None, axis=None):
    if axis is None and (np.ndim(x) == 1 or ord in (None, "fro")):
        v = x.ravel()
        return _vnorm(v, ord if ord != "fro" else None)
    return np.array([_vnorm(v, ord) for v in (x.T if axis == 0 else x)], dtype=object)


def _vnorm(v, ord):
    if ord in (None, 2):
        return _sqrt(sum(e * e for e in v))
    if ord == 1:
        return sum(abs(e) for e in v)
    if ord == np.inf:
        r = abs(v[0])
        for e in v[1:]:
            r = np.maximum(r, abs(e))
        return r
    return sum(abs(e) ** ord for e in v) ** (1 / ord)


def _max(ctx, x, g=np.maximum):
    v = list(x.ravel())
    r = v[0]
    for e in v[1:]:
        r = g(r, e)
    return r


def _bool(v):
    return v


def _truth(ctx, v, g):
    """0/1 of a condition over numbers"""
    out = np.empty(np.shape(v), dtype=object)
    for i in np.ndindex(*np.shape(v)):
        out[i] = g(np.asarray(v, dtype=object)[i])
    return out if out.shape else out.item()


def _cross(ctx, a, b, **k):
    return np.cross(a, b, **k)


def _solve(ctx, A, b):
    det = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    ctx.assume(ctx.any_(det > 0.01, det < -0.01))
    return np.array([(A[1, 1] * b[0] - A[0, 1] * b[1]) / det, (A[0, 0] * b[1] - A[1, 0] * b[0]) / det], dtype=object)


def _spaced(a, b, num):
    return [a + (b - a) * (i / max(num - 1, 1)) for i in range(num)]


def _lin(ctx, a, b, num):
    return np.array(_spaced(a, b, num), dtype=object)


def _each(v, f):
    return np.array([f(e) for e in v], dtype=object)


def _p10(ctx, v):
    return 10 ** v


def _rot2(ctx, t):
    return np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]], dtype=object)


def _rot3(ctx, t, u):
    n = _sqrt(sum(e * e for e in u))
    ctx.assume(n > 0.1)
    u = [e / n for e in u]
    K = [[0.0, -u[2], u[1]], [u[2], 0.0, -u[0]], [-u[1], u[0], 0.0]]
    c, s = np.cos(t), np.sin(t)
    return np.array([[(c if i == j else 0.0) + s * K[i][j] + (1 - c) * u[i] * u[j] for j in range(3)] for i in range(3)], dtype=object)


def _ite(ctx, c, a, b):
    c, a, b = np.broadcast_arrays(np.asarray(c, dtype=object), np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    out = np.empty(c.shape, dtype=object)
    for i in np.ndindex(*c.shape):
        out[i] = ctx.ite(c[i] > 0.5, a[i], b[i])
    return out if out.shape else out.item()


def _split(x, spec, axis):
    return np.split(x, spec, axis=axis)


LOG10E = 0.43429448190325176
V = [((n,), (n,)) for n in (1, 3, 4)]
ONE = [((3,),), ((2, 3),), ((),)]
VEC = [((n,),) for n in (1, 2, 3, 5)]
MAT = [((2, 3),), ((3, 2),), ((3, 3),)]
NO = [{}]


def _elt(name, f=None, shapes=ONE, **opt):
    return (shapes, NO, lambda c, *a: getattr(c, name)(*a), f or (lambda ctx, *a: getattr(np, name)(*a)), opt)


PAIR = [((3,), (3,)), ((2, 3), (2, 3)), ((), ()), ((3,), ()), ((), (2,))]
# name -> (argument shapes, keyword variants, casadi call, reference, options)
CASES = {
    **{n: _elt(n) for n in ("sin", "cos", "tan", "arctan", "exp", "tanh", "sinh", "cosh", "abs", "sign")},
    **{n: _elt(n, range=(0.1, 9.0)) for n in ("sqrt", "log")},
    **{n: _elt(n, range=(-0.9, 0.9)) for n in ("arcsin", "arccos")},
    "log10": _elt("log10", lambda ctx, x: np.log(x) * LOG10E, range=(0.1, 9.0)),
    "degrees": _elt("degrees", lambda ctx, x: x * 180 / np.pi), "radians": _elt("radians", lambda ctx, x: x * np.pi / 180),
    "sind": _elt("sind", lambda ctx, x: np.sin(x * np.pi / 180)), "cosd": _elt("cosd", lambda ctx, x: np.cos(x * np.pi / 180)),
    "tand": _elt("tand", lambda ctx, x: np.tan(x * np.pi / 180)),
    "arcsind": _elt("arcsind", lambda ctx, x: np.arcsin(x) * 180 / np.pi, range=(-0.9, 0.9)),
    "arccosd": _elt("arccosd", lambda ctx, x: np.arccos(x) * 180 / np.pi, range=(-0.9, 0.9)),
    "arctan2": _elt("arctan2", shapes=PAIR, range=(0.1, 3.0), mixed=True),
    "arctan2d": _elt("arctan2d", lambda ctx, y, x: np.arctan2(y, x) * 180 / np.pi, shapes=PAIR, range=(0.1, 3.0)),
    **{n: _elt(n, shapes=PAIR, mixed=True) for n in ("minimum", "maximum", "fmin", "fmax")},
    **{n: _elt(n, lambda ctx, a, b, g=g: g(a, b), shapes=PAIR, mixed=True)
       for n, g in (("add", lambda a, b: a + b), ("subtract", lambda a, b: a - b), ("multiply", lambda a, b: a * b))},
    "clip": _elt("clip", lambda ctx, x, a, b: np.minimum(np.maximum(x, a), b), shapes=[((3,), (), ()), ((2, 3), (), ()), ((2,), (2,), (2,))],
                 mixed=True),
    "sum": (ONE[:2] + VEC + MAT, [{}, {"axis": 0}, {"axis": 1}], lambda c, x, **k: c.sum(x, **k),
            lambda ctx, x, **k: np.sum(x, **k), {}),
    "mean": (ONE[:2] + VEC + MAT, [{}, {"axis": 0}, {"axis": 1}], lambda c, x, **k: c.mean(x, **k),
             lambda ctx, x, **k: np.mean(x, **k), {}),
    "max": (VEC + MAT, NO, lambda c, x: c.max(x), _max, {}),
    "min": (VEC + MAT, NO, lambda c, x: c.min(x), lambda ctx, x: _max(ctx, x, np.minimum), {}),
    "diff": (VEC[1:] + MAT, [{"n": n} for n in (0, 1, 2, 3)], lambda c, x, **k: c.diff(x, **k), lambda ctx, x, **k: np.diff(x, **k), {}),
    "trapz": (VEC[1:], [{}], lambda c, x: c.trapz(x), lambda ctx, x: (x[1:] + x[:-1]) / 2, {}),
    "roll": (VEC + MAT, [{"shift": s, "axis": a} for s in range(-4, 8) for a in (None, 0, 1)], lambda c, x, **k: c.roll(x, **k),
             lambda ctx, x, **k: np.roll(x, **k), {}),
    "reshape": ([((2, 3),), ((3, 4),), ((6,),), ((12,),)],
                [{"newshape": s} for s in ((2, 3), (3, 2), (6, 1), (1, 6), (2, 6), (6, 2), (4, 3), (3, 4), (-1, 2), (3, -1))],
                lambda c, x, newshape: c.reshape(x, newshape), lambda ctx, x, newshape: np.reshape(x, newshape), {}),
    "concatenate": ([s * n for s in (((3,),), ((2, 3),)) for n in (1, 2, 3)] + [((2,), (3,), (1,)), ((2, 3), (3, 3)), ((2, 3), (2, 2))],
                    [{"axis": 0}, {"axis": 1}], lambda c, *a, **k: c.concatenate(list(a), **k),
                    lambda ctx, *a, **k: np.concatenate(a, **k), {"mixed": True}),
    "stack": ([((3,),) * n for n in (1, 2, 3)], [{"axis": a} for a in (0, 1, -1, -2)], lambda c, *a, **k: c.stack(list(a), **k),
              lambda ctx, *a, **k: np.stack(a, **k), {"mixed": True}),
    "hstack": ([((2, 3), (2, 2)), ((3, 2),) * 3, ((2, 3),)], NO, lambda c, *a: c.hstack(list(a)), lambda ctx, *a: np.hstack(a), {}),
    "vstack": ([((2, 3), (1, 3)), ((3, 2),) * 3, ((2, 3),)], NO, lambda c, *a: c.vstack(list(a)), lambda ctx, *a: np.vstack(a), {}),
    "column_stack": ([((3,),) * n for n in (1, 2, 3)], NO, lambda c, *a: c.column_stack(list(a)), lambda ctx, *a: np.column_stack(a), {}),
    "row_stack": ([((3,),) * n for n in (1, 2, 3)], NO, lambda c, *a: c.row_stack(list(a)), lambda ctx, *a: np.vstack(a), {}),
    "array": ([((),) * n for n in (1, 2, 3)], NO, lambda c, *a: c.array(list(a)), lambda ctx, *a: np.array(a, dtype=object), {"mixed": True}),
    "array2": ([((),) * 4], NO, lambda c, p, q, r, s: c.array([[p, q, 2.0], [0.5, r, s]]),
               lambda ctx, p, q, r, s: np.array([[p, q, 2.0], [0.5, r, s]], dtype=object), {"mixed": True}),
    "array_vectors": ([((3,),) * n for n in (2, 3)], NO, lambda c, *a: c.array(list(a)), lambda ctx, *a: np.array(a, dtype=object),
                      {"mixed": True}),
    "split": (VEC[3:] + [((3, 4),)], [{"spec": s, "axis": a} for s in ([1], [2], [1, 2], [1, 3], [2, 3], [1, 2, 3], 1, 2, 3, 4, 5) for a in (0, 1, -1)],
              lambda c, x, spec, axis: c.split(x, spec, axis), lambda ctx, x, spec, axis: np.split(x, spec, axis), {}),
    "hsplit": ([((3, 4),)], [{"spec": s} for s in ([1], [1, 3], 2, 4)], lambda c, x, spec: c.hsplit(x, spec), lambda ctx, x, spec: np.hsplit(x, spec), {}),
    "vsplit": ([((3, 4),)], [{"spec": s} for s in ([1], [1, 2], 3)], lambda c, x, spec: c.vsplit(x, spec), lambda ctx, x, spec: np.vsplit(x, spec), {}),
    "diag": ([((n,),) for n in (2, 3)], NO, lambda c, x: c.diag(x), lambda ctx, x: np.diag(x), {}),
    "dot": (V + [((2, 3), (3,)), ((2, 3), (3, 2)), ((3, 3), (3, 3)), ((2, 2), (2,))], NO, lambda c, a, b: c.dot(a, b),
            lambda ctx, a, b: np.dot(a, b), {"mixed": True}),
    "inner": (V, NO, lambda c, a, b: c.linalg.inner(a, b), lambda ctx, a, b: np.inner(a, b), {"mixed": True}),
    "outer": (V[1:] + [((2,), (3,)), ((3,), (1,))], NO, lambda c, a, b: c.linalg.outer(a, b), lambda ctx, a, b: np.outer(a, b), {"mixed": True}),
    "matmul": ([((2, 3), (3,)), ((2, 3), (3, 2))], NO, lambda c, a, b: a @ b, lambda ctx, a, b: np.dot(a, b), {}),
    "cross": ([((3,), (3,)), ((2, 3), (2, 3)), ((3, 3), (3, 3))], [{}, {"axis": -1}], lambda c, a, b, **k: c.cross(a, b, **k), _cross,
              {"mixed": True}),
    "cross0": ([((3, 2), (3, 2)), ((3, 3), (3, 3))], [{"axis": 0}], lambda c, a, b, **k: c.cross(a, b, **k), _cross, {}),
    "solve": ([((2, 2), (2,))], NO, lambda c, A, b: c.linalg.solve(A, b), _solve, {"kinds": ("SX",)}),

    "norm": (VEC, [{}, {"ord": 1}, {"ord": 2}, {"ord": 3}, {"ord": np.inf}], lambda c, x, **k: c.linalg.norm(x, **k), _norm, {"range": (0.1, 3)}),
    "norm_matrix": (MAT, [{}, {"ord": "fro"}] + [{"ord": o, "axis": a} for o in (None, 1, 2, 3, np.inf) for a in (0, 1, -1)],
                    lambda c, x, **k: c.linalg.norm(x, **k), _norm, {"range": (0.1, 3)}),
    "norm_signed": (VEC, [{}, {"ord": 1}, {"ord": 2}, {"ord": np.inf}], lambda c, x, **k: c.linalg.norm(x, **k), _norm, {}),
    "norm_matrix_signed": (MAT, [{}] + [{"ord": o, "axis": a} for o in (1, 2, np.inf) for a in (0, 1, -1)],
                           lambda c, x, **k: c.linalg.norm(x, **k), _norm, {}),
    "where": ([((3,), (3,), (3,)), ((3,), (), (3,)), ((), (), ()), ((), (3,), (3,)), ((2, 3), (2, 3), ())], NO,
              lambda c, m, a, b: c.where(m > 0.5, a, b), _ite, {}),
    "logical_and": ([((3,), (3,)), ((), ())], NO, lambda c, a, b: c.logical_and(a > 0, b > 1),
                    lambda ctx, a, b: _truth2(ctx, a, b, lambda p, q: ctx.all_(p > 0, q > 1)), {}),
    "logical_or": ([((3,), (3,)), ((), ())], NO, lambda c, a, b: c.logical_or(a > 0, b > 1),
                   lambda ctx, a, b: _truth2(ctx, a, b, lambda p, q: ctx.any_(p > 0, q > 1)), {}),
    "logical_not": ([((3,),), ((),)], NO, lambda c, a: c.logical_not(a > 0), lambda ctx, a: _truth2(ctx, a, a, lambda p, q: p <= 0), {}),
    "all": (VEC + MAT, NO, lambda c, a: c.all(a > 0), lambda ctx, a: ctx.ite(ctx.all_(*[e > 0 for e in a.ravel()]), 1.0, 0.0), {"kinds": ("SX",)}),

    "any": (VEC + MAT, NO, lambda c, a: c.any(a > 0), lambda ctx, a: ctx.ite(ctx.any_(*[e > 0 for e in a.ravel()]), 1.0, 0.0), {"kinds": ("SX",)}),

    "linspace": ([((), ())], [{"num": n} for n in (1, 2, 3, 5)], lambda c, a, b, **k: c.linspace(a, b, **k), _lin, {"mixed": True}),
    "cosspace": ([((), ())], [{"num": n} for n in (2, 3, 5)], lambda c, a, b, **k: c.cosspace(a, b, **k),
                 lambda ctx, a, b, num: np.array([(a + b) / 2 + (b - a) / 2 * float(np.cos(np.pi * (1 - i / (num - 1)))) for i in range(num)],
                                                 dtype=object), {}),
    "logspace": ([((), ())], [{"num": n} for n in (1, 2, 3, 5)], lambda c, a, b, **k: c.logspace(a, b, **k),
                 lambda ctx, a, b, num: _each(_spaced(a, b, num), lambda e: 10 ** e), {}),
    "geomspace": ([((), ())], [{"num": n} for n in (2, 3)], lambda c, a, b, **k: c.geomspace(a, b, **k),
                  lambda ctx, a, b, num: _each(_spaced(np.log(a) * LOG10E, np.log(b) * LOG10E, num), lambda e: 10 ** e),
                  {"range": (0.2, 5.0)}),
    "rotation_matrix_2D": ([((),)], NO, lambda c, t: c.rotation_matrix_2D(t), _rot2, {}),
    "rotation_matrix_3D": ([((), (3,))], NO, lambda c, t, u: c.rotation_matrix_3D(t, u), _rot3, {"mixed": True}),
    "zeros": ([((2,),)], [{"s": s} for s in (3, (2, 3), (1, 1))], lambda c, x, s: c.zeros(s), lambda ctx, x, s: np.zeros(s), {"kinds": ("SX",)}),

    "ones": ([((2,),)], [{"s": s} for s in (3, (2, 3), (1, 1))], lambda c, x, s: c.ones(s), lambda ctx, x, s: np.ones(s), {"kinds": ("SX",)}),

    "eye": ([((2,),)], [{"s": s} for s in (2, 3)], lambda c, x, s: c.eye(s), lambda ctx, x, s: np.eye(s), {"kinds": ("SX",)}),

    "zeros_like": (VEC + MAT, NO, lambda c, x: c.zeros_like(x), lambda ctx, x: np.zeros(np.shape(x)), {"kinds": ("SX",)}),

}


def _truth2(ctx, a, b, g):
    a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = ctx.ite(g(a[i], b[i]), 1.0, 0.0)
    return out if out.shape else out.item()


def rotation(ctx, dim):
    """rotation matrices are orthonormal, of determinant one, and keep their axis"""
    t = cas.SX.sym("t")
    a = ctx.real("t", lo=-7, hi=7)
    if dim == 2:
        R, = sc.evaluate(ctx, [cnp.rotation_matrix_2D(t)], [t], [[[a]]])
    else:
        u = cas.SX.sym("u", 3)
        uv = ctx.vec("u", 3, lo=-3, hi=3)
        ctx.assume(uv[0] * uv[0] + uv[1] * uv[1] + uv[2] * uv[2] > 0.05)
        R, = sc.evaluate(ctx, [cnp.rotation_matrix_3D(t, u)], [t, u], [[[a]], np.reshape(uv, (3, 1))])
        ctx.eq("axis", R.dot(uv), uv)
        return  # (the rest follows from Rodrigues' formula, compared above)
    ctx.eq("orthonormal", R.dot(R.T), np.eye(dim))
    det = R[0, 0] * R[1, 1] - R[0, 1] * R[1, 0] if dim == 2 else sum(R[0, i] * np.cross(R[1], R[2])[i] for i in range(3))
    ctx.eq("determinant", det, 1.0)


def finite_differences(ctx, n, degree, kind):
    """the formula is exact for polynomials up to the number of points, for every distinct grid"""
    x = ctx.vec("x", n, lo=-3, hi=3)
    for i in range(n):
        for j in range(i):
            ctx.assume(ctx.any_(x[i] - x[j] > 0.05, x[j] - x[i] > 0.05))
    x0 = ctx.real("x0", lo=-3, hi=3)
    if kind == "numpy":
        c = np.asarray(cnp.finite_difference_coefficients(x, x0, degree), dtype=object).ravel()
    else:
        X, X0 = getattr(cas, kind).sym("x", n), getattr(cas, kind).sym("x0")
        c, = sc.evaluate(ctx, [cnp.finite_difference_coefficients(X, X0, degree)], [X, X0], [np.reshape(x, (n, 1)), [[x0]]])
        c = c.ravel()
    ctx.check("count", len(c) == n)
    fact = float(np.prod(range(1, degree + 1)))
    for k in range(n):
        ctx.eq(f"power{k}", sum(c[i] * (x[i] - x0) ** k for i in range(n)), fact if k == degree else 0.0)


def finite_difference_errors(ctx):
    x = ctx.vec("x", 3)
    for n, d in ((3, 3), (2, 2), (1, 1), (3, 0), (3, -1), (2, 5)):
        ctx.raises(f"refused:{n},{d}", ValueError, lambda: cnp.finite_difference_coefficients(x[:n], 0.0, d))


class _Lut:
    """casadi.interpolant of kind linear over scalar data, as an expression"""

    def __init__(self, name, kind, grid, values):
        (self.x,), self.y = grid, values
        if kind != "linear":
            raise ValueError(kind)

    def __call__(self, v):
        x, y = [float(e) for e in self.x], [float(e) for e in np.asarray(self.y)]
        seg = [y[i] + (y[i + 1] - y[i]) * (v - x[i]) / (x[i + 1] - x[i]) for i in range(len(x) - 1)]
        r = seg[-1]
        for i in range(len(x) - 3, -1, -1):
            r = cas.if_else(v < x[i + 1], seg[i], r)
        return r


def interp(ctx, grid, ends):
    xp = np.array({2: [0.0, 2.0], 3: [-1.0, 0.5, 2.0], 5: [0.0, 0.25, 1.0, 3.0, 3.5]}[grid])
    fp = np.array({2: [1.0, -3.0], 3: [2.0, -1.0, 4.0], 5: [1.0, 0.0, 2.5, -1.0, 5.0]}[grid])
    v = ctx.real("v", lo=-3, hi=6)
    x = cas.MX.sym("x") if not ctx.symbolic else cas.SX.sym("x")
    real = cas.interpolant
    if ctx.symbolic:
        cas.interpolant = _Lut
    try:
        out = cnp.interp(x, xp, fp, **ends)
    finally:
        cas.interpolant = real
    f = cas.Function("f", [x], [out])
    got = sc.call(ctx, f, [[v]])[0][0, 0] if ctx.symbolic else float(f(float(v)))
    left, right = ends.get("left"), ends.get("right")
    ctx.eq("interp", got, np.interp(v, xp.astype(object) if ctx.symbolic else xp, fp.astype(object) if ctx.symbolic else fp, left, right))


def vectors(ctx, kind):
    """vector_concat, vector_split and vector_tile mean the same under every backend"""
    sizes = [ctx.choice(f"n{i}", [1, 2, 3]) for i in range(3)]
    vals = [ctx.vec(f"v{i}", n) for i, n in enumerate(sizes)]
    whole = np.concatenate(vals)
    cuts = list(np.cumsum(sizes)[:-1])
    reps = ctx.choice("reps", [1, 2, 3])
    if kind == "numpy":
        with lnp.use_backend("numpy"):
            ctx.eq("concat", lnp.vector_concat(vals), whole)
            for g, w in zip(lnp.vector_split(whole, cuts), vals):
                ctx.eq("split", g, w)
            ctx.eq("tile", lnp.vector_tile(whole, reps), np.stack([whole] * reps))
        return
    s = [getattr(cas, kind).sym(f"v{i}", n) for i, n in enumerate(sizes)]
    w = getattr(cas, kind).sym("w", len(whole))
    with lnp.use_backend("casadi"):
        outs = [lnp.vector_concat(s)] + list(lnp.vector_split(w, [int(c) for c in cuts])) + [lnp.vector_tile(w, reps)]
    ctx.check("split-count", len(outs) == 5)
    got = sc.evaluate(ctx, outs, s + [w], [np.reshape(v, (-1, 1)) for v in vals] + [np.reshape(whole, (-1, 1))])
    for g, r in zip(got, [whole] + vals):
        _same(ctx, "concat-split", g, r)
    ctx.check("tile-shape", got[-1].shape == (reps, len(whole)))
    ctx.eq("tile", got[-1], np.stack([whole] * reps))


def _valid(name, shapes, k):
    """would numpy accept it (and does the layer's convention cover it)?"""
    try:
        if name == "roll":
            return not (len(shapes[0]) == 1 and k["axis"] == 1)
        if name in ("sum", "mean"):
            return k.get("axis") is None or k["axis"] < len(shapes[0])
        if name == "concatenate":
            np.concatenate([np.zeros(s) for s in shapes], **k)
        if name == "reshape":
            np.reshape(np.zeros(shapes[0]), k["newshape"])
        if name == "split":
            if len(shapes[0]) == 1 and k["axis"] != 0:
                return False
            np.split(np.zeros(shapes[0]), k["spec"], k["axis"])
        if name == "diff":
            return k["n"] < shapes[0][-1]
    except ValueError:
        return False
    return True


def tasks(tier):
    out = []
    for name, (shapes, kws, _, _, opt) in CASES.items():
        for sh, k in itertools.product(shapes, kws):
            if not _valid(name, sh, k):
                continue
            mixes = [()]
            if opt.get("mixed") and len(sh) > 1:
                mixes += [(i,) for i in range(len(sh)) if sh[i] in CONST]
            for kind in opt.get("kinds", ("SX", "MX")):
                for mx in mixes:
                    tag = ",".join(f"{a}={b}" for a, b in k.items()).replace(" ", "")
                    out.append(dict(name=f"{name}-{'x'.join(map(str, sh)).replace(' ', '')}-{tag}-{kind}-{mx}", harness="case",
                                    params=dict(name=name, kind=kind, shapes=sh, mixed=mx, k=tuple(k.items())), cost=1))
    for d in (2, 3):
        out.append(dict(name=f"rotation-{d}", harness="rotation", params=dict(dim=d), cost=20))
    for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
        for d in range(1, n):
            for kind in ("numpy", "SX"):
                out.append(dict(name=f"finite-differences-{n}-{d}-{kind}", harness="finite_differences", params=dict(n=n, degree=d, kind=kind), cost=20))
    out.append(dict(name="finite-differences-refused", harness="finite_difference_errors", params={}))
    for g in (2, 3, 5):
        for e in ({}, {"left": -7.0}, {"right": 9.0}, {"left": 0.0, "right": 0.0}):
            out.append(dict(name=f"interp-{g}-{'-'.join(e)}-{len(e) == 2}", harness="interp", params=dict(grid=g, ends=e), cost=2))
    for kind in ("numpy", "SX", "MX"):
        out.append(dict(name=f"vectors-{kind}", harness="vectors", params=dict(kind=kind), cost=2))
    return out
