"""Transcription exactness: the defects vanish on every polynomial state trajectory up to the scheme's
degree (1 forward Euler, 2 trapezoidal, stages-1 LGR, stages LGRIntegral), for any interval start and
length, and determine the increments uniquely; at the end of the interval the collocation schemes
integrate derivatives up to degree 2*stages-4; nodes have their quadrature degree; differentiation and
integration matrices are exact on polynomials at any evaluation point."""
import numpy as np

from . import ocp_common as O
from lumos.optimal_control import collocation as col
from lumos.optimal_control.transcription import make_transcription

BOUNDS = ("schemes with 2..6 (quick) / 2..8 (thorough) stages, nodes up to 7 (9); polynomial coefficients in [-2,2], "
          "interval start, length, evaluation points symbolic; problems of 1..3 intervals; numerical node values are "
          "compared with tolerance 1e-6")
TOL = 1e-6


def _poly(ctx, name, deg):
    c = [ctx.real(f"{name}{k}", lo=-2, hi=2) for k in range(deg + 1)]

    def p(t):
        r = 0.0
        for a in reversed(c):
            r = r * t + a
        return r

    def dp(t):
        r = 0.0
        for k in range(deg, 0, -1):
            r = r * t + k * c[k]
        return r
    return p, dp


def _degree(tr):
    if isinstance(tr, str):
        return {"ForwardEuler": 1, "Trapezoidal": 2}[tr]
    return {"LGR": tr[1]["num_stages"] - 1, "LGRIntegral": tr[1]["num_stages"]}[tr[0]]


def defects(ctx, tr, dim):
    t = make_transcription(tr) if isinstance(tr, str) else make_transcription(*tr)
    w = 2 if isinstance(tr, str) else tr[1]["num_stages"]
    ctx.check("stages", t.num_stages_per_interval == w and t.num_constraints_per_interval == w - 1)
    c = UNIT[_key(tr)]
    h = ctx.real("h", lo=0.1, hi=3)
    # unit interval parametrised by tau = (t - t0)/h: x = p(tau), dx/dt = p'(tau)/h
    X, D = [], []
    for d in range(dim):
        p, dp = _poly(ctx, f"p{d}.", _degree(tr))
        X.append([p(float(s)) for s in c])
        D.append([dp(float(s)) / h for s in c])
    x, xd = ctx.array(X).T, ctx.array(D).T
    con = t.continuity_con(x, xd, h)
    ctx.eq("defect-vanishes", con, np.zeros((w - 1, dim)), tol=TOL)
    # for arbitrary stage values the defects are the error of the increments, up to an invertible map
    A, B = t.get_continuity_matrices()
    A1 = np.array(A[:, 1:], dtype=float)
    inv = np.array(_inv(A1))
    y = ctx.mat("y", (w, dim), lo=-2, hi=2)
    y[0] = x[0]
    ctx.eq("defect-unique", inv @ t.continuity_con(y, xd, h), (y - x)[1:], tol=TOL)
    if isinstance(tr, str):
        # the named schemes by definition: slope at the start, mean of both slopes
        yd = ctx.mat("sd", (w, dim), lo=-2, hi=2)
        slope = yd[0] if tr == "ForwardEuler" else (yd[0] + yd[1]) / 2
        ctx.eq("defect-definition", t.continuity_con(y, yd, h), [y[1] - y[0] - slope * h])
    # general bilinear form in the stage values and derivatives
    yd = ctx.mat("yd", (w, dim), lo=-2, hi=2)
    ctx.eq("defect-bilinear", t.continuity_con(y, yd, h), np.array(A, dtype=float) @ y - (np.array(B, dtype=float) @ yd) * h)


def superconvergence(ctx, tr):
    t = make_transcription(*tr)
    w = tr[1]["num_stages"]
    deg = 2 * (w - 1) - 1
    p, dp = _poly(ctx, "p", deg)
    c = UNIT[_key(tr)]
    h = ctx.real("h", lo=0.1, hi=3)
    A, B = t.get_continuity_matrices()
    A, B = np.array(A, dtype=float), np.array(B, dtype=float)
    xd = ctx.array([dp(float(s)) / h for s in c])
    inv = np.array(_inv(A[:, 1:]))
    # solve A [x0; x] = h B xd for x, at the last stage
    rhs = (B @ xd) * h - A[:, 0] * p(0.0)
    ctx.eq("end-of-interval", (inv @ rhs)[-1], p(1.0), tol=1e-5)


def problem(ctx, tr, n, fixed):
    """the continuity rows of a real problem, non-uniform mesh, against the same exactness"""
    ocp, sh, _ = O.build(ctx, shape="std", fixed=fixed, tr=tr, n=n, scaled=False)
    k = ctx.real("mesh_scale", lo=0.1, hi=5) if fixed else ctx.real("scale", lo=0.1, hi=5)
    mesh = ocp.get_mesh_from_scale(k)
    op = ocp.dec_var_operator
    pol = [_poly(ctx, f"p{j}.", min(_degree(tr), 3)) for j in range(2)]
    # polynomial in the normalised mesh s = t/k: dx/dt = p'(s)/k
    s = ocp.get_mesh_from_scale(1.0)
    states = ctx.array([[p(t) for p, _ in pol] for t in s])
    sdot = ctx.array([[dp(t) / k for _, dp in pol] for t in s])
    kw = dict(states=states, states_dot=sdot, inputs=np.zeros((len(s), 1)), con_outputs=np.zeros((len(s), 1)))
    if not fixed:
        kw["mesh_scale"] = k
    g = ocp.split_constraints(ocp.constraints(op.flatten_var(**kw)))["continuity"]
    ctx.eq("continuity-vanishes", g, np.zeros(len(g)), tol=TOL)
    ctx.check("count", len(g) == 2 * (len(mesh) - 1))


def nodes(ctx, scheme, n):
    sch = getattr(col.CollocationEnum, scheme)
    x = np.array(col.get_collocation_points(n, sch), dtype=float)
    ctx.check("count", len(x) == n)
    ctx.check("ordered-in-range", all(a < b for a, b in zip(x, x[1:])) and -1 - 1e-9 <= x[0] and x[-1] <= 1 + 1e-9)
    if scheme == "LGL":
        ctx.check("end-points", abs(x[0] + 1) < 1e-9 and abs(x[-1] - 1) < 1e-9)
    if scheme == "LGR":
        ctx.check("right-end", abs(x[-1] - 1) < 1e-9)
    if scheme == "LG":
        ctx.check("interior", abs(x[0]) < 1 and abs(x[-1]) < 1)
    deg = {"LG": 2 * n - 1, "LGR": 2 * n - 2, "LGL": 2 * n - 3}[scheme]
    # interpolatory weights of these nodes
    V = [[float(v) ** k for v in x] for k in range(n)]
    m = [2.0 / (k + 1) if k % 2 == 0 else 0.0 for k in range(n)]
    wts = _solve(V, m)
    c = [ctx.real(f"c{k}", lo=-2, hi=2) for k in range(deg + 1)]
    quad = sum(float(w) * sum(ck * float(v) ** k for k, ck in enumerate(c)) for w, v in zip(wts, x))
    ctx.eq("quadrature", quad, sum(ck * 2.0 / (k + 1) for k, ck in enumerate(c) if k % 2 == 0), tol=1e-5)
    ctx.check("positive-weights", all(w > 0 for w in wts))


def matrices(ctx, n, sym_support):
    if sym_support:
        sup = [ctx.real("s0", lo=-2, hi=2)]
        for k in range(1, n):
            sup.append(sup[-1] + ctx.real(f"ds{k}", lo=0.1, hi=1))
        sup = ctx.array(sup)
    else:
        sup = np.array([0.0] + [float(k) ** 1.3 / (n - 1) ** 1.3 for k in range(1, n)]) if n > 1 else np.array([0.3])
    ev = ctx.vec("ev", 3, lo=-2, hi=2)
    c = [ctx.real(f"c{k}", lo=-2, hi=2) for k in range(n)]
    p = lambda t: sum(ck * t ** k for k, ck in enumerate(c))  # noqa: E731
    dp = lambda t: sum(k * ck * t ** (k - 1) for k, ck in enumerate(c) if k)  # noqa: E731
    ip = lambda t: sum(ck * t ** (k + 1) / (k + 1) for k, ck in enumerate(c))  # noqa: E731
    v = ctx.array([p(t) for t in sup])
    D = col.build_lagrange_differential_matrix(sup, ev)
    I = col.build_lagrange_integration_matrix(sup, ev)  # noqa: E741
    ctx.eq("differentiation", D @ v, ctx.array([dp(t) + 0 * t for t in ev]), tol=1e-5)
    ctx.eq("integration", I @ v, ctx.array([ip(t) - ip(sup[0]) for t in ev]), tol=1e-5)
    if n <= 5:
        for i in range(n):
            q = col.make_lagrange_polynomial(sup, i)
            for j in range(n):
                ctx.eq("cardinal", q(sup[j]) + 0 * ev[0], (1.0 if i == j else 0.0) + 0 * ev[0], tol=1e-5)
        ctx.check("basis-size", len(col.make_lagrange_basis(sup)) == n)


def bad(ctx):
    ctx.raises("scheme-type", TypeError, lambda: col.get_collocation_points(3, "LGR"))
    ctx.raises("points", AssertionError, lambda: col.get_collocation_points(0, col.CollocationEnum.LGR))
    ctx.raises("unknown", RuntimeError, lambda: make_transcription("RK4"))


def _inv(a):
    return _gauss([list(map(float, r)) + [1.0 if i == j else 0.0 for j in range(len(a))] for i, r in enumerate(a)])


def _solve(a, b):
    return [r[0] for r in _gauss([list(map(float, r)) + [float(v)] for r, v in zip(a, b)])]


def _gauss(m):
    n = len(m)
    for i in range(n):
        k = max(range(i, n), key=lambda r: abs(m[r][i]))
        m[i], m[k] = m[k], m[i]
        m[i] = [v / m[i][i] for v in m[i]]
        for r in range(n):
            if r != i and m[r][i]:
                f = m[r][i]
                m[r] = [v - f * w for v, w in zip(m[r], m[i])]
    return [r[n:] for r in m]


def _key(tr):
    return 2 if isinstance(tr, str) else tr[1]["num_stages"]


def _unit():
    from . import c09
    d = {2: np.array([0.0, 1.0])}
    for w in range(3, 10):
        d[w] = np.concatenate([[0.0], c09.radau(w - 1)])
    return d


UNIT = _unit()


def tasks(tier):
    W = range(2, 7) if tier == "quick" else range(2, 9)
    trs = ["ForwardEuler", "Trapezoidal"] + [(t, {"num_stages": w}) for t in ("LGR", "LGRIntegral") for w in W]
    nm = lambda tr: tr if isinstance(tr, str) else f"{tr[0]}{tr[1]['num_stages']}"  # noqa: E731
    out = [dict(name="rejections", harness="bad", params={}, cost=1)]
    for tr in trs:
        for dim in (1, 2):
            out.append(dict(name=f"defects-{nm(tr)}-{dim}", harness="defects", params=dict(tr=tr, dim=dim), cost=_key(tr)))
        if not isinstance(tr, str):
            out.append(dict(name=f"superconvergence-{nm(tr)}", harness="superconvergence", params=dict(tr=tr), cost=2))
        if _key(tr) <= 4:
            for n in (1, 2, 3):
                for fixed in (False, True):
                    out.append(dict(name=f"problem-{nm(tr)}-{n}-{fixed}", harness="problem",
                                    params=dict(tr=tr, n=n, fixed=fixed), cost=5))
    for s in ("LG", "LGR", "LGL"):
        for n in range(2 if s == "LGL" else 1, 8 if tier == "quick" else 10):
            out.append(dict(name=f"nodes-{s}-{n}", harness="nodes", params=dict(scheme=s, n=n), cost=1))
    for n in range(1, 6 if tier == "quick" else 8):
        out.append(dict(name=f"matrices-{n}", harness="matrices", params=dict(n=n, sym_support=False), cost=2))
    for n in (1, 2, 3):
        out.append(dict(name=f"matrices-support-{n}", harness="matrices", params=dict(n=n, sym_support=True), cost=4))
    return out
