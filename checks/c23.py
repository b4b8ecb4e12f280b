"""Track geometry: for every centre line with the stated number of points (symbolic coordinates) distance, heading
and curvature are those of the line - whatever its position, orientation, size, handedness and direction of travel -
circles and straights are exact, and look-ups reproduce the data at its nodes and interpolate in between."""
import os
import tempfile

import numpy as np

from lumos.models.tracks import ConstCurvTrack, RaceTrack, cartesian_to_curvilinear, curvilinear_to_cartesian

BOUNDS = ("polylines of 3..5 points (thorough: 6) with symbolic coordinates (advancing in one direction by 0.1..3, across by -3..3), "
          "every translation, scale 0.2..5, rotations of 3 points by any angle but a half turn (thorough: 4) and of more by four fixed angles; circles of symbolic radius, "
          "centre and rational steps; look-ups at every symbolic distance over 2..4 nodes with symbolic data; track files with "
          "symbolic widths")


def _line(ctx, n, tag=""):
    x, y = [ctx.real(f"{tag}x0", lo=-10, hi=10)], [ctx.real(f"{tag}y0", lo=-10, hi=10)]
    for i in range(n - 1):
        x.append(x[-1] + ctx.real(f"{tag}dx{i}", lo=0.1, hi=3))
        y.append(y[-1] + ctx.real(f"{tag}dy{i}", lo=-3, hi=3))
    return ctx.array(x), ctx.array(y)


def _turn(ctx, tag):
    """cosine and sine of any angle but half a turn"""
    t = ctx.real(tag, lo=-5, hi=5)
    return (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)


def basics(ctx, n):
    x, y = _line(ctx, n)
    s, k, h = cartesian_to_curvilinear(x, y)
    ctx.check("shapes", np.shape(s) == np.shape(k) == np.shape(h) == (n,))
    ctx.eq("starts-at-zero", s[0], 0.0)
    for i in range(n - 1):
        ds = s[i + 1] - s[i]
        ctx.check("distance-grows", ds > 0)
        ctx.eq("distance", ds * ds, (x[i + 1] - x[i]) ** 2 + (y[i + 1] - y[i]) ** 2)
        ctx.eq("heading-accumulates-curvature", h[i + 1] - h[i], ds * (k[i] + k[i + 1]) / 2, tol=1e-6)
    ctx.eq("starts-along-first-segment", [np.cos(h[0]) * s[1], np.sin(h[0]) * s[1]], [x[1] - x[0], y[1] - y[0]], tol=1e-6)


def transforms(ctx, n, kind, turn=None):
    x, y = _line(ctx, n)
    s, k, h = cartesian_to_curvilinear(x, y)
    if kind == "translate":
        a, b = ctx.real("a", lo=-50, hi=50), ctx.real("b", lo=-50, hi=50)
        s2, k2, h2 = cartesian_to_curvilinear(x + a, y + b)
        want = (s, k)
    elif kind == "mirror":
        s2, k2, h2 = cartesian_to_curvilinear(x, -y)
        want = (s, -k)
    elif kind == "scale":
        c = ctx.real("scale", lo=0.2, hi=5)
        s2, k2, h2 = cartesian_to_curvilinear(c * x, c * y)
        want = (c * s, k / c)
    elif kind == "reverse":
        s2, k2, h2 = cartesian_to_curvilinear(x[::-1], y[::-1])
        want = (s[-1] - s[::-1], -k[::-1])
        for i in range(n):
            ctx.eq("reverse:heading", h2[i] - h2[0], h[n - 1 - i] - h[n - 1], tol=1e-6)
    else:
        c, sn = turn if turn else _turn(ctx, "turn")
        s2, k2, h2 = cartesian_to_curvilinear(c * x - sn * y, sn * x + c * y)
        want = (s, k)
        # the direction itself turns by the angle
        c0, s0 = np.cos(h[0]), np.sin(h[0])
        ctx.eq("rotate:direction", [np.cos(h2[0]), np.sin(h2[0])], [c * c0 - sn * s0, sn * c0 + c * s0], tol=1e-6)
    ctx.eq(kind + ":distance", s2, want[0], tol=1e-6)
    ctx.eq(kind + ":curvature", k2, want[1], tol=1e-6)
    # (further headings follow: they accumulate the curvature, see basics)
    if kind in ("translate", "mirror", "scale"):
        up = -1.0 if kind == "mirror" else 1.0
        ctx.eq(kind + ":heading", [np.cos(h2[0]), np.sin(h2[0])], [np.cos(h[0]), up * np.sin(h[0])], tol=1e-6)


def straight(ctx, n):
    c, sn = _turn(ctx, "direction")
    d = [ctx.real("start", lo=-5, hi=5)]
    for i in range(n - 1):
        d.append(d[-1] + ctx.real(f"d{i}", lo=0.1, hi=3))
    d = ctx.array(d)
    s, k, h = cartesian_to_curvilinear(1.5 + c * d, sn * d - 0.5)
    ctx.eq("straight:curvature", k, np.zeros(n))
    ctx.eq("straight:distance", s, d - d[0], tol=1e-6)
    ctx.eq("straight:heading", [np.cos(h[0]), np.sin(h[0]), *(h[1:] - h[0])], [c, sn] + [0.0] * (n - 1), tol=1e-6)


def circle(ctx, n, num, den, left):
    """evenly spaced points of a circle: curvature is exactly 1/R (away from the ends, where one-sided differences are used)"""
    R = ctx.real("R", lo=1, hi=500)
    cx, cy = ctx.real("cx", lo=-50, hi=50), ctx.real("cy", lo=-50, hi=50)
    t = num / den
    cs, sn = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
    x, y, a, b = [], [], 1.0, 0.0
    for _ in range(n):
        x.append(cx + R * a)
        y.append(cy + R * b if left else cy - R * b)
        a, b = a * cs - b * sn, a * sn + b * cs
    s, k, h = cartesian_to_curvilinear(ctx.array(x), ctx.array(y))
    chord = 2 * t / np.sqrt(1 + t * t)
    ctx.eq("circle:distance", s, R * chord * np.arange(n), tol=1e-6)
    ctx.eq("circle:curvature", (k * R)[2:-2], np.full(n - 4, 1.0 if left else -1.0), tol=1e-6)


def from_curvature(ctx, n):
    s = [ctx.real("s0", lo=-5, hi=5)]
    for i in range(n - 1):
        s.append(s[-1] + ctx.real(f"ds{i}", lo=0.1, hi=3))
    s = ctx.array(s)
    k, x0, y0, h0 = ctx.vec("k", n, lo=-1, hi=1), *(ctx.real(v, lo=-3, hi=3) for v in ("x0", "y0", "h0"))
    x, y, h = curvilinear_to_cartesian(s, k, x0=x0, y0=y0, heading0=h0)
    ctx.eq("start", [x[0], y[0], h[0]], [x0, y0, h0])
    for i in range(n - 1):
        ds = s[i + 1] - s[i]
        ctx.eq("heading", h[i + 1] - h[i], ds * (k[i] + k[i + 1]) / 2, tol=1e-6)
        ctx.eq("along-mean-direction", [x[i + 1] - x[i], y[i + 1] - y[i]],
               [ds * (np.cos(h[i]) + np.cos(h[i + 1])) / 2, ds * (np.sin(h[i]) + np.sin(h[i + 1])) / 2], tol=1e-6)
    xs, ys, hs = curvilinear_to_cartesian(s, np.zeros(n), x0=x0, y0=y0, heading0=h0)
    d = s - s[0]
    ctx.eq("straight", [*xs, *ys, *hs], [*(x0 + d * np.cos(h0)), *(y0 + d * np.sin(h0)), *([h0] * n)], tol=1e-6)


def lookup(ctx, n, maker):
    """the four look-ups at every distance"""
    s = [ctx.real("s0", lo=-5, hi=5)]
    for i in range(n - 1):
        s.append(s[-1] + ctx.real(f"ds{i}", lo=0.1, hi=3))
    s = ctx.array(s)
    left, right = ctx.vec("left", n, lo=0.5, hi=9), ctx.vec("right", n, lo=0.5, hi=9)
    k = ctx.vec("k", n, lo=-0.05, hi=0.05)
    if maker == "direct":
        h = ctx.vec("h", n, lo=-3, hi=3)
        t = RaceTrack(x=ctx.vec("x", n), y=ctx.vec("y", n), s=s, curvature=k, heading=h, left_distance=left, right_distance=right)
    elif maker == "curvilinear":
        h0 = ctx.real("h0", lo=-3, hi=3)
        t = RaceTrack.from_curvilinear(s, k, heading0=h0, left_distance=left, right_distance=right)
        h = ctx.array(curvilinear_to_cartesian(s, k, heading0=h0)[2])
    else:
        t = RaceTrack.from_curvilinear(s, k)
        h = ctx.array(curvilinear_to_cartesian(s, k)[2])
        left = right = np.full(n, 5.0)
    d = s - s[0]
    ctx.eq("total-distance", t.total_distance, d[-1])
    at = dict(curvature=(t.curvature_at, k), heading=(t.heading_at, h), left=(t.left_distance_at, left), right=(t.right_distance_at, right))
    for name, (f, v) in at.items():
        ctx.eq(name + ":nodes", f(d), v, tol=1e-6)
        r = ctx.real("share." + name, lo=0, hi=1)
        for i in range(n - 1):
            p = d[i] + r * (d[i + 1] - d[i])
            ctx.eq(name + ":between", f(p), v[i] + r * (v[i + 1] - v[i]), tol=1e-6)
        ctx.eq(name + ":outside", [f(d[0] - r), f(d[-1] + r)], [v[0], v[-1]], tol=1e-6)


PTS = ((0.0, 0.0), (3.0, 1.0), (5.0, 4.0), (4.0, 7.0), (1.0, 8.0))


def widths(ctx, n, order):
    """a track file: which column is what (widths symbolic, the line a fixed bend)"""
    import pandas as pd
    left, right = ctx.vec("left", n, lo=0.5, hi=4), ctx.vec("right", n, lo=0.5, hi=4)
    x, y = np.array([p[0] for p in PTS[:n]]), np.array([p[1] for p in PTS[:n]])
    s, k, h = cartesian_to_curvilinear(x, y)
    for i in range(n):  # the line is drivable: its boundaries do not fold
        ctx.assume(k[i] * left[i] < 1)
        ctx.assume(-k[i] * right[i] < 1)
    cols = {"# x_m": x, "y_m": y, "w_tr_right_m": right, "w_tr_left_m": left}
    frame = pd.DataFrame({c: cols[c] for c in order})
    real = pd.read_csv
    pd.read_csv = lambda f, *a, **kw: frame
    try:
        t = RaceTrack.from_tum_csv("track.csv")
    finally:
        pd.read_csv = real
    ctx.eq("total-distance", t.total_distance, s[-1])
    ctx.eq("curvature", t.curvature_at(s), k)
    ctx.eq("heading", t.heading_at(s), h)
    ctx.eq("left", t.left_distance_at(s), left)
    ctx.eq("right", t.right_distance_at(s), right)
    u = RaceTrack.from_cartesian(x, y, left_distance=left, right_distance=right)
    ctx.eq("from-points", [*u.curvature_at(s), *u.heading_at(s), *u.left_distance_at(s), *u.right_distance_at(s)], [*k, *h, *left, *right])


def text(ctx, order):
    """the same through a real file"""
    num = {"# x_m": [p[0] for p in PTS], "y_m": [p[1] for p in PTS], "w_tr_right_m": [1.5, 2.5, 3.5, 1.25, 2.0], "w_tr_left_m": [1.0, 2.0, 3.0, 0.5, 0.75]}
    fd, path = tempfile.mkstemp(suffix=".csv")
    try:
        with os.fdopen(fd, "w") as f:
            f.write(",".join(order) + "\n")
            for i in range(len(PTS)):
                f.write(",".join(repr(num[c][i]) for c in order) + "\n")
        t = RaceTrack.from_tum_csv(path)
    finally:
        os.remove(path)
    s, k, h = cartesian_to_curvilinear(np.array(num["# x_m"]), np.array(num["y_m"]))
    ctx.eq("file", [*t.curvature_at(s), *t.heading_at(s), *t.left_distance_at(s), *t.right_distance_at(s)],
           [*k, *h, *num["w_tr_left_m"], *num["w_tr_right_m"]])


def constant(ctx):
    k, h0, w, s = (ctx.real(n, lo=lo, hi=hi) for n, lo, hi in (("k", -1, 1), ("h0", -3, 3), ("w", 0.5, 9), ("s", -100, 100)))
    t = ConstCurvTrack(curvature=k, start_heading=h0, half_width=w)
    ctx.eq("constant", [t.curvature_at(s), t.heading_at(s), t.left_distance_at(s), t.right_distance_at(s)], [k, h0 + k * s, w, w])


def tasks(tier):
    th = tier == "thorough"
    out = []
    for n in (3, 4, 5) + ((6,) if th else ()):
        out.append(dict(name=f"basics-{n}", harness="basics", params=dict(n=n)))
        for kind in ("translate", "mirror", "scale", "reverse"):
            if n <= (5 if th else 4):
                out.append(dict(name=f"{kind}-{n}", harness="transforms", params=dict(n=n, kind=kind), cost=10))
        if n == 3 or th and n == 4:
            out.append(dict(name=f"rotate-{n}", harness="transforms", params=dict(n=n, kind="rotate"), cost=40 * n))
        if n <= (5 if th else 4):
            for name, turn in (("quarter", (0.0, 1.0)), ("back", (-1.0, 0.0)), ("oblique", (-0.6, 0.8)), ("right", (0.28, -0.96))):
                out.append(dict(name=f"rotate-{name}-{n}", harness="transforms", params=dict(n=n, kind="rotate", turn=turn), cost=10))
        out.append(dict(name=f"straight-{n}", harness="straight", params=dict(n=n)))
        out.append(dict(name=f"from-curvature-{n}", harness="from_curvature", params=dict(n=n)))
    for num, den in ((1, 2), (1, 5), (3, 4), (1, 20)):
        for left in (True, False):
            out.append(dict(name=f"circle-{num}/{den}-{'left' if left else 'right'}", harness="circle",
                            params=dict(n=7, num=num, den=den, left=left)))
    for maker in ("direct", "curvilinear", "default"):
        for n in (2, 3) + ((4,) if th else ()):
            out.append(dict(name=f"lookup-{maker}-{n}", harness="lookup", params=dict(n=n, maker=maker), cost=5))
    c = ("# x_m", "y_m", "w_tr_right_m", "w_tr_left_m")
    for i, order in enumerate((c, c[::-1], (c[2], c[0], c[3], c[1]))):
        out.append(dict(name=f"columns-{i}", harness="widths", params=dict(n=4, order=order)))
        out.append(dict(name=f"file-{i}", harness="text", params=dict(order=order)))
    out.append(dict(name="constant", harness="constant", params={}))
    return out
