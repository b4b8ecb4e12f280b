"""Tyre models: for every slip, load, camber, speed and coefficient set the forces and moments are those of the
published formula (MF 5.2 / MF-Tyre manual; Perantoni & Limebeer appendix), written here a second time from the
publications; symmetry, zero slip, grip limits and the meaning of the reported stiffnesses follow for all values."""
import numpy as np

from . import backend_common as B
from lumos.models.tires.pacejka import MF52
from lumos.models.tires.perantoni import PerantoniTire

BOUNDS = ("slips in [-0.9, 0.9], camber in [-0.25, 0.25], load in [50, 20000], speed in [1, 90] symbolic; every coefficient symbolic "
          "within 0.8..1.25 of its default (0.05 around zero); the Perantoni peaks decrease with load as in the publication; "
          "forward running only (as the implementation documents)")


def _inputs(ctx, **fixed):
    lim = dict(Fz=(50, 20000), kappa=(-0.9, 0.9), alpha=(-0.9, 0.9), vx=(1, 90), gamma=(-0.25, 0.25))
    return {k: fixed[k] if k in fixed else ctx.real(k, lo=lo, hi=hi) for k, (lo, hi) in lim.items()}


def _model(ctx, cls, zero=(), **kw):
    m = cls(**kw)
    t = B.params(ctx, m, keep=("FILE_VERSION",))
    for k in zero:
        t.set_param(k, 0.0)
    m.set_recursive_params(t)
    return m, {k: t.get_param(k) for k in cls.get_default_params()}


def _sin_magic(x, B_, C, E):
    return np.sin(C * np.arctan((1 - E) * B_ * x + E * np.arctan(B_ * x)))


def _cos_magic(x, B_, C, E):
    return np.cos(C * np.arctan((1 - E) * B_ * x + E * np.arctan(B_ * x)))


def _sign(ctx, x):
    return ctx.ite(x > 0, 1.0, ctx.ite(x < 0, -1.0, 0.0))


def _mf52(ctx, p, i, got=None):
    """MF-Tyre 5.2, steady state, no turn slip; -> dict.  The moments are functions of forces and stiffnesses that
    are compared first; `got`: what the moments are then computed from"""
    k, a, g, Fz, v = i["kappa"], i["alpha"], i["gamma"], i["Fz"], i["vx"]
    Fz0, R0 = p["FNOMIN"], p["UNLOADED_RADIUS"]
    N = p["LFZO"] * Fz0
    df = (Fz - N) / N
    # longitudinal, pure
    Cx = p["PCX1"] * p["LCX"]
    mux = (p["PDX1"] + p["PDX2"] * df) * (1 - p["PDX3"] * g * g) * p["LMUX"]
    Dx = mux * Fz
    Kx = Fz * (p["PKX1"] + p["PKX2"] * df) * np.exp(p["PKX3"] * df) * p["LKX"]
    Bx = Kx / (Cx * Dx + p["epsilonx"] * _sign(ctx, Dx))
    Shx, Svx = (p["PHX1"] + p["PHX2"] * df) * p["LHX"], Fz * (p["PVX1"] + p["PVX2"] * df) * p["LVX"] * p["LMUX"]
    kx = k + Shx
    Ex = ctx.min((p["PEX1"] + p["PEX2"] * df + p["PEX3"] * df * df) * (1 - p["PEX4"] * _sign(ctx, kx)) * p["LEX"], 1.0)
    Fx0 = Dx * _sin_magic(kx, Bx, Cx, Ex) + Svx
    # longitudinal, combined
    Bxa = p["RBX1"] * np.cos(np.arctan(p["RBX2"] * k)) * p["LXAL"]
    Exa = ctx.min(p["REX1"] + p["REX2"] * df, 1.0)
    Gxa = _cos_magic(a + p["RHX1"], Bxa, p["RCX1"], Exa) / _cos_magic(p["RHX1"], Bxa, p["RCX1"], Exa)
    Fx = Gxa * Fx0
    # lateral, pure
    Ky = p["PKY1"] * N * np.sin(2 * np.arctan(Fz / (p["PKY2"] * N))) * (1 - p["PKY3"] * abs(g)) * p["LKY"]
    Svyg = Fz * (p["PVY3"] + p["PVY4"] * df) * g * p["LMUY"]
    Shy = (p["PHY1"] + p["PHY2"] * df) * p["LHY"] + p["PHY3"] * g
    Svy = Fz * (p["PVY1"] + p["PVY2"] * df) * p["LVY"] * p["LMUY"] + Svyg
    ay = a + Shy
    Cy = p["PCY1"] * p["LCY"]
    muy = (p["PDY1"] + p["PDY2"] * df) * (1 - p["PDY3"] * g * g) * p["LMUY"]
    Dy = muy * Fz
    Ey = ctx.min((p["PEY1"] + p["PEY2"] * df) * (1 - (p["PEY3"] + p["PEY4"] * g) * _sign(ctx, ay)) * p["LEY"], 1.0)
    By = Ky / (Cy * Dy + p["epsilony"] * _sign(ctx, Dy))
    Fy0 = Dy * _sin_magic(ay, By, Cy, Ey) + Svy
    # lateral, combined
    Svyk = (muy * Fz * (p["RVY1"] + p["RVY2"] * df + p["RVY3"] * g) * np.cos(np.arctan(p["RVY4"] * a))
            * np.sin(p["RVY5"] * np.arctan(p["RVY6"] * k)) * p["LVYKA"])
    Byk = p["RBY1"] * np.cos(np.arctan(p["RBY2"] * (a - p["RBY3"]))) * p["LYKA"]
    Eyk = ctx.min(p["REY1"] + p["REY2"] * df, 1.0)
    Shyk = p["RHY1"] + p["RHY2"] * df
    Gyk = _cos_magic(k + Shyk, Byk, p["RCY1"], Eyk) / _cos_magic(Shyk, Byk, p["RCY1"], Eyk)
    Fy = Gyk * Fy0 + Svyk
    out = dict(Fx=Fx, Fy=Fy, Kxk=Kx, Gxa=Gxa, Kya=Ky, Gyk=Gyk, GSum=np.sqrt(Gyk * Gyk + Gxa * Gxa))
    # moments
    if got:
        Fx, Fy, Kx, Ky = (got[k] for k in ("Fx", "Fy", "Kxk", "Kya"))
    out["Mx"] = R0 * Fz * p["LMX"] * (p["QSX1"] * p["LVMX"] - p["QSX2"] * g + p["QSX3"] * Fy / Fz0)
    out["My"] = -R0 * Fz * p["LMY"] * (p["QSY1"] + p["QSY2"] * Fx / Fz0 + p["QSY3"] * v / p["LONGVL"] + p["QSY4"] * (v / p["LONGVL"]) ** 4)
    Kyp = Ky + p["epsilonk"] * _sign(ctx, Ky)
    at, ar = a + p["QHZ1"] + p["QHZ2"] * df + (p["QHZ3"] + p["QHZ4"] * df) * g, a + Shy + Svy / Kyp
    ateq, areq = (np.arctan(np.sqrt(np.tan(x) ** 2 + (Kx / Kyp) ** 2 * k * k)) * _sign(ctx, x) for x in (at, ar))
    Dt = Fz * R0 / N * (p["QDZ1"] + p["QDZ2"] * df) * (1 + p["QDZ3"] * g + p["QDZ4"] * g * g) * p["LTR"]
    Bt = (p["QBZ1"] + p["QBZ2"] * df + p["QBZ3"] * df * df) * (1 + p["QBZ4"] * g + p["QBZ5"] * abs(g)) * p["LKY"] / p["LMUY"]
    Ct = p["QCZ1"]
    Et = (p["QEZ1"] + p["QEZ2"] * df + p["QEZ3"] * df * df) * (1 + (p["QEZ4"] + p["QEZ5"] * g) * (2 / np.pi) * np.arctan(Bt * Ct * at))
    vs = np.tan(a) * v
    cosa = v / (np.sqrt(v * v + vs * vs) + p["epsilonv"])
    trail = p["LFZO"] * Dt * _cos_magic(ateq, Bt, Ct, Et) * np.cos(np.arccos(cosa))
    Br = p["QBZ9"] * p["LKY"] / p["LMUY"] + p["QBZ10"] * By * Cy
    Dr = Fz * R0 * ((p["QDZ6"] + p["QDZ7"] * df) * p["LRES"] + (p["QDZ8"] + p["QDZ9"] * df) * g) * p["LMUY"] * np.cos(a)
    s = R0 * (p["SSZ1"] + p["SSZ2"] * Fy / Fz0 + (p["SSZ3"] + p["SSZ4"] * df) * g) * p["LS"]
    out["Mz"] = -trail * (Fy - Svyk) + Dr * np.cos(np.arctan(Br * areq)) + s * Fx
    return out


def mf52(ctx, opt_mode, region):
    fixed = dict(upright=dict(gamma=0.0), zero=dict(gamma=0.0, kappa=0.0, alpha=0.0), full={}).get(region, {})
    i = _inputs(ctx, **fixed)
    m, p = _model(ctx, MF52, opt_mode=opt_mode)
    if region in ("left", "right"):
        ctx.assume(i["gamma"] > 0 if region == "left" else i["gamma"] < 0)
    o = m.forward(i).outputs
    want = _mf52(ctx, p, i, o)
    for k in ("Kxk", "Kya", "Gxa", "Gyk", "GSum", "Fx", "Fy"):
        ctx.eq(k, o[k], want[k], tol=1e-5)
    for k in ("Mx", "My", "Mz"):
        ctx.eq(k, o[k], 0.0 if opt_mode else want[k], tol=1e-5)


def perantoni(ctx):
    i = _inputs(ctx)
    m, p = _model(ctx, PerantoniTire)
    o = m.forward(i).outputs
    at = lambda a, b: p[a] + (p[b] - p[a]) * (i["Fz"] - p["Fz1"]) / (p["Fz2"] - p["Fz1"])
    ctx.assume(at("kappa1", "kappa2") > 0.01)
    ctx.assume(at("alpha1", "alpha2") > 0.01)
    kn, an = i["kappa"] / at("kappa1", "kappa2"), i["alpha"] / at("alpha1", "alpha2")
    rho = np.sqrt(kn * kn + an * an + 1e-6)
    f = lambda Q: np.sin(Q * np.arctan(np.pi / (2 * np.arctan(Q)) * rho))
    ctx.eq("Fx", o["Fx"], at("mux1", "mux2") * f(p["Qx"]) * i["Fz"] * kn / rho, tol=1e-6)
    ctx.eq("Fy", o["Fy"], -at("muy1", "muy2") * f(p["Qy"]) * i["Fz"] * an / rho, tol=1e-6)
    ctx.eq("moments", [o["Mx"], o["My"], o["Mz"]], [0.0, 0.0, 0.0])


def perantoni_laws(ctx):
    i = _inputs(ctx)
    m, p = _model(ctx, PerantoniTire)
    mu = {}
    for d in "xy":
        mu[d] = p[f"mu{d}1"] + (p[f"mu{d}2"] - p[f"mu{d}1"]) * (i["Fz"] - p["Fz1"]) / (p["Fz2"] - p["Fz1"])
        ctx.assume(mu[d] > 0.1)
    peak = {s: p[s + "1"] + (p[s + "2"] - p[s + "1"]) * (i["Fz"] - p["Fz1"]) / (p["Fz2"] - p["Fz1"]) for s in ("kappa", "alpha")}
    for v in peak.values():
        ctx.assume(v > 0.01)
    o = m.forward(i).outputs
    flip = m.forward({**i, "kappa": -i["kappa"]}).outputs
    ctx.eq("odd-in-slip-ratio", [flip["Fx"], flip["Fy"]], [-o["Fx"], o["Fy"]], tol=1e-6)
    flip = m.forward({**i, "alpha": -i["alpha"]}).outputs
    ctx.eq("odd-in-slip-angle", [flip["Fx"], flip["Fy"]], [o["Fx"], -o["Fy"]], tol=1e-6)
    for k, v in (("vx", ctx.real("vx2", lo=1, hi=90)), ("gamma", ctx.real("gamma2", lo=-0.25, hi=0.25))):
        flip = m.forward({**i, k: v}).outputs
        ctx.eq("independent-of-" + k, [flip["Fx"], flip["Fy"]], [o["Fx"], o["Fy"]])
    zero = m.forward({**i, "kappa": 0.0, "alpha": 0.0}).outputs
    ctx.eq("no-slip-no-force", [zero["Fx"], zero["Fy"]], [0.0, 0.0])


def perantoni_ellipse(ctx):
    """no slip ever asks for more than the friction ellipse; slips are measured in peak slips, the friction at
    the present load (not at reference load 2) is the free parameter"""
    m, p = _model(ctx, PerantoniTire)
    load = ctx.real("relative load", lo=-0.25, hi=3, nonzero=True)
    tree = m.get_recursive_params()
    mu, peak = {}, {}
    for n, store, lo, hi in (("mux", mu, 0.1, 3), ("muy", mu, 0.1, 3), ("kappa", peak, 0.01, 0.5), ("alpha", peak, 0.01, 0.5)):
        store[n] = ctx.real(n + " at load", lo=lo, hi=hi)
        tree.set_param(n + "2", p[n + "1"] + (store[n] - p[n + "1"]) / load)
    m.set_recursive_params(tree)
    kn, an, Fz = ctx.real("kn", lo=-5, hi=5), ctx.real("an", lo=-5, hi=5), p["Fz1"] + load * (p["Fz2"] - p["Fz1"])
    ctx.assume(Fz > 50)
    o = m.forward(dict(Fz=Fz, kappa=kn * peak["kappa"], alpha=an * peak["alpha"], vx=30.0, gamma=0.0)).outputs
    fx, fy = o["Fx"] / (mu["mux"] * Fz), o["Fy"] / (mu["muy"] * Fz)
    ctx.le("ellipse", (fx * fx + fy * fy) * (kn * kn + an * an + 1e-6), (kn * kn + an * an + 1e-6) * (1 + 1e-9))


SHIFTS = ("LHX", "LVX", "LHY", "LVY", "LVYKA", "RHX1", "RHY1", "RHY2", "PEX4", "PEY3", "RBY3", "PHY3")


def mf52_laws(ctx):
    """without shifts and camber the tyre is symmetric; with them zero slip still has no combined-slip effect"""
    i = _inputs(ctx, gamma=0.0)
    m, p = _model(ctx, MF52, zero=SHIFTS)
    o = m.forward(i).outputs
    ctx.eq("combined-total", o["GSum"] * o["GSum"], o["Gxa"] * o["Gxa"] + o["Gyk"] * o["Gyk"], tol=1e-6)
    z = m.forward({**i, "kappa": 0.0, "alpha": 0.0}).outputs
    ctx.eq("no-slip-no-force", [z["Fx"], z["Fy"]], [0.0, 0.0])
    ctx.eq("no-slip-no-reduction", [z["Gxa"], z["Gyk"]], [1.0, 1.0])
    for s, odd in (("kappa", "Fx"), ("alpha", "Fy")):
        f = m.forward({**i, s: -i[s]}).outputs
        for k in ("Fx", "Fy"):
            ctx.eq(f"mirror-{s}:{k}", f[k], -o[k] if k == odd else o[k], tol=1e-5)
    f = m.forward({**i, "vx": ctx.real("vx2", lo=1, hi=90)}).outputs
    ctx.eq("no-speed-effect", [f["Fx"], f["Fy"]], [o["Fx"], o["Fy"]])


def mf52_limits(ctx):
    """pure longitudinal (lateral) force never exceeds friction plus shift (the friction coefficient at the present
    load and camber is the free parameter); reductions are 1 without the other slip"""
    m, p = _model(ctx, MF52)
    i = _inputs(ctx)
    N = p["LFZO"] * p["FNOMIN"]
    df = (i["Fz"] - N) / N
    g = i["gamma"]
    tree, mu = m.get_recursive_params(), {}
    for d in "XY":
        mu[d] = ctx.real("mu" + d, lo=0.1, hi=3)
        tree.set_param(f"PD{d}1", mu[d] / p["LMU" + d] / (1 - p[f"PD{d}3"] * g * g) - p[f"PD{d}2"] * df)
    m.set_recursive_params(tree)
    o = m.forward({**i, "alpha": 0.0}).outputs
    ctx.eq("no-reduction-x", o["Gxa"], 1.0)
    S = i["Fz"] * (p["PVX1"] + p["PVX2"] * df) * p["LVX"] * p["LMUX"]
    used = (o["Fx"] - S) / (mu["X"] * i["Fz"])
    ctx.le("friction-x", used, 1 + 1e-9)
    ctx.le("friction-x", -1 - 1e-9, used)
    o = m.forward({**i, "kappa": 0.0}).outputs
    ctx.eq("no-reduction-y", o["Gyk"], 1.0)
    S = i["Fz"] * ((p["PVY1"] + p["PVY2"] * df) * p["LVY"] + (p["PVY3"] + p["PVY4"] * df) * g) * p["LMUY"]
    used = (o["Fy"] - S) / (mu["Y"] * i["Fz"])
    ctx.le("friction-y", used, 1 + 1e-9)
    ctx.le("friction-y", -1 - 1e-9, used)


def tasks(tier):
    out = []
    for opt in (True, False):
        for region in ("full", "upright", "zero", "left", "right"):
            out.append(dict(name=f"mf52-{'forces' if opt else 'moments'}-{region}", harness="mf52",
                            params=dict(opt_mode=opt, region=region), cost=20))
    out += [dict(name="perantoni", harness="perantoni", params={}),
            dict(name="perantoni-laws", harness="perantoni_laws", params={}),
            dict(name="perantoni-ellipse", harness="perantoni_ellipse", params={}),
            dict(name="mf52-laws", harness="mf52_laws", params={}, cost=20),
            dict(name="mf52-limits", harness="mf52_limits", params={}, cost=20)]
    return out
