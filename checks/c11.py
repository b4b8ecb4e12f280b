"""Stage-convolution helpers against their direct definition: windows of a stage sequence, stacked and
incremented index arrays, block-replicated sparsity patterns; the constraints built by convolving a unit
problem over the stages equal the unit problem applied to each stage with that stage's mesh point and
the current parameters, with the unit derivatives placed block by block."""
from collections import namedtuple

import numpy as np

from lumos.models.tree_utils import ParameterTree
from lumos.optimal_control.convolution import ConvConstraints
from lumos.optimal_control.nlp import MappedConstraints
from lumos.optimal_control.utils import (DecVarOperator, batch_conv1d, create_offset_structure, stack_and_increment)

from . import ocp_common as O

BOUNDS = ("windows of width 1..5 with stride 1..width over up to 4 (thorough 6) batches of 0-, 1- and 2-dimensional "
          "entries; index arrays up to 3 dimensions, 4 repeats, any axis; patterns of up to 4 entries, 1..4 blocks, "
          "symbolic offsets and entries; convolved problems over 2..7 stages, parameter changes in between")


def windows(ctx, batch, width, stride, unit):
    n = (batch - 1) * stride + width
    x = ctx.mat("x", (n,) + unit)
    y = batch_conv1d(x, width=width, stride=stride)
    exp = np.stack([x[i * stride:i * stride + width] for i in range(batch)])
    ctx.eq("windows", y, exp)
    if stride > 1:
        ctx.raises("not-divisible", ValueError, lambda: batch_conv1d(ctx.mat("z", (n + 1,) + unit), width, stride))


def stack(ctx, shape, axis, rep):
    x = ctx.mat("x", shape)
    inc = ctx.real("inc")
    y = stack_and_increment(x, axis, rep, inc)
    exp = np.stack([x + i * inc for i in range(rep)], axis=axis)
    ctx.eq("stacked", y, exp)
    xi = np.arange(int(np.prod(shape))).reshape(shape)
    yi = stack_and_increment(xi, axis=axis, num_repeat=rep, num_increment=3)
    ctx.eq("stacked-indices", yi, np.stack([xi + 3 * i for i in range(rep)], axis=axis))
    ctx.eq("input-unchanged", xi, np.arange(int(np.prod(shape))).reshape(shape))


def offset(ctx, size, blocks):
    r, c = ctx.vec("r", size), ctx.vec("c", size)
    ro, co = ctx.real("ro"), ctx.real("co")
    R, C = create_offset_structure(base_rows=r, base_cols=c, row_offset=ro, col_offset=co, num_blocks=blocks)
    ctx.eq("rows", R, np.concatenate([r + k * ro for k in range(blocks)]))
    ctx.eq("cols", C, np.concatenate([c + k * co for k in range(blocks)]))


def convolved(ctx, n, w, ncon, nv, glob):
    """unit problem: g_i(v, t, p) = p_i*v_i*v_{i+1} + t*v_0"""
    names = tuple(f"v{i}" for i in range(nv))
    tup = namedtuple("N", ["states"])(states=names)
    op = DecVarOperator(tup, n, w, ("states",), ("mesh_scale",)[:glob])
    ns = n * (w - 1) + 1

    def q(p, i):
        return (p.get_param(f"p{i}") if isinstance(p, ParameterTree) else p[f"p{i}"])

    def g(v, t, p):
        return np.array([q(p, i) * v[i % nv] * v[(i + 1) % nv] + t * v[0] for i in range(ncon)])

    def jac(v, t, p):
        out = []
        for i in range(ncon):
            a, b = i % nv, (i + 1) % nv
            row = [0.0] * nv
            row[a] = row[a] + q(p, i) * v[b]
            row[b] = row[b] + q(p, i) * v[a]
            row[0] = row[0] + t
            out += row
        return np.array(out)

    def hess(v, lam, t, p):
        out = []
        for i in range(ncon):
            a, b = i % nv, (i + 1) % nv
            out.append(lam[i] * q(p, i) * (2.0 if a == b else 1.0))
        return np.array(out)
    hs = (np.array([min(i % nv, (i + 1) % nv) for i in range(ncon)]), np.array([max(i % nv, (i + 1) % nv)
                                                                            for i in range(ncon)]))
    js = (np.repeat(np.arange(ncon), nv), np.tile(np.arange(nv), ncon))
    unit = MappedConstraints(nv, ncon, g, jac, hess, js, hs)
    mesh = np.concatenate([[0.0], np.cumsum([ctx.real(f"dm{i}", lo=0.1, hi=1) for i in range(ns - 1)])])
    p1 = {f"p{i}": ctx.real(f"p{i}", lo=-2, hi=2) for i in range(ncon)}
    p2 = {f"p{i}": ctx.real(f"q{i}", lo=-2, hi=2) for i in range(ncon)}
    k = ctx.real("k", lo=0.1, hi=3)
    con = ConvConstraints(unit_problem=unit, dec_var_op=op, normalized_mesh=mesh,
                          mesh_scale_fn=(lambda x: x[-1]) if glob else (lambda x: k), params=ParameterTree(p1))
    N = op.num_dec
    x = ctx.vec("x", N, lo=-2, hi=2)
    lam = ctx.vec("lam", ns * ncon, lo=-2, hi=2)
    for rnd, p in (("first", p1), ("changed", p2)):
        if rnd == "changed":
            con.set_params(ParameterTree(p2))
        G, J, H = [], np.zeros((ns * ncon, N)), np.zeros((N, N))
        for s in range(ns):
            v, t = x[s * nv:(s + 1) * nv], mesh[s] * (x[N - 1] if glob else k)
            G.append(g(v, t, p))
            J[s * ncon:(s + 1) * ncon, s * nv:(s + 1) * nv] = jac(v, t, p).reshape(ncon, nv)
            h = hess(v, lam[s * ncon:(s + 1) * ncon], t, p)
            for r, c, val in zip(*hs, h):
                H[s * nv + r, s * nv + c] = H[s * nv + r, s * nv + c] + val
        ctx.check("num-con", con.num_con == ns * ncon and con.num_in == N)
        ctx.eq(rnd + ":values", con.constraints(x), np.concatenate(G))
        ctx.eq(rnd + ":jacobian", O.dense(*con.jacobianstructure(), con.jacobian(x), (ns * ncon, N)), J)
        ctx.eq(rnd + ":hessian", O.dense(*con.hessianstructure(), con.hessian(x, lam), (N, N)), H)
    ctx.raises("multiplier-length", ValueError, lambda: con.hessian(x, np.concatenate([lam, [1.0]])))


def tasks(tier):
    out = []
    B = (1, 2, 4) if tier == "quick" else (1, 2, 3, 4, 6)
    for width in range(1, 6):
        for stride in range(1, width + 1):
            if width - stride > stride:
                continue
            for b in B:
                for unit in ((), (2,), (2, 3)):
                    out.append(dict(name=f"windows-{b}-{width}-{stride}-{len(unit)}", harness="windows",
                                    params=dict(batch=b, width=width, stride=stride, unit=unit), cost=1))
    for shape in ((1,), (3,), (2, 3), (2, 1, 3)):
        for axis in range(-1, len(shape) + 1):
            for rep in (1, 2, 4):
                out.append(dict(name=f"stack-{shape}-{axis}-{rep}".replace(" ", ""), harness="stack",
                                params=dict(shape=shape, axis=axis, rep=rep), cost=1))
    for size in (1, 2, 4):
        for blocks in (1, 2, 4):
            out.append(dict(name=f"offset-{size}-{blocks}", harness="offset", params=dict(size=size, blocks=blocks), cost=1))
    for n, w in ((1, 2), (2, 2), (2, 3), (3, 3), (2, 4)):
        for ncon, nv in ((1, 1), (2, 3), (3, 2)):
            for glob in (0, 1):
                out.append(dict(name=f"convolved-{n}-{w}-{ncon}-{nv}-{glob}", harness="convolved",
                                params=dict(n=n, w=w, ncon=ncon, nv=nv, glob=glob), cost=5))
    return out
