"""Batched maps: lmap and cmap give, for every content of the batch, the stack of applying the function to
each element, with any mix of mapped and shared arguments (scalars, vectors, matrices, trees), one or
several results, batches of one, and batch sizes changing from call to call; sparse results keep the
column-major order of the non-zeros of each element; overlapping windows of batch_conv1d hold the entries
they stand for.  casadi functions are read back as terms."""
import itertools
from collections import namedtuple

import casadi as cas
import numpy as np

import lumos.numpy as lnp
from lumos.optimal_control.utils import batch_conv1d
from symx import backends
from symx.npshim import real_numpy

BOUNDS = ("functions of 1..3 arguments (scalars, vectors of 2..3, a 2x2 matrix or tree where shared), every pattern of mapped "
          "and shared ones, 1..2 results, batches of 1..3, sequences of 3 batch sizes with new arrays or the former ones filled anew, arrays in C or Fortran order or strided, whole and fractional results mixed; windows of width 2..5 over up to 11 "
          "entries of vectors and matrices; contents unbounded")

Pair = namedtuple("Pair", "first second")


def _fn(kinds, result, tile):
    """a function of arguments of these kinds: every result depends on every argument differently"""
    def f(*args):
        flat = []
        for k, a in zip(kinds, args):
            if k == "tree":
                a = [a["u"], a["w"][0], a["w"][1]]
                flat += a
            elif k == "scalar":
                flat.append(a)
            elif k == "vector":
                flat += [a[0], a[1]]
            else:
                flat += [a[0][0], a[0][1], a[1][0], a[1][1]]
        s = sum((i + 1) * v for i, v in enumerate(flat))
        q = flat[0] * flat[-1] + sum(v * v * (i + 2) for i, v in enumerate(flat[1:]))
        r = tile([s, q, s * q])
        if result == "array":
            return r
        if result == "scalar":
            return s * q + flat[0]
        if result == "tuple":
            return r, tile([q, s - q])
        return Pair(tile([q - s, 2 * s]), r)
    return f


def _arg(ctx, name, kind, batch):
    """batch None: one value"""
    shape = {"scalar": (), "vector": (2,), "matrix": (2, 2), "tree": None}[kind]
    if kind == "tree":
        return {"u": ctx.real(name + ".u"), "w": ctx.vec(name + ".w", 2)}
    shape = shape if batch is None else (batch,) + shape
    v = np.empty(shape, dtype=object if ctx.symbolic else float)
    for i in np.ndindex(*shape):
        v[i] = ctx.real(f"{name}{list(i)}")
    return v if shape else v.item()


def _args(ctx, c, kinds, pattern, n, former):
    """the arguments of call c: new arrays, or the arrays of the former call with other contents"""
    args = [_arg(ctx, f"c{c}a{i}", k, None if m is None else n) for i, (k, m) in enumerate(zip(kinds, pattern))]
    if former is not None and ctx.choice(f"same-arrays{c}", [False, True]):
        for i, (a, old) in enumerate(zip(args, former)):
            if isinstance(a, dict):
                old.update(a)
                args[i] = old
            elif isinstance(a, np.ndarray) and a.shape == np.shape(old):
                old[...] = a
                args[i] = old
    for i, a in enumerate(args):
        if isinstance(a, np.ndarray) and a.ndim > 1:
            order = ctx.choice(f"order{c}", ["C", "F", "strided"]) if former is None else "C"
            if order == "F":
                args[i] = np.asfortranarray(a)
            elif order == "strided":
                b = np.empty((2 * a.shape[0],) + a.shape[1:], dtype=a.dtype)
                b[...] = a[0]
                b[::2] = a
                args[i] = b[::2]
    return args


def _copy(args):
    return [({k: (np.array(v) if isinstance(v, np.ndarray) else v) for k, v in a.items()} if isinstance(a, dict)
             else np.array(a) if isinstance(a, np.ndarray) else a) for a in args]


def _unchanged(ctx, args, keep):
    for a, k in zip(args, keep):
        for u, v in (zip(a.values(), k.values()) if isinstance(a, dict) else [(a, k)]):
            ctx.eq("arguments-unchanged", np.ravel(u), np.ravel(v))


def mixed(ctx, results):
    """results which are whole numbers for some elements and not for others"""
    n = ctx.choice("batch", [1, 2, 3])
    x = ctx.vec("x", n)
    whole = [ctx.choice(f"whole{i}", [True, False]) for i in range(n)]
    elements = [(i, v) for i, v in enumerate(x)]

    def f(i, v):
        a = np.array([1, 2]) if whole[int(i)] else ctx.array([v / 4, v + 1])
        b = 3 if whole[int(i)] else v * v
        return a if results == "array" else b if results == "scalar" else (a, b) if results == "tuple" else Pair(b, a)

    out = lnp.lmap(f, in_axes=[0, 0])(np.arange(n), x)
    for j, o in enumerate([out] if results in ("array", "scalar") else out):
        want = [f(i, v) for i, v in elements]
        want = np.stack(want) if results in ("array", "scalar") else np.stack([w[j] for w in want])
        ctx.check("shape", np.shape(o) == np.shape(want))
        ctx.eq("map", o, want)


def loop_map(ctx, kinds, pattern, result):
    f = _fn(kinds, result, ctx.array)
    spec = list(pattern)
    if None not in pattern and ctx.choice("short", [False, True]):
        spec = 0
    g = lnp.lmap(f, in_axes=spec) if spec != 0 or ctx.choice("explicit", [True, False]) else lnp.lmap(f)
    args = None
    for c in range(2):
        n = ctx.choice(f"batch{c}", [1, 2, 3])
        args = _args(ctx, c, kinds, pattern, n, args)
        keep = _copy(args)
        out = g(*args)
        _unchanged(ctx, args, keep)
        want = [f(*[a if m is None else a[k] for a, m in zip(args, pattern)]) for k in range(n)]
        if result in ("array", "scalar"):
            ctx.check("shape", np.shape(out) == np.shape(np.stack(want)))
            ctx.eq("map", out, np.stack(want))
        else:
            ctx.check("container", type(out) is (tuple if result == "tuple" else Pair) and len(out) == 2)
            for j in range(2):
                w = np.stack([x[j] for x in want])
                ctx.check("shape", np.shape(out[j]) == np.shape(w))
                ctx.eq("map", out[j], w)
    ctx.raises("refused:number-of-arguments", AssertionError, lambda: lnp.lmap(f, in_axes=list(pattern) + [0])(*args))


def casadi_map(ctx, kinds, pattern, result, sparse, kind):
    sizes = {"scalar": (1, 1), "vector": (2, 1)}
    with real_numpy():
        syms = [getattr(cas, kind).sym(f"a{i}", *sizes[k]) for i, k in enumerate(kinds)]
        f = _fn(kinds, result, lambda v: cas.vertcat(*v))
        raw = f(*[s if k == "vector" else s for s, k in zip(syms, kinds)])
        outs = list(raw) if isinstance(raw, tuple) else [raw]
        if sparse:
            # (rows of zeros in between, so that the pattern is not full)
            e = cas.vertcat(outs[0][0], 0, outs[0][1] * syms[0][0], syms[-1][0])
            outs = [cas.jacobian(e, cas.vertcat(*syms))]
        fn = cas.Function("fn", syms, outs)
    prog = backends.Program(fn) if ctx.symbolic else fn
    g = lnp.cmap(prog, in_axes=list(pattern) if None in pattern else ctx.choice("spec", [0, list(pattern)]), num_workers=2, sparse=sparse)
    args = None
    for c in range(3):
        n = ctx.choice(f"batch{c}", [1, 2, 3])
        args = _args(ctx, c, kinds, pattern, n, args)
        keep = _copy(args)
        got = g(*args)
        _unchanged(ctx, args, keep)
        one = []
        for b in range(n):
            vals = [np.reshape(a if m is None else a[b], sizes[k]) for a, m, k in zip(args, pattern, kinds)]
            r = prog(*[v if ctx.symbolic else cas.DM(v.astype(float)) for v in vals])
            one.append(r if isinstance(r, tuple) else (r,))
        if sparse:
            w = np.stack([np.asarray(r[0].nonzeros()) for r in one])
            ctx.check("shape", np.shape(got) == w.shape)
            ctx.eq("nonzeros", got, w)
            continue
        got = got if isinstance(got, tuple) else (got,)
        ctx.check("results", len(got) == len(outs))
        for j, o in enumerate(got):
            w = np.stack([np.asarray(r[j].full()).ravel() for r in one])
            ctx.check("shape", np.shape(o) == w.shape, f"{np.shape(o)} {w.shape}")
            ctx.eq("map", o, w)
    ctx.raises("refused:number-of-arguments", AssertionError, lambda: lnp.cmap(prog, in_axes=[0] * (len(kinds) + 1))(*args))


def windows(ctx, width, stride, batch, dim):
    n = width + stride * (batch - 1)
    x = ctx.vec("x", n) if dim is None else ctx.mat("x", (n, dim))
    was = lnp.get_backend()
    out = batch_conv1d(x, width, stride)
    ctx.check("backend", lnp.get_backend() == was)
    want = np.stack([x[k * stride:k * stride + width] for k in range(batch)])
    ctx.check("shape", np.shape(out) == want.shape)
    ctx.eq("windows", out, want)
    for extra in range(1, stride):
        y = ctx.vec("y", n + extra) if dim is None else ctx.mat("y", (n + extra, dim))
        ctx.raises("refused:not-divisible", ValueError, lambda: batch_conv1d(y, width, stride))


def tasks(tier):
    out = []
    kinds = [("scalar",), ("vector",), ("vector", "scalar"), ("scalar", "vector", "vector")]
    for ks in kinds:
        for pattern in itertools.product((0, None), repeat=len(ks)):
            if all(p is None for p in pattern):
                continue
            variants = {ks} | {tuple("tree" if p is None and i == j else k for j, (k, p) in enumerate(zip(ks, pattern))) for i in range(len(ks))} \
                | {tuple("matrix" if i == j else k for j, k in enumerate(ks)) for i in range(len(ks))}
            for v in sorted(variants):
                for result in ("array", "scalar", "tuple", "named"):
                    out.append(dict(name=f"loop-{'-'.join(v)}-{pattern}-{result}".replace(" ", ""), harness="loop_map",
                                    params=dict(kinds=v, pattern=pattern, result=result)))
            for result, sparse in (("array", False), ("tuple", False), ("array", True)):
                for kind in ("SX", "MX"):
                    out.append(dict(name=f"casadi-{'-'.join(ks)}-{pattern}-{result}-{sparse}-{kind}".replace(" ", ""), harness="casadi_map",
                                    params=dict(kinds=ks, pattern=pattern, result=result, sparse=sparse, kind=kind), cost=3))
    for result in ("array", "scalar", "tuple", "named"):
        out.append(dict(name=f"mixed-{result}", harness="mixed", params=dict(results=result)))
    for width in (2, 3, 4, 5):
        for stride in range((width + 1) // 2, width + 1):  # (windows overlapping by more than a stride are not offered)
            for batch in (1, 2, 3):
                for dim in (None, 2):
                    out.append(dict(name=f"windows-{width}-{stride}-{batch}-{dim}", harness="windows",
                                    params=dict(width=width, stride=stride, batch=batch, dim=dim)))
    return out
