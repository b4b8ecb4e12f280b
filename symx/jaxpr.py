"""jax programs: a function is traced by jax itself and the traced program (jaxpr) is executed on
arrays of terms, primitive by primitive."""
import jax
import numpy as np

from . import term as T

jax.config.update("jax_enable_x64", True)
_F1 = {"exp": "exp", "log": "log", "sqrt": "sqrt", "sin": "sin", "cos": "cos", "tan": "tan", "asin": "asin",
       "acos": "acos", "atan": "atan", "sinh": "sinh", "cosh": "cosh", "tanh": "tanh"}


def _obj(x):
    if isinstance(x, T.Sym):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    a = np.asarray(x)
    if a.dtype == object:
        return a
    o = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        o[i] = a[i].item()
    return o


def _map(f, *xs):
    xs = [np.asarray(x, dtype=object) for x in xs]
    sh = np.broadcast_shapes(*[x.shape for x in xs])
    xs = [np.broadcast_to(x, sh) for x in xs]
    out = np.empty(sh, dtype=object)
    for i in np.ndindex(*sh):
        out[i] = f(*[x[i] for x in xs])
    return out


def _concrete(x):
    return all(not isinstance(v, T.Sym) or v.op == "const" for v in np.ravel(x))


def _num(x, aval):
    o = np.empty(np.shape(x), dtype=object)
    for i in np.ndindex(*np.shape(x)):
        v = x[i]
        o[i] = v.args[0] if isinstance(v, T.Sym) else v
    return np.asarray(o.tolist() if o.shape else o.item(), dtype=aval.dtype)


def _L(x):
    return T.lift(x)


def _bool(x):
    return T.asbool(T.lift(x))


_ELT = {
    "add": lambda a, b: _L(a) + b, "add_any": lambda a, b: _L(a) + b, "sub": lambda a, b: _L(a) - b,
    "mul": lambda a, b: _L(a) * b, "neg": lambda a: -_L(a), "sign": lambda a: T.sign(a),
    "max": lambda a, b: T.smax(a, b), "min": lambda a, b: T.smin(a, b), "abs": lambda a: abs(_L(a)),
    "pow": lambda a, b: T.power(_L(a), _L(b)), "atan2": lambda a, b: T.fn("atan2", a, b),
    "lt": lambda a, b: T.lt(_L(a), _L(b)), "le": lambda a, b: T.le(_L(a), _L(b)), "gt": lambda a, b: T.gt(_L(a), _L(b)),
    "ge": lambda a, b: T.ge(_L(a), _L(b)), "eq": lambda a, b: T.eq(_L(a), _L(b)),
    "ne": lambda a, b: T.neg(T.eq(_L(a), _L(b))), "not": lambda a: T.neg(_bool(a)),
    "and": lambda a, b: T.and_(_bool(a), _bool(b)), "or": lambda a, b: T.or_(_bool(a), _bool(b)),
    "square": lambda a: _L(a) * a, "rsqrt": lambda a: T.div(T.C(1), T.fn("sqrt", a)),
    "log1p": lambda a: T.fn("log", 1 + _L(a)), "expm1": lambda a: T.fn("exp", a) - 1,
    "logistic": lambda a: T.div(T.C(1), T.C(1) + T.fn("exp", -_L(a))),
    "clamp": lambda lo, x, hi: T.smin(T.smax(x, lo), hi),
    "is_finite": lambda a: T.B(True), "stop_gradient": lambda a: a, "copy": lambda a: a, "copy_p": lambda a: a,
    "real": lambda a: a,
}
for _n, _f in _F1.items():
    _ELT[_n] = (lambda f: lambda a: T.fn(f, a))(_f)

_MOVE = {"broadcast_in_dim", "reshape", "transpose", "squeeze", "expand_dims", "slice", "dynamic_slice", "gather", "rev",
         "concatenate", "pad", "dynamic_update_slice", "scatter", "split"}
_INNER = {"pjit": "jaxpr", "custom_jvp_call": "call_jaxpr", "custom_vjp_call": "call_jaxpr", "closed_call": "call_jaxpr",
          "core_call": "call_jaxpr", "remat": "jaxpr", "checkpoint": "jaxpr", "custom_vjp_call_jaxpr": "fun_jaxpr",
          "custom_lin": "call_jaxpr", "xla_call": "call_jaxpr"}


def _move(eqn, ins):
    """pure data movement: run the real primitive on element numbers"""
    prim, p = eqn.primitive, eqn.params
    n_data = {"concatenate": len(ins), "pad": 2, "dynamic_update_slice": 2}.get(prim.name, 1)
    data = [0] if prim.name not in ("concatenate", "pad", "dynamic_update_slice", "scatter") else \
        ([0, 2] if prim.name == "scatter" else list(range(n_data)))
    pool, args = [], []
    for k, x in enumerate(ins):
        if k in data:
            args.append(np.arange(len(pool), len(pool) + x.size, dtype=np.int64).reshape(x.shape))
            pool.extend(np.ravel(x))
        else:
            if not _concrete(x):
                raise T.Unsupported("data-dependent indexing in " + prim.name)
            args.append(_num(x, eqn.invars[k].aval))
    if prim.name == "gather":
        p = dict(p, fill_value=-1) if "fill_value" in p else p
    res = prim.bind(*[jax.numpy.asarray(a) for a in args], **p)
    outs = []
    for r in (res if prim.multiple_results else [res]):
        r = np.asarray(r)
        o = np.empty(r.shape, dtype=object)
        for i in np.ndindex(*r.shape):
            if not 0 <= r[i] < len(pool):
                raise T.Unsupported("out-of-range element in " + prim.name)
            o[i] = pool[int(r[i])]
        outs.append(o)
    return outs


def _scatter_add(eqn, ins):
    op, idx, upd = ins
    if not _concrete(idx):
        raise T.Unsupported("data-dependent scatter")
    idx = jax.numpy.asarray(_num(idx, eqn.invars[1].aval))
    out = op.copy()
    flat = np.ravel(upd)
    zero = np.zeros(op.shape)
    for k, u in enumerate(flat):
        e = np.zeros(upd.size)
        e[k] = 1
        r = np.asarray(eqn.primitive.bind(jax.numpy.asarray(zero), idx, jax.numpy.asarray(e.reshape(upd.shape)), **eqn.params))
        for i in zip(*np.nonzero(r)):
            out[i] = _L(out[i]) + u
    return [out]


def _dot(eqn, a, b):
    (ca, cb), (ba, bb) = eqn.params["dimension_numbers"]
    fa = [d for d in range(a.ndim) if d not in ca and d not in ba]
    fb = [d for d in range(b.ndim) if d not in cb and d not in bb]
    A = np.transpose(a, list(ba) + fa + list(ca))
    Bm = np.transpose(b, list(bb) + fb + list(cb))
    shape = [a.shape[d] for d in ba] + [a.shape[d] for d in fa] + [b.shape[d] for d in fb]
    nb = int(np.prod([a.shape[d] for d in ba], dtype=int))
    na = int(np.prod([a.shape[d] for d in fa], dtype=int))
    nf = int(np.prod([b.shape[d] for d in fb], dtype=int))
    nc = int(np.prod([a.shape[d] for d in ca], dtype=int))
    A, Bm = A.reshape(nb, na, nc), Bm.reshape(nb, nf, nc)
    out = np.empty((nb, na, nf), dtype=object)
    for i in range(nb):
        for j in range(na):
            for k in range(nf):
                s = T.C(0)
                for c in range(nc):
                    s = s + _L(A[i, j, c]) * Bm[i, k, c]
                out[i, j, k] = s
    return out.reshape(shape)


def _reduce(f, x, axes, init):
    axes = tuple(axes)
    rest = [d for d in range(x.ndim) if d not in axes]
    y = np.transpose(x, rest + list(axes)).reshape([x.shape[d] for d in rest] + [-1])
    out = np.empty(y.shape[:-1], dtype=object)
    for i in np.ndindex(*out.shape):
        acc = init
        for v in y[i]:
            acc = v if acc is None else f(acc, v)
        out[i] = acc
    return out


def run(jaxpr, consts, args):
    env = {}

    def read(v):
        return _obj(v.val) if type(v).__name__ == "Literal" else env[v]
    for v, c in zip(jaxpr.constvars, consts):
        env[v] = _obj(c)
    for v, a in zip(jaxpr.invars, args):
        env[v] = np.asarray(a, dtype=object)
    for eqn in jaxpr.eqns:
        n, p = eqn.primitive.name, eqn.params
        ins = [read(v) for v in eqn.invars]
        if n in _INNER:
            j = p[_INNER[n]]
            if hasattr(j, "jaxpr"):
                outs = run(j.jaxpr, j.consts, ins)
            else:
                outs = run(j, [], ins)
        elif n in _ELT:
            outs = [_map(_ELT[n], *ins)]
        elif n == "div":
            if np.issubdtype(eqn.outvars[0].aval.dtype, np.integer):
                raise T.Unsupported("integer division")
            outs = [_map(lambda a, b: T.div(T.toreal(T._num(_L(a))), T.toreal(T._num(_L(b)))), *ins)]
        elif n == "integer_pow":
            outs = [_map(lambda a: _L(a) ** p["y"], *ins)]
        elif n == "select_n":
            c, cases = ins[0], ins[1:]
            if len(cases) != 2:
                raise T.Unsupported("select_n")
            outs = [_map(lambda k, a, b: T.ite(_bool(k), b, a), c, *cases)]
        elif n == "convert_element_type":
            src, dst = eqn.invars[0].aval.dtype, np.dtype(p["new_dtype"])
            x = ins[0]
            if dst == np.bool_:
                outs = [_map(lambda a: T.neg(T.eq(_L(a), T.C(0))) if src != np.bool_ else a, x)]
            elif src == np.bool_:
                outs = [_map(lambda a: T.ite(_bool(a), T.C(1), T.C(0)), x)]
            elif np.issubdtype(src, np.floating) and np.issubdtype(dst, np.integer):
                if not _concrete(x):
                    raise T.Unsupported("rounding to integers")
                outs = [_obj(_num(x, eqn.invars[0].aval).astype(dst))]
            else:
                outs = [x]
        elif n == "iota":
            outs = [_obj(np.asarray(eqn.primitive.bind(*[], **p)))]
        elif n == "scatter-add":
            outs = _scatter_add(eqn, ins)
        elif n in _MOVE:
            outs = _move(eqn, ins)
        elif n == "dot_general":
            outs = [_dot(eqn, *ins)]
        elif n == "reduce_sum":
            outs = [_reduce(lambda a, b: _L(a) + b, ins[0], p["axes"], T.C(0))]
        elif n == "reduce_prod":
            outs = [_reduce(lambda a, b: _L(a) * b, ins[0], p["axes"], T.C(1))]
        elif n == "reduce_max":
            outs = [_reduce(T.smax, ins[0], p["axes"], None)]
        elif n == "reduce_min":
            outs = [_reduce(T.smin, ins[0], p["axes"], None)]
        elif n == "reduce_and":
            outs = [_reduce(lambda a, b: T.and_(_bool(a), _bool(b)), ins[0], p["axes"], T.B(True))]
        elif n == "reduce_or":
            outs = [_reduce(lambda a, b: T.or_(_bool(a), _bool(b)), ins[0], p["axes"], T.B(False))]
        elif n == "cumsum":
            x = np.moveaxis(ins[0], p["axis"], 0)
            o = np.empty(x.shape, dtype=object)
            acc = None
            order = range(len(x) - 1, -1, -1) if p.get("reverse") else range(len(x))
            for i in order:
                acc = x[i] if acc is None else _map(lambda a, b: _L(a) + b, acc, x[i])
                o[i] = acc
            outs = [np.moveaxis(o, 0, p["axis"])]
        elif all(_concrete(x) for x in ins):
            r = eqn.primitive.bind(*[jax.numpy.asarray(_num(x, v.aval)) for x, v in zip(ins, eqn.invars)], **p)
            outs = [_obj(np.asarray(x)) for x in (r if eqn.primitive.multiple_results else [r])]
        else:
            raise T.Unsupported("jax primitive " + n)
        for v, o in zip(eqn.outvars, outs):
            env[v] = o if isinstance(o, np.ndarray) else np.asarray(o, dtype=object)
    return [read(v) for v in jaxpr.outvars]


def trace(f, *args):
    """-> evaluator of the traced program of f on the flattened leaves of arguments of that signature"""
    from . import npshim
    leaves, tree = jax.tree_util.tree_flatten(list(args))
    shapes = [np.shape(x) for x in leaves]
    trees = []

    def g(*ls):
        r = f(*jax.tree_util.tree_unflatten(tree, list(ls)))
        out, tr = jax.tree_util.tree_flatten(r)
        trees.append(tr)
        return out
    npshim._OFF[0] += 1  # jax's own use of numpy must not see symbolic allocation
    try:
        with npshim.real_numpy():
            closed = jax.make_jaxpr(g)(*[jax.numpy.asarray(np.full(s, 0.5)) for s in shapes])
    finally:
        npshim._OFF[0] -= 1

    def ev(values):
        npshim._OFF[0] += 1
        try:
            with npshim.real_numpy():
                outs = run(closed.jaxpr, closed.consts, [_obj(x) for x in values])
        finally:
            npshim._OFF[0] -= 1
        return jax.tree_util.tree_unflatten(trees[-1], [o if o.shape else o.item() for o in outs])
    return ev


def call(ctx, f, *args):
    """f(*args): by jax on numbers, or the traced program of f on terms.  Arguments and results may be
    nested containers of arrays."""
    leaves, tree = jax.tree_util.tree_flatten(list(args))
    if not ctx.symbolic:
        r = f(*jax.tree_util.tree_unflatten(tree, [np.asarray(x, dtype=float) for x in leaves]))
        return jax.tree_util.tree_map(lambda v: np.asarray(v), r)
    return trace(f, *args)(leaves)
