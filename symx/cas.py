"""casadi expression graphs, read back instruction by instruction as terms.

A casadi Function is what the casadi layer of lumos produces; `call` evaluates it either by casadi
itself (concrete runs) or by translating its (expanded, scalar) instruction list into terms."""
import casadi as cas
import numpy as np

from . import term as T

_OPS = {getattr(cas, n): n[3:] for n in dir(cas) if n.startswith("OP_")}
_F1 = {"EXP": "exp", "LOG": "log", "SQRT": "sqrt", "SIN": "sin", "COS": "cos", "TAN": "tan", "ASIN": "asin",
       "ACOS": "acos", "ATAN": "atan", "SINH": "sinh", "COSH": "cosh", "TANH": "tanh"}


def _b(c):
    """casadi's truth value as a number"""
    return T.ite(T.asbool(T.lift(c)), T.C(1), T.C(0))


def _t(v):
    return T.asbool(T.lift(v))


def _op(name, a):
    if name in _F1:
        return T.fn(_F1[name], a[0])
    x = a[0]
    y = a[1] if len(a) > 1 else None
    one = T.C(1)
    if name == "ASSIGN":
        return x
    if name == "ADD":
        return T.add(x, y)
    if name == "SUB":
        return T.sub(x, y)
    if name == "MUL":
        return T.mul(x, y)
    if name == "DIV":
        return T.div(x, y)
    if name == "NEG":
        return T.mul(T.C(-1), x)
    if name == "INV":
        return T.div(one, x)
    if name == "SQ":
        return T.mul(x, x)
    if name == "TWICE":
        return T.add(x, x)
    if name in ("POW", "CONSTPOW"):
        return T.power(x, y)
    if name == "FABS":
        return abs(x)
    if name == "SIGN":
        return T.sign(x)
    if name == "FMIN":
        return T.smin(x, y)
    if name == "FMAX":
        return T.smax(x, y)
    if name == "LT":
        return _b(T.lt(x, y))
    if name == "LE":
        return _b(T.le(x, y))
    if name == "EQ":
        return _b(T.eq(x, y))
    if name == "NE":
        return _b(T.neg(T.eq(x, y)))
    if name == "NOT":
        return _b(T.neg(_t(x)))
    if name == "AND":
        return _b(T.and_(_t(x), _t(y)))
    if name == "OR":
        return _b(T.or_(_t(x), _t(y)))
    if name == "IF_ELSE_ZERO":
        return T.ite(_t(x), y, T.C(0))
    if name == "ATAN2":
        return T.fn("atan2", x, y)
    if name == "HYPOT":
        return T.fn("sqrt", T.add(T.mul(x, x), T.mul(y, y)))
    if name == "LOG1P":
        return T.fn("log", T.add(one, x))
    if name == "EXPM1":
        return T.sub(T.fn("exp", x), one)
    raise T.Unsupported("casadi operation " + name)


def interpret(f, args):
    """args: list of 2-d object arrays (dense); -> list of 2-d object arrays"""
    if not f.is_a("SXFunction"):
        f = f.expand()
    vin = []
    for i, a in enumerate(args):
        a = np.asarray(a, dtype=object)
        sp = f.sparsity_in(i)
        if a.ndim < 2:
            a = a.reshape(sp.shape, order="F") if a.size == sp.numel() else a
        if tuple(a.shape) != tuple(sp.shape):
            raise ValueError(f"argument {i}: shape {a.shape}, expected {sp.shape}")
        r, c = sp.get_triplet()
        vin.append([a[i_, j_] for i_, j_ in zip(r, c)])
    out, pos = [], []
    for i in range(f.n_out()):
        sp = f.sparsity_out(i)
        m = np.empty(sp.shape, dtype=object)
        m[...] = 0.0
        out.append(m)
        pos.append(list(zip(*sp.get_triplet())))
    w = {}
    for k in range(f.n_instructions()):
        name = _OPS[f.instruction_id(k)]
        i, o = f.instruction_input(k), f.instruction_output(k)
        if name == "CONST":
            w[o[0]] = T.C(f.instruction_constant(k))
        elif name == "INPUT":
            w[o[0]] = T.lift(vin[i[0]][i[1]])
        elif name == "OUTPUT":
            out[o[0]][pos[o[0]][o[1]]] = w[i[0]]
        else:
            w[o[0]] = _op(name, [w[j] for j in i])
    return out


def call(ctx, f, *args):
    """Value of the casadi function on (possibly symbolic) arguments, as dense 2-d arrays."""
    if ctx.symbolic:
        return interpret(f, args)
    arr = []
    for i, a in enumerate(args):
        a = np.asarray(a, dtype=float)
        if a.ndim < 2:
            a = a.reshape(f.sparsity_in(i).shape, order="F") if a.size == f.sparsity_in(i).numel() else a
        arr.append(cas.DM(a))
    r = f(*arr)
    r = r if isinstance(r, (tuple, list)) else [r]
    return [np.array(x.full()) for x in r]


def evaluate(ctx, exprs, syms, vals):
    """Value of casadi expressions (SX or MX) when the symbols take the given values."""
    exprs = [e if isinstance(e, (cas.SX, cas.MX, cas.DM)) else cas.DM(np.asarray(e, dtype=float)) for e in exprs]
    return call(ctx, cas.Function("f", list(syms), list(exprs)), *vals)
