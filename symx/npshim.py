"""numpy over symbolic scalars.

While symbolic code runs, numpy allocation functions called from the code under test return
object arrays (so symbolic scalars can be stored), and the few ufuncs that numpy would
evaluate by branching, or that have no object loop, get an exact term-level version.
All other numpy code runs unmodified on object arrays.
"""
import contextlib
import math
import sys

import numpy as np

from . import term as T
from .term import Sym

_SCOPES = ("lumos", "checks", "symx.models", "__main__")


def _mine(depth=3):
    if _OFF[0]:
        return False
    n = sys._getframe(depth).f_globals.get("__name__", "")
    return n.split(".")[0] in ("lumos", "checks") or n.startswith("symx.models")


def _theirs():
    return not _OFF[0] and sys._getframe(3).f_globals.get("__name__", "").split(".")[0] == "lumos"


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, Sym))


class Float(float, metaclass=_FloatMeta):
    """`float` as the code under test sees it: a symbolic value is kept, and arrays of them are possible"""

    def __new__(cls, x=0.0):
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            x = x.reshape(())[()]
        return x if isinstance(x, Sym) else float(x)


class _Math:
    """`math` as the code under test sees it"""

    def __getattr__(self, name):
        f = getattr(math, name)
        g = {"fabs": "abs", "pow": "power", "atan2": "arctan2", "asin": "arcsin", "acos": "arccos", "atan": "arctan",
             "radians": "deg2rad", "degrees": "rad2deg"}.get(name, name)
        if callable(f) and hasattr(np, g):
            return lambda *a: getattr(np, g)(*a)[()] if any(isinstance(x, Sym) for x in a) else f(*a)
        return f


@contextlib.contextmanager
def _builtins_of_lumos():
    done = []
    fake = _Math()
    for n, m in list(sys.modules.items()):
        if n.split(".")[0] == "lumos" and m is not None:
            d = vars(m)
            if "float" not in d:
                d["float"] = Float
                done.append((d, "float", None))
            if d.get("math") is math:
                d["math"] = fake
                done.append((d, "math", math))
    try:
        yield
    finally:
        for d, k, old in done:
            if old is None:
                d.pop(k, None)
            else:
                d[k] = old


def has_sym(*arrs):
    for a in arrs:
        if isinstance(a, Sym):
            return True
        if isinstance(a, np.ndarray):
            if a.dtype == object and any(isinstance(x, Sym) for x in a.ravel()):
                return True
        elif isinstance(a, (list, tuple)):
            if any(has_sym(x) for x in a):
                return True
        elif hasattr(a, "to_numpy") and has_sym(a.to_numpy()):
            return True
    return False


def _floaty(dtype):
    if dtype is None:
        return True
    try:
        return np.issubdtype(np.dtype(dtype), np.floating)
    except TypeError:
        return False


def _inty(dtype):
    try:
        return np.issubdtype(np.dtype(dtype), np.integer)
    except TypeError:
        return False


ORIG = {}


def _alloc(name):
    orig = getattr(np, name)

    def f(*a, **k):
        out = orig(*a, **k)
        if _mine() and isinstance(out, np.ndarray) and np.issubdtype(out.dtype, np.floating):
            return out.astype(object)
        return out
    return f


def _full():
    orig = np.full

    def f(shape, fill_value, dtype=None, **k):
        if has_sym(fill_value):
            out = np.empty(shape, dtype=object)
            out[...] = fill_value
            return out
        out = orig(shape, fill_value, dtype=dtype, **k)
        if _mine() and np.issubdtype(out.dtype, np.floating):
            return out.astype(object)
        return out
    return f


def _array(name):
    orig = getattr(np, name)

    def f(obj, dtype=None, **k):
        if dtype is not None and _floaty(dtype) and has_sym(obj):
            dtype = object
        if dtype is not None and has_sym(obj):
            out = orig(obj, dtype=object, **k)
            if _inty(dtype):  # whole numbers: fractions are cut off
                out = orig(out, dtype=object)
                for i in np.ndindex(*out.shape):
                    out[i] = T.fn("trunc", out[i]) if isinstance(out[i], Sym) and out[i].sort == "R" else out[i]
            return out
        if dtype is not None and _floaty(dtype) and _theirs():
            return orig(orig(obj, dtype=dtype), dtype=object, **k)  # values may be stored into it later
        return orig(obj, **({"dtype": dtype} if dtype is not None else {}), **k)
    return f


def _elt1(name, g):
    orig = getattr(np, name)

    def f(x, *a, **k):
        if not has_sym(x):
            return orig(_defloat(x), *a, **k)
        if isinstance(x, Sym):
            return g(x)
        x = np.asarray(x, dtype=object)
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            out[i] = g(x[i])
        return out if out.shape else out.item()
    return f


def _defloat(x):
    """object array of plain numbers -> float array (numpy has no object loop for some)."""
    if isinstance(x, np.ndarray) and x.dtype == object:
        try:
            return x.astype(float)
        except (TypeError, ValueError):
            return x
    return x


def _elt2(name, g):
    orig = getattr(np, name)

    def f(x, y, *a, **k):
        if not has_sym(x, y):
            return orig(_defloat(x), _defloat(y), *a, **k)
        bx, by = np.broadcast_arrays(np.asarray(x, dtype=object), np.asarray(y, dtype=object))
        out = np.empty(bx.shape, dtype=object)
        for i in np.ndindex(*bx.shape):
            out[i] = g(bx[i], by[i])
        return out if out.shape else out.item()
    return f


def _where():
    orig = np.where

    def f(c, *xy):
        if not has_sym(c, *xy):
            return orig(c, *xy)
        if not xy:
            return orig(np.asarray(c, dtype=object).astype(bool))
        bc, bx, by = np.broadcast_arrays(*[np.asarray(z, dtype=object) for z in (c, *xy)])
        out = np.empty(bc.shape, dtype=object)
        for i in np.ndindex(*bc.shape):
            out[i] = T.ite(T.lift(bc[i]), bx[i], by[i])
        return out if out.shape else out.item()
    return f


def _linspace():
    orig = np.linspace

    def f(a, b, num=50, endpoint=True, **k):
        if not has_sym(a, b):
            return orig(a, b, num, endpoint, **k)
        n = int(num)
        d = (n - 1) if endpoint else n
        out = np.empty(n, dtype=object)
        for i in range(n):
            out[i] = a + (b - a) * T.C(T.Fraction(i, d)) if d else a
        return out
    return f


def _pred(name, sym_value):
    orig = getattr(np, name)

    def f(x, *a, **k):
        if not has_sym(x):
            return orig(_defloat(x), *a, **k)
        if isinstance(x, Sym):
            return sym_value
        x = np.asarray(x, dtype=object)
        out = np.empty(x.shape, dtype=bool)
        for i in np.ndindex(*x.shape):
            out[i] = sym_value if isinstance(x[i], Sym) else bool(orig(float(x[i])))
        return out
    return f


def _clip():
    orig = np.clip

    def f(x, lo, hi, *a, **k):
        if not has_sym(x, lo, hi):
            return orig(x, lo, hi, *a, **k)
        r = x
        if lo is not None:
            r = np.maximum(r, lo)
        if hi is not None:
            r = np.minimum(r, hi)
        return r
    return f


def _interp():
    orig = np.interp

    def f(x, xp, fp, left=None, right=None, period=None):
        if not has_sym(x, xp, fp):
            return orig(_defloat(x), _defloat(np.asarray(xp)), _defloat(np.asarray(fp)), left, right, period)
        if period is not None:
            raise T.Unsupported("interp with period")
        xp, fp = list(np.asarray(xp, dtype=object)), list(np.asarray(fp, dtype=object))

        def one(v):
            lo = fp[0] if left is None else left
            hi = fp[-1] if right is None else right
            r = fp[-1]
            for k in range(len(xp) - 2, -1, -1):
                seg = fp[k] + (fp[k + 1] - fp[k]) * T.div(T.lift(v - xp[k]), T.lift(xp[k + 1] - xp[k]))
                r = T.ite(T.lt(T.lift(v), T.lift(xp[k + 1])), seg, r)
            r = T.ite(T.lt(T.lift(v), T.lift(xp[0])), lo, r)
            return T.ite(T.gt(T.lift(v), T.lift(xp[-1])), hi, r)
        if isinstance(x, Sym) or np.ndim(x) == 0:
            return one(x if isinstance(x, Sym) else T.lift(x))
        x = np.asarray(x, dtype=object)
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            out[i] = one(x[i])
        return out
    return f


def _gradient():
    orig = np.gradient

    def f(y, *x, axis=None, edge_order=1):
        if not has_sym(y, *x):
            return orig(_defloat(np.asarray(y)), *[_defloat(np.asarray(v)) for v in x], axis=axis, edge_order=edge_order)
        y = np.asarray(y, dtype=object)
        if y.ndim != 1 or len(x) > 1 or edge_order != 1:
            raise T.Unsupported("gradient of this form")
        n = len(y)
        if not x or np.ndim(x[0]) == 0:
            h = np.array([x[0] if x else 1.0] * (n - 1), dtype=object)
        else:
            h = np.diff(np.asarray(x[0], dtype=object))
        out = np.empty(n, dtype=object)
        slope = [T.div(T.lift(y[i + 1] - y[i]), T.lift(h[i])) for i in range(n - 1)]
        out[0], out[-1] = slope[0], slope[-1]
        for i in range(1, n - 1):
            a, b = h[i - 1], h[i]
            out[i] = T.div(T.lift(a * slope[i] + b * slope[i - 1]), T.lift(a + b))
        return out
    return f


def _cmp_all(name):
    orig = getattr(np, name)

    def f(a, b, rtol=1e-5, atol=1e-8, **k):
        if not has_sym(a, b):
            return orig(_defloat(a), _defloat(b), rtol, atol, **k)
        ba, bb = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        out = np.empty(ba.shape, dtype=object)
        for i in np.ndindex(*ba.shape):
            out[i] = T.le(T.lift(abs(ba[i] - bb[i])), T.lift(atol + rtol * abs(bb[i])))
        if name == "allclose":
            return bool(T.and_(*out.ravel()))
        return out if out.shape else out.item()
    return f


def _einsum():
    """numpy's object einsum loops mis-handle reference counts, so object operands get a
    plain implementation (explicit or implicit output, no ellipsis)."""
    orig = np.einsum

    def f(sub, *ops, **k):
        ops = [np.asarray(o) for o in ops]
        if not any(o.dtype == object for o in ops):
            return orig(sub, *ops, **k)
        if not isinstance(sub, str) or "." in sub:
            raise T.Unsupported("einsum form")
        sub = sub.replace(" ", "")
        ins, _, out = sub.partition("->")
        ins = ins.split(",")
        if "->" not in sub:
            flat = "".join(ins)
            out = "".join(sorted(c for c in set(flat) if flat.count(c) == 1))
        dims = {}
        for s_, o in zip(ins, ops):
            if len(s_) != o.ndim:
                raise ValueError("einsum: operand has wrong number of dimensions")
            for c, d in zip(s_, o.shape):
                if dims.setdefault(c, d) != d:
                    if dims[c] == 1:
                        dims[c] = d
                    elif d != 1:
                        raise ValueError("einsum: dimension mismatch for " + c)
        summed = [c for c in dims if c not in out]
        res = np.empty([dims[c] for c in out], dtype=object)
        for oi in np.ndindex(*res.shape):
            env = dict(zip(out, oi))
            acc = 0.0
            for si in np.ndindex(*[dims[c] for c in summed]):
                env.update(zip(summed, si))
                t = None
                for s_, o in zip(ins, ops):
                    v = o[tuple(env[c] if o.shape[n] > 1 else 0 for n, c in enumerate(s_))]
                    t = v if t is None else t * v
                acc = acc + t
            res[oi] = acc
        return res if res.shape else res.item()
    return f


def _mean():
    orig = np.mean

    def f(a, axis=None, **k):
        if not has_sym(a):
            return orig(a, axis, **k)
        a = np.asarray(a, dtype=object)
        n = a.size if axis is None else a.shape[axis]
        return np.sum(a, axis=axis) / n
    return f


class _Wrapped:
    """callable stand-in that keeps the attributes (reduce, accumulate, ...) of a ufunc"""

    def __init__(self, f, orig):
        self._f, self._orig = f, orig

    def __call__(self, *a, **k):
        return self._f(*a, **k)

    def __getattr__(self, n):
        return getattr(self._orig, n)


def build():
    p = {}
    for n in ("zeros", "ones", "empty", "zeros_like", "ones_like", "empty_like", "eye", "tile", "repeat"):
        p[n] = _alloc(n)
    p["full"] = _full()
    p["array"] = _array("array")
    p["asarray"] = _array("asarray")
    p["abs"] = p["absolute"] = _elt1("abs", lambda v: abs(v))
    p["sign"] = _elt1("sign", T.sign)
    p["maximum"] = _elt2("maximum", T.smax)
    p["minimum"] = _elt2("minimum", T.smin)
    p["fmax"], p["fmin"] = p["maximum"], p["minimum"]
    p["arctan2"] = _elt2("arctan2", lambda a, b: T.fn("atan2", a, b))
    p["hypot"] = _elt2("hypot", lambda a, b: T.fn("sqrt", a * a + b * b))
    p["power"] = _elt2("power", lambda a, b: T.power(T.lift(a), T.lift(b)))
    for n in ("sin", "cos", "tan", "arctan", "arcsin", "arccos", "sinh", "cosh", "tanh", "exp", "log", "sqrt"):
        tn = {"arctan": "atan", "arcsin": "asin", "arccos": "acos"}.get(n, n)
        p[n] = _elt1(n, lambda v, tn=tn: T.fn(tn, v))
    for n, g in (("floor", lambda v: T.fn("floor", v)), ("ceil", lambda v: -T.fn("floor", -v)), ("trunc", lambda v: T.fn("trunc", v))):
        p[n] = _elt1(n, g)
    p["deg2rad"] = _elt1("deg2rad", lambda v: v * (np.pi / 180))
    p["rad2deg"] = _elt1("rad2deg", lambda v: v * (180 / np.pi))
    p["where"] = _where()
    p["linspace"] = _linspace()
    p["isfinite"] = _pred("isfinite", True)
    p["isnan"] = _pred("isnan", False)
    p["isinf"] = _pred("isinf", False)
    p["clip"] = _clip()
    p["interp"] = _interp()
    p["gradient"] = _gradient()
    p["isclose"] = _cmp_all("isclose")
    p["allclose"] = _cmp_all("allclose")
    p["mean"] = _mean()
    p["einsum"] = _einsum()
    return p


_PATCH = None
# compiled code that allocates through np.empty without a python frame of its own
_RANDOM = ("rand", "randn", "random", "random_sample", "normal", "uniform", "standard_normal", "randint",
           "permutation", "choice", "exponential", "lognormal")
_OFF = [0]


def _unpatched(f):
    def g(*a, **k):
        _OFF[0] += 1
        try:
            return f(*a, **k)
        finally:
            _OFF[0] -= 1
    return g

_DEPTH = [0]


@contextlib.contextmanager
def symbolic_numpy():
    global _PATCH
    if _PATCH is None:
        _PATCH = build()
    if _DEPTH[0]:
        yield
        return
    rnd = {n: getattr(np.random, n) for n in _RANDOM}
    for n, f in rnd.items():
        setattr(np.random, n, _unpatched(f))
    _DEPTH[0] += 1
    saved = {n: getattr(np, n) for n in _PATCH}
    try:
        for n, f in _PATCH.items():
            setattr(np, n, _Wrapped(f, saved[n]))
        with _builtins_of_lumos():
            yield
    finally:
        for n, f in saved.items():
            setattr(np, n, f)
        for n, f in rnd.items():
            setattr(np.random, n, f)
        _DEPTH[0] -= 1


@contextlib.contextmanager
def real_numpy():
    """the unmodified numpy, inside symbolic_numpy (for code that never sees terms, e.g. jax tracing)"""
    if not _DEPTH[0]:
        yield
        return
    cur = {n: getattr(np, n) for n in _PATCH}
    fake = [(vars(m), k, v) for n, m in list(sys.modules.items()) if n.split(".")[0] == "lumos" and m is not None
            for k in ("float", "math") for v in [vars(m).get(k)] if v is Float or isinstance(v, _Math)]
    try:
        for n, f in cur.items():
            setattr(np, n, getattr(f, "_orig", f))
        for d, k, v in fake:
            if v is Float:
                del d[k]
            else:
                d[k] = math
        yield
    finally:
        for n, f in cur.items():
            setattr(np, n, f)
        for d, k, v in fake:
            d[k] = v
