"""Term language: hash-consed real/int/bool DAG terms with python operators.

A `Sym` is a scalar that the real code manipulates in place of a float / int / bool.
Real arithmetic is exact (floats met on the way are converted to the exact rational they
denote).  `Sym.__bool__` asks the active engine for a branch decision.
"""
import math
import numbers
from fractions import Fraction

_COUNTER = [0]
ENGINE = [None]          # active path engine, set by engine.explore


class Unsupported(Exception):
    """The real code used an operation the encoding does not cover."""


def _is_num(x):
    return isinstance(x, (int, float, Fraction)) or (
        isinstance(x, numbers.Number) and not isinstance(x, (Sym, complex)) and hasattr(x, "__float__")
    )


INF = float("inf")


def const_value(x):
    """python/numpy number -> Fraction (or +-inf/nan float)."""
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    try:
        import numpy as np
        if isinstance(x, np.bool_):
            return Fraction(int(x))
        if isinstance(x, np.integer):
            return Fraction(int(x))
    except ImportError:  # pragma: no cover
        pass
    f = float(x)
    if math.isinf(f) or math.isnan(f):
        return f
    return Fraction(f)


class Sym:
    __slots__ = ("op", "args", "sort", "id", "__weakref__")
    __array_priority__ = -1e9
    # numpy must treat us as opaque scalars
    shape = ()
    ndim = 0
    size = 1

    def __hash__(self):
        return self.id

    # ---- arithmetic
    def __add__(self, o):
        return _bin(add, self, o)

    def __radd__(self, o):
        return _bin(add, o, self)

    def __sub__(self, o):
        return _bin(sub, self, o)

    def __rsub__(self, o):
        return _bin(sub, o, self)

    def __mul__(self, o):
        return _bin(mul, self, o)

    def __rmul__(self, o):
        return _bin(mul, o, self)

    def __truediv__(self, o):
        return _bin(div, self, o)

    def __rtruediv__(self, o):
        return _bin(div, o, self)

    def __floordiv__(self, o):
        return _bin(idiv, self, o)

    def __rfloordiv__(self, o):
        return _bin(idiv, o, self)

    def __mod__(self, o):
        return _bin(imod, self, o)

    def __rmod__(self, o):
        return _bin(imod, o, self)

    def __pow__(self, o):
        return _bin(power, self, o)

    def __rpow__(self, o):
        return _bin(power, o, self)

    def __neg__(self):
        return mul(C(-1), self)

    def __pos__(self):
        return self

    def __abs__(self):
        return ite(ge(self, C(0)), self, mul(C(-1), self))

    # ---- comparisons
    def __lt__(self, o):
        return _bin(lt, self, o)

    def __le__(self, o):
        return _bin(le, self, o)

    def __gt__(self, o):
        return _bin(lambda a, b: lt(b, a), self, o)

    def __ge__(self, o):
        return _bin(lambda a, b: le(b, a), self, o)

    def __eq__(self, o):
        return _bin(eq, self, o)

    def __ne__(self, o):
        r = _bin(eq, self, o)
        if r is NotImplemented:
            return r
        return neg(r)

    def __and__(self, o):
        return and_(self, lift(o))

    __rand__ = __and__

    def __or__(self, o):
        return or_(self, lift(o))

    __ror__ = __or__

    def __invert__(self):
        return neg(self)

    def __bool__(self):
        if self.op == "const":
            return bool(self.args[0] != 0) if self.sort != "B" else bool(self.args[0])
        c = self if self.sort == "B" else neg(eq(self, C(0)))
        if c.op == "const":
            return bool(c.args[0])
        if ENGINE[0] is None:
            raise Unsupported("branch on a symbolic value outside an engine")
        return ENGINE[0].branch(c)

    def __float__(self):
        if self.op == "const":
            return float(self.args[0])
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if self.op == "const":
            return int(self.args[0])
        return self.__index__()

    def __index__(self):
        if self.op == "const":
            v = self.args[0]
            if v != int(v):
                raise TypeError("not an integer")
            return int(v)
        if self.sort != "I":
            raise TypeError("real used as index")
        if ENGINE[0] is None:
            raise Unsupported("index with a symbolic value outside an engine")
        return ENGINE[0].concretize(self)

    def __round__(self, n=None):
        raise Unsupported("round")

    def __repr__(self):
        return show(self)

    def __format__(self, spec):
        return show(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def copy(self):
        return self

    def item(self):
        return self

    # ---- numpy object-ufunc protocol (np.sin(obj) calls obj.sin())
    def sin(self):
        return fn("sin", self)

    def cos(self):
        return fn("cos", self)

    def tan(self):
        return fn("tan", self)

    def arctan(self):
        return fn("atan", self)

    def arcsin(self):
        return fn("asin", self)

    def arccos(self):
        return fn("acos", self)

    def arctan2(self, o):
        return fn("atan2", self, lift(o))

    def sinh(self):
        return fn("sinh", self)

    def cosh(self):
        return fn("cosh", self)

    def tanh(self):
        return fn("tanh", self)

    def exp(self):
        return fn("exp", self)

    def log(self):
        return fn("log", self)

    def sqrt(self):
        return fn("sqrt", self)

    def square(self):
        return mul(self, self)

    def conjugate(self):
        return self

    def rint(self):
        raise Unsupported("rint")

    def floor(self):
        return fn("floor", self)

    def ceil(self):
        return -fn("floor", -self)

    def trunc(self):
        return fn("trunc", self)

    @property
    def real(self):
        return self

    def is_const(self):
        return self.op == "const"

    def ravel(self):
        import numpy as np
        a = np.empty(1, dtype=object)
        a[0] = self
        return a

    def astype(self, *_a, **_k):
        return self


numbers.Number.register(Sym)


# hash-consing uses Sym.__eq__ inside tuples: tuples compare identity first, and fall back
# on __eq__, which would build terms.  Key on ids instead.
_TABLE2 = {}


def mk(op, args, sort):
    key = (op, sort) + tuple(a.id if isinstance(a, Sym) else ("k", type(a).__name__, a) for a in args)
    t = _TABLE2.get(key)
    if t is None:
        t = object.__new__(Sym)
        t.op, t.args, t.sort = op, args, sort
        _COUNTER[0] += 1
        t.id = _COUNTER[0]
        _TABLE2[key] = t
    return t


def reset_table():
    _TABLE2.clear()
    _NF.clear()
    _CANON.clear()
    _CUTS.clear()


def C(v, sort=None):
    v = const_value(v)
    if sort is None:
        sort = "R"
    return mk("const", (v,), sort)


def CI(v):
    return mk("const", (Fraction(int(v)),), "I")


TRUE = None
FALSE = None


def B(v):
    return mk("const", (bool(v),), "B")


def var(name, sort="R"):
    return mk("var", (name,), sort)


def lift(x):
    if isinstance(x, Sym):
        return x
    import numpy as np
    if isinstance(x, (bool, np.bool_)):
        return B(bool(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    if isinstance(x, (int, np.integer)):
        return CI(int(x))
    if _is_num(x):
        return C(x)
    raise Unsupported(f"cannot lift {type(x)}")


def _bin(f, a, b):
    import numpy as np
    for z in (a, b):
        if isinstance(z, np.ndarray) and z.ndim > 0:
            return NotImplemented
        if not isinstance(z, Sym) and not _is_num(z) and not (isinstance(z, np.ndarray)):
            return NotImplemented
    return f(lift(a), lift(b))


def _num(t):
    """bool -> number"""
    if t.sort == "B":
        return ite(t, CI(1), CI(0))
    return t


def _sort2(a, b):
    return "I" if (a.sort == "I" and b.sort == "I") else "R"


def _cv(t):
    return t.args[0] if t.op == "const" else None


def _isinf(v):
    return isinstance(v, float)


def add(a, b):
    a, b = _num(a), _num(b)
    x, y = _cv(a), _cv(b)
    s = _sort2(a, b)
    if x is not None and y is not None:
        return mk("const", (x + y,) if not (_isinf(x) or _isinf(y)) else (float(x) + float(y),), s)
    if (x is not None and _isinf(x)):
        return a
    if (y is not None and _isinf(y)):
        return b
    if x is not None and x == 0:
        return b if b.sort == s else toreal(b)
    if y is not None and y == 0:
        return a if a.sort == s else toreal(a)
    if x is not None or (y is None and a.id > b.id):
        a, b = b, a
    return mk("add", (a, b), s)


def toreal(t):
    if t.sort == "R":
        return t
    if t.op == "const":
        return mk("const", t.args, "R")
    return mk("toreal", (t,), "R")


def sub(a, b):
    a, b = _num(a), _num(b)
    if a is b:
        return mk("const", (Fraction(0),), _sort2(a, b))
    return add(a, mul(CI(-1) if b.sort == "I" else C(-1), b))


def mul(a, b):
    a, b = _num(a), _num(b)
    x, y = _cv(a), _cv(b)
    s = _sort2(a, b)
    if x is not None and y is not None:
        if _isinf(x) or _isinf(y):
            return mk("const", (const_value(float(x) * float(y)),), s)
        return mk("const", (x * y,), s)
    if x is not None:
        a, b, x, y = b, a, y, x
    if y is not None:
        if _isinf(y):
            # inf * symbolic: sign must be known; the engine decides
            if bool(lt(C(0), a)):
                return b
            if bool(lt(a, C(0))):
                return mul(b, C(-1))
            return mk("const", (float("nan"),), "R")
        if y == 0:
            return mk("const", (Fraction(0),), s)
        if y == 1:
            return a if a.sort == s else toreal(a)
        if a.op == "mul" and a.args[1].op == "const" and not _isinf(a.args[1].args[0]):
            return mul(a.args[0], mk("const", (a.args[1].args[0] * y,), _sort2(a.args[1], b)))
    elif a.id > b.id:
        a, b = b, a
    return mk("mul", (a, b), s)


def div(a, b):
    a, b = toreal(_num(a)), toreal(_num(b))
    x, y = _cv(a), _cv(b)
    if y is not None:
        if _isinf(y):
            return C(0)
        if y == 0:
            raise ZeroDivisionError("symbolic division by the constant zero")
        if x is not None:
            if _isinf(x):
                return mk("const", (x / float(y),), "R")
            return mk("const", (x / y,), "R")
        return mul(a, mk("const", (1 / y,), "R"))
    if x is not None and _isinf(x):
        return a if bool(lt(C(0), b)) else mul(a, C(-1))
    if x is not None and x == 0:
        return C(0)
    if a is b:
        return C(1)
    if ENGINE[0] is not None:
        ENGINE[0].note_den(b)
    return mk("div", (a, b), "R")


def idiv(a, b):
    if a.sort != "I" or b.sort != "I":
        raise Unsupported("floor division of reals")
    x, y = _cv(a), _cv(b)
    if x is not None and y is not None:
        return CI(x // y)
    return mk("idiv", (a, b), "I")


def imod(a, b):
    if a.sort != "I" or b.sort != "I":
        raise Unsupported("modulo of reals")
    x, y = _cv(a), _cv(b)
    if x is not None and y is not None:
        return CI(x % y)
    return mk("imod", (a, b), "I")


def power(a, b):
    a, b = _num(a), _num(b)
    x, y = _cv(a), _cv(b)
    if y is not None and not _isinf(y):
        if y == int(y):
            n = int(y)
            if n == 0:
                return C(1)
            if n < 0:
                return div(C(1), power(a, CI(-n)))
            r = a
            for _ in range(n - 1):
                r = mul(r, a)
            return r
        if y == Fraction(1, 2):
            return fn("sqrt", a)
        if y == Fraction(-1, 2):
            return div(C(1), fn("sqrt", a))
        if y == Fraction(3, 2):
            return mul(a, fn("sqrt", a))
    return fn("pow", a, b)


_FOLD = {
    "sin": math.sin, "cos": math.cos, "tan": math.tan, "atan": math.atan, "asin": math.asin,
    "acos": math.acos, "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh, "exp": math.exp,
    "log": math.log, "sqrt": math.sqrt, "atan2": math.atan2, "pow": math.pow,
    "trunc": math.trunc, "floor": math.floor,
}

ODD = {"sin", "tan", "atan", "asin", "sinh", "tanh", "trunc"}
EVEN = {"cos", "cosh"}


def fn(name, *args):
    args = tuple(toreal(_num(lift(a))) for a in args)
    vals = [_cv(a) for a in args]
    if all(v is not None for v in vals):
        if name == "sqrt" and not _isinf(vals[0]):
            v = vals[0]
            n, d = math.isqrt(v.numerator) if v >= 0 else -1, math.isqrt(v.denominator)
            if v >= 0 and n * n == v.numerator and d * d == v.denominator:
                return C(Fraction(n, d))
        if vals[0] == 0 and name in ODD:
            return C(0)
        if vals[0] == 0 and name in ("cos", "cosh", "exp"):
            return C(1)
        return C(_FOLD[name](*[float(v) for v in vals]))
    if name in ("sin", "cos") and args[0].op == "fn" and args[0].args[0] == "atan2":
        # the direction of (x, y), which is not the origin (there atan2 says nothing)
        y, x = args[0].args[1:]
        return div(x if name == "cos" else y, fn("sqrt", add(mul(x, x), mul(y, y))))
    return mk("fn", (name,) + args, "R")


# ---- booleans

def lt(a, b):
    a, b = _num(a), _num(b)
    if a is b:
        return B(False)
    x, y = _cv(a), _cv(b)
    if x is not None and y is not None:
        return B(x < y)
    if x is not None and _isinf(x):
        return B(x < 0)
    if y is not None and _isinf(y):
        return B(y > 0)
    return mk("lt", (a, b), "B")


def le(a, b):
    a, b = _num(a), _num(b)
    if a is b:
        return B(True)
    x, y = _cv(a), _cv(b)
    if x is not None and y is not None:
        return B(x <= y)
    if x is not None and _isinf(x):
        return B(x < 0)
    if y is not None and _isinf(y):
        return B(y > 0)
    return mk("le", (a, b), "B")


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if a.sort == "B" and b.sort == "B":
        if a is b:
            return B(True)
        if a.op == "const":
            return b if a.args[0] else neg(b)
        if b.op == "const":
            return a if b.args[0] else neg(a)
        return mk("beq", (a, b), "B")
    a, b = _num(a), _num(b)
    if a is b:
        return B(True)
    x, y = _cv(a), _cv(b)
    if x is not None and y is not None:
        return B(x == y)
    if (x is not None and _isinf(x)) or (y is not None and _isinf(y)):
        return B(False)
    return mk("eq", (a, b), "B")


def asbool(t):
    t = lift(t)
    return t if t.sort == "B" else neg(eq(t, C(0)))


def neg(a):
    a = asbool(a)
    if a.op == "const":
        return B(not a.args[0])
    if a.op == "not":
        return a.args[0]
    if a.op == "lt":
        return le(a.args[1], a.args[0])
    if a.op == "le":
        return lt(a.args[1], a.args[0])
    return mk("not", (a,), "B")


def and_(*xs):
    out = []
    for x in xs:
        x = asbool(x)
        if x.op == "const":
            if not x.args[0]:
                return B(False)
            continue
        out.append(x)
    if not out:
        return B(True)
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(out), "B")


def or_(*xs):
    return neg(and_(*[neg(x) for x in xs]))


def implies(a, b):
    return or_(neg(a), b)


def ite(c, a, b):
    c, a, b = asbool(c), lift(a), lift(b)
    if c.op == "const":
        return a if c.args[0] else b
    if a is b:
        return a
    if a.sort == "B" and b.sort == "B":
        return or_(and_(c, a), and_(neg(c), b))
    a, b = _num(a), _num(b)
    s = _sort2(a, b)
    if s == "R":
        a, b = toreal(a), toreal(b)
    return mk("ite", (c, a, b), s)


def smax(a, b):
    a, b = lift(a), lift(b)
    return ite(ge(a, b), a, b)


def smin(a, b):
    a, b = lift(a), lift(b)
    return ite(le(a, b), a, b)


def sign(a):
    a = lift(a)
    return ite(gt(a, C(0)), C(1), ite(lt(a, C(0)), C(-1), C(0)))


# ---- utilities over terms

def postorder(roots):
    seen, out = set(), []
    stack = [(r, False) for r in roots]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        stack.append((t, True))
        for a in t.args:
            if isinstance(a, Sym) and a.id not in seen:
                stack.append((a, False))
    return out


def variables(roots):
    return [t for t in postorder(roots) if t.op == "var"]


def size(roots):
    return len(postorder(roots))


def show(t, depth=4):
    if t.op == "const":
        v = t.args[0]
        return str(v) if t.sort != "R" else repr(float(v))
    if t.op == "var":
        return t.args[0]
    if depth == 0:
        return "..."
    if t.op == "fn":
        return t.args[0] + "(" + ",".join(show(a, depth - 1) for a in t.args[1:]) + ")"
    return t.op + "(" + ",".join(show(a, depth - 1) if isinstance(a, Sym) else str(a) for a in t.args) + ")"


def evaluate(roots, env, num=float):
    """Evaluate terms with env: var name -> number (float or Fraction mode)."""
    val = {}
    for t in postorder(roots):
        a = [val[x.id] if isinstance(x, Sym) else x for x in t.args]
        o = t.op
        if o == "const":
            v = t.args[0]
            r = v if t.sort == "B" else (int(v) if t.sort == "I" else (num(v) if not _isinf(v) else v))
        elif o == "var":
            r = env[t.args[0]]
        elif o == "add":
            r = a[0] + a[1]
        elif o == "mul":
            r = a[0] * a[1]
        elif o == "div":
            r = a[0] / a[1] if a[1] != 0 else float("nan")
        elif o == "toreal":
            r = num(a[0])
        elif o == "idiv":
            r = a[0] // a[1]
        elif o == "imod":
            r = a[0] % a[1]
        elif o == "lt":
            r = a[0] < a[1]
        elif o == "le":
            r = a[0] <= a[1]
        elif o in ("eq", "beq"):
            r = a[0] == a[1]
        elif o == "not":
            r = not a[0]
        elif o == "and":
            r = all(a)
        elif o == "ite":
            r = a[1] if a[0] else a[2]
        elif o == "fn":
            try:
                r = _FOLD[a[0]](*[float(z) for z in a[1:]])
            except (ValueError, OverflowError):
                r = float("nan")
        else:
            raise Unsupported("evaluate " + o)
        val[t.id] = r
    return [val[r.id] for r in roots]


def diff(t, v, memo=None):
    """d t / d v  (v a var term)."""
    return diffs([t], v)[0]


def diffs(roots, v):
    d = {}
    zero, one = C(0), C(1)
    for t in postorder(roots):
        o, a = t.op, t.args
        if t is v:
            r = one
        elif o in ("const", "var", "lt", "le", "eq", "beq", "not", "and"):
            r = zero
        elif o == "toreal":
            r = d[a[0].id]
        elif o == "add":
            r = add(d[a[0].id], d[a[1].id])
        elif o == "mul":
            r = add(mul(d[a[0].id], a[1]), mul(a[0], d[a[1].id]))
        elif o == "div":
            da, db = d[a[0].id], d[a[1].id]
            r = div(da, a[1])
            if db is not zero:
                r = sub(r, div(mul(a[0], db), mul(a[1], a[1])))
        elif o == "ite":
            r = ite(a[0], d[a[1].id], d[a[2].id])
        elif o == "fn":
            n, x = a[0], a[1]
            dx = d[x.id]
            if n in ("atan2", "pow"):
                y = a[2]
                dy = d[y.id]
                if n == "atan2":
                    den = add(mul(x, x), mul(y, y))
                    r = zero
                    if dx is not zero:
                        r = add(r, div(mul(y, dx), den))
                    if dy is not zero:
                        r = sub(r, div(mul(x, dy), den))
                else:
                    r = zero
                    if dx is not zero:
                        r = add(r, mul(mul(y, fn("pow", x, sub(y, one))), dx))
                    if dy is not zero:
                        r = add(r, mul(mul(t, fn("log", x)), dy))
            elif dx is zero:
                r = zero
            else:
                if n == "sin":
                    g = fn("cos", x)
                elif n == "cos":
                    g = mul(C(-1), fn("sin", x))
                elif n == "tan":
                    g = add(one, mul(t, t))
                elif n == "atan":
                    g = div(one, add(one, mul(x, x)))
                elif n == "asin":
                    g = div(one, fn("sqrt", sub(one, mul(x, x))))
                elif n == "acos":
                    g = div(C(-1), fn("sqrt", sub(one, mul(x, x))))
                elif n == "exp":
                    g = t
                elif n == "log":
                    g = div(one, x)
                elif n == "sqrt":
                    g = div(one, mul(C(2), t))
                elif n == "tanh":
                    g = sub(one, mul(t, t))
                elif n == "sinh":
                    g = fn("cosh", x)
                elif n == "cosh":
                    g = fn("sinh", x)
                elif n in ("trunc", "floor"):
                    g = zero  # (almost everywhere)
                else:
                    raise Unsupported("diff " + n)
                r = mul(g, dx)
        else:
            raise Unsupported("diff " + o)
        d[t.id] = r
    return [d[r.id] for r in roots]


def gradient(roots, wrt):
    """matrix [len(roots)][len(wrt)] of derivative terms."""
    cols = [diffs(roots, v) for v in wrt]
    return [[cols[j][i] for j in range(len(wrt))] for i in range(len(roots))]


def substitute(roots, mapping):
    """mapping: var term -> term"""
    m = {k.id: v for k, v in mapping.items()}
    out = {}
    for t in postorder(roots):
        if t.id in m:
            out[t.id] = m[t.id]
            continue
        a = tuple(out[x.id] if isinstance(x, Sym) else x for x in t.args)
        out[t.id] = rebuild(t, a)
    return [out[r.id] for r in roots]


def rebuild(t, a):
    o = t.op
    if o in ("const", "var"):
        return t
    f = {"add": add, "mul": mul, "div": div, "idiv": idiv, "imod": imod, "lt": lt, "le": le, "eq": eq,
         "beq": eq, "not": neg, "and": and_, "ite": ite, "toreal": toreal}.get(o)
    if o == "fn":
        return fn(*a)
    return f(*a)


# ---- polynomial (Laurent) normal form: {monomial: Fraction}, monomial = tuple of (atom id, exp)
_NF = {}
NF_LIMIT = 200000


class TooBig(Exception):
    pass


def _pmul(p, q, sq):
    if len(p) * len(q) > NF_LIMIT:
        raise TooBig()
    out = {}
    get = out.get
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mmul(m1, m2)
            red = sq(m) if m1 and m2 else None
            if red is None:
                out[m] = get(m, 0) + c1 * c2
            else:
                c = c1 * c2
                for mm, cc in red.items():
                    out[mm] = get(mm, 0) + c * cc
    return {m: c for m, c in out.items() if c != 0}


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted((a, e) for a, e in d.items() if e != 0))


_ATOM_BY_ID = {}
_CANON_FN = {}


def _nosq(m):
    return None


def _reduce(m):
    """sqrt atoms: replace sqrt(u)^2 by u."""
    for i, (a, e) in enumerate(m):
        if -2 < e < 2:
            continue
        t = _ATOM_BY_ID[a]
        if isinstance(t, tuple) and t[0] == "sqrt":
            rest = m[:i] + m[i + 1:]
            k, r = divmod(e, 2)
            inner = t[2]
            if e < 0 and len(inner) != 1:
                return None
            base = {rest + (): 1}
            if r:
                base = {_mmul(rest, ((a, r),)): 1}
            p = base
            q = inner if e > 0 else _minv(inner)
            for _ in range(abs(k)):
                p = _pmul(p, q, _reduce)
            return p
    return None


def _minv(p):
    (m, c), = p.items()
    return {tuple((a, -e) for a, e in m): _q(Fraction(1) / c)}


def _atom(key, info):
    i = _CANON_FN.get(key)
    if i is None:
        _COUNTER[0] += 1
        i = _COUNTER[0]
        _CANON_FN[key] = i
        _ATOM_BY_ID[i] = info
    return i


def _q(f):
    """fractions that are whole numbers as int (much faster arithmetic)"""
    return f.numerator if f.denominator == 1 else f


def _freeze(p):
    return tuple(sorted(p.items()))


def nf(t):
    """Normal form of a real/int term.  Division by a multi-term polynomial becomes an
    inverse atom keyed by the (monic) normal form of the denominator."""
    for u in postorder([t]):
        if u.id in _NF or u.sort == "B":
            continue
        o, a = u.op, u.args
        if o == "const":
            v = a[0]
            if _isinf(v):
                p = {((_atom(("inf", str(v)), ("inf", v)), 1),): 1}
            else:
                p = {(): _q(Fraction(v))} if v != 0 else {}
        elif o == "var":
            _ATOM_BY_ID[u.id] = u
            p = {((u.id, 1),): 1}
        elif o == "toreal":
            p = _NF[a[0].id]
        elif o == "add":
            p = dict(_NF[a[0].id])
            for m, c in _NF[a[1].id].items():
                s = p.get(m, 0) + c
                if s == 0:
                    p.pop(m, None)
                else:
                    p[m] = s
        elif o == "mul":
            p = _pmul(_NF[a[0].id], _NF[a[1].id], _reduce)
        elif o == "div":
            p = _NF[a[0].id]
            stack = [(a[1], -1)]
            while stack and p is not None:
                f, e = stack.pop()
                q = _NF[f.id]
                if f.op == "toreal":
                    stack.append((f.args[0], e))
                elif e > 0:
                    p = _pmul(p, q, _reduce)
                elif len(q) == 1:
                    p = _pmul(p, _minv(q), _reduce)
                elif len(q) == 0:
                    p = None
                elif f.op == "mul":
                    stack += [(f.args[0], e), (f.args[1], e)]
                elif f.op == "div":
                    stack += [(f.args[0], e), (f.args[1], -e)]
                else:
                    lead = _freeze(q)[0][1]
                    qm = {m: _q(Fraction(c) / lead) for m, c in q.items()}
                    i = _atom(("inv", _freeze(qm)), ("inv", f, qm))
                    if p and len(p) == len(q) and _freeze({m: _q(Fraction(c) / _freeze(p)[0][1]) for m, c in p.items()}) == _freeze(qm):
                        p = {(): _q(Fraction(_freeze(p)[0][1]) / lead)}
                    else:
                        p = _pmul(p, {((i, 1),): _q(Fraction(1) / lead)}, _reduce)
            if p is None:
                p = {((_atom(("nan", u.id), u), 1),): 1}
        elif o == "fn":
            name = a[0]
            argnf = [_NF[x.id] for x in a[1:]]
            sgn = 1
            if name in ODD | EVEN and argnf[0]:
                lead = _freeze(argnf[0])[0][1]
                if lead < 0:
                    argnf = [{m: -c for m, c in argnf[0].items()}]
                    sgn = -1 if name in ODD else 1
            if name == "sqrt":
                i = _atom(("sqrt", _freeze(argnf[0])), ("sqrt", u, argnf[0]))
            else:
                i = _atom((name,) + tuple(_freeze(x) for x in argnf), u)
            if name in ODD and not argnf[0]:
                p = {}
            else:
                p = {((i, 1),): sgn}
        else:
            if o == "ite":
                i = _atom(("ite", _cond_key(a[0]), _freeze(_NF[a[1].id]), _freeze(_NF[a[2].id])), u)
            else:
                i = _atom(("t", u.id), u)
            p = {((i, 1),): 1}
        _NF[u.id] = p
    return _NF[t.id]


def _cond_key(c):
    if c.op in ("lt", "le", "eq") and all(isinstance(x, Sym) for x in c.args):
        d = nf(sub(c.args[0], c.args[1]))
        if d:
            lead = abs(_freeze(d)[0][1])
            d = {m: _q(Fraction(x) / lead) for m, x in d.items()}
        return (c.op, _freeze(d))
    if c.op in ("and", "not"):
        return (c.op,) + tuple(_cond_key(x) for x in c.args)
    return ("t", c.id)


def nf_term(p):
    """normal form -> term (atoms resolved)"""
    out = C(0)
    for m, c in sorted(p.items()):
        t = C(c)
        den = C(1)
        for a, e in m:
            info = _ATOM_BY_ID[a]
            if isinstance(info, tuple):
                if info[0] == "inv":
                    base = nf_term(info[2])
                    e = -e
                elif info[0] == "sqrt":
                    base = info[1]
                else:
                    base = C(info[1])
            else:
                base = info
            for _ in range(abs(e)):
                if e > 0:
                    t = mul(t, base)
                else:
                    den = mul(den, base)
        out = add(out, div(t, den) if den is not C(1) else t)
    return out


def ratio(root):
    """(num, den) terms with root == num/den, num and den free of division (except under
    uninterpreted atoms)."""
    out = {}
    one = C(1)
    for t in postorder([root]):
        if t.sort == "B":
            continue
        o, a = t.op, t.args
        if o == "add":
            (n1, d1), (n2, d2) = out[a[0].id], out[a[1].id]
            if d1 is d2:
                r = (add(n1, n2), d1)
            elif d1 is one:
                r = (add(mul(n1, d2), n2), d2)
            elif d2 is one:
                r = (add(n1, mul(n2, d1)), d1)
            else:
                r = (add(mul(n1, d2), mul(n2, d1)), mul(d1, d2))
        elif o == "mul":
            (n1, d1), (n2, d2) = out[a[0].id], out[a[1].id]
            r = (mul(n1, n2), mul(d1, d2))
        elif o == "div":
            (n1, d1), (n2, d2) = out[a[0].id], out[a[1].id]
            r = (mul(n1, d2), mul(d1, n2))
        elif o == "toreal":
            r = (toreal(out[a[0].id][0]), out[a[0].id][1])
        else:
            r = (t, one)
        out[t.id] = r
    return out[root.id]


def clear(d, rounds=12):
    """Multiply a normal form through by everything it divides by (assumed non-zero, as the division
    is): the result is zero iff the difference is, up to relations between atoms the normal form knows."""
    for _ in range(rounds):
        neg_, inv = {}, {}
        for m in d:
            for a, e in m:
                info = _ATOM_BY_ID[a]
                if isinstance(info, tuple) and info[0] == "inv":
                    if e > 0:
                        inv[a] = max(inv.get(a, 0), e)
                        continue
                if e < 0:
                    neg_[a] = max(neg_.get(a, 0), -e)
        if not neg_ and not inv:
            return d
        if neg_:
            d = _pmul(d, {tuple(sorted(neg_.items())): 1}, _reduce)
        for a, k in inv.items():
            q = _ATOM_BY_ID[a][2]
            pw = [{(): 1}]
            for _j in range(k):
                pw.append(_pmul(pw[-1], q, _reduce))
            groups = {}
            for m, c in d.items():
                e = dict(m).get(a, 0)
                groups.setdefault(e, {})[tuple(x for x in m if x[0] != a)] = c
            out = {}
            for e, g in groups.items():
                if e > k or e < 0:
                    return d
                for m, c in _pmul(g, pw[k - e], _reduce).items():
                    s = out.get(m, 0) + c
                    if s == 0:
                        out.pop(m, None)
                    else:
                        out[m] = s
            d = out
    return d


_CUTS = {}
_CANON = {}


def _pdiv(p, q, limit=100):
    """exact quotient p/q of two (Laurent) polynomials, or None"""
    if not p:
        return {}
    atoms = sorted({a for m in list(p) + list(q) for a, _ in m})
    key = lambda m: tuple(dict(m).get(a, 0) for a in atoms)
    lead = max(q, key=key)
    inv = {tuple((a, -e) for a, e in lead): 1}
    p, out = dict(p), {}
    for _ in range(limit):
        if not p:
            return out
        m = max(p, key=key)
        step = _pmul({m: Fraction(p[m]) / q[lead]}, inv, _reduce)
        if len(step) != 1:
            return None
        (n, c), = step.items()
        if n in out:
            return None
        out[n] = _q(c)
        for k, v in _pmul(step, q, _reduce).items():
            s = p.get(k, 0) - v
            if s == 0:
                p.pop(k, None)
            else:
                p[k] = s
        if len(p) > 200:
            return None
    return None


def cancel(d, rounds=12):
    """cancel what is divided by against what is multiplied with it, where that goes without remainder"""
    d = dict(d)
    for _ in range(rounds):
        inv = {a for m in d for a, e in m if e > 0 and isinstance(_ATOM_BY_ID[a], tuple) and _ATOM_BY_ID[a][0] == "inv"}
        changed = False
        for a in sorted(inv):
            top = max(dict(m).get(a, 0) for m in d)
            if top <= 0:
                continue
            g = {tuple(x for x in m if x[0] != a): c for m, c in d.items() if dict(m).get(a, 0) == top}
            q = _pdiv(g, _ATOM_BY_ID[a][2])
            if q is None:
                continue
            changed = True
            d = {m: c for m, c in d.items() if dict(m).get(a, 0) != top}
            for m, c in (_pmul(q, {((a, top - 1),): 1}, _reduce) if top > 1 else q).items():
                s = d.get(m, 0) + c
                if s == 0:
                    d.pop(m, None)
                else:
                    d[m] = s
        if not changed:
            break
    return d


def roots(ts, nonneg, limit=300):
    """square roots with what is a square in their argument taken out (nonneg(term): known not to be negative)"""
    memo = {}
    for u in postorder(ts):
        v = rebuild(u, tuple(memo[x.id] if isinstance(x, Sym) else x for x in u.args)) if u.op not in ("const", "var") else u
        if v.op == "fn" and v.args[0] == "sqrt":
            v = _sqrt(v, nonneg, limit)
        memo[u.id] = v
    return [memo[t.id] for t in ts]


def _sqrt(v, nonneg, limit):
    try:
        p0 = nf(v.args[1])
        if not p0 or len(p0) > limit:
            return v
        p = cancel(p0)
    except TooBig:
        return v
    low = None
    for m in p:
        e = dict(m)
        low = e if low is None else {a: min(low.get(a, 0), e.get(a, 0)) for a in set(low) | set(e)}
    low = {a: (e // 2) * 2 for a, e in low.items() if e // 2}
    c = abs(Fraction(_freeze(p)[0][1]))
    if not low and c == 1:
        return v if p is p0 or p == p0 else fn("sqrt", nf_term(p))
    inv = {tuple(sorted((a, -e) for a, e in low.items())): 1}
    rest = {m: _q(Fraction(x) / c) for m, x in _pmul(p, inv, _reduce).items()}
    out = mul(fn("sqrt", C(c)), fn("sqrt", nf_term(rest)))
    for a, e in low.items():
        t = nf_term({((a, 1),): 1})
        if nonneg(t):
            pass
        elif nonneg(neg_num(t)):
            t = neg_num(t)
        else:
            t = ite(ge(t, C(0)), t, neg_num(t))
        for _ in range(abs(e) // 2):
            out = mul(out, t) if e > 0 else div(out, t)
    return out


def neg_num(t):
    return mul(t, C(-1))


def canon(t, k, cancelling=False):
    """Canonical form with bounded polynomials: every subterm is normalised over the canonical forms of
    its parts, and one with more than k monomials becomes an opaque variable identified by that normal
    form.  Equal canonical forms imply equal terms."""
    memo = _CANON.setdefault((k, cancelling), {})
    for u in postorder([t]):
        if u.id in memo:
            continue
        v = rebuild(u, tuple(memo[x.id] if isinstance(x, Sym) else x for x in u.args)) if u.op not in ("const", "var") else u
        if v.sort == "R" and v.op not in ("const", "var"):
            p = cancel(nf(v)) if cancelling else nf(v)
            if len(p) > k:
                f = _freeze(p)
                lead = f[0][1]
                f = tuple((m, _q(Fraction(c) / lead)) for m, c in f)
                if f not in _CUTS:
                    _CUTS[f] = var(f"~cut{len(_CUTS)}")
                v = mul(C(lead), _CUTS[f])
            else:
                v = nf_term(p)
        memo[u.id] = v
    return memo[t.id]
