"""Lowering of terms to z3, and solver statistics."""
import time
from fractions import Fraction

import z3

from . import term as T
from .term import Sym, Unsupported

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "seconds": 0.0, "branch_queries": 0,
         "nf_discharged": 0}

_RS, _IS, _BS = z3.RealSort(), z3.IntSort(), z3.BoolSort()
_UF = {}


def q(fr):
    return z3.Q(fr.numerator, fr.denominator)


class Lower:
    """Memoised lowering; divisions become fresh quotients with their defining equation in
    `self.side`, uninterpreted functions get sound facts (ranges, identities) in `self.side`."""

    def __init__(self):
        self.memo = {}
        self.side = []
        self.fns = {}
        self.n = 0

    def uf(self, name, k):
        key = (name, k)
        if key not in _UF:
            _UF[key] = z3.Function("fn_" + name, *([_RS] * (k + 1)))
        return _UF[key]

    def __call__(self, root):
        m = self.memo
        for t in T.postorder([root]):
            if t.id in m:
                continue
            a = [m[x.id] if isinstance(x, Sym) else x for x in t.args]
            o = t.op
            if o == "const":
                v = t.args[0]
                if t.sort == "B":
                    r = z3.BoolVal(bool(v))
                elif isinstance(v, float):
                    r = z3.Real("inf_pos" if v > 0 else ("inf_neg" if v < 0 else "nan"))
                elif t.sort == "I":
                    r = z3.IntVal(int(v))
                else:
                    r = q(v)
            elif o == "var":
                r = z3.Const(t.args[0], {"R": _RS, "I": _IS, "B": _BS}[t.sort])
            elif o == "add":
                r = self.rr(t, a[0]) + self.rr(t, a[1])
            elif o == "mul":
                r = self.rr(t, a[0]) * self.rr(t, a[1])
            elif o == "div":
                r = z3.Real(f"quot!{t.id}")
                self.side.append(r * a[1] == a[0])
                self.side.append(a[1] != 0)
            elif o == "toreal":
                r = z3.ToReal(a[0])
            elif o == "idiv":
                # python floor division; z3 div floors for positive divisors
                r = z3.If(a[1] > 0, a[0] / a[1], (-a[0]) / (-a[1]))
            elif o == "imod":
                r = z3.If(a[1] > 0, a[0] % a[1], -((-a[0]) % (-a[1])))
            elif o == "lt":
                r = self.co(a)[0] < self.co(a)[1]
            elif o == "le":
                r = self.co(a)[0] <= self.co(a)[1]
            elif o == "eq":
                r = self.co(a)[0] == self.co(a)[1]
            elif o == "beq":
                r = a[0] == a[1]
            elif o == "not":
                r = z3.Not(a[0])
            elif o == "and":
                r = z3.And(*a)
            elif o == "ite":
                b, c = self.co(a[1:])
                r = z3.If(a[0], b, c)
            elif o == "fn":
                name, args = a[0], a[1:]
                r = self.uf(name, len(args))(*args)
                self.facts(name, args, r)
            else:
                raise Unsupported("lower " + o)
            m[t.id] = r
        return m[root.id]

    @staticmethod
    def rr(t, x):
        if t.sort == "R" and z3.is_int(x):
            return z3.ToReal(x)
        return x

    @staticmethod
    def co(a):
        x, y = a
        if z3.is_int(x) and not z3.is_int(y):
            return z3.ToReal(x), y
        if z3.is_int(y) and not z3.is_int(x):
            return x, z3.ToReal(y)
        return x, y

    def facts(self, name, args, r):
        """Sound axioms about the true functions, instantiated at each application."""
        s, x = self.side, args[0]
        key = (name,) + tuple(z.get_id() for z in args)
        prev = self.fns.setdefault(name, [])
        if name in ("sin", "cos"):
            sn, cs = self.uf("sin", 1)(x), self.uf("cos", 1)(x)
            s.append(sn * sn + cs * cs == 1)
            s.append(z3.And(sn <= 1, sn >= -1, cs <= 1, cs >= -1))
            s.append(z3.Implies(x == 0, z3.And(sn == 0, cs == 1)))
        elif name == "sqrt":
            s.append(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
            s.append(z3.Implies(x > 0, r > 0))
        elif name == "exp":
            s.append(r > 0)
            s.append(z3.Implies(x == 0, r == 1))
        elif name == "tanh":
            s.append(z3.And(r < 1, r > -1))
            s.append((x > 0) == (r > 0))
            s.append((x < 0) == (r < 0))
        elif name == "atan":
            s.append((x > 0) == (r > 0))
            s.append((x < 0) == (r < 0))
            s.append(z3.And(r < z3.Q(15707964, 10000000), r > -z3.Q(15707964, 10000000)))
        elif name == "cosh":
            s.append(r >= 1)
        elif name == "floor":
            s.append(r == z3.ToReal(z3.ToInt(x)))
        elif name == "trunc":
            s.append(r == z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x))))
        # oddness / evenness / monotonicity between pairs of applications
        for (y, ry) in prev:
            if y[0].get_id() == x.get_id() and len(y) == 1:
                continue
            if len(args) == 1:
                if name in T.ODD:
                    s.append(z3.Implies(x == -y[0], r == -ry))
                elif name in T.EVEN:
                    s.append(z3.Implies(x == -y[0], r == ry))
                if name in ("atan", "exp", "tanh", "sinh"):
                    s.append((x < y[0]) == (r < ry))
        prev.append((args, r))


def timed_check(solver, kind="queries"):
    t0 = time.time()
    res = solver.check()
    STATS["seconds"] += time.time() - t0
    STATS[kind] += 1
    if kind == "queries":
        STATS[str(res)] += 1
    return res


def num_of(v):
    """z3 numeral -> Fraction / bool / int"""
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        w = v.approx(30)
        return Fraction(w.numerator_as_long(), w.denominator_as_long())
    raise ValueError(str(v))
