"""Path exploration of the real python code over symbolic inputs; solver verdicts; replay."""
import contextlib
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import npshim, smt, sparseshim
from . import term as T
from .term import INF, Sym, Unsupported

TOL = 1e-7


class PathAbort(Exception):
    pass


class Infeasible(PathAbort):
    pass


class Limit(Exception):
    """A stated exploration limit was hit: the verdict would not cover the bound."""


class Violation(Exception):
    def __init__(self, label, detail, assignment=None, path=None):
        super().__init__(f"{label}: {detail}")
        self.label, self.detail, self.assignment, self.path = label, detail, assignment, path


class Inconclusive(Exception):
    pass


class ReplayReject(Exception):
    """Concrete inputs outside the assumptions of the harness."""


QUERY_MS = 20000
BRANCH_MS = 3000


def _flat(a):
    if isinstance(a, Sym):
        return [a]
    arr = np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a
    return list(arr.ravel()) if arr.ndim else [arr.item()]


def _shape(a):
    if isinstance(a, Sym):
        return ()
    return np.shape(a)


class SymCtx:
    symbolic = True

    def __init__(self, eng):
        self.eng = eng

    # ---- inputs
    def real(self, name, lo=None, hi=None, nonzero=False, gt=None, lt=None):
        v = T.var(name, "R")
        self.eng.declare(name, "R")
        for c in ([T.ge(v, T.C(lo))] if lo is not None else []) + ([T.le(v, T.C(hi))] if hi is not None else []) + \
                 ([T.gt(v, T.C(gt))] if gt is not None else []) + ([T.lt(v, T.C(lt))] if lt is not None else []):
            self.eng.assume(c)
        if nonzero:
            self.eng.assume(T.neg(T.eq(v, T.C(0))))
        return v

    def pos(self, name, lo=None, hi=None):
        return self.real(name, gt=0 if lo is None else None, lo=lo, hi=hi)

    def vec(self, name, n, **kw):
        a = np.empty(n, dtype=object)
        for i in range(n):
            a[i] = self.real(f"{name}[{i}]", **kw)
        return a

    def mat(self, name, shape, **kw):
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            a[i] = self.real(f"{name}[{','.join(map(str, i))}]", **kw)
        return a

    def int(self, name, lo, hi):
        v = T.var(name, "I")
        self.eng.declare(name, "I")
        self.eng.assume(T.ge(v, T.CI(lo)))
        self.eng.assume(T.le(v, T.CI(hi)))
        return v

    def bool(self, name):
        v = T.var(name, "B")
        self.eng.declare(name, "B")
        return v

    def choice(self, name, options):
        """A symbolic selector; each feasible option becomes a path."""
        options = list(options)
        v = self.int(name, 0, len(options) - 1)
        return options[int(v)]

    def assume(self, c):
        self.eng.assume(T.asbool(T.lift(c)))
        if not self.eng.feasible():
            raise Infeasible()

    # ---- obligations
    def check(self, label, cond, detail=""):
        self.eng.prove(label, T.asbool(T.lift(cond)), detail)

    def eq(self, label, a, b, tol=None):
        sa, sb = _shape(a), _shape(b)
        if tuple(sa) != tuple(sb):
            self.eng.fail(label, f"shape {sa} != {sb}")
            return
        self.eng.prove_eq(label, _flat(a), _flat(b), tol=tol)

    def le(self, label, a, b, slack=0):
        fa, fb = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        for x, y in zip(fa.ravel(), fb.ravel()):
            self.eng.prove(label, T.le(T.lift(x), T.add(T.lift(y), T.C(slack))), "")

    def ite(self, c, a, b):
        return T.ite(T.lift(c), a, b)

    def max(self, a, b):
        return T.smax(a, b)

    def min(self, a, b):
        return T.smin(a, b)

    def fn(self, name, *a):
        return T.fn(name, *a)

    def all_(self, *cs):
        return T.and_(*[T.lift(c) for c in cs])

    def any_(self, *cs):
        return T.or_(*[T.lift(c) for c in cs])

    def implies(self, a, b):
        return T.implies(T.lift(a), T.lift(b))

    def gradient(self, outs, ins, f=None, x0=None):
        """Exact derivative matrix (object array) of outs w.r.t. the input variables."""
        outs, ins = _flat(outs), _flat(ins)
        g = T.gradient([T.lift(o) for o in outs], ins)
        m = np.empty((len(outs), len(ins)), dtype=object)
        for i in range(len(outs)):
            for j in range(len(ins)):
                m[i, j] = g[i][j]
        return m

    def array(self, x):
        return np.array(x, dtype=object)

    def reached(self, label):
        self.eng.reached(label)

    def raises(self, label, exc, f):
        self.eng.reached(label)
        try:
            f()
        except exc:
            return
        self.eng.fail(label, f"expected {getattr(exc, '__name__', exc)} was not raised")

    def fail(self, label, detail=""):
        self.eng.fail(label, detail)


class ConcCtx:
    """Runs a harness on concrete inputs: the replay of a counterexample on the real code."""
    symbolic = False

    def __init__(self, assignment, rng=None, tol=1e-6, collect=False):
        self.a = dict(assignment)
        self.rng = rng
        self.tol = tol
        self.labels = []
        self.failures = []
        self.collect = collect

    def _get(self, name, gen):
        if name not in self.a:
            self.a[name] = gen(self.rng or random.Random(0))
        return self.a[name]

    def real(self, name, lo=None, hi=None, nonzero=False, gt=None, lt=None):
        def gen(r):
            l = lo if lo is not None else gt
            h = hi if hi is not None else lt
            if l is None and h is None:
                l, h = -2.0, 2.0
            elif h is None:
                h = float(l) + 3.0
            elif l is None:
                l = float(h) - 3.0
            l, h = float(l), float(h)
            if h - l > 1e3 and r.random() < 0.5:
                c = max(l, min(0.0, h)) if l <= 0 <= h else l
                return min(h, max(l, c + r.uniform(-5, 5)))
            return r.uniform(l, h)
        v = float(self._get(name, gen))
        eps = 1e-12
        if (lo is not None and v < float(lo) - eps) or (hi is not None and v > float(hi) + eps) or \
           (gt is not None and v <= float(gt)) or (lt is not None and v >= float(lt)) or (nonzero and v == 0):
            raise ReplayReject(name)
        if lo is not None:
            v = max(v, float(lo))
        if hi is not None:
            v = min(v, float(hi))
        return v

    def pos(self, name, lo=None, hi=None):
        return self.real(name, gt=0 if lo is None else None, lo=lo, hi=hi)

    def vec(self, name, n, **kw):
        return np.array([self.real(f"{name}[{i}]", **kw) for i in range(n)], dtype=float).reshape(n)

    def mat(self, name, shape, **kw):
        a = np.empty(shape, dtype=float)
        for i in np.ndindex(*shape):
            a[i] = self.real(f"{name}[{','.join(map(str, i))}]", **kw)
        return a

    def int(self, name, lo, hi):
        v = int(self._get(name, lambda r: r.randint(lo, hi)))
        if v < lo or v > hi:
            raise ReplayReject(name)
        return v

    def bool(self, name):
        return bool(self._get(name, lambda r: r.random() < 0.5))

    def choice(self, name, options):
        options = list(options)
        return options[self.int(name, 0, len(options) - 1)]

    def assume(self, c):
        if not bool(c):
            raise ReplayReject("assume")

    def _bad(self, label, detail):
        self.failures.append((label, detail))
        if not self.collect:
            raise Violation(label, detail, dict(self.a))

    def check(self, label, cond, detail=""):
        self.labels.append(label)
        if not bool(cond):
            self._bad(label, detail or "condition false")

    def eq(self, label, a, b, tol=None):
        self.labels.append(label)
        if tuple(_shape(a)) != tuple(_shape(b)):
            return self._bad(label, f"shape {_shape(a)} != {_shape(b)}")
        x = np.asarray(a, dtype=float).ravel()
        y = np.asarray(b, dtype=float).ravel()
        # the scale is relative, with room for the cancellation rounding brings
        t = max(self.tol, tol or 0.0)
        with np.errstate(all="ignore"):
            near = np.isfinite(x) & np.isfinite(y) & (np.abs(x - y) <= t * (1 + np.maximum(np.abs(x), np.abs(y))))
            bad = ~((x == y) | near | (np.isnan(x) & np.isnan(y)))
        if np.any(bad):
            i = int(np.nonzero(bad)[0][0])
            self._bad(label, f"element {i}: {x[i]!r} != {y[i]!r}")

    def le(self, label, a, b, slack=0):
        self.labels.append(label)
        x, y = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        bad = ~((x <= y) | (np.isfinite(y) & (x <= y + slack + 1e-9 * (1 + np.where(np.isfinite(y), np.abs(y), 0)))))
        if np.any(bad):
            i = tuple(np.argwhere(bad)[0]) if bad.ndim else ()
            self._bad(label, f"{x[i]!r} > {y[i]!r}")

    def ite(self, c, a, b):
        return a if c else b

    def max(self, a, b):
        return max(a, b)

    def min(self, a, b):
        return min(a, b)

    def fn(self, name, *a):
        return T._FOLD[name](*a)

    def all_(self, *cs):
        return all(bool(c) for c in cs)

    def any_(self, *cs):
        return any(bool(c) for c in cs)

    def implies(self, a, b):
        return (not a) or bool(b)

    def gradient(self, outs, ins, f=None, x0=None):
        """Central differences of f at x0 (order 4)."""
        x0 = np.asarray(x0, dtype=float).ravel()
        n = len(np.asarray(outs, dtype=float).ravel())
        m = np.zeros((n, len(x0)))
        for j in range(len(x0)):
            h = 1e-3 * max(1.0, abs(x0[j]))
            acc = np.zeros(n)
            for k, w in ((-2, 1 / 12), (-1, -2 / 3), (1, 2 / 3), (2, -1 / 12)):
                x = x0.copy()
                x[j] += k * h
                acc += w * np.asarray(f(x), dtype=float).ravel()
            m[:, j] = acc / h
        return m

    def array(self, x):
        return np.array(x, dtype=float)

    def reached(self, label):
        self.labels.append(label)

    def raises(self, label, exc, f):
        self.labels.append(label)
        try:
            f()
        except exc:
            return
        self._bad(label, f"expected {getattr(exc, '__name__', exc)} was not raised")

    def fail(self, label, detail=""):
        self.labels.append(label)
        self._bad(label, detail)


class Engine:
    def __init__(self, max_paths=4000, deadline=None, query_ms=QUERY_MS):
        self.max_paths = max_paths
        self.deadline = deadline
        self.query_ms = query_ms
        self.paths = 0
        self.obligations = 0
        self.labels = {}
        self.fork_sites = 0

    # ---- one path
    def begin(self, prefix):
        self.prefix = prefix
        self.decisions = []
        self.pc = []
        self.inputs = {}
        self.low = smt.Lower()
        self.solver = z3.Solver()
        self.solver.set("timeout", BRANCH_MS)
        self._side_done = 0
        self.dens = []

    def declare(self, name, sort):
        if name in self.inputs and self.inputs[name] != sort:
            raise ValueError("redeclared " + name)
        self.inputs[name] = sort

    def note_den(self, d):
        self.dens.append(d)

    def _assert(self, c):
        z = self.low(c)
        self._flush()
        self.solver.add(z)

    def _flush(self):
        while self._side_done < len(self.low.side):
            self.solver.add(self.low.side[self._side_done])
            self._side_done += 1

    def assume(self, c):
        if c.op == "const":
            if not c.args[0]:
                raise Infeasible()
            return
        self.pc.append(c)
        self._assert(c)

    def feasible(self, *extra):
        zs = [self.low(e) for e in extra]
        self._flush()
        self.solver.push()
        try:
            for z in zs:
                self.solver.add(z)
            r = smt.timed_check(self.solver, "branch_queries")
        finally:
            self.solver.pop()
        return r != z3.unsat

    def _tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Limit("time limit")

    def branch(self, c):
        self._tick()
        i = len(self.decisions)
        if i < len(self.prefix):
            taken = self.prefix[i][1]
            forced = self.prefix[i][2]
        else:
            t = self.feasible(c)
            f = self.feasible(T.neg(c)) if t else True
            if t and f:
                self.fork_sites += 1
                self.pending.append(self.decisions + [("b", False, False)])
                taken, forced = True, False
            else:
                taken, forced = t, True
        self.decisions.append(("b", taken, forced))
        if not forced:
            self.assume(c if taken else T.neg(c))
        return taken

    def concretize(self, t):
        while True:
            self._tick()
            i = len(self.decisions)
            if i < len(self.prefix):
                _, taken, forced, v = self.prefix[i]
                c = T.eq(t, T.CI(v))
            else:
                self.low(t)
                self._flush()
                if smt.timed_check(self.solver, "branch_queries") != z3.sat:
                    raise Inconclusive("cannot concretise an index")
                v = smt.num_of(self.solver.model().eval(self.low(t), model_completion=True))
                c = T.eq(t, T.CI(v))
                if self.feasible(T.neg(c)):
                    self.pending.append(self.decisions + [("c", False, False, v)])
                taken, forced = True, False
            self.decisions.append(("c", taken, forced, v))
            self.assume(c if taken else T.neg(c))
            if taken:
                return int(v)

    # ---- obligations
    def reached(self, label):
        self.labels[label] = self.labels.get(label, 0) + 1

    def _solve(self, extra, kind="queries", ms=None):
        """sat of pc and extra: ('unsat'|'unknown', None) or ('sat', assignment)."""
        self._tick()
        zs = [self.low(e) if isinstance(e, Sym) else e for e in extra]
        s = z3.Solver()
        s.set("timeout", ms or self.query_ms)
        for c in self.pc:
            s.add(self.low(c))
        for z in zs:
            s.add(z)
        for z in self.low.side:
            s.add(z)
        r = smt.timed_check(s, kind)
        if r == z3.sat:
            return "sat", self._assignment(s.model())
        return str(r), None

    def _assignment(self, m):
        out = {}
        for n, sort in self.inputs.items():
            c = z3.Const(n, {"R": z3.RealSort(), "I": z3.IntSort(), "B": z3.BoolSort()}[sort])
            v = smt.num_of(m.eval(c, model_completion=True))
            out[n] = float(v) if sort == "R" else (int(v) if sort == "I" else bool(v))
        return out

    def fail(self, label, detail):
        """The code reached a state that breaks the property outright on this path."""
        self.reached(label)
        self.obligations += 1
        r, a = self._solve([])
        if r == "unsat":
            return
        raise Violation(label, detail, a, list(self.decisions))

    def prove(self, label, cond, detail=""):
        self.reached(label)
        self.obligations += 1
        if cond.op == "const":
            if cond.args[0]:
                return
            return self.fail(label, detail or "condition is false")
        if cond.op == "and":
            for c in cond.args:
                self.prove(label, c, detail)
            return
        big = cond.op in ("le", "lt") and T.size([cond]) >= 60
        r, a = self._solve([T.neg(cond)], ms=min(self.query_ms, 2000) if big else None)
        if big and r == "unknown":
            if self._easier(cond):
                return
            r, a = self._solve([T.neg(cond)])
        if r == "unsat":
            return
        if r == "sat":
            raise Violation(label, detail or T.show(cond), a, list(self.decisions))
        raise Violation(label, "solver: unknown", None, list(self.decisions))

    def _easier(self, cond):
        """an inequality between large rational terms, with common factors cancelled and large subterms
        left opaque (sound: more general than what is asked)"""
        for k in (8, 40):
            try:
                d = T.nf(T.sub(T.canon(cond.args[0], k, True), T.canon(cond.args[1], k, True)))
                e = T.cancel(d)
            except T.TooBig:
                continue
            t = (T.le if cond.op == "le" else T.lt)(T.nf_term(e), T.C(0))
            if t.op == "const":
                if t.args[0]:
                    return True
                continue
            if self._isolated(t):
                return True
        return False

    def _isolated(self, t, ms=3000):
        """decided on its own, function arguments left opaque, with the assumptions about its variables only"""
        out = {}
        for u in T.postorder([t]):
            a = tuple(out[x.id] if isinstance(x, Sym) else x for x in u.args)
            if u.op == "fn" and u.args[0] in ("sin", "cos", "tanh", "exp", "atan") and a[1].op not in ("var", "const"):
                a = (a[0], T.var(f"~arg{u.args[1].id}"))
            out[u.id] = T.rebuild(u, a) if u.op not in ("const", "var") else u
        t = out[t.id]
        names = {v.id for v in T.variables([t])}
        low = smt.Lower()
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(low(T.neg(t)))
        for c in self.pc:
            vs = {v.id for v in T.variables([c])}
            if vs and vs <= names:
                s.add(low(c))
        for z in low.side:
            s.add(z)
        return smt.timed_check(s) == z3.unsat

    def prove_eq(self, label, xs, ys, tol=None):
        self.reached(label)
        hard, raws = [], []
        for i, (x, y) in enumerate(zip(xs, ys)):
            self.obligations += 1
            xs_, ys_ = isinstance(x, Sym), isinstance(y, Sym)
            if not xs_ and not ys_:
                fx, fy = float(x), float(y)
                near = abs(fx) < INF and abs(fy) < INF and abs(fx - fy) <= (tol or TOL) * (1 + max(abs(fx), abs(fy)))
                if not (fx == fy or near or (fx != fx and fy != fy)):
                    return self.fail(label, f"element {i}: {fx!r} != {fy!r}")
                continue
            a, b = T.lift(x), T.lift(y)
            if a is b:
                smt.STATS["nf_discharged"] += 1
                continue
            if a.sort == "B" or b.sort == "B":
                hard.append((i, a, b))
                continue
            exact, d = False, None
            if self._abstract_same(a, b):
                d, exact = {}, True
            else:
                try:
                    d = T.nf(T.sub(a, b))
                    exact = not d
                    d = {} if exact or self._split(a, b) else self._residual(d, a, b, tol)
                except T.TooBig:
                    d = None
            if d is not None and not d:
                # the normaliser rewrote the difference to 0 (it is a preprocessing step of
                # the query); small instances are given to the solver unnormalised as well
                smt.STATS["nf_discharged"] += 1
                if exact:
                    raws.append((a, b))
                continue
            hard.append((i, a, b))
        self._raw(label, raws)
        for i, a, b in hard:
            if a.sort == "B" or b.sort == "B":
                self._prove_eq1(label, i, a, b, tol)
                continue
            rest = self._cases(a, b, tol)
            if rest is None:
                self._prove_eq1(label, i, a, b, tol)
                continue
            for conds, x, y in rest:  # the cases left over, one query each
                self._prove_eq1(label, i, x, y, tol, conds)

    def _same(self, a, b, tol):
        """equal by normalisation (polynomial arithmetic, common denominators)"""
        if a is b:
            return True
        if self._abstract_same(a, b):
            return True
        try:
            return not self._residual(T.nf(T.sub(a, b)), a, b, tol)
        except T.TooBig:
            return False

    def _abstract_same(self, a, b):
        """with large subterms left opaque (sound: more general than what is asked)"""
        if T.size([a, b]) < 60:
            return False
        for k in (8, 40):
            try:
                x, y = T.canon(a, k), T.canon(b, k)
                if x is y:
                    return True
                d = T.nf(T.sub(x, y))
                if not d or _divides(d) and not T.clear(d):
                    return True
            except T.TooBig:
                pass
        return False

    def _residual(self, d, a, b, tol):
        if d and _small(d, T.nf(a), T.nf(b), tol):
            d = self._rounding(d, tol)
        if d and _divides(d):
            nn = T.clear(d)
            if not nn or _small(nn, {(): Fraction(1)}, nn, tol):
                return {}
            nn = T.nf(T.ratio(T.nf_term(d))[0])
            if not nn or _small(nn, {(): Fraction(1)}, nn, tol):
                return {}
        return d

    def _cases(self, a, b, tol, limit=64):
        """Split on the conditions inside the two terms: -> remaining cases [(conditions, a, b)]
        that normalisation does not decide, or None if there is nothing to split / too much."""
        a0, b0 = a, b
        if any(t.op == "fn" and t.args[0] == "sqrt" for t in T.postorder([a, b])):
            signs = {}

            def nonneg(t):
                if t.id not in signs:
                    signs[t.id] = (t, T.size([t]) <= 60 and self._isolated(T.ge(t, T.C(0)), 300))
                return signs[t.id][1]
            a, b = T.roots([a, b], nonneg)
        a, b = self._settled(a, b)
        settled = a is not a0 or b is not b0
        todo, rest, n = [((), a, b)], [], 0
        while todo:
            conds, x, y = todo.pop()
            n += 1
            if n > limit:
                return None
            c = next((t.args[0] for t in T.postorder([x, y]) if t.op == "ite"), None)
            if c is None:
                if not conds and not settled:
                    return None
                if not self._same(x, y, tol):
                    rest.append((conds, x, y))
                continue
            if self._same(x, y, tol):
                continue
            while c.op in ("and", "not"):
                c = c.args[0]
            for v in (True, False):
                x2, y2 = T.substitute([x, y], _implied(c, v, x, y))
                todo.append((conds + ((c if v else T.neg(c)),), x2, y2))
        smt.STATS["nf_discharged"] += 0 if rest else 1
        return rest

    def _split(self, a, b, limit=100):
        """equal in every case of the conditions inside the terms, by cheap normalisation only"""
        todo, n = [(a, b)], 0
        if not _has(("ite",), a, b):
            return False
        while todo:
            x, y = todo.pop()
            n += 1
            if n > limit:
                return False
            if x is y or self._abstract_same(x, y):
                continue
            try:
                if not T.nf(T.sub(x, y)):
                    continue
            except T.TooBig:
                return False
            c = next((t.args[0] for t in T.postorder([x, y]) if t.op == "ite"), None)
            if c is None:
                return False
            while c.op in ("and", "not"):
                c = c.args[0]
            for v in (True, False):
                todo.append(T.substitute([x, y], _implied(c, v, x, y)))
        smt.STATS["nf_discharged"] += 1
        return True

    def _settled(self, *ts):
        """with the conditions that the assumptions decide replaced by their value"""
        known = {}
        for t in T.postorder(ts):
            if t.op == "ite" and t.args[0].id not in known and T.size([t.args[0]]) <= 30:
                c = t.args[0]
                known[c.id] = (c, T.B(True) if self._isolated(c, 200) else T.B(False) if self._isolated(T.neg(c), 200) else None)
        mapping = {c: v for c, v in known.values() if v is not None}
        return T.substitute(list(ts), mapping) if mapping else ts

    def _raw(self, label, pairs):
        """Give the solver the un-normalised equations too, a chunk per query.  The normaliser is
        exact polynomial arithmetic; this cross-checks it and measures what z3 decides alone."""
        chunk, misses = [], 0
        for k, (a, b) in enumerate(pairs):
            if T.size([a, b]) <= 300:
                chunk.append((a, b))
            if chunk and (len(chunk) >= 20 or k == len(pairs) - 1):
                low = smt.Lower()
                s = z3.Solver()
                s.set("timeout", 500)
                s.add(z3.Or(*[low(a) != low(b) for a, b in chunk]))
                for z in low.side:
                    s.add(z)
                for c in self.pc:
                    s.add(low(c))
                for z in low.side:
                    s.add(z)
                r = smt.timed_check(s)
                if r == z3.sat:
                    raise Inconclusive(f"normaliser and solver disagree at {label}")
                if r == z3.unsat:
                    smt.STATS["raw_discharged"] = smt.STATS.get("raw_discharged", 0) + len(chunk)
                else:
                    misses += 1
                    if misses >= 1:
                        return
                chunk = []

    def _rounding(self, d, tol):
        """Residual whose coefficients are at rounding level: LRA query with each monomial an
        unknown of magnitude <= 1 (relative to the size of the terms compared)."""
        s = z3.Solver()
        e = z3.RealVal(0)
        for k, (m, c) in enumerate(d.items()):
            v = z3.Real(f"mono{k}")
            s.add(v <= 1, v >= -1)
            e = e + smt.q(c) * v
        t = smt.q(Fraction(tol or TOL) * max(1, len(d)))
        s.add(z3.Or(e > t, e < -t))
        r = smt.timed_check(s)
        return {} if r == z3.unsat else d

    def _prove_eq1(self, label, i, a, b, tol, given=()):
        if a.sort == "B" or b.sort == "B":
            return self.prove(label, T.eq(T.asbool(a), T.asbool(b)), f"element {i}")
        d = T.sub(a, b)
        try:
            p = T.nf(d)
            if len(p) < 400:
                d2 = T.nf_term(p)
                if T.size([d2]) < T.size([d]) * 2:
                    d = d2
        except T.TooBig:
            pass
        margin = T.C(tol or 1e-6)
        # a clear-cut difference first: it replays in floating point
        for mg, ms in ((T.C(Fraction(1, 100)), self.query_ms // 4), (margin, self.query_ms)):
            r, asg = self._solve(list(given) + [T.or_(T.gt(d, mg), T.lt(d, T.mul(T.C(-1), mg)))], ms=ms)
            if r == "sat":
                raise Violation(label, f"element {i}: {T.show(a)} != {T.show(b)}", asg, list(self.decisions))
        if r == "unsat":
            return
        raise Violation(label, f"element {i}: solver unknown", None, list(self.decisions))


def _implied(c, v, x, y):
    """the conditions inside x and y that a condition (or its negation) settles"""
    out = {c: T.B(v)}
    if c.op not in ("lt", "le"):
        return out
    try:
        strict, p = _sided(c)
        neg = {m: -k for m, k in p.items()}
        for t in T.postorder([x, y]):
            if t.op in ("lt", "le") and t is not c:
                s, q = _sided(t)
                if q == p:  # p < 0 / p <= 0
                    if v and (strict or not s):
                        out[t] = T.B(True)
                    elif not v and (s or not strict):
                        out[t] = T.B(False)
                elif q == neg:  # -p < 0 / -p <= 0
                    if v and (strict or s):
                        out[t] = T.B(False)
                    elif not v and (not s or not strict):
                        out[t] = T.B(True)
    except T.TooBig:
        pass
    return out


def _sided(c):
    """the condition as (strict, p) for p < 0 or p <= 0, p scaled"""
    d = T.nf(T.sub(c.args[0], c.args[1]))
    if d:
        k = abs(T._freeze(d)[0][1])
        d = {m: Fraction(x) / k for m, x in d.items()}
    return c.op == "lt", d


def _divides(d):
    return any(e < 0 or (isinstance(T._ATOM_BY_ID[a], tuple) and T._ATOM_BY_ID[a][0] == "inv") for m in d for a, e in m)


def _has(ops, *ts):
    return any(t.op in ops for t in T.postorder(ts))


def _small(d, pa, pb, tol):
    ref = max([abs(c) for c in pa.values()] + [abs(c) for c in pb.values()] + [Fraction(0)])
    if ref == 0:
        return False
    t = Fraction(tol or TOL) * max(ref, 1)
    return all(abs(c) <= t for c in d.values())


def run_concrete(harness, params, assignment, rng=None, tol=1e-6):
    """-> ('ok', ctx) | ('reject', None) | ('violation', Violation)"""
    ctx = ConcCtx(assignment, rng, tol)
    saved = T.ENGINE[0]
    T.ENGINE[0] = None
    try:
        with np.errstate(all="ignore"):
            harness(ctx, **params)
        return "ok", ctx
    except ReplayReject:
        return "reject", None
    except Violation as v:
        return "violation", v
    except Exception as e:  # the property promises a result here: a crash breaks it
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb)), "?")
        return "violation", Violation("exception", f"{type(e).__name__}: {e} (in {where})", dict(ctx.a))
    finally:
        T.ENGINE[0] = saved


def confirm(harness, params, v, seed, tries=60):
    """Replay a solver counterexample on the real code (floats).  If the solver's own point
    does not reproduce (e.g. its sin() is not the real one), try concrete points near it and
    in the same domain.  Returns the confirmed Violation or None."""
    rng = random.Random(seed)
    cands = []
    if v.assignment:
        cands.append(dict(v.assignment))
        for sc in (1e-3, 0.1, 0.5):
            c = {}
            for k, x in v.assignment.items():
                c[k] = x + rng.uniform(-1, 1) * sc * max(1.0, abs(x)) if isinstance(x, float) else x
            cands.append(c)
        discrete = {k: x for k, x in v.assignment.items() if not isinstance(x, float)}
    else:
        discrete = {}
    for _ in range(tries):
        cands.append(dict(discrete))
    for c in cands:
        r, out = run_concrete(harness, params, c, rng)
        if r == "violation":
            if out.assignment is None:
                out.assignment = c
            return out
    return None


def explore(harness, params, seed=1, max_paths=4000, deadline=None, query_ms=QUERY_MS, patch=True):
    """Explore all feasible paths.  Returns result dict."""
    t0 = time.time()
    eng = Engine(max_paths, deadline, query_ms)
    eng.pending = [[]]
    res = {"status": "ok", "paths": 0, "violation": None, "note": ""}
    witness = None
    rej = 0
    while eng.pending:
        prefix = eng.pending.pop()
        if eng.paths >= max_paths:
            res["status"], res["note"] = "inconclusive", f"more than {max_paths} paths"
            break
        eng.begin(prefix)
        T.ENGINE[0] = eng
        v = None
        try:
            with contextlib.ExitStack() as st:
                if patch:
                    st.enter_context(sparseshim.symbolic_sparse())
                    st.enter_context(npshim.symbolic_numpy())
                harness(SymCtx(eng), **params)
            eng.paths += 1
        except Infeasible:
            rej += 1
            continue
        except PathAbort:
            continue
        except Violation as e:
            v = e
        except Limit as e:
            res["status"], res["note"] = "inconclusive", str(e)
            break
        except Inconclusive as e:
            res["status"], res["note"] = "inconclusive", str(e)
            break
        except MemoryError:
            res["status"], res["note"] = "inconclusive", "memory limit"
            break
        except Exception as e:
            tb = "".join(traceback.format_exception(e)[-6:])
            r, a = eng._solve([])
            if r == "unsat":
                continue
            v = Violation("exception", f"{type(e).__name__}: {e}", a, list(eng.decisions))
            v.tb = tb
        finally:
            T.ENGINE[0] = None
        if v is not None:
            c = confirm(harness, params, v, seed)
            if c is not None:
                res["status"] = "violation"
                res["violation"] = {"label": c.label, "detail": c.detail, "assignment": c.assignment,
                                    "symbolic_label": v.label, "symbolic_detail": v.detail}
            else:
                res["status"] = "inconclusive"
                res["note"] = f"{v.label}: {v.detail} did not reproduce on the real code\n" + getattr(v, "tb", "")
            break
        if witness is None:
            # vacuity: the path condition is satisfiable, and the real code run on a model
            # of it reaches the obligations
            r, a = eng._solve([])
            if r == "sat":
                k, out = run_concrete(harness, params, a)
                if k == "ok" and out.labels:
                    witness = {"inputs": a, "labels": sorted(set(out.labels))}
                elif k == "violation":
                    c = out
                    res["status"] = "violation"
                    res["violation"] = {"label": c.label, "detail": c.detail, "assignment": c.assignment,
                                        "symbolic_label": "(witness run)", "symbolic_detail": ""}
                    break
    if res["status"] == "ok" and witness is None:
        # domain sampling for a witness (a solver model can use uninterpreted functions)
        rng = random.Random(seed)
        for _ in range(40):
            k, out = run_concrete(harness, params, {}, rng)
            if k == "ok" and out.labels:
                witness = {"inputs": out.a, "labels": sorted(set(out.labels))}
                break
            if k == "violation":
                res["status"] = "violation"
                res["violation"] = {"label": out.label, "detail": out.detail, "assignment": out.assignment,
                                    "symbolic_label": "(witness run)", "symbolic_detail": ""}
                break
    if res["status"] == "ok" and (eng.paths == 0 or eng.obligations == 0 and not eng.labels):
        res["status"], res["note"] = "inconclusive", "vacuous: no obligation reached"
    if res["status"] == "ok" and witness is None:
        res["status"], res["note"] = "inconclusive", "vacuous: no concrete witness"
    res.update(paths=eng.paths, obligations=eng.obligations, labels=eng.labels, witness=witness,
               forks=eng.fork_sites, wall=time.time() - t0, stats=dict(smt.STATS))
    return res
