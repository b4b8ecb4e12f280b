"""Dense stand-in for scipy.sparse matrices holding symbolic scalars.

Entries that are identically zero terms count as structural zeros, everything else as
structurally non-zero (scipy would drop an entry only where it evaluates to exactly 0)."""
import contextlib
import sys

import numpy as np
import scipy.sparse as sp

from . import term as T
from .npshim import has_sym
from .term import Sym


def _iszero(v):
    if isinstance(v, Sym):
        if v.op == "const":
            return v.args[0] == 0
        try:
            return not T.nf(v)
        except T.TooBig:
            return False
    return v == 0


class SymSparse:
    __array_priority__ = 2000.0

    def __init__(self, arg, shape=None, dtype=None, copy=False):
        if isinstance(arg, SymSparse):
            self.a = arg.a.copy()
        elif isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], tuple):
            vals, (rows, cols) = arg
            vals = np.ravel(np.asarray(vals, dtype=object))
            rows, cols = np.ravel(rows).astype(int), np.ravel(cols).astype(int)
            if shape is None:
                shape = (int(rows.max()) + 1, int(cols.max()) + 1)
            if len(vals) != len(rows) or len(rows) != len(cols):
                raise ValueError("row, column, and data array must all be the same length")
            a = np.empty(shape, dtype=object)
            a.fill(0.0)
            for v, r, c in zip(vals, rows, cols):
                if r < 0 or c < 0 or r >= shape[0] or c >= shape[1]:
                    raise ValueError("index exceeds matrix dimensions")
                a[r, c] = a[r, c] + v
            self.a = a
        else:
            self.a = np.array(todense(arg), dtype=object)
        if self.a.ndim == 1:
            self.a = self.a.reshape(1, -1)

    @property
    def shape(self):
        return self.a.shape

    @property
    def T(self):
        return SymSparse(self.a.T)

    def transpose(self):
        return self.T

    def toarray(self):
        return self.a.copy()

    todense = toarray
    A = property(toarray)

    def tocsc(self):
        return self

    tocsr = tocoo = tocsc

    def copy(self):
        return SymSparse(self.a)

    def nonzero(self):
        r, c = [], []
        for j in range(self.a.shape[1]):
            for i in range(self.a.shape[0]):
                if not _iszero(self.a[i, j]):
                    r.append(i)
                    c.append(j)
        return np.array(r, dtype=np.int32), np.array(c, dtype=np.int32)

    @property
    def nnz(self):
        return len(self.nonzero()[0])

    @property
    def data(self):
        r, c = self.nonzero()
        return self.a[r, c]

    def __getitem__(self, k):
        out = self.a[k]
        if not isinstance(out, np.ndarray):
            return out
        if isinstance(k, tuple) and all(isinstance(i, (np.ndarray, list)) for i in k):
            return out.reshape(1, -1)
        if isinstance(k, tuple) and out.ndim == 1:
            # scipy keeps two dimensions
            out = out.reshape(-1, 1) if np.isscalar(k[1]) else out.reshape(1, -1)
        return SymSparse(out)

    def _o(self, o):
        return o.a if isinstance(o, SymSparse) else todense(o)

    def __matmul__(self, o):
        r = self.a @ self._o(o)
        return SymSparse(r) if isinstance(o, SymSparse) or sp.issparse(o) else r

    def __rmatmul__(self, o):
        return self._o(o) @ self.a

    dot = __matmul__

    def __mul__(self, o):
        if isinstance(o, (int, float, Sym)):
            return SymSparse(self.a * o)
        return self @ o

    __rmul__ = __mul__

    def multiply(self, o):
        return SymSparse(self.a * self._o(o))

    def __add__(self, o):
        return SymSparse(self.a + self._o(o))

    __radd__ = __add__

    def __sub__(self, o):
        return SymSparse(self.a - self._o(o))

    def __rsub__(self, o):
        return SymSparse(self._o(o) - self.a)

    def __neg__(self):
        return SymSparse(-self.a)

    def ravel(self):
        return self.a.ravel()

    def tolil(self):
        return self

    todok = tocoo_ = tolil

    def __setitem__(self, k, v):
        self.a[k] = v.a if isinstance(v, SymSparse) else v

    @property
    def row(self):
        return self.nonzero()[0]

    @property
    def col(self):
        return self.nonzero()[1]

    def getrow(self, i):
        return SymSparse(self.a[i:i + 1])

    def getcol(self, j):
        return SymSparse(self.a[:, j:j + 1])

    def eliminate_zeros(self):
        pass

    sum_duplicates = eliminate_zeros

    def sum(self, axis=None):
        return self.a.sum(axis=axis)

    def astype(self, _t):
        return self

    def diagonal(self):
        return np.diagonal(self.a)


def todense(x):
    if isinstance(x, SymSparse):
        return x.a
    if sp.issparse(x):
        return x.toarray()
    return np.asarray(x)


def _ctor(orig):
    def f(arg, shape=None, **k):
        if isinstance(arg, tuple) and len(arg) == 2 and not isinstance(arg[1], tuple) and np.isscalar(arg[0]):
            return SymSparse(np.zeros(arg))
        if isinstance(arg, tuple) and len(arg) == 3:
            data, indices, indptr = arg
            if has_sym(data):
                raise T.Unsupported("compressed constructor with symbolic data")
            return SymSparse(orig((np.asarray(data, dtype=float), indices, indptr), shape=shape))
        return SymSparse(arg, shape)
    return f


def _stack(name):
    def f(blocks, format=None, dtype=None):
        return SymSparse(getattr(np, name)([todense(b) for b in blocks]))
    return f


def _block_diag(mats, format=None, dtype=None):
    ms = [np.atleast_2d(todense(m)) for m in mats]
    a = np.zeros((sum(m.shape[0] for m in ms), sum(m.shape[1] for m in ms)), dtype=object)
    r = c = 0
    for m in ms:
        a[r:r + m.shape[0], c:c + m.shape[1]] = m
        r, c = r + m.shape[0], c + m.shape[1]
    return SymSparse(a)


def _bmat(blocks, format=None, dtype=None):
    hs = [next(np.atleast_2d(todense(b)).shape[0] for b in row if b is not None) for row in blocks]
    ws = [next(np.atleast_2d(todense(row[j])).shape[1] for row in blocks if row[j] is not None)
          for j in range(len(blocks[0]))]
    return SymSparse(np.vstack([np.hstack([
        np.zeros((h, w), dtype=object) if b is None else np.atleast_2d(todense(b)) for b, w in zip(row, ws)])
        for row, h in zip(blocks, hs)]))


def _diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    if not has_sym(np.asarray(diagonals, dtype=object) if np.ndim(diagonals) == 1 else
                   np.concatenate([np.ravel(np.asarray(d, dtype=object)) for d in diagonals])):
        return SymSparse(sp.diags(diagonals, offsets, shape=shape))
    if np.ndim(offsets) == 0:
        diagonals, offsets = [diagonals], [offsets]
    if shape is None:
        n = len(diagonals[0]) + abs(offsets[0])
        shape = (n, n)
    a = np.zeros(shape, dtype=object)
    for d, o in zip(diagonals, offsets):
        d = np.ravel(np.asarray(d, dtype=object))
        n = min(shape[0] + min(o, 0), shape[1] - max(o, 0))
        for i in range(n):
            a[i - min(o, 0), i + max(o, 0)] = d[i if len(d) > 1 else 0]
    return SymSparse(a)


def _wrap(name):
    orig = getattr(sp, name)

    def f(*a, **k):
        return SymSparse(orig(*a, **k))
    return f


def _kron(a, b, format=None):
    return SymSparse(np.kron(todense(a), todense(b)))


def _find(a):
    a = a if isinstance(a, SymSparse) else SymSparse(a)
    r, c = a.nonzero()
    return r, c, a.a[r, c]


class _Mod:
    def __init__(self):
        for n in _SHIM:
            setattr(self, n, _SHIM[n])

    def __getattr__(self, n):
        return getattr(sp, n)


CTORS = ("csc_matrix", "csr_matrix", "coo_matrix", "csc_array", "csr_array", "coo_array")
_SHIM = {n: _ctor(getattr(sp, n)) for n in CTORS}
_SHIM.update({n: _stack(n) for n in ("vstack", "hstack")})
_SHIM.update({"block_diag": _block_diag, "bmat": _bmat, "diags": _diags, "kron": _kron, "find": _find,
              "eye": _wrap("eye"), "identity": _wrap("identity")})
_ORIG = {id(getattr(sp, n)): n for n in _SHIM}
_MOD = _Mod()


@contextlib.contextmanager
def symbolic_sparse():
    undo = []
    for mname, mod in list(sys.modules.items()):
        if not (mname == "lumos" or mname.startswith("lumos.")) or mod is None:
            continue
        d = vars(mod)
        for k, v in list(d.items()):
            if v is sp:
                undo.append((d, k, v))
                d[k] = _MOD
            elif id(v) in _ORIG and getattr(sp, _ORIG[id(v)]) is v and callable(v):
                undo.append((d, k, v))
                d[k] = _SHIM[_ORIG[id(v)]]
    try:
        yield
    finally:
        for d, k, v in undo:
            d[k] = v
