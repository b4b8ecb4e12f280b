"""The compiled backends of lumos inside a symbolic run.

`captured(ctx)`: jax.jit becomes a wrapper which traces the function with jax once per signature (as jit
does) and interprets the traced program on terms; casadi code generation records the functions that are
generated and `casadi.external` hands them back as programs that casadi itself evaluates on numbers and
that are interpreted instruction by instruction on terms.  On concrete runs nothing is replaced."""
import contextlib
import os
import shutil
import tempfile

import casadi
import jax
import numpy as np

from . import cas as C
from . import jaxpr as J
from . import npshim
from .term import Sym


class Dense:
    """what a casadi function returns: a matrix with its sparsity pattern"""

    def __init__(self, m, sp):
        self.m, self.sp = m, sp

    def __array__(self, dtype=None):
        return self.m.copy() if dtype is None else self.m.astype(dtype)

    @property
    def shape(self):
        return self.m.shape

    size = property(lambda self: (lambda *a: self.m.shape if not a else self.m.shape[a[0] - 1]))

    @property
    def T(self):
        return Dense(self.m.T, self.sp.T())

    def nnz(self):
        return self.sp.nnz()

    def nonzeros(self):
        r, c = self.sp.get_triplet()
        return [self.m[i, j] for i, j in zip(r, c)]

    def full(self):
        return self.m.copy()

    toarray = full

    # arithmetic with numbers and vectors (a 1-d array is a column) as casadi does it
    __array_priority__ = 1e6
    __array_ufunc__ = None

    def _with(self, o, f, keep):
        o = o.m if isinstance(o, Dense) else _fit(o, self.m.shape)
        return Dense(np.frompyfunc(f, 2, 1)(self.m, o), self.sp if keep else casadi.Sparsity.dense(*self.m.shape))

    def __truediv__(self, o):
        return self._with(o, lambda a, b: a / b, True)

    def __mul__(self, o):
        return self._with(o, lambda a, b: a * b, True)

    __rmul__ = __mul__

    def __add__(self, o):
        return self._with(o, lambda a, b: a + b, False)

    __radd__ = __add__

    def __sub__(self, o):
        return self._with(o, lambda a, b: a - b, False)

    def __rsub__(self, o):
        return self._with(o, lambda a, b: b - a, False)

    def __neg__(self):
        return self._with(-1.0, lambda a, b: a * b, True)

    def __getattr__(self, n):
        raise AttributeError("casadi result: " + n)


def _fit(a, shape):
    """casadi's rules for a dense argument"""
    a = np.asarray(a, dtype=object)
    if a.ndim == 0:
        a = a.reshape(1, 1)
    elif a.ndim == 1:
        a = a.reshape(-1, 1)
    if tuple(a.shape) == tuple(shape):
        return a
    if a.size == 1:
        o = np.empty(shape, dtype=object)
        o[...] = a[0, 0]
        return o
    if a.shape == tuple(reversed(shape)) and 1 in shape:
        return a.T
    if a.size == 0 and int(np.prod(shape)) == 0:
        return a.reshape(shape)
    raise RuntimeError(f"casadi: mismatching shape {a.shape}, expected {shape}")


class Program:
    def __init__(self, f):
        self.f = f
        self.e = None

    def name(self):
        return self.f.name()

    def __getattr__(self, n):
        return getattr(self.f, n)

    def _one(self, args):
        if self.e is None:
            self.e = self.f.expand() if not self.f.is_a("SXFunction") else self.f
        return C.interpret(self.e, args)

    def __call__(self, *args):
        args = [_fit(a, self.f.sparsity_in(i).shape) for i, a in enumerate(args)]
        o = [Dense(m, self.f.sparsity_out(i)) for i, m in enumerate(self._one(args))]
        return o[0] if len(o) == 1 else tuple(o)

    def map(self, n, *kind):
        return _Mapped(self, n)


class _Mapped:
    def __init__(self, prog, n):
        self.prog, self.n = prog, n

    def __call__(self, *args):
        f, n = self.prog.f, self.n
        if len(args) != f.n_in():
            raise RuntimeError("casadi: wrong number of arguments")
        fit = []
        for i, a in enumerate(args):
            r, c = f.sparsity_in(i).shape
            fit.append(_fit(a, (r, c * n)))
        outs = [[] for _ in range(f.n_out())]
        for k in range(n):
            part = [a[:, k * f.sparsity_in(i).shape[1]:(k + 1) * f.sparsity_in(i).shape[1]] for i, a in enumerate(fit)]
            for i, m in enumerate(self.prog._one(part)):
                outs[i].append(m)
        res = []
        for i, ms in enumerate(outs):
            sp = f.sparsity_out(i)
            m = np.empty((sp.shape[0], sp.shape[1] * n), dtype=object)
            for k, x in enumerate(ms):
                m[:, k * sp.shape[1]:(k + 1) * sp.shape[1]] = x
            res.append(Dense(m, casadi.horzcat(*[casadi.DM(sp, 1.0)] * n).sparsity()))
        return res[0] if len(res) == 1 else tuple(res)


def _has_sym(leaves):
    return any(isinstance(v, Sym) for x in leaves for v in (np.ravel(x) if np.shape(x) else [x]))


class Jit:
    def __init__(self, ctx, f):
        self.ctx, self.f, self.cache, self.real = ctx, f, {}, None

    def __call__(self, *args, **kw):
        leaves, tree = jax.tree_util.tree_flatten((args, kw))
        if not any(np.asarray(x).dtype == object for x in leaves) or \
                any(isinstance(x, jax.core.Tracer) for x in leaves):
            npshim._OFF[0] += 1
            try:
                with npshim.real_numpy():
                    return self.f(*args, **kw)
            finally:
                npshim._OFF[0] -= 1
        key = (tree, tuple(np.shape(x) for x in leaves))
        if key not in self.cache:
            self.cache[key] = J.trace(lambda a, k: self.f(*a, **k), *jax.tree_util.tree_unflatten(tree, leaves))
        return self.cache[key](leaves)


@contextlib.contextmanager
def _scratch():
    """casadi writes its source and library into the current directory"""
    cwd = os.getcwd()
    d = tempfile.mkdtemp(prefix="symx")
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def captured(ctx):
    with _scratch(), _captured(ctx) as g:
        yield g


@contextlib.contextmanager
def _captured(ctx):
    if not ctx.symbolic:
        yield {}
        return
    import lumos.models.base as base
    gen = {}

    class Generator:
        def __init__(self, name, *a, **k):
            self.path = name

        def add(self, f, *a):
            gen[f.name()] = f

        def add_include(self, *a, **k):
            pass

        def generate(self, prefix="", *a):
            with open(prefix + self.path, "w") as fh:
                fh.write("int symx_unused;\n")
            return prefix + self.path

    def external(name, *a, **k):
        return Program(gen[name])
    undo = []

    def put(obj, name, val):
        undo.append((obj, name, getattr(obj, name)))
        setattr(obj, name, val)

    def jit(f=None, *a, **k):
        if f is None:
            return lambda g: Jit(ctx, g)
        return Jit(ctx, f)
    try:
        put(casadi, "CodeGenerator", Generator)
        put(casadi, "external", external)
        put(jax, "jit", jit)
        if getattr(base, "jit", None) is not None:
            put(base, "jit", jit)
        yield gen
    finally:
        for o, n, v in reversed(undo):
            setattr(o, n, v)


_CC = """#!/bin/sh
ctl="@CTL@"
out=a.out src= prev=
for a in "$@"; do
  [ "$prev" = -o ] && out="$a"
  case "$a" in *.c) src="$a" ;; esac
  prev="$a"
done
compile() { @COMPILE@; }
if mv "$ctl/pause" "$ctl/taken" 2>/dev/null; then
  # one compilation is held up at this point, until it is told how to go on
  point=$(cat "$ctl/taken")
  [ "$point" = start ] || compile "$@"
  if [ "$point" = middle ]; then
    head -c 40 "$out" > "$ctl/part" && cat "$ctl/part" > "$out"
  fi
  : > "$ctl/held"
  n=0
  while [ ! -e "$ctl/go" ] && [ $n -lt 3000 ]; do sleep 0.04; n=$((n + 1)); done
  [ "$(cat "$ctl/go")" = fail ] && exit 1
  [ "$point" = end ] && exit 0
fi
compile "$@"
"""
# in place of a C compiler: the source is the library
_COPY = '[ -f "$src" ] && cp "$src" "$out"'


@contextlib.contextmanager
def compiled(ctx, held=""):
    """In a scratch directory; on symbolic runs the C compilers on the PATH are stand-ins that keep the source as
    the library, and `casadi.external` interprets that C code on terms.  A library that is loaded stays what it
    was when it was loaded, as with the dynamic linker.  On concrete runs everything is real.  With `held`, the first
    compilation is held up at that point (start, middle, end) once it gets there."""
    with _scratch():
        old = os.environ["PATH"]
        bin_ = os.path.join(os.getcwd(), "bin")
        if held or ctx.symbolic:
            os.mkdir(bin_)
            for n in ("gcc", "cc", "clang"):
                real = shutil.which(n) or "false"
                with open(os.path.join(bin_, n), "w") as f:
                    f.write(_CC.replace("@CTL@", bin_).replace("@COMPILE@", _COPY if ctx.symbolic else f'"{real}" "$@"'))
                os.chmod(os.path.join(bin_, n), 0o755)
        if held:
            with open(os.path.join(bin_, "pause"), "w") as f:
                f.write(held)
        if not ctx.symbolic:
            with _path((bin_ + os.pathsep if held else "") + old):
                yield bin_
            return
        from . import llvmir
        loaded = {}

        def external(name, path="", *a, **k):
            key = os.path.abspath(path)
            if key not in loaded:
                if not os.path.exists(path):
                    raise RuntimeError("no library " + path)
                loaded[key] = os.path.join(os.getcwd(), f"loaded{len(loaded)}.c")
                shutil.copyfile(path, loaded[key])
            with _path(old):
                return llvmir.program(loaded[key], name)
        real = casadi.external
        casadi.external = external
        try:
            with _path(bin_ + os.pathsep + old):
                yield bin_
        finally:
            casadi.external = real


@contextlib.contextmanager
def _path(p):
    old = os.environ["PATH"]
    os.environ["PATH"] = p
    try:
        yield
    finally:
        os.environ["PATH"] = old


def c_function(ctx, path, name, include=()):
    """the function of a C file written by casadi: interpreted on terms, or compiled and loaded"""
    if ctx.symbolic:
        from . import llvmir
        return llvmir.program(path, name, include)
    import subprocess
    lib = os.path.abspath(path)[:-2] + f"-{os.getpid()}.so"
    r = subprocess.run(["gcc", "-fPIC", "-O1", "-shared", *[f"-I{i}" for i in include], path, "-o", lib, "-lm"],
                       capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("the C code does not compile: " + r.stderr[-300:])
    return casadi.external(name, lib)
