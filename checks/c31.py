"""C code: the function that `export_c_code` writes computes (states_dot, outputs, con_outputs, residuals) of the
model for all states, inputs, mesh points and parameters given to it; the libraries that the casadi backend compiles
are those of the model they were built for, whichever models were built in the same directory before - so that
models with different equations never share one, and a model built earlier keeps its own - or while another process
builds there, is killed or has its compiler fail.  The C text is compiled
to LLVM IR, which is interpreted on terms and compared with the python evaluation of the model."""
import os
import signal
import subprocess
import sys
import time

import numpy as np

from symx import backends
from . import backend_common as B
from . import c16
from lumos.models.base import StateSpaceModel, StateSpaceModelReturn, state_space_io
from lumos.models.composition import ModelMaker
import casadi

BOUNDS = ("models of CATALOG, SX and MX code; sequences of up to three builds in one directory out of models that differ in "
          "an operation at the end of long common code, in a constant, in parameters, in con outputs or in everything; one process "
          "held up before, in the middle of or after its compilation, then going on, killed or its compiler failing; "
          "states, inputs, mesh, parameters and multipliers symbolic within the sign ranges of the physical quantities")
ASSUMPTIONS = ["clang's translation of the C code to LLVM IR at -O0 (with memory to registers) means what the C code means"]

GROUPS = ("states_dot", "outputs", "con_outputs", "residuals")


def export(ctx, name, kind, given):
    with backends._scratch():
        m = B.make(name)
        if given == "replaced":
            m.set_recursive_params(B.params(ctx, m, "early."))
        had = m.get_recursive_params().to_flat_dict()[0]
        opts, inc = {}, ()
        if given == "includes":
            os.mkdir("inc")
            for n in ("first_symx.h", "second_symx.h"):
                with open("inc/" + n, "w") as f:
                    f.write(f"static const double {n[:-2]} = 1.0;\n")
            inc = [os.path.abspath("inc")]
            opts = dict(includes=["first_symx.h", "second_symx.h"], options={"with_header": True, "verbose": False})
        m.export_c_code("model_code.c", *([] if kind == "MX" and given == "" else [getattr(casadi, kind)]), **opts)
        if given == "includes":
            ctx.check("header", os.path.exists("model_code.h"))
            with open("model_code.c") as f:
                text = f.read()
            for n in ("first_symx.h", "second_symx.h"):
                ctx.check("include", n in text, n)
        f = backends.c_function(ctx, "model_code.c", "forward", inc)
        c16._kept(ctx, m, had)
        sizes = [m.num_states, m.num_inputs, 1]
        ctx.check("arguments", [f.size_in(i)[0] for i in range(4)][:3] == sizes and f.n_in() == 4, str(sizes))
        ctx.check("results", f.n_out() == 4 and
                  [f.size_out(i)[0] for i in range(4)] == [len(m.get_group_names(g)) for g in GROUPS])
        for k in range(2):  # calls are independent of each other
            tree = B.params(ctx, m, f"p{k}.")
            st, mesh = B.stage(ctx, m, k)
            got = f(st["states"], st["inputs"], mesh, tree.tree_ravel()[0])
            ref = B.make(name)
            ref.set_recursive_params(tree)
            r = ref.forward_with_arrays(st["states"], st["inputs"], mesh)
            for g, v in zip(GROUPS, got):
                w = np.asarray(getattr(r, g)).ravel()
                # (a result the model does not have is of no size in C and anything in python)
                ctx.eq("exported:" + g, _column(v, ctx), w)
            if name.startswith(("vehicle", "track")):
                break


def _column(v, ctx):
    return np.asarray(v if ctx.symbolic else np.array(v)).ravel()


# ---- the compiled libraries ---------------------------------------------------------------------

class _Long(StateSpaceModel):
    """long common code: the parts that differ come last"""
    N = 12000  # (more than 64 kB of code)

    def __init__(self, model_config={}, params={}):
        super().__init__(model_config=model_config, params=params)

    def forward(self, states, inputs, mesh=0.0):
        import lumos.numpy as lnp
        p = self._params
        s = p["w"][0] * states["a"] + p["w"][self.N - 1] * inputs["u"] * inputs["u"] + mesh
        return StateSpaceModelReturn(
            states_dot=self.make_dict("states_dot", a=s * states["a"]),
            outputs=self.make_dict("outputs", o=s, q=self.last(lnp, s, inputs["u"])))

    @classmethod
    def get_default_params(cls):
        return {"w": np.linspace(0.5, 1.5, cls.N)}


_io = state_space_io(states=("a",), inputs=("u",), outputs=("o", "q"), con_outputs=("o", "q"))


@_io
class LongSin(_Long):
    def last(self, lnp, s, u):
        return lnp.sin(s) * u


@_io
class LongCos(_Long):
    def last(self, lnp, s, u):
        return lnp.cos(s) * u


@_io
class LongTwo(_Long):
    def last(self, lnp, s, u):
        return lnp.sin(s) * u * 2.0


@_io
class LongThree(_Long):
    def last(self, lnp, s, u):
        return lnp.sin(s) * u * 3.0


@_io
class LongFive(_Long):
    """code of the same length as that of LongThree"""
    def last(self, lnp, s, u):
        return lnp.sin(s) * u * 5.0


LONG = {"long-sin": LongSin, "long-cos": LongCos, "long-2": LongTwo, "long-3": LongThree, "long-5": LongFive}


def _make(name):
    if name in LONG:
        try:
            ModelMaker.add_to_registry(LONG[name])
        except ValueError:
            pass
        return ModelMaker.make_model_from_name(LONG[name].__name__)
    if ":" in name:
        name, con = name.split(":")
        m = B.make(name, con=False)
        m.set_con_outputs(tuple(con.split("+")))
        return m
    return B.make(name)


def _params(ctx, m, name, tag):
    if name in LONG:
        t = m.get_recursive_params()
        w = np.linspace(0.5, 1.5, _Long.N).astype(object if ctx.symbolic else float)
        w[0], w[-1] = ctx.real(tag + "w0", lo=0.5, hi=2), ctx.real(tag + "w1", lo=0.5, hi=2)
        t.set_param("w", w)
        return t
    return B.params(ctx, m, tag)


def library(ctx, names, deriv):
    with backends.compiled(ctx):
        built = []
        for k, name in enumerate(names):
            m = _make(name)
            m.make_model_algebra_cons("casadi")
            built.append((k, name, m))
        # each of them still computes its own equations, evaluated in any order
        for k, name, m in reversed(built):
            _same(ctx, k, name, m, deriv)


def _same(ctx, k, name, m, deriv):
    tree = _params(ctx, m, name, f"p{k}.")
    st, mesh = B.stage(ctx, m, k)
    if name.startswith("functions"):  # (away from the kink of its where)
        ctx.assume(ctx.any_(st["states"][0] - st["inputs"][0] > 0.03, st["states"][0] - st["inputs"][0] < -0.03))
    ref = _make(name)
    ref.set_recursive_params(tree)
    r = ref.forward_with_arrays(st["states"], st["inputs"], mesh)
    X, M = c16._flat(st), ctx.array([mesh])
    flat = tree.tree_ravel()[0]
    alg = m.model_algebra
    res = np.concatenate([r.states_dot - st["states_dot"], r.con_outputs - st["con_outputs"], r.residuals])
    ctx.eq(f"library:{k}:constraints", np.asarray(alg.mapped_constraints(X[None], M, flat)).ravel(), res)
    f = m.batched_forward(st["states"][None], st["inputs"][None], M, tree)
    for g in GROUPS:
        ctx.eq(f"library:{k}:{g}", np.asarray(getattr(f, g)).ravel(), np.asarray(getattr(r, g)).ravel())
    if not deriv:
        return
    nr, nv = len(res), len(X)
    lam = ctx.vec(f"lam{k}.", nr, lo=-2, hi=2)

    def con(z):
        return ref._apply_and_flat_implicit(np.asarray(z), mesh, tree)
    D = ctx.gradient(res, list(X), con, X)
    ctx.eq(f"library:{k}:jacobian",
           _scatter(ctx, (nr, nv), alg.jacobianstructure(), alg.mapped_jacobian(X[None], M, flat)), D, tol=1e-5)
    if ctx.symbolic:
        E = ctx.gradient([sum((lam[i] * D[i, j] for i in range(nr)), 0.0) for j in range(nv)], list(X))
    else:
        E = c16._num_hess(lambda z: float(np.dot(lam, np.asarray(con(z), dtype=float))), np.asarray(X, dtype=float))
    ctx.eq(f"library:{k}:hessian",
           _scatter(ctx, (nv, nv), alg.hessianstructure(), alg.mapped_hessian(X[None], lam[None], M, flat)), E, tol=1e-3)


_BUILD = """
import sys
from checks.c31 import _make
_make(sys.argv[1]).make_model_algebra_cons("casadi")
"""


def interrupted(ctx, point, names):
    """a build in another process is held up while its library is compiled; meanwhile models are built here, in the
    same directory; then it goes on, is killed, or its compiler fails; then the same model is built here"""
    other = ctx.choice("other", names)
    end = ctx.choice("end", ["continue", "fail", "kill"])
    with backends.compiled(ctx, held=point) as ctl:
        env = dict(os.environ, PYTHONPATH=os.pathsep.join([p for p in sys.path if p]))
        job = subprocess.Popen([sys.executable, "-c", _BUILD, names[0]], env=env, start_new_session=True,
                               stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        built = []
        try:
            until = time.time() + 100
            while time.time() < until and job.poll() is None and not os.path.exists(os.path.join(ctl, "held")):
                time.sleep(0.02)

            def build(name):
                m = _make(name)
                m.make_model_algebra_cons("casadi")
                built.append((len(built), name, m))
            build(other)
            if end == "kill":
                os.killpg(job.pid, signal.SIGKILL)
            else:
                with open(os.path.join(ctl, "go.new"), "w") as f:
                    f.write(end)
                os.rename(os.path.join(ctl, "go.new"), os.path.join(ctl, "go"))
            rc = job.wait(100)
            if not ctx.symbolic:  # (it cannot load what the stand-in compiler writes)
                ctx.check("interrupted:finished", end != "continue" or rc == 0)
        finally:
            try:
                os.killpg(job.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            job.wait()
        build(names[0])
        build(other)
        for k, name, m in reversed(built):
            _same(ctx, k, name, m, False)


def _scatter(ctx, shape, structure, vals):
    out = np.zeros(shape, dtype=object if ctx.symbolic else float)
    for r, c, v in zip(*[np.ravel(s) for s in structure], np.asarray(vals).ravel()):
        out[r, c] = out[r, c] + v
    return out


SEQUENCES = [("long-sin", "long-cos"), ("long-2", "long-3", "long-2"), ("long-3", "long-5"), ("kinematics", "drone", "kinematics"),
             ("functions:o", "functions:l"), ("composed", "composed:t+mid.s"), ("functions:o", "functions:o+l", "functions:o")]


def tasks(tier):
    out = []
    for name in B.CATALOG:
        small = name in ("drone", "kinematics", "composed", "functions")
        for kind in ("MX", "SX"):
            for given in ("", "replaced", "includes") if small else ("",):
                out.append(dict(name=f"export-{name}-{kind}-{given}", harness="export",
                                params=dict(name=name, kind=kind, given=given), cost=2 if small else 30))
    for s in SEQUENCES:
        out.append(dict(name="library-" + "-".join(s), harness="library",
                        params=dict(names=list(s), deriv=s[0] in ("kinematics", "long-sin", "functions:o", "composed")), cost=20))
    for point in ("start", "middle", "end"):
        out.append(dict(name="interrupted-" + point, harness="interrupted",
                        params=dict(point=point, names=["functions:o", "kinematics"]), cost=60))
    if tier == "thorough":
        for s in (("vehicle-perantoni", "vehicle-mf52"), ("vehicle-mixed", "vehicle-gp"), ("vehicle-mlp", "vehicle-deep-mlp")):
            out.append(dict(name="library-" + "-".join(s), harness="library", params=dict(names=list(s), deriv=False), cost=100))
    return out
