"""Solving: the optimiser is given the problem as it stands - its size, its bounds and starting point in scaled
variables, the multipliers and options of this call over the defaults - and the caller gets back the optimiser's answer in
his own units with the iterations and times of this call; a call leaves nothing behind for later calls, and a failed
execution is an error.  The optimiser is a stand-in that records what it gets and reports symbolic results."""
import os

import numpy as np

from symx import backends
from . import ocp_common as O
from .c06 import Con, Obj, _compare
from lumos.optimal_control.nlp import CompositeProblem

BOUNDS = ("composite problems of 3 variables and optimal control problems of 1..2 intervals (fixed and scaled mesh, lifted and "
          "condensed); up to 3 successive solves, each a symbolic choice of options and of what changed in between; start points, "
          "solutions, multipliers, bounds, scales, option values and the status symbolic; 0..3 reported iterations")
ASSUMPTIONS = ["the optimiser calls back with iteration numbers counted from 0 and writes its timing statistics into the output file"]

TIMES = ("0.250", "12.375", "123.500")


class Solver(O.StubIpopt):
    """records options and multipliers too"""

    def __init__(self):
        super().__init__(None)
        self.options, self.multipliers, self.file = [], [], None
        self.iterations, self.times = [], None

    def make(self, n, m, problem_obj=None, lb=None, ub=None, cl=None, cu=None):
        stub = self
        opts = {}
        self.options.append(opts)
        self.made.append(dict(n=n, m=m, obj=problem_obj, lb=lb, ub=ub, cl=cl, cu=cu))

        class P:
            def add_option(self, name, value):
                opts[name] = value
            addOption = add_option

            def solve(self, x, lagrange=[], zl=[], zu=[]):
                stub.solved.append(x)
                stub.multipliers.append((lagrange, zl, zu))
                problem_obj.objective(x)
                for mod, it in stub.iterations:
                    problem_obj.objective(stub.sol)
                    problem_obj.intermediate(mod, it, 1.0, 0.5, 0.25, 0.1, 0.0, 0.0, 1.0, 1.0, 1)
                if opts.get("output_file") and opts.get("print_level", 5) > 0:
                    with open(opts["output_file"], "w") as f:
                        f.write("Number of Iterations....: 3\n")
                        if opts.get("print_timing_statistics") == "yes" and opts["print_level"] >= 4:
                            f.write(f"Total seconds in IPOPT (w/o function evaluations)    =      {stub.times[0]}\n"
                                    f"Total seconds in NLP function evaluations            =      {stub.times[1]}\n")
                return stub.sol, dict(stub.info)
        return P()


def _ask(ctx, k):
    """options of a call, chosen"""
    o = ctx.choice(f"options{k}", ("none", "values", "quiet", "file"))
    if o == "none":
        return {}
    if o == "values":
        return {"tol": ctx.real(f"tol{k}", gt=0, hi=1), "max_iter": 7 + k, "hessian_approximation": "limited-memory", "some_new_option": "x"}
    if o == "quiet":
        return {"print_level": 0}
    return {"output_file": f"other{k}.out", "mu_strategy": "monotone"}


def _call(ctx, tag, k, p, ip, s, defaults, user, start=None):
    """one solve of p, everything compared; -> options of a call without any"""
    n, m = p.num_dec, p.num_con
    guess = ctx.vec(f"start{k}", n, lo=-5, hi=5) if start is None else start
    before = [*guess]
    lag, zl, zu = (ctx.vec(f"{nm}{k}", c, lo=-3, hi=3) for nm, c in (("lag", m), ("zl", n), ("zu", n)))
    with_mult = ctx.choice(f"multipliers{k}", [True, False]) if start is None else False
    ip.sol = ctx.vec(f"answer{k}", n, lo=-5, hi=5)
    answer = [*ip.sol]
    ip.iterations = [(0, i) for i in range(ctx.choice(f"iterations{k}", (3, 1)))]
    if isinstance(p, O.ScaledMeshOCP):  # entering the restoration phase repeats the number of the iteration
        ip.iterations = ip.iterations + [(0, ip.iterations[-1][1])]
    ip.times = (TIMES[k % 3], TIMES[(k + 1) % 3])
    ip.info = {"status": 0, "status_msg": b"Solved", "obj_val": ctx.real(f"val{k}"), "mult_g": lag}
    kw = dict(user)
    if with_mult:
        kw.update(lagrange=lag, zl=zl, zu=zu)
    given = dict(kw)
    sol, info = p.solve(*([] if start is not None else [guess]), **kw)
    made, opts = ip.made[-1], ip.options[-1]
    # what the optimiser got
    ctx.check(tag + ":size", made["n"] == n and made["m"] == m)
    ctx.eq(tag + ":start", ip.solved[-1] * s, np.array(before))
    for nm in ("lb", "ub"):
        ctx.eq(f"{tag}:{nm}", made[nm] * s, getattr(p, nm))
    for nm in ("cl", "cu"):
        ctx.eq(f"{tag}:{nm}", made[nm], getattr(p, nm))
    if with_mult:
        for got, want, nm in zip(ip.multipliers[-1], (lag, zl, zu), ("lagrange", "zl", "zu")):
            ctx.eq(f"{tag}:multipliers:{nm}", np.asarray(got), want)
    else:
        ctx.check(tag + ":no-multipliers", all(len(v) == 0 for v in ip.multipliers[-1]))
    if defaults is None:
        defaults = {a: b for a, b in opts.items() if a not in user}
    want = {**defaults, **user}
    ctx.check(tag + ":option-names", {*opts} >= {*want} and {*opts} <= {*want, *defaults}, f"{sorted(opts)} {sorted(want)}")
    for a, b in want.items():
        if isinstance(b, str):
            ctx.check(f"{tag}:option:{a}", opts[a] == b, str(opts[a]))
        else:
            ctx.eq(f"{tag}:option:{a}", opts[a], b)
    if "hessian_approximation" not in user:
        ctx.check(tag + ":hessian-approximation", opts["hessian_approximation"] == p.hessian_approximation)
    # what the caller gets
    ctx.eq(tag + ":solution", sol, np.array(answer) * s)
    ctx.check(tag + ":info", info["status"] == 0 and info["status_msg"] == b"Solved")
    ctx.eq(tag + ":info-values", [info["obj_val"], *info["mult_g"]], [ip.info["obj_val"], *lag])
    ctx.eq(tag + ":iterations", info["num_iter"], ip.iterations[-1][1])
    if opts["print_level"] >= 4 and opts["print_timing_statistics"] == "yes" and opts.get("output_file"):
        ctx.eq(tag + ":times", [info["ipopt_time"], info["nlp_time"]], [float(t) for t in ip.times])
    else:
        ctx.check(tag + ":no-times", "ipopt_time" not in info and "nlp_time" not in info)
    # nothing of the caller's was written into
    ctx.eq(tag + ":start-kept", guess, np.array(before))
    ctx.check(tag + ":options-kept", kw.keys() == given.keys())
    return defaults


def composite(ctx, solves, objective):
    with backends._scratch():
        p = CompositeProblem(3)
        p.set_default_scales()
        s = ctx.vec("scale", 3, lo=0.1, hi=10)
        p._dec_var_scales = s
        p.lb = ctx.vec("lb", 3, lo=-9, hi=-5)
        p.ub = ctx.vec("ub", 3, lo=5, hi=9)
        cons, objs = [], []

        def add():
            c = Con(ctx, f"c{len(cons)}", 3, ("sparse", "dense", "linear")[len(cons)])
            cons.append(c)
            p.add_constraints(c.name, c.make())
            k = p.num_con
            p.cl, p.cu = ctx.vec(f"cl{k}", k, lo=-3, hi=-1), ctx.vec(f"cu{k}", k, lo=1, hi=3)
        add()
        if objective:
            o = Obj(ctx, "o0", 3, "sparse")
            objs.append(o)
            p.add_objective("o0", o.make())
        defaults = None
        with Solver() as ip:
            for k in range(solves):
                user = _ask(ctx, k) if k else {}
                defaults = _call(ctx, f"solve{k}", k, p, ip, s, defaults, user)
                if k == solves - 1:
                    break
                what = ctx.choice(f"between{k}", ("nothing", "constraint", "objective"))
                if what == "constraint":
                    add()
                elif what == "objective":
                    o = Obj(ctx, f"more{k}", 3, "dense")
                    objs.append(o)
                    p.add_objective(o.name, o.make())
        # the problem is still the one of its pieces
        x = ctx.vec("x", 3, lo=-2, hi=2)
        _compare(ctx, "after", p, [(c.name, c) for c in cons], [(o.name, o) for o in objs], s, x, ctx.real("of", lo=-2, hi=2))
        if not objs:
            ctx.eq("feasibility-only", [p.objective(x), *p.gradient(x)], np.zeros(4))


def ocp(ctx, solves, fixed, condensed, objective=True, n=2, guess=False, **kw):
    with backends._scratch():
        p, sh, par = O.build(ctx, "tiny", fixed=fixed, condensed=condensed, n=n, **kw)
        op = p.dec_var_operator
        if objective:
            O.add_pieces(ctx, p) if objective == "pieces" else p.add_objective("o", Obj(ctx, "o", p.num_dec, "sparse").make())
        p.set_cons() if hasattr(p, "set_cons") else None
        s = np.ones(p.num_dec, dtype=object if ctx.symbolic else float)
        for sc in (O.scales(ctx, sh, fixed) if kw.get("scaled", True) else ()):
            for i in np.ravel(op.get_var_index_in_dec(sc.group, sc.name)):
                s[int(i)] = sc.value
        lo = ctx.real("b.lo", lo=-9, hi=-1)
        # finite bounds everywhere, so that they can be compared
        p.lb = np.array([lo - 1.0 * i for i in range(p.num_dec)])
        p.ub = np.array([1.0 * i - lo for i in range(p.num_dec)])
        defaults = None
        with Solver() as ip:
            for k in range(solves):
                start = None
                if guess and k != 1:
                    start = ctx.vec(f"default{k}", p.num_dec, lo=-5, hi=5)
                    p.get_init_guess = lambda v=start: v  # (as the simulations define it)
                user = _ask(ctx, k) if k else {}
                defaults = _call(ctx, f"solve{k}", k, p, ip, s, defaults, user, start)


def status(ctx, kind):
    """only a failed execution raises, whatever was solved before"""
    with backends._scratch():
        if kind == "composite":
            p = CompositeProblem(3)
            p.set_default_scales()
            p.set_default_bounds()
            p.add_constraints("c", Con(ctx, "c", 3, "sparse").make())
            p.cl = p.cu = np.zeros(2)
        else:
            p, _, _ = O.build(ctx, "tiny", fixed=kind == "fixed", n=1)
        x = ctx.vec("x", p.num_dec, lo=-2, hi=2)
        code = ctx.int("status", lo=-200, hi=10)
        with Solver() as ip:
            ip.times, ip.iterations = TIMES, [(0, 0)]
            ip.sol = x
            if ctx.choice("again", [False, True]):
                p.solve(x)
            ip.info = {"status": code, "status_msg": b"what happened"}
            try:
                out = p.solve(x)
            except RuntimeError as e:
                ctx.reached("error")
                ctx.eq("error-status", code, -13)
                ctx.check("error-message", "what happened" in str(e))
                return
            ctx.check("no-error", code != -13)
            ctx.eq("status", out[1]["status"], code)


def tasks(tier):
    th = tier == "thorough"
    out = []
    for obj in (True, False):
        for k in (1, 2, 3) if th else (1, 2):
            out.append(dict(name=f"composite-{obj}-{k}", harness="composite", params=dict(solves=k, objective=obj), cost=10 ** k,
                            opts={"max_paths": 20000}))
    for fixed in (False, True):
        for cond in (False, True):
            for obj in (True, False, "pieces"):
                if obj == "pieces" and cond:
                    continue
                out.append(dict(name=f"ocp-{fixed}-{cond}-{obj}", harness="ocp", cost=20,
                                params=dict(solves=2, fixed=fixed, condensed=cond, objective=obj)))
            out.append(dict(name=f"ocp-{fixed}-{cond}-cyclic", harness="ocp", cost=20,
                            params=dict(solves=2, fixed=fixed, condensed=cond, cyclic=True, n=1)))
            out.append(dict(name=f"ocp-{fixed}-{cond}-guess", harness="ocp", cost=20,
                            params=dict(solves=3, fixed=fixed, condensed=cond, guess=True, n=1)))
    for kind in ("composite", "fixed", "scaled"):
        out.append(dict(name="status-" + kind, harness="status", params=dict(kind=kind), cost=2))
    return out
