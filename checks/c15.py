"""Protocol of submodel calls: a composed model executes an arbitrary sequence of steps (call a part with
some arguments, collect, fail) over several passes. In every pass that completes, each part's outputs are
those computed from the arguments of its one call in this pass; a part called twice before collection, a
part not called, unknown parts and missing arguments are reported; a pass after a completed one starts
clean, and a pass after a failed one never delivers anything of the failed one as its own."""
import numpy as np  # noqa: F401

from lumos.models.base import Model, ModelReturn, StateSpaceModel, StateSpaceModelReturn, model_io, state_space_io
from lumos.models.composition import ModelMaker

BOUNDS = ("models with 2 parts (static, and state space with a part of its own, 3 levels), or two parts without outputs; every sequence of up to "
          "4 (quick) / 5 (thorough) steps for single passes, pairs of passes of 2 and 3 steps (thorough: up to 3 and 3, and "
          "three of 2); arguments symbolic")


@model_io(inputs=("x", "y", "idle"), outputs=("o",), residuals=())
class ProtoLeaf(Model):
    def __init__(self, model_config={}, params={}):
        super().__init__(model_config=model_config, params=params)

    def forward(self, inputs):
        return ModelReturn(outputs=dict(o=self._params["g"] * inputs["x"] - inputs["y"]))

    @classmethod
    def get_default_params(cls):
        return {"g": 2.0}


@model_io(inputs=("x",), outputs=(), residuals=())
class ProtoMute(Model):
    """a part that has no outputs"""

    def __init__(self, model_config={}, params={}):
        super().__init__(model_config=model_config, params=params)

    def forward(self, inputs):
        return ModelReturn(outputs={})

    @classmethod
    def get_default_params(cls):
        return {}


@state_space_io(states=("s", "rest"), inputs=("x", "idle"), outputs=("k", "l"))
class ProtoMid(StateSpaceModel):
    def __init__(self, model_config={}, params={}):
        super().__init__(model_config=model_config, params=params)

    def forward(self, states, inputs, mesh=0.0):
        r = self.call_submodel("leaf", inputs=dict(x=states["s"], y=inputs["x"], idle=0.0))
        return StateSpaceModelReturn(states_dot=dict(s=states["s"] * inputs["x"], rest=0.0),
                                     outputs=self.make_outputs_dict(k=r.outputs["o"] + mesh, l=states["s"]))

    @classmethod
    def get_default_submodel_config(cls):
        return {"leaf": "ProtoLeaf"}

    @classmethod
    def get_default_params(cls):
        return {}


class Stop(Exception):
    pass


@model_io(inputs=("script",), outputs=("done",), residuals=())
class ProtoTop(Model):
    """executes the steps it is given"""

    def __init__(self, model_config={}, params={}):
        super().__init__(model_config=model_config, params=params)

    def forward(self, inputs):
        got = []
        for step in inputs["script"]:
            got.append(step(self))
        return ModelReturn(outputs=self.make_outputs_dict(done=got))

    @classmethod
    def get_default_submodel_config(cls):
        return {"p": "ProtoLeaf", "q": "ProtoMid"}

    @classmethod
    def get_default_params(cls):
        return {}


@model_io(inputs=("script",), outputs=("done",), residuals=())
class ProtoTopMute(ProtoTop):
    """both parts have no outputs"""

    @classmethod
    def get_default_submodel_config(cls):
        return {"p": "ProtoMute", "q": "ProtoMute"}


def register():
    for c in (ProtoLeaf, ProtoMid, ProtoMute, ProtoTop, ProtoTopMute):
        try:
            ModelMaker.add_to_registry(c)
        except ValueError:
            pass


STEPS = ("p", "q", "p-missing", "q-missing", "unknown", "stop")
GOOD = ("p", "q")


def step_of(ctx, kind, tag, mute=False):
    """-> (callable, expected outputs of the part or the error expected)"""
    x, y, m = (ctx.real(f"{tag}.{n}", lo=-3, hi=3) for n in "xym")
    if mute and kind in ("p", "q"):
        return (lambda t: t.call_submodel(kind, inputs=dict(x=x)).outputs), {}
    if mute and kind.endswith("-missing"):
        return (lambda t: t.call_submodel(kind[0], inputs=dict(y=x))), KeyError
    if kind == "p":
        return (lambda t: t.call_submodel("p", inputs=dict(y=y, idle=m, x=x)).outputs), {"p.o": 2.0 * x - y}
    if kind == "q":
        return (lambda t: t.call_submodel("q", states=dict(s=x, rest=y), inputs=dict(x=y, idle=m), mesh=m).outputs), \
            {"q.k": 2.0 * x - y + m, "q.l": x, "q.leaf.o": 2.0 * x - y}
    # (an argument the part does not even use is still part of its declared inputs)
    if kind == "p-missing":
        return (lambda t: t.call_submodel("p", inputs=dict(y=y, x=x, other=m))), KeyError
    if kind == "q-missing":
        st, i = ({"s": x}, {"x": y, "idle": m}) if tag[-1] in "02" else ({"rest": y, "s": x}, {"x": y})
        return (lambda t: t.call_submodel("q", states=st, inputs=i, mesh=m)), KeyError
    if kind == "unknown":
        return (lambda t: t.call_submodel("r", inputs=dict(x=x, y=y))), KeyError

    def stop(t):
        raise Stop()
    return stop, Stop


def run(ctx, model, tag, kinds, dirty, mute=False):
    """one pass; -> whether it completed; dirty: what an earlier failed pass may have left"""
    script, exp, err, seen = [], {}, None, set()
    for i, k in enumerate(kinds):
        f, e = step_of(ctx, k, f"{tag}{i}", mute)
        script.append(f)
        if err is not None:
            continue
        if k in GOOD and k in seen:
            err = RuntimeError
        elif not isinstance(e, dict):
            err = (KeyError, RuntimeError) if k[0] in seen else e  # (both repeated and incomplete: either)
        else:
            seen.add(k)
            exp.update(e)
    if err is None and seen != {"p", "q"}:
        err = KeyError
    try:
        r = model.forward(dict(script=script))
    except (KeyError, RuntimeError, Stop) as ex:
        ctx.reached(tag + ":reported")
        if dirty and isinstance(ex, RuntimeError):
            return False, seen
        ctx.check(tag + ":error", err is not None and isinstance(ex, err), f"{kinds} {type(ex)} {err}")
        return False, seen
    if err is not None:
        # after a failed pass only passes that call every part once are considered
        ctx.check(tag + ":not-reported", bool(dirty) and seen != {"p", "q"}, f"{kinds} {err}")
        return True, seen
    ctx.check(tag + ":names", set(r.outputs) == set(exp) | {"done"}, f"{sorted(r.outputs)}")
    for n in exp:
        ctx.eq(f"{tag}:{n}", r.outputs[n], exp[n])
    # what the calls themselves returned
    for k, o in zip(kinds, r.outputs["done"]):
        for n, v in o.items():
            ctx.eq(f"{tag}:returned:{k}.{n}", v, exp[f"{k}.{n}"])
    ctx.check(tag + ":declared", set(model.get_group_names("outputs")) == set(r.outputs))
    return True, seen


def passes(ctx, lengths, first, mute=False):
    register()
    top = ModelMaker.make_model_from_name("ProtoTopMute" if mute else "ProtoTop")
    other = ModelMaker.make_model_from_name("ProtoTopMute" if mute else "ProtoTop")
    dirty = set()
    for j, n in enumerate(lengths):
        kinds = []
        for i in range(n):
            opts = (first,) if (j, i) == (0, 0) else STEPS if j == 0 else ("p", "q", "p-missing", "stop")
            k = ctx.choice(f"s{j}{i}", list(opts) + ["end"])
            if k == "end":
                break
            kinds.append(k)
        ok, seen = run(ctx, top, f"pass{j}.", kinds, dirty, mute)
        dirty = set() if ok else (dirty | seen)
    # another model of the same class is not affected
    ok, _ = run(ctx, other, "other.", ["q", "p"], set(), mute)
    ctx.check("other-completes", ok)


def repeat(ctx, n):
    """the same pass any number of times: same results; values of earlier passes are not touched"""
    register()
    top = ModelMaker.make_model_from_name("ProtoTop")
    outs = []
    for k in range(n):
        order = ["p", "q"] if k % 2 == 0 else ["q", "p"]
        f, e = {}, {}
        for q in order:
            f[q], x = step_of(ctx, q, "fixed" + q if k < 2 else f"n{k}{q}")
            e.update(x)
        r = top.forward(dict(script=[f[q] for q in order]))
        outs.append((r, e))
    for k, (r, e) in enumerate(outs):
        for m in e:
            ctx.eq(f"{k}:{m}", r.outputs[m], e[m])


def tasks(tier):
    th = tier == "thorough"
    out = []
    for lengths in ([(4,), (2, 3)] + ([(5,), (3, 2), (3, 3), (2, 2, 2)] if th else [])):
        for first in STEPS:
            out.append(dict(name="passes-" + "".join(map(str, lengths)) + "-" + first, harness="passes",
                            params=dict(lengths=lengths, first=first), cost=50, opts=dict(max_paths=60000)))
    for first in STEPS:
        for lengths in [(3,), (2, 2)]:
            out.append(dict(name="mute-" + "".join(map(str, lengths)) + "-" + first, harness="passes",
                            params=dict(lengths=lengths, first=first, mute=True), cost=20, opts=dict(max_paths=60000)))
    for n in (1, 2, 4):
        out.append(dict(name=f"repeat-{n}", harness="repeat", params=dict(n=n), cost=1))
    return out
