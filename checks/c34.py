"""Composition: a model built from a configuration is made, at every level, of exactly the variants the configuration names -
its values, its submodels by path, its names and its parameter tree say so - after any history of changing the configuration,
building models from it, and registering or removing variants; what a model was built from does not change it later, and
configurations naming unknown variants, lacking a part, or made for another class are rejected."""
import numpy as np

from lumos.models.base import Model, ModelReturn, model_io
from lumos.models.composition import ModelMaker
from lumos.models.tree_utils import ConfigTree

BOUNDS = ("models of up to 4 levels and 9 nodes, 3 leaf and 3 composed variants per slot; histories of up to 3 (quick) / 4 "
          "(thorough) symbolic choices among changes of the configuration at any node, builds (by configuration, name, class), "
          "re-registered variants and rejected configurations; inputs and parameters symbolic")


def _law(kind, p, x, kids):
    """value of a node: kids = values by slot"""
    if kind == "V34P":
        return p["k"] * x
    if kind == "V34Q":
        return p["k"] * x * x + p["c"]
    if kind == "V34Q2":  # registered under the name V34Q later
        return p["d"] - x
    if kind == "V34One":
        return kids["a"] * p["w"] + x
    if kind == "V34Two":
        return kids["a"] - p["w"] * kids["b"]
    if kind == "V34Root":
        return kids["mid"] + p["w"] * kids["tail"]
    raise KeyError(kind)


def _feed(kind, slot, x):
    return {"a": x + 1, "b": 2 * x, "mid": 3 * x, "tail": x - 1}[slot]


DEFAULTS = {"V34P": {"k": 2.0}, "V34Q": {"k": -0.5, "c": 3.0}, "V34Q2": {"d": 4.0}, "V34One": {"w": 0.25}, "V34Two": {"w": 1.5},
            "V34Root": {"w": -2.0}}
SLOTS = {"V34P": {}, "V34Q": {}, "V34Q2": {}, "V34One": {"a": "V34P"}, "V34Two": {"a": "V34Q", "b": "V34One"},
         "V34Root": {"mid": "V34Two", "tail": "V34P"}}
OUT = {"V34P": ("o",), "V34Q": ("o", "sq"), "V34Q2": ("o",), "V34One": ("o",), "V34Two": ("o",), "V34Root": ("o",)}


def _make(kind, name):
    def forward(self, inputs):
        x = inputs["x"]
        kids = {s: self.call_submodel(s, inputs=dict(x=_feed(kind, s, x))).outputs["o"] for s in SLOTS[kind]}
        out = {"o": _law(kind, self._params, x, kids)}
        if "sq" in OUT[kind]:
            out["sq"] = x * x
        if kids:
            return ModelReturn(outputs=self.make_outputs_dict(**out))
        return ModelReturn(outputs=out)
    cls = type(name, (Model,), dict(forward=forward, get_default_params=classmethod(lambda c: dict(DEFAULTS[kind])),
                                    get_default_submodel_config=classmethod(lambda c: dict(SLOTS[kind]))))
    return model_io(inputs=("x",), outputs=OUT[kind])(cls)


CLASSES = {k: _make(k, k) for k in SLOTS if k != "V34Q2"}
OTHER = _make("V34Q2", "V34Q")


def _register():
    for k, c in CLASSES.items():
        if k in ModelMaker._registry:
            ModelMaker.remove_from_registry(ModelMaker._registry[k])
        ModelMaker.add_to_registry(c)


def _default(kind, names):
    """description of the default configuration: (name, {slot: description})"""
    return (kind, {s: _default(k, names) for s, k in SLOTS[kind].items()})


def _replace(d, path, new):
    if not path:
        return new
    return (d[0], {**d[1], path[0]: _replace(d[1][path[0]], path[1:], new)})


def _paths(d, pre=()):
    yield pre, d
    for s, c in d[1].items():
        yield from _paths(c, pre + (s,))


def _tree(d):
    return ConfigTree(d[0], {s: _tree(c) for s, c in d[1].items()}) if d[1] else ConfigTree(d[0])


def _actual(d, now):
    """the laws behind the names: the name V34Q can stand for another class"""
    return (now if d[0] == "V34Q" else d[0], {s: _actual(c, now) for s, c in d[1].items()})


def _value(d, params, x, pre=()):
    kids = {s: _value(c, params, _feed(d[0], s, x), pre + (s,)) for s, c in d[1].items()}
    p = {k: params[".".join(pre + (k,))] for k in DEFAULTS[d[0]]}
    return _law(d[0], p, x, kids)


def _outputs(d, pre=""):
    own = [pre + o for o in OUT[d[0]]]
    return own + [n for s, c in d[1].items() for n in _outputs(c, pre + s + ".")]


def _params(d):
    return {".".join(p + (k,)): v for p, c in _paths(d) for k, v in DEFAULTS[c[0]].items()}


def _check(ctx, tag, model, d, params, x):
    """the model is made of the laws of description d"""
    r = model.forward({"x": x})
    ctx.eq(f"{tag}:value", r.outputs["o"], _value(d, params, x))
    ctx.check(f"{tag}:names", list(model.names.outputs) == _outputs(d), str(model.names.outputs))
    ctx.check(f"{tag}:outputs", set(r.outputs) == set(_outputs(d)))
    got = model.get_recursive_params().to_flat_dict()[0]
    ctx.check(f"{tag}:parameters", set(got) == set(params), f"{sorted(got)} {sorted(params)}")
    for k in params:
        ctx.eq(f"{tag}:{k}", got[k], params[k])
    for path, c in _paths(d):
        if not path:
            continue
        sub = model.get_submodel(".".join(path))
        ctx.check(f"{tag}:submodel", type(sub) is (OTHER if c[0] == "V34Q2" else CLASSES[c[0]]), f"{path}: {type(sub)}")
        ctx.check(f"{tag}:delimiter", model.get_submodel("/".join(path), delimiter="/") is sub)
        own = {k: v for k, v in params.items() if k.startswith(".".join(path) + ".")}
        cut = len(".".join(path)) + 1
        ctx.eq(f"{tag}:submodel-value {path}", sub.forward({"x": x}).outputs["o"], _value(c, {k[cut:]: v for k, v in own.items()}, x))
    ctx.raises(f"{tag}:unknown-part", KeyError, lambda: model.get_submodel("mid.nope"))


def compose(ctx, steps, first):
    _register()
    now = "V34Q"
    x = ctx.real("x", lo=-3, hi=3)
    cfg, d = ModelMaker.make_config("V34Root"), _default("V34Root", None)
    built = []
    for k in range(steps):
        ops = ("replace", "grow", "build", "named", "parameters", "register", "bad", "bad-registry")
        op = first if k == 0 else ctx.choice(f"op{k}", ops)
        if op in ("replace", "grow"):
            path = [p for p, _ in _paths(d)][1:]
            path = ctx.choice(f"at{k}", path if op == "replace" else [p for p in path if len(p) < 3])
            new = ctx.choice(f"new{k}", ("V34P", "V34Q") if op == "replace" else ("V34One", "V34Two"))
            sub = _default(new, None) if new != "V34Two" else (new, {"a": _default("V34P", None), "b": _default("V34Q", None)})
            cfg.replace_subtree(".".join(path), _tree(sub) if new == "V34Two" else ModelMaker.make_config(new))
            d = _replace(d, path, sub)
        elif op == "build":
            how = ctx.choice(f"how{k}", ("maker", "class"))
            m = ModelMaker.make_model_from_config(cfg) if how == "maker" else CLASSES["V34Root"](model_config=cfg)
            a = _actual(d, now)
            built.append([m, a, _params(a)])
        elif op == "named":
            name = ctx.choice(f"name{k}", ("V34Root", "V34Two"))
            a = _actual(_default(name, None), now)
            m = ModelMaker.make_model_from_name(name) if k % 2 else CLASSES[name]()
            built.append([m, a, _params(a)])
        elif op == "parameters":
            a = _actual(d, now)
            m = ModelMaker.make_model_from_config(cfg)
            t = m.get_recursive_params()
            ps = {}
            for i, n in enumerate(_params(a)):
                ps[n] = ctx.real(f"p{k}.{i}", lo=-3, hi=3)
                t.set_param(n, ps[n])
            built.append([CLASSES["V34Root"](model_config=cfg, params=t), a, ps])
            built.append([m, a, _params(a)])
        elif op == "register":  # another class under a known name
            ModelMaker.remove_from_registry(CLASSES["V34Q"])
            ctx.raises("removed", KeyError, lambda: ModelMaker.make_model_from_name("V34Two"))
            now = "V34Q2" if now == "V34Q" else "V34Q"
            ModelMaker.add_to_registry(OTHER if now == "V34Q2" else CLASSES["V34Q"])
        elif op == "bad":
            bad = ConfigTree("V34Two", {"a": _tree(("V34Nope", {})), "b": ModelMaker.make_config("V34One")})
            ctx.raises("unknown-variant", KeyError, lambda: ModelMaker.make_model_from_config(bad))
            ctx.raises("missing-part", KeyError, lambda: ModelMaker.make_model_from_config(
                ConfigTree("V34Two", {"a": ModelMaker.make_config("V34P")})))
            ctx.raises("other-class", TypeError, lambda: CLASSES["V34Root"](model_config=ModelMaker.make_config("V34Two")))
            ctx.raises("unknown-name", KeyError, lambda: ModelMaker.make_model_from_name("V34Nope"))
        else:
            ctx.raises("twice", ValueError, lambda: ModelMaker.add_to_registry(_make("V34P", "V34One")))
            ctx.raises("not-there", KeyError, lambda: ModelMaker.remove_from_registry(_make("V34P", "V34Nope")))
    m = ModelMaker.make_model_from_config(cfg)
    a = _actual(d, now)
    built.append([m, a, _params(a)])
    for i, (m, a, ps) in enumerate(built):
        _check(ctx, f"model{i}", m, a, ps, x)
    # the configuration is the one made by the caller, the defaults are as they were
    ctx.check("configuration", cfg.to_dict() == _tree(d).to_dict(), f"{cfg.to_dict()} {_tree(d).to_dict()}")
    for kind in CLASSES:
        ctx.check("defaults", ModelMaker.make_config(kind).to_dict() == _tree(_default(kind, None)).to_dict(), kind)


def tasks(tier):
    for f in ("replace", "grow", "build", "named", "parameters", "register", "bad", "bad-registry"):
        yield dict(name=f"first={f}", harness="compose", params=dict(steps=3 if tier == "quick" else 4, first=f),
                   opts=dict(max_paths=40000), cost=50)
