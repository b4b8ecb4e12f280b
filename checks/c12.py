"""Parameter trees: flattening to an array and back, to a flat dictionary and back, to nested
dictionaries and back, and through jax's tree protocol are bijections that keep every value under its own
path and shape (the casadi variant included); reading or replacing one path, leaf or subtree touches
nothing else and unknown paths are rejected."""
import casadi as csd
import jax
import numpy as np

from symx import cas
from lumos.models.tree_utils import ConfigTree, ParameterTree

BOUNDS = ("nestings: every tree in SHAPES (depth <= 3, <= 5 nodes, up to 4 leaves and 7 entries below one child, empty nodes included), each leaf symbolically a "
          "scalar, a vector of 1..3 entries or a matrix 1x1..3x2, row major, column major or strided in memory, leaf values symbolic; delimiters '.', '/', '->' ; "
          "histories of up to 3 set/replace steps; histories of up to 2 changes of structure (leaf, child, subtree of another structure) with uses in between")

# node = (leaf names, {child: node})
SHAPES = {
    "none": ((), {"c": ((), {})}),
    "leaf": (("k",), {}),
    "flat": (("k", "a", "m"), {}),
    "nested": (("z", "a"), {"b": (("k", "a"), {}), "a2": (("c",), {})}),
    "deep": ((), {"x": (("p",), {"y": (("q", "p"), {"w": (("r",), {})})}), "y": (("p",), {})}),
    "bush": (("k",), {"x": (("p", "a", "t", "e"), {"y": (("q", "p"), {}), "z": (("b",), {})}), "w": (("a",), {})}),
    "empty-node": (("k",), {"e": ((), {"f": (("g",), {})}), "h": ((), {})}),
    "same-names": (("v",), {"s": (("v",), {"s": (("v",), {})})}),
}
KINDS = [(), (1,), (3,), (2, 2), (2, 3), (3, 1), (1, 1)]


def leaves(node, path=()):
    for n in node[0]:
        yield path + (n,)
    for c, sub in node[1].items():
        yield from leaves(sub, path + (c,))


def nodes(node, path=()):
    yield path
    for c, sub in node[1].items():
        yield from nodes(sub, path + (c,))


def value(ctx, name, shape):
    if shape == ():
        return ctx.real(name, lo=-9, hi=9)
    v = ctx.mat(name, shape, lo=-9, hi=9)
    # arrays come in any memory layout: (2, 3) as a transposed view, (3,) as every other entry of a longer one
    if shape == (2, 3):
        v = np.array(v.T, order="C").T
    elif shape == (3,):
        v = np.repeat(v, 2)[::2]
    return v


def make(node, vals, path=()):
    return ParameterTree({n: vals[path + (n,)] for n in node[0]},
                         {c: make(s, vals, path + (c,)) for c, s in node[1].items()})


def walk(t, path=()):
    return _walk(t.to_dict(), path)


def _walk(d, path):
    out = {path + (k,): v for k, v in d["data"].items()}
    for c, s in d["children"].items():
        out.update(_walk(s, path + (c,)))
    return out


def same(ctx, label, tree, vals, node):
    got = walk(tree)
    ctx.check(label + ":type", type(tree) is ParameterTree)
    ctx.check(label + ":paths", list(sorted(got)) == list(sorted(vals)), f"{sorted(got)} {sorted(vals)}")
    d = tree.to_dict()
    nd = lambda e, p=(): [p] + [q for c, s in e["children"].items() for q in nd(s, p + (c,))]  # noqa: E731
    ctx.check(label + ":nodes", sorted(nd(d)) == sorted(nodes(node)))
    for p in vals:
        ctx.eq(label + ":" + ".".join(p), got[p], vals[p])


def _vals(ctx, node, kinds, tag):
    out = {}
    for i, p in enumerate(leaves(node)):
        sh = KINDS[ctx.choice("kind." + ".".join(p), list(range(len(KINDS))))] if kinds == "any" else \
            KINDS[(i * 2 + kinds) % len(KINDS)]
        out[p] = value(ctx, tag + ".".join(p), sh)
    return out


def roundtrip(ctx, shape, kinds):
    node = SHAPES[shape]
    vals = _vals(ctx, node, kinds, "v.")
    t = make(node, vals)
    # array and back
    flat, unravel = t.tree_ravel()
    n = sum(int(np.size(v)) if np.shape(v) else 1 for v in vals.values())
    ctx.check("flat-size", np.shape(flat) == (n,), str(np.shape(flat)))
    same(ctx, "unravel", unravel(flat), vals, node)
    y = ctx.vec("y", n)
    t2 = unravel(y)
    ctx.eq("ravel-unravel", t2.tree_ravel()[0], y)
    ctx.check("shapes", {p: np.shape(v) for p, v in walk(t2).items()} == {p: np.shape(v) for p, v in vals.items()})
    same(ctx, "unravel-again", unravel(flat), vals, node)
    # leaf entries keep the (row major) numpy order inside the flat vector
    pos = {}
    idx = unravel(np.arange(float(n)))
    for p, v in walk(idx).items():
        pos[p] = [int(i) for i in np.ravel(v)]
        ctx.check("contiguous", pos[p] == list(range(pos[p][0], pos[p][0] + len(pos[p]))))
    # flat dictionary and back
    fd, tdef = t.to_flat_dict()
    ctx.check("flat-keys", sorted(fd) == sorted(".".join(p) for p in vals))
    for p in vals:
        ctx.eq("flat-value:" + ".".join(p), fd[".".join(p)], vals[p])
    same(ctx, "from-flat", ParameterTree.from_flat_dict(tdef, fd), vals, node)
    other = {p: value(ctx, "w." + ".".join(p), np.shape(vals[p])) for p in vals}
    t3 = ParameterTree.from_flat_dict(tdef, {".".join(p): other[p] for p in reversed(list(vals))})
    same(ctx, "from-flat-new", t3, other, node)
    # nested dictionary and back
    same(ctx, "from-dict", ParameterTree.from_dict(t.to_dict()), vals, node)
    # jax tree protocol
    lv, td = jax.tree_util.tree_flatten(t)
    same(ctx, "pytree", jax.tree_util.tree_unflatten(td, lv), vals, node)
    same(ctx, "pytree-map", jax.tree_util.tree_map(lambda v: v * 2, t), {p: v * 2 for p, v in vals.items()}, node)
    ctx.check("pytree-def", jax.tree_util.tree_structure(t) == jax.tree_util.tree_structure(t3))
    # none of it changed the tree or shares storage with it
    for v in fd.values():
        if np.shape(v):
            v[...] = 77.0
    same(ctx, "untouched", t, vals, node)
    # dictionaries handed out and dictionaries a tree was built from stay independent of the tree
    d = t.to_dict()
    built = ParameterTree.from_dict(d)
    fd2, td2 = t.to_flat_dict()
    built2 = ParameterTree.from_flat_dict(td2, fd2)
    _spoil(d)
    _spoil(td2)
    for k in list(fd2):
        if np.shape(fd2[k]):
            fd2[k][...] = 33.0
        fd2[k] = 34.0
    same(ctx, "dict-edited", t, vals, node)
    same(ctx, "built-from-dict", built, vals, node)
    same(ctx, "built-from-flat", built2, vals, node)
    for p in vals:
        built.set_param(".".join(p), 5.0)
    same(ctx, "built-edited", built2, vals, node)
    same(ctx, "source-of-built", t, vals, node)


def _spoil(d):
    for k, v in d["data"].items():
        if np.shape(v):
            v[...] = 33.0
        d["data"][k] = 34.0
    for s in d["children"].values():
        _spoil(s)
    d["data"]["new"] = 1.0
    d["children"].clear()


def casadi(ctx, shape, kinds, sym):
    node = SHAPES[shape]
    vals = _vals(ctx, node, kinds, "v.")
    t = make(node, vals)
    flat, unravel = t.tree_ravel()
    n = len(flat)
    S = getattr(csd, sym).sym("p", n)
    ct = unravel(S)
    got = walk(ct)
    ctx.check("paths", sorted(got) == sorted(vals))
    for p, v in vals.items():
        sh = np.shape(v)
        e = cas.evaluate(ctx, [got[p]], [S], [np.asarray(flat).reshape(-1, 1)])[0]
        if len(sh) < 2:
            ctx.check("column", e.shape == (max(1, int(np.prod(sh))), 1), f"{p} {e.shape}")
            ctx.eq("value:" + ".".join(p), np.ravel(e), np.ravel(ctx.array(v) if sh else ctx.array([v])))
        else:
            ctx.eq("value:" + ".".join(p), e, v)
    f2, un2 = ct.tree_ravel()
    ctx.check("ravel-size", f2.shape == (n, 1), str(f2.shape))
    ctx.eq("ravel", np.ravel(cas.evaluate(ctx, [f2], [S], [np.asarray(flat).reshape(-1, 1)])[0]), flat)
    back = walk(un2(f2))
    for p in vals:
        ctx.eq("again:" + ".".join(p), cas.evaluate(ctx, [back[p]], [S], [np.asarray(flat).reshape(-1, 1)])[0],
               cas.evaluate(ctx, [got[p]], [S], [np.asarray(flat).reshape(-1, 1)])[0])
    same(ctx, "untouched", t, vals, node)


def paths(ctx, shape, delim, steps):
    """reads and writes by path, histories of them"""
    node = SHAPES[shape]
    vals = _vals(ctx, node, 2, "v.")
    t = make(node, vals)
    bystander = make(node, vals)
    ref = dict(vals)
    ps = list(vals)
    kids = [p for p in nodes(node) if p]
    nodeset = node
    for k in range(steps):
        op = ctx.choice(f"op{k}", ["set", "get", "missing"] + (["replace"] if kids else []))
        if op == "set":
            p = ps[ctx.choice(f"path{k}", list(range(len(ps))))]
            v = value(ctx, f"new{k}", [(), (2,), (2, 2)][k % 3])
            t.set_param(delim.join(p), v, delim)
            ref[p] = v
        elif op == "get":
            p = ps[ctx.choice(f"path{k}", list(range(len(ps))))]
            ctx.eq("get", t.get_param(delim.join(p), delim), ref[p])
        elif op == "missing":
            ctx.raises("missing-leaf", KeyError, lambda: t.get_param("nope", delim))
            ctx.raises("missing-node", KeyError, lambda: t.get_param(delim.join(("nope", "k")), delim))
            ctx.raises("missing-node-set", KeyError, lambda: t.set_param(delim.join(("nope", "k")), 1.0, delim))
            ctx.raises("replace-missing", KeyError, lambda: t.replace_subtree("nope", ParameterTree({}), delim))
            ctx.raises("replace-nontree", TypeError,
                       lambda: t.replace_subtree(delim.join(kids[0]) if kids else "nope", {"a": 1.0}, delim))
        else:
            c = kids[ctx.choice(f"kid{k}", list(range(len(kids))))]
            sub = _sub(nodeset, c)
            new = {p: value(ctx, f"r{k}." + ".".join(p), ()) for p in leaves(sub)}
            t.replace_subtree(delim.join(c), make(sub, new), delim)
            for p, v in new.items():
                ref[c + p] = v
    same(ctx, "end", t, ref, node)
    same(ctx, "bystander", bystander, vals, node)
    for p in ps:
        ctx.eq("read:" + ".".join(p), t.get_param(delim.join(p), delim), ref[p])


def _sub(node, path):
    for c in path:
        node = node[1][c]
    return node


GRAFTS = [(("k",), {}), ((), {}), (("q", "k"), {"g": (("k",), {})}), ((), {"g": (("b", "a"), {"h": (("k",), {})})})]


def _put(node, path, sub):
    if not path:
        return sub
    return (node[0], {**node[1], path[0]: _put(node[1].get(path[0]), path[1:], sub)})


def structure(ctx, shape, steps):
    """histories of changes of the structure, with uses of the tree in between"""
    node = SHAPES[shape]
    ref = {p: value(ctx, "v." + ".".join(p), KINDS[i % 3]) for i, p in enumerate(leaves(node))}
    t = make(node, ref)
    for k in range(steps + 1):
        # every use gives the tree as it is now
        use = ctx.choice(f"use{k}", ["none", "ravel", "flat", "jax"] if k < steps else ["ravel", "flat", "jax"])
        if use == "ravel":
            flat, unravel = t.tree_ravel()
            same(ctx, f"ravel{k}", unravel(flat), ref, node)
        elif use == "flat":
            fd, tdef = t.to_flat_dict()
            ctx.check("flat-keys", sorted(fd) == sorted(".".join(p) for p in ref))
            same(ctx, f"flat{k}", ParameterTree.from_flat_dict(tdef, fd), ref, node)
        elif use == "jax":
            lv, td = jax.tree_util.tree_flatten(t)
            same(ctx, f"jax{k}", jax.tree_util.tree_unflatten(td, lv), ref, node)
        if k == steps:
            break
        kids = [p for p in nodes(node) if p]
        op = ctx.choice(f"op{k}", ["leaf", "child"] + (["replace"] if kids else []))
        at = list(nodes(node))[ctx.choice(f"at{k}", list(range(len(kids) + 1)))] if op != "replace" else kids[ctx.choice(f"kid{k}", list(range(len(kids))))]
        if op == "leaf":  # a further parameter
            v = value(ctx, f"leaf{k}", KINDS[k % 3])
            t.set_param(".".join(at + (f"leaf{k}",)), v)
            sub = _sub(node, at)
            node = _put(node, at, (sub[0] + (f"leaf{k}",), sub[1]))
            ref[at + (f"leaf{k}",)] = v
            continue
        g = GRAFTS[ctx.choice(f"graft{k}", list(range(len(GRAFTS))))]
        new = {p: value(ctx, f"g{k}." + ".".join(p), KINDS[i % 3]) for i, p in enumerate(leaves(g))}
        if op == "child":
            parent = t
            for n in at:
                parent = parent.get_child(n)
            at = at + (f"child{k}",)
            parent.add_child(f"child{k}", make(g, new))
        else:
            t.replace_subtree(".".join(at), make(g, new))
            ref = {p: v for p, v in ref.items() if p[:len(at)] != at}
        node = _put(node, at, g)
        ref.update({at + p: v for p, v in new.items()})


def config(ctx, steps):
    """configuration trees: strings at every node, same laws"""
    mk = lambda: ConfigTree("Car", {"tyre": ConfigTree("T1", {"sub": ConfigTree("S1")}), "aero": ConfigTree("A1")})  # noqa: E731
    t, other = mk(), mk()
    ref = {"": "Car", "tyre": "T1", "tyre.sub": "S1", "aero": "A1"}
    base = dict(ref)
    for k in range(steps):
        p = ctx.choice(f"p{k}", ["tyre.sub", "aero", "sub-tree"])
        if p == "sub-tree":
            t.replace_subtree("tyre", ConfigTree("T2", {"sub": ConfigTree("S2")}))
            ref["tyre"], ref["tyre.sub"] = "T2", "S2"
        else:
            t.replace_subtree(p, ConfigTree(f"new{k}"))
            ref[p] = f"new{k}"
    for tree, exp in ((t, ref), (other, base), (ConfigTree.from_dict(t.to_dict()), ref)):
        fd, tdef = tree.to_flat_dict()
        ctx.check("flat", fd == exp, f"{fd} {exp}")
        ctx.check("back", ConfigTree.from_flat_dict(tdef, fd).to_flat_dict()[0] == exp)


def tasks(tier):
    out = []
    th = tier == "thorough"
    for s in SHAPES:
        n = len(list(leaves(SHAPES[s])))
        for k in range(len(KINDS)):
            out.append(dict(name=f"roundtrip-{s}-{k}", harness="roundtrip", params=dict(shape=s, kinds=k), cost=2))
            for sym in ("SX", "MX") if n else ():
                out.append(dict(name=f"casadi-{s}-{k}-{sym}", harness="casadi", params=dict(shape=s, kinds=k, sym=sym),
                                cost=2))
        if n and n <= (4 if th else 3):
            out.append(dict(name=f"roundtrip-{s}-any", harness="roundtrip", params=dict(shape=s, kinds="any"), cost=50,
                            opts=dict(max_paths=10000)))
            out.append(dict(name=f"casadi-{s}-any", harness="casadi", params=dict(shape=s, kinds="any", sym="SX"), cost=50,
                            opts=dict(max_paths=10000)))
        for d in (".", "/", "->") if n else ():
            out.append(dict(name=f"paths-{s}-{d}", harness="paths", params=dict(shape=s, delim=d, steps=3 if th else 2),
                            cost=20, opts=dict(max_paths=20000)))
        if s in (("nested", "empty-node", "none", "leaf") if not th else SHAPES):
            out.append(dict(name=f"structure-{s}", harness="structure", params=dict(shape=s, steps=1 if not th and s != "leaf" else 2), cost=30,
                            opts=dict(max_paths=40000)))
    out.append(dict(name="config", harness="config", params=dict(steps=4 if th else 3), cost=3))
    return out
