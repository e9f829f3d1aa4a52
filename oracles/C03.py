"""Tree construction."""
from . import gen, ref
from .common import diff, forked, load, norm_data, same, write_files


def _build(flat, connect=True):
    from vss_tools.vspec.tree import build_tree

    root, orphans = build_tree(flat, connect_orphans=connect)
    out = []

    def go(n, path, parent):
        p = path + [n.name]
        out.append({"fqn": ".".join(p), "get_fqn": n.get_fqn(), "parent": parent, "data": norm_data(n.data.model_dump())})
        for c in n.children:
            assert c.parent is n
            go(c, p, ".".join(p))

    go(root, [], None)
    return out, sorted(orphans)


def gapped(rng):
    """a valid tree in random key order, with some intermediate definitions removed"""
    flat = gen.tree(rng, None, size=rng.randint(1, 14), depth=6, extras=gen.EXTRAS)
    mode = rng.random()
    missing = []
    keys = list(flat)
    br = [k for k in keys if flat[k]["type"] == "branch" and k != "Vehicle" and any(x.startswith(k + ".") for x in keys)]
    if mode < 0.5:
        for k in br:
            if rng.random() < 0.5:
                del flat[k]
                missing.append(k)
    keys = list(flat)
    rng.shuffle(keys)
    return {k: flat[k] for k in keys}, missing


def one(ctx, rng):
    flat, missing = gapped(rng)
    closed = all("." not in k or k.rsplit(".", 1)[0] in flat for k in flat)
    connect = not closed or rng.random() < 0.5
    r = forked(_build, flat, connect)
    ctx.count(flat)
    if not r.ok:
        ctx.violation("build_tree fails on a connected mapping", {"input": flat, "observed": repr(r)})
    nodes, orphans = r.value
    fqns = [n["fqn"] for n in nodes]
    need = set(flat) | {m for m in missing}
    exp = {n["fqn"]: n for n in ref.dump(ref.build(flat))}
    ctx.check(not orphans and sorted(fqns) == sorted(exp) and set(flat) <= need, "tree does not have exactly the given names",
              lambda: {"input": flat, "difference": diff(sorted(exp), sorted(fqns)), "orphans": orphans})
    for n in nodes:
        e = exp[n["fqn"]]
        want = dict(e["data"])
        if n["fqn"] in flat:
            want = {k: v for k, v in flat[n["fqn"]].items() if v is not None and v != []}
        ctx.check(n["get_fqn"] == n["fqn"] and n["parent"] == e["parent"], "node is not the child of its parent path",
                  lambda: {"input": flat, "node": n})
        ctx.check(same(n["data"], want), "node data changed while building the tree",
                  lambda: {"input": flat, "node": n["fqn"], "difference": diff(want, n["data"])})


def whole(ctx, rng):
    """through get_trees: gaps make the model fail, complete models load"""
    flat, missing = gapped(rng)
    d = ctx.newdir()
    write_files(d, {"root.vspec": flat})
    r = load(d, vspec="root.vspec")
    ctx.count(["load", flat], part="whole models")
    if missing:
        ctx.check(r.rejected, "a model with undefined intermediate branches is accepted",
                  lambda: {"input": flat, "missing": missing, "observed": repr(r)})
    else:
        ctx.check(r.ok, "a complete model is rejected", lambda: {"input": flat, "observed": repr(r)})
        got = {n["fqn"]: n["data"] for n in r.value[0]}
        exp = {n["fqn"]: n["data"] for n in ref.loaded([flat])[1]}
        ctx.check(same(got, exp) and len(r.value[0]) == len(exp), "loaded tree differs from the definition",
                  lambda: {"input": flat, "difference": diff(exp, got)})
    ctx.clean(d)


def bad(ctx, rng):
    flat = gen.tree(rng, None, size=rng.randint(0, 5))
    kind = rng.choice(["noroot", "empty", "tworoots", "foreign", "foreign"])
    if kind == "noroot":
        del flat["Vehicle"]
        if not flat:
            kind = "empty"
    elif kind == "empty":
        flat = {}
    elif kind == "tworoots":
        flat[rng.choice(["Vehicles", "Other", "V"])] = {"type": "branch", "description": "x"}
    else:
        k = rng.choice(["Other.A", "Vehicles.A", "Vehicl.A.B", "Vehicle2.Door.X", "X.Vehicle.A", "vehicle.A"])
        flat[k] = {"type": "sensor", "datatype": "uint8", "description": "x"}
    keys = list(flat)
    rng.shuffle(keys)
    flat = {k: flat[k] for k in keys}
    d = ctx.newdir()
    write_files(d, {"root.vspec": flat})
    r = load(d, vspec="root.vspec")
    ctx.count([kind, flat], part="mappings to reject")
    ctx.check(r.rejected, f"a mapping with {kind} is accepted", lambda: {"input": flat, "observed": repr(r)})
    ctx.clean(d)


def run(ctx):
    ctx.loop(0.5, lambda r: one(ctx, r))
    ctx.loop(0.3, lambda r: whole(ctx, r))
    ctx.loop(1.0, lambda r: bad(ctx, r))
