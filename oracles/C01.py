"""Overlay merging."""
import copy

from . import gen, ref
from .common import diff, load, same, write_files


def mutate(rng, flat, root):
    """an overlay: some redefinitions, partial updates and new nodes; keeps the merged model valid"""
    ov = {}
    nodes = list(flat)
    for f in rng.sample(nodes, min(len(nodes), rng.randint(1, 4))):
        old = flat[f]
        k = rng.random()
        if k < 0.3:
            ov[f] = {"description": gen.text(rng)}
        elif k < 0.5:
            ov[f] = {rng.choice(["comment", "deprecation"]): gen.text(rng)}
        elif k < 0.7:
            # nested mapping / list / scalar user attribute
            e = rng.choice(gen.EXTRAS)
            ov[f] = {e: rng.choice([{"k": 1}, {"n": {"deep": rng.randrange(9)}, "m": [1]}, [1, 2], "s", 0, False, {"k": {"a": 1, "b": [2]}}])}
        elif k < 0.85 and old["type"] in ("sensor", "actuator", "attribute") and "unit" not in old:
            d = gen.leaf(rng, None, extras=gen.EXTRAS)
            # replace every value-dependent attribute so that the merge stays valid
            for a in ("min", "max", "allowed", "default", "arraysize", "unit"):
                if a in old and a not in d:
                    d[a] = None
            ov[f] = d
        else:
            ov[f] = {"fka": [gen.text(rng)]}
    if rng.random() < 0.5:
        b = rng.choice([f for f in nodes if flat[f]["type"] == "branch"])
        nm = gen.name_for(rng, {x.split(".")[-1] for x in nodes})
        ov[f"{b}.{nm}"] = gen.leaf(rng, None, extras=gen.EXTRAS)
    return ov


def strip(flat):
    return {k: {a: v for a, v in d.items()} for k, d in flat.items()}


def norm(dump):
    return {n["fqn"]: n["data"] for n in dump}


def one(ctx, rng):
    q, us = gen.units(rng)
    base = gen.tree(rng, us, extras=gen.EXTRAS, size=rng.randint(1, 9))
    n = rng.randint(1, 3)
    merged = copy.deepcopy(base)
    ovs = []
    for _ in range(n):
        o = mutate(rng, merged, "Vehicle")
        ovs.append(o)
        merged = ref.merge_flat([merged, o])
    files = {"root.vspec": base, "quantities.yaml": q, "units.yaml": us}
    files.update({f"o{i}.vspec": o for i, o in enumerate(ovs)})
    seq = list(range(n))
    full = [k for o in ovs for k, v in o.items() if "datatype" in v]
    if n > 1 and rng.random() < 0.4 and len(set(full)) == len(full):
        # the same file may be given more than once: its last position counts
        seq += [rng.randrange(n) for _ in range(rng.randint(1, 2))]
    judge(ctx, files, [f"o{i}.vspec" for i in seq], [base] + [ovs[i] for i in seq])


def judge(ctx, files, overlays, flats):
    d = ctx.newdir()
    write_files(d, files)
    r = load(d, vspec="root.vspec", overlays=overlays)
    exp = {n["fqn"]: n["data"] for n in ref.loaded(flats)[1]}
    ctx.count(files)
    inp = {"files": files, "overlays": overlays}
    if not r.ok:
        ctx.violation("a valid specification with overlays is rejected", {"input": inp, "observed": repr(r)})
    got = norm(r.value[0])
    ctx.check(same(got, exp) and len(r.value[0]) == len(exp), "merged model differs from last-definition-wins merge",
              lambda: {"input": inp, "difference": diff(exp, got)})
    ctx.clean(d)


ALIAS = """Vehicle:
  type: branch
  description: v
Vehicle.A:
  type: sensor
  datatype: int8
  description: a
  note: &n
    k: 1
    sub: {z: 1}
Vehicle.B:
  type: sensor
  datatype: int8
  description: b
  note: *n
"""


def alias(ctx, rng):
    """YAML anchors: two nodes share one mapping in the file; an overlay for one must not change the other"""
    v = rng.randrange(2, 99)
    deep = rng.random() < 0.5
    upd = {"sub": {"z": v}} if deep else {"k": v}
    key = rng.choice(["A", "B"])
    other = "B" if key == "A" else "A"
    ov = {f"Vehicle.{key}": {"note": upd}}
    files = {"root.vspec": ALIAS, "o.vspec": ov}
    if rng.random() < 0.4:
        # the anchor lives in the overlay and a later overlay edits one user of it
        files = {
            "root.vspec": ALIAS.replace("  note: &n\n    k: 1\n    sub: {z: 1}\n", "").replace("  note: *n\n", ""),
            "o0.vspec": "Vehicle.A:\n  note: &n {k: 1, sub: {z: 1}}\nVehicle.B:\n  note: *n\n",
            "o.vspec": ov,
        }
    overlays = [f for f in ("o0.vspec", "o.vspec") if f in files]
    d = ctx.newdir()
    write_files(d, files)
    r = load(d, vspec="root.vspec", overlays=overlays)
    ctx.count(files, part="yaml anchors")
    inp = {"files": files, "overlays": overlays}
    if not r.ok:
        ctx.violation("a valid specification with overlays is rejected", {"input": inp, "observed": repr(r)})
    got = norm(r.value[0])
    base = {"k": 1, "sub": {"z": 1}}
    exp = {f"Vehicle.{key}": ref.merge_val(base, upd), f"Vehicle.{other}": base}
    have = {k: got[k]["note"] for k in exp}
    ctx.check(same(have, exp), "an overlay of one node changed another node", lambda: {"input": inp, "difference": diff(exp, have)})
    ctx.clean(d)


def types_overlay(ctx, rng):
    """--types files after the first redefine and extend the earlier ones"""
    t, structs = gen.types_tree(rng, refs=False)
    root = next(iter(t))
    ov = {}
    f = rng.choice(list(t))
    ov[root] = {"type": "branch", "description": t[root]["description"]}
    ov[f] = dict(t[f])
    ov[f]["description"] = "redefined"
    s = rng.choice(structs)
    # a types file is a complete tree of its own: give the ancestors of everything it mentions
    new = f"{s}.Added"
    ov[new] = {"type": "property", "datatype": "uint8", "description": "added"}
    for k in list(ov):
        parts = k.split(".")
        for i in range(1, len(parts)):
            a = ".".join(parts[:i])
            if a not in ov:
                ov[a] = dict(t[a])
    ov = {k: ov[k] for k in sorted(ov, key=lambda x: x.count("."))}
    files = {"root.vspec": {"Vehicle": {"type": "branch", "description": "v"}}, "t0.vspec": t, "t1.vspec": ov}
    d = ctx.newdir()
    write_files(d, files)
    r = load(d, vspec="root.vspec", types=["t0.vspec", "t1.vspec"])
    ctx.count(files, part="type files")
    inp = {"files": files, "types": ["t0.vspec", "t1.vspec"]}
    if not r.ok:
        ctx.violation("two valid type files are rejected", {"input": inp, "observed": repr(r)})
    exp = {n["fqn"]: n["data"] for n in ref.loaded([t, ov])[1]}
    got = norm(r.value[1])
    ctx.check(same(got, exp) and len(r.value[1]) == len(exp), "later --types file does not redefine the earlier one",
              lambda: {"input": inp, "difference": diff(exp, got)})
    ctx.clean(d)


def run(ctx):
    ctx.loop(0.7, lambda r: one(ctx, r))
    ctx.loop(0.1, lambda r: alias(ctx, r))
    ctx.loop(1.0, lambda r: types_overlay(ctx, r))
