"""Struct datatype resolution."""
from . import gen
from .common import load, write_files

SEG = ["A", "AB", "B", "Do", "Door", "Doors", "S", "S1", "X"]


def types(rng):
    root = rng.choice(["Types", "T"])
    flat = {root: {"type": "branch", "description": "t"}}
    branches = [root]
    structs = []
    for _ in range(rng.randint(0, 4)):
        p = rng.choice(branches)
        n = f"{p}.{rng.choice(SEG)}"
        if n not in flat and p.count(".") < 3:
            flat[n] = {"type": "branch", "description": "b"}
            branches.append(n)
    for _ in range(rng.randint(1, 5)):
        p = rng.choice(branches + structs if rng.random() < 0.3 else branches)
        n = f"{p}.{rng.choice(SEG)}"
        if n not in flat:
            flat[n] = {"type": "struct", "description": "s"}
            structs.append(n)
    for s in structs:
        flat[f"{s}.P0"] = {"type": "property", "datatype": "uint8", "description": "p"}
    return root, flat, branches, structs


def resolve(dt, fqn, structs):
    """-> set of acceptable resolved datatypes; empty when it must be rejected"""
    arr = dt.endswith("[]")
    b = dt[:-2] if arr else dt
    sfx = "[]" if arr else ""
    if b in gen.BASE or b == "numeric" or b in structs:
        return {dt}
    out = set()
    for t in structs:
        ns, short = t.rsplit(".", 1)
        if short == b and fqn.startswith(ns + ".") and not fqn.startswith(t + "."):
            out.add(t + sfx)
    return out


def one(ctx, rng):
    root, flat, branches, structs = types(rng)
    if not structs:
        return
    # a referring property in some struct
    k = rng.random()
    target = rng.choice(structs)
    if k < 0.45:
        dt = target.rsplit(".", 1)[1]
    elif k < 0.65:
        dt = target
    elif k < 0.75:
        dt = rng.choice(gen.BASE)
    elif k < 0.9:
        p = target.split(".")
        dt = rng.choice([".".join(p[1:]), p[-1] + "x", p[-1][:-1] or "Q", target + "x", target[:-1], p[-2], ".".join(p[:-1]),
                         target + ".P0", target.lower(), "struct", "Uint8"])
    else:
        dt = rng.choice(SEG)
    dt += rng.choice(["", "", "[]"])
    in_types = rng.random() < 0.75
    files = {"root.vspec": {"Vehicle": {"type": "branch", "description": "v"}}}
    d = {"type": "property", "datatype": dt, "description": "ref"}
    if in_types:
        host = rng.choice(structs)
        fqn = f"{host}.Ref"
        flat[fqn] = d
    else:
        fqn = "Vehicle.Ref"
        d["type"] = "sensor"
        files["root.vspec"][fqn] = d
    tf = ["t.vspec"]
    keys = list(flat)
    rng.shuffle(keys)
    flat = {x: flat[x] for x in keys}
    files["t.vspec"] = flat
    ok = resolve(dt, fqn, structs)
    p = ctx.newdir()
    write_files(p, files)
    r = load(p, vspec="root.vspec", types=tf)
    ctx.count([flat, dt, fqn], part="accept" if ok else "reject")
    inp = {"files": files, "node": fqn, "datatype": dt}
    if not ok:
        ctx.check(r.rejected, f"datatype {dt!r} at {fqn} should be rejected", lambda: {"input": inp, "observed": repr(r)})
    else:
        ctx.check(r.ok, f"datatype {dt!r} at {fqn} should be accepted", lambda: {"input": inp, "observed": repr(r)})
        tree = r.value[1] if in_types else r.value[0]
        got = [n["data"]["datatype"] for n in tree if n["fqn"] == fqn]
        ctx.check(len(got) == 1 and got[0] in ok, f"datatype {dt!r} at {fqn} resolved to {got}",
                  lambda: {"input": inp, "expected one of": sorted(ok), "observed": got})
    ctx.clean(p)


def run(ctx):
    ctx.loop(1.0, lambda r: one(ctx, r))
