"""Static-ID validation."""
import copy
import re

from . import gen, ref
from .C15 import node_id
from .common import export, write_files


def mutate(rng, flat, us):
    """new model from an old one; names freed by a rename are not reused"""
    new = {}
    fresh = 0
    rename = {}
    for k, v in flat.items():
        parts = k.split(".")
        parent = ".".join(parts[:-1])
        nk = (rename.get(parent, parent) + "." if parent else "") + parts[-1]
        d = copy.deepcopy(v)
        leaf = d["type"] != "branch"
        r = rng.random()
        if k == "Vehicle" or r < 0.35:
            pass
        elif r < 0.45:
            d["description"] = "changed description"
        elif r < 0.52:
            d["deprecation"] = rng.choice(["V9 changed", "V8"])
        elif r < 0.6 and leaf:
            d["comment"] = "irrelevant"
            d["default"] = None
        elif r < 0.7 and leaf:
            # breaking change
            w = rng.choice(["dt", "min", "allowed", "type"])
            if w == "min" and "allowed" not in d:
                d["min"] = 77 if d.get("min") != 77 else 78
            elif w == "type":
                d["type"] = {"sensor": "actuator", "actuator": "attribute", "attribute": "sensor"}[d["type"]]
            else:
                for a in ("min", "max", "allowed", "default", "unit", "arraysize"):
                    d.pop(a, None)
                d["datatype"] = "double" if d["datatype"] != "double" else "float"
        elif r < 0.85:
            fresh += 1
            nk = nk.rsplit(".", 1)[0] + f".Renamed{fresh}"
            w = rng.random()
            if w < 0.5:
                d["fka"] = [k]
            elif w < 0.7:
                d["fka"] = ["Vehicle.Nowhere", k]
            else:
                d.pop("fka", None)
            if rng.random() < 0.3:
                d["description"] = "changed description"
        elif r < 0.93 and leaf:
            # the name changes in case only, sometimes with the definition
            h, t = nk.rsplit(".", 1)
            nk = f"{h}.{rng.choice([t.lower(), t.upper(), t.swapcase(), t])}"
            if rng.random() < 0.6:
                d["type"] = {"sensor": "actuator", "actuator": "attribute", "attribute": "sensor"}[d["type"]]
        elif leaf:
            continue
        rename[k] = nk
        new[nk] = d
    for _ in range(rng.randint(0, 2)):
        fresh += 1
        p = rng.choice([k for k in new if new[k]["type"] == "branch"])
        new[f"{p}.Added{fresh}"] = gen.leaf(rng, us, numeric=False)
        new[f"{p}.Added{fresh}"].pop("fka", None)
    return new


PAT = {
    "description": re.compile(r"DESCRIPTION MISMATCH.*?description of (\S+) has changed", re.S),
    "rename": re.compile(r"NAME CHANGE or PATH CHANGE for '([^']*)'"),
    "deprecation": re.compile(r"DEPRECATION MSG CHANGE.*?for '([^']*)'", re.S),
    "breaking": re.compile(r"BREAKING CHANGE.*?for '([^']*)'", re.S),
    "added": re.compile(r"ADDED ATTRIBUTE.*?node '([^']*)'", re.S),
    "deleted": re.compile(r"DELETED ATTRIBUTE.*?'([^']*)'", re.S),
}


def ident(fqn, name, d, sensitive):
    e = {k: v for k, v in d.items() if k not in ("fka", "constUID")}
    e["fka"] = [name]
    return node_id(fqn, e, sensitive)


def classify(old, new, sensitive):
    """(required reports, allowed reports)"""
    req, opt = set(), set()
    oid = {node_id(k, d, sensitive): k for k, d in old.items()}
    matched = set()
    for k, d in new.items():
        i = node_id(k, d, sensitive)
        if i in oid:
            o = oid[i]
            matched.add(o)
            od = old[o]
            if od["description"] != d["description"]:
                req.add(("description", k))
            if od.get("deprecation") and d.get("deprecation") and od["deprecation"] != d["deprecation"]:
                req.add(("deprecation", k))
            if o != k:
                opt.add(("rename", k))
            continue
        ren = [oid[ident(k, f, d, sensitive)] for f in d.get("fka") or [] if ident(k, f, d, sensitive) in oid]
        if ren:
            if len(set(ren)) > 1:
                return None
            req.add(("rename", k))
            matched.add(ren[0])
        elif k in old:
            req.add(("breaking", k))
            if k in matched:
                return None
            matched.add(k)
        else:
            req.add(("added", k))
    for k in old:
        if k not in matched:
            req.add(("deleted", k))
    return req, opt


def one(ctx, rng):
    q, us = gen.units(rng)
    old = gen.tree(rng, us, size=rng.randint(1, 10), numeric=False)
    for k in old:
        old[k].pop("fka", None)
    new = mutate(rng, old, us)
    sensitive = rng.random() < 0.4
    raw = ["--case-sensitive"] if sensitive else []
    for t in (old, new):
        ids = [node_id(k, d, sensitive) for k, d in t.items()]
        if len(set(ids)) != len(ids):
            return
    # the same effective definitions as the tool sees them
    n0 = {k: {a: v for a, v in d.items() if v is not None} for k, d in old.items()}
    n1 = {k: {a: v for a, v in d.items() if v is not None} for k, d in new.items()}
    cl = classify(n0, n1, sensitive)
    if cl is None:
        return
    # two different new nodes must not claim one old node
    req, opt = cl
    files = {"old/old.vspec": old, "new/new.vspec": new, "units.yaml": us, "quantities.yaml": q}
    d = ctx.newdir()
    write_files(d, files)
    kw = {"units": ["units.yaml"], "quantities": ["quantities.yaml"]}
    r0 = export("id", d, "old/ids.vspec", vspec="old/old.vspec", raw=raw, **kw)
    inp = {"files": files, "options": raw}
    ctx.check(r0.ok, "ID export of a valid model fails", lambda: {"input": inp, "observed": repr(r0)})
    r = export("id", d, "out", vspec="new/new.vspec", raw=raw + ["--validate-static-uid", str(d / "old/ids.vspec")], **kw)
    ctx.count(inp, bool(req))
    ctx.check(r.ok, "validation against an earlier export fails", lambda: {"input": inp, "observed": repr(r)})
    got = set()
    for _, m in r.logs:
        for kind, p in PAT.items():
            for x in p.findall(m):
                got.add((kind, x))
    ctx.check(req <= got <= req | opt, "changes are classified wrongly",
              lambda: {"input": inp, "not reported": sorted(req - got), "wrongly reported": sorted(got - req - opt)})
    ctx.clean(d)


def run(ctx):
    ctx.loop(1.0, lambda r: one(ctx, r))
