"""Static IDs."""
import yaml

from . import gen, instgen, ref
from .common import diff, export, same, write_files


def fnv1(b):
    h = 0x811C9DC5
    for x in b:
        h = (h * 0x01000193) % 2**32
        h ^= x
    return h


def node_id(fqn, d, sensitive):
    if d.get("constUID"):
        return d["constUID"]
    name = d["fka"][0] if d.get("fka") else fqn

    def s(k):
        v = d.get(k)
        return "" if v is None or v == [] else v

    ident = (
        f"{name}: unit: {s('unit')}, datatype: {s('datatype')}, type: {d['type']}"
        f"allowed: {s('allowed')}min: {s('min')}max: {s('max')}"
    ).encode("utf-8")
    if not sensitive:
        ident = bytes(c + 32 if 65 <= c <= 90 else c for c in ident)
    return "0x%08X" % fnv1(ident)


ODD = ["Größe", "Grße", "GRÖSSE", "größe", "ÅÄÖ", "日本", "a b", "é", "e\u0301", "x\u00a0y", "xy", "İ", "i", "ſ", "K", "k", "ß", "ss", "🚗", "A\tB", "quote'", 'dq"']
KEEP = ("unit", "datatype", "allowed", "min", "max", "fka", "deprecation")


def expected(root, sensitive):
    out = {}
    for n in ref.dump(root):
        d = n["data"]
        e = {"staticUID": node_id(n["fqn"], d, sensitive), "description": d["description"], "type": d["type"]}
        for k in KEEP:
            v = d.get(k)
            if v is None or v == [] or (k in ("deprecation", "unit") and v == ""):
                continue
            e[k] = v
        out[n["fqn"]] = e
    return out


def one(ctx, rng):
    q, us = gen.units(rng)
    inst = rng.random() < 0.3
    if inst:
        flat, _, _ = instgen.model(rng, explicit=False)
    else:
        flat = gen.tree(rng, us, size=rng.randint(1, 10), extras=gen.EXTRAS[:2])
    for k in flat:
        if rng.random() < 0.08 and not (inst and flat[k]["type"] == "branch"):
            flat[k]["constUID"] = rng.choice(["0x%08X", "0x%08x"]) % rng.randrange(2**32)
        if "fka" in flat[k]:
            flat[k]["fka"] = [f"Old.N{rng.randrange(10**6)}"] + (["Older.X"] if rng.random() < 0.5 else [])
        if rng.random() < 0.1 and "datatype" in flat[k] and flat[k]["datatype"] in ("uint8", "float") and "allowed" not in flat[k]:
            flat[k]["min"] = 0
            flat[k]["max"] = rng.choice([0, 0.0, 1.5])
        if rng.random() < 0.15 and flat[k].get("datatype") in ("string", "string[]"):
            for a in ("allowed", "default", "min", "max"):
                flat[k].pop(a, None)
            flat[k]["allowed"] = rng.sample(ODD, 2)
    clash = None
    sensitive = rng.random() < 0.4
    leaves = [k for k in flat if flat[k]["type"] != "branch"]
    if not inst and len(leaves) >= 2 and rng.random() < 0.3:
        a, b = rng.sample(leaves, 2)
        clash = rng.choice(["same const", "const case", "const = hash", "fka"])
        if clash == "same const":
            flat[a]["constUID"] = flat[b]["constUID"] = "0x12345678"
        elif clash == "const case":
            flat[a]["constUID"], flat[b]["constUID"] = "0xABCDEF01", "0xabcdef01"
        elif clash == "const = hash":
            flat[b].pop("constUID", None)
            flat[a]["constUID"] = node_id(b, flat[b], sensitive)
        else:
            flat[b].pop("constUID", None)
            flat[b].pop("fka", None)
            flat[a] = dict(flat[b])
            flat[a]["fka"] = [b if sensitive else rng.choice([b, b.upper(), b.lower()])]
    files = {"root.vspec": flat, "units.yaml": us, "quantities.yaml": q}
    d = ctx.newdir()
    write_files(d, files)
    raw = ["--case-sensitive"] if sensitive else []
    r = export("id", d, "out", raw=raw)
    inp = {"files": files, "options": raw}
    ctx.count(inp, part="collision" if clash else "distinct")
    root = ref.loaded([flat])[2]
    exp = expected(root, sensitive)
    nums = [int(e["staticUID"], 16) for e in exp.values()]
    if len(set(nums)) != len(nums):
        ctx.check(r.rejected and not (d / "out").exists(), "two nodes share an ID and the export does not abort",
                  lambda: {"input": inp, "kind": clash, "observed": repr(r)})
    else:
        ctx.check(r.ok, "ID export of a valid model fails", lambda: {"input": inp, "observed": repr(r)})
        got = yaml.safe_load((d / "out").read_text())
        ctx.check(same(exp, got), "ID export differs from the expected IDs / attributes", lambda: {"input": inp, "difference": diff(exp, got)})
    ctx.clean(d)


def run(ctx):
    ctx.loop(1.0, lambda r: one(ctx, r))
