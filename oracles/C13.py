"""JSON and YAML export content."""
import json

import yaml

from . import gen, instgen, ref
from .C14 import NS, v5
from .common import diff, export, load, same, write_files

INTERNAL = {"delete", "instantiate", "arraysize", "aggregate", "is_instance", "fqn"}
CORE = {"type", "description", "comment", "deprecation", "constUID", "fka", "instances", "datatype", "min", "max", "unit", "allowed", "default"}
STRUCTS = []


def entry(data, everything, white):
    out = {}
    for k, v in data.items():
        if k in INTERNAL:
            continue
        if k not in CORE and not everything and k not in white:
            continue
        if (v is None or v == []) and k not in white:
            continue
        out[k] = v
    return out


def tojson(n, path, full, everything, white, uuids):
    f = f"{path}.{n.name}" if path else n.name
    d = entry(full[f], everything, white)
    if uuids:
        d["uuid"] = v5(NS, f).hex()
    if n.kids:
        d["children"] = {c.name: tojson(c, f, full, everything, white, uuids) for c in n.kids}
    return d


def model(rng, ctx):
    q, us = gen.units(rng)
    types, structs = (gen.types_tree(rng, us) if rng.random() < 0.45 else (None, []))
    if rng.random() < 0.5:
        flat, over, inst = instgen.model(rng, explicit=False, extras=gen.EXTRAS[:4], size=rng.randint(2, 8))
    else:
        flat = gen.tree(rng, us, structs, extras=gen.EXTRAS[:4], size=rng.randint(1, 10))
    if rng.random() < 0.3:
        k = rng.choice(list(flat))
        flat[k]["description"] = rng.choice(["long " * 300, "multi\n\nline\n", "trailing\n", "  x", "a\u2028b", "é" * 600, "tab\t\tx", "c:\\d", "\u00a0"])
    if rng.random() < 0.2:
        k = rng.choice(list(flat))
        flat[k]["constUID"] = "0xABCDEF12"
    return q, us, types, flat


def one(ctx, rng):
    q, us, types, flat = model(rng, ctx)
    white = rng.sample(gen.EXTRAS[:4], rng.randint(0, 2))
    if types and white:
        for k in types:
            if rng.random() < 0.3:
                types[k][rng.choice(white)] = rng.choice(["tv", 1, [], {"k": 1}])
    for k in flat:
        if rng.random() < 0.05 and white:
            flat[k][white[0]] = rng.choice([[], None, 0, ""])
    files = {"root.vspec": flat, "units.yaml": us, "quantities.yaml": q}
    if types:
        files["t.vspec"] = types
    everything = rng.random() < 0.4
    uuids = rng.random() < 0.3
    expand = rng.random() < 0.75
    sep = bool(types) and rng.random() < 0.5
    fmt = rng.choice(["json", "yaml"])
    d = ctx.newdir()
    write_files(d, files)
    kw = {"extended_attributes": white, "uuid": uuids, "expand": expand, "extend_all_attributes": everything}
    if types:
        kw["types"] = ["t.vspec"]
    if sep:
        kw["types_output"] = "types.out"
    if fmt == "json" and rng.random() < 0.5:
        kw["pretty"] = True
    r = export(fmt, d, "out", **kw)
    inp = {"files": files, "format": fmt, "options": kw}
    ctx.count(inp, part=fmt)
    if not r.ok:
        ctx.violation(f"{fmt} export of a valid model fails", {"input": inp, "observed": repr(r)})
    rt = ref.loaded([flat], do_expand=expand)[2]
    tt = ref.loaded([types])[2] if types else None
    text = (d / "out").read_text()
    ttext = (d / "types.out").read_text() if sep else None
    if fmt == "json":
        got = json.loads(text)
        exp = {rt.name: tojson(rt, "", ref.raw_dump(rt), everything, white, uuids)}
        texp = {tt.name: tojson(tt, "", ref.raw_dump(tt), everything, white, False)} if tt else None
        tgot = json.loads(ttext) if sep else None
    else:
        got = yaml.safe_load(text)
        exp = {f: entry(x, everything, white) for f, x in ref.raw_dump(rt).items()}
        if uuids:
            for f in exp:
                exp[f]["uuid"] = v5(NS, f).hex()
        texp = {f: entry(x, everything, white) for f, x in ref.raw_dump(tt).items()} if tt else None
        tgot = yaml.safe_load(ttext) if sep else None
    if types and not sep:
        exp["ComplexDataTypes"] = texp
    ctx.check(same(exp, got), f"{fmt} export differs from the model", lambda: {"input": inp, "difference": diff(exp, got)})
    if sep:
        ctx.check(same(texp, tgot), f"{fmt} export of the types differs from the model", lambda: {"input": inp, "difference": diff(texp, tgot)})
    ctx.clean(d)


def run(ctx):
    ctx.loop(1.0, lambda r: one(ctx, r))
