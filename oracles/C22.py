"""JSON schema export."""
import json

from .C13 import CORE, INTERNAL
from .C14 import NS, v5
from .common import diff, export, same, write_files
from . import gen
from .models import base, model

KNOWN = CORE | INTERNAL
JT = {"boolean": "boolean", "float": "number", "double": "number", "string": "string", "numeric": "number"}


def jtype(dt):
    if dt.endswith("[]"):
        return "array"
    return JT.get(dt) or ("integer" if dt in gen.INTS else "object")


def schema(n, f, data, kw):
    d = data[f]
    out = {"description": d["description"]}
    if "datatype" in d:
        out["type"] = jtype(d["datatype"])
    if d["type"] == "struct":
        out["type"] = "object"
    for k, j in (("min", "minimum"), ("max", "maximum"), ("default", "default")):
        if d.get(k) is not None:
            out[j] = d[k]
    if d.get("allowed"):
        out["enum"] = d["allowed"]
    if kw["ext"]:
        out["x-VSStype"] = d["type"]
        for k in ("datatype", "deprecation", "unit", "aggregate", "comment"):
            if d.get(k):
                out["x-" + k] = d[k]
        if d.get("aggregate"):
            out["type"] = "object"
        if kw["uuid"]:
            out["x-uuid"] = v5(NS, f).hex() if kw["sig"] else None
    for k, v in d.items():
        if k not in KNOWN:
            out[k] = v
    if d["type"] in ("branch", "struct"):
        if kw["closed"]:
            out["additionalProperties"] = False
        out["properties"] = {c.name: schema(c, f"{f}.{c.name}", data, kw) for c in n.kids}
        if kw["req"]:
            out["required"] = [c.name for c in n.kids]
    return out


def tweak(rng, flat):
    for f, d in flat.items():
        k = rng.random()
        if d["type"] == "branch":
            if k < 0.15:
                d["aggregate"] = True
        elif k < 0.3 and "allowed" not in d and not d["datatype"].endswith("[]"):
            b = base(d["datatype"])
            lo, hi = d.get("min"), d.get("max")
            if b in gen.INT_RANGES or b in ("float", "double"):
                if (lo is None or lo <= 0) and (hi is None or hi >= 0):
                    d["default"] = rng.choice([0, 0.0]) if b in ("float", "double") else 0
            elif b == "boolean":
                d["default"] = False
            elif b == "string":
                d["default"] = ""


def order(x):
    """names in order, recursively"""
    return [(k, order(v) if k == "properties" or isinstance(v, dict) and "description" in v else None) for k, v in x.items()]


def propnames(x):
    out = []
    for k, v in (x.get("properties") or {}).items():
        out.append((k, propnames(v)))
    return out


def one(ctx, rng):
    white = rng.sample(gen.EXTRAS[:4], rng.randint(0, 2))
    expand = rng.random() < 0.8
    m = model(rng, extras=gen.EXTRAS[:4], tweak=tweak, expand=expand, raw=True)
    ext, uuids, req, closed = (rng.random() < 0.5 for _ in range(4))
    kw = dict(m.kw, extended_attributes=white, uuid=uuids, expand=expand, extend_all_attributes=ext)
    raw = (["--require-all-properties"] if req else []) + (["--no-additional-properties"] if closed else [])
    if rng.random() < 0.5:
        kw["pretty"] = True
    d = ctx.newdir()
    write_files(d, m.files)
    r = export("jsonschema", d, "out.json", raw=raw, **kw)
    inp = {"files": m.files, "options": [kw, raw]}
    ctx.count(inp)
    if not r.ok:
        ctx.violation("jsonschema export of a valid model fails", {"input": inp, "observed": repr(r)})
    got = json.loads((d / "out.json").read_text())
    o = {"ext": ext, "uuid": uuids, "req": req, "closed": closed, "sig": True}
    exp = {"$schema": "https://json-schema.org/draft/2020-12/schema", "title": m.root.name, "type": "object"}
    exp.update(schema(m.root, m.root.name, m.rdata, o))
    if m.troot is not None and ext:
        exp["x-ComplexDataTypes"] = {m.troot.name: schema(m.troot, m.troot.name, m.tdata, dict(o, sig=False))}
    ctx.check(same(exp, got), "the JSON schema differs from the model", lambda: {"input": inp, "difference": diff(exp, got)})
    ctx.check(propnames(exp) == propnames(got), "the JSON schema lists children in another order", lambda: {"input": inp, "observed": propnames(got)})
    ctx.clean(d)


def run(ctx):
    ctx.loop(1.0, lambda r: one(ctx, r))
