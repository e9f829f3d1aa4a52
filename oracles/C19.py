"""CSV export."""
import csv

from .C14 import NS, v5
from .common import diff, export, same, write_files
from .models import model, walk

COLS = [("datatype", "DataType"), ("deprecation", "Deprecated"), ("unit", "Unit"), ("min", "Min"), ("max", "Max"), ("description", "Desc"),
        ("comment", "Comment"), ("allowed", "Allowed"), ("default", "Default")]


def header(first, uuid, inst):
    return [first, "Type"] + [c for _, c in COLS] + (["Id"] if uuid else []) + (["Instances"] if inst else [])


def rows(root, data, uuid, inst, ids):
    out = []
    for f, n in walk(root):
        d = data[f]
        r = [f, d["type"]] + ["" if d.get(k) is None else str(d[k]) for k, _ in COLS]
        if uuid:
            r.append(v5(NS, f).hex() if ids else "")
        if inst:
            r.append(str(d["instances"]) if d.get("instances") else "")
        out.append(r)
    return out


def tweak(rng, flat):
    for f, d in flat.items():
        if rng.random() < 0.1:
            d["description"] = rng.choice(["", "a,b", 'say "hi"', "two\nlines", "\r\n", "x\r", ";", "é", " ", "'", "=1+1"])
        if rng.random() < 0.1:
            d["comment"] = rng.choice(["", "a,b", "0", "line\n"])
        if d["type"] != "branch" and d["datatype"] == "boolean" and rng.random() < 0.3:
            d["default"] = False
        if d["type"] != "branch" and d["datatype"] == "string" and rng.random() < 0.3 and "allowed" not in d:
            d["default"] = ""


def one(ctx, rng):
    expand = rng.random() < 0.6
    m = model(rng, expand=expand, tweak=tweak)
    uuids = rng.random() < 0.5
    sep = m.troot is not None and rng.random() < 0.5
    kw = dict(m.kw, uuid=uuids, expand=expand)
    if sep:
        kw["types_output"] = "types.csv"
    d = ctx.newdir()
    write_files(d, m.files)
    r = export("csv", d, "out.csv", **kw)
    inp = {"files": m.files, "options": kw}
    ctx.count(inp)
    if not r.ok:
        ctx.violation("csv export of a valid model fails", {"input": inp, "observed": repr(r)})
    def rd(n):
        with open(d / n, newline="") as f:
            return list(csv.reader(f))

    exp = [header("Node" if m.troot is not None and not sep else "Signal", uuids, not expand)] + rows(m.root, m.rdata, uuids, not expand, True)
    texp = rows(m.troot, m.tdata, uuids, not expand, False) if m.troot is not None else []
    if sep:
        t = [header("Node", uuids, not expand)] + texp
        got = rd("types.csv")
        ctx.check(same(t, got), "the CSV of the types differs from the model", lambda: {"input": inp, "difference": diff(t, got)})
    else:
        exp += texp
    got = rd("out.csv")
    ctx.check(same(exp, got), "the CSV differs from the model", lambda: {"input": inp, "difference": diff(exp, got)})
    ctx.clean(d)


def run(ctx):
    ctx.loop(1.0, lambda r: one(ctx, r))
