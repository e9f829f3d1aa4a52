"""ApiGear export."""
import yaml

from . import gen
from .common import cli, cli_args, diff, same, write_files
from .models import base, model, walk

TY = {"boolean": "bool", "float": "float32", "double": "float64", "string": "string", "int64": "int64", "uint64": "int64"}
for _t in ("int8", "int16", "int32", "uint8", "uint16", "uint32"):
    TY[_t] = "int32"


def dep(n, d):
    return n + "_Deprecated" if d.get("deprecation") else n


def literal(s):
    return "d" + s.replace(".", "_") if s[0].isdigit() else s


def number(s):
    if not s[0].isdigit():
        return None
    try:
        return int(s, 16)
    except ValueError:
        return None


def prop(name, f, d, enums):
    fq = dep(f.replace(".", "_"), d)
    p = {"name": dep(name, d)}
    if enums is not None and d.get("allowed"):
        p["type"] = fq + "_Value"
        ms = []
        for a in d["allowed"]:
            s = str(a)
            x = {"name": literal(s)}
            v = number(s)
            if v is not None and d["datatype"] != "float":
                x["value"] = v
            ms.append(x)
        enums.append({"name": p["type"], "members": ms})
    else:
        b = base(d["datatype"])
        p["type"] = TY.get(b) or b.replace(".", "_")
    if d["description"] != "":
        p["description"] = d["description"]
    if d["datatype"].endswith("[]") and not (enums is not None and d.get("allowed")):
        p["array"] = True
    return p


MANY = [f"{a}{b}" for a in ("V", "v", "Mode", "MODE", "x_") for b in ("", "a", "A", "1")] + ["10", "0A", "0a", "9x", "é", "É"]


def tweak(rng, flat):
    for d in flat.values():
        al = d.get("allowed")
        if isinstance(al, list):
            if base(d["datatype"]) == "string" and rng.random() < 0.5:
                d["allowed"] = al = [a for a in dict.fromkeys(al + rng.sample(["0x1F", "1.2", "12", "3D", "0b11", "Z"], 2)) if a]
                d.pop("default", None)
            elif base(d["datatype"]) == "string" and rng.random() < 0.3:
                d["allowed"] = al = rng.sample(MANY, rng.randint(6, len(MANY)))
                d.pop("default", None)
            if "" in al:
                d["allowed"] = [a for a in al if a != ""] or ["E"]
                d.pop("default", None)


def one(ctx, rng):
    m = model(rng, tweak=tweak, ttweak=tweak, numeric=rng.random() < 0.3)
    d = ctx.newdir()
    write_files(d, m.files)
    lay = rng.sample(["unreal", "cpp", "qt5", "qt6"], rng.randint(0, 4))
    raw = [x for k in lay for x in (f"--apigear-template-{k}-path", str(d / f"l_{k}"))]
    out = d / "out"
    r = cli(["export", "apigear", "--vspec", d / "root.vspec", "--output-dir", out] + cli_args(d, m.kw) + raw)
    inp = {"files": m.files, "options": raw}
    ctx.count(inp)
    if not r.ok:
        ctx.violation("apigear export of a valid model fails", {"input": inp, "observed": repr(r)})
    root = m.root.name
    got = yaml.safe_load((out / f"{root}.module.yaml").read_bytes())
    ifs, enums, sts = [], [], []
    for f, n in walk(m.root):
        dd = m.rdata[f]
        if dd["type"] == "branch":
            ifs.append((f, {"name": dep(f.replace(".", "_"), dd), "properties": []}))
    by = dict(ifs)
    for f, n in walk(m.root):
        dd = m.rdata[f]
        if "datatype" in dd:
            by[f.rsplit(".", 1)[0]]["properties"].append(prop(n.name, f, dd, enums))
    if m.troot is not None:
        for f, n in walk(m.troot):
            if m.tdata[f]["type"] == "struct":
                sts.append({"name": dep(f.replace(".", "_"), m.tdata[f]),
                            "fields": [prop(c.name, f"{f}.{c.name}", m.tdata[f"{f}.{c.name}"], None) for c in n.kids]})
    exp = {"schema": "apigear.module/1.0", "name": root, "version": "1.0", "interfaces": [i for _, i in ifs if i["properties"]]}
    if enums:
        exp["enums"] = enums
    if sts:
        exp["structs"] = sts
    ctx.check(same(exp, got), "the ApiGear module differs from the model", lambda: {"input": inp, "difference": diff(exp, got)})
    sol = yaml.safe_load((out / f"{root}.solution.yaml").read_bytes())
    names = [x["name"] for x in sol["layers"]]
    ok = sol["name"] == root and names == ([k for k in ("unreal", "cpp", "qt5", "qt6") if k in lay] or ["cpp"])
    ok = ok and all(x["inputs"] == [f"{root}.module.yaml"] for x in sol["layers"])
    ok = ok and all(x["output"] == f"l_{x['name']}" for x in sol["layers"] if lay)
    ctx.check(ok, "the ApiGear solution does not list the requested layers", lambda: {"input": inp, "observed": sol})
    ctx.clean(d)


def run(ctx):
    ctx.loop(1.0, lambda r: one(ctx, r))
