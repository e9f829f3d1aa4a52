"""Franca and tree exports."""
from .C14 import NS, v5
from .common import DEFAULTS, export, write_files
from . import gen
from .models import model, walk

HEAD = "const SignalSpec[] signal_spec = [\n"


def franca_entry(f, d, uuids):
    out = [f'name: "{f}"', f'type: "{d["type"]}"', f'description: "{d["description"]}"']
    if d.get("datatype"):
        out.append(f'datatype: "{d["datatype"]}"')
    if uuids:
        out.append(f'uuid: "{v5(NS, f).hex()}"')
    if d.get("unit"):
        out.append(f'unit: "{d["unit"]}"')
    for k in ("min", "max"):
        if d.get(k) is not None:
            out.append(f"{k}: {d[k]}")
    if d.get("allowed"):
        out.append(f"allowed: {d['allowed']}")
    return "{\t" + ",\n\t".join(out) + "\n}"


def squash(s):
    return " ".join(s.split())


def franca(ctx, rng):
    m = model(rng, types=0, size=rng.choice([1, 2, 5, 10]) if rng.random() < 0.5 else None)
    uuids = rng.random() < 0.5
    ver = rng.choice(["4.1", "x", None])
    d = ctx.newdir()
    write_files(d, m.files)
    r = export("franca", d, "out.fidl", uuid=uuids, raw=["--franca-vss-version", ver] if ver else [])
    inp = {"files": m.files, "uuid": uuids}
    ctx.count(inp, part="franca")
    if not r.ok:
        ctx.violation("franca export of a valid model fails", {"input": inp, "observed": repr(r)})
    got = (d / "out.fidl").read_text()
    exp = ",\n".join(franca_entry(f, m.rdata[f], uuids) for f, n in walk(m.root) if f != m.root.name) + "\n]"
    i = got.find("signal_spec = [")
    body = got[i + len("signal_spec = ["):] if i >= 0 else ""
    ctx.check(i >= 0 and (ver is None or f'VSS_VERSION = "{ver}"' in got[:i]), "the Franca header is wrong", lambda: {"input": inp, "observed": got[:600]})
    ctx.check(squash(body) == squash(exp), "the Franca entries differ from the model", lambda: {"input": inp, "expected": exp, "observed": body})
    ctx.clean(d)


ATTRS = ["description", "datatype", "min", "max", "unit", "allowed", "default", "comment", "deprecation", "delete", "instantiate", "fka", "arraysize",
         "instances", "zzz", "owner", "nothing", "aggregate"]


def attr(d, inst, a):
    """(has, value) of an attribute of the exported node, None being unset"""
    if a in d and not (a == "instances"):
        return d[a]
    t = d["type"]
    if a in ("delete",):
        return False
    if a == "instantiate":
        return True
    if a == "fka":
        return []
    if t == "branch" and a == "instances":
        v = d.get("instances")
        return [v] if isinstance(v, str) else (v or [])
    if t == "branch" and a == "aggregate":
        return False
    if t in ("sensor", "actuator", "attribute", "property") and a == "allowed" and d.get("allowed") is None:
        return None
    return None


def lines(root, data, attrs):
    out = []

    def go(n, f, pre, fill):
        out.append(pre + n.name)
        for a in attrs:
            v = attr(data[f], n.inst, a)
            if v is None:
                continue
            out.append(f"{fill}{a}='{v}'" if isinstance(v, str) else f"{fill}{a}={v}")
        for i, c in enumerate(n.kids):
            last = i == len(n.kids) - 1
            base = fill
            go(c, f"{f}.{c.name}", base + ("\u2514\u2500\u2500 " if last else "\u251c\u2500\u2500 "), base + ("    " if last else "\u2502   "))

    go(root, root.name, "", "")
    return out


def tree(ctx, rng):
    expand = rng.random() < 0.7
    m = model(rng, extras=["zzz", "owner"], expand=expand, raw=True)
    attrs = rng.sample(ATTRS, rng.randint(0, 4))
    d = ctx.newdir()
    write_files(d, m.files)
    raw = [x for a in attrs for x in ("--attr", a)]
    inp = {"files": m.files, "attrs": attrs, "expand": expand}
    ctx.count(inp, part="tree")
    r = export("tree", d, "out.txt", raw=raw, expand=expand, **m.kw)
    if not r.ok:
        ctx.violation("tree export of a valid model fails", {"input": inp, "observed": repr(r)})
    exp = lines(m.root, m.rdata, attrs)
    if m.troot is not None:
        exp += lines(m.troot, m.tdata, attrs)
    got = (d / "out.txt").read_text()
    ctx.check("\n".join(exp) == got, "the tree differs from the model",
              lambda: {"input": inp, "difference": [(a, b) for a, b in zip(exp, got.split("\n")) if a != b][:6] or [len(exp), len(got.split(chr(10)))]})
    ctx.clean(d)


def run(ctx):
    ctx.loop(0.5, lambda r: franca(ctx, r))
    ctx.loop(0.5, lambda r: tree(ctx, r))
