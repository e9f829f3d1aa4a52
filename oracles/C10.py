"""Structural validity."""
import re

from . import gen
from .common import load, write_files

KINDS = ["branch", "struct", "sensor", "actuator", "attribute", "property"]


def ok_parent(kind, parent):
    if kind == "property":
        return parent == "struct"
    if kind == "struct":
        return parent in ("struct", "branch")
    return parent == "branch"


def make(rng, root, rootkind, kinds, n, valid):
    flat = {root: node(rootkind)}
    for _ in range(n):
        p = rng.choice(list(flat))
        if p.count(".") > 4:
            continue
        k = rng.choice(kinds)
        if rng.random() < valid and not ok_parent(k, flat[p]["type"]):
            continue
        nm = gen.name_for(rng, {x.split(".")[-1] for x in flat if x.startswith(p + ".")})
        flat[f"{p}.{nm}"] = node(k)
    return flat


def node(k):
    d = {"type": k, "description": "x"}
    if k not in ("branch", "struct"):
        d["datatype"] = "uint8"
    return d


def expand(f, inst):
    """the names of a node after expansion of its ancestors' instances"""
    out, at = [""], ""
    for i, s in enumerate(f.split(".")):
        at = f"{at}.{s}" if at else s
        out = [f"{o}.{s}" if o else s for o in out]
        if at in inst and at != f:
            out = [f"{o}.{x}" for o in out for x in ("Qa1", "Qb2")]
    return out


def one(ctx, rng):
    valid = rng.choice([1.0, 1.0, 0.9, 0.5])
    flat = make(rng, "Vehicle", rng.choice(["branch"] * 9 + KINDS), KINDS, rng.randint(1, 10), valid)
    inst = set()
    if rng.random() < 0.4:
        inst = {f for f in flat if flat[f]["type"] == "branch" and rng.random() < 0.5}
        for f in inst:
            flat[f]["instances"] = ["Qa1", "Qb2"]
    files = {"root.vspec": flat}
    types = None
    if rng.random() < 0.4:
        types = make(rng, "Types", "branch", ["branch", "struct", "struct", "property", "property", "sensor"], rng.randint(1, 8), valid)
        files["t.vspec"] = types
    bad = []
    for t in (flat, types or {}):
        for f, d in t.items():
            if "." in f and not ok_parent(d["type"], t[f.rsplit(".", 1)[0]]["type"]):
                bad.append((t is flat, f))
    d = ctx.newdir()
    write_files(d, files)
    r = load(d, vspec="root.vspec", types=["t.vspec"] if types else [])
    ctx.count(files, part="accept" if not bad else "reject")
    inp = {"files": files}
    if not bad:
        ctx.check(r.ok, "a structurally valid model is rejected", lambda: {"input": inp, "observed": repr(r)})
    else:
        ctx.check(r.rejected, "a structurally invalid model is accepted", lambda: {"input": inp, "offending": bad, "observed": repr(r)})
        txt = "\n".join(m for lv, m in r.logs if lv in ("CRITICAL", "ERROR", "WARNING"))
        if r.kind == "exit":
            main = [x for s, f in bad if s for x in expand(f, inst)] or [f for s, f in bad if not s]
            for f in main:
                ctx.check(re.search(r"(?<![\w.])" + re.escape(f) + r"(?![\w.])", txt) is not None, f"offending node {f} is not reported",
                          lambda: {"input": inp, "offending": bad, "observed": repr(r)})
    ctx.clean(d)


def run(ctx):
    ctx.loop(1.0, lambda r: one(ctx, r))
