"""Random models shared by the exporter oracles."""
from . import gen, instgen, ref


class M:
    """files, options and the expected trees"""

    def __init__(self, files, kw, root, rdata, troot, tdata, q, us):
        self.files, self.kw, self.root, self.rdata, self.troot, self.tdata, self.q, self.us = files, kw, root, rdata, troot, tdata, q, us


def structs_refs(rng, flat, structs):
    pass


def model(rng, types=0.5, inst=0.4, simple=False, extras=(), size=None, numeric=True, expand=True, tweak=None, rich=True, camel=True,
          explicit=False, ttweak=None, raw=False, dup=False):
    q, us = gen.units(rng)
    t, structs = (gen.types_tree(rng, us, simple=simple, rich=rich, dup=dup) if rng.random() < types else (None, []))
    if rng.random() < inst:
        flat, _, _ = instgen.model(rng, explicit=explicit, size=size or rng.randint(2, 8), extras=extras)
        if structs:
            for f, d in flat.items():
                if d["type"] != "branch" and rng.random() < 0.2:
                    for k in ("default", "allowed", "min", "max", "unit", "arraysize"):
                        d.pop(k, None)
                    if not f.split(".")[-1].startswith(("Is", "Has")):
                        d["datatype"] = rng.choice(structs) + rng.choice(["", "[]"])
        if not numeric:
            for d in flat.values():
                if d.get("datatype", "").startswith("numeric"):
                    d["datatype"] = "double" + d["datatype"][7:]
    else:
        flat = gen.tree(rng, us, structs, size=size, simple=simple, extras=extras, numeric=numeric, rich=rich)
    if tweak:
        tweak(rng, flat)
    if ttweak and t:
        ttweak(rng, t)
    files = {"root.vspec": flat, "units.yaml": us, "quantities.yaml": q}
    kw = {}
    if t:
        files["t.vspec"] = t
        kw["types"] = ["t.vspec"]
    rt = ref.loaded([flat], do_expand=expand)
    tt = ref.loaded([t]) if t else (None, None, None)
    rd = {x["fqn"]: x["data"] for x in rt[1]}
    td = {x["fqn"]: x["data"] for x in tt[1]} if t else None
    if raw:  # keep user attributes that are null or empty
        rd = ref.raw_dump(rt[2])
        td = ref.raw_dump(tt[2]) if t else None
    return M(files, kw, rt[2], rd, tt[2], td, q, us)


def walk(root):
    """pre-order (fqn, node)"""

    def go(n, path):
        f = f"{path}.{n.name}" if path else n.name
        yield f, n
        for c in n.kids:
            yield from go(c, f)

    if root is not None:
        yield from go(root, "")


def base(dt):
    return dt[:-2] if dt.endswith("[]") else dt
