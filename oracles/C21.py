"""Go export, parsed back."""
import re

from .common import export, write_files
from .models import base, model, walk

GO = {"float": "float32", "double": "float64", "boolean": "bool", "numeric": "float64"}


def parse(text, package):
    lines = text.split("\n")
    if lines[0] != f"package {package}":
        return None, "package line: " + lines[0]
    out = []
    cur = None
    for ln in lines[1:]:
        if not ln.strip():
            continue
        m = re.fullmatch(r"type (\S+) struct \{", ln.strip())
        if cur is None and m:
            cur = []
            out.append((m.group(1), cur))
        elif cur is not None and ln.strip() == "}":
            cur = None
        elif cur is not None and len(ln.split()) == 2:
            cur.append(tuple(ln.split()))
        else:
            return None, "line: " + ln
    if cur is not None:
        return None, "unterminated struct"
    for n, ms in out:
        for x in [n] + [y for m in ms for y in m]:
            if not re.fullmatch(r"(\[\])?\w+", x):
                return None, "not an identifier: " + x
    return out, None


def classes(m):
    """fqn -> class of branch nodes that share one struct, instances of one branch being alike"""
    cls = {}

    def go(n, f, key):
        cls[f] = key
        for c in n.kids:
            cf = f"{f}.{c.name}"
            if m.rdata[cf]["type"] != "branch":
                continue
            if c.inst:
                top, depth = key, 1
                if n.inst:
                    top, depth = key[1], key[2] + 1
                ck = ("inst", top, depth)
            else:
                ck = ("node", key[1] if n.inst else key, c.name)
            go(c, cf, ck)

    go(m.root, m.root.name, ("node", None, m.root.name))
    return cls


def compare(m, structs, short):
    by = dict(structs)
    if len(by) != len(structs):
        return "two structs have the same name", sorted(n for n, _ in structs)
    cls = classes(m)
    used = {}  # struct name -> class

    def claim(name, key, where):
        if name not in by:
            return f"{where} uses the undefined struct {name}"
        if used.setdefault(name, key) != key:
            return f"{where}: struct {name} is shared by different nodes"
        return None

    def members(name, kids, where):
        got = by[name]
        if [g[0] for g in got] != [k for k, _ in kids]:
            return f"{where}: members {[g[0] for g in got]} of {name}, expected {[k for k, _ in kids]}"
        return None

    tdone = {}

    def dt(t, got, where):
        b = base(t)
        arr = "[]" if t.endswith("[]") else ""
        if "." not in b:
            e = arr + GO.get(b, b)
            return None if got == e else f"{where}: type {got}, expected {e}"
        if not got.startswith(arr) or (not arr and got.startswith("[]")):
            return f"{where}: type {got} for {t}"
        return struct(b, got[len(arr):], where)

    def struct(f, name, where):
        e = claim(name, ("type", f), where)
        if e or f in tdone:
            return e or (None if tdone[f] == name else f"{where}: {f} is {name} and {tdone[f]}")
        tdone[f] = name
        n = next(x for y, x in walk(m.troot) if y == f)
        kids = [(c.name, m.tdata[f"{f}.{c.name}"]["datatype"]) for c in n.kids]
        e = members(name, kids, f)
        if e:
            return e
        for (k, t), (_, got) in zip(kids, by[name]):
            e = dt(t, got, f"{f}.{k}")
            if e:
                return e

    names = {}

    def branch(n, f, name, where):
        e = claim(name, cls[f], where)
        if e:
            return e
        if names.setdefault(cls[f], name) != name:
            return f"{where}: nodes that share a struct have {name} and {names[cls[f]]}"
        kids = [(c.name, c) for c in n.kids]
        e = members(name, kids, f)
        if e:
            return e
        for (k, c), (_, got) in zip(kids, by[name]):
            cf = f"{f}.{k}"
            d = m.rdata[cf]
            e = dt(d["datatype"], got, cf) if "datatype" in d else branch(c, cf, got, cf)
            if e:
                return e

    rootname = structs[0][0]
    if rootname != m.root.name:
        return "the first struct is not the one of the root", rootname
    e = branch(m.root, m.root.name, rootname, "root")
    if e:
        return e, None
    for f, n in walk(m.troot):
        if m.tdata[f]["type"] == "struct" and f not in tdone:
            cand = [x for x in by if x not in used and (f.replace(".", "") == x if not short else f.replace(".", "").endswith(x))
                    and [g[0] for g in by[x]] == [c.name for c in n.kids]]
            if not cand:
                return f"no struct for the type {f}", sorted(by)
    if not short:
        plain = set()

        def mark(n, f):
            if not n.inst:
                plain.add(f)
                for c in n.kids:
                    mark(c, f"{f}.{c.name}")

        mark(m.root, m.root.name)
        for f, key in cls.items():
            if f in plain and names[key] != f.replace(".", ""):
                return f"struct of {f} is named {names[key]}", None
    return None, None


def chain(key):
    while key is not None:
        yield key
        key = key[1]


def usable(m):
    """concatenated names are distinct; a branch below differing instances is not shared"""
    names = {}
    for f, key in classes(m).items():
        ks = list(chain(key))[::-1]
        names[key] = "".join(k[2] if k[0] == "node" else "I" + str(k[2]) for k in ks)
    # instances below an instance are named by their full path
    for f, n in walk(m.root):
        if n.inst:
            names[("inner", f)] = f.replace(".", "") if not f.replace(".", "") in names.values() else "!" + f
    for f, n in walk(m.troot):
        if m.tdata[f]["type"] == "struct":
            names[("type", f)] = f.replace(".", "")
    return len(set(names.values())) == len(names)


def rename(rng, flat):
    """names that make concatenations meet: A, B, AB, ..."""


def spec(rng):
    """trees with few, short names: many near collisions"""
    flat = {"Vehicle": {"type": "branch", "description": "d"}}
    t = {"T": {"type": "branch", "description": "d"}}
    br = ["Vehicle"]
    for _ in range(rng.randint(2, 9)):
        p = rng.choice(br)
        f = p + "." + rng.choice(["A", "B", "AB", "BA", "C", "Vehicle", "T", "I1", "AI1"])
        if f in flat:
            continue
        flat[f] = {"type": "branch", "description": "d"}
        if rng.random() < 0.25:
            flat[f]["instances"] = rng.choice([["Row1", "Row2"], ["Vehicle", "Left"], "R[1,2]", ["R[1,2]", ["A", "X"]], ["A", "C"]])
        br.append(f)
    for f in list(br):
        flat[f + ".Z"] = {"type": "sensor", "datatype": rng.choice(["uint8", "string", "float[]"]), "description": "d"}
    structs = []
    if rng.random() < 0.6:
        for s in rng.sample(["A", "AB", "B", "BC", "BI1"], rng.randint(1, 3)):
            p = rng.choice(["T", "T.A", "T.C"])
            if p != "T":
                t.setdefault(p, {"type": "branch", "description": "d"})
                if t[p]["type"] != "branch":
                    continue
            f = f"{p}.{s}"
            if f in t:
                continue
            t[f] = {"type": "struct", "description": "d"}
            t[f + ".P" + str(len(t))] = {"type": "property", "datatype": rng.choice(["uint8", "string"]), "description": "d"}
            structs.append(f)
        for f in list(flat):
            if structs and flat[f]["type"] == "sensor" and rng.random() < 0.5:
                flat[f]["datatype"] = rng.choice(structs) + rng.choice(["", "[]"])
    return flat, t if structs else None


def small(rng):
    from . import ref
    from .models import M

    flat, t = spec(rng)
    # labels may not meet other children
    for f, d in flat.items():
        i = d.get("instances")
        if i:
            n = ref.N("r", dict(d), [])
            ref.expand(n)
            kids = {g[len(f) + 1:].split(".")[0] for g in flat if g.startswith(f + ".")}
            if {c.name for x in ref_walk(n) for c in x.kids} & kids:
                return None
    q, us = {}, {}
    files = {"root.vspec": flat, "units.yaml": "", "quantities.yaml": ""}
    kw = {}
    if t:
        files["t.vspec"] = t
        kw["types"] = ["t.vspec"]
    rt = ref.loaded([flat])
    tt = ref.loaded([t]) if t else (None, None, None)
    return M(files, kw, rt[2], {x["fqn"]: x["data"] for x in rt[1]}, tt[2], {x["fqn"]: x["data"] for x in tt[1]} if t else None, q, us)


def ref_walk(n):
    yield n
    for c in n.kids:
        yield from ref_walk(c)


def one(ctx, rng):
    m = small(rng) if rng.random() < 0.6 else model(rng, types=0.6, inst=0.5)
    if m is None or not usable(m):
        return
    short = rng.random() < 0.6
    d = ctx.newdir()
    write_files(d, m.files)
    package = rng.choice(["vss", "other"])
    r = export("go", d, "out.go", raw=["--package", package, "--short-names" if short else "--no-short-names"], **m.kw)
    inp = {"files": {k: v for k, v in m.files.items() if k not in ("units.yaml", "quantities.yaml")}, "short_names": short}
    ctx.count(inp, part="short" if short else "full")
    if not r.ok:
        ctx.violation("go export of a valid model fails", {"input": inp, "observed": repr(r)})
    text = (d / "out.go").read_text()
    structs, err = parse(text, package)
    if err:
        ctx.violation("the exported Go file is not well-formed", {"input": inp, "observed": err})
    what, detail = compare(m, structs, short)
    ctx.check(what is None, f"Go export: {what}", lambda: {"input": inp, "detail": detail, "observed": text})
    ctx.clean(d)


def collision(ctx):
    """concatenated names of two branches coincide (recorded finding)"""
    d = ctx.newdir()
    b = {"type": "branch", "description": "d"}
    flat = {"V": b, "V.A": b, "V.A.BC": b, "V.A.BC.X": {"type": "sensor", "datatype": "uint8", "description": "d"}, "V.AB": b, "V.AB.C": b,
            "V.AB.C.Y": {"type": "sensor", "datatype": "string", "description": "d"}}
    write_files(d, {"root.vspec": flat, "units.yaml": "", "quantities.yaml": ""})
    r = export("go", d, "out.go", raw=["--no-short-names"])
    ctx.count(flat, part="collision")
    structs, err = parse((d / "out.go").read_text(), "vss") if r.ok else (None, "export fails")
    ctx.check(r.rejected or (structs and len(dict(structs)) == len(structs)), "two branches whose concatenated names coincide get one struct name",
              lambda: {"input": flat, "observed": structs or err}, key="go:V.A.BC/V.AB.C")


def run(ctx):
    try:
        collision(ctx)
    except Exception:
        raise
    ctx.loop(1.0, lambda r: one(ctx, r))
