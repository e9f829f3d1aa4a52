"""Binary export read back by the C and the Go library."""
from . import gen, instgen, ref
from .C14 import NS, v5
from .binlib import drive, prepare  # noqa: F401  (prepare is called by run.py)
from .common import diff, export, same, write_files

VALIDATE = {None: 0, "write-only": 1, "read-write": 2, "write-only+consent": 11, "read-write+consent": 12}
WORDS = ["é", "ü✓", "日本語", "plain", "a" * 60, "x" * 64, "y" * 100, "tab", "A B", "0", "é" * 30]


def fits(b, n=255):
    return len(b) <= n


def model(rng):
    q, us = gen.units(rng)
    k = rng.random()
    if k < 0.3:
        flat, _, _ = instgen.model(rng, explicit=False, size=rng.randint(1, 6))
    else:
        flat = gen.tree(rng, us, size=rng.choice([0, 1, 3, 6, 12, 30]))
    if rng.random() < 0.3:
        root = next(iter(flat))
        for i in range(rng.choice([16, 40, 100, 127, 128, 200, 254])):
            flat[f"{root}.Many{i}"] = {"type": "sensor", "datatype": "uint8", "description": f"d{i}"}
        n = sum(1 for f in flat if f.count(".") == 1)
        for f in [f for f in flat if f.startswith(f"{root}.Many")]:
            if n <= 255:
                break
            del flat[f]
            n -= 1
    for f, d in flat.items():
        if rng.random() < 0.2:
            d["description"] = rng.choice([
                "é" * rng.choice([1, 127, 128, 200]), "ß" * 300, "w" * rng.choice([254, 255, 256, 257, 511, 512, 4000, 40000, 65535]), "日" * 21845, "",
            ])
        if d["type"] == "branch":
            continue
        if rng.random() < 0.25:
            d["validate"] = rng.choice([x for x in VALIDATE if x])
        if d.get("datatype") == "string" and rng.random() < 0.5:
            d.pop("default", None)
            n = rng.choice([1, 2, 3, 8])
            d["allowed"] = rng.sample(WORDS, min(n, len(WORDS)))
            if rng.random() < 0.2:
                d["allowed"].append("z" * rng.choice([15, 16, 17, 63, 64, 65, 127, 128, 200, 254, 255]))
            if rng.random() < 0.1:
                d["allowed"] = [f"v{i}" for i in range(rng.choice([100, 200, 255]))]
        elif d.get("datatype") == "string" and rng.random() < 0.3:
            d.pop("allowed", None)
            d["default"] = rng.choice(["é" * rng.choice([1, 60, 127]), "d" * rng.choice([1, 50, 254, 255]), "", "日本"])
    return q, us, flat


def expected(full, root, uuids):
    out = []

    def go(n, path, depth):
        f = f"{path}.{n.name}" if path else n.name
        d = full[f]
        s = lambda k: str(d.get(k, "")).encode() if d.get(k) is not None else b""  # noqa: E731
        out.append(
            {
                "depth": depth, "type": d["type"], "children": len(n.kids), "validate": VALIDATE[d.get("validate")],
                "name": n.name.encode(), "uuid": v5(NS, f).hex().encode() if uuids else b"", "description": s("description"),
                "datatype": s("datatype"), "unit": s("unit"), "min": s("min"), "max": s("max"), "default": s("default"),
                "allowed": [str(x).encode() for x in d.get("allowed") or []], "parent_ok": True,
            }
        )
        for c in n.kids:
            go(c, f, depth + 1)

    go(root, "", 0)
    return out


def representable(e):
    return all(
        all(fits(n[k]) for k in ("name", "uuid", "datatype", "unit", "min", "max", "default"))
        and fits(n["description"], 65535) and n["children"] <= 255 and len(n["allowed"]) <= 255
        and all(0 < len(a) <= 255 for a in n["allowed"]) and sum(len(a) + 2 for a in n["allowed"]) <= 65535
        for n in e
    )


def shown(e):
    return [{k: (v.decode("utf-8", "replace") if isinstance(v, bytes) else v) for k, v in n.items()} for n in e]


def one(ctx, rng):
    q, us, flat = model(rng)
    uuids = rng.random() < 0.5
    files = {"root.vspec": flat, "units.yaml": us, "quantities.yaml": q}
    _, after, root = ref.loaded([flat])
    after = {x["fqn"]: x["data"] for x in after}
    exp = expected(after, root, uuids)
    if not representable(exp):
        return
    d = ctx.newdir()
    write_files(d, files)
    r = export("binary", d, "out.bin", uuid=uuids, extended_attributes=["validate"])
    inp = {"files": files, "uuid": uuids}
    ctx.count(inp)
    if not r.ok:
        ctx.violation("binary export of a valid model fails", {"input": inp, "observed": repr(r)})
    for lang in ("c", "go"):
        err, res = drive(ctx.state[lang], d, ["read out.bin", "dump", f"write back.{lang}", f"read back.{lang}", "dump"])
        if err:
            ctx.violation(f"the {lang} reader fails on the exported file", {"input": inp, "observed": err})
        for what, got in zip(("the exported file", "the file it wrote back"), res):
            ctx.check(same(exp, got), f"the {lang} reader of {what} gives a different tree",
                      lambda: {"input": inp, "difference": diff(shown(exp), shown(got))})
        # a second generation over an existing longer file
    a, b = (d / "back.c").read_bytes(), (d / "back.go").read_bytes()
    src = (d / "out.bin").read_bytes()
    ctx.check(a == b == src, "the files written back differ from the exported one",
              lambda: {"input": inp, "observed": [len(src), len(a), len(b)]})
    ctx.clean(d)


def stale(ctx, rng):
    """writing a smaller tree over an existing file"""
    d = ctx.newdir()
    big = gen.tree(rng, size=12)
    small = gen.tree(rng, size=1)
    for n, f in (("big", big), ("small", small)):
        write_files(d, {f"{n}.vspec": f, "units.yaml": "", "quantities.yaml": ""})
    for f in (big, small):
        for x in f.values():
            x.pop("unit", None)
    q, us = gen.units(rng)
    write_files(d, {"units.yaml": us, "quantities.yaml": q})
    ok = [export("binary", d, f"{n}.bin", vspec=f"{n}.vspec").ok for n in ("big", "small")]
    ctx.count([big, small], part="overwrite")
    if not all(ok):
        return
    for lang in ("c", "go"):
        (d / "target").write_bytes((d / "big.bin").read_bytes())
        err, res = drive(ctx.state[lang], d, ["read small.bin", "write target"])
        got = (d / "target").read_bytes()
        ctx.check(err is None and got == (d / "small.bin").read_bytes(), f"the {lang} library does not replace an existing file",
                  lambda: {"input": [big, small], "observed": err or f"{len(got)} bytes"})
    ctx.clean(d)


def encode(node):
    """independent encoder of the documented format"""
    def l8(b):
        assert len(b) < 256
        return bytes([len(b)]) + b

    def l16(b):
        return len(b).to_bytes(2, "little") + b

    inv = {v: k for k, v in VALIDATE.items()}
    allowed = b"".join(b"%02X" % len(a) + a for a in node["allowed"])
    return (
        l8(node["name"]) + l8(node["type"].encode()) + l8(node["uuid"]) + l16(node["description"]) + l8(node["datatype"]) + l8(node["min"])
        + l8(node["max"]) + l8(node["unit"]) + l16(allowed) + l8(node["default"]) + l8((inv[node["validate"]] or "").encode())
        + bytes([node["children"]])
    )


def raw(ctx, rng):
    """trees the exporter does not write today (structs, properties), as the readers know them"""
    out = []

    def blob(n=20):
        return rng.choice(["", "x", "é", "text", "q" * rng.randint(0, n), "ü" * rng.randint(0, n // 2)]).encode()

    def go(depth):
        t = rng.choice(["branch", "branch", "struct"]) if depth == 0 or rng.random() < 0.4 else rng.choice(["sensor", "actuator", "attribute", "property"])
        inner = t in ("branch", "struct")
        n = {"depth": depth, "type": t, "validate": rng.choice(list(VALIDATE.values())), "name": rng.choice(gen.NAMES).encode(),
             "uuid": rng.choice([b"", b"0123456789abcdef" * 2]), "description": blob(300), "datatype": b"" if inner else blob(),
             "unit": b"" if inner else blob(), "min": blob(), "max": blob(), "default": blob(255),
             "allowed": [] if inner else [b"a" * rng.randint(1, 255) for _ in range(rng.choice([0, 0, 1, 5]))], "parent_ok": True}
        n["children"] = rng.choice([0, 1, 2, 3]) if inner and depth < 5 else 0
        out.append(n)
        for _ in range(n["children"]):
            go(depth + 1)

    go(0)
    out = [{k: n[k] for k in ("depth", "type", "children", "validate", "name", "uuid", "description", "datatype", "unit", "min", "max", "default", "allowed",
                              "parent_ok")} for n in out]
    data = b"".join(encode(n) for n in out)
    d = ctx.newdir()
    (d / "out.bin").write_bytes(data)
    ctx.count(data, part="raw")
    for lang in ("c", "go"):
        err, res = drive(ctx.state[lang], d, ["read out.bin", "dump", f"write back.{lang}"])
        if err:
            ctx.violation(f"the {lang} reader fails on a well-formed file", {"input": shown(out), "observed": err})
        ctx.check(same(out, res[0]), f"the {lang} reader gives a different tree",
                  lambda: {"input": shown(out), "difference": diff(shown(out), shown(res[0]))})
        ctx.check((d / f"back.{lang}").read_bytes() == data, f"the file written back by the {lang} library differs", lambda: {"input": shown(out)})
    ctx.clean(d)


def run(ctx):
    ctx.loop(0.2, lambda r: raw(ctx, r))
    ctx.loop(3, lambda r: stale(ctx, r))
    ctx.loop(1.0, lambda r: one(ctx, r))
