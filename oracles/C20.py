"""Protobuf export, parsed back with a small proto3 parser."""
import re

from .common import diff, export, same, write_files
from .models import base, model, walk

MAPPED = {"uint16": "uint32", "uint8": "uint32", "int8": "int32", "int16": "int32", "boolean": "bool"}


class Bad(Exception):
    pass


def parse(text):
    """syntax, package, imports, messages [(name, [(label, type, name, number)])]"""
    out = {"syntax": None, "package": None, "imports": [], "messages": []}
    cur = None
    for ln in text.split("\n"):
        s = ln.strip()
        if not s:
            continue
        if cur is None:
            m = re.fullmatch(r'syntax = "(\w+)";', s)
            if m and out["syntax"] is None and not out["messages"]:
                out["syntax"] = m.group(1)
                continue
            m = re.fullmatch(r"package ([\w.]+);", s)
            if m and out["package"] is None:
                out["package"] = m.group(1)
                continue
            m = re.fullmatch(r'import "([^"]+)";', s)
            if m:
                out["imports"].append(m.group(1))
                continue
            m = re.fullmatch(r"message (\w+) \{", s)
            if m:
                cur = []
                out["messages"].append((m.group(1), cur))
                continue
            raise Bad(ln)
        if s == "}":
            cur = None
            continue
        m = re.fullmatch(r"(?:(repeated|optional) )?([\w.]+) (\w+) = (-?\d+);", s)
        if not m:
            raise Bad(ln)
        cur.append((m.group(1) or "", m.group(2), m.group(3), int(m.group(4))))
    if cur is not None:
        raise Bad("unterminated message")
    return out


def fields(node, path, data, uid, opt):
    out = []
    for i, c in enumerate(node.kids, 1):
        d = data[f"{path}.{c.name}"]
        dt = d.get("datatype")
        if dt is None:
            label, t = ("optional" if opt else ""), f"{path}.{c.name}".replace(".", "")
        else:
            b = base(dt)
            t = MAPPED.get(b, b)
            label = "repeated" if dt.endswith("[]") else ("optional" if opt else "")
        num = i
        if uid:
            if "staticUID" not in d:
                return None
            num = int(str(d["staticUID"]), 0) // 8
            if 19000 <= num <= 19999 or num in [x[3] for x in out]:
                return None
        out.append((label, t, c.name, num))
    return out


def proto_of(dt):
    p = base(dt).split(".")[:-1]
    return "/".join(p + [p[-1]]) + ".proto"


def expected(m, uid, opt):
    """(signal file, {path: file}) or None if the export has to be refused"""
    imps = sorted({proto_of(d["datatype"]) for d in m.rdata.values() if "." in d.get("datatype", "")})
    msgs = []
    for f, n in walk(m.root):
        if m.rdata[f]["type"] == "branch":
            fs = fields(n, f, m.rdata, uid, opt)
            if fs is None:
                return None
            msgs.append((f.replace(".", ""), fs))
    sig = {"syntax": "proto3", "package": None, "imports": imps, "messages": msgs}
    files = {}
    for f, n in walk(m.troot):
        if m.tdata[f]["type"] != "struct":
            continue
        pk = f.split(".")[:-1]
        p = "/".join(pk + [pk[-1]]) + ".proto"
        x = files.setdefault(p, {"syntax": "proto3", "package": ".".join(pk), "imports": set(), "messages": []})
        fs = fields(n, f, m.tdata, uid, opt)
        if fs is None:
            return None
        x["messages"].append((n.name, fs))
        for c in n.kids:
            dt = m.tdata[f"{f}.{c.name}"].get("datatype", "")
            if "." in dt and base(dt).split(".")[:-1] != pk:
                x["imports"].add(proto_of(dt))
    for x in files.values():
        x["imports"] = sorted(x["imports"])
    return sig, files


def norm(p):
    return dict(p, imports=sorted(p["imports"]), messages=[(n, list(f)) for n, f in p["messages"]])


def uids(rng, spec):
    """staticUID for the nodes; sometimes bad"""
    bad = rng.random()
    used = set()
    for f, d in spec.items():
        u = rng.choice([rng.randrange(2**32), rng.randrange(160000, 2**32), 2**32 - 1 - rng.randrange(64), rng.randrange(8, 4000)])
        if bad > 0.5:
            while u // 8 in used or 19000 <= u // 8 <= 19999:
                u = rng.randrange(2**32)
        used.add(u // 8)
        if bad < 0.1:
            u = rng.choice([u, u, 19000 * 8, 19000 * 8 - 1, 20000 * 8 - 1, 20000 * 8, 19500 * 8])
        elif bad < 0.2 and used:
            u = rng.choice(sorted(used)) * 8 + rng.randrange(8)
        if bad > 0.45 and bad < 0.5 and rng.random() < 0.2:
            continue
        d["staticUID"] = rng.choice([f"0x{u:08X}", f"0x{u:08x}", str(u), u])


def one(ctx, rng):
    uid = rng.random() < 0.4
    m = model(rng, numeric=False, types=0.6, dup=rng.random() < 0.5, inst=0.3, tweak=(lambda r, f: uids(r, f)) if uid else None, ttweak=(lambda r, f: uids(r, f)) if uid else None)
    names = [f.replace(".", "") for f, _ in walk(m.root) if m.rdata[f]["type"] == "branch"]
    if len(set(names)) != len(names):
        return
    opt = rng.random() < 0.5
    kw = dict(m.kw)
    if uid:
        kw["extended_attributes"] = ["staticUID"]
    d = ctx.newdir()
    write_files(d, m.files)
    raw = (["--static-uid"] if uid else []) + (["--add-optional"] if opt else [])
    if m.troot is not None:
        raw += ["--types-out-dir", str(d / "protos")]
    inp = {"files": m.files, "options": [kw, raw]}
    ctx.count(inp, part="static-uid" if uid else "numbered")
    exp = expected(m, uid, opt)
    for again in range(2 if rng.random() < 0.2 else 1):
        r = export("protobuf", d, "out.proto", raw=raw, **kw)
        if exp is None:
            ctx.check(r.rejected, "missing, reserved or colliding field numbers are accepted", {"input": inp, "observed": repr(r)})
            ctx.clean(d)
            return
        if not r.ok:
            ctx.violation("protobuf export of a valid model fails", {"input": inp, "observed": repr(r)})
        sig, files = exp
        try:
            got = norm(parse((d / "out.proto").read_text()))
            gfiles = {str(p.relative_to(d / "protos")): norm(parse(p.read_text())) for p in sorted((d / "protos").rglob("*.proto"))}
        except Bad as e:
            ctx.violation("the exported proto file is not well-formed", {"input": inp, "observed": str(e)})
        sig, files = norm(sig), {k: norm(v) for k, v in files.items()}
        ctx.check(same(sig, got), "the exported proto file differs from the model", lambda: {"input": inp, "difference": diff(sig, got)})
        ctx.check(same(files, gfiles), "the exported proto files of the types differ from the model",
                  lambda: {"input": inp, "difference": diff(files, gfiles), "run": again})
    ctx.clean(d)


def collision(ctx):
    """concatenated names of two branches coincide (recorded finding)"""
    d = ctx.newdir()
    b = {"type": "branch", "description": "d"}
    flat = {"V": b, "V.A": b, "V.A.BC": b, "V.A.BC.X": {"type": "sensor", "datatype": "uint8", "description": "d"}, "V.AB": b, "V.AB.C": b,
            "V.AB.C.Y": {"type": "sensor", "datatype": "string", "description": "d"}}
    write_files(d, {"root.vspec": flat, "units.yaml": "", "quantities.yaml": ""})
    r = export("protobuf", d, "out.proto")
    ctx.count(flat, part="collision")
    names = [n for n, _ in parse((d / "out.proto").read_text())["messages"]] if r.ok else []
    ctx.check(r.rejected or (names and len(set(names)) == len(names)), "two branches whose concatenated names coincide get one message name",
              lambda: {"input": flat, "observed": names}, key="protobuf:V.A.BC/V.AB.C")
    ctx.clean(d)


def run(ctx):
    collision(ctx)
    ctx.loop(1.0, lambda r: one(ctx, r))
