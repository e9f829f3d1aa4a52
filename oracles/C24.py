"""DDS-IDL export."""
import keyword

from . import gen
from .common import export, write_files
from .models import base, model

C_KW = """auto break case char const continue default do double else enum extern float for goto if int long register return short signed
sizeof static struct switch typedef union unsigned void volatile while""".split()
IDL_KW = """abstract any alias attribute bitfield bitmask bitset boolean case char component connector const consumes context custom default
double exception emits enum eventtype factory false finder fixed float getraises home import in inout interface local long manages map
mirrorport module multiple native object octet oneway out primarykey private port porttype provides public publishes raises readonly
setraises sequence short string struct supports switch true truncatable typedef typeid typename typeprefix unsigned union uses valuebase
valuetype void wchar wstring int8 uint8 int16 int32 int64 uint16 uint32 uint64""".split()
RES = set(C_KW) | set(IDL_KW) | set(keyword.kwlist)
DT = {"uint8": "octet", "int8": "octet", "uint16": "unsigned short", "int16": "short", "uint32": "unsigned long", "int32": "long",
      "uint64": "unsigned long long", "int64": "long long", "boolean": "boolean", "float": "float", "double": "double", "string": "string"}


def nm(n):
    return "_" + n if n.lower() in RES else n


def literal(s):
    return "d" + s if s[0].isdigit() else s


def idl_type(dt):
    b = base(dt)
    t = DT.get(b) or b.replace(".", "::")
    return f"sequence<{t}>" if dt.endswith("[]") else t


def signals(n, f, data, o):
    d = data[f]
    name = nm(n.name)
    if d["type"] == "branch":
        return f"module {name} {{ " + " ".join(signals(c, f"{f}.{c.name}", data, o) for c in n.kids) + " };"
    out = []
    enum = d.get("allowed") and d["datatype"] in ("string", "string[]")
    if enum:
        out.append(f"module {name}_M {{ enum {name}Values{{" + ",".join(literal(a) for a in d["allowed"]) + "}; };")
    out.append(f"struct {name} {{")
    if o["uuid"]:
        out.append("string uuid;")
    lo, hi, de = d.get("min"), d.get("max"), d.get("default")
    if lo is not None and hi is not None and o["all"]:
        out.append(f"@range(min={lo} ,max={hi})")
    if isinstance(de, str) and de and not enum:
        de = f'"{de}"'
    v = (f"{name}_M::{name}Values" if enum else idl_type(d["datatype"])) + " value"
    if o["all"] and de is not None:
        v += (" " if enum else "  default ") + str(de)
    out.append(v + ";")
    c = "" if o["all"] else "//"
    if d.get("unit") is not None:
        out.append(f'{c}const string unit="{d["unit"]}";')
    out.append(f'{c}const string type ="{d["type"]}";')
    out.append(f'{c}const string description="{d["description"]}";')
    out.append("};")
    return " ".join(out)


def structs(n, f, data, seen):
    d = data[f]
    name = nm(n.name)
    if d["type"] == "branch":
        return f"module {name} {{ " + " ".join(structs(c, f"{f}.{c.name}", data, seen) for c in n.kids) + " };"
    if d["type"] == "struct":
        fw = set()
        for c in n.kids:
            t = base(data[f"{f}.{c.name}"]["datatype"])
            if t.startswith("Types.") and t not in seen:
                fw.add(t.split(".")[-1])
        seen.add(f)
        return "".join(f"struct {x}; " for x in sorted(fw)) + f"struct {name} {{ " + " ".join(structs(c, f"{f}.{c.name}", data, seen) for c in n.kids) + " };"
    t = base(d["datatype"]).replace(".", "::")
    return (f"sequence<{t}>" if d["datatype"].endswith("[]") else t) + f" {name};"


def tok(s):
    return " ".join(s.split())


NAMES = ["For", "Float", "Object", "True", "None", "Module", "Async", "Lambda", "Is", "Int8", "Int", "Class", "Await", "Valuebase", "With", "Pass",
         "Def", "False", "Switch", "Nonlocal", "Wstring", "Goto", "Volatile", "Del", "Mirrorport", "Signed", "Connector", "Print", "Match"]


def tweak(rng, flat):
    """rename some nodes to (near) keywords"""
    ren = {}
    for f in list(flat):
        p = f.split(".")
        if len(p) > 1 and rng.random() < 0.2 and flat[f].get("datatype") != "boolean":
            n = rng.choice(NAMES)
            if rng.random() < 0.15:
                n = n.upper() if rng.random() < 0.5 else n + "1"
            ren[f] = n
    out, used = {}, set()
    for f, d in flat.items():
        p = f.split(".")
        q = ".".join(ren.get(".".join(p[: i + 1]), s) for i, s in enumerate(p))
        if q in used:
            break
        used.add(q)
        out[q] = d
    else:
        flat.clear()
        flat.update(out)
    for d in flat.values():
        if isinstance(d.get("allowed"), list) and "" in d["allowed"]:
            d["allowed"] = [a or "E" for a in d["allowed"]]
            if d.get("default") == "":
                d["default"] = "E"
            elif isinstance(d.get("default"), list):
                d["default"] = [a or "E" for a in d["default"]]
    odd(rng, flat)


def odd(rng, flat):
    """allowed values whose literals are easily confused"""
    for d in flat.values():
        if d.get("datatype") in ("string", "string[]") and rng.random() < 0.15:
            for a in ("allowed", "default", "min", "max"):
                d.pop(a, None)
            d["allowed"] = rng.sample(["A", "A ", " A", "a", "1A", "d1A", "2", "d2", "É1", "_A", "A_"], rng.randint(2, 5))


def ttweak(rng, t):
    """struct types are referred to by name: rename properties only"""
    for d in t.values():
        if isinstance(d.get("allowed"), list) and "" in d["allowed"]:
            d["allowed"] = [a or "E" for a in d["allowed"]]
            d.pop("default", None)


def one(ctx, rng):
    m = model(rng, tweak=tweak, ttweak=ttweak, numeric=False)
    o = {"uuid": rng.random() < 0.5, "all": rng.random() < 0.5}
    d = ctx.newdir()
    write_files(d, m.files)
    r = export("ddsidl", d, "out.idl", uuid=o["uuid"], raw=["--all-idl-features"] if o["all"] else [], **m.kw)
    inp = {"files": m.files, "options": o}
    ctx.count(inp)
    if not r.ok:
        ctx.violation("ddsidl export of a valid model fails", {"input": inp, "observed": repr(r)})
    got = tok((d / "out.idl").read_text())
    exp = ""
    if m.troot is not None:
        exp = structs(m.troot, m.troot.name, m.tdata, set()) + " "
    exp = tok(exp + signals(m.root, m.root.name, m.rdata, o))
    i = next((i for i, (a, b) in enumerate(zip(exp, got)) if a != b), min(len(exp), len(got)))
    ctx.check(exp == got, "the IDL text differs from the model",
              lambda: {"input": inp, "expected": exp[max(0, i - 150):i + 150], "observed": got[max(0, i - 150):i + 150]})
    ctx.clean(d)


def keywords(ctx):
    """every keyword as a node name, in several spellings"""
    words = sorted(RES) + ["Vehicle", "Do1", "Fors", "Iff", "Value", "Print"]
    for style in (str.capitalize, str.upper, str.lower):
        flat = {"Vehicle": {"type": "branch", "description": "d"}}
        for w in words:
            flat["Vehicle." + style(w)] = {"type": "sensor", "datatype": "uint8", "description": "d"}
        d = ctx.newdir()
        write_files(d, {"root.vspec": flat})
        r = export("ddsidl", d, "out.idl")
        ctx.count([style.__name__, words], part="keywords")
        if not r.ok:
            ctx.violation("ddsidl export of a valid model fails", {"input": flat, "observed": repr(r)})
        got = [x.split()[1] for x in (d / "out.idl").read_text().split("\n") if x.startswith("struct ")]
        exp = [nm(f.split(".")[1]) for f in flat if f != "Vehicle"]
        ctx.check(got == exp, "names are not prefixed exactly when they are keywords",
                  lambda: {"input": flat, "difference": [(a, b) for a, b in zip(exp, got) if a != b][:10]})


def run(ctx):
    keywords(ctx)
    ctx.loop(1.0, lambda r: one(ctx, r))
