"""SAMM export: the Turtle files parsed back and walked from the root's property down the entities."""
from .common import cli, cli_args, write_files
from .models import base, model, walk

XSD = {"uint8": "unsignedByte", "int8": "byte", "uint16": "unsignedShort", "int16": "short", "uint32": "unsignedInt", "int32": "int",
       "uint64": "unsignedLong", "int64": "long", "boolean": "boolean", "float": "float", "double": "double", "string": "string"}
UNITS = {"cm3": "cubicCentimetre", "cm^3": "cubicCentimetre", "kw": "kilowatt", "kW": "kilowatt", "kWh": "kilowattHour", "l": "litre",
         "mm": "millimetre", "kg": "kilogram", "inch": "inch", "A": "ampere", "Ah": "ampereHour", "Nm": "newtonMetre", "N.m": "newtonMetre",
         "V": "volt", "celsius": "degreeCelsius", "cm/s": "centimetrePerSecond", "degree": "degreeUnitOfAngle",
         "degrees": "degreeUnitOfAngle", "degrees/s": "degreePerSecond", "g/s": "gramPerSecond", "kilometer": "kilometre", "km": "kilometre",
         "km/h": "kilometrePerHour", "kpa": "kilopascal", "kPa": "kilopascal", "l/h": "litrePerHour", "m": "metre", "m/s": "metrePerSecond",
         "m/s2": "metrePerSecondSquared", "m/s^2": "metrePerSecondSquared", "mbar": "millibar", "min": "minuteUnitOfTime", "ml": "millilitre",
         "pa": "pascal", "Pa": "pascal", "percent": "percent", "percentage": "percent", "ratio": "rate", "rpm": "revolutionsPerMinute",
         "s": "secondUnitOfTime", "W": "watt"}
WORDS = ["Alpha", "Bravo", "Car", "DoorLock", "Echo", "FuelTank", "Gear", "Hood", "ABSActive", "IsOpen", "HasLid", "Jet", "Kilo", "Lamp7", "Motor",
         "HVAC", "Oil", "Pump", "Quartz", "Row1", "Speed", "Tank", "Unit", "Valve", "Wheel", "Xenon", "Yaw", "Zone"]
# prefixes of each other: only in models that use no name twice
CLOSE = ["DoorLocked", "Door", "SpeedLimit", "Gears", "PumpX", "Alp", "Tan"]
SAMM = "urn:samm:org.eclipse.esmf.samm:meta-model:2.1.0#"
CHAR = "urn:samm:org.eclipse.esmf.samm:characteristic:2.1.0#"
UNIT = "urn:samm:org.eclipse.esmf.samm:unit:2.1.0#"
XS = "http://www.w3.org/2001/XMLSchema#"


def camel(s):
    out = s[0].lower()
    for i in range(1, len(s)):
        c, nx = s[i], s[min(i + 1, len(s) - 1)]
        out += c.lower() if c.isupper() and (nx.isupper() or nx.isdigit()) else c
    return out


def clean(s):
    return "".join(c for c in s if c not in '"\\')


def make(rng):
    """a model without instances and types; every name is used once or in several branches"""
    reuse = REUSE if rng.random() < 0.6 else 0
    words = WORDS if reuse else WORDS + CLOSE
    names = rng.sample(words, len(words))
    units = rng.sample(list(UNITS), 5)
    flat = None
    while not flat:
        m = model(rng, types=0, inst=0, numeric=False, size=rng.randint(2, 14))
        kids = {f.rsplit(".", 1)[0] for f in m.rdata if "." in f}
        if all(f in kids for f, d in m.rdata.items() if d["type"] == "branch"):
            flat = m.rdata
    unit = {}
    us = {}
    for i, (k, u) in enumerate(m.us.items()):
        us[units[i]] = dict(u)
        unit[k], unit[u["unit"]] = units[i], u["unit"]
    ren, out, used = {}, {}, set()
    for f, n in walk(m.root):
        d = {k: v for k, v in flat[f].items() if v is not None}
        p = f.rsplit(".", 1)[0] if "." in f else ""
        if not p:
            new = rng.choice(["Vehicle", "Vehicle", names.pop()])
        else:
            # an already used name again only below another parent
            again = [x for x in sorted(used) if f"{ren[p]}.{x}" not in out and x not in ren[p].split(".")]
            new = rng.choice(again) if again and rng.random() < reuse else names.pop()
            if names == []:
                return make(rng)
        if p:
            used.add(new)
        ren[f] = f"{ren[p]}.{new}" if p else new
        d = {k: v for k, v in d.items() if k not in ("instances", "fka", "constUID")}
        for k in ("description", "comment", "deprecation"):
            if d.get(k):
                d[k] = clean(d[k]) or "d"
        if "unit" in d:
            d["unit"] = unit[d["unit"]]
        if isinstance(d.get("allowed"), list):
            al = [clean(a) if isinstance(a, str) else a for a in d["allowed"]]
            d["allowed"] = al = list(dict.fromkeys(al))
            if "default" in d:
                d.pop("default")
                if rng.random() < 0.5 and not d["datatype"].endswith("[]"):
                    d["default"] = rng.choice(al)
        elif isinstance(d.get("default"), str):
            d["default"] = clean(d["default"])
        elif isinstance(d.get("default"), list):
            d["default"] = [clean(a) if isinstance(a, str) else a for a in d["default"]]
        if p and rng.random() < 0.12:
            d["deprecation"] = "v5.0 gone"
        else:
            d.pop("deprecation", None)
        out[ren[f]] = {k: v for k, v in d.items() if v not in ([], None) and k in KEEP}
    return out, us, m.q


KEEP = ("type", "description", "comment", "deprecation", "datatype", "unit", "min", "max", "allowed", "default", "arraysize")
REUSE = 0.4


def kids_of(flat, f):
    return [c for c in flat if c.startswith(f + ".") and "." not in c[len(f) + 1:]]


def number(x):
    return float(str(x))


def equal(lit, v):
    if isinstance(v, bool):
        return str(lit) == ("true" if v else "false")
    if isinstance(v, str):
        return str(lit) == v
    try:
        return number(lit) == float(v)
    except ValueError:
        return False


class Walk:
    def __init__(self, g, flat, split, depth):
        from rdflib import URIRef

        self.g, self.flat, self.split, self.depth = g, flat, split, depth
        self.U = URIRef
        self.problems = []
        self.seen = {}

    def one(self, s, ns, p):
        v = list(self.g.objects(s, self.U(ns + p)))
        return v[0] if len(v) == 1 else None if not v else ("several", v)

    def bad(self, f, what, *more):
        self.problems.append((f, what) + tuple(str(m) for m in more))

    def types(self, s):
        from rdflib.namespace import RDF

        return {str(x) for x in self.g.objects(s, RDF.type)}

    def exported(self, f):
        d = self.flat[f]
        if d.get("deprecation"):
            return False
        lvl = f.count(".")
        kids = kids_of(self.flat, f)
        if d["type"] == "branch" and (lvl == 0 or self.own(f)):
            return any(not self.flat[k].get("deprecation") for k in kids)
        return True

    def own(self, f):
        """the branch gets a file of its own"""
        return self.split and 0 < f.count(".") <= self.depth and self.flat[f]["type"] == "branch"

    def node(self, f, prop):
        if prop in self.seen:
            self.bad(f, "shares its property with " + self.seen[prop])
            return
        self.seen[prop] = f
        if SAMM + "Property" not in self.types(prop):
            self.bad(f, "no property", prop)
            return
        d = self.flat[f]
        ch = self.one(prop, SAMM, "characteristic")
        if ch is None or isinstance(ch, tuple):
            self.bad(f, "characteristic", ch)
            return
        if d["type"] == "branch":
            self.branch(f, d, ch)
        else:
            self.leaf(f, d, prop, ch)

    def text(self, f, d, s):
        t = self.one(s, SAMM, "description")
        t = str(t)
        parts = [x for x in (f"VSS path", f) if x]
        exp = [("VSS path", f), ("Description", d["description"].strip() and d["description"])]
        if d.get("comment") and d["comment"].strip():
            exp.append(("Comment", d["comment"]))
        if d.get("unit"):
            exp.append(("Unit", d["unit"]))
        # split only where a heading starts
        import re

        got = [(h, v) for h, v in re.findall(r"(?:^|\n)(VSS path|Description|Comment|Unit) *: (.*?)(?=\n\n(?:Description|Comment|Unit) *: |\Z)", t, re.S)]
        exp = [(h, v) for h, v in exp if v]
        if got != exp:
            self.bad(f, "description", got, exp)

    def branch(self, f, d, ch):
        if SAMM + "Characteristic" not in self.types(ch):
            self.bad(f, "branch characteristic type", self.types(ch))
        self.text(f, d, ch)
        ent = self.one(ch, SAMM, "dataType")
        if ent is None or isinstance(ent, tuple) or SAMM + "Entity" not in self.types(ent):
            self.bad(f, "entity", ent)
            return
        props = self.one(ent, SAMM, "properties")
        got = []
        if props is not None:
            from rdflib.collection import Collection

            for b in Collection(self.g, props):
                got.append((str(self.one(b, SAMM, "payloadName")), self.one(b, SAMM, "property"), self.one(b, SAMM, "optional")))
        want = [k for k in kids_of(self.flat, f) if self.exported(k)]
        names = [camel(k.split(".")[-1]) for k in want]
        if [g[0] for g in got] != names or any(g[2] is not None for g in got):
            self.bad(f, "children", got, names)
            return
        for k, (_n, p, _o) in zip(want, got):
            self.node(k, p)

    def leaf(self, f, d, prop, ch):
        limits = d["type"] in ("sensor", "actuator") and ("min" in d or "max" in d)
        if limits:
            if CHAR + "Trait" not in self.types(ch):
                self.bad(f, "limits without a trait", self.types(ch))
                return
            con, ch = self.one(ch, CHAR, "constraint"), self.one(ch, CHAR, "baseCharacteristic")
            if con is None or ch is None or CHAR + "RangeConstraint" not in self.types(con):
                self.bad(f, "no range constraint")
                return
            for k, p in (("min", "minValue"), ("max", "maxValue")):
                v = self.one(con, CHAR, p)
                if (v is None) != (k not in d) or v is not None and not equal(v, d[k]):
                    self.bad(f, p, v, d.get(k))
        elif CHAR + "Trait" in self.types(ch):
            self.bad(f, "trait without limits")
        self.text(f, d, ch)
        al, dflt = d.get("allowed"), d.get("default")
        if al:
            kind = CHAR + ("State" if dflt else "Enumeration")
        elif d["datatype"].endswith("[]"):
            kind = CHAR + "List"
        elif d.get("unit"):
            kind = CHAR + "Measurement"
        else:
            kind = SAMM + "Characteristic"
        if self.types(ch) != {kind}:
            self.bad(f, "kind", self.types(ch), kind)
        dt = self.one(ch, SAMM, "dataType")
        if str(dt) != XS + XSD[base(d["datatype"])]:
            self.bad(f, "datatype", dt, d["datatype"])
        vals = self.one(ch, CHAR, "values")
        if (vals is not None) != bool(al):
            self.bad(f, "values", vals)
        elif al:
            from rdflib.collection import Collection

            got = list(Collection(self.g, vals))
            if len(got) != len(al) or not all(equal(x, y) for x, y in zip(got, al)):
                self.bad(f, "values", [str(x) for x in got], al)
        un = self.one(ch, CHAR, "unit")
        if (un is not None) != (kind == CHAR + "Measurement"):
            self.bad(f, "unit", un)
        elif un is not None and str(un) != UNIT + UNITS.get(d["unit"], "blank"):
            self.bad(f, "unit", un, d["unit"])
        if isinstance(dflt, list):
            return
        where, p = ((ch, self.one(ch, CHAR, "defaultValue")) if al else (prop, self.one(prop, SAMM, "exampleValue")))
        if kind == CHAR + "List":
            return
        if (p is not None) != bool(dflt) or p is not None and not equal(p, dflt):
            self.bad(f, "default", p, dflt)


def one(ctx, rng):
    flat, us, q = make(rng)
    root = next(iter(flat))
    d = ctx.newdir()
    files = {"root.vspec": flat, "units.yaml": us, "quantities.yaml": q}
    opts, depth, split = [], 1, True
    if rng.random() < 0.5:
        split = False
        opts.append("--no-split")
    elif rng.random() < 0.5:
        depth = rng.randint(1, 3)
        opts += ["--split-depth", str(depth)]
    ns = "com.covesa.vss.spec"
    if rng.random() < 0.3:
        ns = "org.example.x"
        opts += ["-tns", ns]
    want = flat
    if rng.random() < 0.35:
        pick = rng.sample([f for f in flat if f != root], min(len(flat) - 1, rng.randint(1, 3)))
        files["signals.txt"] = "\n".join(pick) + "\n"
        opts += ["--signals-file", str(d / "signals.txt")]
        leaves = [f for f, x in flat.items() if x["type"] != "branch" and any((f + ".").startswith(p + ".") for p in pick)]
        want = {f: x for f, x in flat.items() if any((g + ".").startswith(f + ".") for g in leaves)}
    sig = files.pop("signals.txt", None)
    write_files(d, files)
    if sig:
        (d / "signals.txt").write_text(sig)
        files["signals.txt"] = sig
    r = cli(["export", "samm", "--vspec", d / "root.vspec", "-tf", d / "out"] + cli_args(d, {"units": ["units.yaml"], "quantities": ["quantities.yaml"]}) + opts)
    inp = {"files": files, "options": [o.replace(str(d), "DIR") for o in opts]}
    ctx.count(inp)
    if not r.ok:
        ctx.violation("samm export of a valid model fails", {"input": inp, "observed": repr(r)})
    check(ctx, d, want, root, split, depth, ns, inp)
    ctx.clean(d)


def check(ctx, d, want, root, split, depth, ns, inp, version="1.0.0"):
    from rdflib import Graph, URIRef
    from rdflib.namespace import RDF

    g = Graph()
    home = d / "out" / ns / version
    paths = sorted(p for p in (d / "out").rglob("*") if p.is_file())
    for p in paths:
        try:
            g.parse(str(p), format="turtle")
        except Exception as e:
            ctx.violation("the SAMM export is not Turtle", {"input": inp, "file": p.name, "error": str(e)[:500], "text": p.read_text()[:3000]})
        if p.parent != home:
            ctx.violation("a file outside the folder of the namespace and version", {"input": inp, "file": str(p.relative_to(d)), "expected": str(home.relative_to(d))})
    w = Walk(g, want, split, depth)
    if not w.exported(root):
        ctx.check(not paths, "a model of deprecated nodes is exported", {"input": inp})
        return

    def owners(f):
        n = 1
        for k in kids_of(want, f):
            if w.own(k) and w.exported(k):
                n += owners(k)
        return n

    ctx.check(len(paths) == owners(root), "number of aspect models", lambda: {"input": inp, "observed": [p.name for p in paths], "expected": owners(root)})
    aspects = list(g.subjects(RDF.type, URIRef(SAMM + "Aspect")))
    ctx.check(len(aspects) == len(paths), "number of aspects", lambda: {"input": inp, "observed": [str(a) for a in aspects]})
    prop = URIRef(f"urn:samm:{ns}:{version}#" + camel(root))
    w.node(root, prop)
    ctx.check(not w.problems, "the SAMM export differs from the model", lambda: {"input": inp, "problems": w.problems[:8]})
    n = {str(s) for s in g.subjects(RDF.type, URIRef(SAMM + "Property"))}
    ctx.check(n == {str(p) for p in w.seen}, "properties that belong to no node", lambda: {"input": inp, "observed": sorted(n - {str(p) for p in w.seen})})


def versions(ctx, rng):
    """the folder is named by the default values of VersionVSS"""
    v = {k: rng.choice([0, 1, 2, 3, 10, 41]) for k in ("Major", "Minor", "Patch")}
    flat = {"Vehicle": {"type": "branch", "description": "r"}, "Vehicle.VersionVSS": {"type": "branch", "description": "version"}}
    for k, x in v.items():
        flat[f"Vehicle.VersionVSS.{k}"] = {"type": "attribute", "datatype": "uint32", "description": k, "default": x}
    d = ctx.newdir()
    write_files(d, {"root.vspec": flat, "units.yaml": {}, "quantities.yaml": {}})
    r = cli(["export", "samm", "--vspec", d / "root.vspec", "-tf", d / "out", "-u", d / "units.yaml", "-q", d / "quantities.yaml"])
    inp = {"files": {"root.vspec": flat}}
    ctx.count(inp)
    if not r.ok:
        ctx.violation("samm export of a valid model fails", {"input": inp, "observed": repr(r)})
    check(ctx, d, flat, "Vehicle", True, 1, "com.covesa.vss.spec", inp, f"{v['Major']}.{v['Minor']}.{v['Patch']}")
    ctx.clean(d)


def run(ctx):
    ctx.loop(3, lambda r: versions(ctx, r))
    ctx.loop(1.0, lambda r: one(ctx, r))
