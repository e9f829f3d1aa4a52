"""Random models: valid by construction unless stated otherwise."""
from __future__ import annotations

INT_RANGES = {
    "uint8": (0, 2**8 - 1),
    "int8": (-(2**7), 2**7 - 1),
    "uint16": (0, 2**16 - 1),
    "int16": (-(2**15), 2**15 - 1),
    "uint32": (0, 2**32 - 1),
    "int32": (-(2**31), 2**31 - 1),
    "uint64": (0, 2**64 - 1),
    "int64": (-(2**63), 2**63 - 1),
}
INTS = list(INT_RANGES)
FLOATS = ["float", "double"]
BASE = INTS + FLOATS + ["boolean", "string"]
NUMERIC_SET = INTS + FLOATS + ["numeric"]

NAMES = [
    "A", "B", "Do", "Door", "Doors", "DoorLock", "Row1", "Row", "Left", "Right", "Seat", "SeatBelt", "X", "X1", "X10",
    "Speed", "IsOpen", "HasLid", "Pos", "Position", "HVAC", "ABSActive", "Cabin", "Cab", "Body", "Val", "Value", "Type",
    "Engine", "Other", "Front", "Middle", "Z9", "Mode", "Level", "Temp",
]
LOWER = ["x", "len", "pos", "is_open", "a1"]
STRS = [
    "plain text", "x", "with, comma", 'quo"te', "single'q", "ünïcode ✓", "semi;colon", "tab\there", " lead", "trail ", "yes",
    "null", "0", "12", "1.5", "a: b", "# not a comment", "line1\nline2", "- dash", "{}", "[]", "100%", "back\\slash", "<b>&amp;",
]
EXTRAS = ["source", "quality", "owner", "x-note", "zzz", "Abc"]


def text(rng, simple=False):
    if simple:
        return rng.choice(["plain text", "short", "Some description.", "x", "Door state of the vehicle"])
    return rng.choice(STRS) if rng.random() < 0.4 else "text " + str(rng.randrange(1000))


def base_of(dt):
    return dt[:-2] if dt.endswith("[]") else dt


def value(rng, dt, simple=False):
    """a value in the domain of a scalar datatype"""
    if dt in INT_RANGES:
        lo, hi = INT_RANGES[dt]
        return rng.choice([lo, hi, 0, min(hi, 7), min(hi, 100), rng.randint(lo, hi), max(lo, -1)])
    if dt in FLOATS:
        return rng.choice([0.0, 1.5, -2.25, 3, 0, 1e6, 0.1])
    if dt == "boolean":
        return rng.random() < 0.5
    if dt == "string":
        return rng.choice(["ON", "OFF", "Open", "a b", "", "0", "VALUE_1", "x,y", 'q"q']) if not simple else rng.choice(
            ["ON", "OFF", "OPEN", "CLOSED", "VALUE_1", "LOW", "HIGH"]
        )
    if dt == "numeric":
        return rng.choice([0, 1, -5, 2.5, 10**12])
    raise KeyError(dt)


def units(rng, n=None):
    """(quantities, units): n units with random allowed datatypes"""
    q = {f"quant{i}": {"definition": f"Quantity {i}"} for i in range(rng.randint(1, 3))}
    if rng.random() < 0.3:
        q["quant0"]["comment"] = "c"
    us = {}
    for i in range(n or rng.randint(2, 5)):
        u = {"definition": f"Unit {i}", "unit": f"u{i}", "quantity": rng.choice(list(q))}
        k = rng.random()
        if k < 0.5:
            u["allowed-datatypes"] = ["numeric"]
        else:
            u["allowed-datatypes"] = rng.sample(INTS + FLOATS + ["numeric"], rng.randint(1, 3))
        us[f"unit-{i}"] = u
    return q, us


SUB = {"numeric": set(INTS + FLOATS)}
for _s in ("uint", "int"):
    for _w in (8, 16, 32, 64):
        SUB[f"{_s}{_w}"] = {f"{_s}{v}" for v in (8, 16, 32, 64) if v < _w}


def subtype(a, b):
    return a == b or a in SUB.get(b, ())


def units_for(us, dt):
    b = base_of(dt)
    out = []
    for k, u in us.items():
        if any(subtype(b, a) for a in u.get("allowed-datatypes") or []):
            out.append(k)
            out.append(u["unit"])
    return out


def leaf(rng, us=None, structs=(), types=("sensor", "actuator", "attribute"), rich=True, simple=False, extras=(), datatypes=None,
         numeric=True):
    dts = list(datatypes or BASE)
    if datatypes is None and numeric and rng.random() < 0.1:
        dts = ["numeric"]
    dt = rng.choice(dts)
    if rng.random() < 0.3:
        dt += "[]"
    if structs and rng.random() < 0.2:
        dt = rng.choice(list(structs)) + rng.choice(["", "[]"])
    d = {"type": rng.choice(list(types)), "datatype": dt, "description": text(rng, simple)}
    if not rich:
        return d
    b = base_of(dt)
    known = b in BASE or b == "numeric"
    arr = dt.endswith("[]")
    if us and known and b not in ("boolean", "string"):
        c = units_for(us, dt)
        if c and rng.random() < 0.4:
            d["unit"] = rng.choice(c)
    k = rng.random()
    if known and k < 0.3 and b != "boolean":
        vals = []
        for _ in range(rng.randint(1, 4)):
            v = value(rng, b, simple)
            if not any(type(v) is type(w) and v == w for w in vals) and v not in vals:
                vals.append(v)
        d["allowed"] = vals
    elif known and k < 0.6 and b not in ("boolean", "string"):
        if rng.random() < 0.7:
            d["min"] = value(rng, b)
        if rng.random() < 0.7:
            d["max"] = value(rng, b)
    if arr and rng.random() < 0.3:
        d["arraysize"] = rng.randint(1, 4)
    if known and rng.random() < 0.35:
        def one():
            return rng.choice(d["allowed"]) if d.get("allowed") else value(rng, b, simple)
        if arr:
            n = d.get("arraysize") or rng.randint(1, 3)
            d["default"] = [one() for _ in range(n)]
        else:
            d["default"] = one()
    common(rng, d, simple, extras)
    return d


def common(rng, d, simple=False, extras=()):
    if rng.random() < 0.2:
        d["comment"] = text(rng, simple)
    if rng.random() < 0.15:
        d["deprecation"] = rng.choice(["v1.0 moved", "since V3", "removed"])
    if rng.random() < 0.1:
        d["fka"] = ["Old.Name"] if rng.random() < 0.5 else ["Old.Name", "Older.Name"]
    for e in extras:
        if rng.random() < 0.25:
            d[e] = rng.choice(["val", 5, 0, False, True, 1.5, ["l", 1], {"k": "v", "n": 2}, "", [], {}])
    return d


def branch(rng, simple=False, extras=(), rich=True):
    d = {"type": "branch", "description": text(rng, simple)}
    if rich:
        common(rng, d, simple, extras)
    return d


def name_for(rng, used, boolean=False):
    for _ in range(50):
        n = rng.choice(NAMES)
        if rng.random() < 0.2:
            n += str(rng.randrange(10))
        if boolean:
            n = rng.choice(["Is", "Has"]) + n
        if n not in used:
            return n
    i = 0
    while f"N{i}" in used:
        i += 1
    return f"N{i}"


def tree(rng, us=None, structs=(), size=None, depth=4, root="Vehicle", rich=True, simple=False, extras=(), datatypes=None,
         camel=True, leaf_ok=None, numeric=True):
    """valid flat spec without instances: ordered dict fqn -> attributes"""
    flat = {root: branch(rng, simple, extras, rich)}
    kids = {root: set()}
    branches = [root]
    n = size or rng.randint(2, 10)
    for _ in range(n):
        p = rng.choice(branches)
        own = p.split(".")[-1]
        if rng.random() < 0.35 and p.count(".") < depth - 1:
            nm = name_for(rng, kids[p])
            if rng.random() < 0.06 and own not in kids[p]:
                nm = own  # a child may be called like its parent
            f = f"{p}.{nm}"
            flat[f] = branch(rng, simple, extras, rich)
            branches.append(f)
            kids[f] = set()
        else:
            d = leaf(rng, us, structs, rich=rich, simple=simple, extras=extras, datatypes=datatypes, numeric=numeric)
            nm = name_for(rng, kids[p], boolean=d["datatype"] == "boolean")
            if rng.random() < 0.06 and own not in kids[p] and d["datatype"] != "boolean":
                nm = own
            f = f"{p}.{nm}"
            flat[f] = d
        kids[p].add(nm)
    return flat


def types_tree(rng, us=None, root="Types", simple=False, extras=(), rich=True, nested_structs=True, refs=True, full_refs=False, dup=False):
    """valid flat types spec; struct properties may refer to other structs"""
    flat = {root: branch(rng, simple, rich=False)}
    branches = [root]
    for _ in range(rng.randint(2, 5) if dup else rng.randint(0, 2)):
        p = rng.choice(branches)
        nm = name_for(rng, {f.split(".")[-1] for f in flat})
        if dup and rng.random() < 0.5:  # packages of the same name in different places
            nm = rng.choice(branches).split(".")[-1]
            if f"{p}.{nm}" in flat:
                continue
        flat[f"{p}.{nm}"] = branch(rng, simple, rich=False)
        branches.append(f"{p}.{nm}")
    structs = []
    for _ in range(rng.randint(1, 4)):
        p = rng.choice(branches)
        nm = name_for(rng, {f.split(".")[-1] for f in flat})
        f = f"{p}.{nm}"
        flat[f] = {"type": "struct", "description": text(rng, simple)}
        structs.append(f)
    for s in structs:
        used = set()
        for _ in range(rng.randint(1, 3)):
            d = leaf(rng, us, types=("property",), rich=rich, simple=simple, numeric=False)
            if refs and len(structs) > 1 and rng.random() < 0.3:
                # only refer to structs defined earlier, no cycles
                prev = structs[: structs.index(s)]
                if prev:
                    t = rng.choice(prev)
                    d = {"type": "property", "description": text(rng, simple), "datatype": t + rng.choice(["", "[]"])}
            nm = name_for(rng, used, boolean=d["datatype"] == "boolean")
            used.add(nm)
            flat[f"{s}.{nm}"] = d
    return flat, structs


def instances_spec(rng):
    """(instances value, list of nested label levels per the documented meaning)"""
    k = rng.random()
    if k < 0.2:
        return ["Left", "Right"]
    if k < 0.35:
        return "Row[1,2]"
    if k < 0.5:
        n = rng.randint(0, 9)
        return [f"Row[{n},{n + rng.randint(0, 2)}]", ["Left", "Right"]]
    if k < 0.6:
        return [["A1", "B1"], "P[9,11]S"]
    if k < 0.7:
        return ["Row[1,2]", "Pos[1,2]", ["In", "Out"]]
    if k < 0.8:
        return ["Single"]
    if k < 0.9:
        return [["Only"], ["Left", "Right"]]
    return ["Sensor[1,3]"]


def split_files(rng, flat, n):
    """distribute the nodes of a flat spec over n dicts preserving order inside each"""
    parts = [{} for _ in range(n)]
    for k, v in flat.items():
        parts[rng.randrange(n)][k] = v
    return parts
