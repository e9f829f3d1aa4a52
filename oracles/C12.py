"""Naming and unknown attributes."""
from . import gen
from .common import load, write_files

ALPHA = "abcdefghijklmnopqrstuvwxyz"
GOOD = ["Speed", "A", "X1", "ABC", "Door2Left", "Z", "A0"]
BAD = ["speed", "1A", "A_b", "A-b", "A b", "Ünit", "Speedé", "aB", "_A", "A$", "A\n", " A", "A ", "A²", "Ａ"]
BOOL_GOOD = ["IsOpen", "HasLid", "Is", "Has", "Isolated", "IsA1"]
BOOL_BAD = ["Open", "AIs", "I", "Ha", "WasOpen", "IsOpen_", "isOpen", "hasX", "iS"]
CORE = {"branch": ["instances", "aggregate"], "leaf": ["arraysize", "min", "max", "unit", "allowed", "default", "datatype"]}

ATTRS = gen.EXTRAS + ["x-other", "x", "X-note", "sourceX", "sour"]


def camel(n):
    u, al = ALPHA.upper(), ALPHA + ALPHA.upper() + "0123456789"
    return n != "" and n[0] in u and all(c in al for c in n)


def one(ctx, rng):
    root = rng.choice(["Vehicle"] * 8 + ["vehicle", "V_x"])
    flat = {root: {"type": "branch", "description": "v"}}
    naming = not camel(root)
    unknown = []
    always = False
    pool = list(GOOD) + list(BOOL_GOOD) + (rng.sample(BAD, 2) if rng.random() < 0.4 else [])
    white = rng.sample(ATTRS, rng.randint(0, 3))
    branches = [root]
    for _ in range(rng.randint(1, 6)):
        p = rng.choice(branches)
        isb = rng.random() < 0.3
        boolean = not isb and rng.random() < 0.35
        nm = rng.choice(pool)
        if boolean:
            nm = rng.choice(BOOL_GOOD * 3 + BOOL_BAD)
        f = f"{p}.{nm}"
        if f in flat:
            continue
        dt = "boolean" if boolean else rng.choice(["uint8", "boolean[]", "string"])
        flat[f] = {"type": "branch", "description": "b"} if isb else {"type": "sensor", "datatype": dt, "description": "x"}
        if isb:
            branches.append(f)
        gone = False
        if rng.random() < 0.08 and not isb:
            flat[f]["delete"] = True
            gone = True
        e = rng.random()
        attrs = []
        if e < 0.25:
            attrs = rng.sample(ATTRS, rng.randint(1, 2))
        elif e < 0.3:
            attrs = [rng.choice(CORE["leaf"] if isb else CORE["branch"])]
        for a in attrs:
            flat[f][a] = rng.choice(["v", 1, 0, False, {"k": 1}, [1]])
        if gone:
            continue
        if not camel(nm) or (boolean and not nm.startswith(("Is", "Has"))):
            naming = True
        for a in attrs:
            if a in CORE["leaf"] + CORE["branch"]:
                always = True
            elif a not in white:
                unknown.append((f, a))
    files = {"root.vspec": flat}
    types = []
    if rng.random() < 0.3:
        t = {"Types": {"type": "branch", "description": "t"}, "Types.S": {"type": "struct", "description": "s"},
             "Types.S.P": {"type": "property", "datatype": "uint8", "description": "p"}}
        if rng.random() < 0.4:
            a = rng.choice(ATTRS + ["instances", "min"])
            k = rng.choice(list(t))
            if not (a == "min" and k == "Types.S.P") and not (a == "instances" and k == "Types"):
                t[k][a] = 5
                if a not in white:
                    always = True
        files["t.vspec"] = t
        types = ["t.vspec"]
    strict = rng.random() < 0.3
    aborts = [a for a in ("unknown-attribute", "name-style") if rng.random() < 0.35]
    fail = always
    if (strict or "name-style" in aborts) and naming:
        fail = True
    if (strict or "unknown-attribute" in aborts) and unknown:
        fail = True
    d = ctx.newdir()
    write_files(d, files)
    r = load(d, vspec="root.vspec", types=types, strict=strict, aborts=tuple(aborts), extended_attributes=tuple(white))
    inp = {"files": files, "strict": strict, "aborts": aborts, "whitelist": white}
    ctx.count(inp, part="reject" if fail else "accept")
    ctx.check(r.rejected if fail else r.ok, f"model should be {'rejected' if fail else 'accepted'}",
              lambda: {"input": inp, "naming": naming, "unknown": unknown, "always": always, "observed": repr(r)})
    ctx.clean(d)


def run(ctx):
    ctx.loop(1.0, lambda r: one(ctx, r))
