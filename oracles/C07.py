"""Value constraints."""
from . import gen
from .common import load, write_files
from .C06 import in_domain, scalar

ALL = gen.BASE + ["numeric"]


def member(v, allowed):
    return any(v == a for a in allowed)


def accept(d):
    dt = d["datatype"]
    arr = dt.endswith("[]")
    b = gen.base_of(dt)
    de, al = d.get("default"), d.get("allowed")
    if d.get("arraysize") is not None and not arr:
        return False
    if de is not None:
        if isinstance(de, list) != arr:
            return False
        if not all(in_domain(x, b) for x in (de if arr else [de])):
            return False
        if arr and d.get("arraysize") and len(de) != d["arraysize"]:
            return False
    if al is not None:
        if not all(in_domain(x, b) for x in al):
            return False
        if d.get("min") is not None or d.get("max") is not None:
            return False
        if al and de and not all(member(x, al) for x in (de if arr else [de])):
            return False
    cu = d.get("constUID")
    if cu is not None:
        if not (len(cu) == 10 and cu[:2] == "0x" and all(c in "0123456789abcdefABCDEF" for c in cu[2:])):
            return False
    return True


CU = ["0x12345678", "0xDEADBEEF", "0xabcdef01", "0xABCDEF0", "0x123456789", "12345678", "0X12345678", "0x1234567G", " 0x12345678",
      "0x12345678 ", "0x12345678\n", "", "0x", "0x١٢٣٤٥٦٧٨", "0x1234567８", "x0x12345678", "0xaBcDeF09"]


def vals(rng, b, n):
    out = []
    for _ in range(n):
        v = gen.value(rng, b) if rng.random() < 0.9 else scalar(rng, b)
        if isinstance(v, bool) and b != "boolean":
            v = 3
        if v not in out:
            out.append(v)
    return out


def one(ctx, rng):
    b = rng.choice(ALL)
    arr = rng.random() < 0.45
    d = {"type": rng.choice(["sensor", "actuator", "attribute"]), "datatype": b + ("[]" if arr else ""), "description": "x"}
    if rng.random() < 0.5:
        d["allowed"] = vals(rng, b, rng.randint(1, 4))
    if rng.random() < (0.2 if "allowed" in d else 0.4):
        d["min"] = rng.choice([0, 1, -5, 1.5, 0.0, 100])
    if rng.random() < (0.2 if "allowed" in d else 0.4):
        d["max"] = rng.choice([0, 1, -5, 1.5, 0.0, 100])
    if rng.random() < (0.6 if arr else 0.12):
        d["arraysize"] = rng.choice([0, 1, 2, 3])
    if rng.random() < 0.7:
        wrong_shape = rng.random() < 0.12
        n = d.get("arraysize") or rng.randint(1, 3)
        if rng.random() < 0.15:
            n = rng.randint(0, 4)

        def el():
            if "allowed" in d and rng.random() < 0.85:
                return rng.choice(d["allowed"])
            return gen.value(rng, b) if rng.random() < 0.85 else scalar(rng, b)

        if arr != wrong_shape:
            d["default"] = [el() for _ in range(n)]
        else:
            d["default"] = el()
        vs = d["default"] if isinstance(d["default"], list) else [d["default"]]
        if b != "boolean" and any(isinstance(x, bool) for x in vs):
            return
    if rng.random() < 0.15:
        d["constUID"] = rng.choice(CU)
    if "allowed" in d and rng.random() < 0.05 and "min" not in d and "max" not in d:
        d["allowed"] = []
    judge(ctx, d, rng)


def judge(ctx, d, rng):
    as_prop = rng.random() < 0.2
    if as_prop:
        d = {**d, "type": "property"}
        flat = {"Vehicle": {"type": "branch", "description": "v"}}
        types = {"Types": {"type": "branch", "description": "t"}, "Types.S": {"type": "struct", "description": "s"}, "Types.S.IsX": d}
    else:
        flat = {"Vehicle": {"type": "branch", "description": "v"}, "Vehicle.IsX": d}
        types = None
    p = ctx.newdir()
    files = {"root.vspec": flat}
    if types:
        files["t.vspec"] = types
    write_files(p, files)
    r = load(p, vspec="root.vspec", types=["t.vspec"] if types else [])
    exp = accept(d)
    ctx.count(d, part="expected accept" if exp else "expected reject")
    ctx.check(r.ok if exp else r.rejected, f"node definition should be {'accepted' if exp else 'rejected'}",
              lambda: {"input": files, "expected": "accept" if exp else "reject", "observed": repr(r)})
    ctx.clean(p)


def branch_uid(ctx, rng):
    cu = rng.choice(CU)
    d = {"type": "branch", "description": "b", "constUID": cu}
    flat = {"Vehicle": {"type": "branch", "description": "v"}, "Vehicle.B": d}
    p = ctx.newdir()
    write_files(p, {"root.vspec": flat})
    r = load(p, vspec="root.vspec")
    exp = accept({**d, "datatype": "x"})
    ctx.count(flat, part="constUID of branches")
    ctx.check(r.ok if exp else r.rejected, f"constUID should be {'accepted' if exp else 'rejected'}",
              lambda: {"input": flat, "observed": repr(r)})
    ctx.clean(p)


def run(ctx):
    ctx.loop(0.95, lambda r: one(ctx, r))
    ctx.loop(1.0, lambda r: branch_uid(ctx, r))
