"""Datatype domains and subtyping."""
from . import gen
from .common import forked, load, write_files

ALL = gen.BASE + ["numeric"]


def in_domain(v, b):
    """non-boolean scalars for numeric types; exact"""
    if b in gen.INT_RANGES:
        lo, hi = gen.INT_RANGES[b]
        return isinstance(v, int) and not isinstance(v, bool) and lo <= v <= hi
    if b in ("float", "double", "numeric"):
        return isinstance(v, (int, float)) and not isinstance(v, bool)
    if b == "boolean":
        return isinstance(v, bool)
    return isinstance(v, str)


def scalar(rng, b):
    k = rng.random()
    if k < 0.6 and b in gen.INT_RANGES:
        lo, hi = gen.INT_RANGES[b]
        return rng.choice([lo, lo - 1, lo + 1, hi, hi + 1, hi - 1, 0, -1, 1, 2 * hi, -hi, -hi - 2, rng.randint(2 * lo - 3, 2 * hi + 3)])
    return rng.choice(["x", "", "12", "True", 1.5, -0.25, 10**30, 7, -7, 2**31, 2**63, True, False, "uint8"])


def _is(v, dt):
    from vss_tools.vspec.datatypes import Datatypes

    return bool(Datatypes.is_datatype(v, dt))


def direct(ctx, rng):
    b = rng.choice(ALL)
    dt = b + rng.choice(["", "[]"])
    if rng.random() < 0.5:
        v = scalar(rng, b)
        vs = [v]
    else:
        n = rng.randint(0, 4)
        vs = [scalar(rng, b) if rng.random() < 0.4 else gen.value(rng, b) for _ in range(n)]
        v = vs
    if b in ("float", "double", "numeric") and len({type(x) for x in vs}) > 1 and all(in_domain(x, b) for x in vs):
        return  # a mixed list as one value: only its elements are ever tested
    if b not in ("boolean", "string") and any(isinstance(x, bool) for x in vs):
        return
    exp = all(in_domain(x, b) for x in vs)
    r = forked(_is, v, dt)
    ctx.count([v, dt], part="is_datatype")
    ctx.check(r.ok and r.value is exp, f"{v!r} for {dt}: expected {exp}", lambda: {"input": [v, dt], "expected": exp, "observed": repr(r)})


def node(ctx, rng):
    b = rng.choice(ALL)
    arr = rng.random() < 0.4
    dt = b + ("[]" if arr else "")
    if arr:
        vs = [scalar(rng, b) if rng.random() < 0.4 else gen.value(rng, b) for _ in range(rng.randint(1, 3))]
        v = vs
    else:
        v = scalar(rng, b)
        vs = [v]
    if b not in ("boolean", "string") and any(isinstance(x, bool) for x in vs):
        return
    use = rng.choice(["default", "allowed"])
    flat = {
        "Vehicle": {"type": "branch", "description": "v"},
        "Vehicle.IsX": {"type": rng.choice(["sensor", "actuator", "attribute"]), "datatype": dt, "description": "x", use: v if use == "default" else vs},
    }
    exp = all(in_domain(x, b) for x in vs)
    d = ctx.newdir()
    write_files(d, {"root.vspec": flat})
    r = load(d, vspec="root.vspec")
    ctx.count(flat)
    ctx.check(r.ok if exp else r.rejected, f"{use} {v!r} for {dt}: expected {'accept' if exp else 'reject'}",
              lambda: {"input": flat, "expected": "accept" if exp else "reject", "observed": repr(r)})
    ctx.clean(d)


def _pairs():
    from vss_tools.vspec.datatypes import Datatypes

    names = [t[0] for t in Datatypes.types]
    return names, {(a, b): bool(Datatypes.is_subtype_of(a, b)) for a in names for b in names}


WIDTH = {"8": 8, "16": 16, "32": 32, "64": 64}


def subset(a, b):
    """is every value of a a value of b (exact, over the documented domains)"""
    if a == b:
        return True
    ra, rb = gen.INT_RANGES.get(a), gen.INT_RANGES.get(b)
    if ra and rb:
        return rb[0] <= ra[0] and ra[1] <= rb[1]
    num = gen.INTS + ["float", "double", "numeric"]
    return a in num and b in ("float", "double", "numeric")


def pairs(ctx):
    r = forked(_pairs)
    if not r.ok:
        ctx.violation("subtype relation is not computable", {"observed": repr(r)})
    names, rel = r.value
    want = [x + s for x in ALL for s in ("", "[]")]
    ctx.check(sorted(names) == sorted(want), "the set of built-in datatypes changed", lambda: {"expected": want, "observed": names})
    for (a, b), v in rel.items():
        ctx.count(["subtype", a, b], part="all pairs of datatypes")
        aa, ba = a.endswith("[]"), b.endswith("[]")
        x, y = gen.base_of(a), gen.base_of(b)
        if v:
            ctx.check(aa == ba and subset(x, y), f"{a} is reported as a subtype of {b}", lambda: {"input": [a, b]})
        elif aa == ba:
            need = x == y or gen.subtype(x, y)
            ctx.check(not need, f"{a} is not reported as a subtype of {b}", lambda: {"input": [a, b]})


def run(ctx):
    if ctx.widx == 0:
        pairs(ctx)
    ctx.loop(0.5, lambda r: direct(ctx, r))
    ctx.loop(1.0, lambda r: node(ctx, r))
