"""Instance labels."""
import itertools

from .common import diff, forked, load, write_files

AFFIX = ["", "Row", "Sensor", "A1", "x_", "Ünit", "R.", "a b", "Pos-", "[", "]", "[x", "1", "0", "(", "$", "Row1"]


def _expand(s):
    from vss_tools.vspec.tree import expand_string

    return list(expand_string(s))


def string(ctx, rng):
    pre, suf = rng.choice(AFFIX), rng.choice(AFFIX)
    k = rng.random()
    lo = rng.choice([0, 1, 2, 8, 9, 10, 98, 99, 100, rng.randrange(2000)])
    hi = lo + rng.choice([0, 1, 2, 3, 11, rng.randrange(120)])
    if k < 0.6:
        s, exp = f"{pre}[{lo},{hi}]{suf}", [f"{pre}{i}{suf}" for i in range(lo, hi + 1)]
    elif k < 0.75:
        s = rng.choice([f"{pre}{suf}", f"{pre}[{lo}]{suf}", f"{pre}[{lo},]{suf}", f"{pre}[,{hi}]{suf}", f"{pre}({lo},{hi}){suf}",
                        f"{pre}[{lo};{hi}]{suf}", f"{pre}[a,b]{suf}", f"{pre}[{lo},{hi}{suf.replace(']', '')}"])
        exp = [s]
    elif k < 0.9:
        s, exp = f"{pre}[{hi + 1 + rng.randrange(3)},{lo}]{suf}", None
    else:
        s, exp = f"{pre}[0{lo},{hi}]{suf}", [f"{pre}{i}{suf}" for i in range(lo, hi + 1)]
    if k < 0.75 and exp == [s] and __import__("re").search(r"\[\d+,\d+\]", s):
        return
    r = forked(_expand, s)
    ctx.count(s, part="labels")
    if exp is None:
        ctx.check(r.rejected, "an inverted range is accepted", lambda: {"input": s, "observed": repr(r)})
    else:
        ctx.check(r.ok and r.value == exp, "wrong labels", lambda: {"input": s, "expected": exp[:40], "observed": repr(r)[:2000]})


def entry(rng, i):
    p = f"L{i}"
    k = rng.random()
    if k < 0.35:
        n = rng.choice([0, 1, 8, 9, 10])
        m = n + rng.choice([0, 1, 1, 2])
        return f"{p}r[{n},{m}]", [f"{p}r{x}" for x in range(n, m + 1)]
    if k < 0.6:
        ls = [f"{p}{c}" for c in "ABC"[: rng.randint(1, 3)]]
        return ls, ls
    if k < 0.7:
        n = rng.randint(1, 3)
        return [f"{p}q[{n},{n + 1}]", f"{p}Z"], [f"{p}q{n}", f"{p}q{n + 1}", f"{p}Z"]
    return f"{p}S", [f"{p}S"]


def tree(ctx, rng):
    es = [entry(rng, i) for i in range(rng.randint(1, 4))]
    value = [e for e, _ in es]
    if len(value) == 1 and isinstance(value[0], str) and rng.random() < 0.5:
        value = value[0]
    # the documented meaning
    roots = [()]
    exp = set()
    for e, ls in es:
        new = [r + (x,) for x in ls for r in roots]
        exp.update(new)
        if len(ls) > 1 or isinstance(e, list):
            roots = new
    flat = {
        "Vehicle": {"type": "branch", "description": "v"},
        "Vehicle.Inst": {"type": "branch", "description": "i", "instances": value, "comment": "c"},
    }
    extra = rng.random()
    if extra < 0.4:
        flat["Vehicle.Inst.Leaf"] = {"type": "sensor", "datatype": "uint8", "description": "leaf"}
    expl = rng.choice(sorted(exp))
    if 0.3 < extra < 0.7:
        # the instance branch itself is also described explicitly
        flat["Vehicle.Inst." + ".".join(expl)] = {"type": "branch", "description": "explicit"}
        for i in range(1, len(expl)):
            flat.setdefault("Vehicle.Inst." + ".".join(expl[:i]), {"type": "branch", "description": "explicit"})
    d = ctx.newdir()
    write_files(d, {"root.vspec": flat})
    r = load(d, vspec="root.vspec")
    ctx.count(flat)
    if not r.ok:
        ctx.violation("a valid instance declaration is rejected", {"input": flat, "observed": repr(r)})
    got = [n for n in r.value[0] if n["fqn"].startswith("Vehicle.Inst.") and n["data"]["type"] == "branch"]
    want = sorted("Vehicle.Inst." + ".".join(p) for p in exp)
    have = sorted(n["fqn"] for n in got)
    ctx.check(want == have, "wrong set of instance branches", lambda: {"input": flat, "difference": diff(want, have)})
    for n in got:
        ctx.check(n["data"].get("is_instance") is True and "instances" not in n["data"],
                  "a generated branch is not marked as an instance, or still has instances",
                  lambda: {"input": flat, "node": n})
    for n in r.value[0]:
        if not n["fqn"].startswith("Vehicle.Inst.") or n["data"]["type"] != "branch":
            ctx.check("is_instance" not in n["data"], "a declared node is marked as an instance", lambda: {"input": flat, "node": n})
    ctx.clean(d)


def badrange(ctx, rng):
    n = rng.randint(1, 12)
    v = f"Row[{n},{rng.randrange(n)}]"
    value = rng.choice([v, ["Left", v], [["Left", v]], [v, ["A", "B"]]])
    flat = {
        "Vehicle": {"type": "branch", "description": "v"},
        "Vehicle.Inst": {"type": "branch", "description": "i", "instances": value},
    }
    d = ctx.newdir()
    write_files(d, {"root.vspec": flat})
    r = load(d, vspec="root.vspec")
    ctx.count(flat, part="inverted ranges")
    ctx.check(r.rejected, "an inverted range is accepted", lambda: {"input": flat, "observed": repr(r)})
    ctx.clean(d)


def run(ctx):
    ctx.loop(0.4, lambda r: string(ctx, r))
    ctx.loop(0.5, lambda r: tree(ctx, r))
    ctx.loop(1.0, lambda r: badrange(ctx, r))
