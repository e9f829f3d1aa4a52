"""Units and quantities."""
from . import gen
from .common import forked, load, write_files


def _load(d, quantities, units, root):
    from pathlib import Path

    from vss_tools.vspec import datatypes
    from vss_tools.vspec.main import load_quantities_and_units

    load_quantities_and_units(tuple(Path(d) / q for q in quantities), tuple(Path(d) / u for u in units), Path(d) / root)
    return list(datatypes.dynamic_quantities), {k: list(v) for k, v in datatypes.dynamic_units.items()}


def tables(ctx, rng):
    q, us = gen.units(rng, rng.randint(1, 6))
    for u in us.values():
        if rng.random() < 0.1:
            u["unit"] = None
    nq, nu = rng.randint(1, 3), rng.randint(1, 3)
    qf = gen.split_files(rng, q, nq)
    uf = gen.split_files(rng, us, nu)
    bad = None
    k = rng.random()
    if k < 0.45:
        bad = rng.choice(["dupq", "dupu", "quantity", "datatype", "missing", "noneu", "noneq", "defq", "cross"])
        if bad == "dupq":
            n = rng.choice(list(q))
            qf.append({n: {"definition": "again"}})
        elif bad == "dupu":
            n = rng.choice(list(us))
            uf.append({n: dict(us[n])})
        elif bad == "quantity":
            n = rng.choice(list(us))
            us[n]["quantity"] = rng.choice(["nope", "quant", "quant00", ""])
            uf = gen.split_files(rng, us, nu)
        elif bad == "datatype":
            n = rng.choice(list(us))
            us[n]["allowed-datatypes"] = us[n]["allowed-datatypes"] + [rng.choice(["numerics", "int", "uint128", "Float", ""])]
            rng.shuffle(us[n]["allowed-datatypes"])
            uf = gen.split_files(rng, us, nu)
        elif bad == "missing":
            n = rng.choice(list(us))
            del us[n][rng.choice(["definition", "quantity", "unit"])]
            uf = gen.split_files(rng, us, nu)
        elif bad == "noneu":
            uf[0]["empty-unit"] = None
        elif bad == "noneq":
            qf[0]["emptyq"] = None
        elif bad == "defq":
            qf[0]["defq"] = {"comment": "no definition"}
        elif bad == "cross":
            bad = None
            # a quantity and a unit may share a name
            n = rng.choice(list(q))
            us[n] = {"definition": "d", "unit": "cross-u", "quantity": n, "allowed-datatypes": ["numeric"]}
            uf = gen.split_files(rng, us, nu)
    defaults = rng.random() < 0.2 and len(qf) == 1 and len(uf) == 1
    files = {"root/root.vspec": {"Vehicle": {"type": "branch", "description": "v"}}}
    if defaults:
        files["root/quantities.yaml"], files["root/units.yaml"] = qf[0], uf[0]
        qn, un = [], []
    else:
        qn, un = [f"q{i}.yaml" for i in range(len(qf))], [f"u{i}.yaml" for i in range(len(uf))]
        files.update(dict(zip(qn, qf)))
        files.update(dict(zip(un, uf)))
        if rng.random() < 0.3:
            # defaults must not be used when files are given
            files["root/quantities.yaml"] = {"default-q": {"definition": "x"}}
            files["root/units.yaml"] = {"default-u": {"definition": "x", "unit": "du", "quantity": next(iter(q)), "allowed-datatypes": ["numeric"]}}
    d = ctx.newdir()
    write_files(d, files)
    inp = {"files": files, "quantities": qn, "units": un}
    r0 = load(d, vspec="root/root.vspec", quantities=qn, units=un)
    ctx.count(inp, part=f"tables {'bad' if bad else 'good'}")
    if bad:
        ctx.check(r0.rejected, f"unit/quantity files with a defect ({bad}) are accepted", lambda: {"input": inp, "observed": repr(r0)})
    else:
        ctx.check(r0.ok, "valid unit/quantity files are rejected", lambda: {"input": inp, "observed": repr(r0)})
        r = forked(_load, d, qn, un, "root")
        if r.ok:
            gq, gu = r.value
            eu = {}
            for n, u in us.items():
                eu[n] = u.get("allowed-datatypes") or []
                if u.get("unit") is not None:
                    eu[u["unit"]] = u.get("allowed-datatypes") or []
            ctx.check(sorted(gq) == sorted(q) and gu == eu, "loaded tables are not exactly the entries of all files",
                      lambda: {"input": inp, "expected": [sorted(q), eu], "observed": r.value})
    ctx.clean(d)


def node(ctx, rng):
    q, us = gen.units(rng)
    b = rng.choice(gen.BASE + ["numeric"])
    dt = b + rng.choice(["", "[]"])
    struct = rng.random() < 0.05
    if struct:
        dt = "Types.S" + rng.choice(["", "[]"])
    names = list(us) + [u["unit"] for u in us.values()]
    unit = rng.choice(names) if rng.random() < 0.9 else rng.choice(["nope", "unit", "u", "unit-", "UNIT-0", "unit-0 "])
    files = {
        "root.vspec": {
            "Vehicle": {"type": "branch", "description": "v"},
            "Vehicle.IsX": {"type": rng.choice(["sensor", "actuator", "attribute"]), "datatype": dt, "description": "x", "unit": unit},
        },
        "units.yaml": us,
        "quantities.yaml": q,
        "t.vspec": {"Types": {"type": "branch", "description": "t"}, "Types.S": {"type": "struct", "description": "s"},
                    "Types.S.P": {"type": "property", "datatype": "uint8", "description": "p"}},
    }
    exp = False
    for n, u in us.items():
        if unit in (n, u["unit"]) and not struct:
            exp = any(gen.subtype(b, a) for a in u["allowed-datatypes"])
    d = ctx.newdir()
    write_files(d, files)
    r = load(d, vspec="root.vspec", types=["t.vspec"])
    ctx.count([us, dt, unit], part="unit of node accepted" if exp else "unit of node rejected")
    ctx.check(r.ok if exp else r.rejected, f"unit {unit!r} on {dt}: expected {'accept' if exp else 'reject'}",
              lambda: {"input": files, "expected": "accept" if exp else "reject", "observed": repr(r)})
    ctx.clean(d)


def run(ctx):
    ctx.loop(0.5, lambda r: tables(ctx, r))
    ctx.loop(1.0, lambda r: node(ctx, r))
