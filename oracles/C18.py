"""Path search of the C and the Go library."""
import json

from . import gen
from .binlib import drive, prepare  # noqa: F401
from .C17 import VALIDATE, encode
from .common import diff, same

NAMES = ["A", "B", "C", "AB", "Row1", "Row10", "Door", "Doors", "X"]


def family(rng):
    """names that are hard to tell apart: equal up to a late character, up to case, or prefixes of one another"""
    if rng.random() < 0.7:
        return NAMES
    pre = rng.choice("PQN") * rng.choice([7, 8, 15, 16, 31, 32, 62, 63, 64])
    return [pre, pre + "A", pre + "B", pre + "AB", pre.lower(), pre.lower() + "A", "X" + pre[1:], pre[:-1], pre[:-1] + "x"]


def tree(rng, NAMES=NAMES):
    out = []

    def go(depth, path, name):
        inner = depth == 0 or (rng.random() < 0.5 and depth < 6)
        t = rng.choice(["branch", "branch", "struct"]) if inner else rng.choice(["sensor", "actuator", "attribute", "property"])
        n = {"depth": depth, "type": t, "validate": rng.choice([0, 0, 0] + list(VALIDATE.values())), "name": name.encode(), "uuid": b"", "description": b"d",
             "datatype": b"" if inner else b"uint8", "unit": b"", "min": b"", "max": b"", "default": b"", "allowed": [], "path": path + [name]}
        k = rng.choice([0, 1, 2, 3, 4]) if inner else 0
        names = rng.sample(NAMES, k)
        n["children"] = k
        out.append(n)
        for c in names:
            go(depth + 1, path + [name], c)

    go(0, [], rng.choice(["A", "Vehicle"]))
    return out


def query(rng, nodes, NAMES=NAMES):
    p = list(rng.choice(nodes)["path"])
    k = rng.random()
    if k < 0.15:
        p = p[: rng.randint(1, len(p))]
    elif k < 0.25:
        p.append(rng.choice(NAMES))
    elif k < 0.35:
        p[rng.randrange(len(p))] = rng.choice(NAMES)
    for i in range(len(p)):
        if rng.random() < rng.choice([0.0, 0.3, 0.6]):
            p[i] = "*"
    if rng.random() < 0.3:
        p.append("*")
    return p


def fits(node, q, anyd):
    """every segment of the query is matched by the path"""
    p = node["path"]
    k = len(q)
    if len(p) < k or (len(p) > k and not (anyd and q[-1] == "*")):
        return False
    return all(s in ("*", x) for s, x in zip(q, p))


def onway(node, q):
    p = node["path"]
    return len(p) <= len(q) and all(s in ("*", x) for s, x in zip(q, p))


def strictest(vals):
    base = max([v % 10 for v in vals], default=0)
    return base + (10 if any(v >= 10 for v in vals) else 0)


def expected(nodes, q, anyd, leaf):
    full = [n for n in nodes if fits(n, q, anyd)]
    visited = [n for n in nodes if onway(n, q) or fits(n, q, anyd)]
    if leaf:
        hits = [n for n in full if n["type"] not in ("branch", "struct")]
    else:
        # the nodes along the path are reported too; those behind a wildcard only when they lead to a match
        wild = q.index("*") if "*" in q else len(q)
        pre = {tuple(m["path"][:i]) for m in full for i in range(1, len(m["path"]) + 1)}
        hits = [n for n in visited if len(n["path"]) <= wild or tuple(n["path"]) in pre]
    return {
        "n": len(hits), "validation": strictest([n["validate"] for n in visited]), "paths": [".".join(n["path"]) for n in hits],
        "names": [n["path"][-1] for n in hits],
    }


def one(ctx, rng):
    names = family(rng)
    nodes = tree(rng, names)
    d = ctx.newdir()
    (d / "t.bin").write_bytes(b"".join(encode(n) for n in nodes))
    qs = [(query(rng, nodes, names), rng.random() < 0.5, rng.random() < 0.5) for _ in range(25)]
    cmds = ["read t.bin"] + [f"search {int(a)} {int(lf)} {'.'.join(q)}" for q, a, lf in qs]
    lists = rng.choice([["leaflist", "uuidlist"], ["uuidlist", "leaflist"], ["leaflist"], ["uuidlist", "leaflist", "leaflist"]])
    cmds += [f"{x} {x}.txt" for x in lists]
    cmds += [f"search {int(a)} {int(lf)} {'.'.join(q)}" for q, a, lf in qs[:2]]
    leaves = [".".join(n["path"]) for n in nodes if n["type"] not in ("branch", "struct")]
    desc = [[".".join(n["path"]), n["type"], n["validate"]] for n in nodes]
    for lang in ("c", "go"):
        err, res = drive(ctx.state[lang], d, cmds)
        if err:
            ctx.violation(f"the {lang} library fails while searching", {"input": {"tree": desc, "queries": cmds}, "observed": err})
        rest = res[len(qs) + len(lists):]
        for (q, a, lf), got in list(zip(qs, res)) + list(zip(qs[:2], rest)):
            exp = expected(nodes, q, a, lf)
            inp = {"tree": desc, "path": ".".join(q), "any_depth": a, "leaf_nodes_only": lf}
            if lang == "c":
                ctx.count(inp, part="search")
            ctx.check(same(exp, got), f"the {lang} search gives different nodes", lambda: {"input": inp, "difference": diff(exp, got), "observed": got})
        for x, got in zip(lists, res[len(qs):]):
            ctx.check(got == len(leaves), f"the {lang} {x} counts different leaves", lambda: {"input": desc, "expected": len(leaves), "observed": got})
        if "leaflist" in lists:
            txt = (d / "leaflist.txt").read_text()
            try:
                lst = json.loads(txt)
            except ValueError:
                lst = txt
            ctx.check(same(lst, {"leafpaths": leaves}), f"the {lang} leaf list is wrong",
                      lambda: {"input": desc, "expected": leaves, "observed": txt[:800]})
        for x in lists:
            (d / f"{x}.txt").unlink(missing_ok=True)
    ctx.clean(d)


def run(ctx):
    ctx.loop(1.0, lambda r: one(ctx, r))
