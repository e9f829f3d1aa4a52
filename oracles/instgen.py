"""Random models with instances, instantiate: false and explicit definitions."""
from . import gen, ref


def levels_to_paths(inst):
    """explicit relative paths of generated branches: (all, innermost)"""
    n = ref.N("r", {"type": "branch", "description": "d", "instances": inst})
    ref.expand(n)
    allp, inner = [], []

    def go(x, p):
        for c in x.kids:
            q = p + [c.name]
            allp.append(".".join(q))
            if not c.kids:
                inner.append(".".join(q))
            go(c, q)

    go(n, [])
    return allp, inner


def model(rng, explicit=True, noinst=True, nested=True, size=None, extras=(), delete=False):
    us = None
    flat = gen.tree(rng, us, size=size or rng.randint(2, 9), depth=4, extras=extras, rich=rng.random() < 0.6)
    branches = [k for k in flat if flat[k]["type"] == "branch" and k != "Vehicle"] or ["Vehicle"]
    chosen = rng.sample(branches, min(len(branches), rng.randint(1, 2 if nested else 1)))
    if not nested:
        chosen = chosen[:1]
    # child names must not collide with labels
    inst = {}
    for b in chosen:
        kids = {k[len(b) + 1:].split(".")[0] for k in flat if k.startswith(b + ".")}
        for _ in range(20):
            i = gen.instances_spec(rng)
            allp, inner = levels_to_paths(i)
            if not ({p.split(".")[0] for p in allp} & kids):
                break
        else:
            continue
        flat[b]["instances"] = i
        inst[b] = (allp, inner)
    if noinst:
        for b in inst:
            for k in list(flat):
                if k.startswith(b + ".") and k.count(".") == b.count(".") + 1 and rng.random() < 0.25:
                    flat[k]["instantiate"] = False
    over = {}
    if explicit:
        for b, (allp, inner) in inst.items():
            for _ in range(rng.randint(0, 3)):
                p = rng.choice(inner if rng.random() < 0.7 else allp)
                base = f"{b}.{p}"
                subs = [k for k in flat if k.startswith(b + ".") and not under_noinst(flat, b, k) and k not in over
                        and not any(k.startswith(f"{b}.{q}.") or k == f"{b}.{q}" for q in allp)
                        and not any(k.startswith(x + ".") for x in inst if x != b and x.startswith(b + "."))]
                r = rng.random()
                if r < 0.2:
                    over[base] = rng.choice([
                        {"type": "branch", "description": "explicit " + base},
                        {"comment": "explicit"},
                        {"description": "explicit d"},
                    ])
                elif r < 0.6 and subs and p in inner:
                    k = rng.choice(subs)
                    t = f"{base}.{k[len(b) + 1:]}"
                    full = {a: v for a, v in flat[k].items() if a not in ("instantiate", "delete", "instances")}
                    if rng.random() < 0.5:
                        full["description"] = "explicit " + t
                        over[t] = full
                    else:
                        over[t] = rng.choice([{"comment": "explicit c"}, {"description": "explicit d"}, {"deprecation": "explicit"}])
                        if extras and rng.random() < 0.5:
                            over[t] = {rng.choice(list(extras)): rng.choice([1, "x", {"k": 2}, 0, False])}
                else:
                    nm = f"New{rng.randrange(100)}"
                    over[f"{base}.{nm}"] = {"type": "sensor", "datatype": "uint8", "description": "explicit new"}
    return flat, over, inst


def under_noinst(flat, b, k):
    rest = k[len(b) + 1:].split(".")
    p = b
    for s in rest:
        p += "." + s
        if flat.get(p, {}).get("instantiate") is False:
            return True
    return False
