"""Deletion."""
from . import gen, instgen, ref
from .common import diff, load, same, write_files


def one(ctx, rng):
    flat, _, inst = instgen.model(rng, explicit=False, extras=gen.EXTRAS[:3], size=rng.randint(3, 12))
    ov = {}
    full, _, _ = ref.loaded([flat], delete=False)
    plain = [k for k in flat if k != "Vehicle"]
    for _ in range(rng.randint(1, 4)):
        k = rng.random()
        if k < 0.5 and plain:
            t = rng.choice(plain)
            if rng.random() < 0.5:
                flat[t]["delete"] = True
            else:
                ov.setdefault(t, {})["delete"] = True
        elif k < 0.6 and plain:
            # explicitly kept / undeleted by the overlay
            t = rng.choice(plain)
            flat[t]["delete"] = True
            ov.setdefault(t, {})["delete"] = False
        elif inst:
            # a node inside one instance
            c = [n["fqn"] for n in full if n["fqn"] not in flat]
            if c:
                ov.setdefault(rng.choice(c), {})["delete"] = True
    files = {"root.vspec": flat}
    flats, overlays = [flat], []
    if ov:
        files["o.vspec"] = ov
        flats.append(ov)
        overlays = ["o.vspec"]
    d = ctx.newdir()
    write_files(d, files)
    r = load(d, vspec="root.vspec", overlays=overlays)
    inp = {"files": files, "overlays": overlays}
    _, after, _ = ref.loaded(flats)
    before, _, _ = ref.loaded(flats, delete=False)
    ctx.count(inp, len(after) != len(before))
    if not r.ok:
        ctx.violation("a valid model with deletions is rejected", {"input": inp, "observed": repr(r)})
    exp = {n["fqn"]: n["data"] for n in after}
    got = {n["fqn"]: n["data"] for n in r.value[0]}
    ctx.check(all(n["data"].get("delete") is not True for n in r.value[0]), "a node marked for deletion is still there", lambda: {"input": inp})
    ctx.check(same(got, exp) and len(r.value[0]) == len(exp), "not exactly the deleted nodes disappeared",
              lambda: {"input": inp, "difference": diff(exp, got)})
    ctx.clean(d)


def run(ctx):
    ctx.loop(1.0, lambda r: one(ctx, r))
