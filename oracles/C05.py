"""Instance expansion."""
from . import gen, instgen, ref
from .common import diff, load, same, write_files


def view(data):
    # `instantiate` has no meaning on a generated instance
    return {k: v for k, v in data.items() if not (k == "instantiate" and data.get("is_instance"))}


def one(ctx, rng):
    flat, over, inst = instgen.model(rng, extras=gen.EXTRAS[:3])
    files = {"root.vspec": flat}
    flats = [flat]
    overlays = []
    if over:
        if rng.random() < 0.5:
            files["o.vspec"] = over
            flats.append(over)
            overlays = ["o.vspec"]
        else:
            files["root.vspec"] = {**flat, **over}
            flats = [files["root.vspec"]]
    judge(ctx, files, flats, overlays, nontrivial=bool(inst))


def judge(ctx, files, flats, overlays, nontrivial=True):
    d = ctx.newdir()
    write_files(d, files)
    r = load(d, vspec="root.vspec", overlays=overlays)
    inp = {"files": files, "overlays": overlays}
    ctx.count(inp, nontrivial)
    if not r.ok:
        ctx.violation("a valid model with instances is rejected", {"input": inp, "observed": repr(r)})
    exp = {n["fqn"]: view(n["data"]) for n in ref.loaded(flats)[1]}
    got = {n["fqn"]: view(n["data"]) for n in r.value[0]}
    ctx.check(same(got, exp) and len(r.value[0]) == len(exp), "expanded model differs from the expected expansion",
              lambda: {"input": inp, "difference": diff(exp, got)})
    ctx.clean(d)


def no_expand(ctx, rng):
    flat, over, inst = instgen.model(rng, explicit=False, extras=gen.EXTRAS[:3])
    d = ctx.newdir()
    write_files(d, {"root.vspec": flat})
    r = load(d, vspec="root.vspec", expand=False)
    ctx.count(["noexpand", flat], bool(inst), part="no-expand")
    if not r.ok:
        ctx.violation("a valid model with instances is rejected without expansion", {"input": flat, "observed": repr(r)})
    exp = {n["fqn"]: view(n["data"]) for n in ref.loaded([flat], do_expand=False)[1]}
    got = {n["fqn"]: view(n["data"]) for n in r.value[0]}
    ctx.check(same(got, exp) and len(r.value[0]) == len(exp), "the unexpanded model differs from the definition",
              lambda: {"input": flat, "difference": diff(exp, got)})
    ctx.clean(d)


def run(ctx):
    ctx.loop(0.85, lambda r: one(ctx, r))
    ctx.loop(1.0, lambda r: no_expand(ctx, r))
