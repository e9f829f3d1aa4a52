"""Include resolution."""
import copy

from . import gen, ref
from .common import diff, load, same, write_files


def node(tag, name, boolean=False):
    return {"type": "sensor", "datatype": "uint8", "description": tag}


class Build:
    """a random include graph, with its expected flat load sequence"""

    def __init__(self, rng):
        self.rng = rng
        self.files = {}
        self.n = 0
        self.incdirs = [f"inc{i}" for i in range(rng.randint(0, 3))]
        self.bad = None

    def fresh(self):
        self.n += 1
        return f"f{self.n}.vspec"

    def content(self, own_dir, depth, spec_dir, seq, prefix, rel):
        """write one file; append (prefix, flat) entries to seq in load order"""
        rng = self.rng
        tag = f"{rel}#{rng.randrange(10**6)}"
        flat = {}
        for nm in rng.sample(["A", "B", "C", "D"], rng.randint(0, 3)):
            flat[nm] = node(tag + nm, nm)
        if rng.random() < 0.5:
            flat["Sub"] = {"type": "branch", "description": tag}
        if rng.random() < 0.35:
            # names that look like the prefix they get
            pre = prefix or "Vehicle"
            nm = rng.choice([pre.split(".")[0], pre.split(".")[-1], pre, "Vehicle", f"Vehicle.{pre}"])
            if "." in nm or rng.random() < 0.5:
                flat[nm] = {"type": "branch", "description": tag}
                flat[nm + ".A"] = node(tag + nm, nm)
            else:
                flat[nm + "X"] = node(tag + nm, nm)
        seq.append((prefix, copy.deepcopy(flat)))
        lines = []
        if depth > 0:
            for _ in range(rng.choice([0, 1, 1, 2])):
                lines.append(self.include(own_dir, depth - 1, spec_dir, seq, prefix))
        return flat, lines

    def include(self, own_dir, depth, spec_dir, seq, prefix, want=None):
        """create the target file (and decoys) and return the include line"""
        rng = self.rng
        name = self.fresh()
        if rng.random() < 0.3:
            name = "sub/" + name
        order = [spec_dir] + self.incdirs + [own_dir]
        present = [d for d in range(len(order)) if rng.random() < 0.4]
        if not present:
            present = [rng.randrange(len(order))]
        first = None
        for i in present:
            d = order[i]
            path = f"{d}/{name}" if d else name
            if path in self.files:
                continue
            self.files[path] = None  # reserve
        for d in order:
            path = f"{d}/{name}" if d else name
            if path in self.files:
                first = path
                break
        p2 = rng.choice([None, "Cab", "Cab.Row", "Top", "Cab.Row.In"])
        eff = ".".join(x for x in (prefix, p2) if x) or None
        for path in [p for p in self.files if p.endswith(name) and self.files[p] is None]:
            if path == first:
                fdir = path.rsplit("/", 1)[0] if "/" in path else ""
                mark = len(seq)
                flat, lines = self.content(fdir, depth, spec_dir, seq, eff, path)
                del mark
            else:
                flat, lines = {"Decoy": node("decoy " + path, "Decoy")}, []
            self.files[path] = self.render(flat, lines)
        pad = rng.choice(["", "", "  "])
        sep = rng.choice([" ", " ", "  ", "\t"])
        return f"{pad}#include{sep}{name}" + (f" {p2}" if p2 else "") + rng.choice(["", " "])

    def render(self, flat, lines):
        from .common import dump_yaml

        body = dump_yaml(flat) if flat else ""
        if not lines:
            return body
        out = []
        # include statements anywhere between top-level entries
        chunks = [dump_yaml({k: v}) for k, v in flat.items()]
        pos = sorted(self.rng.randint(0, len(chunks)) for _ in lines)
        li = 0
        for i, c in enumerate(chunks + [""]):
            while li < len(lines) and pos[li] == i:
                out.append(lines[li])
                li += 1
            if c:
                out.append(c.rstrip("\n"))
        return "\n".join(out) + "\n"


def spec(b, rng, rel, is_root):
    d = rel.rsplit("/", 1)[0] if "/" in rel else ""
    seq = []
    flat = {}
    if is_root:
        flat = {
            "Vehicle": {"type": "branch", "description": "v"},
            "Vehicle.Own": node("own", "Own"),
        }
    seq.append((None, copy.deepcopy(flat)))
    lines = []
    for _ in range(rng.randint(1, 3)):
        # top-level includes always get a prefix below Vehicle
        before = len(seq)
        ln = b.include(d, rng.randint(0, 2), d, seq, None)
        toks = ln.split()
        pre = "Vehicle" + ("." + toks[2] if len(toks) == 3 else "")
        body = toks[1]
        for i in range(before, len(seq)):
            p, f = seq[i]
            seq[i] = (".".join(x for x in ("Vehicle", p) if x), f)
        lines.append(f"#include {body} {pre}")
    b.files[rel] = b.render(flat, lines)
    return seq


def one(ctx, rng):
    b = Build(rng)
    rootdir = rng.choice(["", "spec"])
    rel = f"{rootdir}/root.vspec" if rootdir else "root.vspec"
    seq = spec(b, rng, rel, True)
    overlays = []
    if rng.random() < 0.4:
        o = rng.choice(["ov/over.vspec", (rootdir + "/" if rootdir else "") + "over.vspec"])
        seq += spec(b, rng, o, False)
        overlays.append(o)
    flats = []
    used = set()
    for p, f in seq:
        g = {(f"{p}.{k}" if p else k): v for k, v in f.items()}
        flats.append(g)
        used.update(g)
    # every intermediate branch must be defined
    extra = {}
    for k in sorted(used):
        parts = k.split(".")
        for i in range(1, len(parts)):
            a = ".".join(parts[:i])
            if a not in used:
                extra[a] = {"type": "branch", "description": "mid"}
    from .common import dump_yaml

    b.files[rel] += dump_yaml(extra) if extra else ""
    flats[0].update(extra)
    ok = {k: "branch" for k in used}
    merged = ref.merge_flat(flats)
    # a node may only be a leaf if it has no children
    for k in merged:
        if any(x.startswith(k + ".") for x in merged) and merged[k]["type"] != "branch":
            return
    d = ctx.newdir()
    for i in b.incdirs:
        (d / i).mkdir(parents=True, exist_ok=True)
    (d / "ov").mkdir(exist_ok=True)
    write_files(d, {k: v for k, v in b.files.items() if v is not None})
    r = load(d, vspec=rel, overlays=overlays, include_dirs=b.incdirs)
    inp = {"files": b.files, "vspec": rel, "overlays": overlays, "include_dirs": b.incdirs}
    ctx.count(inp)
    del ok
    if not r.ok:
        ctx.violation("a specification with resolvable includes is rejected", {"input": inp, "observed": repr(r)})
    exp = {n["fqn"]: n["data"] for n in ref.loaded(flats)[1]}
    got = {n["fqn"]: n["data"] for n in r.value[0]}
    ctx.check(same(got, exp) and len(exp) == len(r.value[0]), "included nodes are not at their prefix / from the first matching file / in order",
              lambda: {"input": inp, "difference": diff(exp, got)})
    ctx.clean(d)


def bad(ctx, rng):
    kind = rng.choice(["missing", "notarget", "elsewhere"])
    files = {"root.vspec": "Vehicle:\n  type: branch\n  description: v\n"}
    inc = ["inc0"]
    if kind == "missing":
        files["root.vspec"] += "#include nowhere.vspec Vehicle\n"
        if rng.random() < 0.5:
            files["root.vspec"] = files["root.vspec"].replace("nowhere.vspec", "a.vspec")
            files["a.vspec"] = "A:\n  type: branch\n  description: a\n#include gone.vspec\n"
    elif kind == "notarget":
        files["root.vspec"] += rng.choice(["#include\n", "  #include  \n"])
    else:
        # exists, but in no directory that is searched
        files["root.vspec"] += "#include x.vspec Vehicle\n"
        files["other/x.vspec"] = "A:\n  type: branch\n  description: a\n"
    d = ctx.newdir()
    (d / "inc0").mkdir()
    write_files(d, files)
    r = load(d, vspec="root.vspec", include_dirs=inc)
    ctx.count([kind, files], part="unresolvable includes")
    ctx.check(r.rejected, "an include that cannot be resolved is not an error", lambda: {"input": {"files": files, "include_dirs": inc}, "observed": repr(r)})
    ctx.clean(d)


def run(ctx):
    ctx.loop(0.9, lambda r: one(ctx, r))
    ctx.loop(1.0, lambda r: bad(ctx, r))
