"""Determinism: the same export under different hash seeds, twice in one process and over earlier output."""
import json
import os
import shutil
import subprocess
import sys
from pathlib import Path

from . import gen
from .common import REPO, cli_args, write_files
from .models import model

FORMATS = ["apigear", "binary", "csv", "ddsidl", "franca", "go", "graphql", "id", "json", "jsonschema", "protobuf", "yaml", "tree", "samm"]
NO_TYPES = {"graphql", "binary", "franca"}


def opts(rng, fmt):
    raw = []

    def maybe(*a, p=0.5):
        if rng.random() < p:
            raw.extend(a)

    if fmt in ("binary", "csv", "ddsidl", "franca", "id", "json", "jsonschema", "yaml", "apigear"):
        maybe("--uuid")
    if fmt in ("csv", "id", "json", "jsonschema", "yaml", "tree"):
        maybe("--no-expand")
    if fmt in ("json", "jsonschema", "yaml"):
        maybe("--extend-all-attributes")
    maybe("--extended-attributes", rng.choice(["zzz", "owner", "source,zzz"]))
    if fmt == "ddsidl":
        maybe("--all-idl-features")
    if fmt == "protobuf":
        maybe("--add-optional")
    if fmt == "tree":
        raw.extend(x for a in rng.sample(["zzz", "owner", "fka", "description", "min"], rng.randint(0, 3)) for x in ("--attr", a))
    if fmt == "samm":
        maybe("--split")
    if fmt == "graphql":
        maybe("-g", "source,Source")
    return raw


def argv(fmt, d, name, kw, raw):
    o = ["--output", str(d / name)]
    if fmt == "apigear":
        o = ["--output-dir", str(d / name)]
    elif fmt == "samm":
        o = ["--target-folder", str(d / name)]
    elif fmt == "protobuf":
        o = ["--output", str(d / name / "v.proto"), "--types-out-dir", str(d / name / "types")]
    return ["export", fmt, "--vspec", str(d / "root.vspec")] + o + cli_args(d, kw) + raw


def content(p: Path):
    if p.is_dir():
        return {str(x.relative_to(p)): x.read_bytes() for x in sorted(p.rglob("*")) if x.is_file()}
    return {"": p.read_bytes()} if p.exists() else None


def batch(ctx, rng, n):
    jobs = []
    for _ in range(n):
        fmt = rng.choice(FORMATS)
        m = model(rng, types=0 if fmt in NO_TYPES else 0.9 if fmt == "protobuf" else 0.6, extras=gen.EXTRAS, simple=True, explicit=rng.random() < 0.3, numeric=fmt != "protobuf",
                  dup=rng.random() < 0.7)
        d = ctx.newdir()
        write_files(d, m.files)
        (d / "p").mkdir()
        (d / "q").mkdir()
        raw = opts(rng, fmt)
        kw = dict(m.kw)
        if fmt == "csv" and "types" in kw and rng.random() < 0.5:
            raw = raw + ["--types-output"]
        jobs.append((fmt, m, d, kw, raw))

    def run(name, seed, twice=False):
        spec = []
        for fmt, m, d, kw, raw in jobs:
            def a(nm):
                r = raw
                if r and r[-1] == "--types-output":
                    r = r + [str(d / (nm + ".types"))]
                if fmt == "protobuf":
                    (d / nm).mkdir(exist_ok=True)
                return argv(fmt, d, nm, kw, r)
            spec.append({"argvs": ([a(name + "0"), a(name)] if twice else [a(name)])})
        jf = ctx.newdir()
        (jf / "jobs").write_text(json.dumps(spec))
        env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONPATH=f"{Path(__file__).parent.parent}")
        p = subprocess.run([sys.executable, "-m", "oracles.det_child", str(jf / "jobs"), str(jf / "out")], env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=600)
        if p.returncode != 0:
            raise RuntimeError(p.stderr[-2000:])
        return json.loads((jf / "out").read_text())

    s = rng.sample(range(1, 4000), 2)
    runs = [("a", run("a", 0)), ("b", run("b", s[0])), ("c", run("c", s[1], twice=True))]
    # over an existing output; the output of another export is there
    for fmt, m, d, kw, raw in jobs:
        if fmt not in ("apigear",) and (d / "a").exists():
            if (d / "a").is_dir():
                shutil.copytree(d / "a", d / "d")
            else:
                (d / "d").write_bytes((d / "a").read_bytes() * 2 + b"garbage")
                if (d / "a.types").exists():
                    (d / "d.types").write_bytes(b"garbage" * 10)
    runs.append(("d", run("d", s[0])))
    for i, (fmt, m, d, kw, raw) in enumerate(jobs):
        inp = {"format": fmt, "files": m.files, "options": [kw, raw], "hash seeds": [0] + s}
        ctx.count(inp, nontrivial=runs[0][1][i] == "ok", part=fmt)
        res = {}
        for nm, r in runs:
            c = content(d / nm)
            if isinstance(c, dict):
                t = content(d / (nm + ".types"))
                c = dict(c, **({"types": t[""]} if t else {}))
            ok = r[i] if r[i] == "ok" else "fails"
            res[nm] = (ok, c if ok == "ok" else None)
        ref = res["a"]
        for nm, _ in runs[1:]:
            what = {"b": "another hash seed", "c": "an earlier export in the same process", "d": "an existing output file"}[nm]
            if res[nm] != ref:
                dd = first_diff(ref, res[nm])
                ctx.violation(f"the {fmt} export differs with {what}", {"input": inp, "observed": dd, "status": [r[i] for _, r in runs]})
        ctx.clean(d)


def first_diff(a, b):
    if a[0] != b[0] or not a[1] or not b[1]:
        return [a[0], b[0], sorted(a[1] or {}), sorted(b[1] or {})]
    for k in sorted(set(a[1]) | set(b[1])):
        x, y = a[1].get(k), b[1].get(k)
        if x != y:
            if x is None or y is None:
                return [k, x is None, y is None]
            i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            return [k, x[max(0, i - 80):i + 80].decode("utf-8", "replace"), y[max(0, i - 80):i + 80].decode("utf-8", "replace")]


def run(ctx):
    first = [True]

    def body(r):
        batch(ctx, r, 14 if first[0] else 40)
        first[0] = False

    ctx.loop(1.0, body, min_n=1)
