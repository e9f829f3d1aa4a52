"""Writes and confirms planted bugs: python3 tools/seed.py SEEDFILE [ids...]

SEEDFILE defines SEEDS = [dict(id, prop, file, edits=[(old, new)], demo, needs, breaks)].
Confirmed in a scratch copy of /repo: patch applies, tests pass, demo 0 without and nonzero with it.
"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

OUT = Path("/verif/seeded")
PRE = '''import os, sys, tempfile, json, shutil, atexit, io, contextlib, logging
from pathlib import Path
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
D = Path(tempfile.mkdtemp())
atexit.register(shutil.rmtree, str(D), True)


def write(name, text):
    p = D / name
    p.parent.mkdir(parents=True, exist_ok=True)
    p.write_text(text)
    return p


def load(vspec, **kw):
    """get_trees on the files of the scratch directory -> (root, types), or None if the model is rejected"""
    from vss_tools.vspec.main import get_trees
    kw = {k: tuple(D / x for x in v) if k in ("include_dirs", "quantities", "units", "types", "overlays") else v for k, v in kw.items()}
    try:
        return get_trees(D / vspec, **kw)
    except (SystemExit, Exception) as e:
        load.error = e
        return None


def node(root, fqn):
    return root.get_node_with_fqn(fqn)


def run(*argv):
    """vspec <argv> -> exit code"""
    from vss_tools.vspec.cli import cli
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            cli.main(args=[str(a) for a in argv], standalone_mode=True, prog_name="vspec")
    except SystemExit as e:
        return e.code or 0
    except Exception as e:
        run.error = e
        return 99
    return 0


def check(cond, *what):
    if not cond:
        print("FAIL", *what)
        sys.exit(1)

'''
SH = '''#!/bin/bash
exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=env)


def one(s):
    d = OUT / s["id"]
    w = Path(f"/tmp/seedw-{s['id']}")
    shutil.rmtree(w, ignore_errors=True)
    try:
        subprocess.run(["cp", "-a", "/repo", str(w)], check=True)
        edits = s["edits"] if isinstance(s["edits"][0], (tuple, list)) and len(s["edits"][0]) == 3 else [(s["file"], a, b) for a, b in s["edits"]]
        for f, a, b in edits:
            p = w / "src/vss_tools/vspec" / f if not f.startswith("/") else w / f[1:]
            t = p.read_text()
            if t.count(a) != 1:
                return s["id"], f"edit: {t.count(a)} matches of {a!r}"
            p.write_text(t.replace(a, b))
        diff = sh("git diff", w).stdout
        for f, a, b in edits:
            rel = "src/vss_tools/vspec/" + f if not f.startswith("/") else f[1:]
            base = sh(f"git show 363c700:{rel}", w).stdout.splitlines()
            cur = [x[1:] for x in sh(f"git diff -U0 {rel}", w).stdout.splitlines() if x.startswith("-") and not x.startswith("---")]
            own = [x for x in cur if x.strip() and x not in base]
            if own or not cur:
                return s["id"], f"no original line, or own lines: {own}"
        d.mkdir(parents=True, exist_ok=True)
        (d / "patch.diff").write_text(diff)
        (d / "demo.sh").write_text(s.get("sh") or SH)
        os.chmod(d / "demo.sh", 0o755)
        if s.get("demo"):
            (d / "demo.py").write_text((PRE if s.get("pre", True) else "") + s["demo"].strip() + "\n")
        for n, c in s.get("files", {}).items():
            (d / n).write_text(c)
        (d / "meta.json").write_text(json.dumps({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
        ok = sh(f"bash {d}/demo.sh", "/repo")
        if ok.returncode != 0:
            return s["id"], "demo fails on the unchanged tree: " + (ok.stdout + ok.stderr)[-700:]
        bad = sh(f"bash {d}/demo.sh", w)
        if bad.returncode == 0:
            return s["id"], "demo passes with the patch"
        # tests run against this copy
        env = dict(os.environ, PYTHONPATH=str(w / "src"))
        t = sh(". /opt/vss/env.sh >/dev/null 2>&1; cd %s; PYTHONPATH=%s/src PATH=/opt/venv/bin:$PATH /opt/venv/bin/python -B -m pytest -q -p no:cacheprovider -n 3 tests --ignore=tests/backward_compatibility 2>&1 | tail -5" % (w, w), w, env)
        last = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr
        if "failed" in t.stdout or "error" in last or "196 passed" not in t.stdout:
            return s["id"], "tests: " + t.stdout[-700:]
        return s["id"], "ok: " + (bad.stdout + bad.stderr).strip().splitlines()[-1][:150]
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    ns = {}
    exec(Path(sys.argv[1]).read_text(), ns)
    want = sys.argv[2:]
    seeds = [s for s in ns["SEEDS"] if not want or s["id"] in want]
    with ThreadPoolExecutor(4) as ex:
        for i, r in ex.map(one, seeds):
            print(i, r, flush=True)
            if not r.startswith("ok"):
                shutil.rmtree(OUT / i, ignore_errors=True)


if __name__ == "__main__":
    main()
