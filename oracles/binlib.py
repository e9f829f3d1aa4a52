"""Builds the drivers of the C and Go readers from the current tree and runs them."""
import json
import os
import shutil
import subprocess
from pathlib import Path

from .common import REPO, Undecided

HERE = Path(__file__).resolve().parent / "native"
TYPES = {1: "sensor", 2: "actuator", 3: "attribute", 4: "branch", 5: "struct", 6: "property"}


def prepare(tmp: Path):
    src = REPO / "binary"
    c = tmp / "cdrive"
    r = subprocess.run(
        ["cc", "-g", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", f"-I{src / 'c_parser'}", str(HERE / "drive.c"),
         str(src / "c_parser/cparserlib.c"), "-o", str(c)],
        capture_output=True, text=True,
    )
    if r.returncode:
        raise Undecided("the C reader does not build: " + r.stderr[-800:])
    g = tmp / "go"
    shutil.copytree(src / "go_parser", g)
    (g / "testparser.go").unlink()
    shutil.copy(HERE / "drive.go.txt", g / "drive.go")
    env = dict(os.environ, GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="-mod=readonly -buildvcs=false")
    cache = Path("/opt/vss/gocache")
    own = tmp / "gocache"
    if cache.is_dir():
        shutil.copytree(cache, own)
    env["GOCACHE"] = str(own)
    r = subprocess.run(["go", "build", "-o", str(tmp / "godrive"), "drive.go"], cwd=g, env=env, capture_output=True, text=True)
    if r.returncode:
        raise Undecided("the Go reader does not build: " + r.stderr[-800:])
    return {"c": str(c), "go": str(tmp / "godrive")}


def unhex(s):
    return bytes.fromhex(s[1:])


def drive(exe, d: Path, commands):
    """-> (None, results) or (reason, None)"""
    (d / "cmds").write_text("\n".join(commands) + "\n")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", UBSAN_OPTIONS="halt_on_error=1")
    try:
        r = subprocess.run([exe, str(d / "cmds"), str(d / "res")], capture_output=True, timeout=60, cwd=d, env=env)
    except subprocess.TimeoutExpired:
        return "timeout", None
    if r.returncode:
        return "crash: " + r.stderr.decode("utf-8", "replace")[:1500], None
    out = []
    cur = None
    for ln in (d / "res").read_text().split("\n"):
        f = ln.split()
        if not f:
            continue
        if f[0] == "N":
            cur = [] if cur is None else cur
            n = int(f[13])
            cur.append(
                {
                    "depth": int(f[1]), "type": TYPES.get(int(f[2]), f[2]), "children": int(f[3]), "validate": int(f[4]),
                    "name": unhex(f[5]), "uuid": unhex(f[6]), "description": unhex(f[7]), "datatype": unhex(f[8]), "unit": unhex(f[9]),
                    "min": unhex(f[10]), "max": unhex(f[11]), "default": unhex(f[12]), "allowed": [unhex(x) for x in f[14:14 + n]],
                    "parent_ok": f[14 + n] == "1",
                }
            )
        elif f[0] == "BADPARENT":
            cur.append({"bad": "parent"})
        elif f[0] == "END":
            out.append(cur)
            cur = None
        elif f[0] == "S":
            xs = [unhex(x) for x in f[3:]]
            out.append({"n": int(f[1]), "validation": int(f[2]), "paths": [x.decode() for x in xs[::2]], "names": [x.decode() for x in xs[1::2]]})
        elif f[0] in "LU":
            out.append(int(f[1]))
    return None, out
