"""Contracts on the C reader, discharged by CBMC (dynamic frame condition checking, or a harness that asserts the postcondition)."""
import os
import re
import shutil
import subprocess
import tempfile
import time
from pathlib import Path

HERE = Path(__file__).resolve().parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
DIR = REPO / "binary" / "c_parser"
BACK = "CBMC 6.11 (SAT)"


def sh(args, limit):
    try:
        r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        return None, "time limit"
    return r.returncode, r.stdout


def verify(con, timeout, budget):
    from pyvc.runner import Result

    res = Result(con.target)
    t0 = time.time()
    d = Path(tempfile.mkdtemp(prefix="cbmc-"))
    try:
        attempt(con, res, d, max(60, 4 * budget))
    finally:
        shutil.rmtree(str(d), ignore_errors=True)
    res.wall = res.solver_s = time.time() - t0
    return res


def attempt(con, res, d, limit):
    f, kind, unwind = con.native
    main = f"main_{f}"
    for reach in (True, False):
        g = d / "a.gb"
        rc, out = sh(["goto-cc", "-I", str(DIR), f'-DREADER="{DIR / "cparserlib.c"}"'] + ["-DREACH"] * reach + ["--function", main, str(HERE / "contracts.c"), "-o", str(g)], 60)
        if rc != 0:
            res.reason = f"goto-cc: {out[-600:]}"
            return
        if kind == "contract":
            rc, out = sh(["goto-instrument", "--nondet-static-exclude", "validationMatrix", "--dfcc", main, "--enforce-contract", f, str(g), str(d / "b.gb")], 60)
            if rc != 0:
                res.reason = f"goto-instrument: {out[-600:]}"
                return
            g = d / "b.gb"
        opts = ["--no-standard-checks"] if reach else ["--bounds-check", "--pointer-check", "--unwinding-assertions", "--trace"]
        rc, out = sh(["cbmc", str(g), "--unwind", str(unwind), "--object-bits", "10"] + opts, limit)
        res.queries += 1
        if rc is None:
            res.reason = "cbmc: time limit"
            return
        if reach:
            if not re.search(r"^\[.*\] .* reached: FAILURE$", out, re.M):
                res.reason = "the end of the harness is not reachable (vacuous) or cbmc failed: " + out[-600:]
                return
            continue
        found = re.findall(r"^\[(\S+)\] (.*): (SUCCESS|FAILURE)$", out, re.M)
        bad = [(n, w) for n, w, r in found if r == "FAILURE"]
        mine = [(n, w, r) for n, w, r in found if f"main_{f}." in n or n.startswith(f + ".") or r == "FAILURE"]
        res.obligations = [(f"{f}: {n}: {w}", r == "SUCCESS") for n, w, r in (mine or found)]
        if not found or rc not in (0, 10):
            res.reason = "cbmc: " + out[-600:]
            return
        if bad and all("unwind" in n for n, _ in bad):
            res.reason = "a loop runs further than the bound of the harness"
            return
        if bad:
            real = [(n, w) for n, w in bad if "unwind" not in n]
            res.status, res.failed = "failed", f"{f}: {real[0][0]}: {real[0][1]}"
            res.reason = "cbmc: " + "; ".join(f"{n}: {w}" for n, w in real[:5])
            res.model = {"trace": trace(out)}
            return
        res.status = "proved"
    writes = globals_written(d)
    ok = not writes
    res.obligations.append(("validationMatrix is never written", ok))
    if not ok:
        res.status, res.failed, res.reason = "failed", res.obligations[-1][0], f"written in {writes}"


def globals_written(d):
    rc, out = sh(["cbmc", str(d / "a.gb"), "--show-goto-functions"], 60)
    cur, hits = "", []
    for ln in out.splitlines():
        m = re.match(r"^(\S+) /\* (\S+) \*/$", ln)
        if m:
            cur = m.group(1)
        elif re.search(r"ASSIGN validationMatrix\b|ADDRESS_OF\(validationMatrix", ln) and "initialize" not in cur:
            hits.append(cur)
    return sorted(set(hits))


def trace(out):
    """the last values of the harness's variables in the first counterexample"""
    i = out.find("Trace for ")
    vals = {}
    for m in re.finditer(r"^  ([A-Za-z_][\w.\[\]]*)=(.*?)(?: \([01 ]+\))?$", out[i:i + 200000], re.M):
        if not m.group(1).startswith("__CPROVER"):
            vals[m.group(1)] = m.group(2)[:200]
    return dict(list(vals.items())[-40:])
