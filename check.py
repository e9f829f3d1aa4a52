#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Deductive part: every contract of the property is proved against the functions of /repo's current tree (pyvc + z3).
Bounded part: the property's oracle (oracles/<id>.py) runs the real code on generated inputs.

exit 0: held on everything decided;  exit 1 + VIOLATION line: broken.
"""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
OUTD = Path(os.environ.get("VERIF_OUT", str(VERIF)))
VENV = "/opt/venv/bin/python"
sys.dont_write_bytecode = True
sys.path[:0] = [str(VERIF), str(REPO / "src")]
sys.path.append("/opt/venv/lib/python3.12/site-packages")
sys.setrecursionlimit(20000)

import known as known_findings  # noqa: E402

WORKERS = int(os.environ.get("VERIF_WORKERS", "4"))
ORACLE_WORKERS = int(os.environ.get("ORACLE_WORKERS", "5"))
QUICK_ORACLE = float(os.environ.get("QUICK_ORACLE", "22"))
THOROUGH_ORACLE = float(os.environ.get("THOROUGH_ORACLE", "420"))


# ---------------------------------------------------------------- deductive


_ENV = None


def prove(job):
    """one contract in this (forked) process"""
    key, timeout, budget, search = job
    from pyvc import runner

    t0 = time.time()
    out = {"target": key, "status": "unsupported", "reason": "", "obligations": [], "failed": None, "queries": 0, "solver_s": 0.0,
           "assumed": [], "inlined": [], "model": None, "witness": None, "unreached": [], "bounded": "", "pre": []}
    try:
        con = next(c for c in list(_ENV.contracts.values()) + _ENV.external if ident(c) == key.removeprefix(DET))
        if key.startswith(DET):
            from pyvc import order

            r = order.verify(_ENV, con, timeout=timeout, budget=budget)
        elif con.run is not None:
            r = con.run(con, timeout, budget)
            out["back_end"] = "CBMC 6.11"
        else:
            r = runner.verify(_ENV, con, timeout=timeout, budget=budget)
            if r.status != "proved" and r.timeouts:  # the solver gave up somewhere: once more, with more time
                r2 = runner.verify(_ENV, con, timeout=4 * timeout, budget=2 * budget)
                if r2.status != "unsupported":
                    r = r2
        out.update(status=r.status, reason=r.reason, obligations=r.obligations, failed=r.failed, queries=r.queries,
                   solver_s=r.solver_s, assumed=r.assumed, inlined=r.inlined, model=r.model, unreached=r.unreached,
                   bounded=getattr(con, "bounded", ""), pre=sorted(_ENV.used))
        if r.status == "failed" and not key.startswith(DET) and con.run is None:
            try:
                from pyvc import replay

                out["witness"] = replay.search(con, r.model, search)
            except Exception:
                out["reason"] += "\nreplay: " + traceback.format_exc()[-600:]
    except Exception:
        out["status"] = "unsupported"
        out["reason"] = "engine: " + traceback.format_exc()[-900:]
    out["wall"] = round(time.time() - t0, 2)
    return out


DET = "determinism of "


def ident(c):
    return f"{c.target}" + (f" ~ {c.note}" if c.note else "")


def deductive(prop, tier):
    global _ENV
    from specs import registry

    try:
        _ENV, missing = registry.build()
    except Exception:
        return None, [], "contracts could not be set up: " + traceback.format_exc()[-1500:]
    cons = [c for c in list(_ENV.contracts.values()) + _ENV.external if prop in c.props and c.check]
    miss = [{"target": ident(c), "reason": why} for c, why in missing if prop in c.props]
    timeout, budget = (4000, 90) if tier == "quick" else (15000, 240)
    names = [ident(c) for c in cons]
    if prop == "C26":  # every function under contract: the outcome is a function of the inputs alone
        names += [DET + ident(c) for c in _ENV.contracts.values() if c.check and c.run is None]
    jobs = [(n, timeout, budget, 4 if tier == "quick" else 20) for n in names]
    if not jobs:
        return [], miss, ""
    res = []
    ctx = mp.get_context("fork")
    with ctx.Pool(min(WORKERS, len(jobs)), maxtasksperchild=1) as pool:
        hs = [(j, pool.apply_async(prove, (j,))) for j in jobs]
        end = time.time() + (300 if tier == "quick" else 700)
        for j, h in hs:
            try:
                res.append(h.get(timeout=max(1, end - time.time())))
            except mp.TimeoutError:
                res.append({"target": j[0], "status": "unsupported", "reason": "time limit", "obligations": [], "failed": None, "queries": 0,
                            "solver_s": 0.0, "assumed": [], "inlined": [], "model": None, "witness": None, "wall": budget})
            except Exception as e:
                res.append({"target": j[0], "status": "unsupported", "reason": repr(e), "obligations": [], "failed": None, "queries": 0,
                            "solver_s": 0.0, "assumed": [], "inlined": [], "model": None, "witness": None, "wall": 0})
        pool.terminate()
    return res, miss, ""


# ---------------------------------------------------------------- bounded


def oracle_start(prop, seed, tier, budget, out):
    if not (VERIF / "oracles" / f"{prop}.py").exists():
        return None
    env = dict(os.environ, ORACLE_WORKERS=str(ORACLE_WORKERS), PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=str(REPO))
    env.pop("PYTHONPATH", None)
    return subprocess.Popen([VENV, "-m", "oracles.run", prop, str(seed), tier, str(budget), str(out)], cwd=VERIF, env=env,
                            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)


def oracle_wait(p, out, limit):
    if p is None:
        return None
    try:
        _, err = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return {"errors": ["time limit"], "evaluations": 0, "distinct": 0, "samples": [], "violations": [], "known_hit": {}, "parts": {}, "notes": []}
    try:
        return json.loads(Path(out).read_text())
    except Exception:
        return {"errors": [err.decode(errors="replace")[-2000:]], "evaluations": 0, "distinct": 0, "samples": [], "violations": [], "known_hit": {},
                "parts": {}, "notes": []}


# ---------------------------------------------------------------- main


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--no-oracle", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    t0 = time.time()
    scratch = Path(os.environ.get("TMPDIR", "/tmp")) / f"verif-{prop}-{os.getpid()}"
    scratch.mkdir(parents=True, exist_ok=True)
    os.environ["TMPDIR"] = str(scratch)
    try:
        code = run(a, prop, tier, t0, scratch)
    finally:
        shutil.rmtree(str(scratch), ignore_errors=True)
    sys.exit(code)


def run(a, prop, tier, t0, scratch):
    budget = QUICK_ORACLE if tier == "quick" else THOROUGH_ORACLE
    out = scratch / "oracle.json"
    proc = None if a.no_oracle else oracle_start(prop, a.seed, tier, budget, out)
    ded, missing, dederr = deductive(prop, tier)
    orc = oracle_wait(proc, out, budget + 240)
    failed = [r for r in ded or [] if r["status"] == "failed"]
    if orc is not None and not orc["violations"] and any(not r["witness"] for r in failed):
        # an obligation fails without an input of its own: look longer for one at the level of the property
        p2 = oracle_start(prop, a.seed + 7919, tier, budget * 2, out)
        orc2 = oracle_wait(p2, out, budget * 2 + 240)
        for k in ("violations", "errors"):
            orc[k] += orc2[k]
        orc["evaluations"] += orc2["evaluations"]
        orc["distinct"] += orc2["distinct"]
    rep = OUTD / "replays"
    rep.mkdir(parents=True, exist_ok=True)
    for old in rep.glob(f"{prop}-*"):
        old.unlink()
    lines = []

    def report(doc, suffix=""):
        txt = json.dumps(doc, indent=1, default=repr)
        p = rep / f"{prop}-{hashlib.sha1(txt.encode('utf-8', 'replace')).hexdigest()[:10]}.json"
        p.write_text(txt)
        lines.append(f"VIOLATION property={prop} replay={p}{suffix}")

    seen = set()
    for v in (orc or {}).get("violations", []):
        if v["what"] in seen:
            continue
        seen.add(v["what"])
        report({"property": prop, "kind": "observed on the real code", "what": v["what"], "detail": v["detail"],
                "seed": a.seed, "tier": tier, "how": f"{VENV} -m oracles.run {prop} {a.seed} {tier} {budget} OUT (cwd /verif)"})
    for r in failed:
        if r["witness"]:
            report({"property": prop, "kind": "failed obligation, replayed on the real function", "function": r["target"],
                    "obligation": r["failed"], "verifier": r["reason"], "input": r["witness"]})
    quiet = not lines
    for r in failed:
        if not r["witness"] and quiet:
            report({"property": prop, "kind": "failed obligation", "function": r["target"], "obligation": r["failed"],
                    "verifier": r["reason"], "solver model": r["model"]}, " no-failing-input-found")
    for k, what in (orc or {}).get("known_hit", {}).items():
        print(f"KNOWN-FINDING: property={prop} {known_findings.known(prop).get(k, what)}")
    evidence(a, prop, tier, ded, missing, dederr, orc, lines, time.time() - t0)
    for ln in lines:
        print(ln)
    if a.v:
        for r in ded or []:
            print(f"  {r['status']:<11} {r['target']:<90} {len(r['obligations'])} obligations {r['wall']} s {r['reason'][:300] if r['status'] != 'proved' else ''}")
        if orc:
            print("  oracle", orc["evaluations"], orc["parts"], orc["errors"][:1])
        print("  missing", missing, dederr)
    else:
        np_ = sum(r["status"] == "proved" for r in ded or [])
        print(f"{prop}: {np_}/{len(ded or []) + len(missing)} contracts proved, {(orc or {}).get('evaluations', 0)} bounded evaluations, {len(lines)} violations")
    return 1 if lines else 0


def evidence(a, prop, tier, ded, missing, dederr, orc, lines, wall):
    from specs import notes

    proved = [r for r in ded or [] if r["status"] == "proved" and not r.get("bounded")]
    within = [r for r in ded or [] if r["status"] == "proved" and r.get("bounded")]
    other = [r for r in ded or [] if r["status"] != "proved"]
    full = [r for r in ded or [] if not r.get("bounded")]
    obl = sum(len(r["obligations"]) for r in full)
    dis = sum(sum(1 for _, ok in r["obligations"] if ok) for r in full)
    level = notes.LEVEL.get(prop, "exploration")
    if level == "proof" and (other or missing or dederr):
        level = "exploration"  # something this property rests on is undecided in this run
    unproved = [ident(c) for c in (_ENV.contracts.values() if _ENV else []) if prop in c.props and not c.check]
    cov = {
        "obligations": obl,
        "discharged": dis,
        "checker_cmd": f"python3-vt /verif/check.py {prop} --tier {tier}",
        "trusted_base": notes.TRUSTED,
        "functions_under_contract": [
            {"function": r["target"], "obligations": len(r["obligations"]), "back_end": r.get("back_end", "pyvc + z3"),
             "queries": r["queries"], "solver_s": round(r["solver_s"], 2), "executed_inline": r["inlined"]} for r in proved],
        "undecided_contracts": [{"function": r["target"], "status": r["status"], "reason": r["reason"][:500]} for r in other]
        + [{"function": m["target"], "status": "missing", "reason": m["reason"]} for m in missing],
        "statements_reached_by_no_path": {r["target"]: r["unreached"] for r in proved if r.get("unreached")},
        "contracts_used_but_not_proved": unproved,
        "bounded_functions": [{"function": r["target"], "obligations": len(r["obligations"]), "back_end": r.get("back_end", "")} for r in within],
        "solver_s": round(sum(r["solver_s"] for r in ded or []), 2),
    }
    if dederr:
        cov["undecided_contracts"].append({"function": "*", "status": "error", "reason": dederr})
    if orc is not None:
        cov.update({
            "evaluations": orc["evaluations"],
            "distinct_nontrivial": orc["distinct"],
            "rule": "BOUNDED (not counted as proved): " + notes.RULE.get(prop, "random models, distinct inputs"),
            "samples": orc["samples"] or ["(none)"],
            "bounded_parts": orc["parts"],
            "bounded_errors": orc["errors"][:3],
        })
    cov["explanation"] = notes.explain(prop)
    assumed = sorted({x for r in ded or [] for x in r["assumed"]})
    pre = sorted({x for r in ded or [] for x in r.get("pre", [])})
    ev = {"property": prop, "tier": tier, "seed": a.seed, "level": level, "coverage": cov,
          "assumptions": notes.ASSUMPTIONS + [f"contract or library model used: {x}" for x in assumed] + [f"assumed: {x}" for x in pre], "wall_s": round(wall, 2), "violations": len(lines)}
    d = OUTD / "evidence"
    d.mkdir(parents=True, exist_ok=True)
    (d / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=repr))


if __name__ == "__main__":
    main()
