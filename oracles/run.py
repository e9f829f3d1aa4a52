"""python -m oracles.run PROP SEED TIER BUDGET OUT [known-keys-json]

Runs the bounded oracle of one property in several worker processes and writes
the merged result as JSON."""
from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import traceback
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
if str(ROOT) not in sys.path:
    sys.path.insert(0, str(ROOT))

import known as known_findings  # noqa: E402
from oracles import cliopts, common  # noqa: E402


def worker(args):
    prop, seed, tier, budget, known, widx, nw, state = args
    common.quiet()
    os.environ["PYTHONHASHSEED"] = "0"
    ctx = common.Ctx(prop, f"{seed}-{widx}", tier, budget, known)
    ctx.widx, ctx.nw, ctx.state = widx, nw, state
    err = None
    try:
        if widx == 0:
            cliopts.run(ctx)
        mod = importlib.import_module(f"oracles.{prop}")
        mod.run(ctx)
    except common.Violation:
        pass
    except Exception:
        err = traceback.format_exc()
    finally:
        ctx.close()
    return {
        "evaluations": ctx.evaluations,
        "seen": [h.hex() for h in ctx.seen],
        "samples": ctx.samples,
        "violations": ctx.violations,
        "known_hit": ctx.known_hit,
        "notes": ctx.notes,
        "parts": ctx.parts,
        "error": err,
    }


def main():
    prop, seed, tier, budget, out = sys.argv[1:6]
    known = json.loads(sys.argv[6]) if len(sys.argv) > 6 else list(known_findings.known(prop))
    nw = int(os.environ.get("ORACLE_WORKERS", "6"))
    try:
        prepare = getattr(importlib.import_module(f"oracles.{prop}"), "prepare", None)
    except Exception:
        prepare = None  # reported by the workers
    tmp = Path(tempfile.mkdtemp(prefix=f"orcp-{prop}-"))
    try:
        state = prepare(tmp) if prepare else None
        jobs = [(prop, int(seed), tier, float(budget), known, i, nw, state) for i in range(nw)]
        with mp.get_context("fork").Pool(nw, maxtasksperchild=1) as p:
            res = p.map(worker, jobs, chunksize=1)
    finally:
        shutil.rmtree(str(tmp), ignore_errors=True)
    seen = set()
    m = {"evaluations": 0, "samples": [], "violations": [], "known_hit": {}, "notes": [], "parts": {}, "errors": []}
    for r in res:
        m["evaluations"] += r["evaluations"]
        seen.update(r["seen"])
        m["samples"] += r["samples"][: max(1, 6 // nw)]
        m["violations"] += r["violations"]
        m["known_hit"].update(r["known_hit"])
        for n in r["notes"]:
            if n not in m["notes"]:
                m["notes"].append(n)
        for k, v in r["parts"].items():
            m["parts"][k] = m["parts"].get(k, 0) + v
        if r["error"]:
            m["errors"].append(r["error"])
    m["distinct"] = len(seen)
    m["samples"] = m["samples"][:8]
    Path(out).write_text(json.dumps(m, default=repr))


if __name__ == "__main__":
    main()
