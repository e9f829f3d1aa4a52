"""python3 tools/run_seeds.py [-j N] [ids or properties...]: the check of each planted bug's property against a copy with the bug."""
import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

S = Path("/verif/seeded")
args = sys.argv[1:]
j = 2
if args[:1] == ["-j"]:
    j = int(args[1])
    args = args[2:]
tier = "quick"


def one(i):
    w = Path(f"/tmp/rs-{i}")
    shutil.rmtree(w, ignore_errors=True)
    try:
        subprocess.run(["cp", "-a", "/repo", str(w)], check=True)
        subprocess.run(["git", "apply", str(S / i / "patch.diff")], cwd=w, check=True)
        prop = json.loads((S / i / "meta.json").read_text())["property"]
        env = dict(os.environ, VERIF_REPO=str(w), VERIF_OUT=str(w / "_out"), VERIF_WORKERS="3", ORACLE_WORKERS="4")
        t = time.time()
        p = subprocess.run(["python3-vt", "check.py", prop, "--tier", tier] + (["--no-oracle"] if os.environ.get("NO_ORACLE") else []), cwd="/verif", env=env, capture_output=True, text=True)
        vs = [x for x in p.stdout.splitlines() if x.startswith("VIOLATION")]
        kinds = []
        for f in (w / "_out/replays").glob("*.json"):
            d = json.loads(f.read_text())
            kinds.append((d["kind"][:22] + ": " + str(d.get("what") or d.get("function") + " " + str(d.get("obligation"))))[:110])
        nf = sum("no-failing" in v for v in vs)
        return i, prop, p.returncode, f"{time.time()-t:.0f}s", f"nfif={nf}" if nf else "", kinds[:3], p.stderr[-300:] if p.returncode not in (0, 1) else ""
    finally:
        shutil.rmtree(w, ignore_errors=True)


ids = sorted(d.name for d in S.iterdir() if (d / "patch.diff").exists())
if args:
    ids = [i for i in ids if i in args or json.loads((S / i / "meta.json").read_text())["property"] in args]
RES = Path("/verif/seeded-results.txt")  # read by tools/gen_design.py
with ThreadPoolExecutor(j) as ex:
    for r in ex.map(one, ids):
        print("CAUGHT" if r[2] == 1 else "MISSED", *r, flush=True)
        if not os.environ.get("NO_ORACLE"):
            have = dict(x.split(None, 1) for x in RES.read_text().splitlines()) if RES.exists() else {}
            how = "; ".join(sorted({"oracle" if k.startswith("observed") else "obligation, with input" if "replayed" in k else "obligation" for k in r[5]}))
            have[r[0]] = f"{how or 'not found'} ({r[5][0].split(': ', 1)[1][:80].replace('|', '/')})" if r[5] else "not found"
            RES.write_text("".join(f"{k} {v}\n" for k, v in sorted(have.items())))
