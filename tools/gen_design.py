"""Fill the generated parts of DESIGN.md: contracts per property, functions outside, planted bugs (results of tools/run_seeds.py in /verif/seeded-results.txt)."""
import ast
import json
import re
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path[:0] = [str(V), "/repo/src"]
sys.path.append("/opt/venv/lib/python3.12/site-packages")
sys.setrecursionlimit(20000)
from specs import notes, registry  # noqa: E402

env, missing = registry.build()
short = lambda t: t.replace("vss_tools.vspec.", "").replace("vssexporters.", "")
out = []
for ln in (V / "properties.jsonl").read_text().splitlines():
    p = json.loads(ln)
    i = p["id"]
    lv, proved, bounded, rule = notes.PROP[i]
    out += [f"### {i} {p['title']} — {lv}", "", f"*Proved for all inputs:* {proved}.", "", f"*Bounded oracle only:* {bounded}. Cases: {rule}.", ""]
    rows = {}
    for c in list(env.contracts.values()) + env.external:
        if i in c.props:
            m, q = c.target.rsplit(":", 1)
            rows.setdefault(short(m), []).append(f"`{q}`" + (f" → `{c.spec.__name__}`" if c.spec is not None and c.spec.__name__ != q else "")
                                                 + (" (recursive specification function: frame only)" if m.startswith("specs.") else "" if c.check else " (assumed)") + (" (bounded)" if getattr(c, "bounded", "") else ""))
    if i == "C26":
        out += [f"*Contracts:* the determinism obligations of all {sum(c.check for c in env.contracts.values())} functions under contract.", ""]
    if rows:
        out += ["*Contracts:* " + "; ".join(f"{m}: " + ", ".join(r) for m, r in rows.items()) + ".", ""]
props = "\n".join(out)

have = {c.target for c in env.contracts.values()}
rows = []
for f in sorted((Path("/repo/src")).rglob("*.py")):
    m = ".".join(f.relative_to("/repo/src").with_suffix("").parts)

    def go(n, q):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.FunctionDef):
                yield q + c.name
            elif isinstance(c, ast.ClassDef):
                yield from go(c, q + c.name + ".")
            elif not isinstance(c, ast.expr):
                yield from go(c, q)

    no = [q for q in go(ast.parse(f.read_text()), "") if f"{m}:{q}" not in have]
    if no:
        rows.append(f"* {short(m)}: " + ", ".join(no))
outside = "\n".join(["Functions that are executed inline inside the proofs of their callers (constructors, small helpers) or by the oracles only:", ""] + rows
                    + ["", "Assumed contracts: " + (", ".join(f"`{short(c.target)}`" for c in env.contracts.values() if not c.check) or "none") + "."])

res = {}
rf = V / "seeded-results.txt"
if rf.exists():
    for ln in rf.read_text().splitlines():
        a = ln.split(None, 1)
        if len(a) == 2:
            res[a[0]] = a[1]
tab = ["| bug | property | what it needs | found by |", "|---|---|---|---|"]
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    tab.append(f"| {d.name} | {m['property']} | {m['needs']} | {res.get(d.name, '?')} |")

t = (V / "DESIGN.md").read_text()
for name, body in (("properties", props), ("outside", outside), ("seeds", "\n".join(tab))):
    t = re.sub(rf"(<!-- BEGIN {name} -->\n).*?(<!-- END {name} -->)", lambda m: m.group(1) + body + "\n" + m.group(2), t, flags=re.S)
(V / "DESIGN.md").write_text(t)
