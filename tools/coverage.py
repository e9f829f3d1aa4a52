"""Which functions of the repository are under contract (and which are not)."""
import ast
import os
import sys
from pathlib import Path

sys.dont_write_bytecode = True
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
sys.path[:0] = [str(Path(__file__).resolve().parent.parent), str(REPO / "src")]
sys.path.append("/opt/venv/lib/python3.12/site-packages")
from specs import registry  # noqa: E402


def functions(p):
    out = []

    def go(n, q):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                if isinstance(c, ast.FunctionDef):
                    out.append((q + c.name, c.end_lineno - c.lineno + 1))
                else:
                    go(c, q + c.name + ".")
            elif not isinstance(c, ast.expr):
                go(c, q)

    go(ast.parse(p.read_text()), "")
    return out


env, _ = registry.build()
have = {c.target: c for c in env.contracts.values()}
tot = n = 0
for p in sorted((REPO / "src").rglob("*.py")):
    m = ".".join(p.relative_to(REPO / "src").with_suffix("").parts)
    fs = functions(p)
    if not fs:
        continue
    yes = [f for f, _ in fs if f"{m}:{f}" in have]
    no = [f"{f}({k})" for f, k in fs if f"{m}:{f}" not in have]
    tot += len(fs)
    n += len(yes)
    print(f"{m}: {len(yes)}/{len(fs)}" + ("  without: " + " ".join(no) if no else ""))
print(f"{n} of {tot} functions under contract")
