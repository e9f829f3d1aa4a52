"""Self-test of the verifier: edits that keep the behaviour must still be proved.

    python3-vt tools/refactor.py [-j N] [-n SITES] [pattern..]

Every function under contract is rewritten in a copy of the repository, one place at a time (branches swapped,
temporaries, helpers extracted, loops for comprehensions, ...).  What is not proved any more is printed:
"unsupported" leaves a check quiet, "failed" would be a false alarm.
"""
import ast
import copy
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys
import time
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))


def locals_of(fn):
    a = fn.args
    params = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            params |= set(n.names)
        if isinstance(n, ast.arg):
            params.add(n.arg)
    return out - params, params


def blocks(fn):
    for n in ast.walk(fn):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b


def free(e, names):
    bound = {n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {n.arg for n in ast.walk(e) if isinstance(n, ast.arg)}
    return sorted({n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names} - bound)


def sites(fn):
    """(kind, index): every place an edit applies; apply(fn, kind, index) makes it"""
    loc, params = locals_of(fn)
    out = []
    if loc:
        out.append(("rename", 0))
    for bi, b in enumerate(blocks(fn)):
        for si, s in enumerate(b):
            k = lambda x: out.append((x, (bi, si)))
            if isinstance(s, ast.If):
                if s.orelse:
                    k("swap branches")
                k("hoist test")
                if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and not s.orelse:
                    k("split and")
                if s.orelse and isinstance(s.body[-1], (ast.Return, ast.Continue, ast.Raise)):
                    k("drop else")
                if not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Continue, ast.Raise)) and si + 1 < len(b):
                    k("add else")
                if si == len(b) - 1 and b is fn.body and not s.orelse and len(s.body) > 1:
                    k("guard")
            if isinstance(s, (ast.Return, ast.Assign, ast.AnnAssign)) and s.value is not None and not isinstance(s.value, (ast.Constant, ast.Name)):
                if isinstance(s, ast.Return):
                    k("temp return")
                if not any(isinstance(n, (ast.Yield, ast.NamedExpr, ast.Await)) for n in ast.walk(s.value)):
                    k("extract helper")
                v = s.value
                if isinstance(v, ast.ListComp) and len(v.generators) == 1 and (not isinstance(s, ast.Assign) or isinstance(s.targets[0], ast.Name)):
                    k("comprehension to loop")
            if isinstance(s, ast.For):
                k("enumerate")
                if isinstance(s.body, list) and len(s.body) > 1 and isinstance(s.body[0], ast.If) is False:
                    pass
                if len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Call) and isinstance(s.body[0].value.func, ast.Attribute) and s.body[0].value.func.attr == "append":
                    k("append to extend")
                if len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse:
                    k("filter continue")
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.op, ast.Add) and (isinstance(s.value, ast.JoinedStr) or isinstance(s.value, ast.Constant)):
                k("augmented")
            if si + 1 < len(b) and all(isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) for x in (s, b[si + 1])):
                t = b[si + 1]
                pure = lambda e: not any(isinstance(n, (ast.Call, ast.Subscript, ast.Attribute)) for n in ast.walk(e))
                if pure(s.value) and s.targets[0].id != t.targets[0].id and not free(t.value, {s.targets[0].id}) and not free(s.value, {t.targets[0].id}):
                    k("reorder")
            k("pass")
    for i, n in enumerate(ast.walk(fn)):
        if isinstance(n, ast.JoinedStr) and all(isinstance(v, ast.Constant) or (isinstance(v, ast.FormattedValue) and v.conversion == -1 and v.format_spec is None) for v in n.values):
            out.append(("format", i))
        if isinstance(n, ast.IfExp):
            out.append(("swap conditional", i))
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.NotEq, ast.NotIn, ast.IsNot)):
            out.append(("not compare", i))
    return out


def apply(mod, fn, kind, at):
    """the edit in place; returns statements to add to the module"""
    loc, params = locals_of(fn)
    extra = []
    if kind == "rename":
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id = n.id + "_new"
        return extra
    if kind in ("format", "swap conditional", "not compare"):
        n = list(ast.walk(fn))[at]
        m = None
        if kind == "format":
            txt, args = "", []
            for v in n.values:
                if isinstance(v, ast.Constant):
                    txt += v.value.replace("{", "{{").replace("}", "}}")
                else:
                    txt += "{}"
                    args.append(v.value)
            m = ast.Call(ast.Attribute(ast.Constant(txt), "format", ast.Load()), args, [])
        elif kind == "swap conditional":
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
            return extra
        else:
            inv = {ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.IsNot: ast.Is}[type(n.ops[0])]()
            m = ast.UnaryOp(ast.Not(), ast.Compare(n.left, [inv], n.comparators))

        class R(ast.NodeTransformer):
            def visit(self, x):
                return m if x is n else self.generic_visit(x)

        R().visit(fn)
        return extra
    bi, si = at
    b = list(blocks(fn))[bi]
    s = b[si]
    N = lambda x: ast.Name(x, ast.Load())
    St = lambda x: ast.Name(x, ast.Store())
    if kind == "swap branches":
        s.test, s.body, s.orelse = ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body
    elif kind == "hoist test":
        b[si:si + 1] = [ast.Assign([St("cond_")], s.test), s]
        s.test = N("cond_")
    elif kind == "split and":
        vs = s.test.values
        s.body = [ast.If(vs[-1], s.body, [])]
        s.test = vs[0] if len(vs) == 2 else ast.BoolOp(ast.And(), vs[:-1])
    elif kind == "drop else":
        b[si + 1:si + 1] = s.orelse
        s.orelse = []
    elif kind == "add else":
        s.orelse = b[si + 1:]
        del b[si + 1:]
    elif kind == "guard":
        b[si:] = [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Return(None)], [])] + s.body
    elif kind == "temp return":
        b[si:] = [ast.Assign([St("result_")], s.value), ast.Return(N("result_"))]
    elif kind == "extract helper":
        a = free(s.value, loc | params)
        extra = [ast.FunctionDef(f"helper_{fn.name.strip('_')}", ast.arguments([], [ast.arg(x) for x in a], None, [], [], None, []), [ast.Return(s.value)], [], None)]
        extra[0].type_params = []
        s.value = ast.Call(N(extra[0].name), [N(x) for x in a], [])
    elif kind == "comprehension to loop":
        v = s.value
        g = v.generators[0]
        t = s.targets[0].id if isinstance(s, ast.Assign) else s.target.id if isinstance(s, ast.AnnAssign) else "result_"
        body = [ast.Expr(ast.Call(ast.Attribute(N("out_"), "append", ast.Load()), [v.elt], []))]
        for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
        new = [ast.Assign([St("out_")], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]
        s.value = N("out_")
        b[si:si] = new
    elif kind == "enumerate":
        s.iter = ast.Call(N("enumerate"), [s.iter], [])
        s.target = ast.Tuple([St("index_"), s.target], ast.Store())
    elif kind == "append to extend":
        c = s.body[0].value
        b[si] = ast.Expr(ast.Call(ast.Attribute(c.func.value, "extend", ast.Load()), [ast.ListComp(c.args[0], [ast.comprehension(s.target, s.iter, [], 0)])], []))
    elif kind == "filter continue":
        i = s.body[0]
        s.body = [ast.If(ast.UnaryOp(ast.Not(), i.test), [ast.Continue()], [])] + i.body
    elif kind == "augmented":
        b[si] = ast.Assign([ast.Name(s.target.id, ast.Store())], ast.BinOp(N(s.target.id), s.op, s.value))
    elif kind == "reorder":
        b[si], b[si + 1] = b[si + 1], b[si]
    elif kind == "pass":
        b.insert(si + (1 if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) else 0), ast.If(ast.Constant(False), [ast.Pass()], []))
    return extra


def find(mod, qual):
    n = mod
    for p in qual.split("."):
        n = next((c for c in ast.walk(n) if c is not n and isinstance(c, (ast.FunctionDef, ast.ClassDef)) and c.name == p and c in getattr(n, "body", [])), None)
        if n is None:
            return None
    return n


def main():
    args = sys.argv[1:]
    jobs, per = 6, 1
    while args and args[0] in ("-j", "-n"):
        if args[0] == "-j":
            jobs = int(args[1])
        else:
            per = int(args[1])
        args = args[2:]
    sys.dont_write_bytecode = True
    sys.path[:0] = [str(HERE), str(REPO / "src")]
    sys.path.append("/opt/venv/lib/python3.12/site-packages")
    sys.setrecursionlimit(20000)
    from specs import registry

    env, _ = registry.build()
    rnd = random.Random(int(os.environ.get("SEED", "1")))
    work = []
    for c in env.contracts.values():
        if not c.check or c.run or c.target.startswith("specs.") or (args and not any(a in c.target for a in args)):
            continue
        m, q = c.target.split(":")
        p = REPO / "src" / (m.replace(".", "/") + ".py")
        mod = ast.parse(p.read_text())
        fn = find(mod, q)
        if fn is None:
            print("no text for", c.target)
            continue
        by = {}
        for k, at in sites(fn):
            by.setdefault(k, []).append(at)
        for k, ats in by.items():
            for at in rnd.sample(ats, min(per, len(ats))):
                mod2 = copy.deepcopy(mod)
                fn2 = find(mod2, q)
                extra = apply(mod2, fn2, k, at)
                mod2.body = mod2.body + extra
                ast.fix_missing_locations(mod2)
                try:
                    txt = ast.unparse(mod2)
                    compile(txt, "x", "exec")
                except Exception as e:
                    print("bad edit", k, c.target, e)
                    continue
                work.append((c.target, k, at, p.relative_to(REPO), txt))
    print(len(work), "edits", flush=True)
    tally = {}
    with mp.Pool(jobs) as pool:
        for (t, k, at, r) in pool.imap_unordered(one, work):
            tally[r[0]] = tally.get(r[0], 0) + 1
            if r[0] != "proved":
                print(f"{r[0]:12} {t.split(':')[0].split('.')[-1]}:{t.split(':')[1]} {k} {at} {r[1][-230:]!r}", flush=True)
    print(tally)


CODE = """
import sys
sys.dont_write_bytecode = True
sys.path[:0] = [%r, sys.argv[1] + '/src']
sys.path.append('/opt/venv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000)
from specs import registry
from pyvc import runner
env, miss = registry.build()
cs = [c for c in env.contracts.values() if c.target == sys.argv[2] or c.target.startswith(sys.argv[2] + '#')]
if not cs:
    print('unsupported', 'missing', miss)
for c in cs:
    r = runner.verify(env, c, timeout=4000, budget=60)
    print('RESULT', r.status, r.reason[-300:].replace(chr(10), ' '))
""" % str(HERE)


def one(w):
    t, k, at, rel, txt = w
    d = Path(f"/tmp/rf-{os.getpid()}")
    if not d.exists():
        shutil.copytree(REPO / "src", d / "src", ignore=shutil.ignore_patterns("__pycache__"))
    old = (d / rel).read_text()
    try:
        (d / rel).write_text(txt)
        try:
            p = subprocess.run([sys.executable, "-c", CODE, str(d), t], capture_output=True, text=True, timeout=240, env=dict(os.environ, VERIF_REPO=str(d)))
        except subprocess.TimeoutExpired:
            return t, k, at, ("unsupported", "time limit")
        ls = [x for x in p.stdout.splitlines() if x.startswith("RESULT")]
        if not ls:
            return t, k, at, ("error", p.stdout[-100:] + p.stderr[-200:])
        bad = next((x for x in ls if not x.startswith("RESULT proved")), ls[0])
        return t, k, at, (bad.split()[1], " ".join(bad.split()[2:]))
    finally:
        (d / rel).write_text(old)


if __name__ == "__main__":
    main()
