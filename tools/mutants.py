"""Self-test of the verifier: small changes of the contracted functions must not be proved.

    python3-vt tools/mutants.py [-j N] [pattern..]

Every function under contract is changed in one place (comparison operators, constants, branches, deleted
statements, swapped arguments ...) in memory, and its obligations are generated again.  A change that is still
proved is printed: it must be equivalent to the original under what the contracts drop (log output, messages).
"""
import ast
import copy
import multiprocessing as mp
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, REPO + "/src"]
sys.path.append("/opt/venv/lib/python3.12/site-packages")
sys.setrecursionlimit(20000)

CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.BitXor: ast.BitAnd, ast.Mod: ast.Mult, ast.LShift: ast.RShift, ast.BitAnd: ast.BitOr}


def is_log(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and (
        isinstance(n.value.func, ast.Attribute) and isinstance(n.value.func.value, ast.Name) and n.value.func.value.id in ("log", "rich")
        or isinstance(n.value.func, ast.Name) and n.value.func.id == "print")


def mutants(fn, con, inner):
    """(description, changed copy) for every single change"""
    sites = []
    skip = set()
    for n in ast.walk(fn):
        if id(n) in inner:  # a function inside with a contract of its own
            skip |= {id(m) for m in ast.walk(n)}
        if is_log(n) or isinstance(n, ast.Raise) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            for m in ast.walk(n):
                skip.add(id(m))
            if isinstance(n, ast.Raise):
                skip.discard(id(n))
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list + [a.annotation for a in n.args.args if a.annotation] + ([n.returns] if n.returns else []):
                for m in ast.walk(d):
                    skip.add(id(m))
        if isinstance(n, ast.AnnAssign):
            for m in ast.walk(n.annotation):
                skip.add(id(m))
    order = list(ast.walk(fn))
    logs = {id(n) for n in order if is_log(n)}

    def add(i, what, edit):
        sites.append((i, what, edit))

    for i, n in enumerate(order):
        if id(n) in skip:
            continue
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            add(i, f"{ln} compare", lambda m: m.ops.__setitem__(0, CMP[type(m.ops[0])]()))
        elif isinstance(n, ast.BoolOp):
            add(i, f"{ln} and/or", lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            add(i, f"{ln} drop operand", lambda m: m.values.pop())
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(i, f"{ln} drop not", lambda m: (setattr(m, "operand", ast.UnaryOp(ast.Not(), m.operand))))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(i, f"{ln} operator", lambda m: setattr(m, "op", BIN[type(m.op)]()))
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(i, f"{ln} {n.value}", lambda m: setattr(m, "value", not m.value))
            elif isinstance(n.value, int):
                add(i, f"{ln} {n.value}+1", lambda m: setattr(m, "value", m.value + 1))
            elif isinstance(n.value, str):
                add(i, f"{ln} {n.value!r}", lambda m: setattr(m, "value", m.value + "x"))
            elif n.value is None:
                add(i, f"{ln} None", lambda m: setattr(m, "value", 0))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add(i, f"{ln} negate condition", lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test)))
            add(i, f"{ln} condition true", lambda m: setattr(m, "test", ast.Constant(True)))
        elif isinstance(n, ast.comprehension):
            for k in range(len(n.ifs)):
                add(i, f"{getattr(n.target, 'lineno', 0)} drop filter", lambda m, k=k: m.ifs.pop(k))
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            add(i, f"{ln} return None", lambda m: setattr(m, "value", ast.Constant(None)))
        elif isinstance(n, ast.Continue):
            pass
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            if n.slice.lower is not None:
                add(i, f"{ln} slice start", lambda m: setattr(m.slice, "lower", None))
            if n.slice.upper is not None:
                add(i, f"{ln} slice end", lambda m: setattr(m.slice, "upper", None))
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords:
            add(i, f"{ln} swap arguments", lambda m: m.args.reverse())
        if isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                add(i, f"{ln} drop {n.keywords[k].arg}=", lambda m, k=k: m.keywords.pop(k))
        for fld in ("body", "orelse"):
            b = getattr(n, fld, None)
            if not isinstance(b, list) or isinstance(n, ast.FunctionDef) and id(n) in inner:
                continue
            for k, s in enumerate(b):
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete, ast.Raise, ast.Continue, ast.Break)) and not (is_log(s) and not con.logs) and id(s) not in skip - logs:
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    add(i, f"{s.lineno} delete '{ast.unparse(s)[:50]}'", lambda m, fld=fld, k=k: getattr(m, fld).__setitem__(k, ast.copy_location(ast.Pass(), getattr(m, fld)[k])))
                if isinstance(s, ast.Continue):
                    add(i, f"{s.lineno} continue->break", lambda m, fld=fld, k=k: getattr(m, fld).__setitem__(k, ast.copy_location(ast.Break(), getattr(m, fld)[k])))
                if isinstance(s, ast.Break):
                    add(i, f"{s.lineno} break->continue", lambda m, fld=fld, k=k: getattr(m, fld).__setitem__(k, ast.copy_location(ast.Continue(), getattr(m, fld)[k])))
    for i, what, edit in sites:
        m = copy.deepcopy(fn)
        edit(list(ast.walk(m))[i])
        ast.fix_missing_locations(m)
        if ast.dump(m) != ast.dump(fn):
            yield what, m


def main():
    from pyvc import runner
    from specs import registry

    args = sys.argv[1:]
    jobs = 6
    if "-j" in args:
        i = args.index("-j")
        jobs = int(args[i + 1])
        del args[i : i + 2]
    env, _ = registry.build()
    cons = [c for c in env.contracts.values() if c.check and not c.run and not c.target.startswith("specs.") and (not args or any(a in c.target for a in args))]
    work = []
    for c in cons:
        f = runner.get_func(env, c.target)
        for what, m in mutants(f.node, c, env.inner):
            work.append((c, f, what, m))
    print(len(cons), "functions", len(work), "mutants", flush=True)

    global one

    def one(k):
        c, f, what, m = work[k]
        f.node.__dict__.update(m.__dict__)
        for d in list(env.inner.values()):
            env.nested(d)
        t = time.time()
        r = runner.verify(env, c, timeout=2000, budget=30)
        return k, r.status, time.time() - t

    tally = {}
    with mp.get_context("fork").Pool(jobs, maxtasksperchild=1) as pool:
        for k, s, t in pool.imap_unordered(call, range(len(work))):
            tally[s] = tally.get(s, 0) + 1
            if s == "proved":
                print("SURVIVED", work[k][0].target.split(":")[1], "line", work[k][2], flush=True)
    print(tally)


def call(k):
    return one(k)


if __name__ == "__main__":
    main()
