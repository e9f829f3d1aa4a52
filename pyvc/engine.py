"""The symbolic interpreter: Python AST -> obligations."""
from __future__ import annotations

import ast
import builtins
import copy
import enum
import importlib
import inspect
import sys
import types

import z3

from .core import *
from .core import _CTOR
from .values import *
from .values import V, Obj, I, B, S, R
from .values import _Del, first_hole

BUILTIN_EXC = {
    n: getattr(builtins, n)
    for n in dir(builtins)
    if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)
}


class ModInfo:
    def __init__(self, name, module):
        self.name = name
        self.module = module
        self.file = module.__file__
        with open(self.file) as f:
            self.src = f.read()
        self.tree = drop_counters(ast.parse(self.src))
        self.index = {}
        self._walk(self.tree.body, "")

    def _walk(self, body, pre):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                self.index[pre + n.name] = collected(n)
            elif isinstance(n, ast.ClassDef):
                self._walk(n.body, pre + n.name + ".")


def drop_counters(tree):
    """`for i, x in enumerate(y)` with an `i` that nothing reads as `for x in y`"""
    for f in ast.walk(tree):
        if not isinstance(f, (ast.FunctionDef, ast.Lambda)):
            continue
        stored = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}
        if "enumerate" in stored:
            continue
        read = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del))}
        read |= {x for n in ast.walk(f) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        for n in ast.walk(f):
            if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name):
                t, c = n.target, n.iter
                if c.func.id == "enumerate" and len(c.args) == 1 and not c.keywords and isinstance(t, ast.Tuple) and len(t.elts) == 2:
                    if isinstance(t.elts[0], ast.Name) and t.elts[0].id not in read:
                        n.target, n.iter = t.elts[1], c.args[0]
    return tree


def collected(node):
    """a generator function as the function that returns the list of what it yields (its body must have no effects and not fail)"""
    own = [n for n in own_nodes(node) if isinstance(n, (ast.Yield, ast.YieldFrom))]
    if not own:
        return node
    stmts = [n for n in own_nodes(node) if isinstance(n, ast.Expr) and n.value in own]
    if len(stmts) != len(own) or any(isinstance(n, (ast.Return, ast.Try, ast.With, ast.Raise)) for n in own_nodes(node)):
        return node  # stays a generator: not supported

    class T(ast.NodeTransformer):
        def visit_Expr(self, n):
            if not isinstance(n.value, (ast.Yield, ast.YieldFrom)):
                return n
            f = ast.Attribute(ast.Name("yields__", ast.Load()), "append" if isinstance(n.value, ast.Yield) else "extend", ast.Load())
            r = ast.Expr(ast.Call(f, [n.value.value or ast.Constant(None)], []))
            return ast.fix_missing_locations(ast.copy_location(r, n))

    new = T().visit(copy.deepcopy(node))
    pre = ast.Assign([ast.Name("yields__", ast.Store())], ast.List([], ast.Load()))
    post = ast.Return(ast.Name("yields__", ast.Load()))
    for x, at in ((pre, node.body[0]), (post, node.body[-1])):
        ast.fix_missing_locations(ast.copy_location(x, at))
    new.body = [pre] + new.body + [post]
    return new


def opened(node, free):
    """a function that reads variables of the function it is defined in, as one that has them as parameters"""
    new = copy.deepcopy(node)
    for n in ast.walk(new):
        if isinstance(n, ast.Name) and n.id in free and not isinstance(n.ctx, ast.Load):
            return None
        if isinstance(n, ast.arg) and n.arg in free:
            return None
    if new.args.defaults or new.args.vararg or new.args.kwonlyargs:
        return None
    new.args.args += [ast.arg(x) for x in free]
    return ast.fix_missing_locations(new)


class Block(ast.Pass):
    """the body of a loop that has a contract of its own, as a function of the loop's variable"""

    _fields = ("var",)


def block_function(outer, name, param):
    """the body of the first for loop of a function (outermost first) as a function; the loop then calls it

    None when the body uses other variables of the function, leaves any behind for the rest of it, or ends the loop.  What one
    iteration leaves for the next is an unbound variable of the new function, and no proof passes that.
    """
    loop = next((n for n in ast.walk(outer) if isinstance(n, ast.For)), None)
    if loop is None or not isinstance(loop.target, ast.Name) or loop.orelse:
        return None
    inside = [n for s in loop.body for n in ast.walk(s)]
    ids = {id(n) for n in inside} | {id(loop.target)}
    mine = {n.id for n in inside if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}
    mine |= {n.name for n in inside if isinstance(n, ast.ExceptHandler) and n.name}
    rest = [n for n in ast.walk(outer) if id(n) not in ids]
    theirs = {n.id for n in rest if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)} | {n.arg for n in rest if isinstance(n, ast.arg)}
    read = {n.id for n in rest if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
    used = {n.id for n in inside if isinstance(n, ast.Name)}
    var = loop.target.id
    if param != var and param in used:
        return None
    if used & (theirs - {var}) or (mine | {var}) & read or any(isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom, ast.Nonlocal, ast.Global)) for n in inside):
        return None

    class T(ast.NodeTransformer):
        ok = True

        def visit_For(self, n):
            return n

        visit_While = visit_FunctionDef = visit_Lambda = visit_For

        def visit_Continue(self, n):
            return ast.copy_location(ast.Return(None), n)

        def visit_Break(self, n):
            self.ok = False
            return n

    t = T()
    body = [t.visit(copy.deepcopy(s)) for s in loop.body]
    if not t.ok:
        return None
    for n in (n for s in body for n in ast.walk(s)):
        if isinstance(n, ast.Name) and n.id == var:
            n.id = param
    f = ast.FunctionDef(name, ast.arguments([], [ast.arg(param)], None, [], [], None, []), body, [], None)
    f.type_params = []
    ast.fix_missing_locations(ast.copy_location(f, loop))
    b = Block()
    b.var = ast.Name(var, ast.Load())
    b.func = f
    loop.body = [ast.fix_missing_locations(ast.copy_location(b, loop.body[0]))]
    return f


def outline(seq):
    """the sequence with every element replaced by 0"""
    out = []
    for p in seq.parts:
        if p[0] == "u":
            out.append(("u", 0))
        elif p[0] == "if":
            out.append(("if", p[1], outline(p[2]), outline(p[3])))
        elif p[0] == "map":
            out.append(p[:3] + (outline(p[3]),) + p[4:])
        else:
            out.append(p)
    return Seq(tuple(out))


def own_nodes(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            todo.extend(ast.iter_child_nodes(n))


class Chooser:
    def __init__(self, dec, ids):
        self.dec = dec
        self.pos = 0
        self.pending = []
        self.ids, self.n = ids, 0  # a repeated prefix of decisions allocates the same names


class Contract:
    """contract of a repository function

    target    'module:qualname'
    spec      specification function (python function object of a spec module)
    params    dict name -> type hint / callable(engine, st) -> value
    mode      'inline' (callers use the specification function itself) | 'opaque'
    ret       result type for opaque mode
    """

    def __init__(self, target, spec=None, params=None, requires=None, mode="inline", ret="V", mutates=(),
                 effect=False, raises=(), worlds=(), ensures=None, order=False, props=(), gen=None, note="",
                 depth=None, check=True, observe=None, run=None, rawret=False, indep=False, reads=(), writes=False, cases=None, exit_code=1, fresh=False, given="",
                 folded=None, variants=None, scrap=(), logs=(), free=()):
        self.folded = folded  # what callers execute instead of spec (inline mode): recursion is hidden in opaque specification functions
        self.variants = variants or [{}]  # parameter types to prove the contract for, one after the other
        self.logs = tuple(logs)  # phrases of log messages that are part of the outcome
        self.free = tuple(free)  # of a function defined inside another: the variables it reads there, parameters of the contract
        self.scrap = tuple(scrap)  # parameters whose state after an exception is not specified
        self.given = given  # what the precondition says, when it is assumed (and not proved) at the calls
        self.fresh = fresh  # the returned list or dict belongs to the caller
        self.exit_code = exit_code
        self.cases = cases  # case distinction made before the bodies are executed: (eng, st, params) -> conditions
        self.writes = writes  # an opaque call changes mutable library objects (pyvc.world)
        self.reads = tuple(reads)  # symbolic globals and 'tree' (attribute writes) an opaque result depends on
        self.indep = indep  # the specification is executed apart from the code's paths
        self.target, self.spec, self.params, self.requires = target, spec, params or {}, requires
        self.mode, self.ret, self.mutates, self.effect, self.raises = mode, ret, tuple(mutates), effect, raises
        self.worlds, self.ensures, self.order, self.props, self.gen = worlds, ensures, order, props, gen
        self.note, self.check, self.observe, self.run = note, check, observe, run


def predicates(t):
    """names of the uninterpreted predicates in a term"""
    out, seen, stack = set(), set(), [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen or not z3.is_app(x):
            continue
        seen.add(i)
        d = x.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED and d.range() == B:
            out.add(d.name())
        stack.extend(x.children())
    return frozenset(out)


class Engine:
    MAXPATHS = 600

    def __init__(self, env, timeout=4000):
        self.setobjs = {}  # terms known to denote sets
        self.env = env  # models.Env: modules, library models, schemas, contracts
        self.solver = Solver(timeout)
        self.choosers = CHOOSERS[0] = []
        self.mixed = {}
        self.atoms = []  # ExAtoms
        self.interned = []
        self._inst = {}
        self._preds = {}
        self.quick = False  # snapshots are compared without searching for empty parts
        self.folds = []
        self.counts = []
        self.srcnum = {}
        self.symdef = {"dhas": None}
        self.internix = {}
        self.rematch = {}
        self.symglobals = True
        self.cover = set()  # statements executed on some path
        self._apps = {}
        self._defs = {}
        self._eqs = {}
        self._mention = {}
        self._disp = {}
        self._keep = []
        self.current = None  # contract being verified
        self.depth = 0
        self.inlined = set()
        self.assumed = set()
        self.deadline = None

    # ------------------------------------------------------------ solver
    def tick(self):
        import time

        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget exhausted")

    def facts(self, st, extra=()):
        """path facts, definitions of the symbols that occur in them, instances of quantified facts"""
        out = [t for _, t in st.facts]
        out.extend(extra)
        alls = list(st.all)
        idx = {}
        seen_idx = set()

        def add_idx(src, t):
            i = same_index(src)
            k = (i, t.get_id())
            if k not in seen_idx:
                seen_idx.add(k)
                idx.setdefault(i, []).append(t)
                self._keep.append(t)

        for src, t in st.idx:
            add_idx(src, t)
        done_apps = set()
        done_inst = set()
        pos = 0
        for rnd in range(4):
            # definitions of symbols
            while pos < len(out):
                t = out[pos]
                pos += 1
                for app in self.sym_apps(t):
                    if app.get_id() in done_apps:
                        continue
                    done_apps.add(app.get_id())
                    fs, al, ix = self.sym_defs(app)
                    out.extend(fs)
                    alls.extend(al)
                    for src, i in ix:
                        add_idx(src, i)
            new = False
            for a in alls:
                for t in idx.get(same_index(a.src), ()):
                    k = (id(a), t.get_id())
                    if k in done_inst:
                        continue
                    done_inst.add(k)
                    new = True
                    f = self._inst.get(k)
                    if f is None:
                        lo = a.lo if a.lo is not None else z3.IntVal(0)
                        body = z3.substitute(a.cond, (a.var, t))
                        f = self._inst[k] = z3.Implies(zand([a.guard, lo <= t, t < a.hi]), body)
                        self._keep.append(a)
                    out.append(f)
            if not new or len(out) > 1500:
                break
        while pos < len(out):
            t = out[pos]
            pos += 1
            for app in self.sym_apps(t):
                if app.get_id() not in done_apps:
                    done_apps.add(app.get_id())
                    out.extend(self.sym_defs(app)[0])
            if len(out) > 2500:
                break
        return out

    def sym_apps(self, t):
        """applications of defined symbols in a term"""
        i = t.get_id()
        r = self._apps.get(i)
        if r is None:
            r = []
            seen = set()
            stack = [t]
            while stack:
                x = stack.pop()
                if x.get_id() in seen or not z3.is_app(x):
                    continue
                seen.add(x.get_id())
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in self.symdef:
                    r.append(x)
                stack.extend(x.children())
            self._apps[i] = r
            self._keep.append(t)
        return r

    def sym_defs(self, app):
        i = app.get_id()
        r = self._defs.get(i)
        if r is None:
            if app.decl().name() == "dhas":
                r = self._defs[i] = self.has_def(app)
                self._keep.append(app)
                return r
            r = self._defs[i] = self.symdef[app.decl().name()](app)
            self._keep.append(app)
        return r

    def has_def(self, app):
        """a key that is in a dictionary has a position in it"""
        o, k = app.children()
        n, di = uf("dlen", Obj, I)(o), uf("didx", Obj, V, I)(o, k)
        f = z3.Implies(app, z3.And(di >= 0, di < n, uf("dkey", Obj, I, V)(o, di) == k))
        return [f], [], [(Src("ditems", (o,)), di)]

    def known_eqs(self, st):
        """[(constant, literal)] among the path facts"""
        out = []
        for _, t in st.facts:
            i = t.get_id()
            r = self._eqs.get(i, 0)
            if r == 0:
                r = None
                if z3.is_eq(t):
                    a, b = t.arg(0), t.arg(1)
                    if is_lit(a):
                        a, b = b, a
                    if is_lit(b) and z3.is_const(a) and not is_lit(a):
                        r = (a, b)
                elif z3.is_const(t) and z3.is_bool(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    r = (t, TRUE)
                elif z3.is_not(t) and z3.is_const(t.arg(0)) and t.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    r = (t.arg(0), FALSE)
                self._eqs[i] = r
                self._keep.append(t)
            if r is not None:
                out.append(r)
        return out

    def only_diseqs(self, st, cond):
        """cond is (dis)equality of a string constant the path so far only distinguishes from other literals"""
        d = diseq(cond)
        if d is None:
            return False
        c, l, pos = d
        if c.sort() != S:
            return False
        n = c.decl().name()
        for _, t in st.facts:
            i = t.get_id()
            r = self._mention.get(i)
            if r is None:
                r = self._mention[i] = (set(consts_of([t])), diseq(t))
                self._keep.append(t)
            if n not in r[0]:
                continue
            q = r[1]
            if q is None or q[2] or q[1].eq(l):
                return False
        return True

    def by_eqs(self, st, cond):
        """cond decided by the constants the path fixes: True / False / None"""
        e = self.known_eqs(st)
        if not e:
            return None
        c = simp(z3.substitute(cond, *e))
        return True if z3.is_true(c) else False if z3.is_false(c) else None

    def unconstrained(self, cond, fs):
        """an application of an uninterpreted predicate that nothing else mentions can be true and false"""
        c = cond.arg(0) if z3.is_not(cond) else cond
        if not z3.is_app(c) or c.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            return False
        n = c.decl().name()
        if n in self.symdef or any(n in predicates(x) for x in c.children()):
            return False
        me = cond.get_id()
        for t in fs:
            i = t.get_id()
            if i == me:
                continue
            r = self._preds.get(i)
            if r is None:
                r = self._preds[i] = predicates(t)
                self._keep.append(t)
            if n in r:
                return False
        return True

    def feasible(self, st, cond=None):
        self.tick()
        if cond is not None:
            if z3.is_false(cond):
                return False
            d = self.by_eqs(st, cond)
            if d is not None:
                return d
            if self.only_diseqs(st, cond):
                return True
            fs = self.facts(st, (cond,))
            if self.unconstrained(cond, fs):
                return True
        else:
            fs = self.facts(st)
        return self.solver.check(fs) != z3.unsat

    def entails(self, st, cond, timeout=None):
        self.tick()
        if z3.is_true(cond):
            return True
        c = simp(cond)
        if z3.is_true(c):
            return True
        if self.by_eqs(st, cond):
            return True
        n = z3.Not(cond)
        fs = self.facts(st, (n,))
        d = self.dispatch(cond)
        if d is not None:
            return self.by_cases(fs, d, timeout)
        return self.solver.check(fs, timeout) == z3.unsat

    def dispatch(self, t):
        """(constant, {literal: atoms}) when the term tests one string constant against several literals"""
        i = t.get_id()
        if i in self._disp:
            return self._disp[i]
        found = {}
        seen = set()
        stack = [t]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_eq(x):
                q = diseq(x)
                if q is not None and q[0].sort() == S:
                    found.setdefault(q[0].get_id(), (q[0], {}))[1].setdefault(q[1].get_id(), (q[1], []))[1].append(x)
                    continue
            stack.extend(x.children())
        r = None
        for c, lits in found.values():
            if len(lits) >= 4 and (r is None or len(lits) > len(r[1])):
                r = (c, lits)
        self._disp[i] = r
        self._keep.append(t)
        return r

    def by_cases(self, fs, d, timeout):
        """unsatisfiable in every case: the constant is one of the literals, or none of them"""
        c, lits = d
        rest = []
        for l, atoms in lits.values():
            ts = [simp(z3.substitute(t, (c, l))) for t in fs]
            if not any(z3.is_false(t) for t in ts) and self.solver.check(ts, timeout) != z3.unsat:
                return False
            rest.extend((a, FALSE) for a in atoms)
            rest.append((c == l, FALSE))
        ts = [simp(z3.substitute(t, *rest)) for t in fs]
        if any(z3.is_false(t) for t in ts):
            return True
        ts += [c != l for l, _ in lits.values()]
        return self.solver.check(ts, timeout) == z3.unsat

    def choose(self, n, payload=None):
        ch = self.choosers[-1]
        ch.n = 0
        if ch.pos < len(ch.dec):
            i, pl = ch.dec[ch.pos]
            ch.pos += 1
            return i, pl
        ch.dec.append((0, payload))
        ch.pos += 1
        for i in range(1, n):
            ch.pending.append(ch.dec[:-1] + [(i, payload)])
        return 0, payload

    def branch(self, st, cond):
        if isinstance(cond, bool):
            return cond
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        c = simp(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        ch = self.choosers[-1]
        if ch.pos < len(ch.dec):
            i, pl = ch.dec[ch.pos]
            ch.pos += 1
        else:
            t = self.feasible(st, cond)
            f = self.feasible(st, z3.Not(cond))
            if t and f:
                pl = "both"
            else:
                pl = "t" if t else "f"
            i = 0
            if pl == "both":
                ch.dec.append((0, pl))
                ch.pending.append(ch.dec[:-1] + [(1, pl)])
            else:
                ch.dec.append((0, pl))
            ch.pos += 1
        if pl == "t":
            return True
        if pl == "f":
            return False
        if i == 0:
            st.add(cond, "pc")
            return True
        st.add(znot(cond), "pc")
        return False

    def explore(self, st, thunk):
        """all paths of thunk(state) -> [(state, completion)]"""
        results = []
        stack = [[]]
        ids = {}
        while stack:
            dec = stack.pop()
            s2 = st.copy()
            ch = Chooser(dec, ids)
            self.choosers.append(ch)
            try:
                try:
                    comp = ("ok", thunk(s2))
                except PyRaise as e:
                    comp = ("raise", e)
            finally:
                self.choosers.pop()
            results.append((s2, comp))
            stack.extend(ch.pending)
            if len(results) > self.MAXPATHS:
                raise Unsupported("too many paths")
        return results

    def pick(self, st, outcomes):
        """continue with one of the outcomes (decision point)"""
        if not outcomes:
            raise Unsupported("no feasible outcome")
        i, pl = self.choose(len(outcomes), outcomes)
        s2, comp = pl[i]
        st.become(s2.copy())
        return comp

    # ------------------------------------------------------------ merging
    def merge_group(self, base_n, group):
        """merge list of (state) with common ancestor having base_n facts -> state"""
        if len(group) == 1:
            return group[0][0], group[0][1]
        conds = []
        for s, _ in group:
            conds.append(zand([t for tag, t in s.facts[base_n:] if tag == "pc"]))
        cur, val = group[-1]
        for k in range(len(group) - 2, -1, -1):
            s, v = group[k]
            c = conds[k]
            new, nv = self.merge2(c, s, v, cur, val, base_n)
            cur, val = new, nv
        # facts
        out = cur
        facts = list(group[0][0].facts[:base_n])
        seen = set()
        res = State()
        for a in State.__slots__:
            setattr(res, a, getattr(out, a))
        res.facts = facts
        res._seen = set((tag, t.get_id()) for tag, t in facts)
        common = None
        for (s, _), c in zip(group, conds):
            ids = {t.get_id() for tag, t in s.facts[base_n:] if tag == "def"}
            common = ids if common is None else common & ids
        for (s, _), c in zip(group, conds):
            for tag, t in s.facts[base_n:]:
                if tag == "def":
                    if t.get_id() in common:
                        res.add(t)
                    else:
                        res.add(z3.Implies(c, t))
        res.add(simp_or(conds), "pc")
        base_all = group[0][0].all
        alls = []
        seen = set()
        for (s, _), c in zip(group, conds):
            for a in s.all:
                if id(a) in seen:
                    continue
                seen.add(id(a))
                if all(any(a is x for x in s2.all) for s2, _ in group):
                    alls.append(a)
                else:
                    alls.append(AllFact(a.src, a.var, a.hi, a.cond, zand([c, a.guard]), a.lo))
        res.all = alls
        idx = []
        seen = set()
        for s, _ in group:
            for src, t in s.idx:
                k = (src.ident(), t.get_id())
                if k not in seen:
                    seen.add(k)
                    idx.append((src, t))
        res.idx = idx
        return res, val

    def merge2(self, c, a, va, b, vb, base_n):
        if a.scope != b.scope:
            raise MergeFail("scope")
        res = State()
        res.heap.clear()
        res.scope = a.scope
        val = self.merge_val(c, va, vb, a, b, res)
        for fid in list(a.frames) + [f for f in b.frames if f not in a.frames]:
            fa, fb = a.frames.get(fid), b.frames.get(fid)
            if fa is None or fb is None:
                res.frames[fid] = dict(fa if fa is not None else fb)
                continue
            fr = {}
            for k in list(fa) + [k for k in fb if k not in fa]:
                if k in fa and k in fb:
                    try:
                        fr[k] = self.merge_val(c, fa[k], fb[k], a, b, res)
                    except MergeFail:
                        if k.startswith("$"):
                            raise
                        raise
                else:
                    fr[k] = Poison(("undef", k))
            res.frames[fid] = fr
        for hid in list(a.heap) + [h for h in b.heap if h not in a.heap]:
            if hid in res.heap:
                continue
            ca, cb = a.heap.get(hid), b.heap.get(hid)
            if ca is None:
                res.heap[hid] = cb
            elif cb is None:
                res.heap[hid] = ca
            else:
                res.heap[hid] = self.merge_content(c, ca, cb, a, b, res)
        for n in list(a.attrw) + [n for n in b.attrw if n not in a.attrw]:
            res.attrw[n] = self.merge_seq(c, a.attrw.get(n, Seq()), b.attrw.get(n, Seq()))
        if a.world is not None or b.world is not None:
            w0 = z3.Const("w0", Obj)
            wa, wb = (w0 if x is None else x for x in (a.world, b.world))
            res.world = wa if wa.eq(wb) else z3.If(c, wa, wb)
        return res, val

    def merge_content(self, c, x, y, a, b, res):
        if x is y:
            return x
        if type(x) is not type(y):
            raise MergeFail("content")
        if isinstance(x, ListC):
            if x.kind != y.kind:
                raise MergeFail("kind")
            return ListC(self.merge_seq(c, x.seq, y.seq), x.kind)
        if isinstance(x, DictC):
            if (x.base is None) != (y.base is None):
                raise MergeFail("base")
            base = None if x.base is None else zite(c, x.base, y.base)
            return DictC(base, x.ty, self.merge_seq(c, x.upd, y.upd))
        if isinstance(x, InstC):
            if x.cls is not y.cls or set(x.fields) != set(y.fields):
                raise MergeFail("inst")
            return InstC(x.cls, {k: self.merge_val(c, x.fields[k], y.fields[k], a, b, res) for k in x.fields})
        if isinstance(x, FileC):
            return FileC(self.merge_seq(c, x.content, y.content), x.info)
        raise MergeFail("content")

    def merge_seq(self, c, x, y):
        if x is y:
            return x
        n = 0
        while n < len(x.parts) and n < len(y.parts) and part_same(x.parts[n], y.parts[n]):
            n += 1
        pa, pb = x.parts[n:], y.parts[n:]
        if not pa and not pb:
            return x
        # common suffix is not factored: conditions are kept simple
        return Seq(x.parts[:n] + (("if", c, Seq(pa), Seq(pb)),))

    def note_type(self, v, t):
        """remember the type of a value that goes into an untyped mixture"""
        if isinstance(v, SV) and v.k == "o" and v.ty and v.ty != "V":
            self.mixed[t.get_id()] = (t, Opt(v.ty))
        elif isinstance(v, SV) and v.k == "V" and v.ty and v.ty != "V":
            self.mixed[t.get_id()] = (t, v.ty)

    def merge_val(self, c, x, y, a=None, b=None, res=None):
        if x is y:
            return x
        if isinstance(x, Poison) or isinstance(y, Poison):
            return x if isinstance(x, Poison) else y
        kx, ky = kind_of(x), kind_of(y)
        if kx and ky:
            if is_const(x) and is_const(y) and type(x) is type(y) and x == y:
                return x
            if kx == ky and kx != "V":
                t = zite(c, to_term(x), to_term(y))
                ty = getattr(x, "ty", None)
                if kx == "o" and ty != getattr(y, "ty", None):
                    ty = join_ty(ty, y.ty)
                return lit(SV(kx, t, ty)) if kx != "o" else SV("o", t, ty)
            tx, ty_ = toV_scalar(x), toV_scalar(y)
            hint = None
            for p, q in ((x, y), (y, x)):
                if p is None and isinstance(q, SV):
                    if q.k == "o":
                        hint = Opt(q.ty) if q.ty else None
                    elif q.k == "s":
                        hint = Opt("str")
                    elif q.k == "V":
                        hint = q.ty
            if isinstance(x, SV) and isinstance(y, SV) and x.ty == y.ty:
                hint = x.ty
            elif {opt_ty(x), opt_ty(y)} - {None} and len({opt_ty(v) for v in (x, y) if v is not None}) == 1:
                hint = opt_ty(y) if x is None else opt_ty(x)
            r = narrowV(zite(c, tx, ty_), hint)
            if hint is None and isinstance(r, SV):
                for v, t in ((x, tx), (y, ty_)):
                    self.note_type(v, t)
            return r
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            return tuple(self.merge_val(c, p, q, a, b, res) for p, q in zip(x, y))
        if isinstance(x, (StrV, str)) or isinstance(y, (StrV, str)):
            if isinstance(x, (StrV, str, SV)) and isinstance(y, (StrV, str, SV)):
                sx, sy = as_strseq(x), as_strseq(y)
                if sx is not None and sy is not None:
                    return StrV(self.merge_seq(c, sx, sy), getattr(x, "bytes", False) or getattr(y, "bytes", False))
        if isinstance(x, Ref) and isinstance(y, Ref):
            if x.id == y.id:
                return x
            if res is not None and a is not None:
                if x.id not in a.heap or y.id not in b.heap:
                    return Poison(("dead", x.id))  # a local of a finished call
                if x.id not in b.heap and y.id not in a.heap:
                    r = Ref(fresh_id())
                    res.heap[r.id] = self.merge_content(c, a.heap[x.id], b.heap[y.id], a, b, res)
                    return r
        if isinstance(x, Frozen) and isinstance(y, Frozen):
            return Frozen(self.merge_content(c, x.content, y.content, a, b, res))
        if isinstance(x, Meth) and isinstance(y, Meth) and x.name == y.name:
            return Meth(self.merge_val(c, x.obj, y.obj, a, b, res), x.name)
        try:
            if x == y and type(x) is type(y) and not isinstance(x, (Ref, SV)):
                return x
        except Exception:
            pass
        raise MergeFail("values of different shape")

    def merge_outcomes(self, base_n, outs, key=lambda c: c[0] in ("next", "ok")):
        """merge normal outcomes where possible; others are kept"""
        groups = {}
        rest = []
        for s, comp in outs:
            if comp[0] in ("next", "ok", "return", "continue", "break"):
                groups.setdefault(comp[0], []).append((s, comp[1] if len(comp) > 1 else None))
            else:
                rest.append((s, comp))
        res = []
        for kind, g in groups.items():
            if len(g) == 1:
                res.append((g[0][0], (kind, g[0][1])))
                continue
            try:
                s, v = self.merge_group(base_n, g)
                res.append((s, (kind, v)))
            except MergeFail:
                # try pairwise greedy merging
                left = list(g)
                done = []
                while left:
                    cur = left.pop(0)
                    grp = [cur]
                    nxt = []
                    for o in left:
                        try:
                            self.merge2(z3.Bool("$probe"), o[0], o[1], cur[0], cur[1], base_n)
                            grp.append(o)
                        except MergeFail:
                            nxt.append(o)
                    left = nxt
                    try:
                        done.append(self.merge_group(base_n, grp))
                    except MergeFail:
                        done.extend((s, v) for s, v in grp)
                for s, v in done:
                    res.append((s, (kind, v)))
        # equal raises are merged too
        byexc = {}
        for s, comp in rest:
            byexc.setdefault(id(comp[1].cls) if comp[0] == "raise" else id(comp), []).append((s, comp))
        for g in byexc.values():
            if len(g) > 1:
                try:
                    s, _ = self.merge_group(base_n, [(s, None) for s, _ in g])
                    res.append((s, g[0][1]))
                    continue
                except MergeFail:
                    pass
            res.extend(g)
        return res

    # ------------------------------------------------------------ sources
    def src_len(self, src):
        f = self.env.SRC[src.kind]
        return f[0](self, src)

    def src_elem(self, st, src, i):
        f = self.env.SRC[src.kind]
        return f[1](self, st, src, i)

    def num(self, src):
        k = src.ident()
        if k not in self.srcnum:
            self.srcnum[k] = (len(self.srcnum), src)
        return self.srcnum[k][0]

    def canon_var(self, src, scope, d0=0):
        n = self.num(src)
        d = d0
        while True:
            v = z3.Int(f"ix!{n}!{d}")
            if not any(v.eq(x) for x in scope):
                return v
            d += 1

    def seq_of_src(self, st, src):
        v = self.canon_var(src, st.scope)
        scr = st.copy()
        n0 = len(scr.facts)
        e = self.src_elem(scr, src, v)
        facts = tuple(t for tag, t in scr.facts[n0:])
        ln = self.src_len(src)
        st.add(ln >= 0)
        return Seq((("map", src, v, unit(e), ln, facts),))

    # ------------------------------------------------------------ sequences
    def seq_len(self, st, seq):
        tot = 0
        terms = []
        for p in self.parts(st, seq):
            if p[0] == "u":
                tot += 1
            elif p[0] == "if":
                a, b = self.seq_len(st, p[2]), self.seq_len(st, p[3])
                terms.append(zite(p[1], as_int(a), as_int(b)))
            elif p[0] == "map":
                st.add(p[4] >= 0)
                n = const_len(p[3])
                if n is None:
                    terms.append(self.count_sym(st, p))
                elif n:
                    terms.append(p[4] if n == 1 else p[4] * n)
            elif p[0] == "hole":
                raise NeedHole(p[1])
        if not terms:
            return tot
        t = terms[0]
        for x in terms[1:]:
            t = t + x
        if tot:
            t = t + tot
        return SV("i", t)

    def count_sym(self, st, p):
        o = self.intern(st, ListC(outline(Seq((p,)))))  # how many there are does not depend on what they are
        c = uf("count", Obj, I)(o)
        ne = self.nonempty(st, Seq((p,)))
        st.add(c >= 0)
        st.add((c > 0) == ne)
        # a second element
        return c

    def nonempty(self, st, seq):
        cs = []
        for p in self.parts(st, seq):
            if p[0] == "u":
                return TRUE
            if p[0] == "if":
                cs.append(z3.If(p[1], self.nonempty(st, p[2]), self.nonempty(st, p[3])))
            elif p[0] == "map":
                s2 = self.enter_map(st, p)
                inner = self.nonempty(s2, p[3])
                cs.append(self.mk_ex(st, p[1], p[2], inner, p[4], facts=p[5]))
            elif p[0] == "hole":
                raise NeedHole(p[1])
        return simp(zor(cs))

    def enter_map(self, st, p):
        s2 = st.copy()
        s2.scope = s2.scope + (p[2],)
        s2.add(z3.And(p[2] >= 0, p[2] < p[4]))
        for f in p[5]:
            s2.add(f)
        s2.idx.append((p[1], p[2]))
        return s2

    def ixvars(self, terms, exclude=None):
        res = []
        for n, t in sorted(consts_of(terms).items(), key=lambda e: [int(x) if x.isdigit() else -1 for x in e[0].split("!")]):
            if n.startswith("ix!") and not (exclude is not None and t.eq(exclude)):
                res.append(t)
        return res

    def mk_ex(self, st, src, var, cond, hi, facts=()):
        """Bool term: exists 0<=var<hi with cond"""
        cond = simp(cond)
        if z3.is_false(cond):
            return FALSE
        if z3.is_true(cond):
            return simp(hi > 0)
        # cond independent of var
        if var.decl().name() not in consts_of([cond]) :
            return zand([cond, simp(hi > 0)])
        facts = tuple(facts)
        for at in self.atoms:
            r = self.match_atom(st, at, src, var, cond, hi, facts)
            if r is not None:
                return r
        fv = self.ixvars([cond, hi] + list(src.key) + list(facts), exclude=var)
        n = len(self.atoms)
        sorts = [I] * len(fv)

        def mk(pre, sort):
            f = z3.Function(f"{pre}!{n}", *sorts, sort) if fv else z3.Const(f"{pre}!{n}", sort)
            return (lambda *a: f(*a)) if fv else (lambda: f)

        at = dict(n=n, src=src, var=var, cond=cond, hi=hi, facts=facts, fv=fv, sym=mk("ex", B), k=mk("k", I), last=mk("kl", I))
        self.atoms.append(at)
        self.symdef[f"ex!{n}"] = lambda app: self.atom_def(at, app.children(), "k", AllFact)
        self.symdef[f"k!{n}"] = lambda app: self.atom_def(at, app.children(), "k", AllFact)
        self.symdef[f"kl!{n}"] = lambda app: self.atom_def(at, app.children(), "last", AllFact)
        return at["sym"](*fv)

    def atom_def(self, at, args, which, AF):
        pairs = [(a, b) for a, b in zip(at["fv"], args) if not a.eq(b)]
        var = at["var"]
        if any(var.decl().name() in consts_of([b]) for _, b in pairs):
            v2 = fresh("jx", I)
        else:
            v2 = var

        def sb(t):
            if v2 is not var:
                t = z3.substitute(t, (var, v2))
            return z3.substitute(t, *pairs) if pairs else t

        src = subst_src(at["src"], pairs) if pairs else at["src"]
        cond, hi = sb(at["cond"]), sb(at["hi"])
        fs = [sb(f) for f in at["facts"]]
        sym = at["sym"](*args)
        k = at[which](*args)
        kf = [z3.substitute(f, (v2, k)) for f in fs]
        facts = [z3.Implies(sym, zand([k >= 0, k < hi, z3.substitute(cond, (v2, k))] + kf))]
        pre = [zand(fs + [TRUE])] if fs else []
        alls = []
        if which == "k":
            alls.append(AF(src, v2, k, z3.Not(cond), sym))
            alls.append(AF(src, v2, hi, z3.Not(cond), z3.Not(sym)))
        else:
            alls.append(AF(src, v2, hi, z3.Not(cond), sym, lo=k + 1))
        return facts, alls, [(src, k)]

    def match_atom(self, st, at, src, var, cond, hi, facts):
        if at["src"].kind != src.kind or len(at["src"].key) != len(src.key):
            return None
        if at["src"].same(src):
            avar = at["var"]
            if not avar.eq(var):
                if any(var.eq(x) for x in at["fv"]):
                    return None
                acond = z3.substitute(at["cond"], (avar, var))
            else:
                acond = at["cond"]
            fvok = True
            if acond.eq(cond) and at["hi"].eq(hi):
                return at["sym"](*at["fv"])
            if not (at["hi"].eq(hi) or self.entails(st, at["hi"] == hi)):
                fvok = False
            if fvok and all(any(x.eq(y) for y in st.scope) for x in at["fv"]):
                if acond.eq(cond):
                    return at["sym"](*at["fv"])
                s2 = st.copy()
                s2.scope = s2.scope + (var,)
                s2.add(z3.And(var >= 0, var < hi))
                for f in facts:
                    s2.add(f)
                s2.idx.append((src, var))
                if self.entails(s2, acond == cond):
                    return at["sym"](*at["fv"])
                return None
        if not at["fv"]:
            return None
        # instance of the atom's pattern
        m = {}
        v2 = z3.Int("bound!var")
        pat = [z3.substitute(at["cond"], (at["var"], v2)), at["hi"]] + list(at["src"].key)
        tgt = [z3.substitute(cond, (var, v2)), hi] + list(src.key)
        names = {x.decl().name() for x in at["fv"]}
        for a, b in zip(pat, tgt):
            if not fo_match(a, b, names, m):
                return None
        if any("bound!var" in consts_of([t]) for t in m.values()):
            return None
        return at["sym"](*[m.get(x.decl().name(), x) for x in at["fv"]])

    def atom_of(self, sym):
        if z3.is_app(sym) and sym.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = sym.decl().name()
            if nm.startswith("ex!"):
                return self.atoms[int(nm[3:])]
        return None

    def first_of(self, at, sym):
        return at["k"](*sym.children())

    def last_of(self, at, sym):
        return at["last"](*sym.children())

    def open_part(self, st, p):
        """rename the bound variable of a map part when it clashes with the scope"""
        if p[0] == "map" and any(p[2].eq(v) for v in st.scope):
            v = self.canon_var(p[1], st.scope)
            while v.decl().name() in consts_of(walk_terms(p[3], []) + [p[4]]):
                v = self.canon_var(p[1], st.scope + (v,))
            return subst_part_bound(p, v)
        return p

    def parts(self, st, seq):
        return [self.open_part(st, p) for p in seq.parts]

    # ------------------------------------------------------------ interning
    def intern(self, st, content):
        """Obj term for an immutable snapshot, identified modulo provable equality"""
        content = self.freeze_content(st, content)
        hole = first_hole(content)
        if hole is not None:
            raise NeedHole(hole)
        if isinstance(content, ListC) and len(content.seq.parts) == 1:
            p = content.seq.parts[0]
            if p[0] == "map" and p[1].kind == "vlist" and p[4].eq(simp_len(self, p[1])) and is_identity_map(self, st, p):
                if (content.kind == "set") == self.is_set(p[1].key[0]):
                    return p[1].key[0]
        if isinstance(content, DictC) and content.base is not None and not content.upd.parts:
            return content.base
        terms = walk_terms(content, [])
        fv = self.ixvars(terms)
        bound = bound_vars(content)
        fv = [x for x in fv if not any(x.eq(b) for b in bound)]
        for kind, c2, t, fv2 in self.interned:
            if kind is not type(content):
                continue
            if len(fv) != len(fv2):
                continue
            pairs = [(a, b) for a, b in zip(fv2, fv) if not a.eq(b)]
            cc = subst(c2, pairs) if pairs else c2
            quick, self.quick = self.quick, True
            try:
                same = self.eq_content(st, cc, content)
            finally:
                self.quick = quick
            if same:
                return z3.substitute(t, *pairs) if pairs else t
        n = len(self.interned)
        tag = {ListC: "lst", DictC: "dct", InstC: "ins", FileC: "fil", StrV: "str"}[type(content)]
        sort = S if isinstance(content, StrV) else Obj
        if fv:
            t = z3.Function(f"{tag}!{n}", *([I] * len(fv)), sort)(*fv)
        else:
            t = z3.Const(f"{tag}!{n}", sort)
        self.interned.append((type(content), content, t, fv))
        name = t.decl().name()
        self.internix[name] = n
        if isinstance(content, (ListC, DictC)):
            tagv = self.env.TAG[content.kind] if isinstance(content, ListC) else self.env.TAG["dict"]

            def defs(app, content=content, fv=fv, tagv=tagv):
                fs = [uf("tag", Obj, I)(app) == tagv]
                if isinstance(content, ListC) and not getattr(self, "_in_len", False):
                    self._in_len = True
                    try:
                        pairs = [(a, b) for a, b in zip(fv, app.children()) if not a.eq(b)]
                        s0 = State()
                        ln = as_int(self.seq_len(s0, subst(content.seq, pairs))) if content.kind != "set" else None
                        if ln is not None:
                            fs.append(uf("vlen", Obj, I)(app) == ln)
                            fs.extend(t for _, t in s0.facts)
                    except (NeedHole, Unsupported):
                        pass
                    finally:
                        self._in_len = False
                return fs, [], []

            self.symdef[name] = defs
        return t

    def is_set(self, o):
        return o.get_id() in self.setobjs

    def known(self, t):
        """content behind an interned object term, or None"""
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = self.internix.get(t.decl().name())
            if n is not None:
                kind, content, t0, fv = self.interned[n]
                pairs = [(a, b) for a, b in zip(fv, t.children()) if not a.eq(b)]
                return subst(content, pairs) if pairs else content
        return None

    def freeze(self, st, v, old=None):
        """replace references by frozen snapshots (refs in `old` are kept)"""
        if isinstance(v, Ref):
            if old is not None and v.id in old:
                return v
            return Frozen(self.freeze_content(st, st.heap[v.id], old))
        if isinstance(v, tuple):
            return tuple(self.freeze(st, x, old) for x in v)
        if isinstance(v, Seq):
            out = []
            for p in v.parts:
                if p[0] == "u":
                    out.append(("u", self.freeze(st, p[1], old)))
                elif p[0] == "if":
                    out.append(("if", p[1], self.freeze(st, p[2], old), self.freeze(st, p[3], old)))
                elif p[0] == "map":
                    out.append(p[:3] + (self.freeze(st, p[3], old),) + p[4:])
                else:
                    out.append(p)
            return Seq(tuple(out))
        if isinstance(v, StrV):
            return StrV(self.freeze(st, v.seq, old), v.bytes)
        if isinstance(v, Meth):
            return Meth(self.freeze(st, v.obj, old), v.name)
        return v

    def freeze_content(self, st, c, old=None):
        if isinstance(c, ListC):
            return ListC(self.freeze(st, c.seq, old), c.kind)
        if isinstance(c, DictC):
            return DictC(c.base, c.ty, self.freeze(st, c.upd, old))
        if isinstance(c, InstC):
            return InstC(c.cls, {k: self.freeze(st, x, old) for k, x in c.fields.items()})
        if isinstance(c, FileC):
            return FileC(self.freeze(st, c.content, old), c.info)
        if isinstance(c, StrV):
            return StrV(self.freeze(st, c.seq, old), c.bytes)
        return c

    def toV(self, st, v):
        t = toV_scalar(v)
        if t is not None:
            return t
        return V.vo(self.toObj(st, v))

    def toObj(self, st, v):
        if isinstance(v, SV):
            if v.k == "o":
                return v.t
            if v.k == "V":
                return V.o(v.t)
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, InstC) and "$obj" in c.fields:
                return c.fields["$obj"].t
            return self.intern(st, c)
        if isinstance(v, Frozen):
            return self.intern(st, v.content)
        if isinstance(v, tuple):
            return self.intern(st, ListC(units(v), "tuple"))
        if isinstance(v, (list, set, frozenset, dict)):
            return self.intern(st, self.conc_content(v))
        if isinstance(v, bytes):
            return self.intern(st, ListC(units(list(v)), "bytes"))
        if isinstance(v, StrV):
            return uf("strobj", S, Obj)(self.strterm(st, v))
        if isinstance(v, Meth):
            return uf("meth_" + v.name, V, Obj)(self.toV(st, v.obj))
        if isinstance(v, Func):
            if v.frame is None:
                return pyobj_term(v.node)
            raise Unsupported("closure as a value")
        return pyobj_term(v)

    def conc_content(self, v):
        if isinstance(v, list):
            return ListC(units([self.conc(x) for x in v]), "list")
        if isinstance(v, (set, frozenset)):
            return ListC(units(sorted([self.conc(x) for x in v], key=repr)), "set")
        if isinstance(v, dict):
            return DictC(None, ("dict", "V", "V"), units([(self.conc(k), self.conc(x)) for k, x in v.items()]))
        raise Unsupported("concrete value")

    def conc(self, v):
        if isinstance(v, (list, set, frozenset, dict)):
            return Frozen(self.conc_content(v))
        if isinstance(v, tuple):
            return tuple(self.conc(x) for x in v)
        return v

    def strterm(self, st, v):
        """z3 String term of a string value"""
        if isinstance(v, str):
            return sval(v)
        if isinstance(v, SV):
            if v.k == "s":
                return v.t
            if v.k == "V":
                return V.s(v.t)
        if isinstance(v, StrV):
            ns = self.norm_str(st, v.seq)
            if len(ns) == 0:
                return sval("")
            if len(ns) == 1 and ns[0][0] == "u":
                return to_term(ns[0][1])
            out = None
            for p in ns:
                t = to_term(p[1]) if p[0] == "u" else self.intern(st, StrV(Seq((p,)), v.bytes))
                out = t if out is None else const_str_concat(out, t)
            return out
        raise Unsupported(f"string term of {v!r}")

    # ------------------------------------------------------------ normal form of chunk sequences
    def norm_str(self, st, seq):
        """chunks -> list of ('u', str value) | ('if',..) | ('map',..) with adjacent units joined"""
        out = []

        def push(t):
            if z3.is_string_value(t) and z3str(t) == "":
                return
            if out and out[-1][0] == "u":
                out[-1] = ("u", SV("s", const_str_concat(to_term(out[-1][1]), t)))
            else:
                out.append(("u", SV("s", t)))

        for p in self.parts(st, seq):
            if p[0] == "u":
                v = p[1]
                if isinstance(v, StrV):
                    for q in self.norm_str(st, v.seq):
                        if q[0] == "u":
                            push(to_term(q[1]))
                        else:
                            out.append(q)
                else:
                    push(self.strterm(st, v))
            elif p[0] == "if":
                a, b = self.norm_str(st, p[2]), self.norm_str(st, p[3])
                if all(q[0] == "u" for q in a + b) and len(a) <= 1 and len(b) <= 1:
                    ta = to_term(a[0][1]) if a else sval("")
                    tb = to_term(b[0][1]) if b else sval("")
                    push(zite(p[1], ta, tb))
                else:
                    out.append(("if", p[1], Seq(a), Seq(b)))
            elif p[0] == "map":
                s2 = self.enter_map(st, p)
                body = self.norm_str(s2, p[3])
                if not body:
                    continue
                out.append(p[:3] + (Seq(body),) + p[4:])
            elif p[0] == "hole":
                out.append(p)
        return out

    # ------------------------------------------------------------ equality proofs
    def eq_content(self, st, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, ListC):
            return a.kind == b.kind and self.eq_seq(st, a.seq, b.seq)
        if isinstance(a, DictC):
            return self.eq_dict(st, a, b)
        if isinstance(a, StrV):
            return self.eq_val(st, a, b)
        if isinstance(a, InstC):
            return (
                a.cls is b.cls
                and set(a.fields) == set(b.fields)
                and all(self.eq_val(st, a.fields[k], b.fields[k]) for k in a.fields)
            )
        if isinstance(a, FileC):
            return self.eq_val(st, StrV(a.content), StrV(b.content)) and self.eq_val(st, a.info, b.info)
        return False

    def eq_dict(self, st, a, b):
        if (a.base is None) != (b.base is None):
            return False
        if a.base is not None and not self.prove(st, a.base == b.base):
            return False
        if self.eq_seq(st, a.upd, b.upd):
            return True
        ca, cb = const_entries(a.upd), const_entries(b.upd)
        if ca is None or cb is None:
            return False
        ca, cb = self.norm_entries(ca), self.norm_entries(cb)
        for k in set(ca) | set(cb):
            pa = zor([c for c, _ in ca.get(k, [])])
            pb = zor([c for c, _ in cb.get(k, [])])
            if not self.prove(st, pa == pb):
                return False
            for c1, v1 in ca.get(k, []):
                for c2, v2 in cb.get(k, []):
                    both = zand([c1, c2])
                    if not self.feasible(st, both):
                        continue
                    s2 = st.copy()
                    s2.add(both, "pc")
                    if not self.eq_val(s2, v1, v2):
                        return False
        return True

    def norm_entries(self, lst):
        """[(cond,key,val)] in order, later entries win -> {key: [(cond,val)]} exclusive"""
        res = {}
        for c, k, v in lst:
            prev = res.get(k, [])
            if v is DEL:
                res[k] = [(zand([znot(c), pc]), pv) for pc, pv in prev]
            else:
                res[k] = [(zand([znot(c), pc]), pv) for pc, pv in prev if not z3.is_true(c)] + [(c, v)]
        return res

    def prove(self, st, t):
        if isinstance(t, bool):
            return t
        return self.entails(st, t)

    def eq_val(self, st, a, b):
        """prove that two values are the same Python value (strict: 1 is not True)"""
        if a is b:
            return True
        if isinstance(a, Poison) or isinstance(b, Poison):
            return isinstance(a, Poison) and isinstance(b, Poison)
        ka, kb = kind_of(a), kind_of(b)
        if ka and kb:
            if is_const(a) and is_const(b):
                return type(a) is type(b) and a == b
            if ka == kb:
                ta, tb = to_term(a), to_term(b)
                if ta.eq(tb):
                    return True
                return self.prove(st, ta == tb)
            ta, tb = toV_scalar(a), toV_scalar(b)
            return self.prove(st, ta == tb)
        if isinstance(a, Ref):
            a = Frozen(st.heap[a.id])
        if isinstance(b, Ref):
            b = Frozen(st.heap[b.id])
        if isinstance(a, (list, dict, set)):
            a = Frozen(self.conc_content(a))
        if isinstance(b, (list, dict, set)):
            b = Frozen(self.conc_content(b))
        if isinstance(a, StrV) or isinstance(b, StrV):
            sa, sb = as_strseq(a), as_strseq(b)
            if sa is None or sb is None:
                return False
            na, nb = self.norm_str(st, sa), self.norm_str(st, sb)
            return self.eq_seq(st, Seq(na), Seq(nb), strs=True)
        if isinstance(a, Frozen) and isinstance(b, Frozen):
            return self.eq_content(st, a.content, b.content)
        if isinstance(a, Frozen) or isinstance(b, Frozen):
            f, o = (a, b) if isinstance(a, Frozen) else (b, a)
            if isinstance(o, SV) and o.k in ("o", "V"):
                try:
                    t = self.intern(st, f.content)
                except NeedHole:
                    return False
                return self.prove(st, (o.t == t) if o.k == "o" else (o.t == V.vo(t)))
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.eq_val(st, x, y) for x, y in zip(a, b))
        if isinstance(a, Meth) and isinstance(b, Meth):
            return a.name == b.name and self.eq_val(st, a.obj, b.obj)
        if isinstance(a, Func) and isinstance(b, Func):
            return a.node is b.node and a.frame == b.frame
        try:
            return a is b or (type(a) is type(b) and a == b)
        except Exception:
            return False

    def eq_seq(self, st, a, b, strs=False):
        if a is b:
            return True
        pa, pb = self.parts(st, a), self.parts(st, b)
        while pa or pb:
            if pa and pa[0][0] == "if":
                d = self.decide(st, pa[0][1])
                if d is not None:
                    pa = list((pa[0][2] if d else pa[0][3]).parts) + pa[1:]
                    continue
            if pb and pb[0][0] == "if":
                d = self.decide(st, pb[0][1])
                if d is not None:
                    pb = list((pb[0][2] if d else pb[0][3]).parts) + pb[1:]
                    continue
            if pa and pb and pa[0][0] == "if" and pb[0][0] == "if":
                x, y = pa[0], pb[0]
                if x[1].eq(y[1]) or self.prove(st, x[1] == y[1]):
                    s1, s2 = st.copy(), st.copy()
                    s1.add(x[1], "pc")
                    s2.add(znot(x[1]), "pc")
                    if self.eq_seq(s1, x[2], y[2], strs) and self.eq_seq(s2, x[3], y[3], strs):
                        pa.pop(0)
                        pb.pop(0)
                        continue
            for p in (pa, pb):
                pass
            if (pa and pa[0][0] == "if") or (pb and pb[0][0] == "if"):
                # case split
                c = pa[0][1] if pa and pa[0][0] == "if" else pb[0][1]
                for val in (True, False):
                    s1 = st.copy()
                    s1.add(c if val else znot(c), "pc")
                    if not self.feasible(s1):
                        continue
                    xa = expand_if(pa, c, val)
                    xb = expand_if(pb, c, val)
                    if strs:
                        xa = self.norm_str(s1, Seq(xa))
                        xb = self.norm_str(s1, Seq(xb))
                    if not self.eq_seq(s1, Seq(xa), Seq(xb), strs):
                        return False
                return True
            # maps over provably empty sources vanish
            if pa and pa[0][0] == "map" and not (pb and pb[0][0] == "map"):
                if not self.feasible(st, pa[0][4] > 0) or self.body_empty(st, pa[0]):
                    pa.pop(0)
                    continue
            if pb and pb[0][0] == "map" and not (pa and pa[0][0] == "map"):
                if not self.feasible(st, pb[0][4] > 0) or self.body_empty(st, pb[0]):
                    pb.pop(0)
                    continue
            if not pa or not pb:
                return False
            x, y = pa.pop(0), pb.pop(0)
            if x[0] == "u" and y[0] == "u":
                if not self.eq_val(st, x[1], y[1]):
                    return False
            elif x[0] == "map" and y[0] == "map":
                if not self.eq_map(st, x, y, strs):
                    if self.body_empty(st, x):
                        pb.insert(0, y)
                        continue
                    if self.body_empty(st, y):
                        pa.insert(0, x)
                        continue
                    return False
            elif x[0] == "hole" and y[0] == "hole":
                if x[1] != y[1]:
                    return False
            else:
                return False
        return True

    def body_empty(self, st, p):
        if self.quick:
            return False
        s2 = self.enter_map(st, p)
        try:
            ne = self.nonempty(s2, p[3])
        except NeedHole:
            return False
        return not self.feasible(s2, ne)

    def decide(self, st, c):
        if not self.feasible(st, c):
            return False
        if not self.feasible(st, znot(c)):
            return True
        return None

    def eq_map(self, st, x, y, strs=False):
        if {x[1].kind, y[1].kind} == {"ditems", "dkeys"}:
            pass  # the same index enumerates both
        elif x[1].kind != y[1].kind:
            return False
        if len(x[1].key) != len(y[1].key):
            return False
        if not x[1].same(y[1]):
            if not all(a.sort() == b.sort() and self.prove(st, a == b) for a, b in zip(x[1].key, y[1].key)):
                return False
        if not x[2].eq(y[2]):
            y = subst_part_bound(y, x[2])
        if not (x[4].eq(y[4]) or self.prove(st, x[4] == y[4])):
            return False
        s2 = self.enter_map(st, x)
        for f in y[5]:
            s2.add(f)
        if not self.feasible(s2):
            return True
        return self.eq_seq(s2, x[3], y[3], strs)


def same_index(src):
    """dictionary items and keys are enumerated by the same index"""
    if src.kind in ("ditems", "dkeys"):
        return ("d",) + tuple(k.get_id() for k in src.key)
    return src.ident()


def fo_match(a, b, names, m):
    """first-order matching of pattern a (variables `names`) against b"""
    if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.decl().name() in names:
        n = a.decl().name()
        if n in m:
            return m[n].eq(b)
        if a.sort() != b.sort():
            return False
        m[n] = b
        return True
    if a.eq(b):
        # free pattern variables inside must map to themselves
        for n, t in consts_of([a]).items():
            if n in names:
                if n in m and not m[n].eq(t):
                    return False
                m[n] = t
        return True
    if not (z3.is_app(a) and z3.is_app(b)) or a.num_args() == 0 or a.num_args() != b.num_args():
        return False
    if not a.decl().eq(b.decl()):
        return False
    return all(fo_match(x, y, names, m) for x, y in zip(a.children(), b.children()))


def diseq(t):
    """(constant, literal, positive) of an atom constant == literal or its negation"""
    pos = True
    if z3.is_not(t):
        t, pos = t.arg(0), False
    if not z3.is_eq(t):
        return None
    a, b = t.arg(0), t.arg(1)
    if is_lit(a):
        a, b = b, a
    if is_lit(b) and z3.is_const(a) and not is_lit(a):
        return a, b, pos
    return None


def is_lit(t):
    return z3.is_int_value(t) or z3.is_string_value(t) or z3.is_true(t) or z3.is_false(t) or z3.is_rational_value(t)


def simp_or(conds):
    return simp(zor(conds))


def as_int(x):
    return z3.IntVal(x) if isinstance(x, int) else x.t


def opt_ty(v):
    """Opt(class) for an object of the class or an optional one"""
    if isinstance(v, SV) and v.ty and v.k == "o" and v.ty[0] == "cls":
        return ("opt", v.ty)
    if isinstance(v, SV) and v.k == "V" and v.ty and v.ty[0] == "opt" and v.ty[1][0] == "cls":
        return v.ty
    return None


def join_ty(a, b):
    return a if a == b else None


def part_same(x, y):
    if x is y:
        return True
    if x[0] != y[0]:
        return False
    if x[0] == "u":
        return val_same(x[1], y[1])
    if x[0] == "hole":
        return x[1] == y[1]
    return False


def val_same(a, b):
    if a is b:
        return True
    if isinstance(a, SV) and isinstance(b, SV):
        return a.k == b.k and a.t.eq(b.t)
    if is_const(a) and is_const(b):
        return type(a) is type(b) and a == b
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.id == b.id
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(val_same(x, y) for x, y in zip(a, b))
    return False


def as_strseq(v):
    if isinstance(v, StrV):
        return v.seq
    if isinstance(v, str):
        return unit(v) if v else Seq()
    if isinstance(v, SV) and v.k == "s":
        return unit(v)
    return None


def const_len(seq):
    """number of elements if it depends on nothing"""
    tot = 0
    for p in seq.parts:
        if p[0] == "u":
            tot += 1
        elif p[0] == "if" and const_len(p[2]) is not None and const_len(p[2]) == const_len(p[3]):
            tot += const_len(p[2])
        else:
            return None
    return tot


def const_entries(seq, cond=TRUE):
    """entries of a dict update sequence whose keys are all constants"""
    out = []
    for p in seq.parts:
        if p[0] == "u":
            k, v = p[1]
            if not isinstance(k, (str, int, bool, enum.Enum)) and k is not None:
                return None
            out.append((cond, k, v))
        elif p[0] == "if":
            a = const_entries(p[2], zand([cond, p[1]]))
            b = const_entries(p[3], zand([cond, znot(p[1])]))
            if a is None or b is None:
                return None
            out.extend(a)
            out.extend(b)
        else:
            return None
    return out


def expand_if(parts, c, val):
    out = []
    for p in parts:
        if p[0] == "if" and p[1].eq(c):
            out.extend((p[2] if val else p[3]).parts)
        else:
            out.append(p)
    return out


def subst_part_bound(p, newvar):
    pairs = [(p[2], newvar)]
    return (p[0], p[1], newvar, subst(p[3], pairs), p[4], tuple(z3.substitute(f, *pairs) for f in p[5]))


def bound_vars(v, out=None):
    out = [] if out is None else out
    if isinstance(v, Seq):
        for p in v.parts:
            if p[0] == "u":
                bound_vars(p[1], out)
            elif p[0] == "if":
                bound_vars(p[2], out)
                bound_vars(p[3], out)
            elif p[0] == "map":
                out.append(p[2])
                bound_vars(p[3], out)
    elif isinstance(v, tuple):
        for x in v:
            bound_vars(x, out)
    elif isinstance(v, StrV):
        bound_vars(v.seq, out)
    elif isinstance(v, Frozen):
        bound_vars(v.content, out)
    elif isinstance(v, ListC):
        bound_vars(v.seq, out)
    elif isinstance(v, DictC):
        bound_vars(v.upd, out)
    elif isinstance(v, InstC):
        for x in v.fields.values():
            bound_vars(x, out)
    elif isinstance(v, FileC):
        bound_vars(v.content, out)
    return out


def simp_len(eng, src):
    return eng.src_len(src)


def is_identity_map(eng, st, p):
    if len(p[3].parts) != 1 or p[3].parts[0][0] != "u":
        return False
    e = eng.src_elem(st.copy(), p[1], p[2])
    return val_same(e, p[3].parts[0][1])
