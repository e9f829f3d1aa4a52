"""Verification of one contract: the real function's AST against its specification function."""
from __future__ import annotations

import ast
import copy
import time
import inspect
import traceback

import z3

from . import world
from .core import *
from .engine import *
from .engine import as_int
from .interp import Interp
from .models import deref
from .values import *
from .values import V, Obj, I, B, S, R


class Result:
    def __init__(self, target):
        self.target = target
        self.status = "unsupported"  # proved | failed | unsupported
        self.obligations = []  # (name, ok)
        self.reason = ""
        self.paths = 0
        self.queries = 0
        self.solver_s = 0.0
        self.wall = 0.0
        self.assumed = []
        self.inlined = []
        self.model = None
        self.failed = None
        self.unreached = []
        self.timeouts = 0

    def discharged(self):
        return sum(1 for _, ok in self.obligations if ok)


def mk_param(eng, st, name, ty):
    if callable(ty):
        return ty(eng, st, name)
    t = z3.Const(f"p!{name}", sort_of(ty))
    return eng.wrap(st, t, ty)


def Mut(ty):
    """a parameter object that the function may change"""

    def make(eng, st, name):
        o = z3.Const(f"p!{name}", Obj)
        eng.type_fact(st, o, ty, TRUE)
        if ty[0] == "dict":
            return st.alloc(DictC(o, ty, Seq()))
        return st.alloc(ListC(eng.seq_of_src(st, Src("vlist", (o,), ty[1])), ty[0]))

    make.ty = ty
    return make


def File(eng, st, name):
    """an open text file; what a function writes is appended"""
    return st.alloc(FileC(Seq((("u", SV("s", z3.String(f"p!{name}.before"))),)), (name,)))


def Inst(cls, **fields):
    """a parameter: a new object of the class with the given fields (an __init__ gets one without fields)"""

    def make(eng, st, name):
        return st.alloc(InstC(cls, {k: mk_param(eng, st, f"{name}.{k}", t) for k, t in fields.items()}))

    make.fields = fields
    return make


def Items(ty, *keys):
    """a dictionary with exactly these keys, in this order"""

    def make(eng, st, name):
        r = st.alloc(DictC(None, ("dict", "V", "V"), Seq()))
        for i, k in enumerate(keys):
            eng.dict_put(st, r, k, mk_param(eng, st, f"{name}.{i}", ty))
        return r

    return make


def Const(v):
    return lambda eng, st, name: v


def setup(env, con, timeout, deadline):
    eng = Interp(env, timeout)
    eng.deadline = deadline
    eng.current = con
    st = State()
    for name, obj, maker in env.globals_.values():
        st.heap[name] = maker(eng, st)
    return eng, st


def get_func(env, target):
    mod, q = target.split(":")
    m = env.module(mod)
    node = m.index.get(q)
    if node is None:
        raise Unsupported(f"function {q} not found in {mod}")
    return Func(node, m, None, q)


def run_func(eng, st, f, args):
    """outcomes of the function body itself (not its contract)"""
    return eng.explore2(st, f, args)


class VInterp(Interp):
    def explore2(self, st, f, args):
        n0 = len(st.facts)
        outs = self.explore(st, lambda s: self.inline(s, f, args, {}))
        return outs


def verify(env, con, timeout=4000, budget=120, want_model=True):
    res = Result(con.target)
    t0 = time.time()
    eng = VInterp(env, timeout)
    eng.deadline = t0 + budget
    eng.current = con
    try:
        for v in con.variants:
            if res.status != "failed":
                c2 = copy.copy(con)
                c2.params = dict(con.params, **v)
                _verify(env, c2, eng, res)
    except Unsupported as e:
        res.status, res.reason = "unsupported", f"{e}"
    except NeedHole as e:
        res.status, res.reason = "unsupported", f"loop value {e.loc}"
    except (MergeFail, RecursionError) as e:
        res.status, res.reason = "unsupported", f"{type(e).__name__}: {e}"
    except PyRaise as e:
        res.status, res.reason = "unsupported", f"stray {e!r}"
    except (z3.Z3Exception, KeyError, AttributeError, IndexError, TypeError, AssertionError, ValueError) as e:
        res.status, res.reason = "unsupported", "engine: " + traceback.format_exc()[-900:]
    res.queries = eng.solver.queries
    res.solver_s = eng.solver.time
    res.timeouts = eng.solver.unknowns
    res.wall = time.time() - t0
    res.unreached = []
    if res.status == "proved":
        f = get_func(env, con.target)
        own = {id(x) for n in ast.walk(f.node) if id(n) in env.inner for x in ast.walk(n)}  # functions inside with contracts of their own
        res.unreached = sorted({n.lineno for n in ast.walk(f.node) if isinstance(n, ast.stmt) and n is not f.node and id(n) not in eng.cover
                                and id(n) not in own and not silent(n)})
    res.assumed = sorted(eng.assumed)
    res.inlined = sorted(eng.inlined)
    return res


def silent(n):
    """statements without effect in the proof: docstrings, imports, declarations"""
    return isinstance(n, (ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Pass)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)


def init_state(env, eng):
    st = State()
    for name, obj, maker in env.globals_.values():
        st.heap[name] = maker(eng, st)
    return st


def _verify(env, con, eng, res):
    st = init_state(env, eng)
    f = get_func(env, con.target)
    anames = [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
    params = {}
    order = []
    decos = [d.id for d in f.node.decorator_list if hasattr(d, "id")]
    for n in con.params:
        v = mk_param(eng, st, n, con.params[n])
        params[n] = v
        order.append(n)
    real_names = [n for n in anames if n not in ("self", "cls")] if "self" not in con.params else anames
    missing = [n for n in order if n not in anames and n not in ("self",)]
    if missing:
        # parameters were renamed: bind by position
        real_names = real_names[: len(order)]
    # preconditions
    if con.requires is not None:
        rf = env.func_of(con.requires)
        outs = eng.explore(st, lambda s: eng.test(s, eng.inline(s, rf, [params[n] for n in order], {})))
        good = [(s, c) for s, c in outs if c[0] == "ok" and c[1]]
        if not good:
            raise Unsupported("precondition is unsatisfiable")
        states = [s for s, _ in good]
    else:
        states = [st]
    if con.cases is not None:
        split = []
        for s0 in states:
            conds = con.cases(eng, s0, params)
            if not eng.prove(s0, zor(conds)):
                raise Unsupported("the cases are not complete")
            for c in conds:
                s1 = s0.copy()
                s1.add(c, "pc")
                if eng.feasible(s1):
                    split.append(s1)
        states = split
    if not any(eng.feasible(s) for s in states):
        raise Unsupported("vacuous precondition")
    sf = env.func_of(con.spec)
    if sf is None:
        raise Unsupported("specification not found")
    why = defaults(env, con, order)
    if why is not None:
        res.obligations.append((f"{con.target.split(':')[1]}: default arguments", not why))
        if why:
            res.status, res.reason, res.failed, res.model = "failed", why, res.obligations[-1][0], None
            return
    heap_ids = reachable(st, params.values())
    scrap = set(reachable(st, [params[n] for n in con.scrap if n in params]))
    for pre in states:
        args = [params[n] for n in order]
        kwargs = {}
        fr = f
        if "classmethod" in decos or (anames and anames[0] == "cls"):
            modobj = f.mod.module
            cls = modobj
            for part in f.qual.split(".")[:-1]:
                cls = getattr(cls, part)
            fr = Func(f.node, f.mod, None, f.qual, None, cls)
        routs = eng.explore(pre, lambda s: eng.inline(s, fr, args, {}))
        live = 0
        alone = None
        seen = []
        for i, (s, c) in enumerate(routs):
            if not eng.feasible(s):
                continue
            live += 1
            rv = eng.freeze(s, c[1]) if c[0] == "ok" else None
            if con.indep:
                if alone is None:
                    alone = eng.explore(pre, lambda q: eng.inline(q, sf, args, {}))
                souts = [(joined(s, q), d) for q, d in alone]
            else:
                sp = pre.copy()
                sp.facts, sp._seen = list(s.facts), set(s._seen)
                sp.all, sp.idx = list(s.all), list(s.idx)
                souts = eng.explore(sp, lambda q: eng.inline(q, sf, args, {}))
            for j, (t, d) in enumerate(souts):
                if not eng.feasible(t):
                    continue
                seen.append((t, d))
                res.paths += 1
                pid = f"{con.target.split(':')[1]}/path{len(res.obligations)}"
                a = "raise " + c[1].cls.__name__ if c[0] == "raise" else "return"
                b = "raise " + d[1].cls.__name__ if d[0] == "raise" else "return"
                ok = a == b
                res.obligations.append((f"{pid}: completion ({b})", ok))
                if not ok:
                    return fail(con, eng, res, t, params, f"{pid}: code does '{a}', contract says '{b}'")
                if c[0] == "ok":
                    dv = eng.freeze(t, d[1])
                    ok = eng.eq_val(t, rv, dv)
                    res.obligations.append((f"{pid}: result", ok))
                    if not ok:
                        return fail(con, eng, res, t, params, f"{pid}: result {rv!r:.300} is not proved equal to {dv!r:.300}", (rv, dv))
                for hid in heap_ids + [n for n in st.heap if isinstance(n, str)]:
                    if c[0] == "raise" and hid in heap_ids[:1] and con.target.endswith(".__init__"):
                        continue  # no object comes into being
                    if c[0] == "raise" and (hid in scrap or hid == EV and "messages" in con.scrap and c[1].cls is not SystemExit):
                        continue
                    ca, cb = s.heap[hid], t.heap[hid]
                    if ca is pre.heap.get(hid) and cb is pre.heap.get(hid):
                        continue
                    ok = eng.eq_content(t, eng.freeze_content(s, ca), eng.freeze_content(t, cb))
                    what = "effects" if hid == EV else f"state of {hid}"
                    res.obligations.append((f"{pid}: {what}", ok))
                    if not ok:
                        return fail(con, eng, res, t, params, f"{pid}: {what}: {ca!r:.300} is not proved equal to {cb!r:.300}")
                for n in sorted(set(s.attrw) | set(t.attrw)):
                    qa, qb = eng.freeze(s, s.attrw.get(n, Seq())), eng.freeze(t, t.attrw.get(n, Seq()))
                    ok = eng.eq_seq(t, qa, qb)
                    res.obligations.append((f"{pid}: writes of .{n}", ok))
                    if not ok:
                        return fail(con, eng, res, t, params, f"{pid}: writes of .{n} {qa!r:.300} / {qb!r:.300}")
                if s.world is not None or t.world is not None:
                    wa, wb = world.cur(s), world.cur(t)
                    ok = wa.eq(wb) or eng.prove(t, wa == wb)
                    res.obligations.append((f"{pid}: object writes", ok))
                    if not ok:
                        return fail(con, eng, res, t, params, f"{pid}: object writes {wa!r:.300} / {wb!r:.300}")
                # postconditions stated as a predicate
                if con.ensures is not None and c[0] == "ok":
                    ef = env.func_of(con.ensures)
                    eouts = eng.explore(t, lambda q: eng.truth(q, eng.inline(q, ef, args + [d[1]], {})))
                    for q, e in eouts:
                        ok = e[0] == "ok" and eng.prove(q, e[1])
                        res.obligations.append((f"{pid}: postcondition", ok))
                        if not ok:
                            return fail(con, eng, res, q, params, f"{pid}: postcondition {con.ensures.__name__}")
        if not live:
            raise Unsupported("no feasible path (vacuous)")
        if con.mode == "opaque":
            frame(con, eng, res, pre, params, seen)
            if res.status == "failed":
                return
    if not res.obligations:
        raise Unsupported("no obligations")
    res.status = "proved"


def reachable(st, vals):
    """the objects of the heap that the parameters are or hold"""
    out, todo = [], list(vals)
    while todo:
        v = todo.pop(0)
        if isinstance(v, Ref) and v.id not in out:
            out.append(v.id)
            c = st.heap[v.id]
            if isinstance(c, InstC):
                todo += list(c.fields.values())
    return out


def frame(con, eng, res, pre, params, outs):
    """what the contract hides from callers stays within what it declares: exceptions, changed state, state read"""
    env = eng.env
    name = con.target.split(":")[1]
    why = []
    terms = []
    for t, d in outs:
        exit_ = d[0] == "raise" and d[1].cls is SystemExit
        if d[0] == "raise" and d[1].cls not in con.raises:
            why.append(f"raises {d[1].cls.__name__}")
        if d[0] == "ok" and con.fresh and not (isinstance(d[1], Ref) and d[1].id not in pre.heap):
            why.append("returns an object that is not its own")
        if d[0] == "ok":
            walk_terms(eng.freeze(t, d[1]), terms)
        terms += [x for tag, x in t.facts[len(pre.facts):] if tag == "pc"]
        if exit_ and not con.effect and not eng.eq_content(t, eng.freeze_content(t, t.heap[EV]), ListC(eng.freeze_content(pre, pre.heap[EV]).seq + unit(("exit", con.exit_code)))):
            why.append("exits otherwise than by exit(1)" + repr(t.heap[EV]))
        own = {i: n for n, v in params.items() for i in reachable(pre, [v])}
        for hid in list(own) + [n for n in pre.heap if isinstance(n, str)]:
            if t.heap[hid] is pre.heap[hid]:
                continue
            if hid == EV and (con.effect or exit_):
                continue
            n = own.get(hid, hid)
            was, now = pre.heap[hid], t.heap[hid]
            if isinstance(was, InstC):
                if n in con.mutates and any(isinstance(x, Ref) and now.fields.get(k) is not x and getattr(now.fields.get(k), "id", None) != x.id for k, x in was.fields.items()):
                    why.append(f"replaces a list of {n}")
            if n not in con.mutates and not (n == "self" and con.writes) and not eng.eq_content(t, eng.freeze_content(t, t.heap[hid]), eng.freeze_content(pre, pre.heap[hid])):
                why.append(f"changes {n}")
            walk_terms(eng.freeze_content(t, t.heap[hid]), terms)
        if t.attrw:
            why.append("writes attributes")
        if t.world is not None and not t.world.eq(world.W0):
            if not con.writes:
                why.append("writes objects")
            terms.append(t.world)
    names = mentioned(eng, terms)
    for g in env.globalnames:
        if f"p!{g}" in names and g not in con.reads and g not in con.mutates:
            why.append(f"reads {g}")
    if not con.writes:
        have = set()
        for r in con.reads:
            if r in env.readsets:
                for a in env.readsets[r]:
                    have |= {a} | set(env.rules.reads.get(a, ()))
        attrs = set() if "fresh" in con.reads else {a for c in env.classes.values() if c.world for a in list(c.fields) + list(c.optional) if f"at_{c.name}_{a}" in names}
        if "fresh" in con.reads:
            pass
        elif {"xget", "anyget"} & names or any(n.startswith("model_dump") for n in names):
            attrs.add("datatype")
        if "pre_e" in names or "pre_n" in names:
            attrs.add("children")
        for a in sorted(attrs):
            if not ({a} | set(env.rules.reads.get(a, ()))) <= have | set(UNWRITTEN):
                why.append(f"reads .{a}")
        for c in env.contracts.values():
            if c.mode == "opaque" and ({f"ret:{c.uid}", f"ret0:{c.uid}"} & names) and not c.writes:
                for r in c.reads:
                    if r in env.readsets and not set(env.readsets[r]) <= have | set(UNWRITTEN):
                        why.append(f"reads {r} through {c.target}")
    res.obligations.append((f"{name}: frame", not why))
    if why:
        res.status, res.failed = "failed", res.obligations[-1][0]
        res.reason = "the contract does not declare: " + ", ".join(sorted(set(why)))


UNWRITTEN = ("path", "ancestors", "leaves", "root", "size", "height", "depth", "descendants", "fqn")


def mentioned(eng, terms):
    """names of the symbols the terms depend on, also through definitions"""
    from .loops import decl_names, def_terms

    seen, todo = set(), decl_names(terms)
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        todo |= decl_names(def_terms(eng, n)) - seen
    return seen


def defaults(env, con, order):
    """the default values the contract states are the function's; None when it states none"""
    want = {n: p.default for n, p in inspect.signature(con.spec).parameters.items() if p.default is not p.empty}
    if not want:
        return None
    mod, q = con.target.split(":")
    o = env.module(mod).module
    for part in q.split("."):
        o = getattr(o, part)
    have = list(inspect.signature(inspect.unwrap(o)).parameters.items())
    names = [n for n, _ in have if n not in ("self", "cls") or n in order]
    have = dict(have)
    for i, n in enumerate(inspect.signature(con.spec).parameters):
        if n not in want:
            continue
        real = have.get(n) or have.get(names[i] if i < len(names) else None)
        got = real.default if real is not None else inspect.Parameter.empty
        if type(got) is not type(want[n]) or got != want[n]:
            return f"the default of {n} is {got!r}, the contract says {want[n]!r}"
    return ""


def joined(s, q):
    """the specification's state with the facts of the code's path added"""
    t = q.copy()
    for tag, f in s.facts:
        t.add(f, tag)
    t.all = t.all + [a for a in s.all if not any(a is b for b in t.all)]
    t.idx = t.idx + list(s.idx)
    return t


def fail(con, eng, res, st, params, why, neq=None):
    res.status = "failed"
    res.reason = why
    res.failed = res.obligations[-1][0]
    try:
        extra = []
        if neq is not None and kind_of(neq[0]) and kind_of(neq[1]):
            extra = [toV_scalar(neq[0]) != toV_scalar(neq[1])]
        fs = eng.facts(st, tuple(extra))
        r = eng.solver.check(fs, 3000, model=True)
        if r == z3.sat and eng.solver.last_model is not None:
            res.model = model_args(eng.solver.last_model, params)
    except Exception:
        res.model = None


def model_args(m, params):
    out = {}
    for n, v in params.items():
        if isinstance(v, SV):
            val = m.eval(v.t, model_completion=True)
            out[n] = pyval(val)
        elif is_const(v):
            out[n] = v
        else:
            out[n] = ("unknown",)
    return out


def pyval(t):
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return float(t.as_fraction())
    if z3.is_string_value(t):
        return z3str(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    if z3.is_app(t):
        n = t.decl().name()
        if n == "none":
            return None
        if n in ("vb", "vi", "vr", "vs"):
            return pyval(t.arg(0))
    return ("unknown",)
