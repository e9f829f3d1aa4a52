"""Symbolic state, solver access, sequences, equality."""
from __future__ import annotations

import time

import z3

from .values import *
from .values import V, Obj, I, B, S, R


def _fast_z3():
    """z3's accessors of valid terms cannot fail: leave out the error query after each call"""
    import z3.z3 as m
    from z3 import z3core

    for n in ("get_ast_kind", "inc_ref", "dec_ref", "get_sort", "get_ast_id", "is_eq_ast", "get_app_decl", "get_decl_kind", "get_app_num_args",
              "get_app_arg", "get_sort_kind", "is_finite_set_sort", "get_decl_name", "get_symbol_kind"):
        f = getattr(m, "Z3_" + n, None)
        e = getattr(f, "__defaults__", None)
        if e and len(e) == 1 and hasattr(e[0], "f"):
            setattr(m, "Z3_" + n, e[0].f)


_fast_z3()


class MergeFail(Exception):
    pass


class AllFact:
    """guard => for all 0 <= j < hi : cond[var := j]   (j indexes src)"""

    __slots__ = ("src", "var", "hi", "cond", "guard", "lo")

    def __init__(self, src, var, hi, cond, guard, lo=None):
        self.src, self.var, self.hi, self.cond, self.guard, self.lo = src, var, hi, cond, guard, lo

    def subst(self, pairs):
        return AllFact(
            subst_src(self.src, pairs),
            self.var,
            z3.substitute(self.hi, *pairs),
            z3.substitute(self.cond, *pairs),
            z3.substitute(self.guard, *pairs),
            None if self.lo is None else z3.substitute(self.lo, *pairs),
        )


EV = "EV"


class State:
    __slots__ = ("frames", "heap", "facts", "all", "idx", "scope", "attrw", "world", "_seen")

    def __init__(self):
        self.frames = {}
        self.heap = {EV: ListC(Seq())}
        self.facts = []  # ('pc'|'def', term)
        self.all = []
        self.idx = []
        self.scope = ()
        self.attrw = {}
        self.world = None
        self._seen = set()

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.facts = list(self.facts)
        s.all = list(self.all)
        s.idx = list(self.idx)
        s.scope = self.scope
        s.attrw = dict(self.attrw)
        s.world = self.world
        s._seen = set(self._seen)
        return s

    def become(self, o):
        for a in self.__slots__:
            setattr(self, a, getattr(o, a))

    def add(self, t, tag="def"):
        if z3.is_true(t):
            return
        key = (tag, t.get_id())
        if key in self._seen:
            return
        self._seen.add(key)
        self.facts.append((tag, t))

    def alloc(self, content):
        r = Ref(next_id())
        self.heap[r.id] = content
        return r


CHOOSERS = [()]  # the path being explored (engine.explore)


def next_id():
    """a name for a new object or frame: the same one when the same path prefix is executed again"""
    chs = CHOOSERS[0]
    if not chs:
        return fresh_id()
    ch = chs[-1]
    k = (tuple(i for i, _ in ch.dec[: ch.pos]), ch.n)
    ch.n += 1
    r = ch.ids.get(k)
    if r is None:
        r = ch.ids[k] = fresh_id()
    return r


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def zand(xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if not xs:
        return TRUE
    if any(z3.is_false(x) for x in xs):
        return FALSE
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def zor(xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if not xs:
        return FALSE
    if any(z3.is_true(x) for x in xs):
        return TRUE
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def znot(x):
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def zite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def simp(t):
    return z3.simplify(t)


class Solver:
    """solver front end with memoisation and counters"""

    def __init__(self, timeout=4000):
        self.timeout = timeout
        self.memo = {}
        self.keep = []
        self.queries = 0
        self.time = 0.0
        self.unknowns = 0
        self.last_model = None

    def check(self, terms, timeout=None, model=False):
        terms = [t for t in terms if not z3.is_true(t)]
        key = (frozenset(t.get_id() for t in terms), model)
        if key in self.memo and not model:
            return self.memo[key]
        t0 = time.time()
        res = None
        to = timeout or self.timeout
        for tactic in (0, 1):
            s = z3.Solver()
            s.set("timeout", to)
            if tactic == 1:
                s.set("random_seed", 7)
                s.set("smt.string_solver", "seq")
            for t in terms:
                s.add(t)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            self.queries += 1
            if r != z3.unknown:
                res = r
                if r == z3.sat and model:
                    self.last_model = s.model()
                break
            self.unknowns += 1
            if not model:
                break
        if res is None:
            res = z3.unknown
        self.time += time.time() - t0
        self.memo[key] = res
        self.keep.extend(terms)
        return res


# ------------------------------------------------------------------ numeric/eq
def v_isnum(t):
    return z3.Or(V.is_vb(t), V.is_vi(t), V.is_vr(t))


def v_num(t):
    return z3.If(
        V.is_vb(t), z3.If(V.b(t), z3.RealVal(1), z3.RealVal(0)), z3.If(V.is_vi(t), z3.ToReal(V.i(t)), V.r(t))
    )


def toV_scalar(v):
    if isinstance(v, SV):
        if v.k == "V":
            return v.t
        return {"b": V.vb, "i": V.vi, "r": V.vr, "s": V.vs, "o": V.vo}[v.k](v.t)
    if v is None:
        return V.none
    if isinstance(v, bool):
        return V.vb(z3.BoolVal(v))
    if isinstance(v, int):
        return V.vi(z3.IntVal(v))
    if isinstance(v, float):
        return V.vr(to_term(v))
    if isinstance(v, str):
        return V.vs(sval(v))
    return None


_CTOR = {"vb": "b", "vi": "i", "vr": "r", "vs": "s"}


def narrowV(t, ty=None):
    """SV for a V-sorted term, narrowed when it is syntactically a constructor"""
    if z3.is_app(t) and t.num_args() == 1 and t.decl().name() in _CTOR:
        return lit(SV(_CTOR[t.decl().name()], t.arg(0)))
    if z3.is_app(t) and t.decl().name() == "none":
        return None
    if z3.is_app(t) and t.num_args() == 1 and t.decl().name() == "vo" and ty and ty != "V" and ty[0] != "opt":
        return SV("o", t.arg(0), ty)
    return SV("V", t, ty)


def lit(v):
    """SV holding a literal -> python constant"""
    if not isinstance(v, SV):
        return v
    if v.k == "b":
        if z3.is_true(v.t):
            return True
        if z3.is_false(v.t):
            return False
    elif v.k == "i":
        if z3.is_int_value(v.t):
            return v.t.as_long()
    elif v.k == "s":
        if z3.is_string_value(v.t):
            return z3str(v.t)
    return v


def z3str(t):
    s = t.as_string()
    # decode \u{..}
    import re as _re

    return _re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


def const_str_concat(a, b):
    if z3.is_string_value(a) and z3str(a) == "":
        return b
    if z3.is_string_value(b) and z3str(b) == "":
        return a
    if z3.is_string_value(a) and z3.is_string_value(b):
        return sval(z3str(a) + z3str(b))
    # flatten: right literal merging
    xs = []
    for t in (a, b):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            xs.extend(t.children())
        else:
            xs.append(t)
    out = []
    for t in xs:
        if out and z3.is_string_value(t) and z3.is_string_value(out[-1]):
            out[-1] = sval(z3str(out[-1]) + z3str(t))
        else:
            out.append(t)
    return out[0] if len(out) == 1 else z3.Concat(*out)


def str_of_V(t):
    return uf("py_str", V, S)(t)
