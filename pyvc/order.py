"""Determinism of a function: no outcome depends on the iteration order of a set, no file keeps what it held before.

The function is executed symbolically as for its contract; results, effects, written state and path conditions are terms over its
inputs. Iterating over a set gives its elements in an arbitrary order (a `setorder` source, elements selem_*). The obligation of a
path holds when no such order is left in what the path produces. Sorting without a key and existence tests do not depend on the
order of what they are applied to."""
from __future__ import annotations

import copy
import time

import z3

from . import world
from .core import *
from .engine import *
from .interp import is_unit_map
from .loops import decl_names
from .runner import Result, get_func, init_state, mk_param
from .values import *
from .models import EV
from .values import Obj


class Walk:
    """looks for orders of sets in values, through definitions"""

    def __init__(self, eng):
        self.eng, self.seen, self.why = eng, set(), None

    def hit(self, what):
        self.why = self.why or what

    def src(self, s, ordered=True):
        """a source; -> the elements are in an arbitrary order"""
        free = s.kind == "setorder" or (s.kind == "vlist" and self.eng.is_set(s.key[0]))
        if free and ordered:
            self.hit(f"iterates over a set ({s.key[0]})")
        for t in s.key:
            self.term(t, True)
        return free

    def value(self, v, ordered=True):
        if self.why:
            return
        if isinstance(v, SV):
            self.term(v.t)
        elif isinstance(v, tuple):
            for x in v:
                self.value(x)
        elif isinstance(v, Seq):
            for p in v.parts:
                if p[0] == "u":
                    self.value(p[1])
                elif p[0] == "if":
                    self.term(p[1])
                    self.value(p[2], ordered)
                    self.value(p[3], ordered)
                elif p[0] == "map":
                    body, hi = p[3], p[4]
                    if self.src(p[1], ordered) and not ordered:
                        body = self.forget(p[1], p[2], body)
                    self.term(hi)
                    self.value(body, ordered)
        elif isinstance(v, StrV):
            self.value(v.seq)
        elif isinstance(v, Frozen):
            self.value(v.content)
        elif isinstance(v, ListC):
            self.value(v.seq, v.kind not in ("set", "frozenset"))
        elif isinstance(v, DictC):
            if v.base is not None:
                self.term(v.base)
            self.value(v.upd)
        elif isinstance(v, InstC):
            for x in v.fields.values():
                self.value(x)
        elif isinstance(v, FileC):
            self.value(v.content)
            self.value(v.info)
        elif isinstance(v, Meth):
            self.value(v.obj)
        elif isinstance(v, Src):
            self.src(v)
        elif z3.is_expr(v):
            self.term(v)

    def forget(self, src, i, v):
        """the element at position i as such"""
        if src.kind != "setorder":
            return v
        el = self.eng.env.set_elem_term(src, i)
        return subst(v, [(el, z3.Const("elem!any", el.sort()))])

    def term(self, t, is_set=False):
        """terms in which an order may show"""
        if self.why or not z3.is_expr(t) or not z3.is_app(t):
            return
        k = t.get_id()
        if k in self.seen:
            return
        self.seen.add(k)
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = t.decl().name()
            if n.startswith("selem_"):
                return self.hit(f"an element of a set by its position ({t})")
            if n in ("sorted", "sorted_rev") and t.num_args() == 1:
                c = self.eng.known(t.arg(0))
                if c is not None:
                    self.value(ListC(c.seq, "set"))
                    return
            if n in ("sorted_by", "sorted_rev_by") and t.num_args() == 2:
                c, ks = self.eng.known(t.arg(0)), self.eng.known(t.arg(1))
                if c is not None and ks is not None and self.total(c.seq, ks.seq):
                    self.value(ListC(c.seq, "set"))
                    self.value(ListC(ks.seq, "set"))
                    return
            if "!" in n and t.num_args() <= 4:
                self.definition(n)
        for x in t.children():
            self.term(x)

    def total(self, seq, keys):
        """the sort key of every element contains the element: equal keys, equal elements"""
        if len(seq.parts) != 1 or len(keys.parts) != 1:
            return False
        p, q = seq.parts[0], keys.parts[0]
        if p[0] != "map" or q[0] != "map" or not is_unit_map(p) or not is_unit_map(q) or not p[1].same(q[1]):
            return False
        el, key = p[3].parts[0][1], subst(q[3].parts[0][1], [(q[2], p[2])])
        while isinstance(key, SV) and key.k in "oV":
            t = key.t.arg(0) if key.k == "V" and key.t.num_args() == 1 and key.t.decl().name() == "vo" else key.t
            c = self.eng.known(t)
            if c is None or not isinstance(c, ListC):
                break
            key = tuple(x[1] for x in c.seq.parts if x[0] == "u")
        return any(isinstance(x, SV) and isinstance(el, SV) and x.k == el.k and x.t.eq(el.t) for x in (key if isinstance(key, tuple) else (key,)))

    def definition(self, n):
        eng = self.eng
        if ("def", n) in self.seen:
            return
        self.seen.add(("def", n))
        pre, _, i = n.partition("!")
        if pre in ("ex", "k", "kl") and i.isdigit():
            at = eng.atoms[int(i)]
            cond, facts = at["cond"], at["facts"]
            if self.src(at["src"], False):
                el = z3.Const(n, I) if pre != "ex" else None
                vs = [x for x in (at.get("var"), el) if x is not None]
                for x in vs:
                    e = eng.env.set_elem_term(at["src"], x) if at["src"].kind == "setorder" else None
                    if e is not None:
                        cond = subst(cond, [(e, z3.Const("elem!any", e.sort()))])
                facts = ()
            self.term(cond)
            self.term(at["hi"])
            for f in facts:
                self.term(f)
        elif pre == "F":
            for g in eng.folds:
                if any(l["sym"].decl.name() == n for l in g["locs"]):
                    self.src(g["src"])
                    self.term(g["hi"])
                    for l in g["locs"]:
                        self.value(l["init"])
                        self.value(l["step"])
        elif n in eng.internix:
            self.value(eng.interned[eng.internix[n]][1])


def verify(env, con, timeout=4000, budget=60):
    from .runner import VInterp

    res = Result(con.target)
    t0 = time.time()
    eng = VInterp(env, timeout)
    eng.deadline = t0 + budget
    eng.current = con
    try:
        for v in con.variants:
            if res.status != "failed":
                c2 = copy.copy(con)
                c2.params = dict(con.params, **v)
                run(env, c2, eng, res)
    except Unsupported as e:
        res.status, res.reason = "unsupported", f"{e}"
    except Exception as e:
        import traceback

        res.status, res.reason = "unsupported", "engine: " + traceback.format_exc()[-600:]
    res.queries, res.solver_s, res.wall = eng.solver.queries, eng.solver.time, time.time() - t0
    res.assumed, res.inlined = sorted(eng.assumed), sorted(eng.inlined)
    return res


def run(env, con, eng, res):
    st = init_state(env, eng)
    f = get_func(env, con.target)
    anames = [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
    decos = [d.id for d in f.node.decorator_list if hasattr(d, "id")]
    params = {n: mk_param(eng, st, n, con.params[n]) for n in con.params}
    states = [st]
    if con.requires is not None:
        rf = env.func_of(con.requires)
        outs = eng.explore(st, lambda s: eng.test(s, eng.inline(s, rf, list(params.values()), {})))
        states = [s for s, c in outs if c[0] == "ok" and c[1]]
    name = con.target.split(":")[1]
    for pre in states:
        fr = f
        if "classmethod" in decos or (anames and anames[0] == "cls"):
            cls = f.mod.module
            for part in f.qual.split(".")[:-1]:
                cls = getattr(cls, part)
            fr = Func(f.node, f.mod, None, f.qual, None, cls)
        outs = eng.explore(pre, lambda s: eng.inline(s, fr, list(params.values()), {}))
        for i, (s, c) in enumerate(outs):
            if not eng.feasible(s):
                continue
            why = look(eng, pre, s, c)
            if why and (con.mode == "inline" or why == APPENDS):
                # declared by the contract: callers execute it and are checked themselves; what is appended to is stated there
                sf = env.func_of(con.spec)
                spec = eng.explore(pre, lambda q: eng.inline(q, sf, list(params.values()), {}))
                if any(eng.feasible(q) and look(eng, pre, q, d) == why or (why != APPENDS and look(eng, pre, q, d) not in (None, APPENDS)) for q, d in spec):
                    res.obligations.append((f"{name}/path{i}: what it passes on is declared by its contract ({why})", True))
                    continue
            res.paths += 1
            res.obligations.append((f"{name}/path{i}: no order of a set in the outcome, no earlier content of a file", not why))
            if why:
                res.status, res.failed = "failed", res.obligations[-1][0]
                res.reason = f"{name}/path{i}: {why}"[:600]
                return
    if not res.obligations:
        raise Unsupported("no feasible path")
    res.status = "proved"


def look(eng, pre, s, c):
    w = Walk(eng)
    for tag, t in s.facts[len(pre.facts):]:
        if tag == "pc":
            w.term(t)
    if c[0] == "ok":
        w.value(eng.freeze(s, c[1]))
    for h, x in s.heap.items():
        if h in pre.heap and x is not pre.heap[h]:
            w.value(eng.freeze_content(s, x))
    for n, x in s.attrw.items():
        w.value(eng.freeze(s, x))
    if s.world is not None:
        w.term(s.world)
    return w.why or appends(eng, s, s.heap[EV].seq, [])


APPENDS = "adds to what the file held before"


def appends(eng, s, seq, done):
    """a file is opened for appending that was not written before in this run"""
    for p in seq.parts:
        if p[0] == "u" and isinstance(p[1], tuple) and len(p[1]) == 3 and p[1][0] == "open":
            t = eng.toV(s, p[1][1])
            if p[1][2] == "w":
                done.append(t)
            elif not any(x.eq(t) for x in done):
                return APPENDS
        elif p[0] == "if":
            a = appends(eng, s, p[2], list(done)) or appends(eng, s, p[3], list(done))
            if a:
                return a
        elif p[0] == "map":
            a = appends(eng, s, p[3], list(done))
            if a:
                return a
    return None
