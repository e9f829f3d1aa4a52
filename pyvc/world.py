"""The state of mutable library objects as one functional value.

st.world is None (nothing written yet) or a term built from
  wset_<attr>(w, o, v)      attribute write
  wcall_<f>(args.., w)      effect of a function known by its contract only
  wnew_<cls>(args.., w)     creation of an object (the object is obj_<cls>(args.., w))
Writes of independent attributes are kept in a fixed order, so that reordering them in the source makes no difference.
"""
from __future__ import annotations

import z3

from .core import *
from .engine import *
from .values import *
from .values import V, Obj, I, B, S, R

W0 = z3.Const("w0", Obj)


def cur(st):
    return W0 if st.world is None else st.world


def decl(w):
    return w.decl().name() if z3.is_app(w) else ""


def is_ite(w):
    return z3.is_app_of(w, z3.Z3_OP_ITE)


class Rules:
    """tree: attributes of the structure; hook: attributes that a structural write reads or writes"""

    def __init__(self, tree=(), reads=None, hook=()):
        self.tree, self.reads, self.hook = set(tree), reads or {}, set(hook)

    def independent(self, a, b):
        if a == b:
            return False
        if a in self.tree and b in self.tree:
            return False
        return not (a in self.tree and b in self.hook or b in self.tree and a in self.hook)

    def relevant(self, a, b):
        """a write of b can change what a read of a sees"""
        return a == b or b in self.reads.get(a, ())


def write(eng, st, rules, o, name, v):
    t = eng.toV(st, eng.freeze(st, v))
    st.world = put(rules, cur(st), name, o, t)


def put(rules, w, name, o, t):
    d = decl(w)
    if d.startswith("wset_"):
        b = d[5:]
        if rules.independent(name, b) and name < b:
            return w.decl()(put(rules, w.arg(0), name, o, t), w.arg(1), w.arg(2))
        if b == name and w.arg(1).eq(o) and name not in rules.tree:
            return put(rules, w.arg(0), name, o, t)
    return uf(f"wset_{name}", Obj, Obj, V, Obj)(w, o, t)


def strip(rules, w, names):
    """the state without the writes that cannot change reads of the names"""
    while True:
        d = decl(w)
        if d.startswith("wset_") and not any(rules.relevant(a, d[5:]) for a in names):
            w = w.arg(0)
        elif is_ite(w):
            a, b = strip(rules, w.arg(1), names), strip(rules, w.arg(2), names)
            return a if a.eq(b) else z3.If(w.arg(0), a, b)
        else:
            return w


def lookup(eng, st, rules, o, name):
    """('val', V term) the written value, or ('in', w) to be read in state w (None: the initial state)"""
    w = cur(st)
    while True:
        w = strip(rules, w, (name,))
        if w.eq(W0):
            return "in", None
        d = decl(w)
        if is_ite(w):
            w = w.arg(1) if eng.branch(st, w.arg(0)) else w.arg(2)
            continue
        if d == "wset_" + name:
            if w.arg(1).eq(o):
                return "val", w.arg(2)
            if name in rules.tree and name != "parent":
                return "in", w
            if eng.branch(st, w.arg(1) == o):
                return "val", w.arg(2)
            w = w.arg(0)
            continue
        if d.startswith("wset_") and name == "parent":
            return "in", w
        if d.startswith("wnew_"):
            n = w.num_args()
            me = uf("obj_" + d[5:], *[w.arg(i).sort() for i in range(n)], Obj)(*[w.arg(i) for i in range(n)])
            if me.eq(o):
                init = eng.env.newinit.get(d[5:])
                r = init(eng, st, w, name) if init else None
                if r is not None:
                    return "val", r
            elif name not in rules.tree and not rules.reads.get(name) and not eng.branch(st, me == o):
                w = w.arg(n - 1)
                continue
        return "in", w


def new(eng, st, cls, terms):
    """a new object; its identity depends on the state it is created in"""
    w = cur(st)
    ts = list(terms) + [w]
    sorts = [t.sort() for t in ts]
    o = uf("obj_" + cls, *sorts, Obj)(*ts)
    st.world = uf("wnew_" + cls, *sorts, Obj)(*ts)
    return o


def after(o, w):
    return o if w is None or w.eq(W0) else uf("after", Obj, Obj, Obj)(o, w)
