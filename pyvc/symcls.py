"""Symbolic objects of classes of the repository and of its libraries.

A SymClass describes the attributes an object of the class has: name -> type.  Attributes are uninterpreted functions of the
object; writes go to the state's write log and reads see the last write to a provably equal object (a case split otherwise).
Names that are not fields fall back to the functions of the real class, which are executed (or replaced by their contract).
"""
from __future__ import annotations

import z3

from . import world
from .core import *
from .engine import *
from .interp import bterm
from .values import *
from .values import V, Obj, I, B, S, R


class SymClass:
    """fields: {attribute: type} ; optional: {attribute: (type, classes)} present when the tag is one of the classes' tags

    extra: unknown attributes may exist (pydantic extra='allow'): has-predicate per name, value of type V
    """

    def __init__(self, env, name, fields=None, optional=None, real=None, extra=False, methods=None, props=None, tags=None, identity=True,
                 facts=None, world=False):
        self.world = world
        self.env, self.name, self.fields, self.optional = env, name, fields or {}, optional or {}
        self.real, self.extra, self.methods, self.props, self.facts = real, extra, methods or {}, props or {}, facts or {}
        env.classes[name] = self
        if identity:
            env.IDENTITY.add(name)
        if tags:
            env.CLSTAGS[name] = tags

    # ---------------------------------------------------------------- reads
    def written(self, eng, st, o, name):
        w = st.attrw.get(name)
        if w is None or not w.parts:
            return NotImplemented
        return eng._get_parts(st, list(w.parts), o)

    def raw(self, eng, st, o, name, ty, w=None):
        so = sort_of(ty)
        t = uf(f"at_{self.name}_{name}", Obj, so)(world.after(o.t, w))
        f = self.facts.get(name)
        if f is not None:
            for x in f(t, o.t):
                st.add(x)
        return eng.wrap(st, t, ty)

    def type_of(self, name):
        if name in self.fields:
            return self.fields[name]
        return self.optional[name][0] if name in self.optional else "V"

    def has(self, eng, st, o, name):
        if name in self.fields or name in self.props or name in self.methods:
            return True
        r = FALSE
        if name in self.optional:
            ty, classes = self.optional[name]
            tg = uf("tag", Obj, I)(o.t)
            r = zor([tg == self.env.CLS[c] for c in classes])
        elif self.real is not None and hasattr(self.real, name):
            return True
        if self.extra:
            r = zor([r, uf("xhas", Obj, S, B)(o.t, sval(name))])
        return simp(r)

    def attr(self, eng, st, o, name, default=NotImplemented):
        w = None
        if self.world:
            if name in self.fields or name in self.optional or self.extra and not (name in self.props or name in self.methods):
                k, x = world.lookup(eng, st, self.env.rules, o.t, name)
                if k == "val":
                    ty = self.type_of(name)
                    t = from_V(x, sort_of(ty))
                    if ty in KIND and ty != "V":
                        return lit(SV(KIND[ty], t))
                    return narrowV(t, ty) if t.sort() == V else SV("o", t, ty)
                w = x
        else:
            v = self.written(eng, st, o, name)
            if v is not NotImplemented:
                return v
        if name in self.fields:
            return self.raw(eng, st, o, name, self.fields[name], w)
        if name in self.props:
            return self.props[name](eng, st, o)
        if name in self.optional:
            ty, classes = self.optional[name]
            tg = uf("tag", Obj, I)(o.t)
            if eng.branch(st, zor([tg == self.env.CLS[c] for c in classes])):
                return self.raw(eng, st, o, name, ty, w)
        elif name in self.methods:
            return Meth(o, name)
        elif self.real is not None and any(name in vars(k) for k in self.real.__mro__):
            return eng.class_attr(st, self.real, name, o, default)
        if self.extra:
            if eng.branch(st, uf("xhas", Obj, S, B)(o.t, sval(name))):
                return eng.wrap(st, uf("xget", Obj, S, V)(world.after(o.t, w), sval(name)), "V")
        if default is not NotImplemented:
            return default
        raise PyRaise(AttributeError)

    def set_attr(self, eng, st, o, name, v):
        if not self.world:
            return False
        world.write(eng, st, self.env.rules, o.t, name, v)
        return True

    def hasattr(self, eng, st, o, name):
        if not isinstance(name, str):
            raise Unsupported("hasattr of a computed name")
        return self.has(eng, st, o, name)

    def getattr(self, eng, st, o, name, default):
        if isinstance(name, str):
            return self.attr(eng, st, o, name, default)
        # a computed name: one uninterpreted lookup, the same for code and specification
        if not self.extra:
            raise Unsupported("getattr of a computed name")
        n = eng.strterm(st, name)
        if not eng.branch(st, uf("anyhas", Obj, S, B)(o.t, n)):
            if default is NotImplemented:
                raise PyRaise(AttributeError)
            return default
        return eng.wrap(st, uf("anyget", Obj, S, V)(o.t, n), "V")

    # ---------------------------------------------------------------- methods
    def method(self, eng, st, o, name, args, kw):
        h = self.methods.get(name)
        if h is not None:
            return h(eng, st, o, args, kw)
        f = self.attr(eng, st, o, name)
        if isinstance(f, Meth):
            raise Unsupported(f"method {name} of {self.name}")
        return eng.call(st, f, args, kw)


def from_V(t, so):
    t = simp(t)
    if so == S:
        return simp(V.s(t))
    if so == I:
        return simp(V.i(t))
    if so == B:
        return simp(V.b(t))
    if so == R:
        return simp(V.r(t))
    if so == Obj:
        return simp(V.o(t))
    return t


def opaque_method(name, ret, nargs=0, reads=None):
    """a pure method known only as a function of the object, its arguments and (when attributes were written) the write log"""

    def h(eng, st, o, args, kw):
        terms = [eng.toV(st, o)] + [eng.toV(st, a) for a in args] + [eng.toV(st, kw[k]) for k in sorted(kw)]
        if reads:
            w = world.strip(eng.env.rules, world.cur(st), eng.env.readsets[reads])
            if not w.eq(world.W0):
                terms.append(V.vo(w))
        t = uf(f"m_{name}_{len(args)}_{'_'.join(sorted(kw))}", *([V] * len(terms)), sort_of(ret))(*terms)
        return eng.wrap(st, t, ret)

    return h
