"""Evaluation of expressions and statements, loop summarisation, calls."""
from __future__ import annotations

import ast
import builtins
import types

import z3

from .core import *
from .engine import *
from .engine import as_int, as_strseq
from .values import *
from .values import V, Obj, I, B, S, R


def filled_in(t):
    return z3.is_app(t) and t.decl().name() == "dget_V" and z3.is_app(t.arg(0)) and t.arg(0).decl().name().startswith("mut_")


class Interp(Engine):
    # ------------------------------------------------------------ truth / coercion
    def truth(self, st, v):
        """Python truth value as bool or z3 Bool"""
        if isinstance(v, SV):
            if v.k == "b":
                return v.t
            if v.k == "i":
                return simp(v.t != 0)
            if v.k == "r":
                return v.t != 0
            if v.k == "s":
                return simp(v.t != sval(""))
            if v.k == "o":
                return self.truth_obj(st, v)
            t = v.t
            if not (v.ty and v.ty != "V") and self.mixed:
                if z3.is_app_of(t, z3.Z3_OP_ITE):
                    c, x, y = t.children()
                    p, q = self.truth(st, self.mixed_val(x)), self.truth(st, self.mixed_val(y))
                    return simp(z3.If(c, z3.BoolVal(p) if isinstance(p, bool) else p, z3.BoolVal(q) if isinstance(q, bool) else q))
                v = self.mixed_val(t)
            if v.ty and v.ty != "V" and v.ty[0] == "opt":
                i = v.ty[1]
                r = {"str": lambda: z3.And(V.is_vs(t), V.s(t) != sval("")), "int": lambda: z3.And(V.is_vi(t), V.i(t) != 0),
                     "bool": lambda: z3.And(V.is_vb(t), V.b(t)), "real": lambda: z3.And(V.is_vr(t), V.r(t) != 0)}.get(i if isinstance(i, str) else None)
                if r:
                    return simp(r())
                if not isinstance(i, str):
                    w = self.truth_obj(st, SV("o", V.o(t), i))
                    return simp(z3.And(V.is_vo(t), z3.BoolVal(w) if isinstance(w, bool) else w))
            ob = uf("truthy", Obj, B)(V.o(t))
            if v.ty and v.ty != "V" and v.ty[0] == "opt" and v.ty[1] not in ("V", "str", "int", "bool", "real"):
                w = self.truth_obj(st, SV("o", V.o(t), v.ty[1]))
                ob = z3.BoolVal(w) if isinstance(w, bool) else w
            else:
                self.obj_truth_fact(st, V.o(t), z3.And(V.is_vo(t)))
            return simp(
                z3.If(
                    V.is_none(t),
                    FALSE,
                    z3.If(
                        V.is_vb(t),
                        V.b(t),
                        z3.If(
                            V.is_vi(t),
                            V.i(t) != 0,
                            z3.If(V.is_vr(t), V.r(t) != 0, z3.If(V.is_vs(t), V.s(t) != sval(""), ob)),
                        ),
                    ),
                )
            )
        if isinstance(v, Ref):
            return self.truth_content(st, st.heap[v.id])
        if isinstance(v, Frozen):
            return self.truth_content(st, v.content)
        if isinstance(v, StrV):
            return self.nonempty_str(st, v.seq)
        if isinstance(v, Poison):
            raise NeedHole(v.loc)
        if isinstance(v, (Func, Meth)):
            return True
        return bool(v)

    def mixed_val(self, t):
        m = self.mixed.get(t.get_id())
        if m is None or not m[0].eq(t):
            return narrowV(t)
        if t.decl().name() == "vo" and m[1][0] == "opt":
            return SV("o", t.arg(0), m[1][1])
        return narrowV(t, m[1])

    def obj_truth_fact(self, st, o, guard=TRUE):
        tg = uf("tag", Obj, I)(o)
        ln = uf("vlen", Obj, I)(o)
        T = self.env.TAG
        st.add(
            z3.Implies(
                guard,
                uf("truthy", Obj, B)(o)
                == z3.If(z3.Or(tg == T["list"], tg == T["tuple"], tg == T["set"]), ln > 0, z3.If(tg == T["dict"], uf("dlen", Obj, I)(o) > 0, TRUE)),
            )
        )

    def truth_obj(self, st, v):
        ty = v.ty
        kn = self.known(v.t)
        if kn is not None:
            return self.truth_content(st, kn)
        if ty and ty[0] in ("list", "set", "tuple"):
            return uf("vlen", Obj, I)(v.t) > 0
        if ty and ty[0] == "dict":
            return uf("dlen", Obj, I)(v.t) > 0
        if ty and ty[0] == "cls":
            return True
        self.obj_truth_fact(st, v.t)
        return uf("truthy", Obj, B)(v.t)

    def truth_content(self, st, c):
        if isinstance(c, ListC):
            return self.nonempty(st, c.seq)
        if isinstance(c, DictC):
            a = self.nonempty(st, c.upd)  # DEL entries: see dict_nonempty
            if has_del(c.upd):
                o = self.intern(st, c)
                return uf("dlen", Obj, I)(o) > 0
            if c.base is not None:
                return simp(z3.Or(uf("dlen", Obj, I)(c.base) > 0, a))
            return a
        if isinstance(c, FileC):
            return True
        if isinstance(c, InstC):
            return True
        raise Unsupported("truth of object")

    def nonempty_str(self, st, seq):
        cs = []
        for p in self.norm_str(st, seq):
            if p[0] == "u":
                cs.append(self.strterm(st, p[1]) != sval(""))
            elif p[0] == "if":
                cs.append(z3.If(p[1], self.nonempty_str(st, p[2]), self.nonempty_str(st, p[3])))
            elif p[0] == "map":
                s2 = self.enter_map(st, p)
                cs.append(self.mk_ex(st, p[1], p[2], self.nonempty_str(s2, p[3]), p[4], facts=p[5]))
            else:
                raise NeedHole(p[1])
        return simp(zor([simp(c) for c in cs]))

    def test(self, st, v):
        return self.branch(st, self.truth(st, v))

    def coerce(self, st, v, kind, exc=TypeError):
        if isinstance(v, Poison):
            raise NeedHole(v.loc)
        k = kind_of(v)
        if k == kind:
            return v
        if k == "V" and isinstance(v, SV):
            if kind == "i":
                c = z3.Or(V.is_vi(v.t), V.is_vb(v.t))
                if not self.branch(st, c):
                    raise PyRaise(exc)
                return lit(SV("i", simp(z3.If(V.is_vi(v.t), V.i(v.t), z3.If(V.b(v.t), z3.IntVal(1), z3.IntVal(0))))))
            tester = {"b": V.is_vb, "r": V.is_vr, "s": V.is_vs, "o": V.is_vo}[kind]
            if not self.branch(st, tester(v.t)):
                raise PyRaise(exc)
            acc = {"b": V.b, "r": V.r, "s": V.s, "o": V.o}[kind]
            t = simp(acc(v.t)) if kind != "o" else acc(v.t)
            ty = None
            if kind == "o" and v.ty and v.ty != "V":
                ty = v.ty[1] if v.ty[0] == "opt" else v.ty
                if ty in ("str", "int", "bool", "real", "V"):
                    ty = None
            return lit(SV(kind, t, ty))
        if kind == "i" and k == "b":
            if isinstance(v, bool):
                return int(v)
            return SV("i", z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
        if kind == "r" and k in ("i", "b"):
            i = self.coerce(st, v, "i")
            return SV("r", z3.ToReal(to_term(i)))
        if kind == "s" and isinstance(v, StrV):
            return SV("s", self.strterm(st, v))
        raise PyRaise(exc)

    # ------------------------------------------------------------ typed wrapping
    def wrap(self, st, t, ty):
        """value for a term of sort sort_of(ty)"""
        if ty in KIND and ty != "V":
            return lit(SV(KIND[ty], t))
        if ty == "V":
            return narrowV(t, "V")
        if ty[0] == "opt":
            inner = ty[1]
            if inner == "str":
                st.add(z3.Or(V.is_none(t), V.is_vs(t)))
            elif inner == "int":
                st.add(z3.Or(V.is_none(t), V.is_vi(t)))
            elif inner == "bool":
                st.add(z3.Or(V.is_none(t), V.is_vb(t)))
            elif inner == "num":
                st.add(z3.Or(V.is_none(t), V.is_vi(t), V.is_vr(t)))
            elif inner == "V":
                pass
            else:
                st.add(z3.Or(V.is_none(t), V.is_vo(t)))
                self.type_fact(st, V.o(t), inner, z3.Not(V.is_none(t)))
            return narrowV(t, ty)
        if ty[0] == "fix":
            return tuple(self.wrap(st, uf(f"fix{i}_{sort_of(e)}", Obj, sort_of(e))(t), e) for i, e in enumerate(ty[1:]))
        self.type_fact(st, t, ty, TRUE)
        return SV("o", t, ty)

    def type_fact(self, st, o, ty, guard):
        tg = uf("tag", Obj, I)(o)
        T = self.env.TAG
        if ty[0] == "set":
            self.setobjs[o.get_id()] = o
        if ty[0] in ("list", "set", "tuple", "dict"):
            st.add(z3.Implies(guard, tg == T[ty[0]]) if not z3.is_true(guard) else tg == T[ty[0]])
            ln = uf("dlen" if ty[0] == "dict" else "vlen", Obj, I)(o)
            st.add(ln >= 0)
        elif ty[0] == "cls":
            tags = self.env.CLSTAGS.get(ty[1])
            if tags:
                c = z3.Or(*[tg == k for k in tags]) if len(tags) > 1 else tg == tags[0]
                st.add(z3.Implies(guard, c) if not z3.is_true(guard) else c)

    # ------------------------------------------------------------ iteration
    def to_seq(self, st, v):
        if isinstance(v, Poison):
            raise NeedHole(v.loc)
        if isinstance(v, tuple):
            if v and isinstance(v[0], str) and v[0] == "$view":
                return v[1]
            return units(v)
        if isinstance(v, Ref):
            return self.content_seq(st, st.heap[v.id])
        if isinstance(v, Frozen):
            return self.content_seq(st, v.content)
        if isinstance(v, (list, set, frozenset)):
            return units([self.conc(x) for x in (v if isinstance(v, list) else sorted(v, key=repr))])
        if isinstance(v, dict):
            return units([self.conc(x) for x in v])
        if isinstance(v, str):
            return units(list(v))
        if isinstance(v, bytes):
            return units(list(v))
        if isinstance(v, SV):
            if v.k == "s":
                return self.seq_of_src(st, Src("chars", (v.t,), "str"))
            if v.k == "o":
                ty = v.ty
                kn = self.known(v.t)
                if kn is not None:
                    return self.content_seq(st, kn)
                if ty and ty[0] in ("list", "set", "tuple"):
                    return self.seq_of_src(st, Src("vlist", (v.t,), ty[1]))
                if ty and ty[0] == "dict":
                    return self.seq_of_src(st, Src("dkeys", (v.t,), ty))
                if ty == ("cls", "bytes"):
                    return self.seq_of_src(st, Src("bytes", (v.t,), "int"))
                if ty is None or ty == "V":
                    return self.obj_seq(st, v.t)
            if v.k == "V":
                t = v.t
                if self.branch(st, V.is_vo(t)):
                    o = self.coerce(st, v, "o")
                    return self.to_seq(st, o)
                if self.branch(st, V.is_vs(t)):
                    return self.seq_of_src(st, Src("chars", (V.s(t),), "str"))
                raise PyRaise(TypeError)
        if isinstance(v, StrV):
            return self.seq_of_src(st, Src("chars", (self.strterm(st, v),), "str"))
        if is_const(v):
            raise PyRaise(TypeError)
        h = self.env.iterable(self, st, v)
        if h is not None:
            return h
        raise Unsupported(f"iteration over {v!r}")

    def obj_seq(self, st, o):
        T = self.env.TAG
        tg = uf("tag", Obj, I)(o)
        if self.branch(st, z3.Or(tg == T["list"], tg == T["tuple"], tg == T["set"])):
            return self.seq_of_src(st, Src("vlist", (o,), "V"))
        if self.branch(st, tg == T["dict"]):
            return self.seq_of_src(st, Src("dkeys", (o,), ("dict", "V", "V")))
        raise PyRaise(TypeError)

    def content_seq(self, st, c):
        if isinstance(c, ListC):
            if c.kind == "set" and c.seq.parts and not (len(c.seq.parts) == 1 and c.seq.parts[0][0] == "u") and not self.own_order(st, c.seq):
                # iteration order of a set with symbolic contents: an arbitrary fixed order of its elements
                from .models import seq_ety

                o = self.intern(st, c)
                return self.seq_of_src(st, Src("setorder", (o,), seq_ety(c.seq)))
            return c.seq
        if isinstance(c, DictC):
            return map_seq(self, st, self.dict_items_seq(st, c), lambda e: e[0])
        raise Unsupported("iteration")

    def own_order(self, st, seq):
        """the elements of one set object, as they are"""
        from .engine import is_identity_map, simp_len

        p = seq.parts[0]
        return (len(seq.parts) == 1 and p[0] == "map" and p[1].kind in ("vlist", "setorder") and p[4].eq(simp_len(self, p[1]))
                and (p[1].kind == "setorder" or self.is_set(p[1].key[0])) and is_identity_map(self, st, p))

    def dict_items_seq(self, st, c):
        """sequence of (key, value) pairs in iteration order"""
        if isinstance(c, dict):
            return units([(self.conc(k), self.conc(v)) for k, v in c.items()])
        if c.base is not None and not c.upd.parts:
            return self.seq_of_src(st, Src("ditems", (c.base,), c.ty or ("dict", "V", "V")))
        if c.base is None:
            ce = const_entries(c.upd)
            if ce is not None:
                keys = [k for _, k, _ in ce]
                if len(set(map(repr, keys))) == len(keys) and not any(v is DEL for _, _, v in ce):
                    return c.upd
            if len(c.upd.parts) == 1 and c.upd.parts[0][0] == "map" and self.env.distinct_keys(self, st, c.upd.parts[0]):
                return c.upd
        if any(p[0] == "hole" for p in c.upd.parts):
            raise NeedHole([p for p in c.upd.parts if p[0] == "hole"][0][1])
        o = self.intern(st, c)
        return self.seq_of_src(st, Src("ditems", (o,), c.ty or ("dict", "V", "V")))

    # ------------------------------------------------------------ python equality and membership
    def py_eq(self, st, a, b):
        """== as bool or z3 Bool"""
        if isinstance(a, Poison):
            raise NeedHole(a.loc)
        if isinstance(b, Poison):
            raise NeedHole(b.loc)
        if isinstance(a, StrV):
            a = SV("s", self.strterm(st, a))
        if isinstance(b, StrV):
            b = SV("s", self.strterm(st, b))
        if is_const(a) and is_const(b):
            return a == b
        a, b = self.strenum(st, a, b), self.strenum(st, b, a)
        ka, kb = kind_of(a), kind_of(b)
        if ka and kb:
            num = ("b", "i", "r")
            if ka in num and kb in num:
                ta, tb = to_term(a), to_term(b)
                if ka == kb:
                    return simp(ta == tb)
                conv = lambda k, t: t if k == "r" else z3.ToReal(t) if k == "i" else z3.If(t, z3.RealVal(1), z3.RealVal(0))
                if "r" not in (ka, kb):
                    ci = lambda k, t: t if k == "i" else z3.If(t, z3.IntVal(1), z3.IntVal(0))
                    return simp(ci(ka, ta) == ci(kb, tb))
                return simp(conv(ka, ta) == conv(kb, tb))
            if ka == "s" and kb == "s":
                return simp(to_term(a) == to_term(b))
            if ka == "o" and kb == "o":
                return self.obj_eq(st, a, b)
            if "V" in (ka, kb):
                if a is None or b is None:
                    o = b if a is None else a
                    if kind_of(o) == "V":
                        return simp(V.is_none(toV_scalar(o)))
                    return False
                if ka == "s" or kb == "s":
                    s_, v_ = (a, b) if ka == "s" else (b, a)
                    if kind_of(v_) == "s":
                        return simp(to_term(s_) == to_term(v_))
                    return simp(z3.And(V.is_vs(v_.t), V.s(v_.t) == to_term(s_)))
                ta, tb = toV_scalar(a), toV_scalar(b)
                return simp(
                    z3.If(
                        z3.And(v_isnum(ta), v_isnum(tb)),
                        v_num(ta) == v_num(tb),
                        ta == tb,
                    )
                )
            return False
        # structured
        if isinstance(a, Ref):
            a2 = st.heap[a.id]
        elif isinstance(a, Frozen):
            a2 = a.content
        else:
            a2 = None
        if isinstance(b, Ref):
            b2 = st.heap[b.id]
        elif isinstance(b, Frozen):
            b2 = b.content
        else:
            b2 = None
        for x, y, xv in ((a2, b, a), (b2, a, b)):
            if isinstance(x, ListC) and not x.seq.parts and x.kind == "list":
                # comparison with the empty list
                if isinstance(y, SV) and y.k == "V":
                    o = V.o(y.t)
                    return simp(
                        z3.And(V.is_vo(y.t), uf("tag", Obj, I)(o) == self.env.TAG["list"], uf("vlen", Obj, I)(o) == 0)
                    )
                if isinstance(y, SV) and y.k == "o":
                    if y.ty and y.ty[0] == "list":
                        return simp(uf("vlen", Obj, I)(y.t) == 0)
                    return simp(
                        z3.And(uf("tag", Obj, I)(y.t) == self.env.TAG["list"], uf("vlen", Obj, I)(y.t) == 0)
                    )
                if isinstance(y, (SV,)) or is_const(y):
                    return False
        if isinstance(a2, InstC) and isinstance(b2, InstC):
            if a2.cls is None or "__eq__" not in vars(a2.cls):
                return isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id
            raise Unsupported("user __eq__")
        if (a2 is not None) and (b2 is not None):
            if self.eq_content(st, a2, b2):
                return True
            if isinstance(a2, ListC) and isinstance(b2, ListC) and a2.kind == b2.kind:
                oa, ob = self.intern(st, a2), self.intern(st, b2)
                la, lb = as_int(self.seq_len(st, a2.seq)), as_int(self.seq_len(st, b2.seq))
                r = uf("obj_eq", Obj, Obj, B)(oa, ob)
                st.add(z3.Implies(r, la == lb))
                st.add(z3.Implies(oa == ob, r))
                return r
            raise Unsupported("structured equality")
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            cs = [self.py_eq(st, x, y) for x, y in zip(a, b)]
            if any(c is False for c in cs):
                return False
            return simp(zand([z3.BoolVal(c) if isinstance(c, bool) else c for c in cs]))
        if a2 is not None or b2 is not None:
            x, y = (a, b) if a2 is not None else (b, a)
            if is_const(y) or isinstance(y, SV) and y.k in ("s", "i", "b", "r"):
                return False
            if isinstance(y, SV):
                oa = self.toObj(st, x)
                if y.k == "o":
                    return uf("obj_eq", Obj, Obj, B)(oa, y.t)
                return z3.And(V.is_vo(y.t), uf("obj_eq", Obj, Obj, B)(oa, V.o(y.t)))
        if isinstance(a, SV) and not isinstance(b, SV):
            return self.eq_opaque(st, a, b)
        if isinstance(b, SV) and not isinstance(a, SV):
            return self.eq_opaque(st, b, a)
        if isinstance(a, (Func, Meth)) or isinstance(b, (Func, Meth)):
            return a is b
        try:
            return bool(a == b)
        except Exception:
            raise Unsupported("equality")

    def strenum(self, st, a, b):
        """the string a member of a string enumeration is equal to (in comparisons with strings)"""
        if isinstance(a, SV) and a.k == "o" and a.ty and a.ty[0] == "cls" and a.ty[1] in self.env.STRENUM:
            if isinstance(b, str) or isinstance(b, SV) and (b.k == "s" or b.k == "o" and b.ty == a.ty):
                t = uf(f"at_{a.ty[1]}_value", Obj, S)(a.t)
                st.add(z3.Or(*[t == sval(v) for v in self.env.STRENUM[a.ty[1]]]))
                return SV("s", t)
        return str.__str__(a.value) if isinstance(a, str) and hasattr(a, "value") else a

    def anyobj(self, st, name, o, args, raises):
        """an operation without effect on some object: its outcome is a function of the object and the arguments"""
        ts = [V.vo(o.t)] + [self.toV(st, a) for a in args]
        for e in raises:
            if self.branch(st, uf(f"any_{name}_raises_{e.__name__}", *([V] * len(ts)), B)(*ts)):
                raise PyRaise(e)
        return SV("V", uf(f"any_{name}", *([V] * len(ts)), V)(*ts))

    def eq_opaque(self, st, sv, obj):
        e = self.env.enum_eq(self, st, sv, obj)
        if e is not None:
            return e
        if sv.k in ("s", "i", "b", "r"):
            return False
        t = pyobj_term(obj)
        return simp(sv.t == (t if sv.k == "o" else V.vo(t)))

    def obj_eq(self, st, a, b):
        if a.t.eq(b.t):
            return True
        ta, tb = a.ty, b.ty
        if ta and ta[0] == "cls" and ta[1] in self.env.IDENTITY:
            return simp(a.t == b.t)
        r = uf("obj_eq", Obj, Obj, B)(a.t, b.t)
        st.add(z3.Implies(a.t == b.t, r))
        return r

    def is_(self, st, a, b):
        if a is OtherType or b is OtherType:
            o = b if a is OtherType else a
            if o in PLAINTYPES:
                return False
            raise Unsupported("comparison of the type of an object")
        if a is None or b is None:
            o = b if a is None else a
            if o is None:
                return True
            if isinstance(o, Poison):
                raise NeedHole(o.loc)
            if isinstance(o, SV) and o.k == "V":
                return simp(V.is_none(o.t))
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            x, y = (a, b) if isinstance(a, bool) else (b, a)
            if isinstance(y, bool):
                return x == y
            if isinstance(y, SV) and y.k == "b":
                return y.t if x else z3.Not(y.t)
            if isinstance(y, SV) and y.k == "V":
                return simp(z3.And(V.is_vb(y.t), V.b(y.t) == z3.BoolVal(x)))
            return False
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.id == b.id
        if isinstance(a, SV) and isinstance(b, SV) and a.k == "o" and b.k == "o":
            return simp(a.t == b.t)
        if isinstance(a, SV) and isinstance(b, SV) and {a.k, b.k} == {"o", "V"}:
            return simp(toV_scalar(a) == toV_scalar(b))
        if isinstance(a, (SV, Ref, Frozen, StrV)) != isinstance(b, (SV, Ref, Frozen, StrV)):
            s, c = (a, b) if isinstance(a, SV) else (b, a)
            if isinstance(s, SV):
                e = self.env.enum_eq(self, st, s, c)
                if e is not None:
                    return e
            return False
        if isinstance(a, (SV, Ref, Frozen, StrV)):
            raise Unsupported("is")
        return a is b

    def contains(self, st, x, c):
        """x in c  -> bool or z3 Bool"""
        if isinstance(c, Poison):
            raise NeedHole(c.loc)
        if isinstance(c, dict):
            return self.any_eq(st, x, list(c))
        if isinstance(c, tuple) and c and isinstance(c[0], str) and c[0] == "$view":
            return self.in_seq(st, x, c[1])
        if isinstance(c, (list, tuple, set, frozenset)):
            return self.any_eq(st, x, list(c))
        if isinstance(c, str) and (isinstance(x, str)):
            return x in c
        if isinstance(c, (str, StrV)) or (isinstance(c, SV) and c.k == "s"):
            xs = self.coerce(st, x, "s")
            return simp(z3.Contains(self.strterm(st, c), to_term(xs)))
        if isinstance(c, Ref):
            return self.in_content(st, x, st.heap[c.id])
        if isinstance(c, Frozen):
            return self.in_content(st, x, c.content)
        if isinstance(c, SV):
            if c.k == "V":
                if self.branch(st, V.is_vs(c.t)):
                    xs = self.coerce(st, x, "s")
                    return simp(z3.Contains(V.s(c.t), to_term(xs)))
                if self.branch(st, V.is_vo(c.t)):
                    return self.contains(st, x, self.coerce(st, c, "o"))
                raise PyRaise(TypeError)
            if c.k == "o":
                kn = self.known(c.t)
                if kn is not None:
                    return self.in_content(st, x, kn)
                if c.ty and c.ty[0] == "dict":
                    return self.dict_has(st, DictC(c.t, c.ty, Seq()), x)
                return self.in_seq(st, x, self.to_seq(st, c))
        if is_const(c):
            raise PyRaise(TypeError)
        h = self.env.iterable(self, st, c)
        if h is not None:
            return self.in_seq(st, x, h)
        raise Unsupported(f"in {c!r}")

    def any_eq(self, st, x, items):
        cs = []
        for y in items:
            e = self.py_eq(st, x, self.conc(y))
            if e is True:
                return True
            if e is not False:
                cs.append(e)
        return simp(zor(cs)) if cs else False

    def in_content(self, st, x, c):
        if isinstance(c, ListC):
            return self.in_seq(st, x, c.seq)
        if isinstance(c, DictC):
            return self.dict_has(st, c, x)
        raise Unsupported("in")

    def in_seq(self, st, x, seq):
        cs = []
        for p in self.parts(st, seq):
            if p[0] == "u":
                e = self.py_eq(st, x, p[1])
                if e is True:
                    return True
                if e is not False:
                    cs.append(e)
            elif p[0] == "if":
                a, b = self.in_seq(st, x, p[2]), self.in_seq(st, x, p[3])
                cs.append(z3.If(p[1], bterm(a), bterm(b)))
            elif p[0] == "map":
                q = self.unordered(st, p)
                if q is not None:
                    e = self.in_seq(st, x, q)
                    if e is True:
                        return True
                    cs.append(bterm(e))
                    continue
                s2 = self.enter_map(st, p)
                cs.append(self.mk_ex(st, p[1], p[2], bterm(self.in_seq(s2, x, p[3])), p[4], facts=p[5]))
            else:
                raise NeedHole(p[1])
        return simp(zor(cs)) if cs else False

    def unordered(self, st, p):
        """the elements of a map over all elements of a set, in the order the set was built (duplicates included)"""
        from .engine import simp_len

        if p[1].kind != "setorder" or not p[4].eq(simp_len(self, p[1])):
            return None
        kn = self.known(p[1].key[0])
        if kn is None:
            return None
        el = self.env.set_elem_term(p[1], p[2])
        so = el.sort()

        def f(v):
            t = self.toV(st, v) if so == V else to_term(v) if kind_of(v) in ("s", "i", "o", "b", "r") and to_term(v).sort() == so else None
            if t is None:
                t = self.strterm(st, v) if so == S else None
            if t is None:
                raise Unsupported("set element")
            return subst(p[3], [(el, t)])

        return flat_map(self, kn.seq, f)

    # ------------------------------------------------------------ dictionaries
    def key_term(self, st, k):
        if isinstance(k, StrV):
            return V.vs(self.strterm(st, k))
        return self.toV(st, k)

    def base_has(self, st, base, ty, k):
        r = uf("dhas", Obj, V, B)(base, self.key_term(st, k))
        st.add(z3.Implies(r, uf("dlen", Obj, I)(base) > 0))
        # an index of the key in iteration order
        kt = self.key_term(st, k)
        di = uf("didx", Obj, V, I)(base, kt)
        src = Src("ditems", (base,), ty or ("dict", "V", "V"))
        st.add(z3.Implies(r, z3.And(di >= 0, di < uf("dlen", Obj, I)(base), uf("dkey", Obj, I, V)(base, di) == kt)))
        if not any(s.same(src) and t.eq(di) for s, t in st.idx):
            st.idx.append((src, di))
        return r

    def base_get(self, st, base, ty, k):
        vt = ty[2] if ty else "V"
        kt = self.key_term(st, k)
        return self.wrap(st, uf(f"dget_{sort_of(vt)}", Obj, V, sort_of(vt))(base, kt), vt)

    def dict_has(self, st, c, k):
        if isinstance(c, dict):
            return self.contains(st, k, c)
        res = FALSE
        if c.base is not None:
            res = self.base_has(st, c.base, c.ty, k)
        return simp(self._has_parts(st, c.upd, k, res))

    def _has_parts(self, st, seq, k, rest):
        for p in self.parts(st, seq):
            if p[0] == "u":
                e = bterm(self.py_eq(st, p[1][0], k))
                rest = z3.And(znot(e), rest) if p[1][1] is DEL else zor([e, rest])
                rest = simp(rest)
            elif p[0] == "if":
                rest = zite(p[1], self._has_parts(st, p[2], k, rest), self._has_parts(st, p[3], k, rest))
            elif p[0] == "map":
                s2 = self.enter_map(st, p)
                if has_del(p[3]):
                    raise Unsupported("dict membership with deletions in a loop")
                c = self._has_parts(s2, p[3], k, FALSE)
                rest = zor([self.mk_ex(st, p[1], p[2], bterm(c), p[4], facts=p[5]), rest])
            else:
                raise NeedHole(p[1])
        return rest

    def dict_get(self, st, c, k, missing):
        """value for k; missing() is called when absent"""
        if isinstance(c, dict):
            if is_const(k) or not isinstance(k, (SV, StrV)):
                if isinstance(k, Ref):
                    raise PyRaise(TypeError)
                if k in c:
                    return self.conc(c[k])
                return missing()
            # group the keys by value: a chain of tests
            has = self.any_eq(st, k, list(c))
            if not self.branch(st, has):
                return missing()
            items = list(c.items())
            vals = [self.conc(v) for _, v in items]
            try:
                res = vals[-1]
                for (kk, _), v in list(zip(items, vals))[-2::-1]:
                    res = self.merge_val(bterm(self.py_eq(st, k, self.conc(kk))), v, res)
                return res
            except MergeFail:
                for (kk, _), v in zip(items, vals):
                    if self.branch(st, self.py_eq(st, k, self.conc(kk))):
                        return v
                return missing()
        r = self._get_parts(st, list(c.upd.parts), k)
        if r is not NotImplemented:
            if r is DEL:
                return missing()
            return r
        if c.base is not None:
            if self.branch(st, self.base_has(st, c.base, c.ty, k)):
                return self.base_get(st, c.base, c.ty, k)
        return missing()

    def _get_parts(self, st, parts, k):
        for p in reversed([self.open_part(st, q) for q in parts]):
            if p[0] == "u":
                if self.branch(st, self.py_eq(st, p[1][0], k)):
                    return p[1][1]
            elif p[0] == "if":
                sub = p[2] if self.branch(st, p[1]) else p[3]
                r = self._get_parts(st, list(sub.parts), k)
                if r is not NotImplemented:
                    return r
            elif p[0] == "map":
                s2 = self.enter_map(st, p)
                c = bterm(self._has_parts(s2, p[3], k, FALSE))
                ex = self.mk_ex(st, p[1], p[2], c, p[4], facts=p[5])
                if self.branch(st, ex):
                    at = self.atom_of(ex)
                    if at is None:
                        if z3.is_true(ex) or p[2].decl().name() not in consts_of([c]):
                            idx = p[4] - 1
                        else:
                            raise Unsupported("dict lookup in loop part")
                    else:
                        idx = self.last_of(at, ex)
                    body = subst(p[3], [(p[2], idx)])
                    for f in p[5]:
                        st.add(z3.substitute(f, (p[2], idx)))
                    r = self._get_parts(st, list(body.parts), k)
                    if r is not NotImplemented:
                        return r
                    raise Unsupported("dict lookup")
            else:
                raise NeedHole(p[1])
        return NotImplemented

    def dict_put(self, st, ref, k, v):
        c = st.heap[ref.id]
        parts = list(c.upd.parts)
        if is_const(k):
            i = len(parts) - 1
            while i >= 0 and parts[i][0] == "u" and is_const(parts[i][1][0]):
                kk = parts[i][1][0]
                if type(kk) is type(k) and kk == k and parts[i][1][1] is not DEL:
                    parts[i] = ("u", (k, v))
                    st.heap[ref.id] = DictC(c.base, c.ty, Seq(parts))
                    return
                i -= 1
        parts.append(("u", (k, v)))
        st.heap[ref.id] = DictC(c.base, c.ty, Seq(parts))

    # ------------------------------------------------------------ names
    def lookup(self, st, fr, name):
        fid = fr
        while fid is not None:
            f = st.frames[fid]
            if name in f and not name.startswith("$"):
                v = f[name]
                if isinstance(v, Poison):
                    if v.loc[0] == "undef":
                        raise Unsupported(f"possibly unbound local {name}")
                    raise NeedHole(v.loc)
                return v
            fid = f.get("$parent")
        mod = self.frame_mod(st, fr)
        return self.global_value(st, mod, name)

    def frame_mod(self, st, fr):
        fid = fr
        while fid is not None:
            m = st.frames[fid].get("$mod")
            if m is not None:
                return m
            fid = st.frames[fid].get("$parent")

    def global_value(self, st, mod, name):
        g = mod.module.__dict__
        if name in g:
            return self.pyvalue(st, g[name])
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError)

    def pyvalue(self, st, v):
        """a concrete Python object met in the real program -> engine value"""
        s = self.env.symbolic_global(self, st, v)
        if s is not None:
            return s
        if isinstance(v, types.FunctionType):
            f = self.env.func_of(v)
            if f is not None:
                return f
        if isinstance(v, (staticmethod, classmethod)):
            return self.pyvalue(st, v.__func__)
        return v

    def assign_name(self, st, fr, name, v):
        f = st.frames[fr]
        decl = f.get("$decl", {})
        if name in decl:
            if decl[name] == "global":
                raise Unsupported("assignment to a module global")
            fid = f.get("$parent")
            while fid is not None:
                if name in st.frames[fid]:
                    st.frames[fid][name] = v
                    return
                fid = st.frames[fid].get("$parent")
            raise Unsupported("nonlocal")
        f[name] = v

    def assign(self, st, fr, tgt, v):
        if isinstance(tgt, ast.Name):
            self.assign_name(st, fr, tgt.id, v)
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            vals = self.unpack(st, v, len(tgt.elts), tgt)
            for t, x in zip(tgt.elts, vals):
                self.assign(st, fr, t, x)
        elif isinstance(tgt, ast.Attribute):
            o = self.eval(st, fr, tgt.value)
            self.set_attr(st, o, tgt.attr, v)
        elif isinstance(tgt, ast.Subscript):
            o = self.eval(st, fr, tgt.value)
            k = self.eval(st, fr, tgt.slice)
            if isinstance(tgt.value, ast.Name) and isinstance(o, SV) and o.k == "V" and filled_in(o.t):
                o = self.own_dict(st, o, k)
                self.assign_name(st, fr, tgt.value.id, o)
            self.set_item(st, o, k, v)
        else:
            raise Unsupported("assignment target")

    def own_dict(self, st, o, k):
        """a part of an object that a callee has filled in and only this variable still refers to"""
        if not self.branch(st, z3.And(V.is_vo(o.t), uf("tag", Obj, I)(V.o(o.t)) == self.env.TAG["dict"])):
            if kind_of(k) != "s":
                raise Unsupported("item assignment to a value that may not be a dict")
            raise PyRaise(TypeError)
        return st.alloc(DictC(V.o(o.t), ("dict", "V", "V"), Seq()))

    def unpack(self, st, v, n, tgt=None):
        if tgt is not None and any(isinstance(e, ast.Starred) for e in tgt.elts):
            raise Unsupported("starred assignment")
        if isinstance(v, tuple):
            if len(v) != n:
                raise PyRaise(ValueError)
            return list(v)
        seq = self.to_seq(st, v)
        if all(p[0] == "u" for p in seq.parts):
            if len(seq.parts) != n:
                raise PyRaise(ValueError)
            return [p[1] for p in seq.parts]
        ln = as_int(self.seq_len(st, seq))
        if not self.branch(st, ln == n):
            raise PyRaise(ValueError)
        return [self.seq_index(st, seq, z3.IntVal(i), IndexError) for i in range(n)]

    def set_item(self, st, o, k, v):
        if isinstance(o, Ref):
            c = st.heap[o.id]
            if isinstance(c, DictC):
                self.dict_put(st, o, k, v)
                return
            if isinstance(c, ListC):
                parts = list(c.seq.parts)
                if isinstance(k, int) and all(p[0] == "u" for p in parts):
                    if not -len(parts) <= k < len(parts):
                        raise PyRaise(IndexError)
                    parts[k] = ("u", v)
                    st.heap[o.id] = ListC(Seq(parts), c.kind)
                    return
        h = self.env.set_item(self, st, o, k, v)
        if h:
            return
        raise Unsupported(f"item assignment on {o!r}")

    # ------------------------------------------------------------ attributes
    def set_attr(self, st, o, name, v):
        if isinstance(o, Ref):
            c = st.heap[o.id]
            if isinstance(c, InstC):
                if self.env.set_attr(self, st, o, name, v):
                    return
                f = dict(c.fields)
                f[name] = v
                st.heap[o.id] = InstC(c.cls, f)
                return
        if isinstance(o, SV) and o.k == "V":
            o = self.coerce(st, o, "o", AttributeError)
        if isinstance(o, SV) and o.k == "o":
            if self.env.set_attr(self, st, o, name, v):
                return
            fv = self.freeze(st, v)
            st.attrw[name] = st.attrw.get(name, Seq()) + unit((o, fv))
            return
        raise Unsupported(f"attribute assignment on {o!r}")

    def get_attr(self, st, o, name, default=NotImplemented):
        if isinstance(o, Poison):
            raise NeedHole(o.loc)
        if isinstance(o, Ref):
            c = st.heap[o.id]
            if isinstance(c, InstC):
                if name in c.fields:
                    return c.fields[name]
                r = self.env.get_attr(self, st, o, name)
                if r is not NotImplemented:
                    return r
                return self.class_attr(st, c.cls, name, o, default)
            return Meth(o, name)
        if isinstance(o, Frozen):
            if isinstance(o.content, InstC):
                if name in o.content.fields:
                    return o.content.fields[name]
                return self.class_attr(st, o.content.cls, name, o, default)
            return Meth(o, name)
        if isinstance(o, SV):
            if o.k == "V" and not (o.ty and o.ty != "V" and o.ty[0] == "opt" and o.ty[1] == "str"):
                if o.ty and o.ty != "V" and o.ty[0] == "opt":
                    if self.branch(st, V.is_none(o.t)):
                        return self.get_attr(st, None, name, default)
                    o = self.coerce(st, o, "o", AttributeError) if o.ty[1] not in ("int", "bool", "real", "num") else o
                else:
                    return Meth(o, name)
            if o.k == "o":
                r = self.env.sym_attr(self, st, o, name, default)
                if r is not NotImplemented:
                    return r
            return Meth(o, name)
        if isinstance(o, (str, bytes, StrV, int, float, tuple, list, dict, set, frozenset)):
            return Meth(o, name)
        if o is None:
            if default is not NotImplemented:
                return default
            raise PyRaise(AttributeError)
        if isinstance(o, (types.ModuleType,)):
            if not hasattr(o, name):
                raise PyRaise(AttributeError)
            return self.pyvalue(st, getattr(o, name))
        if isinstance(o, type):
            return self.class_attr(st, o, name, None, default)
        if isinstance(o, (Func, Meth)):
            raise Unsupported("attribute of function")
        if isinstance(o, Super):
            return o.get_attr(self.env, self, st, name)
        r = self.env.py_attr(self, st, o, name)
        if r is not NotImplemented:
            return r
        if hasattr(o, name):
            return self.pyvalue(st, getattr(o, name))
        if default is not NotImplemented:
            return default
        raise PyRaise(AttributeError)

    def class_attr(self, st, cls, name, self_, default=NotImplemented):
        for k in getattr(cls, "__mro__", ()):
            if name in vars(k):
                a = vars(k)[name]
                if isinstance(a, classmethod):
                    f = self.env.func_of(a.__func__)
                    if f is None:
                        break
                    return Func(f.node, f.mod, None, f.qual, f.cls, cls)
                if isinstance(a, staticmethod):
                    return self.pyvalue(st, a.__func__)
                if isinstance(a, types.FunctionType):
                    f = self.env.func_of(a)
                    if f is None:
                        return Meth(self_, name) if self_ is not None else a
                    return Func(f.node, f.mod, None, f.qual, f.cls, self_) if self_ is not None else f
                if isinstance(a, property):
                    f = self.env.func_of(a.fget)
                    if f is None or self_ is None:
                        raise Unsupported(f"property {name}")
                    return self.call_func(st, Func(f.node, f.mod, None, f.qual, f.cls, self_), [], {})
                if self_ is None and hasattr(cls, name):
                    return self.pyvalue(st, getattr(cls, name))
                return self.pyvalue(st, a)
        if self_ is not None:
            r = self.env.method(self, st, self_, cls, name)
            if r is not NotImplemented:
                return r
        if self_ is None and hasattr(cls, name):
            return self.pyvalue(st, getattr(cls, name))
        if self_ is not None and not isinstance(cls, type):
            return Meth(self_, name)  # an object of a library: its model decides
        if default is not NotImplemented:
            return default
        raise PyRaise(AttributeError)

    # ------------------------------------------------------------ subscripts
    def get_item(self, st, o, k):
        if isinstance(o, Poison):
            raise NeedHole(o.loc)
        if isinstance(o, Ref):
            return self.item_content(st, st.heap[o.id], k)
        if isinstance(o, Frozen):
            return self.item_content(st, o.content, k)
        if isinstance(o, (list, tuple, str, bytes)) and isinstance(k, int):
            try:
                return self.conc(o[k])
            except IndexError:
                raise PyRaise(IndexError)
        if isinstance(o, dict):
            def miss():
                raise PyRaise(KeyError)
            return self.dict_get(st, o, k, miss)
        if isinstance(o, (tuple, list)):
            return self.seq_index(st, self.to_seq(st, o), to_term(self.coerce(st, k, "i")), IndexError)
        if isinstance(o, SV):
            if o.k == "V":
                if self.branch(st, V.is_vs(o.t)):
                    return self.get_item(st, SV("s", V.s(o.t)), k)
                return self.get_item(st, self.coerce(st, o, "o"), k)
            if o.k == "s":
                i = to_term(self.coerce(st, k, "i"))
                n = z3.Length(o.t)
                if not self.branch(st, z3.And(i < n, i >= -n)):
                    raise PyRaise(IndexError)
                j = simp(z3.If(i < 0, i + n, i))
                return SV("s", z3.SubString(o.t, j, 1))
            if o.k == "o":
                ty = o.ty
                kn = self.known(o.t)
                if kn is not None:
                    return self.item_content(st, kn, k)
                if ty and ty[0] == "dict":
                    return self.item_content(st, DictC(o.t, ty, Seq()), k)
                if ty and ty[0] in ("list", "tuple"):
                    return self.seq_index(st, self.to_seq(st, o), to_term(self.coerce(st, k, "i")), IndexError)
                T = self.env.TAG
                tg = uf("tag", Obj, I)(o.t)
                if self.branch(st, tg == T["dict"]):
                    return self.item_content(st, DictC(o.t, ("dict", "V", "V"), Seq()), k)
                if self.branch(st, z3.Or(tg == T["list"], tg == T["tuple"])):
                    return self.seq_index(
                        st, self.seq_of_src(st, Src("vlist", (o.t,), "V")), to_term(self.coerce(st, k, "i")), IndexError
                    )
                return self.anyobj(st, "getitem", o, [k], (TypeError, KeyError, IndexError))
        if isinstance(o, StrV):
            return self.get_item(st, SV("s", self.strterm(st, o)), k)
        if isinstance(o, type):
            return o
        h = self.env.iterable(self, st, o)
        if h is not None:
            return self.seq_index(st, h, to_term(self.coerce(st, k, "i")), IndexError)
        raise Unsupported(f"subscript of {o!r}")

    def item_content(self, st, c, k):
        if isinstance(c, DictC):
            def miss():
                raise PyRaise(KeyError)
            return self.dict_get(st, c, k, miss)
        if isinstance(c, ListC):
            return self.seq_index(st, c.seq, to_term(self.coerce(st, k, "i")), IndexError)
        raise Unsupported("subscript")

    def seq_index(self, st, seq, i, exc):
        i = simp(i)
        parts = list(seq.parts)
        if z3.is_int_value(i):
            n = i.as_long()
            while parts and parts[0][0] == "if":
                d = self.branch(st, parts[0][1])
                parts = list((parts[0][2] if d else parts[0][3]).parts) + parts[1:]
            if n < 0:
                if all(p[0] == "u" for p in parts):
                    if -n > len(parts):
                        raise PyRaise(exc)
                    return parts[n][1]
                p = parts[-1]
                if p[0] == "u" and n == -1:
                    return p[1]
                if p[0] == "map" and n == -1 and is_unit_map(p):
                    if not self.branch(st, p[4] > 0):
                        return self.seq_index(st, Seq(parts[:-1]), i, exc)
                    return self.map_elem(st, p, p[4] - 1)
            else:
                while parts and parts[0][0] == "u" and n > 0:
                    parts.pop(0)
                    n -= 1
                if parts and parts[0][0] == "u" and n == 0:
                    return parts[0][1]
                if not parts:
                    raise PyRaise(exc)
                if parts[0][0] == "map" and not is_unit_map(parts[0]) and n == 0:
                    # first element of a filtered part
                    p = parts[0]
                    ne = self.nonempty(st, Seq((p,)))
                    if self.branch(st, ne):
                        at = self.atom_of(ne)
                        if at is None:
                            kk = z3.IntVal(0)
                        else:
                            kk = self.first_of(at, ne)
                        body = subst(p[3], [(p[2], kk)])
                        for f in p[5]:
                            st.add(z3.substitute(f, (p[2], kk)))
                        return self.seq_index(st, body, z3.IntVal(0), exc)
                    return self.seq_index(st, Seq(parts[1:]), z3.IntVal(0), exc)
                i = z3.IntVal(n)
        if len(parts) == 1 and parts[0][0] == "map" and is_unit_map(parts[0]):
            p = parts[0]
            n = p[4]
            if not self.branch(st, z3.And(i < n, i >= -n)):
                raise PyRaise(exc)
            j = simp(z3.If(i < 0, i + n, i))
            if self.entails(st, i >= 0):
                j = i
            return self.map_elem(st, p, j)
        for p in parts:
            if p[0] == "hole":
                raise NeedHole(p[1])
        if not parts:
            raise PyRaise(exc)
        if all(p[0] == "u" for p in parts):
            n = len(parts)
            if not self.branch(st, z3.And(i < n, i >= -n)):
                raise PyRaise(exc)
            for q in range(n):
                if self.branch(st, z3.Or(i == q, i == q - n)):
                    return parts[q][1]
        o = self.intern(st, ListC(seq))
        ln = as_int(self.seq_len(st, seq))
        if not self.branch(st, z3.And(i < ln, i >= -ln)):
            raise PyRaise(exc)
        return self.wrap(st, uf("lindex", Obj, I, V)(o, i), "V")

    def map_elem(self, st, p, j):
        pairs = [(p[2], j)]
        for f in p[5]:
            st.add(z3.substitute(f, *pairs))
        if not any(s.same(p[1]) and t.eq(j) for s, t in st.idx):
            st.idx.append((p[1], j))
        return subst(p[3].parts[0][1], pairs)

    # ------------------------------------------------------------ expressions
    def eval(self, st, fr, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(st, fr, e)

    def e_Constant(self, st, fr, e):
        if e.value is Ellipsis:
            raise Unsupported("...")
        return e.value

    def e_Name(self, st, fr, e):
        return self.lookup(st, fr, e.id)

    def e_Attribute(self, st, fr, e, called=False):
        o = self.eval(st, fr, e.value)
        v = self.get_attr(st, o, e.attr)
        if isinstance(v, Meth) and not called and not self.known_method(v):
            raise Unsupported(f"attribute {e.attr} of a value of unknown type")
        return v

    def known_method(self, m):
        """the attribute is a method of the object for sure, used as a value"""
        o = m.obj
        if isinstance(o, (Ref, Frozen)):
            return any(hasattr(t, m.name) for t in (list, dict, set, tuple, str))
        k = kind_of(o)
        return k == "s" and hasattr(str, m.name) or k is None and not isinstance(o, SV)

    def e_Tuple(self, st, fr, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                seq = self.to_seq(st, self.eval(st, fr, x.value))
                if not all(p[0] == "u" for p in seq.parts):
                    raise Unsupported("starred tuple")
                out.extend(p[1] for p in seq.parts)
            else:
                out.append(self.eval(st, fr, x))
        return tuple(out)

    def _elts(self, st, fr, elts):
        seq = Seq()
        for x in elts:
            if isinstance(x, ast.Starred):
                seq = seq + self.to_seq(st, self.eval(st, fr, x.value))
            else:
                seq = seq + unit(self.eval(st, fr, x))
        return seq

    def e_List(self, st, fr, e):
        return st.alloc(ListC(self._elts(st, fr, e.elts), "list"))

    def e_Set(self, st, fr, e):
        return st.alloc(ListC(self._elts(st, fr, e.elts), "set"))

    def e_Dict(self, st, fr, e):
        r = st.alloc(DictC(None, ("dict", "V", "V"), Seq()))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(st, r, self.eval(st, fr, v))
            else:
                kk = self.eval(st, fr, k)
                vv = self.eval(st, fr, v)
                self.dict_put(st, r, kk, vv)
        return r

    def dict_update(self, st, r, other):
        if isinstance(other, Ref):
            oc = st.heap[other.id]
        elif isinstance(other, Frozen):
            oc = other.content
        elif isinstance(other, SV) and other.k == "o" and self.known(other.t) is not None:
            oc = self.known(other.t)
        elif isinstance(other, SV):
            o = self.coerce(st, other, "o")
            oc = DictC(o.t, o.ty if o.ty and o.ty[0] == "dict" else ("dict", "V", "V"), Seq())
        elif isinstance(other, dict):
            oc = self.conc_content(other)
        else:
            raise Unsupported("dict update")
        if not isinstance(oc, DictC):
            raise Unsupported("dict update")
        c = st.heap[r.id]
        if oc.base is None:
            ce = oc.upd
            if all(p[0] == "u" for p in ce.parts):
                for p in ce.parts:
                    self.dict_put(st, r, p[1][0], p[1][1])
                return
            st.heap[r.id] = DictC(c.base, c.ty, c.upd + ce)
            return
        if c.base is None and not c.upd.parts:
            st.heap[r.id] = DictC(oc.base, oc.ty, oc.upd)
            return
        items = self.dict_items_seq(st, oc)
        st.heap[r.id] = DictC(c.base, c.ty, c.upd + items)

    def e_JoinedStr(self, st, fr, e):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.eval(st, fr, x.value)
                if x.conversion == 114:
                    v = self.py_repr(st, v)
                elif x.conversion not in (-1, 115):
                    raise Unsupported("conversion")
                if x.format_spec is not None:
                    spec = self.eval(st, fr, x.format_spec)
                    parts.append(self.py_format(st, v, spec))
                else:
                    parts.append(self.py_str(st, v))
        return self.concat_strs(st, parts)

    def concat_strs(self, st, parts, isbytes=False):
        if any(isinstance(p, StrV) for p in parts):
            seq = Seq()
            for p in parts:
                s = as_strseq(p)
                if s is None:
                    raise Unsupported("concat")
                seq = seq + s
            return StrV(seq, isbytes)
        out = sval("")
        for p in parts:
            out = const_str_concat(out, self.strterm(st, p))
        return lit(SV("s", out))

    def py_str(self, st, v):
        if isinstance(v, Poison):
            raise NeedHole(v.loc)
        if isinstance(v, (str, StrV)):
            return v
        if is_const(v):
            return str(v)
        if isinstance(v, SV) and v.k == "s":
            return v
        h = self.env.str_of(self, st, v)
        if h is not None:
            return h
        if isinstance(v, Ref) and isinstance(st.heap[v.id], InstC):
            f = self.class_attr(st, st.heap[v.id].cls, "__str__", v)
            if isinstance(f, Func):
                return self.call_func(st, f, [], {})
        t = self.toV(st, v)
        r = str_of_V(t)
        if isinstance(v, SV) and v.k == "V":
            st.add(z3.Implies(V.is_vs(t), r == V.s(t)))
            st.add(z3.Implies(V.is_none(t), r == sval("None")))
        return SV("s", r)

    def py_repr(self, st, v):
        if is_const(v):
            return repr(v)
        return SV("s", uf("py_repr", V, S)(self.toV(st, v)))

    def py_format(self, st, v, spec):
        if is_const(v) and isinstance(spec, str):
            return format(v, spec)
        return SV("s", uf("py_format", V, V, S)(self.toV(st, v), self.toV(st, spec)))

    def e_FormattedValue(self, st, fr, e):
        return self.e_JoinedStr(st, fr, ast.JoinedStr(values=[e]))

    def e_UnaryOp(self, st, fr, e):
        v = self.eval(st, fr, e.operand)
        if isinstance(e.op, ast.Not):
            t = self.truth(st, v)
            if isinstance(t, bool):
                return not t
            return lit(SV("b", simp(znot(t))))
        if isinstance(e.op, ast.USub):
            if is_const(v):
                return -v
            if kind_of(v) == "r":
                return SV("r", -v.t)
            i = self.coerce(st, v, "i")
            return lit(SV("i", simp(-to_term(i))))
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("unary op")

    def e_BoolOp(self, st, fr, e):
        return self.boolop(st, fr, isinstance(e.op, ast.And), e.values)

    def boolop(self, st, fr, is_and, values):
        v = self.eval(st, fr, values[0])
        if len(values) == 1:
            return v
        t = self.truth(st, v)
        if isinstance(t, bool) or z3.is_true(t) or z3.is_false(t):
            tb = t if isinstance(t, bool) else z3.is_true(t)
            if tb == is_and:
                return self.boolop(st, fr, is_and, values[1:])
            return v
        # evaluate the rest under the assumption; merge when it is a single pure outcome
        n0 = len(st.facts)

        def thunk(s):
            s.add(t if is_and else znot(t), "pc")
            return self.boolop(s, fr, is_and, values[1:])

        ch = self.choosers[-1]
        if ch.pos < len(ch.dec):
            i, outs = self.choose(1)
        else:
            outs = []
            if self.feasible(st, t if is_and else znot(t)):
                outs += self.explore(st, thunk)
            s0 = st.copy()
            s0.add(znot(t) if is_and else t, "pc")
            if self.feasible(s0):
                outs.append((s0, ("ok", v)))
            outs = self.merge_outcomes(n0, outs)
            i, outs = self.choose(len(outs), outs)
        s2, comp = outs[i]
        st.become(s2.copy())
        if comp[0] == "raise":
            raise comp[1]
        return comp[1]

    def e_IfExp(self, st, fr, e):
        t = self.truth(st, self.eval(st, fr, e.test))
        if isinstance(t, bool):
            return self.eval(st, fr, e.body if t else e.orelse)
        n0 = len(st.facts)
        ch = self.choosers[-1]
        if ch.pos < len(ch.dec):
            i, outs = self.choose(1)
        else:
            outs = []
            for c, x in ((t, e.body), (znot(t), e.orelse)):
                if self.feasible(st, c):
                    def thunk(s, c=c, x=x):
                        s.add(c, "pc")
                        return self.eval(s, fr, x)
                    outs += self.explore(st, thunk)
            outs = self.merge_outcomes(n0, outs)
            i, outs = self.choose(len(outs), outs)
        s2, comp = outs[i]
        st.become(s2.copy())
        if comp[0] == "raise":
            raise comp[1]
        return comp[1]

    def e_Compare(self, st, fr, e):
        left = self.eval(st, fr, e.left)
        res = None
        for k, (op, right) in enumerate(zip(e.ops, e.comparators)):
            if res is not None:
                # chained comparison: right operand is evaluated only if so far true
                if isinstance(res, bool):
                    if not res:
                        return False
                elif not isinstance(right, (ast.Constant, ast.Name)):
                    if not self.branch(st, res):
                        return False
                    res = True
            r = self.eval(st, fr, right)
            c = self.compare(st, op, left, r)
            if res is None or res is True:
                res = c
            elif res is False:
                return False
            else:
                res = simp(zand([bterm(res), bterm(c)]))
            left = r
        return res if isinstance(res, bool) else lit(SV("b", res))

    def compare(self, st, op, a, b):
        if isinstance(op, ast.Eq):
            return self.py_eq(st, a, b)
        if isinstance(op, ast.NotEq):
            return bnot(self.py_eq(st, a, b))
        if isinstance(op, ast.Is):
            return self.is_(st, a, b)
        if isinstance(op, ast.IsNot):
            return bnot(self.is_(st, a, b))
        if isinstance(op, ast.In):
            return self.contains(st, a, b)
        if isinstance(op, ast.NotIn):
            return bnot(self.contains(st, a, b))
        # ordering
        if isinstance(a, Poison):
            raise NeedHole(a.loc)
        if isinstance(b, Poison):
            raise NeedHole(b.loc)
        if is_const(a) and is_const(b):
            try:
                return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[
                    type(op)
                ]()
            except TypeError:
                raise PyRaise(TypeError)
        ka, kb = kind_of(a), kind_of(b)
        if isinstance(a, (Ref, Frozen)) and isinstance(b, (Ref, Frozen)):
            ca = st.heap[a.id] if isinstance(a, Ref) else a.content
            cb = st.heap[b.id] if isinstance(b, Ref) else b.content
            if isinstance(ca, ListC) and isinstance(cb, ListC) and ca.kind == cb.kind == "set":
                x, y = (ca, cb) if isinstance(op, (ast.LtE, ast.Lt)) else (cb, ca)
                if isinstance(op, (ast.LtE, ast.GtE)):
                    cs = self.seq_all(st, x.seq, lambda s, el: bterm(self.in_seq(s, el, y.seq)))
                    return cs
            raise Unsupported("comparison")
        if ka == "s" and kb == "s":
            ta, tb = to_term(a), to_term(b)
            return {ast.Lt: ta < tb, ast.LtE: ta <= tb, ast.Gt: tb < ta, ast.GtE: tb <= ta}[type(op)]
        if ka in ("i", "b", "V") and kb in ("i", "b", "V") and not (ka == "V" and kb == "V"):
            # prefer integers
            def num(v, k):
                if k == "V":
                    if not isinstance(v, SV):
                        raise PyRaise(TypeError)
                    if not self.branch(st, v_isnum(v.t)):
                        raise PyRaise(TypeError)
                    if self.entails(st, z3.Or(V.is_vi(v.t), V.is_vb(v.t))):
                        return to_term(self.coerce(st, v, "i")), "i"
                    return v_num(v.t), "r"
                return to_term(self.coerce(st, v, "i")), "i"
            ta, na = num(a, ka)
            tb, nb = num(b, kb)
        else:
            def num2(v, k):
                if k == "V":
                    if not isinstance(v, SV) or not self.branch(st, v_isnum(v.t)):
                        raise PyRaise(TypeError)
                    return v_num(v.t), "r"
                if k in ("i", "b"):
                    return to_term(self.coerce(st, v, "i")), "i"
                if k == "r":
                    return to_term(v), "r"
                raise PyRaise(TypeError)
            ta, na = num2(a, ka)
            tb, nb = num2(b, kb)
        if na != nb:
            if na == "i":
                ta = z3.ToReal(ta)
            else:
                tb = z3.ToReal(tb)
        return simp({ast.Lt: ta < tb, ast.LtE: ta <= tb, ast.Gt: ta > tb, ast.GtE: ta >= tb}[type(op)])

    def seq_all(self, st, seq, pred):
        """z3 Bool: pred holds for all elements"""
        cs = []
        for p in self.parts(st, seq):
            if p[0] == "u":
                cs.append(pred(st, p[1]))
            elif p[0] == "if":
                cs.append(z3.If(p[1], self.seq_all(st, p[2], pred), self.seq_all(st, p[3], pred)))
            elif p[0] == "map":
                s2 = self.enter_map(st, p)
                c = self.seq_all(s2, p[3], pred)
                cs.append(znot(self.mk_ex(st, p[1], p[2], znot(c), p[4], facts=p[5])))
            else:
                raise NeedHole(p[1])
        return simp(zand(cs))

    def e_BinOp(self, st, fr, e):
        return self.binop(st, type(e.op), self.eval(st, fr, e.left), self.eval(st, fr, e.right))

    def binop(self, st, op, a, b):
        if isinstance(a, Poison):
            raise NeedHole(a.loc)
        if isinstance(b, Poison):
            raise NeedHole(b.loc)
        if is_const(a) and is_const(b):
            import operator as o

            f = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.FloorDiv: o.floordiv, ast.Mod: o.mod,
                 ast.Pow: o.pow, ast.Div: o.truediv, ast.BitAnd: o.and_, ast.BitXor: o.xor, ast.BitOr: o.or_,
                 ast.LShift: o.lshift, ast.RShift: o.rshift}.get(op)
            if f is None:
                raise Unsupported("binop")
            try:
                return f(a, b)
            except Exception as ex:
                raise PyRaise(type(ex))
        if op is ast.Mod and (isinstance(a, str)):
            return self.percent_format(st, a, b)
        if op is ast.Add:
            sa = isinstance(a, (str, StrV)) or kind_of(a) == "s"
            sb = isinstance(b, (str, StrV)) or kind_of(b) == "s"
            if sa or sb:
                if not sa:
                    a = self.coerce(st, a, "s")
                if not sb:
                    b = self.coerce(st, b, "s")
                return self.concat_strs(st, [a, b])
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            la, lb = self.list_kind(st, a), self.list_kind(st, b)
            if la or lb:
                if not la and isinstance(a, SV) or not lb and isinstance(b, SV):
                    pass
                if la and lb:
                    if la != lb:
                        raise PyRaise(TypeError)
                    return st.alloc(ListC(self.to_seq(st, a) + self.to_seq(st, b), la))
        if op is ast.Mult and (isinstance(a, str) or kind_of(a) == "s" or isinstance(b, str)):
            return SV("s", uf("str_mul", V, V, S)(self.toV(st, a), self.toV(st, b)))
        if op is ast.Div:
            h = self.env.truediv(self, st, a, b)
            if h is not None:
                return h
        if op in (ast.Sub, ast.BitOr, ast.BitAnd):
            la, lb = self.list_kind(st, a), self.list_kind(st, b)
            if la == "set" and lb in ("set",):
                x, y = self.to_seq_raw(st, a), self.to_seq_raw(st, b)
                if op is ast.BitOr:
                    return st.alloc(ListC(x + y, "set"))
                keep = (lambda c: znot(c)) if op is ast.Sub else (lambda c: c)
                return st.alloc(
                    ListC(filter_seq(self, st, x, lambda s, el: keep(bterm(self.in_seq(s, el, y)))), "set")
                )
        ka, kb = kind_of(a), kind_of(b)
        if ka is None or kb is None:
            raise Unsupported(f"binop {op.__name__} on {a!r}, {b!r}")
        if ka == "V" and isinstance(a, SV) and op is ast.Add and kb == "V":
            if self.branch(st, V.is_vs(a.t)):
                return self.binop(st, op, SV("s", V.s(a.t)), self.coerce(st, b, "s"))
        if "r" in (ka, kb) or op is ast.Div:
            x, y = self.coerce(st, a, "r"), self.coerce(st, b, "r")
            tx, ty = to_term(x), to_term(y)
            if op is ast.Div:
                if not self.branch(st, ty != 0):
                    raise PyRaise(ZeroDivisionError)
                return SV("r", tx / ty)
            if op is ast.Add:
                return SV("r", tx + ty)
            if op is ast.Sub:
                return SV("r", tx - ty)
            if op is ast.Mult:
                return SV("r", tx * ty)
            raise Unsupported("float op")
        x, y = self.coerce(st, a, "i"), self.coerce(st, b, "i")
        tx, ty = to_term(x), to_term(y)
        if op is ast.Add:
            return lit(SV("i", simp(tx + ty)))
        if op is ast.Sub:
            return lit(SV("i", simp(tx - ty)))
        if op is ast.Mult:
            return lit(SV("i", simp(tx * ty)))
        if op in (ast.FloorDiv, ast.Mod):
            if isinstance(y, int) and y > 0:
                return SV("i", simp(tx / ty if op is ast.FloorDiv else tx % ty))
            if not self.branch(st, ty > 0):
                raise Unsupported("division by a non-positive number")
            return SV("i", tx / ty if op is ast.FloorDiv else tx % ty)
        if op is ast.BitAnd:
            for p, q in ((x, y), (y, x)):
                if isinstance(q, int) and q >= 0 and (q & (q + 1)) == 0:
                    return SV("i", to_term(p) % z3.IntVal(q + 1))
        if op is ast.Pow:
            if isinstance(x, int) and x == 2:
                return SV("i", uf("pow2", I, I)(ty))
            if isinstance(y, int) and 0 <= y <= 4:
                r = z3.IntVal(1)
                for _ in range(y):
                    r = r * tx
                return SV("i", simp(r))
        if op is ast.LShift and isinstance(x, int) and x == 1:
            return SV("i", uf("pow2", I, I)(ty))
        if op is ast.RShift and isinstance(y, int):
            return SV("i", tx / z3.IntVal(1 << y))
        if op is ast.LShift and isinstance(y, int):
            return SV("i", tx * z3.IntVal(1 << y))
        if op in (ast.BitXor, ast.BitAnd, ast.BitOr):
            t1, t2 = sorted((tx, ty), key=lambda t: t.sexpr())
            return SV("i", uf("bit_" + op.__name__, I, I, I)(t1, t2))
        raise Unsupported(f"binop {op.__name__}")

    def to_seq_raw(self, st, v):
        if isinstance(v, Ref):
            return st.heap[v.id].seq
        if isinstance(v, Frozen):
            return v.content.seq
        return self.to_seq(st, v)

    def list_kind(self, st, v):
        if isinstance(v, Ref) and isinstance(st.heap[v.id], ListC):
            return st.heap[v.id].kind
        if isinstance(v, Frozen) and isinstance(v.content, ListC):
            return v.content.kind
        if isinstance(v, (list,)):
            return "list"
        if isinstance(v, (set, frozenset)):
            return "set"
        if isinstance(v, tuple):
            return "tuple"
        if isinstance(v, SV) and v.k == "o" and v.ty and v.ty[0] in ("list", "set", "tuple"):
            return v.ty[0]
        return self.env.list_kind(self, st, v)

    def percent_format(self, st, f, args):
        if not isinstance(args, tuple):
            args = (args,)
        import re as _re

        out = []
        ai = 0
        pos = 0
        for m in _re.finditer(r"%(.)", f):
            out.append(f[pos : m.start()])
            if m.group(1) == "%":
                out.append("%")
            elif m.group(1) in "sd":
                out.append(self.py_str(st, args[ai]))
                ai += 1
            else:
                raise Unsupported("% format")
            pos = m.end()
        out.append(f[pos:])
        return self.concat_strs(st, out)

    def e_Subscript(self, st, fr, e):
        o = self.eval(st, fr, e.value)
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(st, fr, e.slice.lower) if e.slice.lower else None
            hi = self.eval(st, fr, e.slice.upper) if e.slice.upper else None
            if e.slice.step is not None:
                raise Unsupported("slice step")
            return self.slice(st, o, lo, hi)
        k = self.eval(st, fr, e.slice)
        return self.get_item(st, o, k)

    def slice(self, st, o, lo, hi):
        if is_const(o) and (lo is None or isinstance(lo, int)) and (hi is None or isinstance(hi, int)):
            return o[lo:hi]
        if isinstance(o, tuple):
            return o[lo:hi]
        if isinstance(o, StrV) or kind_of(o) == "s" or (isinstance(o, SV) and o.k == "V" and self.branch(st, V.is_vs(o.t))):
            t = V.s(o.t) if isinstance(o, SV) and o.k == "V" else self.strterm(st, o)
            n = z3.Length(t)
            def norm(x, d):
                if x is None:
                    return d
                xt = to_term(self.coerce(st, x, "i"))
                return simp(z3.If(xt < 0, z3.If(n + xt < 0, z3.IntVal(0), n + xt), z3.If(xt > n, n, xt)))
            a, b = norm(lo, z3.IntVal(0)), norm(hi, n)
            return lit(SV("s", simp(z3.SubString(t, a, z3.If(b > a, b - a, z3.IntVal(0))))))
        kind = self.list_kind(st, o) or "list"
        seq = self.to_seq(st, o)
        return st.alloc(ListC(self.slice_seq(st, seq, lo, hi), kind))

    def slice_seq(self, st, seq, lo, hi):
        if all(p[0] == "u" for p in seq.parts) and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return Seq(seq.parts[lo:hi])
        if lo is None and hi is None:
            return seq
        if len(seq.parts) == 1 and is_unit_map(seq.parts[0]):
            p = seq.parts[0]
            if (lo is None or lo == 0) and isinstance(hi, int) and hi < 0:
                n = p[4] + hi
                return Seq((p[:4] + (simp(z3.If(n < 0, z3.IntVal(0), n)),) + p[5:],))
            if (lo is None or lo == 0) and hi is not None:
                h = to_term(self.coerce(st, hi, "i"))
                if self.entails(st, z3.And(h >= 0, h <= p[4])):
                    return Seq((p[:4] + (h,) + p[5:],))
        o = self.intern(st, ListC(seq))
        a = self.toV(st, lo)
        b = self.toV(st, hi)
        t = uf("lslice", Obj, V, V, Obj)(o, a, b)
        ety = "V"
        if len(seq.parts) == 1 and seq.parts[0][0] == "map" and seq.parts[0][1].kind == "vlist":
            ety = seq.parts[0][1].ety
        return self.seq_of_src(st, Src("vlist", (t,), ety))

    def e_Lambda(self, st, fr, e):
        return Func(e, self.frame_mod(st, fr), fr, "<lambda>")

    def e_NamedExpr(self, st, fr, e):
        v = self.eval(st, fr, e.value)
        self.assign(st, fr, e.target, v)
        return v

    def e_Starred(self, st, fr, e):
        raise Unsupported("starred")

    # comprehensions ---------------------------------------------------
    def e_ListComp(self, st, fr, e):
        return self.comp(st, fr, e, "list")

    def e_SetComp(self, st, fr, e):
        return self.comp(st, fr, e, "set")

    def e_GeneratorExp(self, st, fr, e):
        return self.comp(st, fr, e, "gen")

    def e_DictComp(self, st, fr, e):
        return self.comp(st, fr, e, "dict")

    def new_frame(self, st, parent, mod=None, kw=None):
        fid = next_id()
        st.frames[fid] = {"$parent": parent, "$mod": mod, **(kw or {})}
        return fid

    def comp(self, st, fr, e, kind):
        nf = self.new_frame(st, fr)
        if kind == "dict":
            acc = st.alloc(DictC(None, ("dict", "V", "V"), Seq()))
        else:
            acc = st.alloc(ListC(Seq(), "list" if kind == "gen" else kind))

        def inner(s):
            if kind == "dict":
                k = self.eval(s, nf, e.key)
                v = self.eval(s, nf, e.value)
                self.dict_put(s, acc, k, v)
            else:
                v = self.eval(s, nf, e.elt)
                c = s.heap[acc.id]
                s.heap[acc.id] = ListC(c.seq + unit(v), c.kind)

        outs = self.cached(st, lambda: self.comp_loop(st, nf, e.generators, 0, inner))
        comp = self.pick_outs(st, outs)
        if comp[0] == "raise":
            raise comp[1]
        return acc

    def cached(self, st, compute):
        """outcomes computed once per path prefix"""
        ch = self.choosers[-1]
        if ch.pos < len(ch.dec):
            i, outs = ch.dec[ch.pos]
            return ("replay", outs)
        return ("new", compute())

    def pick_outs(self, st, tagged):
        mode, outs = tagged
        if mode == "new" and not outs:
            raise Unsupported("no outcome")
        i, outs = self.choose(len(outs), outs)
        s2, comp = outs[i]
        st.become(s2.copy())
        return comp

    def comp_loop(self, st, nf, gens, gi, inner):
        """-> outcomes"""
        n0 = len(st.facts)
        if gi == len(gens):
            outs = self.explore(st, lambda s: inner(s))
            return [(s, ("next",) if c[0] == "ok" else c) for s, c in outs]
        g = gens[gi]
        if g.is_async:
            raise Unsupported("async")
        res = []
        for s, c in self.explore(st, lambda s: self.iter_value(s, nf, g.iter)):
            if c[0] == "raise":
                res.append((s, c))
                continue

            def body(s2, el):
                outs2 = []
                for s3, c3 in self.explore(s2, lambda q: self.bind_and_test(q, nf, g, el)):
                    if c3[0] == "raise":
                        outs2.append((s3, c3))
                    elif c3[1]:
                        outs2.extend(self.comp_loop(s3, nf, gens, gi + 1, inner))
                    else:
                        outs2.append((s3, ("next",)))
                return outs2

            res.extend(self.iter_seq(c[1], s, body))
        return self.merge_outcomes(n0, res)

    def iter_value(self, st, fr, e):
        return self.to_seq(st, self.eval(st, fr, e))

    def bind_and_test(self, st, nf, g, el):
        self.assign(st, nf, g.target, el)
        for c in g.ifs:
            if not self.test(st, self.eval(st, nf, c)):
                return False
        return True

    # ------------------------------------------------------------ calls
    def e_Call(self, st, fr, e):
        # any / all over a generator expression short-circuit
        if (
            isinstance(e.func, ast.Name)
            and e.func.id in ("any", "all")
            and len(e.args) == 1
            and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp))
            and not e.keywords
        ):
            f = self.lookup(st, fr, e.func.id)
            if f is any or f is all:
                return self.quant(st, fr, e.args[0], f is any)
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return self.env.super_(self, st, fr)
        f = self.e_Attribute(st, fr, e.func, True) if isinstance(e.func, ast.Attribute) else self.eval(st, fr, e.func)
        if self.env.is_ignored(self, st, f, e):
            return None
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                seq = self.to_seq(st, self.eval(st, fr, a.value))
                if not all(p[0] == "u" for p in seq.parts):
                    raise Unsupported("*args")
                args.extend(p[1] for p in seq.parts)
            else:
                args.append(self.eval(st, fr, a))
        kw = {}
        star = None
        for k in e.keywords:
            if k.arg is None:
                star = self.eval(st, fr, k.value)
                kw["**"] = star
            else:
                kw[k.arg] = self.eval(st, fr, k.value)
        if isinstance(f, Meth) and isinstance(f.obj, SV) and f.name in ("update", "add", "append", "extend") and isinstance(e.func, ast.Attribute):
            r = self.call_item(st, fr, e.func.value, f, args, kw)
            if r is not NotImplemented:
                return r
        if self.env.logged(self, st, f, args, kw):
            return None
        return self.call(st, f, args, kw)

    def call_item(self, st, fr, tgt, f, args, kw):
        """d[k].update(...) of a local dict whose values nothing else refers to: changed, then stored again"""
        o = f.obj
        if not (isinstance(tgt, ast.Subscript) and isinstance(tgt.value, ast.Name) and o.k == "o" and o.ty and o.ty[0] in ("set", "list")):
            return NotImplemented
        d = self.eval(st, fr, tgt.value)
        if not isinstance(d, Ref) or not isinstance(st.heap[d.id], DictC) or isinstance(d.id, str):
            return NotImplemented
        r = st.alloc(ListC(self.to_seq_raw(st, o), o.ty[0]))
        v = self.call(st, Meth(r, f.name), args, kw)
        self.dict_put(st, d, self.eval(st, fr, tgt.slice), r)
        return v

    def quant(self, st, fr, gen, is_any):
        nf = self.new_frame(st, fr)

        def compute():
            outs = self.quant_loop(st, nf, gen.generators, 0, gen.elt, is_any)
            res = []
            for s, c in outs:
                if c[0] == "return":
                    res.append((s, ("ok", is_any)))
                elif c[0] == "next":
                    res.append((s, ("ok", not is_any)))
                else:
                    res.append((s, c))
            return self.merge_outcomes(len(st.facts), res)

        comp = self.pick_outs(st, self.cached(st, compute))
        if comp[0] == "raise":
            raise comp[1]
        return comp[1]

    def quant_loop(self, st, nf, gens, gi, elt, is_any):
        n0 = len(st.facts)
        if gi == len(gens):
            res = []
            for s, c in self.explore(st, lambda s: self.truth(s, self.eval(s, nf, elt))):
                if c[0] == "raise":
                    res.append((s, c))
                    continue
                t = bterm(c[1])
                hit, miss = (t, znot(t)) if is_any else (znot(t), t)
                if self.feasible(s, hit):
                    s1 = s.copy()
                    s1.add(hit, "pc")
                    res.append((s1, ("return", None)))
                if self.feasible(s, miss):
                    s1 = s.copy()
                    s1.add(miss, "pc")
                    res.append((s1, ("next",)))
            return res
        g = gens[gi]
        res = []
        for s, c in self.explore(st, lambda s: self.iter_value(s, nf, g.iter)):
            if c[0] == "raise":
                res.append((s, c))
                continue

            def body(s2, el):
                outs2 = []
                for s3, c3 in self.explore(s2, lambda q: self.bind_and_test(q, nf, g, el)):
                    if c3[0] == "raise":
                        outs2.append((s3, c3))
                    elif c3[1]:
                        outs2.extend(self.quant_loop(s3, nf, gens, gi + 1, elt, is_any))
                    else:
                        outs2.append((s3, ("next",)))
                return outs2

            res.extend(self.iter_seq(c[1], s, body))
        return self.merge_outcomes(n0, res)

    def call(self, st, f, args, kw):
        self.tick()
        if isinstance(f, Poison):
            raise NeedHole(f.loc)
        if isinstance(f, Func):
            return self.call_func(st, f, args, kw)
        if isinstance(f, types.FunctionType):
            g = self.env.func_of(f)
            if g is not None:
                return self.call_func(st, g, args, kw)
        if isinstance(f, Meth):
            return self.env.call_method(self, st, f.obj, f.name, args, kw)
        h = self.env.call_lib(self, st, f, args, kw)
        if h is not NotImplemented:
            return h
        if isinstance(f, type) and issubclass(f, BaseException):
            return ("$exc", f)
        if isinstance(f, type) and self.env.is_repo(f):
            return self.instantiate(st, f, args, kw)
        raise Unsupported(f"call of {f!r}")

    def instantiate(self, st, cls, args, kw):
        r = st.alloc(InstC(cls, {}))
        for k in cls.__mro__:
            if "__init__" in vars(k):
                f = self.env.func_of(vars(k)["__init__"]) if isinstance(vars(k)["__init__"], types.FunctionType) else None
                if f is None:
                    if k is object:
                        break
                    raise Unsupported(f"constructor of {cls.__name__}")
                self.call_func(st, Func(f.node, f.mod, None, f.qual, f.cls, r), args, kw)
                break
        return r

    def bind_args(self, st, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        args = list(args)
        if f.self_ is not None:
            args = [f.self_] + args
        if len(args) > len(names):
            if a.vararg is None:
                raise Unsupported("argument binding")
            vals[a.vararg.arg] = tuple(args[len(names) :])
            args = args[: len(names)]
        elif a.vararg is not None:
            vals[a.vararg.arg] = ()
        for n, v in zip(names, args):
            vals[n] = v
        extra = {}
        for k, v in kw.items():
            if k == "**":
                c = st.heap[v.id] if isinstance(v, Ref) else None
                if c is None or c.base is not None:
                    raise Unsupported("**kwargs")
                for p in c.upd.parts:
                    if p[0] != "u" or not isinstance(p[1][0], str):
                        raise Unsupported("**kwargs")
                    extra[p[1][0]] = p[1][1]
                continue
            extra[k] = v
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in extra.items():
            if k in names or k in kwonly:
                if k in vals:
                    raise Unsupported("argument binding")
                vals[k] = v
            else:
                rest[k] = v
        if a.kwarg is not None:
            vals[a.kwarg.arg] = st.alloc(DictC(None, ("dict", "str", "V"), units(list(rest.items()))))
        elif rest:
            raise Unsupported("argument binding")
        defaults = a.defaults
        for n, d in zip(names[len(names) - len(defaults) :], defaults):
            if n not in vals:
                vals[n] = self.eval_default(st, f, d)
        for n, d in zip(kwonly, a.kw_defaults):
            if n not in vals and d is not None:
                vals[n] = self.eval_default(st, f, d)
        for n in names + kwonly:
            if n not in vals:
                raise Unsupported("argument binding")
        return vals

    def eval_default(self, st, f, d):
        if f.frame is not None:
            return self.eval(st, f.frame, d)
        nf = self.new_frame(st, None, f.mod)
        return self.eval(st, nf, d)

    def call_func(self, st, f, args, kw):
        con = self.env.contract_for(self, f)
        if con is not None:
            return self.env.apply_contract(self, st, con, f, args, kw)
        r = self.env.call_inner(self, st, f, args, kw)
        if r is not NotImplemented:
            return r
        return self.inline(st, f, args, kw)

    def inline(self, st, f, args, kw):
        def compute():
            self.depth += 1
            if self.depth > 40:
                self.depth -= 1
                raise Unsupported(f"recursion in {f.qual} without contract")
            if f.qual and f.qual != "<lambda>":
                self.inlined.add(f.qual)
            n0 = len(st.facts)
            nf0 = set()
            try:
                outs = []
                for s, c in self.explore(st, lambda s: self.bind_args(s, f, args, kw)):
                    if c[0] == "raise":
                        outs.append((s, c))
                        continue
                    nf = self.new_frame(s, f.frame, f.mod, c[1])
                    s.frames[nf]["$decl"] = {}
                    s.frames[nf]["$func"] = f
                    nf0.add(nf)
                    if isinstance(f.node, ast.Lambda):
                        outs.extend(self.explore(s, lambda q: self.eval(q, nf, f.node.body)))
                    else:
                        for s2, c2 in self.exec_block(f.node.body, s, nf, live_after(f.node)):
                            if c2[0] == "next":
                                outs.append((s2, ("ok", None)))
                            elif c2[0] == "return":
                                outs.append((s2, ("ok", c2[1])))
                            elif c2[0] == "raise":
                                outs.append((s2, c2))
                            else:
                                raise Unsupported("stray break")
                if not has_closure(f.node):
                    for s2, _ in outs:
                        for fid in [k for k in s2.frames if k not in st.frames]:
                            if fid in nf0 or s2.frames[fid].get("$parent") in nf0:
                                del s2.frames[fid]
                return self.merge_outcomes(n0, outs)
            finally:
                self.depth -= 1

        comp = self.pick_outs(st, self.cached(st, compute))
        if comp[0] == "raise":
            raise comp[1]
        return comp[1]

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fr, live=None):
        """-> [(state, completion)]; live[i]: locals used after statement i (None: all)"""
        n0 = len(st.facts)
        cur = [st]
        done = []
        for i, s in enumerate(stmts):
            nxt = []
            for state in cur:
                for s2, c in self.exec_stmt(s, state, fr):
                    if c[0] == "next":
                        nxt.append(s2)
                    else:
                        done.append((s2, c))
            if len(nxt) > 1:
                if live is not None:
                    for x in nxt:
                        f = x.frames[fr]
                        for k in f:
                            if k not in live[i] and not k.startswith("$"):
                                f[k] = Poison(("undef", k))
                nxt = [x for x, c in self.merge_outcomes(n0, [(x, ("next",)) for x in nxt])]
            cur = nxt
            if not cur:
                break
            if len(cur) + len(done) > self.MAXPATHS:
                raise Unsupported("too many paths")
        done.extend((s, ("next",)) for s in cur)
        return done

    def simple(self, st, thunk):
        n0 = len(st.facts)
        res = []
        for s, c in self.explore(st, thunk):
            if c[0] == "ok":
                v = c[1]
                if isinstance(v, tuple) and v and v[0] == "$comp":
                    res.append((s, v[1]))
                else:
                    res.append((s, ("next",)))
            else:
                res.append((s, c))
        return self.merge_outcomes(n0, res)

    def exec_stmt(self, n, st, fr):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(n).__name__}")
        self.cover.add(id(n))
        return m(n, st, fr)

    def s_Expr(self, n, st, fr):
        if isinstance(n.value, ast.Constant):
            return [(st, ("next",))]
        return self.simple(st, lambda s: (self.eval(s, fr, n.value), None)[1])

    def s_Block(self, n, st, fr):
        return self.simple(st, lambda s: (self.env.call_block(self, s, n, fr), None)[1])

    def s_Pass(self, n, st, fr):
        return [(st, ("next",))]

    def s_Assign(self, n, st, fr):
        def th(s):
            v = self.eval(s, fr, n.value)
            for t in n.targets:
                self.assign(s, fr, t, v)
        return self.simple(st, th)

    def s_AnnAssign(self, n, st, fr):
        if n.value is None:
            return [(st, ("next",))]

        def th(s):
            self.assign(s, fr, n.target, self.eval(s, fr, n.value))
        return self.simple(st, th)

    def s_AugAssign(self, n, st, fr):
        def th(s):
            t = n.target
            if isinstance(t, ast.Name):
                old = self.lookup(s, fr, t.id)
                v = self.eval(s, fr, n.value)
                r = self.aug(s, type(n.op), old, v)
                if r is not None:
                    self.assign_name(s, fr, t.id, r)
            elif isinstance(t, ast.Attribute):
                o = self.eval(s, fr, t.value)
                old = self.get_attr(s, o, t.attr)
                v = self.eval(s, fr, n.value)
                r = self.aug(s, type(n.op), old, v)
                if r is not None:
                    self.set_attr(s, o, t.attr, r)
            elif isinstance(t, ast.Subscript):
                o = self.eval(s, fr, t.value)
                k = self.eval(s, fr, t.slice)
                old = self.get_item(s, o, k)
                v = self.eval(s, fr, n.value)
                r = self.aug(s, type(n.op), old, v)
                if r is not None:
                    self.set_item(s, o, k, r)
            else:
                raise Unsupported("augmented assignment")
        return self.simple(st, th)

    def aug(self, st, op, old, v):
        if isinstance(old, Ref) and isinstance(st.heap[old.id], ListC) and op is ast.Add:
            c = st.heap[old.id]
            st.heap[old.id] = ListC(c.seq + self.to_seq(st, v), c.kind)
            return None
        if isinstance(old, Ref) and isinstance(st.heap[old.id], ListC) and op is ast.BitOr:
            c = st.heap[old.id]
            st.heap[old.id] = ListC(c.seq + self.to_seq_raw(st, v), c.kind)
            return None
        return self.binop(st, op, old, v)

    def s_Match(self, n, st, fr):
        """match with values, alternatives of values, names and guards: as a chain of conditions"""
        r = getattr(n, "_chain", None)
        if r is None:
            name = f"match${n.lineno}"

            def test(p):
                subject = ast.Name(id=name, ctx=ast.Load())
                if isinstance(p, ast.MatchValue):
                    return ast.Compare(subject, [ast.Eq()], [p.value])
                if isinstance(p, ast.MatchSingleton):
                    return ast.Compare(subject, [ast.Is()], [ast.Constant(p.value)])
                if isinstance(p, ast.MatchOr):
                    return ast.BoolOp(ast.Or(), [test(x) for x in p.patterns])
                if isinstance(p, ast.MatchAs) and p.pattern is None and p.name is None:
                    return ast.Constant(True)
                raise Unsupported("match pattern")

            rest = []
            for c in reversed(n.cases):
                t = test(c.pattern)
                rest = [ast.If(t if c.guard is None else ast.BoolOp(ast.And(), [t, c.guard]), c.body, rest)]
            r = [ast.Assign([ast.Name(id=name, ctx=ast.Store())], n.subject)] + rest
            for x in r:
                ast.fix_missing_locations(ast.copy_location(x, n))
            n._chain = r
        return self.exec_block(r, st, fr)

    def s_Return(self, n, st, fr):
        def th(s):
            v = None if n.value is None else self.eval(s, fr, n.value)
            return ("$comp", ("return", v))
        return self.simple(st, th)

    def s_Raise(self, n, st, fr):
        def th(s):
            if n.exc is None:
                f = s.frames[fr].get("$exc")
                if f is None:
                    raise Unsupported("re-raise")
                raise f
            v = self.eval(s, fr, n.exc)
            raise self.as_exc(s, v)
        return self.simple(st, th)

    def as_exc(self, st, v):
        if isinstance(v, tuple) and v and v[0] == "$exc":
            return PyRaise(v[1])
        if isinstance(v, type) and issubclass(v, BaseException):
            return PyRaise(v)
        if isinstance(v, PyRaise):
            return v
        if isinstance(v, Ref) and isinstance(st.heap[v.id], InstC) and issubclass(st.heap[v.id].cls, BaseException):
            return PyRaise(st.heap[v.id].cls)
        raise Unsupported("raise")

    def s_Assert(self, n, st, fr):
        def th(s):
            if not self.test(s, self.eval(s, fr, n.test)):
                raise PyRaise(AssertionError)
        return self.simple(st, th)

    def s_Break(self, n, st, fr):
        return [(st, ("break",))]

    def s_Continue(self, n, st, fr):
        return [(st, ("continue",))]

    def s_Global(self, n, st, fr):
        s = st
        d = dict(s.frames[fr].get("$decl", {}))
        for x in n.names:
            d[x] = "global"
        s.frames[fr]["$decl"] = d
        return [(s, ("next",))]

    def s_Nonlocal(self, n, st, fr):
        d = dict(st.frames[fr].get("$decl", {}))
        for x in n.names:
            d[x] = "nonlocal"
        st.frames[fr]["$decl"] = d
        return [(st, ("next",))]

    def s_FunctionDef(self, n, st, fr):
        mod = self.frame_mod(st, fr)
        st = st.copy()
        st.frames[fr][n.name] = Func(n, mod, fr, n.name)
        return [(st, ("next",))]

    def s_Delete(self, n, st, fr):
        def th(s):
            for t in n.targets:
                if isinstance(t, ast.Subscript):
                    o = self.eval(s, fr, t.value)
                    k = self.eval(s, fr, t.slice)
                    if isinstance(o, Ref) and isinstance(s.heap[o.id], DictC):
                        c = s.heap[o.id]
                        if not self.branch(s, self.dict_has(s, c, k)):
                            raise PyRaise(KeyError)
                        s.heap[o.id] = DictC(c.base, c.ty, c.upd + unit((k, DEL)))
                        continue
                raise Unsupported("del")
        return self.simple(st, th)

    def s_If(self, n, st, fr):
        n0 = len(st.facts)
        res = []
        for s, c in self.explore(st, lambda s: self.truth(s, self.eval(s, fr, n.test))):
            if c[0] == "raise":
                res.append((s, c))
                continue
            t = c[1]
            if isinstance(t, bool) or z3.is_true(t) or z3.is_false(t):
                tb = t if isinstance(t, bool) else z3.is_true(t)
                res.extend(self.exec_block(n.body if tb else n.orelse, s, fr))
                continue
            for cond, blk in ((t, n.body), (znot(t), n.orelse)):
                if not self.feasible(s, cond):
                    continue
                s2 = s.copy()
                s2.add(cond, "pc")
                res.extend(self.exec_block(blk, s2, fr))
        return self.merge_outcomes(n0, res)

    def s_With(self, n, st, fr):
        if len(n.items) != 1:
            raise Unsupported("with")
        it = n.items[0]
        res = []
        n0 = len(st.facts)
        for s, c in self.explore(st, lambda s: self.eval(s, fr, it.context_expr)):
            if c[0] == "raise":
                res.append((s, c))
                continue
            cm = c[1]
            if not (isinstance(cm, Ref) and isinstance(s.heap[cm.id], FileC)):
                raise Unsupported("context manager")
            if it.optional_vars is not None:
                self.assign(s, fr, it.optional_vars, cm)
            for s2, c2 in self.exec_block(n.body, s, fr):
                self.env.close_file(self, s2, cm)
                res.append((s2, c2))
        return self.merge_outcomes(n0, res)

    def s_Try(self, n, st, fr):
        n0 = len(st.facts)
        res = []
        for s, c in self.exec_block(n.body, st, fr):
            if c[0] == "next":
                res.extend(self.exec_block(n.orelse, s, fr) if n.orelse else [(s, c)])
                continue
            if c[0] != "raise":
                res.append((s, c))
                continue
            exc = c[1]
            handled = False
            for h in n.handlers:
                ok = h.type is None
                if not ok:
                    outs = self.explore(s, lambda q: self.eval(q, fr, h.type))
                    if len(outs) != 1 or outs[0][1][0] != "ok":
                        raise Unsupported("except clause")
                    tv = outs[0][1][1]
                    tv = tv if isinstance(tv, tuple) else (tv,)
                    ok = any(isinstance(t, type) and issubclass(exc.cls, t) for t in tv)
                if ok:
                    s2 = s.copy()
                    if h.name:
                        s2.frames[fr][h.name] = self.env.exc_value(self, s2, exc)
                    s2.frames[fr]["$exc"] = exc
                    res.extend(self.exec_block(h.body, s2, fr))
                    handled = True
                    break
            if not handled:
                res.append((s, c))
        if n.finalbody:
            out = []
            for s, c in res:
                for s2, c2 in self.exec_block(n.finalbody, s, fr):
                    out.append((s2, c if c2[0] == "next" else c2))
            res = out
        return self.merge_outcomes(n0, res)

    def s_For(self, n, st, fr):
        n0 = len(st.facts)
        res = []
        for s, c in self.explore(st, lambda s: self.to_seq(s, self.eval(s, fr, n.iter))):
            if c[0] == "raise":
                res.append((s, c))
                continue

            def body(s2, el):
                outs = []
                for s3, c3 in self.explore(s2, lambda q: self.assign(q, fr, n.target, el)):
                    if c3[0] == "raise":
                        outs.append((s3, c3))
                        continue
                    for s4, c4 in self.exec_block(n.body, s3, fr):
                        outs.append((s4, ("next",) if c4[0] == "continue" else c4))
                return outs

            for s2, c2 in self.iter_seq(c[1], s, body):
                if c2[0] == "next":
                    if n.orelse:
                        res.extend(self.exec_block(n.orelse, s2, fr))
                    else:
                        res.append((s2, c2))
                elif c2[0] == "break":
                    res.append((s2, ("next",)))
                else:
                    res.append((s2, c2))
        return self.merge_outcomes(n0, res)

    def s_While(self, n, st, fr):
        """concretely bounded loops, or loops over a counter that is summarised as a for loop"""
        r = self.while_as_for(n, st, fr)
        if r is not None:
            return r
        n0 = len(st.facts)
        res = []
        cur = [st]
        first = self.explore(st.copy(), lambda s: self.truth(s, self.eval(s, fr, n.test)))
        if any(c[0] != "raise" and self.feasible(s, bterm(c[1])) and self.feasible(s, znot(bterm(c[1]))) for s, c in first):
            return self.while_summary(n, st, fr)
        for it in range(64):
            nxt = []
            for s0 in cur:
                for s, c in self.explore(s0, lambda s: self.truth(s, self.eval(s, fr, n.test))):
                    if c[0] == "raise":
                        res.append((s, c))
                        continue
                    t = bterm(c[1])
                    if self.feasible(s, znot(t)):
                        s1 = s.copy()
                        s1.add(znot(t), "pc")
                        if n.orelse:
                            res.extend(self.exec_block(n.orelse, s1, fr))
                        else:
                            res.append((s1, ("next",)))
                    if self.feasible(s, t):
                        s1 = s.copy()
                        s1.add(t, "pc")
                        for s2, c2 in self.exec_block(n.body, s1, fr):
                            if c2[0] in ("next", "continue"):
                                nxt.append(s2)
                            elif c2[0] == "break":
                                res.append((s2, ("next",)))
                            else:
                                res.append((s2, c2))
            cur = nxt
            if not cur:
                return self.merge_outcomes(n0, res)
            if res and it >= 2:
                break
            if it > 2 and len(cur) * it > 40:
                break
        return self.while_summary(n, st, fr)

    def while_summary(self, n, st, fr):
        """any number of iterations: a loop over the natural numbers that a false test leaves (termination is assumed)"""
        n0 = len(st.facts)
        key = z3.IntVal(0)
        seq = self.seq_of_src(st, Src("nat", (key,), "int"))

        def body(s0, el):
            out = []
            for s, c in self.explore(s0, lambda s: self.truth(s, self.eval(s, fr, n.test))):
                if c[0] == "raise":
                    out.append((s, c))
                    continue
                t = bterm(c[1])
                if self.feasible(s, znot(t)):
                    s1 = s.copy()
                    s1.add(znot(t), "pc")
                    out.append((s1, ("wend",)))
                if self.feasible(s, t):
                    s1 = s.copy()
                    s1.add(t, "pc")
                    for s2, c2 in self.exec_block(n.body, s1, fr):
                        out.append((s2, ("next",) if c2[0] == "continue" else c2))
            return out

        res = []
        for s, c in self.iter_seq(seq, st, body):
            if c[0] == "next":
                continue  # infinitely many iterations
            if c[0] == "wend":
                if n.orelse:
                    res.extend(self.exec_block(n.orelse, s, fr))
                else:
                    res.append((s, ("next",)))
            elif c[0] == "break":
                res.append((s, ("next",)))
            else:
                res.append((s, c))
        return self.merge_outcomes(n0, res)

    def while_as_for(self, n, st, fr):
        """while i < N: ...; i += 1  with a local i and no other assignment to i"""
        t = n.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name)):
            return None
        if not isinstance(t.ops[0], (ast.Lt, ast.LtE)) or n.orelse:
            return None
        i = t.left.id
        last = n.body[-1]
        if not (
            isinstance(last, ast.AugAssign)
            and isinstance(last.target, ast.Name)
            and last.target.id == i
            and isinstance(last.op, ast.Add)
            and isinstance(last.value, ast.Constant)
            and last.value.value == 1
        ):
            return None
        for x in n.body[:-1]:
            for y in ast.walk(x):
                if isinstance(y, ast.Name) and y.id == i and isinstance(y.ctx, ast.Store):
                    return None
                if isinstance(y, ast.Continue):
                    return None
        # the bound must not change: names in it are not assigned in the body and it has no calls but len()
        stored = {y.id for x in n.body for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
        bound = t.comparators[0]
        for y in ast.walk(bound):
            if isinstance(y, ast.Name) and y.id in stored:
                return None
            if isinstance(y, ast.Call) and not (isinstance(y.func, ast.Name) and y.func.id == "len"):
                return None
        for x in n.body:
            for y in ast.walk(x):
                if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ("append", "pop", "extend", "insert", "remove", "clear", "update"):
                    if any(isinstance(z, ast.Name) and isinstance(y.func.value, ast.Name) and z.id == y.func.value.id for z in ast.walk(bound)):
                        return None
        n0 = len(st.facts)
        res = []

        def head(s):
            lo = self.coerce(s, self.lookup(s, fr, i), "i")
            hi = self.coerce(s, self.eval(s, fr, bound), "i")
            h = to_term(hi)
            if isinstance(t.ops[0], ast.LtE):
                h = simp(h + 1)
            return (to_term(lo), h)

        for s, c in self.explore(st, head):
            if c[0] == "raise":
                res.append((s, c))
                continue
            lo, hi = c[1]
            seq = self.seq_of_src(s, Src("range", (lo, hi), "int"))

            def body(s2, el):
                s2.frames[fr][i] = el
                return [(s4, ("next",) if c4[0] == "continue" else c4) for s4, c4 in self.exec_block(n.body[:-1], s2, fr)]

            for s2, c2 in self.iter_seq(seq, s, body):
                if c2[0] == "next":
                    s2.frames[fr][i] = lit(SV("i", simp(z3.If(hi > lo, hi, lo))))
                    res.append((s2, c2))
                elif c2[0] == "break":
                    res.append((s2, ("next",)))
                else:
                    res.append((s2, c2))
        return self.merge_outcomes(n0, res)

    # ------------------------------------------------------------ loops
    def iter_seq(self, seq, st, body):
        n0 = len(st.facts)
        cur = [st]
        done = []
        for p in self.parts(st, seq):
            nxt = []
            for s in cur:
                if p[0] == "u":
                    outs = body(s, p[1])
                elif p[0] == "if":
                    outs = []
                    for cond, sub in ((p[1], p[2]), (znot(p[1]), p[3])):
                        if not self.feasible(s, cond):
                            continue
                        s2 = s.copy()
                        s2.add(cond, "pc")
                        outs.extend(self.iter_seq(sub, s2, body))
                elif p[0] == "map":
                    outs = self.summarise(p, s, body)
                else:
                    raise NeedHole(p[1])
                for s2, c in outs:
                    if c[0] == "next":
                        nxt.append(s2)
                    else:
                        done.append((s2, c))
            if len(nxt) > 1:
                nxt = [x for x, c in self.merge_outcomes(n0, [(x, ("next",)) for x in nxt])]
            cur = nxt
        return done + [(s, ("next",)) for s in cur]

    def summarise(self, p, st, body):
        from .loops import summarise

        return summarise(self, p, st, body)


def has_closure(node):
    r = getattr(node, "_closure", None)
    if r is None:
        r = node._closure = any(x is not node and isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(node))
    return r


def live_after(node):
    """for each statement of a function body: the names mentioned later or captured by an inner function"""
    r = getattr(node, "_live", None)
    if r is None:
        captured = set()
        for x in ast.walk(node):
            if x is not node and isinstance(x, (ast.FunctionDef, ast.Lambda)):
                captured |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}
        cur = set(captured)
        r = [None] * len(node.body)
        for i in range(len(node.body) - 1, -1, -1):
            r[i] = set(cur)
            cur |= {y.id for y in ast.walk(node.body[i]) if isinstance(y, ast.Name)}
        node._live = r
    return r


def bterm(c):
    if isinstance(c, bool):
        return TRUE if c else FALSE
    return c


def bnot(c):
    if isinstance(c, bool):
        return not c
    return simp(znot(c))


def has_del(seq):
    for p in seq.parts:
        if p[0] == "u" and isinstance(p[1], tuple) and len(p[1]) == 2 and p[1][1] is DEL:
            return True
        if p[0] == "if" and (has_del(p[2]) or has_del(p[3])):
            return True
        if p[0] == "map" and has_del(p[3]):
            return True
    return False


def is_unit_map(p):
    return p[0] == "map" and len(p[3].parts) == 1 and p[3].parts[0][0] == "u"


def map_seq(eng, st, seq, f):
    out = []
    for p in seq.parts:
        if p[0] == "u":
            out.append(("u", f(p[1])))
        elif p[0] == "if":
            out.append(("if", p[1], map_seq(eng, st, p[2], f), map_seq(eng, st, p[3], f)))
        elif p[0] == "map":
            out.append(p[:3] + (map_seq(eng, st, p[3], f),) + p[4:])
        else:
            raise NeedHole(p[1])
    return Seq(tuple(out))


def flat_map(eng, seq, f):
    """the concatenation of f(element) over the sequence"""
    out = ()
    for p in seq.parts:
        if p[0] == "u":
            out += f(p[1]).parts
        elif p[0] == "if":
            out += (("if", p[1], flat_map(eng, p[2], f), flat_map(eng, p[3], f)),)
        elif p[0] == "map":
            out += (p[:3] + (flat_map(eng, p[3], f),) + p[4:],)
        else:
            raise NeedHole(p[1])
    return Seq(out)


def filter_seq(eng, st, seq, pred):
    out = []
    for p in eng.parts(st, seq):
        if p[0] == "u":
            c = pred(st, p[1])
            if z3.is_true(c):
                out.append(p)
            elif not z3.is_false(c):
                out.append(("if", c, Seq((p,)), Seq()))
        elif p[0] == "if":
            out.append(("if", p[1], filter_seq(eng, st, p[2], pred), filter_seq(eng, st, p[3], pred)))
        elif p[0] == "map":
            s2 = eng.enter_map(st, p)
            out.append(p[:3] + (filter_seq(eng, s2, p[3], pred),) + p[4:])
        else:
            raise NeedHole(p[1])
    return Seq(tuple(out))
