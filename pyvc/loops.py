"""Loop summarisation: a loop over a symbolic sequence becomes a closed form.

Locations changed by the body are classified
  temp   written before it is read in every iteration: unknown after the loop
  acc    only appended to: the suffix of one iteration becomes a map part
  fold   read and rewritten: an uninterpreted function F(scope.., index) with
         initial value and step recorded; two loops over the same source share
         F when the verifier proves equal initial values and equal steps
  expr   a fold with a closed form (flags, last assignment)
"""
from __future__ import annotations

import itertools

import z3

from .core import *
from .values import *
from .values import V, Obj, I, B, S, R


def get_loc(st, loc):
    if loc[0] == "f":
        return st.frames[loc[1]].get(loc[2], ABSENT)
    if loc[0] == "h":
        return st.heap.get(loc[1], ABSENT)
    if loc[0] == "i":
        c = st.heap.get(loc[1], ABSENT)
        return c.fields.get(loc[2], ABSENT) if c is not ABSENT else ABSENT
    if loc[0] == "w":
        return st.attrw.get(loc[1], Seq())
    if loc[0] == "W":
        return SV("o", z3.Const("w0", Obj) if st.world is None else st.world, None)


def set_loc(st, loc, v):
    if loc[0] == "f":
        st.frames[loc[1]][loc[2]] = v
    elif loc[0] == "h":
        st.heap[loc[1]] = v
    elif loc[0] == "i":
        c = st.heap[loc[1]]
        f = dict(c.fields)
        f[loc[2]] = v
        st.heap[loc[1]] = InstC(c.cls, f)
    elif loc[0] == "W":
        st.world = v.t
    else:
        st.attrw[loc[1]] = v


class _Absent:
    pass


ABSENT = _Absent()


def same(a, b):
    from .engine import val_same

    if a is b:
        return True
    return val_same(a, b)


def same_seq(a, b):
    from .engine import part_same

    return a is b or (len(a.parts) == len(b.parts) and all(part_same(x, y) for x, y in zip(a.parts, b.parts)))


def same_base(a, b):
    return a is b or (a is not None and b is not None and a.eq(b))


def modified(inner, s):
    out = []
    for fid, f in inner.frames.items():
        g = s.frames.get(fid)
        if g is None or g is f:
            continue
        for k in g:
            if k.startswith("$"):
                continue
            if k not in f or not same(f[k], g[k]):
                out.append(("f", fid, k))
    for hid, c in inner.heap.items():
        d = s.heap.get(hid)
        if d is c or d is None:
            continue
        if isinstance(c, InstC) and isinstance(d, InstC):
            for k in d.fields:
                if k not in c.fields or not same(c.fields[k], d.fields[k]):
                    out.append(("i", hid, k))
            continue
        if isinstance(c, ListC) and isinstance(d, ListC) and c.kind == d.kind and same_seq(c.seq, d.seq):
            continue
        if isinstance(c, DictC) and isinstance(d, DictC) and c.ty == d.ty and same_seq(c.upd, d.upd) and same_base(c.base, d.base):
            continue
        out.append(("h", hid))
    for n, q in s.attrw.items():
        if not same_seq(inner.attrw.get(n, Seq()), q):
            out.append(("w", n))
    if s.world is not None and (inner.world is None or not s.world.eq(inner.world)):
        out.append(("W",))
    return out


class Hole:
    __slots__ = ("kind", "sym", "vk", "ty", "expr", "content", "guess")

    def __init__(self, kind):
        self.kind = kind
        self.sym = None
        self.vk = None
        self.ty = None
        self.expr = None
        self.content = None
        self.guess = None


def summarise(eng, p, st, body):
    p = eng.open_part(st, p)
    src, var, elems, hi, pfacts = p[1], p[2], p[3], p[4], p[5]
    st = st.copy()
    if not eng.feasible(st, hi > 0):
        return [(st, ("next",))]
    lid = fresh_id()
    holes = {}
    outs = None
    for attempt in range(40):
        inner = eng.enter_map(st, p)
        before = len(inner.facts)
        install(eng, inner, st, holes, lid, var)
        n0 = len(inner.facts)
        typing = [t for _, t in inner.facts[before:n0]]
        try:
            outs = eng.iter_seq(elems, inner.copy(), body)
            new = []
            for s, c in outs:
                if c[0] == "next":
                    for l in modified(inner, s):
                        if l not in holes and l not in new:
                            new.append(l)
            if new:
                for l in new:
                    h = holes[l] = default_hole(eng, st, l)
                    guess_sets(st, l, h, [get_loc(s, l) for s, c in outs if c[0] == "next"], [s for s, c in outs if c[0] == "next"])
                    if h.kind == "fold" and l[0] in "fi" and get_loc(st, l) is None:
                        hint(h, [get_loc(s, l) for s, c in outs if c[0] == "next"])
                continue
            res = finish(eng, p, st, inner, n0, outs, holes, lid, body, typing)
            if res is None:
                continue
            return res
        except NeedHole as e:
            if not (isinstance(e.loc, tuple) and len(e.loc) == 2 and e.loc[0] == lid):
                raise
            upgrade(eng, st, holes, e.loc[1])
    raise Unsupported("loop does not stabilise")


def default_hole(eng, st, loc):
    if loc[0] == "f" or loc[0] == "i":
        old = get_loc(st, loc)
        if old is ABSENT or isinstance(old, Poison):
            return Hole("temp")
        if isinstance(old, (str, StrV)) or (isinstance(old, SV) and old.k == "s"):
            return Hole("accstr")
        if isinstance(old, (Func, type)):
            return Hole("temp")
        if loc[0] == "f" and loc[2].startswith("$"):
            return Hole("temp")
        return Hole("fold")
    if loc[0] == "w":
        return Hole("accw")
    if loc[0] == "W":
        return Hole("fold")
    return Hole("acc")


def hint(h, vals):
    """a variable that starts as None and takes objects of one class has type Opt(class)"""
    tys = set()
    for v in vals:
        if isinstance(v, SV) and v.k == "o" and v.ty:
            tys.add(("opt", v.ty))
        elif isinstance(v, SV) and v.k == "V" and v.ty and v.ty[0] == "opt":
            tys.add(v.ty)
        elif v is not None:
            return
    if len(tys) == 1:
        h.vk, h.ty = "V", tys.pop()


def upgrade(eng, st, holes, loc):
    h = holes[loc]
    if h.kind == "temp":
        old = get_loc(st, loc)
        if isinstance(old, Poison):
            raise NeedHole(old.loc)
        if old is ABSENT:
            raise Unsupported("loop-carried local without initial value")
        h.kind = "accstr" if isinstance(old, (str, StrV)) else "fold"
    elif h.kind in ("accstr", "acc"):
        h.kind = "fold"
    elif h.kind == "accw":
        raise Unsupported("attribute read after write in a loop")
    else:
        raise Unsupported("fold needs its value")


def fold_init_kind(eng, st, loc, h):
    """kind/type/sort of the fold value at loc"""
    old = get_loc(st, loc)
    if isinstance(old, Poison):
        raise NeedHole(old.loc)
    if loc[0] == "h":
        if isinstance(old, ListC):
            ety = "V"
            if len(old.seq.parts) == 1 and old.seq.parts[0][0] == "map":
                ety = getattr(old.seq.parts[0][1], "ety", "V") if old.seq.parts[0][1].kind == "vlist" else "V"
                if ety == "V":
                    tys = set()
                    seq_types(old.seq, tys)
                    t = tys.pop() if len(tys) == 1 else None
                    ety = t if t and t[0] == "cls" else "V"
            return "heap", (old.kind, ety), Obj
        if isinstance(old, DictC):
            ty = old.ty or ("dict", "V", "V")
            if ty == ("dict", "V", "V") and old.base is None and not old.upd.parts:
                ty = h.guess or ("dict", "str", "V")
            return "heap", ty, Obj
        if isinstance(old, FileC):
            return "file", None, S
        raise Unsupported("fold over object")
    if h.vk:
        return h.vk, h.ty, SORT[h.vk]
    ty = list_type(st, old)
    if ty is not None:
        return "o", ty, Obj
    k = kind_of(old)
    if isinstance(old, StrV):
        k = "s"
    if k is None:
        k = "V"
    if k == "V" and isinstance(old, SV):
        return k, old.ty, V
    if k == "o":
        return "o", old.ty, Obj
    return k, None, SORT[k]


def list_type(st, v):
    """the static type of a list of objects of one class"""
    c = st.heap[v.id] if isinstance(v, Ref) else v.content if isinstance(v, Frozen) else None
    if not isinstance(c, ListC):
        return None
    tys = set()
    seq_types(c.seq, tys)
    if len(tys) != 1:
        return None
    t = tys.pop()
    return (c.kind, t) if t and t[0] == "cls" else None


def seq_types(seq, out):
    for p in seq.parts:
        if p[0] == "u":
            out.add(p[1].ty if isinstance(p[1], SV) and p[1].k == "o" else None)
        elif p[0] == "if":
            seq_types(p[2], out)
            seq_types(p[3], out)
        elif p[0] == "map":
            seq_types(p[3], out)
        else:
            out.add(None)


def fold_value(eng, s, loc, h, old, t):
    """value of the fold at symbol term t"""
    if h.vk == "heap":
        ty = h.ty
        if ty[0] == "dict":
            return DictC(t, ty, Seq())
        eng.type_fact(s, t, (ty[0] if ty[0] in ("list", "set", "tuple") else "list", ty[1]), TRUE)
        return ListC(eng.seq_of_src(s, Src("vlist", (t,), ty[1])), ty[0])
    if h.vk == "file":
        return FileC(unit(SV("s", t)), old.info)
    if h.vk == "V":
        if h.ty and h.ty[0] == "opt":
            return eng.wrap(s, t, h.ty)
        return SV("V", t, h.ty)
    if h.vk == "o":
        return eng.wrap(s, t, h.ty) if h.ty and h.ty[0] in ("list", "tuple") else SV("o", t, h.ty)
    return SV(h.vk, t)


def install(eng, inner, st, holes, lid, var):
    for loc, h in holes.items():
        key = (lid, loc)
        old = get_loc(st, loc)
        if h.kind == "temp":
            set_loc(inner, loc, Poison(key))
        elif h.kind == "accstr":
            set_loc(inner, loc, StrV(Seq((("hole", key),)), getattr(old, "bytes", False)))
        elif h.kind == "accw":
            set_loc(inner, loc, Seq((("hole", key),)))
        elif h.kind == "acc":
            hs = Seq((("hole", key),))
            if isinstance(old, ListC):
                set_loc(inner, loc, ListC(hs, old.kind))
            elif isinstance(old, DictC):
                set_loc(inner, loc, DictC(old.base, old.ty, hs))
            elif isinstance(old, FileC):
                set_loc(inner, loc, FileC(hs, old.info))
            else:
                raise Unsupported("accumulator")
        elif h.kind == "fold":
            if h.sym is None:
                vk, ty, sort = fold_init_kind(eng, st, loc, h)
                h.vk, h.ty = vk, ty
                h.sym = new_sym(sort, st.scope)
            set_loc(inner, loc, fold_value(eng, inner, loc, h, old, h.sym(var)))
        elif h.kind == "expr":
            set_loc(inner, loc, h.expr(inner, var))


def new_sym(sort, scope):
    n = fresh_id()
    scope = tuple(scope)
    f = z3.Function(f"F!{n}", *([I] * (len(scope) + 1)), sort)
    g = lambda t: f(*scope, t)
    g.decl = f
    g.scope = scope
    return g


def conds_of(outs, n0):
    return [zand([t for tag, t in s.facts[n0:] if tag == "pc"]) for s, _ in outs]


def suffix(eng, s, loc, h, lid, inner):
    """what one iteration appends (references made in the body are frozen)"""
    v = get_loc(s, loc)
    old = set(inner.heap)
    if h.kind == "accstr":
        if isinstance(v, SV) or isinstance(v, str):
            return None
        if isinstance(v, Poison):
            raise NeedHole(v.loc)
        seq = v.seq
    elif h.kind == "accw":
        seq = v
    elif isinstance(v, ListC):
        seq = v.seq
    elif isinstance(v, DictC):
        seq = v.upd
    elif isinstance(v, FileC):
        seq = v.content
    else:
        return None
    if not seq.parts or seq.parts[0][0] != "hole" or seq.parts[0][1] != (lid, loc):
        return None
    rest = Seq(seq.parts[1:])
    if has_hole(rest, (lid, loc)):
        return None
    return eng.freeze(s, rest, old)


def has_hole(v, key):
    if isinstance(v, Seq):
        for p in v.parts:
            if p[0] == "hole" and p[1] == key:
                return True
            if p[0] == "if" and (has_hole(p[2], key) or has_hole(p[3], key)):
                return True
            if p[0] == "map" and has_hole(p[3], key):
                return True
            if p[0] == "u" and has_hole(p[1], key):
                return True
    elif isinstance(v, StrV):
        return has_hole(v.seq, key)
    elif isinstance(v, tuple):
        return any(has_hole(x, key) for x in v)
    elif isinstance(v, Frozen):
        return has_hole(v.content, key)
    elif isinstance(v, ListC):
        return has_hole(v.seq, key)
    elif isinstance(v, DictC):
        return has_hole(v.upd, key)
    return False


def fold_step_val(eng, s, loc, h, inner):
    v = get_loc(s, loc)
    if isinstance(v, Poison):
        raise NeedHole(v.loc)
    if h.vk == "heap":
        return Frozen(eng.freeze_content(s, v, set(inner.heap)))
    if h.vk == "file":
        return StrV(v.content)
    v = eng.freeze(s, v, set(inner.heap))
    if h.vk == "V":
        if h.ty and h.ty != "V" and not conforms(v, h.ty):
            raise Retype("V")
        return narrow(eng, s, v)
    if h.vk == "o":
        if isinstance(v, SV) and v.k == "o" and v.ty == h.ty:
            return v
        if list_type(s, v) == h.ty and h.ty is not None:
            return SV("o", eng.intern(s, v.content), h.ty)
        if isinstance(v, SV) and v.k == "V" and h.ty is not None and v.ty == ("opt", h.ty) and not eng.feasible(s, v.t == V.none):
            return SV("o", simp(V.o(v.t)), h.ty)
        raise Retype("V")
    if isinstance(v, StrV) and h.vk == "s":
        return SV("s", eng.strterm(s, v))
    k = kind_of(v)
    if k != h.vk:
        raise Retype("V")
    return SV(k, to_term(v))


def conforms(v, ty):
    """the value has the static type by construction"""
    if isinstance(v, SV) and v.ty is not None and v.ty == ty:
        return True
    if ty[0] == "opt":
        if v is None:
            return True
        inner = ty[1]
        if isinstance(v, SV) and v.k == "o":
            return v.ty == inner
        return kind_of(v) is not None and kind_of(v) != "V" and kind_of(v) == KIND.get(inner)
    return False


def typed_dict(eng, st, loc, h, step, var):
    """static types of the keys and values of a dict that starts empty, confirmed by what an iteration stores

    True: the type in use holds after every iteration; False: another type was chosen, run the body again
    """
    old = get_loc(st, loc)
    if not isinstance(old, DictC) or old.base is not None or old.upd.parts or old.ty not in (None, ("dict", "V", "V")):
        return True
    any_ = ("dict", "V", "V")
    c = step.content
    found = None
    if isinstance(c, DictC) and (c.base is None or c.base.eq(h.sym(var))):
        ents = []
        if entry_types(c.upd, ents):
            ks = {k for k, _ in ents}
            vs = {v for _, v in ents if v is not DEL}
            found = ("dict", "str" if ks <= {"str"} else "V", vs.pop() if len(vs) == 1 else "V")
    found = found or any_
    if h.ty == found or h.ty == any_:
        return True
    h.guess = any_ if h.guess and h.guess[2] != "V" else found
    h.sym = h.vk = h.ty = None
    return False


def guess_sets(st, loc, h, news, states):
    """a dict that starts empty and gets sets as its values"""
    old = get_loc(st, loc)
    if not isinstance(old, DictC) or old.base is not None or old.upd.parts or old.ty not in (None, ("dict", "V", "V")):
        return
    ok = []

    def walk(s, q):
        for p in q.parts:
            if p[0] == "if":
                walk(s, p[2])
                walk(s, p[3])
                continue
            x = p[1][1] if p[0] == "u" and isinstance(p[1], tuple) and len(p[1]) == 2 else None
            c = s.heap.get(x.id) if isinstance(x, Ref) else x.content if isinstance(x, Frozen) else None
            ok.append(isinstance(c, ListC) and c.kind == "set")

    for v, s in zip(news, states):
        if isinstance(v, DictC):
            walk(s, v.upd)
    if ok and all(ok):
        h.guess = ("dict", "V", ("set", "V"))


def entry_types(seq, out):
    """(key type, value type) of the entries; False when there are others"""
    for p in seq.parts:
        if p[0] == "u" and isinstance(p[1], tuple) and len(p[1]) == 2:
            k, v = p[1]
            kt = "str" if isinstance(k, (str, StrV)) or isinstance(k, SV) and k.k == "s" else "V"
            vt = v if v is DEL else v.ty if isinstance(v, SV) and v.k == "o" and v.ty else "V"
            if isinstance(v, Frozen) and isinstance(v.content, ListC) and v.content.kind == "set":
                vt = ("set", "V")
            out.append((kt, vt))
        elif p[0] == "if":
            if not entry_types(p[2], out) or not entry_types(p[3], out):
                return False
        elif p[0] == "map":
            if not entry_types(p[3], out):
                return False
        else:
            return False
    return True


class Retype(Exception):
    def __init__(self, vk):
        self.vk = vk


def narrow(eng, s, v):
    return SV("V", eng.toV(s, v))


def finish(eng, p, st, inner, n0, outs, holes, lid, body, typing=()):
    src, var, elems, hi, pfacts = p[1], p[2], p[3], p[4], p[5]
    nexts = [(s, c) for s, c in outs if c[0] == "next"]
    exits = [(s, c) for s, c in outs if c[0] != "next"]
    nc = conds_of(nexts, n0)
    xc = conds_of(exits, n0)
    # step of folds ------------------------------------------------
    steps = {}
    for loc, h in holes.items():
        if h.kind != "fold":
            continue
        try:
            vals = [fold_step_val(eng, s, loc, h, inner) for s, _ in nexts]
        except Retype as r:
            h.vk, h.sym, h.ty = r.vk, None, None
            h.kind = "fold"
            return None
        if not vals:
            cur = None
        else:
            cur = vals[-1]
            for c, v in list(zip(nc, vals))[-2::-1]:
                try:
                    cur = eng.merge_val(c, v, cur)
                except MergeFail:
                    if h.vk == "heap":
                        raise Unsupported("fold of objects with different shapes")
                    raise Unsupported("fold step")
        steps[loc] = cur
    for loc, h in holes.items():
        if h.kind == "fold" and h.vk == "heap" and steps[loc] is not None and not typed_dict(eng, st, loc, h, steps[loc], var):
            return None
    # closed forms -------------------------------------------------
    for loc, h in holes.items():
        if h.kind != "fold" or h.vk in ("heap", "file") or steps[loc] is None:
            continue
        e = closed_form(eng, p, st, inner, loc, h, steps[loc])
        if e is not None:
            h.kind = "expr"
            h.expr = e
            return None
    folds = [l for l, h in holes.items() if h.kind == "fold" and steps[l] is not None]
    if folds and not unify_folds(eng, p, st, inner, n0, holes, folds, steps, lid, body, zor(nc)):
        return None  # symbols replaced: run the body again
    # suffixes -----------------------------------------------------
    sufs = {}
    for loc, h in holes.items():
        if h.kind not in ("acc", "accstr", "accw"):
            continue
        cur = None
        for (s, _), c in reversed(list(zip(nexts, nc))):
            q = suffix(eng, s, loc, h, lid, inner)
            if q is None:
                if h.kind == "accw":
                    raise Unsupported("attribute writes")
                h.kind = "fold"
                return None
            cur = q if cur is None else eng.merge_seq(c, q, cur)
        sufs[loc] = cur if cur is not None else Seq()
    # facts that hold in every iteration ---------------------------
    efacts = list(pfacts)
    seen = {t.get_id() for t in efacts}
    base_ids = {t.get_id() for _, t in st.facts}
    common = None
    for (s, _), c in zip(nexts, nc):
        ids = {t.get_id() for tag, t in s.facts[n0:] if tag == "def"}
        common = ids if common is None else common & ids
    for (s, _), c in zip(nexts, nc):
        for tag, t in s.facts[n0:]:
            if tag != "def":
                continue
            f = t if t.get_id() in common else z3.Implies(c, t)
            if f.get_id() not in seen and t.get_id() not in base_ids:
                seen.add(f.get_id())
                efacts.append(f)
    if len(efacts) > 60:
        efacts = efacts[:60]
    efacts = tuple(efacts)

    def loc_at(s, loc, h, upto):
        """install the value of loc after `upto` iterations"""
        old = get_loc(st, loc)
        if h.kind == "temp":
            return Poison((lid, loc))
        if h.kind == "fold":
            if steps.get(loc) is None:
                return old
            v = fold_value(eng, s, loc, h, old, h.sym(upto))
            return v
        if h.kind == "expr":
            return h.expr(s, upto)
        sf = sufs[loc]
        part = Seq((("map", src, var, sf, upto, efacts),)) if sf.parts else Seq()
        if h.kind == "accstr":
            from .engine import as_strseq

            return StrV(as_strseq(old) + part, getattr(old, "bytes", False)) if part.parts else old
        if h.kind == "accw":
            return old + part
        if isinstance(old, ListC):
            return ListC(old.seq + part, old.kind)
        if isinstance(old, DictC):
            return DictC(old.base, old.ty, old.upd + part)
        return FileC(old.content + part, old.info)

    results = []
    ex = None
    if exits:
        x = simp(zor(xc)) if nexts else TRUE
        ex = eng.mk_ex(st, src, var, x, hi, facts=pfacts)
    # A: all iterations complete normally
    if nexts or not exits:
        sa = st.copy()
        for loc, h in holes.items():
            set_loc(sa, loc, loc_at(sa, loc, h, hi))
        for loc, h in holes.items():
            if h.kind == "fold" and h.vk not in ("heap", "file") and steps.get(loc) is not None:
                add_fold_facts(eng, sa, st, loc, h)
        if ex is not None:
            sa.add(simp(znot(ex)), "pc")
        if ex is None or eng.feasible(sa):
            results.append((sa, ("next",)))
    elif eng.feasible(st, hi <= 0):
        sa = st.copy()
        sa.add(hi <= 0, "pc")
        results.append((sa, ("next",)))
    # B: exits at the first index where an exit condition holds
    if exits:
        at = eng.atom_of(ex)
        if at is None:
            k = z3.IntVal(0)
        else:
            k = eng.first_of(at, ex)
        pairs = [(var, k)]
        for (s, c), xi in zip(exits, xc):
            sb = st.copy()
            sb.add(ex, "pc")
            # iteration facts at k
            for f in tuple(pfacts) + tuple(typing):
                sb.add(z3.substitute(f, *pairs))
            sb.add(z3.And(k >= 0, k < hi))
            if src.kind == "nat":  # a while loop: it may end before the first iteration
                sb.add(z3.Or(k == 0, znot(z3.substitute(x, (var, z3.IntVal(0))))))
                for loc, h in holes.items():
                    if h.kind == "fold" and h.vk not in ("heap", "file") and steps.get(loc) is not None:
                        add_fold_facts(eng, sb, st, loc, h)
            if len(exits) > 1:
                sb.add(z3.substitute(xi, *pairs), "pc")
            else:
                sb.add(z3.substitute(xi, *pairs))
            for tag, t in s.facts[n0:]:
                if tag == "def":
                    sb.add(z3.substitute(t, *pairs))
            have = {(q.ident(), t.get_id()) for q, t in sb.idx}
            for q, t in s.idx:
                q2, t2 = subst_src(q, pairs), z3.substitute(t, *pairs)
                if (q2.ident(), t2.get_id()) not in have:
                    sb.idx.append((q2, t2))
            for a in s.all:
                if not any(a is b for b in st.all):
                    sb.all.append(a.subst(pairs))
            if not eng.feasible(sb):
                continue
            # values
            base_vals = {}

            def fixseq(seq, loc, h):
                out = []
                for q in seq.parts:
                    if q[0] == "hole" and q[1] == (lid, loc):
                        v = base_vals[loc]
                        if isinstance(v, (StrV,)):
                            out.extend(v.seq.parts)
                        elif isinstance(v, str):
                            out.extend((("u", v),) if v else ())
                        elif isinstance(v, SV):
                            out.append(("u", v))
                        elif isinstance(v, ListC):
                            out.extend(v.seq.parts)
                        elif isinstance(v, DictC):
                            out.extend(v.upd.parts)
                        elif isinstance(v, FileC):
                            out.extend(v.content.parts)
                        else:
                            out.extend(v.parts)
                    else:
                        out.append(subst_part(q, pairs))
                return Seq(tuple(out))

            for loc, h in holes.items():
                if h.kind in ("acc", "accstr", "accw"):
                    base_vals[loc] = loc_at(sb, loc, h, k)
            for fid, f in s.frames.items():
                g = {}
                for name, v in f.items():
                    loc = ("f", fid, name)
                    h = holes.get(loc)
                    if h is not None and h.kind == "accstr" and isinstance(v, StrV):
                        g[name] = StrV(fixseq(v.seq, loc, h), v.bytes)
                    else:
                        g[name] = subst_any(v, pairs)
                sb.frames[fid] = g
            for hid, cnt in s.heap.items():
                loc = ("h", hid)
                h = holes.get(loc)
                if h is not None and h.kind == "acc":
                    if isinstance(cnt, ListC):
                        sb.heap[hid] = ListC(fixseq(cnt.seq, loc, h), cnt.kind)
                    elif isinstance(cnt, DictC):
                        sb.heap[hid] = DictC(cnt.base, cnt.ty, fixseq(cnt.upd, loc, h))
                    else:
                        sb.heap[hid] = FileC(fixseq(cnt.content, loc, h), cnt.info)
                elif hid in st.heap and st.heap[hid] is cnt:
                    sb.heap[hid] = cnt
                else:
                    sb.heap[hid] = subst(cnt, pairs)
            for n, q in s.attrw.items():
                loc = ("w", n)
                h = holes.get(loc)
                sb.attrw[n] = fixseq(q, loc, h) if h is not None else subst(q, pairs)
            if s.world is not None:
                sb.world = z3.substitute(s.world, *pairs)
            comp = c
            if c[0] == "return":
                comp = ("return", subst_any(c[1], pairs))
            results.append((sb, comp))
    return results


def subst_any(v, pairs):
    try:
        return subst(v, pairs)
    except z3.Z3Exception:
        return v


def add_fold_facts(eng, sa, st, loc, h):
    old = get_loc(st, loc)
    if isinstance(old, Poison):
        return
    t0 = h.sym(z3.IntVal(0))
    if h.vk == "V":
        sa.add(t0 == eng.toV(sa, old))
    elif h.vk == "s" and isinstance(old, (str, StrV)):
        sa.add(t0 == eng.strterm(sa, old))
    elif h.vk in ("i", "b", "r", "s", "o"):
        ot = to_term(old)
        if ot is not None and ot.sort() == t0.sort():
            sa.add(t0 == ot)


def has_sym(t, name):
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() == name:
            return True
        stack.extend(x.children())
    return False


def def_terms(eng, name):
    """terms of the definition of a symbol"""
    if "!" not in name:
        return ()
    pre, _, n = name.partition("!")
    if pre in ("ex", "k", "kl") and n.isdigit():
        at = eng.atoms[int(n)]
        return [at["cond"], at["hi"]] + list(at["src"].key) + list(at["facts"])
    if pre == "F":
        for g in eng.folds:
            if any(l["sym"].decl.name() == name for l in g["locs"]):
                out = list(g["src"].key) + [g["hi"]]
                for l in g["locs"]:
                    walk_terms(l["init"], out)
                    walk_terms(l["step"], out)
                return out
        return ()
    if name in eng.internix:
        return walk_terms(eng.interned[eng.internix[name]][1], [])
    return ()


def mentions(eng, t, name):
    """the term depends on the symbol, also through definitions"""
    seen, todo = set(), decl_names([t])
    while todo:
        n = todo.pop()
        if n == name:
            return True
        if n in seen:
            continue
        seen.add(n)
        todo |= decl_names(def_terms(eng, n)) - seen
    return False


def closed_form(eng, p, st, inner, loc, h, step):
    src, var, hi, pfacts = p[1], p[2], p[4], p[5]
    old = get_loc(st, loc)
    fv = h.sym(var)
    name = h.sym.decl.name()
    t = simp(to_term(step))
    if h.vk == "V":
        init = eng.toV(st, old)
    elif isinstance(old, StrV):
        init = eng.strterm(st, old)
    else:
        init = to_term(old)
    ty = getattr(old, "ty", None)
    if h.vk == "b":
        t1 = simp(z3.substitute(t, (fv, TRUE)))
        t0 = simp(z3.substitute(t, (fv, FALSE)))
        if mentions(eng, t1, name) or mentions(eng, t0, name):
            return None
        if z3.is_true(t1):
            c, val = t0, TRUE
        elif z3.is_false(t0):
            c, val = simp(znot(t1)), FALSE
        elif t1.eq(t0):
            c, val = TRUE, t1
        else:
            return None
    else:
        cases = []

        def split(x, cond):
            if x.eq(fv):
                return True
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                if mentions(eng, x.arg(0), name):
                    return False
                return split(x.arg(1), cond + [x.arg(0)]) and split(x.arg(2), cond + [znot(x.arg(0))])
            if mentions(eng, x, name):
                return False
            cases.append((zand(cond), x))
            return True

        if not split(t, []):
            return None
        if not cases:
            c, val = FALSE, init
        else:
            c = simp(zor([q for q, _ in cases]))
            val = cases[-1][1]
            for q, v in cases[-2::-1]:
                val = z3.If(q, v, val)
    vname = var.decl().name()
    dep = vname in consts_of([val])

    def expr(s, upto):
        if z3.is_false(c):
            return old
        if z3.is_true(c):
            e = upto > 0
            vv = z3.substitute(val, (var, simp(upto - 1))) if dep else val
            if dep:
                s.idx.append((src, simp(upto - 1)))  # what holds for every element holds for the last one
        else:
            v2, c2, f2 = var, c, pfacts
            if vname in consts_of([upto]):
                v2 = eng.canon_var(src, s.scope + (var,))
                c2 = z3.substitute(c, (var, v2))
                f2 = tuple(z3.substitute(f, (var, v2)) for f in pfacts)
            e = eng.mk_ex(s, src, v2, c2, upto, facts=f2)
            if dep:
                at = eng.atom_of(e)
                kk = eng.last_of(at, e) if at is not None else simp(upto - 1)
                vv = z3.substitute(val, (var, kk))
            else:
                vv = val
        r = zite(e, vv, init)
        if h.vk == "V":
            return narrowV(r, ty)
        if h.vk == "o":
            return SV("o", r, h.ty)
        return lit(SV(h.vk, simp(r) if h.vk in ("b", "i") else r))

    return expr


def unify_folds(eng, p, st, inner, n0, holes, folds, steps, lid, body, go):
    """variables whose steps do not mention each other are folds of their own"""
    syms = {l: holes[l].sym.decl.name() for l in folds}
    reach = {l: reachable_names(eng, walk_terms(steps[l], [])) for l in folds}
    dep = {l: {k for k in folds if k == l or syms[k] in reach[l]} for l in folds}
    while True:
        more = {l: set().union(*[dep[k] for k in dep[l]]) for l in folds}
        if more == dep:
            break
        dep = more
    ok, open_ = True, set()
    for l in sorted(folds, key=lambda l: len(dep[l])):  # those a step mentions first
        g = [k for k in folds if l in dep[k] and k in dep[l]]
        if g[0] != l:
            continue
        if dep[l] & open_ or not unify_group(eng, p, st, inner, n0, holes, g, steps, lid, body, go):
            ok = False
            open_ |= set(g)
    return ok


def reachable_names(eng, terms):
    """the symbols that the terms depend on, through definitions"""
    out, stack = set(), list(decl_names(terms))
    while stack:
        name = stack.pop()
        if name in out:
            continue
        out.add(name)
        stack.extend(decl_names(definition_terms(eng, name)))
    return out


def definition_terms(eng, name):
    if name.split("!")[0] in ("ex", "k", "kl") and "!" in name:
        at = eng.atoms[int(name.split("!")[1])]
        return [at["cond"], at["hi"]] + list(at["src"].key) + list(at["facts"])
    if name.startswith("F!"):
        g = next((g for g in eng.folds if any(l["sym"].decl.name() == name for l in g["locs"])), None)
        if g is None:
            return []
        terms = list(g["src"].key) + [g["hi"]]
        for l in g["locs"]:
            walk_terms(l["init"], terms)
            walk_terms(l["step"], terms)
        return terms
    if name in eng.internix:
        return walk_terms(eng.interned[eng.internix[name]][1], [])
    return []


def unify_group(eng, p, st, inner, n0, holes, folds, steps, lid, body, go):
    """True when the symbols in use are registered (or were matched); False to re-run with other symbols

    go: the condition that an iteration runs to its end (the value after it matters only then)
    """
    src, var, hi = p[1], p[2], p[4]
    key = tuple(sorted(str(holes[l].sym.decl.name()) for l in folds))
    for g in eng.folds:
        if g["names"] == key:
            return True
    # candidates with the same source and sorts
    sorts = [str(holes[l].sym.decl.range()) for l in folds]
    inits = [fold_init_val(eng, st, l, holes[l]) for l in folds]
    exact = lambda g: any(isinstance(v, SV) and isinstance(l["init"], SV) and v.t.eq(l["init"].t) for v in inits for l in g["locs"])
    for g in sorted(eng.folds, key=lambda g: not exact(g)):
        if g["src"].kind != src.kind or len(g["locs"]) != len(folds) or len(g["scope"]) != len(st.scope):
            continue
        if sorted(g["sorts"]) != sorted(sorts):
            continue
        if not (g["src"].same(src) or all(
            a.sort() == b.sort() and eng.entails(st, a == b) for a, b in zip(g["src"].key, src.key)
        )):
            continue
        scope_ok = all(a.eq(b) for a, b in zip(g["scope"], st.scope))
        if not scope_ok:
            continue
        for perm in itertools.permutations(range(len(folds))):
            if any(g["sorts"][perm[i]] != sorts[i] for i in range(len(folds))):
                continue
            # substitute our symbols by the registered ones in our steps
            ok = True
            for i, l in enumerate(folds):
                gi_ = g["locs"][perm[i]]
                old = fold_init_val(eng, st, l, holes[l])
                if not eng.eq_val(st, old, gi_["init"]):
                    ok = False
                    break
            if not ok:
                continue
            s2 = inner.copy()
            maps = [(holes[l].sym.decl, g["locs"][perm[i]]["sym"].decl) for i, l in enumerate(folds)]
            prefer = set()
            for i in range(len(folds)):
                prefer |= decl_names(walk_terms(g["locs"][perm[i]]["step"], []))
            maps = derived_maps(eng, s2, maps, [steps[l] for l in folds] + [SV("b", go)], prefer)
            for i, l in enumerate(folds):
                mine = rename_decls(steps[l], maps)
                gi_ = g["locs"][perm[i]]
                theirs = gi_["step"]
                if not g["var"].eq(var):
                    theirs = subst(theirs, [(g["var"], var)])
                s3 = s2.copy()
                for tag, t in list(s3.facts):
                    t2 = rename_term(t, maps)
                    if not t2.eq(t):
                        s3.add(t2, tag)
                s3.add(rename_term(go, maps), "pc")
                for t in split_facts([mine, theirs]):
                    s3.add(t)
                if not eng.eq_val(s3, mine, theirs):
                    ok = False
                    break
            if ok:
                for i, l in enumerate(folds):
                    holes[l].sym = g["locs"][perm[i]]["sym"]
                return False
    g = dict(
        names=key, src=src, var=var, hi=hi, scope=st.scope, sorts=sorts, go=go,
        locs=[dict(sym=holes[l].sym, init=fold_init_val(eng, st, l, holes[l]), step=steps[l]) for l in folds],
    )
    eng.folds.append(g)
    return True


def fold_init_val(eng, st, loc, h):
    old = get_loc(st, loc)
    if h.vk == "heap":
        return Frozen(eng.freeze_content(st, old))
    if h.vk == "file":
        return StrV(old.content)
    if h.vk == "V":
        return SV("V", eng.toV(st, old))
    return eng.freeze(st, old)


def rename_term(t, maps):
    names = {f.name(): g for f, g in maps}

    cache = {}

    def go(x):
        i = x.get_id()
        if i in cache:
            return cache[i]
        if z3.is_app(x) and x.num_args():
            ch = [go(c) for c in x.children()]
            d = x.decl()
            if d.name() in names:
                r = names[d.name()](*ch)
            elif all(a.eq(b) for a, b in zip(ch, x.children())):
                r = x
            else:
                r = d(*ch)
        elif z3.is_app(x) and x.decl().name() in names:
            r = names[x.decl().name()]()
        else:
            r = x
        cache[i] = r
        return r

    return go(t)


def split_facts(vals):
    """what holds of the number of parts of a text"""
    out, seen, stack = [], set(), []
    for v in vals:
        walk_terms(v, stack)
    while stack:
        x = stack.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().name() == "split_n":
            out += [x >= 1, (x > 1) == z3.Contains(*x.children())]
        stack.extend(x.children())
    return out


def decl_names(terms):
    out, seen, stack = set(), set(), list(terms)
    while stack:
        x = stack.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        stack.extend(x.children())
    return out


def derived_maps(eng, st, maps, vals, prefer=()):
    """existential atoms and snapshots whose definitions mention the renamed symbols are renamed with them"""
    maps = [m for m in maps if not m[0].eq(m[1])]
    if not maps:
        return maps
    done = {f.name(): True for f, _ in maps}

    def visit(name):
        """True when the symbol depends on a renamed one (and is renamed itself)"""
        if name in done:
            return done[name]
        done[name] = False
        if name[:2] in ("ex", "k!", "kl") and "!" in name and name.split("!")[0] in ("ex", "k", "kl"):
            at = eng.atoms[int(name.split("!")[1])]
            terms = [at["cond"], at["hi"]] + list(at["src"].key) + list(at["facts"])
            if any([visit(n) for n in decl_names(terms)]):
                ren = lambda t: rename_term(t, maps)
                src = Src(at["src"].kind, tuple(ren(k) for k in at["src"].key), at["src"].ety)
                s2 = st.copy()
                s2.scope = tuple(s2.scope) + tuple(x for x in at["fv"] if not any(x.eq(y) for y in s2.scope))
                r = eng.mk_ex(s2, src, at["var"], ren(at["cond"]), ren(at["hi"]), tuple(ren(f) for f in at["facts"]))
                new = eng.atom_of(r)
                if new is None or len(new["fv"]) != len(at["fv"]) or not all(a.eq(b) for a, b in zip(r.children(), at["fv"])):
                    return False
                for w, key in (("ex", "sym"), ("k", "k"), ("kl", "last")):
                    maps.append((at[key](*at["fv"]).decl(), new[key](*at["fv"]).decl()))
                    done[f"{w}!{at['n']}"] = True
                return True
        elif name.startswith("F!"):
            g = next((g for g in eng.folds if any(l["sym"].decl.name() == name for l in g["locs"])), None)
            if g is None:
                return False
            own = {l["sym"].decl.name() for l in g["locs"]}
            for n in own:
                done[n] = False
            if depends(name, set()):
                # what the steps mention is renamed together with the fold's own symbols
                terms = list(g["src"].key) + [g["hi"]]
                for l in g["locs"]:
                    walk_terms(l["init"], terms)
                for n in decl_names(terms) - own:
                    visit(n)
                return rename_fold(g)
        elif name in eng.internix:
            kind, content, t, fv = eng.interned[eng.internix[name]]
            if any([visit(n) for n in decl_names(walk_terms(content, []))]):
                s2 = st.copy()
                s2.scope = tuple(s2.scope) + tuple(x for x in fv if not any(x.eq(y) for y in s2.scope))
                r = eng.intern(s2, rename_decls(content, maps))
                if r.num_args() != len(fv) or not all(a.eq(b) for a, b in zip(r.children(), fv)):
                    return False
                maps.append((t.decl(), r.decl()))
                done[name] = True
                return True
        return False

    def depends(name, seen):
        """the definition mentions a renamed symbol, directly or not"""
        if name in seen:
            return False
        seen.add(name)
        if done.get(name):
            return True
        terms = definition_terms(eng, name)
        return any(depends(n, seen) for n in decl_names(terms))

    def rename_fold(g):
        """the fold with renamed parts is another registered fold"""
        key = tuple(rename_term(k, maps) for k in g["src"].key)
        for g2 in sorted(eng.folds, key=lambda f: not any(l["sym"].decl.name() in prefer for l in f["locs"])):
            if g2 is g or g2["src"].kind != g["src"].kind or len(g2["locs"]) != len(g["locs"]) or len(g2["scope"]) != len(g["scope"]):
                continue
            if sorted(g2["sorts"]) != sorted(g["sorts"]) or not all(a.eq(b) for a, b in zip(g2["scope"], g["scope"])):
                continue
            s2 = st.copy()
            s2.scope = tuple(s2.scope) + tuple(x for x in tuple(g["scope"]) + (g["var"],) if not any(x.eq(y) for y in s2.scope))
            if not all(a.eq(b) or a.sort() == b.sort() and eng.entails(s2, a == b) for a, b in zip(g2["src"].key, key)):
                continue
            for perm in itertools.permutations(range(len(g["locs"]))):
                if any(g2["sorts"][perm[i]] != g["sorts"][i] for i in range(len(perm))):
                    continue
                other = [g2["locs"][perm[i]] for i in range(len(perm))]
                if not all(eng.eq_val(s2, rename_decls(l["init"], maps), o["init"]) for l, o in zip(g["locs"], other)):
                    continue
                mine = [(l["sym"].decl, o["sym"].decl) for l, o in zip(g["locs"], other)]
                ms = derived_maps(eng, s2, maps + mine, [l["step"] for l in g["locs"]])
                s2.add(rename_term(g["go"], ms), "pc")
                back = [(g2["var"], g["var"])] if not g2["var"].eq(g["var"]) else []
                if all(eng.eq_val(s2, rename_decls(l["step"], ms), subst(o["step"], back) if back else o["step"]) for l, o in zip(g["locs"], other)):
                    maps.extend(mine)
                    for l in g["locs"]:
                        done[l["sym"].decl.name()] = True
                    return True
        return False

    for v in vals:
        for n in decl_names(walk_terms(v, [])):
            visit(n)
    return maps


def rename_decls(v, maps):
    if all(f.eq(g) for f, g in maps):
        return v
    return map_terms(v, lambda t: rename_term(t, maps))


def map_terms(v, f):
    if isinstance(v, SV):
        return SV(v.k, f(v.t), v.ty)
    if isinstance(v, tuple):
        return tuple(map_terms(x, f) for x in v)
    if isinstance(v, Seq):
        out = []
        for p in v.parts:
            if p[0] == "u":
                out.append(("u", map_terms(p[1], f)))
            elif p[0] == "if":
                out.append(("if", f(p[1]), map_terms(p[2], f), map_terms(p[3], f)))
            elif p[0] == "map":
                out.append(("map", Src(p[1].kind, tuple(f(k) for k in p[1].key), p[1].ety), p[2], map_terms(p[3], f), f(p[4]), tuple(f(q) for q in p[5])))
            else:
                out.append(p)
        return Seq(tuple(out))
    if isinstance(v, StrV):
        return StrV(map_terms(v.seq, f), v.bytes)
    if isinstance(v, Frozen):
        return Frozen(map_terms(v.content, f))
    if isinstance(v, ListC):
        return ListC(map_terms(v.seq, f), v.kind)
    if isinstance(v, DictC):
        return DictC(None if v.base is None else f(v.base), v.ty, map_terms(v.upd, f))
    if isinstance(v, InstC):
        return InstC(v.cls, {k: map_terms(x, f) for k, x in v.fields.items()})
    if isinstance(v, FileC):
        return FileC(map_terms(v.content, f), v.info)
    return v
