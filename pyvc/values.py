"""Value domain of the verifier: z3 sorts, symbolic values, sequences."""
from __future__ import annotations

import types

import z3

Obj = z3.DeclareSort("Obj")
_V = z3.Datatype("V")
_V.declare("none")
_V.declare("vb", ("b", z3.BoolSort()))
_V.declare("vi", ("i", z3.IntSort()))
_V.declare("vr", ("r", z3.RealSort()))
_V.declare("vs", ("s", z3.StringSort()))
_V.declare("vo", ("o", Obj))
V = _V.create()
I, B, S, R = z3.IntSort(), z3.BoolSort(), z3.StringSort(), z3.RealSort()
SORT = {"b": B, "i": I, "s": S, "r": R, "V": V, "o": Obj}


class Unsupported(Exception):
    """A construct outside the verified subset: the function is undecided."""


_uf: dict = {}


def uf(name, *sorts):
    key = (name, tuple(s.sexpr() for s in sorts))
    f = _uf.get(key)
    if f is None:
        n = name
        i = 0
        while any(k[0] == n and k != key for k in _uf):
            i += 1
            n = f"{name}~{i}"
        f = z3.Function(n, *sorts)
        _uf[key] = f
    return f


_cnt = [0]


def fresh(prefix, sort):
    _cnt[0] += 1
    return z3.Const(f"{prefix}!{_cnt[0]}", sort)


def fresh_id():
    _cnt[0] += 1
    return _cnt[0]


def sval(s: str):
    """z3 string literal for a Python string."""
    out = []
    for ch in s:
        if 32 <= ord(ch) < 127 and ch != "\\":
            out.append(ch)
        else:
            out.append("\\u{%x}" % ord(ch))
    return z3.StringVal("".join(out))


# ---- static types (hints) --------------------------------------------------
# 'str' 'int' 'bool' 'real' 'V' | ('opt',T) ('list',T) ('set',T) ('tuple',T) ('dict',K,T) ('cls',name)
def Opt(t):
    return ("opt", t)


def List(t):
    return ("list", t)


def Set(t):
    return ("set", t)


def Tuple(t):
    return ("tuple", t)


def Dict(k, t):
    return ("dict", k, t)


def Cls(n):
    return ("cls", n)


def Fix(*ts):
    """a tuple of known length"""
    return ("fix",) + ts


def sort_of(ty):
    if ty == "str":
        return S
    if ty == "int":
        return I
    if ty == "bool":
        return B
    if ty == "real":
        return R
    if ty == "V" or ty[0] == "opt":
        return V
    return Obj


KIND = {"str": "s", "int": "i", "bool": "b", "real": "r", "V": "V"}


class SV:
    """symbolic scalar/object value"""

    __slots__ = ("k", "t", "ty")

    def __init__(self, k, t, ty=None):
        self.k, self.t, self.ty = k, t, ty

    def __repr__(self):
        return f"<{self.k}:{self.t}>"


class Ref:
    """reference to a heap object of the current state"""

    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return f"Ref{self.id}"

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("Ref", self.id))


class Frozen:
    """an immutable snapshot of a heap object (kind, content)"""

    __slots__ = ("content",)

    def __init__(self, content):
        self.content = content

    def __repr__(self):
        return f"Frozen({self.content!r})"


class StrV:
    """a string (or bytes) given as a sequence of chunks"""

    __slots__ = ("seq", "bytes")

    def __init__(self, seq, bytes=False):
        self.seq = seq
        self.bytes = bytes

    def __repr__(self):
        return f"StrV({self.seq!r})"


class Src:
    """a base sequence: kind, key terms and element type; element access is by SRC_ELEM[kind]"""

    __slots__ = ("kind", "key", "ety")

    def __init__(self, kind, key, ety="V"):
        self.kind, self.key, self.ety = kind, tuple(key), ety

    def ident(self):
        return (self.kind, str(self.ety)) + tuple(k.get_id() for k in self.key)

    def same(self, o):
        return self.ident() == o.ident()

    def __repr__(self):
        return f"{self.kind}({', '.join(map(str, self.key))})"


class Seq:
    """immutable finite sequence given by parts

    ('u', value) one element
    ('if', cond, Seq, Seq)
    ('map', src, var, Seq, hi, facts)  for var in 0..hi-1 of src: body
    ('hole', id)        loop accumulator marker
    """

    __slots__ = ("parts",)

    def __init__(self, parts=()):
        self.parts = tuple(parts)

    def __add__(self, o):
        if not self.parts:
            return o
        if not o.parts:
            return self
        return Seq(self.parts + o.parts)

    def __repr__(self):
        return "[" + " ".join(repr_part(p) for p in self.parts) + "]"


def repr_part(p):
    if p[0] == "u":
        return f"{p[1]!r}"
    if p[0] == "if":
        return f"if({p[1]}){p[2]!r}{p[3]!r}"
    if p[0] == "map":
        return f"for {p[2]} in {p[1]!r}[:{p[4]}]{p[3]!r}"
    return repr(p)


def unit(v):
    return Seq((("u", v),))


def units(vs):
    return Seq(tuple(("u", v) for v in vs))


class ListC:
    __slots__ = ("seq", "kind")

    def __init__(self, seq, kind="list"):
        self.seq = seq
        self.kind = kind  # list | set | tuple

    def __repr__(self):
        return f"{self.kind}{self.seq!r}"


class DictC:
    """base: None or Obj term; entries: Seq of (key, value) / (key, DEL)"""

    __slots__ = ("base", "ty", "upd")

    def __init__(self, base, ty, upd):
        self.base, self.ty, self.upd = base, ty, upd

    def __repr__(self):
        return f"dict({self.base},{self.upd!r})"


class InstC:
    """instance of a repository class: cls (real class object or None), fields dict"""

    __slots__ = ("cls", "fields")

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def __repr__(self):
        return f"inst({getattr(self.cls,'__name__',self.cls)},{self.fields})"


class FileC:
    __slots__ = ("content", "info")

    def __init__(self, content, info):
        self.content, self.info = content, info

    def __repr__(self):
        return f"file({self.info},{self.content!r})"


class _Del:
    def __repr__(self):
        return "DEL"


DEL = _Del()


class Func:
    """a repository or specification function as AST + environment"""

    __slots__ = ("node", "mod", "frame", "qual", "cls", "self_")

    def __init__(self, node, mod, frame=None, qual=None, cls=None, self_=None):
        self.node, self.mod, self.frame, self.qual, self.cls, self.self_ = node, mod, frame, qual, cls, self_

    def __repr__(self):
        return f"Func({self.qual})"


class Super:
    """super() of an object of the repository"""

    def __init__(self, cls, own, me):
        self.cls, self.own, self.me = cls, own, me

    def get_attr(self, env, eng, st, name):
        mro = self.own.__mro__
        for k in mro[mro.index(self.cls) + 1:]:
            if name in vars(k):
                a = vars(k)[name]
                if k is object and name == "__init__":
                    return Meth(self, "$nothing")
                f = env.func_of(a) if isinstance(a, types.FunctionType) else None
                if f is not None:
                    return Func(f.node, f.mod, None, f.qual, f.cls, self.me)
                if a in env.libs:
                    return Meth(self, a)
                break
        raise Unsupported(f"super().{name}")


class Meth:
    """method of a modelled value"""

    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return f"Meth({self.obj!r}.{self.name})"


PLAINTYPES = (type(None), str, bool, int, float, list, dict, tuple, set)


class OtherType:
    """what type() gives for an object of none of the PLAINTYPES"""


class Poison:
    """value of a local that is only known inside the loop that assigned it"""

    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc


class NeedHole(Exception):
    def __init__(self, loc):
        self.loc = loc


class PyRaise(Exception):
    def __init__(self, cls, payload=None):
        self.cls = cls
        self.payload = payload

    def __repr__(self):
        return f"raise {getattr(self.cls,'__name__',self.cls)}"


# ---- conversions ----------------------------------------------------------
def is_const(v):
    return v is None or isinstance(v, (bool, int, float, str, bytes))


def to_term(v):
    """scalar value -> z3 term of its own sort (None if not scalar)"""
    if isinstance(v, SV):
        return v.t
    if v is None:
        return V.none
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return z3.Real(f"float${v}")  # an unknown number: good for passing on only
        return z3.RealVal(repr(v))
    if isinstance(v, str):
        return sval(v)
    return None


def kind_of(v):
    if isinstance(v, SV):
        return v.k
    if v is None:
        return "V"
    if isinstance(v, bool):
        return "b"
    if isinstance(v, int):
        return "i"
    if isinstance(v, float):
        return "r"
    if isinstance(v, str):
        return "s"
    return None


_pyobjs: dict = {}


STRUCTURAL: list = []  # (type, term of an object of it): objects that are functions of their parts


def pyobj_term(x):
    """Obj constant standing for a concrete Python object"""
    for c, f in STRUCTURAL:
        if type(x) is c:
            return f(x)
    for k, (o, t) in _pyobjs.items():
        if o is x:
            return t
    t = z3.Const(f"py!{len(_pyobjs)}!{getattr(x,'__name__',type(x).__name__)}", Obj)
    _pyobjs[len(_pyobjs)] = (x, t)
    return t


def subst(v, pairs):
    """substitute z3 terms in a value"""
    if not pairs:
        return v
    if isinstance(v, SV):
        return SV(v.k, z3.substitute(v.t, *pairs), v.ty)
    if is_const(v) or isinstance(v, (Ref, Func, Poison, _Del)):
        return v
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, Seq):
        return Seq(tuple(subst_part(p, pairs) for p in v.parts))
    if isinstance(v, StrV):
        return StrV(subst(v.seq, pairs), v.bytes)
    if isinstance(v, Frozen):
        return Frozen(subst(v.content, pairs))
    if isinstance(v, ListC):
        return ListC(subst(v.seq, pairs), v.kind)
    if isinstance(v, DictC):
        return DictC(None if v.base is None else z3.substitute(v.base, *pairs), v.ty, subst(v.upd, pairs))
    if isinstance(v, InstC):
        return InstC(v.cls, {k: subst(x, pairs) for k, x in v.fields.items()})
    if isinstance(v, FileC):
        return FileC(subst(v.content, pairs), subst(v.info, pairs))
    if isinstance(v, Src):
        return subst_src(v, pairs)
    if isinstance(v, Meth):
        return Meth(subst(v.obj, pairs), v.name)
    if z3.is_expr(v):
        return z3.substitute(v, *pairs)
    return v


def subst_src(src, pairs):
    key = tuple(z3.substitute(k, *pairs) for k in src.key)
    if all(a.eq(b) for a, b in zip(key, src.key)):
        return src
    return Src(src.kind, key, src.ety)


def subst_part(p, pairs):
    if p[0] == "u":
        return ("u", subst(p[1], pairs))
    if p[0] == "if":
        return ("if", z3.substitute(p[1], *pairs), subst(p[2], pairs), subst(p[3], pairs))
    if p[0] == "map":
        return (
            "map",
            subst_src(p[1], pairs),
            p[2],
            subst(p[3], pairs),
            z3.substitute(p[4], *pairs),
            tuple(z3.substitute(f, *pairs) for f in p[5]),
        )
    return p


def first_hole(v):
    """the open accumulator in a value, if there is one"""
    if isinstance(v, Seq):
        for p in v.parts:
            if p[0] == "hole":
                return p[1]
            h = first_hole(tuple(x for x in p[1:] if isinstance(x, COMPOUND)))
            if h is not None:
                return h
        return None
    if isinstance(v, Poison):
        return v.loc
    if isinstance(v, tuple):
        parts = v
    elif isinstance(v, StrV):
        parts = (v.seq,)
    elif isinstance(v, Frozen):
        parts = (v.content,)
    elif isinstance(v, ListC):
        parts = (v.seq,)
    elif isinstance(v, DictC):
        parts = (v.upd,)
    elif isinstance(v, FileC):
        parts = (v.content,)
    elif isinstance(v, InstC):
        parts = tuple(v.fields.values())
    else:
        return None
    for x in parts:
        h = first_hole(x)
        if h is not None:
            return h
    return None


COMPOUND = (Seq, StrV, Frozen, ListC, DictC, FileC, InstC, tuple)


def walk_terms(v, out):
    """collect z3 terms occurring in a value"""
    if isinstance(v, SV):
        out.append(v.t)
    elif isinstance(v, tuple):
        for x in v:
            walk_terms(x, out)
    elif isinstance(v, Seq):
        for p in v.parts:
            if p[0] == "u":
                walk_terms(p[1], out)
            elif p[0] == "if":
                out.append(p[1])
                walk_terms(p[2], out)
                walk_terms(p[3], out)
            elif p[0] == "map":
                out.extend(p[1].key)
                out.append(p[4])
                walk_terms(p[3], out)
    elif isinstance(v, StrV):
        walk_terms(v.seq, out)
    elif isinstance(v, Frozen):
        walk_terms(v.content, out)
    elif isinstance(v, ListC):
        walk_terms(v.seq, out)
    elif isinstance(v, DictC):
        if v.base is not None:
            out.append(v.base)
        walk_terms(v.upd, out)
    elif isinstance(v, InstC):
        for x in v.fields.values():
            walk_terms(x, out)
    elif isinstance(v, FileC):
        walk_terms(v.content, out)
        walk_terms(v.info, out)
    elif isinstance(v, Meth):
        walk_terms(v.obj, out)
    elif isinstance(v, Src):
        out.extend(v.key)
    elif z3.is_expr(v):
        out.append(v)
    return out


def consts_of(terms):
    """uninterpreted constants (0-ary) in z3 terms"""
    seen = set()
    res = {}
    stack = list(terms)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                res[t.decl().name()] = t
        else:
            stack.extend(t.children())
    return res
