"""Models of the language run time and of the libraries the repository uses (trusted base)."""
from __future__ import annotations

import ast
import builtins
import copy as _copy
import importlib
import inspect
import json
import logging
import keyword
import re
import struct
import sys
import types

import z3

from .core import *
from .engine import *
from .engine import as_int, as_strseq
from .interp import bterm, bnot, has_del, is_unit_map, map_seq, filter_seq
from .values import *
from .values import V, Obj, I, B, S, R
from . import regex, world

PURE = {abs, len, str, int, float, bool, repr, format, ord, chr, min, max, sum, sorted, round, hex, divmod, bin}


UNIQUE = ("tree", "main", "vspec", "model", "datatypes", "units_quantities")


def coding(args, kw):
    """the arguments of encode and decode that mean what no arguments mean"""
    xs = list(args) + [kw[k] for k in ("encoding", "errors") if k in kw]
    if set(kw) - {"encoding", "errors"} or (args and "encoding" in kw):
        return False
    if not all(isinstance(x, str) for x in xs):
        return False
    enc = args[0] if args else kw.get("encoding", "utf-8")
    err = args[1] if len(args) > 1 else kw.get("errors", "strict")
    return enc.lower().replace("_", "-") in ("utf-8", "utf8") and err == "strict"


def check_args(ty, table, name, args, kw):
    """no argument of a method is silently ignored: calls with others than these are outside the models"""
    n = table.get(name)
    if n is None:
        return
    n, names = n if isinstance(n, tuple) else (n, ())
    if len(args) > n or any(k not in names for k in kw):
        raise Unsupported(f"arguments of {ty}.{name}")


ANY = 10**6
STR_ARGS = {"startswith": 1, "endswith": 1, "lower": 0, "upper": 0, "strip": 1, "rstrip": 1, "lstrip": 1, "replace": 3, "title": 0, "capitalize": 0,
            "removesuffix": 1, "removeprefix": 1, "zfill": 1, "ljust": 2, "rjust": 2, "center": 2, "swapcase": 0, "expandtabs": 1, "casefold": 0,
            "isalnum": 0, "isalpha": 0, "isdigit": 0, "isupper": 0, "islower": 0, "isidentifier": 0, "isspace": 0, "isnumeric": 0, "isdecimal": 0,
            "find": 1, "index": 1, "count": 1, "rfind": 1, "split": 2, "rsplit": 2, "splitlines": 1, "partition": 1, "rpartition": 1, "join": 1}
LIST_ARGS = {"append": 1, "add": 1, "extend": 1, "update": ANY, "clear": 0, "copy": 0, "index": 1, "insert": 2, "sort": (0, ("key", "reverse")), "pop": 1,
             "remove": 1, "discard": 1, "union": ANY, "intersection": 1, "difference": ANY, "issubset": 1, "issuperset": 1, "isdisjoint": 1, "count": 1, "reverse": 0}
ANYKW = type("AnyKw", (), {"__contains__": lambda self, k: k != "**"})()
DICT_ARGS = {"get": 2, "items": 0, "keys": 0, "values": 0, "copy": 0, "update": (ANY, ANYKW), "pop": 2, "setdefault": 2, "clear": 0}
BUILTIN_ARGS = {len: (1, ()), isinstance: (2, ()), str: (1, ()), repr: (1, ()), bool: (1, ()), int: (2, ()), chr: (1, ()), float: (1, ()), format: (2, ()),
                ord: (1, ()), hex: (1, ()), list: (1, ()), set: (1, ()), frozenset: (1, ()), tuple: (1, ()), enumerate: (2, ("start",)), range: (3, ()),
                zip: (ANY, ()), sum: (1, ()), sorted: (1, ("key", "reverse")), reversed: (1, ()), any: (1, ()), all: (1, ()), map: (2, ()), next: (2, ()),
                type: (1, ()), hasattr: (2, ()), getattr: (3, ()), setattr: (3, ()), _copy.deepcopy: (1, ()), _copy.copy: (1, ()), re.match: (3, ("flags",)),
                re.search: (3, ("flags",)), re.fullmatch: (3, ("flags",)), keyword.iskeyword: (1, ()), re.compile: (2, ()), re.sub: (3, ()), re.findall: (2, ()),
                sys.exit: (1, ()), builtins.exit: (1, ())}


def elements_are(seq, values):
    """every element of the sequence is one of the constants"""
    for p in seq.parts:
        if p[0] == "u":
            ok = isinstance(p[1], (bool, int)) and p[1] in values
        elif p[0] == "if":
            ok = elements_are(p[2], values) and elements_are(p[3], values)
        else:
            ok = p[0] == "map" and elements_are(p[3], values)
        if not ok:
            return False
    return True


class Env:
    def __init__(self, repo_prefix=("vss_tools",), spec_prefix=("specs", "spec_")):
        self.mods = {}
        self.byfile = {}
        self.repo_prefix, self.spec_prefix = repo_prefix, spec_prefix
        self.blocks = {}  # contracts of loop bodies
        self.inner = {}  # contracts of functions defined inside others
        self.contracts = {}  # (module, qualname) -> Contract
        self.specs = {}  # (module, qualname) of spec function -> Contract
        self.globals_ = {}
        self.globalnames = {}  # id(object) -> (name, maker)
        self.TAG = {"list": 1, "tuple": 2, "set": 3, "dict": 4, "bytes": 5}
        self.CLSTAGS = {}
        self.CLS = {}  # class object -> tag
        self.IDENTITY = set()
        self.STRENUM = {}  # classes that are enumerations of strings -> values
        self.SRC = {
            "vlist": (lambda e, s: uf("vlen", Obj, I)(s.key[0]), self.vlist_elem),
            "dkeys": (lambda e, s: uf("dlen", Obj, I)(s.key[0]), self.dkeys_elem),
            "ditems": (lambda e, s: uf("dlen", Obj, I)(s.key[0]), self.ditems_elem),
            "chars": (lambda e, s: z3.Length(s.key[0]), lambda e, st, s, i: SV("s", z3.SubString(s.key[0], i, 1))),
            "bytes": (lambda e, s: uf("blen", Obj, I)(s.key[0]), self.byte_elem),
            "range": (lambda e, s: z3.If(s.key[1] > s.key[0], s.key[1] - s.key[0], 0), lambda e, st, s, i: lit(SV("i", simp(s.key[0] + i)))),
            "setorder": (lambda e, s: uf("set_n", Obj, I)(s.key[0]), self.set_elem),
            "nat": (lambda e, s: z3.Int("nat_bound"), lambda e, st, s, i: lit(SV("i", simp(i)))),
            "split": (lambda e, s: uf("split_n", S, S, I)(*s.key), self.split_elem),
        }
        self.libs = {}  # function object -> handler(eng, st, args, kw)
        self.plugins = []
        self.classes = {}  # symbolic class name -> SymClass
        self.used = set()
        self.rules = world.Rules()
        self.readsets = {}  # name of a part of the object state -> attributes
        self.newinit = {}
        self._funcs = {}
        self.install_builtins()

    # ------------------------------------------------------------ modules
    def module(self, name):
        m = self.mods.get(name)
        if m is None:
            m = self.mods[name] = ModInfo(name, importlib.import_module(name))
            self.byfile[m.file] = m
        return m

    def ours(self, modname):
        return any(modname == p or modname.startswith(p + ".") or (p.endswith("_") and modname.startswith(p)) for p in self.repo_prefix + self.spec_prefix)

    def func_of(self, f):
        """Func for a real Python function defined in the repository or in a specification"""
        if hasattr(f, "__wrapped__") and not isinstance(f, types.FunctionType):
            f = f.__wrapped__
        if not isinstance(f, types.FunctionType) or not self.ours(f.__module__):
            return None
        k = id(f)
        if k in self._funcs:
            return self._funcs[k][0]
        m = self.module(f.__module__)
        node = m.index.get(f.__qualname__)
        if node is None:
            return None
        r = Func(node, m, None, f.__qualname__)
        self._funcs[k] = (r, f)
        return r

    def is_repo(self, cls):
        return self.ours(getattr(cls, "__module__", "") or "")

    def add_contract(self, c):
        mod, q = c.target.split(":")
        self.contracts[(mod, q)] = c
        c.uid = q if mod.rsplit(".", 1)[1] in UNIQUE else mod.rsplit(".", 1)[1] + "." + q
        if c.spec is not None:
            self.specs[(c.spec.__module__, c.spec.__qualname__)] = c
        return c

    def nested(self, c):
        """the contract is of a function defined inside another one: found there, its free variables made parameters"""
        mod, q = c.target.split(":")
        m = self.module(mod)
        outer, name = q.rsplit(".", 1)
        if outer not in m.index:
            return None
        inner = [n for n in ast.walk(m.index[outer]) if isinstance(n, ast.FunctionDef) and n.name == name]
        if len(inner) != 1:
            return None
        node = opened(inner[0], c.free)
        if node is not None:
            m.index.setdefault(q, node)
            self.inner[id(inner[0])] = c
        return node

    def block(self, c):
        """the contract is of the body of the first for loop of a function"""
        mod, q = c.target.split(":")
        m = self.module(mod)
        outer = m.index.get(q.split("#")[0])
        if outer is None:
            return None
        f = block_function(outer, q.split("#")[0].rsplit(".", 1)[-1] + "_body", next(iter(c.params)))
        if f is not None:
            m.index[q] = f
            self.blocks[id(f)] = c
        return f

    def call_block(self, eng, st, n, fr):
        c = self.blocks[id(n.func)]
        mod, q = c.target.split(":")
        m = self.module(mod)
        return self.apply_contract(eng, st, c, Func(m.index[q], m, None, q), [eng.eval(st, fr, n.var)], {})

    def call_inner(self, eng, st, f, args, kw):
        """a call of a function defined inside another one that has a contract"""
        c = self.inner.get(id(f.node))
        if c is None or f.frame is None:
            return NotImplemented
        mod, q = c.target.split(":")
        m = self.module(mod)
        kw = dict(kw, **{n: eng.lookup(st, f.frame, n) for n in c.free})
        return self.apply_contract(eng, st, c, Func(m.index[q], m, None, q), args, kw)

    def contract_for(self, eng, f):
        if f.mod is None or f.frame is not None or not f.qual:
            return None
        k = (f.mod.name, f.qual)
        c = self.contracts.get(k)
        if c is not None:
            return c
        c = self.specs.get(k)
        if c is not None and c.mode == "opaque":
            return c
        return None

    def apply_contract(self, eng, st, con, f, args, kw):
        eng.assumed.add(con.target)
        if con.requires is not None:
            given = eng.bind_args(st, f, args, kw)
            rf, n = self.func_of(con.requires), len(st.facts)
            outs = eng.explore(st, lambda s: eng.truth(s, eng.inline(s, rf, [given[k] for k in con.params], {})))
            if any(c[0] != "ok" or not eng.prove(s, bterm(c[1])) for s, c in outs):
                if not con.given:
                    raise Unsupported(f"the precondition of {con.target} is not established")
                self.used.add(f"{con.target} is called where its precondition holds: {con.given}")
        if con.mode == "inline":
            sf = self.func_of(con.folded or con.spec)
            if f.qual == getattr(sf, "qual", None) and f.mod is sf.mod:
                return eng.inline(st, sf, args, kw)
            vals = eng.bind_args(st, f, args, kw)
            a = f.node.args
            order = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
            names = [n for n in con.params if n in vals]
            if len(names) < len(con.params):
                names = order if "self" in con.params else [n for n in order if n not in ("self", "cls")]
                names = names[: len(con.params)]
            return eng.inline(st, sf, [vals[n] for n in names], {})
        vals = eng.bind_args(st, f, args, kw)
        order = [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
        terms = []
        names = list(con.params) if con.params else order
        for n in order:
            if n not in vals:
                continue
            if con.params and n not in con.params and n not in ("self", "cls"):
                continue
            if n == "cls":
                continue
            if isinstance(vals[n], Ref) and isinstance(st.heap[vals[n].id], FileC):
                continue  # what is written to a file does not depend on what is in it
            terms.append(eng.toV(st, vals[n]))
        if con.effect and con.effect != "logs" or not getattr(con, "pure", True):
            terms.append(V.vo(self.event_world(eng, st)))
        if con.writes:
            terms.append(V.vo(world.cur(st)))
        for g in con.reads:
            if g == "fresh":  # attributes of the objects it creates only
                continue
            if g in self.readsets:
                if con.writes:
                    continue
                w = world.strip(self.rules, world.cur(st), self.readsets[g])
                if not w.eq(world.W0):
                    terms.append(V.vo(w))
            else:
                terms.append(V.vo(eng.intern(st, eng.freeze_content(st, st.heap[g]))))
        name = con.uid

        def havoc(pre):
            """what the call may have changed, as functions of what it depends on"""
            for n in con.mutates:
                if n in self.globalnames:
                    r = Ref(n)
                elif n in vals:
                    r = vals[n]
                else:
                    continue
                if not isinstance(r, Ref):
                    raise Unsupported("mutation of a shared value by a call")
                c = st.heap[r.id]
                if isinstance(c, InstC):
                    # the lists and dicts it holds change in place (runner.frame), the other fields are replaced
                    types_ = con.params[n].fields
                    for k, x in list(c.fields.items()):
                        if isinstance(x, Ref):
                            change(f"{pre}_{n}.{k}", x, types_[k].ty)
                        elif not isinstance(types_[k], str) or types_[k] == "V":
                            raise Unsupported("mutation of a field")
                        else:
                            v = eng.wrap(st, uf(f"{pre}_{n}.{k}:{name}", *([V] * len(terms)), sort_of(types_[k]))(*terms), types_[k])
                            c = InstC(c.cls, dict(c.fields, **{k: v}))
                    st.heap[r.id] = c
                else:
                    change(f"{pre}_{n}", r, self.globalnames.get(n))
            if con.writes:
                st.world = uf("wcall_" + ("" if pre == "mut" else pre + "_") + name, *([V] * len(terms)), Obj)(*terms)

        def change(label, r, ty):
            c = st.heap[r.id]
            t = None if isinstance(c, FileC) else uf(f"{label}:{name}", *([V] * len(terms)), Obj)(*terms)
            if isinstance(c, DictC):
                st.heap[r.id] = DictC(t, c.ty, Seq())
            elif isinstance(c, FileC):
                st.heap[r.id] = FileC(c.content + unit(SV("s", uf(f"{label}:{name}", *([V] * len(terms)), S)(*terms))), c.info)
            elif isinstance(c, ListC):
                ty = ty or (c.kind, "V")
                eng.type_fact(st, t, ty, TRUE)
                st.heap[r.id] = ListC(eng.seq_of_src(st, Src("vlist", (t,), ty[1])), c.kind)
            else:
                raise Unsupported("mutation")

        if con.effect == "logs":  # whatever it reports, also before it fails, depends on these alone
            c = st.heap[EV]
            st.heap[EV] = ListC(c.seq + unit(("call", name, tuple(SV("V", t) for t in terms))), c.kind)
        for exc in con.raises:
            c = uf(f"raises_{exc.__name__}:{name}", *([V] * len(terms)), B)(*terms)
            if eng.branch(st, c):
                havoc("exc" + exc.__name__)
                if exc is SystemExit:  # after exit(1), see runner.frame
                    st.heap[EV] = ListC(st.heap[EV].seq + unit(("exit", con.exit_code)), st.heap[EV].kind)
                raise PyRaise(exc)
        havoc("mut")
        if con.effect and con.effect != "logs":
            c = st.heap[EV]
            st.heap[EV] = ListC(c.seq + unit(("call", name, tuple(SV("V", t) for t in terms))), c.kind)
        if con.ret is None:
            return None
        if isinstance(con.ret, list):
            ts = [uf(f"ret{i}:{name}", *([V] * len(terms)), sort_of(r))(*terms) for i, r in enumerate(con.ret)]
            return tuple(eng.wrap(st, t, r) for t, r in zip(ts, con.ret))
        t = uf(f"ret:{name}", *([V] * len(terms)), sort_of(con.ret))(*terms)
        r = eng.wrap(st, t, con.ret)
        if con.fresh:
            return st.alloc(DictC(t, con.ret, Seq()) if con.ret[0] == "dict" else ListC(eng.seq_of_src(st, Src("vlist", (t,), con.ret[1])), con.ret[0]))
        return r

    def event_world(self, eng, st):
        seq = st.heap[EV].seq
        for n in sorted(st.attrw):
            seq = seq + unit((n,)) + st.attrw[n]
        if not seq.parts:
            return z3.Const("world0", Obj)
        return eng.intern(st, ListC(seq))

    def symbolic_global(self, eng, st, v):
        g = self.globals_.get(id(v))
        if g is None:
            return None
        name, obj, maker = g
        if not eng.symglobals:
            return None
        if name not in st.heap:
            raise Unsupported(f"global {name} not set up")
        return Ref(name)

    def add_global(self, name, obj, maker):
        self.globals_[id(obj)] = (name, obj, maker)
        self.globalnames[name] = maker.ty

    # ------------------------------------------------------------ sources
    def vlist_elem(self, eng, st, src, i):
        o, ety = src.key[0], src.ety
        so = sort_of(ety)
        t = uf(f"velem_{so}", Obj, I, so)(o, i)
        return eng.wrap(st, t, ety)

    def set_elem_term(self, src, i):
        so = sort_of(src.ety)
        return uf(f"selem_{so}", Obj, I, so)(src.key[0], i)

    def set_elem(self, eng, st, src, i):
        o, ety = src.key[0], src.ety
        v = eng.wrap(st, self.set_elem_term(src, i), ety)
        kn = eng.known(o)
        if kn is not None:
            st.add(bterm(eng.in_seq(st, v, kn.seq)))
        return v

    def dkeys_elem(self, eng, st, src, i):
        ty = src.ety
        k = uf("dkey", Obj, I, V)(src.key[0], i)
        return self.dkey_val(eng, st, ty, k, src.key[0], i)

    def dkey_val(self, eng, st, ty, k, o, i):
        st.add(uf("dhas", Obj, V, B)(o, k))
        st.add(uf("didx", Obj, V, I)(o, k) == i)
        if ty and ty[1] == "str":
            st.add(V.is_vs(k))
            return SV("s", V.s(k))
        return SV("V", k, "V")

    def ditems_elem(self, eng, st, src, i):
        ty = src.ety
        o = src.key[0]
        k = uf("dkey", Obj, I, V)(o, i)
        kv = self.dkey_val(eng, st, ty, k, o, i)
        vt = ty[2] if ty else "V"
        v = eng.wrap(st, uf(f"dget_{sort_of(vt)}", Obj, V, sort_of(vt))(o, k), vt)
        return (kv, v)

    def byte_elem(self, eng, st, src, i):
        t = uf("belem", Obj, I, I)(src.key[0], i)
        st.add(z3.And(t >= 0, t < 256))
        return SV("i", t)

    def split_elem(self, eng, st, src, i):
        st.add(uf("split_n", S, S, I)(*src.key) >= 1)
        return SV("s", uf("split_e", S, S, I, S)(*src.key, i))

    def iterable(self, eng, st, v):
        for p in self.plugins:
            h = getattr(p, "iterable", None)
            if h:
                r = h(eng, st, v)
                if r is not None:
                    return r
        if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] == "$view":
            return v[1]
        if isinstance(v, type) and hasattr(v, "__members__"):
            return units(list(v))
        return None

    def distinct_keys(self, eng, st, part):
        """a dict built by mapping over the keys/items of a dict with unchanged keys"""
        src, var, body = part[1], part[2], part[3]
        if src.kind not in ("ditems", "dkeys"):
            return False
        o = src.key[0]
        kt = uf("dkey", Obj, I, V)(o, var)

        def ok(seq):
            for p in seq.parts:
                if p[0] == "u":
                    if not toV_scalar(p[1][0]) is not None:
                        return False
                    t = toV_scalar(p[1][0])
                    if not (t.eq(kt) or eng.entails(eng.enter_map(st, part), t == kt)):
                        return False
                elif p[0] == "if":
                    if not (ok(p[2]) and ok(p[3])):
                        return False
                    if len(p[2].parts) > 1 or len(p[3].parts) > 1:
                        return False
                else:
                    return False
            return len(seq.parts) <= 1

        return ok(body) and not has_del(body)

    # ------------------------------------------------------------ ignored calls
    def logged(self, eng, st, f, args, kw):
        """a message of a category the contract counts as outcome: an event with the category and the first thing it names"""
        from vss_tools import log

        if not (isinstance(f, types.MethodType) and f.__self__ is log):
            return False
        if kw or len(args) != 1:
            raise Unsupported("log call")
        parts = concat_parts(eng.strterm(st, args[0]))
        text = "\0".join(p.as_string() for p in parts if z3.is_string_value(p))
        cat = [c for c in eng.current.logs if c in text]
        if len(cat) > 1:
            raise Unsupported("a message of two categories")
        if cat:
            about = [p for p in parts if not z3.is_string_value(p)]
            c = st.heap[EV]
            what = lit(SV("s", about[0])) if about else ""
            st.heap[EV] = ListC(c.seq + unit(("log", cat[0], what)), c.kind)
        return True

    def is_ignored(self, eng, st, f, node):
        from vss_tools import log

        if isinstance(f, types.MethodType) and f.__self__ is log:
            if eng.current is not None and eng.current.logs and f.__name__ in ("warning", "error"):
                return False
            self.used.add("logging is dropped")
            return True
        if f is print:
            self.used.add("print is dropped")
            return True
        return False

    # ------------------------------------------------------------ attributes
    def sym_attr(self, eng, st, o, name, default):
        ty = o.ty
        if ty and ty[0] == "cls" and ty[1] in self.classes:
            return self.classes[ty[1]].attr(eng, st, o, name, default)
        return NotImplemented

    def get_attr(self, eng, st, o, name):
        for p in self.plugins:
            h = getattr(p, "get_attr", None)
            if h:
                r = h(eng, st, o, name)
                if r is not NotImplemented:
                    return r
        return NotImplemented

    def set_attr(self, eng, st, o, name, v):
        if isinstance(o, SV) and o.ty and o.ty[0] == "cls" and o.ty[1] in self.classes:
            return self.classes[o.ty[1]].set_attr(eng, st, o, name, v)
        return False

    def set_item(self, eng, st, o, k, v):
        return False

    def py_attr(self, eng, st, o, name):
        for p in self.plugins:
            h = getattr(p, "py_attr", None)
            if h:
                r = h(eng, st, o, name)
                if r is not NotImplemented:
                    return r
        return NotImplemented

    def method(self, eng, st, o, cls, name):
        return NotImplemented

    def super_(self, eng, st, fr):
        """super() in a method: the next class of the repository's, or a model of the library's"""
        f = st.frames[fr].get("$func")
        if f is None or f.mod is None or f.node is None or "." not in (f.qual or "") or not f.node.args.args:
            raise Unsupported("super()")
        cls = f.mod.module
        for part in f.qual.split(".")[:-1]:
            cls = getattr(cls, part, None)
        me = st.frames[fr].get(f.node.args.args[0].arg)
        if not isinstance(cls, type) or not isinstance(me, Ref) or not isinstance(st.heap[me.id], InstC):
            raise Unsupported("super()")
        return Super(cls, st.heap[me.id].cls, me)

    def exc_value(self, eng, st, exc):
        return st.alloc(InstC(exc.cls, {}))

    def enum_eq(self, eng, st, sv, obj):
        import enum

        if isinstance(obj, enum.Enum):
            if isinstance(obj, str):
                if sv.k == "s":
                    return simp(sv.t == sval(obj.value))
                if sv.k == "V":
                    return simp(z3.And(V.is_vs(sv.t), V.s(sv.t) == sval(obj.value)))
                if sv.k == "o" and sv.ty and sv.ty[0] == "cls" and sv.ty[1] == "NodeType":
                    return simp(uf("at_NodeType_value", Obj, S)(sv.t) == sval(obj.value))
        return None

    def str_of(self, eng, st, v):
        import enum

        if isinstance(v, enum.Enum):
            return str(v)
        for p in self.plugins:
            h = getattr(p, "str_of", None)
            if h:
                r = h(eng, st, v)
                if r is not None:
                    return r
        return None

    def truediv(self, eng, st, a, b):
        for p in self.plugins:
            h = getattr(p, "truediv", None)
            if h:
                r = h(eng, st, a, b)
                if r is not None:
                    return r
        return None

    def list_kind(self, eng, st, v):
        return None

    def close_file(self, eng, st, f):
        pass

    # ------------------------------------------------------------ library calls
    def call_lib(self, eng, st, f, args, kw):
        try:
            h = self.libs.get(f)
        except TypeError:
            h = None
        if h is not None:
            return h(eng, st, args, kw)
        if isinstance(f, types.FunctionType):
            g = self.func_of(f)
            if g is not None:
                return eng.call_func(st, g, args, kw)
        for p in self.plugins:
            h = getattr(p, "call", None)
            if h:
                r = h(eng, st, f, args, kw)
                if r is not NotImplemented:
                    return r
        if isinstance(f, (types.BuiltinMethodType, types.MethodType)) and getattr(f, "__self__", None) is not None:
            if all(is_const(a) for a in args) and all(is_const(a) for a in kw.values()) and isinstance(f.__self__, (str, bytes)):
                return f(*args, **kw)
        return NotImplemented

    def lib(self, f):
        def deco(h):
            self.libs[f] = h
            return h
        return deco

    def strict(self):
        """no argument of a builtin is silently ignored: calls with others than these are outside the models"""
        for f, (n, names) in BUILTIN_ARGS.items():
            h = self.libs[f]

            def g(eng, st, args, kw, h=h, n=n, names=names, f=f):
                if len(args) > n or any(k not in names for k in kw):
                    raise Unsupported(f"arguments of {getattr(f, '__name__', f)}()")
                return h(eng, st, args, kw)

            self.libs[f] = g

    def install_builtins(self):
        lib = self.lib

        @lib(len)
        def _len(eng, st, args, kw):
            return py_len(eng, st, args[0])

        @lib(isinstance)
        def _isinstance(eng, st, args, kw):
            r = self.isinstance(eng, st, args[0], args[1])
            return r if isinstance(r, bool) else lit(SV("b", simp(r)))

        @lib(str)
        def _str(eng, st, args, kw):
            return eng.py_str(st, args[0]) if args else ""

        @lib(repr)
        def _repr(eng, st, args, kw):
            return eng.py_repr(st, args[0])

        @lib(bool)
        def _bool(eng, st, args, kw):
            t = eng.truth(st, args[0]) if args else False
            return t if isinstance(t, bool) else lit(SV("b", t))

        @lib(int)
        def _int(eng, st, args, kw):
            if all(is_const(a) for a in args):
                try:
                    return int(*args)
                except Exception as e:
                    raise PyRaise(type(e))
            v = args[0]
            if len(args) == 1 and kind_of(v) in ("i", "b"):
                return eng.coerce(st, v, "i")
            if len(args) == 1 and kind_of(v) == "r":
                t = v.t
                return SV("i", z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
            if kind_of(v) == "s" or isinstance(v, StrV):
                base = args[1] if len(args) > 1 else 10
                t = eng.strterm(st, v)
                ok = uf("int_ok", S, I, B)(t, to_term(base))
                if not eng.branch(st, ok):
                    raise PyRaise(ValueError)
                return SV("i", uf("int_of", S, I, I)(t, to_term(base)))
            if kind_of(v) == "V":
                t = to_term(v)
                if eng.branch(st, V.is_vs(t)):
                    return _int(eng, st, [SV("s", V.s(t))] + list(args[1:]), kw)
                if len(args) == 1:
                    for test, mk in ((V.is_vi, lambda: SV("i", V.i(t))), (V.is_vb, lambda: SV("b", V.b(t))), (V.is_vr, lambda: SV("r", V.r(t)))):
                        if eng.branch(st, test(t)):
                            return _int(eng, st, [mk()], kw)
                raise PyRaise(TypeError)
            raise Unsupported("int()")

        @lib(chr)
        def _chr(eng, st, args, kw):
            if is_const(args[0]):
                try:
                    return chr(args[0])
                except Exception as e:
                    raise PyRaise(type(e))
            t = to_term(eng.coerce(st, args[0], "i"))
            if not eng.branch(st, z3.And(t >= 0, t < 0x110000)):
                raise PyRaise(ValueError)
            r = uf("chr", I, S)(t)
            st.add(z3.Length(r) == 1)
            return SV("s", r)

        @lib(float)
        def _float(eng, st, args, kw):
            if is_const(args[0]):
                return float(args[0])
            return eng.coerce(st, args[0], "r")

        @lib(format)
        def _format(eng, st, args, kw):
            return eng.py_format(st, args[0], args[1] if len(args) > 1 else "")

        @lib(ord)
        def _ord(eng, st, args, kw):
            if is_const(args[0]):
                return ord(args[0])
            return SV("i", z3.StrToCode(eng.strterm(st, args[0])))

        @lib(hex)
        def _hex(eng, st, args, kw):
            if is_const(args[0]):
                return hex(args[0])
            return SV("s", uf("py_hex", I, S)(to_term(eng.coerce(st, args[0], "i"))))

        @lib(list)
        def _list(eng, st, args, kw):
            if not args:
                return st.alloc(ListC(Seq(), "list"))
            return st.alloc(ListC(eng.to_seq(st, args[0]), "list"))

        @lib(set)
        def _set(eng, st, args, kw):
            if not args:
                return st.alloc(ListC(Seq(), "set"))
            k = eng.list_kind(st, args[0])
            return st.alloc(ListC(eng.to_seq_raw(st, args[0]) if k else eng.to_seq(st, args[0]), "set"))

        self.libs[frozenset] = _set

        @lib(tuple)
        def _tuple(eng, st, args, kw):
            if not args:
                return ()
            if isinstance(args[0], tuple):
                return args[0]
            seq = eng.to_seq(st, args[0])
            if all(p[0] == "u" for p in seq.parts):
                return tuple(p[1] for p in seq.parts)
            return st.alloc(ListC(seq, "tuple"))

        @lib(dict)
        def _dict(eng, st, args, kw):
            r = st.alloc(DictC(None, ("dict", "V", "V"), Seq()))
            if args:
                a = args[0]
                c = deref(eng, st, a)
                if isinstance(c, DictC) or isinstance(a, dict) or (isinstance(a, SV) and (a.ty or "V")[0] == "dict"):
                    eng.dict_update(st, r, a)
                else:
                    seq = eng.to_seq(st, a)
                    st.heap[r.id] = DictC(None, ("dict", "V", "V"), seq)
            for k, v in kw.items():
                if k == "**":
                    eng.dict_update(st, r, v)
                else:
                    eng.dict_put(st, r, k, v)
            return r

        @lib(enumerate)
        def _enumerate(eng, st, args, kw):
            start = args[1] if len(args) > 1 else kw.get("start", 0)
            seq = eng.to_seq(st, args[0])
            return ("$view", enum_seq(eng, st, seq, start))

        @lib(range)
        def _range(eng, st, args, kw):
            xs = [eng.coerce(st, a, "i") for a in args]
            if all(isinstance(x, int) for x in xs):
                r = list(range(*xs))
                if len(r) <= 64:
                    return ("$view", units(r))
            if len(xs) == 1:
                xs = [0] + xs
            if len(xs) == 3:
                raise Unsupported("range step")
            return ("$view", eng.seq_of_src(st, Src("range", (to_term(xs[0]), to_term(xs[1])), "int")))

        @lib(zip)
        def _zip(eng, st, args, kw):
            seqs = [eng.to_seq(st, a) for a in args]
            if all(all(p[0] == "u" for p in s.parts) for s in seqs):
                return ("$view", units(list(zip(*[[p[1] for p in s.parts] for s in seqs]))))
            if len(seqs) == 2 and all(len(s.parts) == 1 and is_unit_map(s.parts[0]) for s in seqs):
                a, b = seqs[0].parts[0], seqs[1].parts[0]
                if a[1].same(b[1]) and a[4].eq(b[4]):
                    if not a[2].eq(b[2]):
                        b = subst_part_bound(b, a[2])
                    return ("$view", Seq((a[:3] + (unit((a[3].parts[0][1], b[3].parts[0][1])), a[4], a[5] + b[5]),)))
            raise Unsupported("zip")

        def minmax(name, less):
            def h(eng, st, args, kw):
                if len(args) == 1 and not kw:
                    c = to_list(eng, st, args[0])
                    if c is not None:
                        args = c
                        if not args:
                            raise PyRaise(ValueError)
                    else:
                        seq = eng.to_seq(st, args[0])
                        ne = eng.nonempty(st, seq)
                        if not eng.branch(st, ne):
                            raise PyRaise(ValueError)
                        return SV("V", uf("py_" + name, Obj, V)(eng.intern(st, ListC(seq))), "V")
                if kw:
                    raise Unsupported(name)
                cur = args[0]
                for x in args[1:]:
                    c = eng.compare(st, ast.Lt() if less else ast.Gt(), x, cur)
                    if isinstance(c, bool):
                        cur = x if c else cur
                    else:
                        cur = eng.merge_val(c, x, cur)
                return cur
            return h

        self.libs[min] = minmax("min", True)
        self.libs[max] = minmax("max", False)

        @lib(sum)
        def _sum(eng, st, args, kw):
            c = to_list(eng, st, args[0])
            if c is not None:
                r = args[1] if len(args) > 1 else 0
                for x in c:
                    r = eng.binop(st, ast.Add, r, x)
                return r
            seq = eng.to_seq(st, args[0])
            if len(args) == 1 and elements_are(seq, (True, 1)):
                return eng.seq_len(st, seq)  # as many ones as elements
            return SV("i", uf("py_sum", Obj, I)(eng.intern(st, ListC(seq))))

        @lib(sorted)
        def _sorted(eng, st, args, kw):
            raw = eng.list_kind(st, args[0]) in ("list", "tuple")
            return st.alloc(ListC(sort_seq(eng, st, eng.to_seq_raw(st, args[0]) if raw else eng.to_seq(st, args[0]), kw), "list"))

        @lib(reversed)
        def _reversed(eng, st, args, kw):
            seq = eng.to_seq(st, args[0])
            if all(p[0] == "u" for p in seq.parts):
                return ("$view", Seq(tuple(reversed(seq.parts))))
            o = eng.intern(st, ListC(seq))
            return ("$view", eng.seq_of_src(st, Src("vlist", (uf("reversed", Obj, Obj)(o),), seq_ety(seq))))

        @lib(any)
        def _any(eng, st, args, kw):
            seq = eng.to_seq(st, args[0])
            r = znot(eng.seq_all(st, seq, lambda s, x: znot(bterm(eng.truth(s, x)))))
            return lit(SV("b", simp(r)))

        @lib(all)
        def _all(eng, st, args, kw):
            seq = eng.to_seq(st, args[0])
            r = eng.seq_all(st, seq, lambda s, x: bterm(eng.truth(s, x)))
            return lit(SV("b", simp(r)))

        @lib(map)
        def _map(eng, st, args, kw):
            seq = eng.to_seq(st, args[1])
            f = args[0]
            if all(p[0] == "u" for p in seq.parts):
                return ("$view", units([eng.call(st, f, [p[1]], {}) for p in seq.parts]))
            acc = st.alloc(ListC(Seq(), "list"))

            def body(s, el):
                def th(s2):
                    v = eng.call(s2, f, [el], {})
                    c = s2.heap[acc.id]
                    s2.heap[acc.id] = ListC(c.seq + unit(v), c.kind)
                return [(s2, ("next",) if c[0] == "ok" else c) for s2, c in eng.explore(s, th)]

            comp = eng.pick_outs(st, eng.cached(st, lambda: eng.iter_seq(seq, st, body)))
            if comp[0] == "raise":
                raise comp[1]
            return acc

        @lib(next)
        def _next(eng, st, args, kw):
            seq = eng.to_seq(st, args[0])
            ne = eng.nonempty(st, seq)
            if not eng.branch(st, ne):
                if len(args) > 1:
                    return args[1]
                raise PyRaise(StopIteration)
            return eng.seq_index(st, seq, z3.IntVal(0), StopIteration)

        @lib(type)
        def _type(eng, st, args, kw):
            v = args[0]
            if isinstance(v, SV) and v.k in "bisr":
                return {"b": bool, "i": int, "s": str, "r": float}[v.k]
            if is_const(v):
                return type(v)
            c = deref(eng, st, v)
            if isinstance(c, InstC):
                return c.cls
            if isinstance(c, ListC):
                return {"list": list, "set": set, "tuple": tuple}[c.kind]
            if isinstance(c, DictC):
                return dict
            if isinstance(v, StrV):
                return bytes if v.bytes else str
            if isinstance(v, SV) and v.k in ("V", "o"):
                for cls in PLAINTYPES:
                    if eng.branch(st, bterm(self.isinstance(eng, st, v, cls) if cls is not int else z3.And(V.is_vi(v.t)) if v.k == "V" else False)):
                        return cls
                return OtherType
            raise Unsupported(f"type() of {v!r:.200}")

        @lib(hasattr)
        def _hasattr(eng, st, args, kw):
            o, n = args
            if isinstance(o, SV) and o.k == "o" and o.ty and o.ty[0] == "cls" and o.ty[1] in self.classes:
                r = self.classes[o.ty[1]].hasattr(eng, st, o, n)
                return r if isinstance(r, bool) else lit(SV("b", simp(r)))
            c = deref(eng, st, o)
            if isinstance(c, InstC) and isinstance(n, str):
                return n in c.fields or (c.cls is not None and hasattr(c.cls, n))
            raise Unsupported("hasattr")

        @lib(getattr)
        def _getattr(eng, st, args, kw):
            o, n = args[0], args[1]
            d = args[2] if len(args) > 2 else NotImplemented
            if isinstance(o, SV) and o.k == "o" and o.ty and o.ty[0] == "cls" and o.ty[1] in self.classes:
                return self.classes[o.ty[1]].getattr(eng, st, o, n, d)
            if isinstance(n, str):
                return eng.get_attr(st, o, n, d)
            raise Unsupported("getattr")

        @lib(open)
        def _open(eng, st, args, kw):
            return self.open_file(eng, st, list(args), kw)

        @lib(setattr)
        def _setattr(eng, st, args, kw):
            if isinstance(args[1], str):
                eng.set_attr(st, args[0], args[1], args[2])
                return None
            raise Unsupported("setattr")

        @lib(_copy.deepcopy)
        def _deepcopy(eng, st, args, kw):
            v = eng.freeze(st, args[0])
            if isinstance(v, Frozen):
                return st.alloc(thaw(eng, st, v.content))
            if is_const(v) or (isinstance(v, SV) and v.k != "o"):
                return v
            if isinstance(v, SV) and v.k == "o" and v.ty and v.ty[0] == "cls":
                sc = eng.env.classes[v.ty[1]]
                if not sc.world:
                    return v
                # copies of everything reachable: new objects in a new state
                w = world.cur(st)
                st.world = uf("wcall_deepcopy", Obj, Obj, Obj)(v.t, w)
                return eng.wrap(st, uf("obj_deepcopy", Obj, Obj, Obj)(v.t, w), v.ty)
            raise Unsupported("deepcopy")

        @lib(_copy.copy)
        def _copy1(eng, st, args, kw):
            c = deref(eng, st, args[0])
            if c is not None:
                return st.alloc(c)
            raise Unsupported("copy")

        def _match(which):
            def h(eng, st, args, kw):
                pat, s = args[0], args[1]
                flags = args[2] if len(args) > 2 else kw.get("flags", 0)
                if isinstance(pat, re.Pattern):
                    if flags:
                        raise Unsupported("flags with a compiled pattern")
                    flags = pat.flags & ~re.UNICODE.value
                    pat = pat.pattern
                if isinstance(pat, (str,)) and is_const(s):
                    m = getattr(re, which)(pat, s, flags)
                    return m
                if not isinstance(pat, str):
                    raise Unsupported("symbolic pattern")
                if not isinstance(flags, int):
                    raise Unsupported("symbolic flags")
                if int(flags):
                    pat = f"(?#flags {int(flags)}){pat}"  # another pattern
                if kind_of(s) == "V":
                    s = eng.coerce(st, s, "s")
                t = eng.strterm(st, s)
                rx = None
                if not flags:
                    rx = regex.translate(pat, which)
                if rx is not None:
                    c = z3.InRe(t, rx)
                else:
                    c = uf("re_" + which, S, S, B)(sval(pat), t)
                o = uf("re_obj_" + which, S, S, Obj)(sval(pat), t)
                eng.rematch[o.get_id()] = (o, pat, which, t)
                return SV("V", z3.If(c, V.vo(o), V.none), ("opt", ("cls", "Match")))
            return h

        for w in ("match", "search", "fullmatch"):
            self.libs[getattr(re, w)] = _match(w)

        @lib(keyword.iskeyword)
        def _iskeyword(eng, st, args, kw):
            return lit(SV("b", simp(bterm(eng.contains(st, args[0], keyword.kwlist)))))

        @lib(re.compile)
        def _compile(eng, st, args, kw):
            if all(is_const(a) for a in args) and not kw:
                return re.compile(*args)
            raise Unsupported("re.compile")

        @lib(re.sub)
        def _sub(eng, st, args, kw):
            if all(is_const(a) for a in args):
                return re.sub(*args)
            if kw or len(args) != 3 or not isinstance(args[0], str):
                raise Unsupported("re.sub")
            if kind_of(args[2]) == "V":
                args = [args[0], args[1], eng.coerce(st, args[2], "s")]
            if isinstance(args[1], str):
                return SV("s", uf("re_sub", S, S, S, S)(sval(args[0]), sval(args[1]), eng.strterm(st, args[2])))
            # a function of the match: two are the same when they give the same text for any match of this pattern
            pat = sval(args[0])
            m = uf("re_obj_search", S, S, Obj)(pat, z3.Const("re_sub_text", S))
            eng.rematch[m.get_id()] = (m, args[0], "search", None)
            q = st.copy()
            n = len(q.facts)
            outs = eng.explore(q, lambda s: eng.strterm(s, eng.call(s, args[1], [SV("o", m, Cls("Match"))], {})))
            if len(outs) != 1 or outs[0][1][0] != "ok" or any(tag == "pc" for tag, _ in outs[0][0].facts[n:]):
                raise Unsupported("re.sub with a conditional replacement")
            return SV("s", uf("re_subf", S, S, S, S)(pat, simp(outs[0][1][1]), eng.strterm(st, args[2])))

        @lib(re.findall)
        def _findall(eng, st, args, kw):
            if all(is_const(a) for a in args):
                return st.alloc(ListC(units(re.findall(*args)), "list"))
            o = uf("re_findall", S, S, Obj)(eng.strterm(st, args[0]), eng.strterm(st, args[1]))
            return eng.wrap(st, o, ("list", "str"))

        def _exit(eng, st, args, kw):
            c = st.heap[EV]
            st.heap[EV] = ListC(c.seq + unit(("exit",) + tuple(args)), c.kind)
            raise PyRaise(SystemExit)

        self.libs[sys.exit] = _exit
        self.libs[builtins.exit] = _exit
        self.strict()

    # ------------------------------------------------------------ isinstance
    def isinstance(self, eng, st, v, cls):
        if isinstance(v, Poison):
            raise NeedHole(v.loc)
        if isinstance(cls, tuple):
            cs = [self.isinstance(eng, st, v, c) for c in cls]
            if any(c is True for c in cs):
                return True
            return simp(zor([bterm(c) for c in cs]))
        if isinstance(cls, types.UnionType):
            return self.isinstance(eng, st, v, tuple(cls.__args__))
        if is_const(v):
            return isinstance(v, cls)
        T = self.TAG
        names = {list: "list", tuple: "tuple", set: "set", dict: "dict", bytes: "bytes"}
        if isinstance(v, SV):
            if v.k in "bisr":
                return issubclass({"b": bool, "i": int, "s": str, "r": float}[v.k], cls)
            if v.k == "V":
                t = v.t
                if cls is int:
                    return z3.Or(V.is_vi(t), V.is_vb(t))
                if cls is bool:
                    return V.is_vb(t)
                if cls is float:
                    return V.is_vr(t)
                if cls is str:
                    return V.is_vs(t)
                if cls is type(None):
                    return V.is_none(t)
                if cls in names:
                    r = z3.And(V.is_vo(t), uf("tag", Obj, I)(V.o(t)) == T[names[cls]])
                    return r
                tags = self.tags_of(cls)
                if tags is not None:
                    tg = uf("tag", Obj, I)(V.o(t))
                    return z3.And(V.is_vo(t), zor([tg == k for k in tags]))
                raise Unsupported(f"isinstance {cls}")
            if v.ty and v.ty[0] in T:
                return names.get(cls) == v.ty[0]
            tg = uf("tag", Obj, I)(v.t)
            if cls in names:
                if v.ty and v.ty[0] == "cls":
                    return v.ty[1] == "bytes" and cls is bytes
                return tg == T[names[cls]]
            if cls in (str, int, bool, float):
                return False
            tags = self.tags_of(cls)
            if tags is not None:
                return zor([tg == k for k in tags])
            raise Unsupported(f"isinstance {cls}")
        c = deref(eng, st, v)
        if isinstance(c, ListC):
            return {"list": list, "set": set, "tuple": tuple, "bytes": bytes}[c.kind] is cls
        if isinstance(c, DictC):
            return cls is dict
        if isinstance(c, InstC):
            return issubclass(c.cls, cls)
        if isinstance(v, StrV):
            return cls is (bytes if v.bytes else str)
        if isinstance(v, tuple):
            return cls is tuple
        return isinstance(v, cls)

    def tags_of(self, cls):
        """tags of the symbolic classes that are subclasses of cls"""
        if cls not in self.CLS and not any(issubclass(c, cls) for c in self.CLS):
            return None
        return [t for c, t in self.CLS.items() if issubclass(c, cls)]

    # ------------------------------------------------------------ methods of values
    def call_method(self, eng, st, o, name, args, kw):
        if isinstance(o, Poison):
            raise NeedHole(o.loc)
        if isinstance(o, Super):
            return None if name == "$nothing" else self.libs[name](eng, st, [o.me] + list(args), kw)
        for p in self.plugins:
            h = getattr(p, "method", None)
            if h:
                r = h(eng, st, o, name, args, kw)
                if r is not NotImplemented:
                    return r
        if isinstance(o, Frozen) or isinstance(o, Ref):
            c = st.heap[o.id] if isinstance(o, Ref) else o.content
            if isinstance(c, ListC):
                return self.list_method(eng, st, o, c, name, args, kw)
            if isinstance(c, DictC):
                return self.dict_method(eng, st, o, c, name, args, kw)
            if isinstance(c, FileC):
                return self.file_method(eng, st, o, c, name, args, kw)
        if isinstance(o, dict):
            return self.dict_method(eng, st, None, eng.conc_content(o), name, args, kw)
        if isinstance(o, re.Pattern) and name in ("match", "search", "fullmatch", "sub", "findall"):
            if kw or len(args) != (2 if name == "sub" else 1):
                raise Unsupported(f"arguments of {name}")
            if name in ("sub", "findall"):
                if o.flags & ~re.UNICODE.value:
                    raise Unsupported("pattern with flags")
                o = o.pattern
            return self.libs[getattr(re, name)](eng, st, [o] + list(args), kw)
        if isinstance(o, (list, set, frozenset)):
            return self.list_method(eng, st, None, eng.conc_content(o), name, args, kw)
        if isinstance(o, tuple):
            return self.list_method(eng, st, None, ListC(units(o), "tuple"), name, args, kw)
        if isinstance(o, SV) and o.k == "o":
            if o.ty and o.ty[0] == "cls" and o.ty[1] == "Match":
                if kw or len(args) > 1:
                    raise Unsupported(f"arguments of {name}")
                return self.match_method(eng, st, o, name, args)
            if o.ty == ("cls", "bytes"):
                return self.bytes_method(eng, st, o, name, args, kw)
            if o.ty and o.ty[0] == "cls" and o.ty[1] in self.classes:
                return self.classes[o.ty[1]].method(eng, st, o, name, args, kw)
            if o.ty and o.ty[0] == "dict":
                return self.dict_method(eng, st, None, DictC(o.t, o.ty, Seq()), name, args, kw)
            if o.ty and o.ty[0] in ("list", "set", "tuple"):
                return self.list_method(eng, st, None, ListC(eng.to_seq(st, o), o.ty[0]), name, args, kw)
            k = eng.known(o.t)
            if k is not None:
                return self.call_method(eng, st, Frozen(k), name, args, kw)
        if isinstance(o, SV) and o.k == "V":
            t = o.t
            if o.ty and o.ty != "V" and o.ty[0] == "opt":
                inner = o.ty[1]
                if inner == "str":
                    return self.call_method(eng, st, eng.coerce(st, o, "s", AttributeError), name, args, kw)
                if inner not in ("int", "bool", "real", "num", "V"):
                    return self.call_method(eng, st, eng.coerce(st, o, "o", AttributeError), name, args, kw)
            if name in STRM and eng.branch(st, V.is_vs(t)):
                return self.str_method(eng, st, SV("s", V.s(t)), name, args, kw)
            T = self.TAG
            if eng.branch(st, V.is_vo(t)):
                tg = uf("tag", Obj, I)(V.o(t))
                if name in DICTM and eng.branch(st, tg == T["dict"]):
                    return self.dict_method(eng, st, None, DictC(V.o(t), ("dict", "V", "V"), Seq()), name, args, kw)
                if name in LISTM and eng.branch(st, tg == T["list"]):
                    return self.list_method(eng, st, None, ListC(eng.seq_of_src(st, Src("vlist", (V.o(t),), "V")), "list"), name, args, kw)
                if name not in LISTM and name in DICTM and eng.branch(st, tg == T["list"]):
                    raise PyRaise(AttributeError)
                if name in TEXTONLY:
                    raise PyRaise(AttributeError)
                if name == "replace" and not kw:
                    return eng.anyobj(st, name, SV("o", V.o(t)), args, (AttributeError, TypeError, ValueError))
                raise Unsupported(f"method {name} of an object")
            raise PyRaise(AttributeError)
        if isinstance(o, (str, StrV)) or (isinstance(o, SV) and o.k == "s"):
            if isinstance(o, StrV) and o.bytes:
                raise Unsupported("bytes method")
            return self.str_method(eng, st, o, name, args, kw)
        if isinstance(o, bytes) and all(is_const(a) for a in args):
            return getattr(o, name)(*args)
        if isinstance(o, SV) and o.k in "bir" or isinstance(o, (int, float)) or o is None:
            raise PyRaise(AttributeError)
        raise Unsupported(f"method {name} of {o!r}")

    def match_method(self, eng, st, o, name, args):
        m = eng.rematch.get(o.t.get_id())
        t = o.t
        while m is None and z3.is_app(t) and t.num_args():
            # the object of a conditional match
            t = t.arg(1) if z3.is_app_of(t, z3.Z3_OP_ITE) else t.arg(0)
            m = eng.rematch.get(t.get_id())
        if m is not None:
            o = SV("o", m[0], o.ty)
        if name == "group":
            i = args[0] if args else 0
            if not is_const(i):
                raise Unsupported("group")
            t = uf("re_group", Obj, V, V)(o.t, toV_scalar(i))
            if m is not None and isinstance(i, int):
                sub = regex.group(m[1], i)
                if sub is not None:  # a group that takes part in every match
                    st.add(V.is_vs(t))
                    if regex.digits(sub):
                        ten = z3.IntVal(10)
                        st.add(uf("int_ok", S, I, B)(V.s(t), ten))
                        st.add(uf("int_of", S, I, I)(V.s(t), ten) >= 0)
                    return SV("s", V.s(t))
            return eng.wrap(st, t, Opt("str"))
        if name == "groups":
            return eng.wrap(st, uf("re_groups", Obj, Obj)(o.t), ("tuple", "str"))
        if name in ("start", "end"):
            return SV("i", uf("re_" + name, Obj, V, I)(o.t, toV_scalar(args[0] if args else 0)))
        raise Unsupported("match method")

    def bytes_method(self, eng, st, o, name, args, kw):
        if name == "decode" and coding(args, kw):
            return SV("s", uf("decode", Obj, S)(o.t))
        if args or kw:
            raise Unsupported(f"arguments of bytes.{name}")
        if name in ("lower", "upper"):
            return SV("o", uf("bytes_" + name, Obj, Obj)(o.t), ("cls", "bytes"))
        if name == "hex":
            return SV("s", uf("bytes_hex", Obj, S)(o.t))
        raise Unsupported("bytes method")

    def str_format(self, eng, st, o, args, kw):
        """a literal template: as the f-string with the same parts"""
        import string

        parts, auto = [], 0
        try:
            fields = list(string.Formatter().parse(o))
        except ValueError as e:
            raise PyRaise(type(e))
        for text, key, spec, conv in fields:
            if text:
                parts.append(text)
            if key is None:
                continue
            if key == "":
                key, auto = str(auto), auto + 1
            if key.isdigit():
                if int(key) >= len(args):
                    raise PyRaise(IndexError)
                v = args[int(key)]
            elif key in kw:
                v = kw[key]
            else:
                raise Unsupported("format field")
            if conv == "r":
                v = eng.py_repr(st, v)
            elif conv not in (None, "s"):
                raise Unsupported("conversion")
            if spec and "{" in spec:
                raise Unsupported("format field")
            parts.append(eng.py_format(st, v, spec) if spec else eng.py_str(st, v))
        return eng.concat_strs(st, parts)

    def str_method(self, eng, st, o, name, args, kw):
        if isinstance(o, str) and name not in ("join", "format"):
            if all(is_const(a) or (isinstance(a, tuple) and all(is_const(x) for x in a)) for a in args) and not kw:
                try:
                    r = getattr(o, name)(*args)
                except Exception as e:
                    raise PyRaise(type(e))
                if isinstance(r, list):
                    return st.alloc(ListC(units(r), "list"))
                return r
        if name == "join":
            return join_str(eng, st, o, eng.to_seq(st, args[0]))
        if name == "format" and isinstance(o, str):
            return self.str_format(eng, st, o, args, kw)
        if name == "encode":
            if not coding(args, kw):
                if kw or not all(isinstance(a, str) for a in args):
                    raise Unsupported("arguments of encode")
                r = uf("encode_as", S, S, Obj)(eng.strterm(st, o), sval(" ".join(args)))
                if not (len(args) == 2 and args[1] in ("ignore", "replace", "backslashreplace", "xmlcharrefreplace")):
                    if not eng.branch(st, uf("encodable", S, S, B)(eng.strterm(st, o), sval(" ".join(args)))):
                        raise PyRaise(UnicodeEncodeError)
                return SV("o", r, ("cls", "bytes"))
            args = []
        check_args("str", STR_ARGS, name, args, kw)
        t = eng.strterm(st, o)
        if name in ("startswith", "endswith"):
            a = args[0]
            xs = list(a) if isinstance(a, tuple) else [a]
            f = z3.PrefixOf if name == "startswith" else z3.SuffixOf
            return lit(SV("b", simp(zor([f(eng.strterm(st, eng.coerce(st, x, "s")), t) for x in xs]))))
        if name == "split" and len(args) == 1 and not kw:
            sep = eng.strterm(st, args[0])
            st.add(uf("split_n", S, S, I)(t, sep) >= 1)
            st.add((uf("split_n", S, S, I)(t, sep) > 1) == z3.Contains(t, sep))
            return st.alloc(ListC(eng.seq_of_src(st, Src("split", (t, sep), "str")), "list"))
        if not kw and args and isinstance(args[0], str) and args[0] and (name == "split" and args[1:] == [1] or name == "partition" and len(args) == 1):
            # cut at the first occurrence
            sep = args[0]
            if not eng.branch(st, z3.Contains(t, sval(sep))):
                return st.alloc(ListC(units((SV("s", t),)), "list")) if name == "split" else (SV("s", t), "", "")
            i = z3.IndexOf(t, sval(sep), 0)
            a, b = SV("s", z3.SubString(t, 0, i)), SV("s", z3.SubString(t, i + len(sep), z3.Length(t) - i - len(sep)))
            return st.alloc(ListC(units((a, b)), "list")) if name == "split" else (a, sep, b)
        if name in ("rsplit", "split", "splitlines", "partition", "rpartition"):
            o2 = uf("str_" + name, S, *([V] * len(args)), Obj)(t, *[eng.toV(st, a) for a in args])
            return eng.wrap(st, o2, ("list", "str"))
        if name in ("lower", "upper", "strip", "rstrip", "lstrip", "replace", "title", "capitalize", "removesuffix", "removeprefix", "zfill", "ljust", "rjust", "center", "swapcase", "expandtabs", "casefold"):
            ts = []
            for a in args:
                ts.append(eng.toV(st, a))
            r = uf(f"str_{name}{len(ts)}", S, *([V] * len(ts)), S)(t, *ts)
            if name == "replace" and len(args) == 2 and isinstance(args[0], str) and args[0]:
                r = z3.If(z3.Contains(t, sval(args[0])), r, t)
            if name in ("removesuffix",) and isinstance(args[0], str):
                a = sval(args[0])
                return SV("s", z3.If(z3.SuffixOf(a, t), z3.SubString(t, 0, z3.Length(t) - len(args[0])), t))
            if name in ("removeprefix",) and isinstance(args[0], str):
                a = sval(args[0])
                return SV("s", z3.If(z3.PrefixOf(a, t), z3.SubString(t, len(args[0]), z3.Length(t) - len(args[0])), t))
            return SV("s", r)
        if name == "encode":
            return SV("o", uf("encode", S, Obj)(t), ("cls", "bytes"))
        if name in ("isalnum", "isalpha", "isdigit", "isupper", "islower", "isidentifier", "isspace", "isnumeric", "isdecimal"):
            return SV("b", uf("str_" + name, S, B)(t))
        if name in ("find", "index", "count", "rfind"):
            x = eng.strterm(st, eng.coerce(st, args[0], "s"))
            if name == "find" and len(args) == 1:
                return SV("i", z3.IndexOf(t, x, 0))
            return SV("i", uf("str_" + name, S, S, I)(t, x))
        raise Unsupported(f"str.{name}")

    def list_method(self, eng, st, o, c, name, args, kw):
        check_args("list", LIST_ARGS, name, args, kw)
        mut = name in ("append", "extend", "add", "update", "insert", "remove", "pop", "clear", "sort", "discard", "reverse")
        if mut and c.kind in ("tuple", "frozenset"):
            raise PyRaise(AttributeError)
        if mut and not isinstance(o, Ref):
            if name in ("append", "add", "extend", "update", "remove", "pop", "insert", "clear", "sort", "discard", "reverse"):
                raise Unsupported(f"mutation of a shared {c.kind}")

        def put(seq):
            st.heap[o.id] = ListC(seq, c.kind)

        if name == "append" and c.kind == "list":
            put(c.seq + unit(args[0]))
            return None
        if name == "add" and c.kind == "set":
            put(c.seq + unit(args[0]))
            return None
        if name in ("extend", "update"):
            for a in args:
                c2 = st.heap[o.id]
                k = eng.list_kind(st, a)
                put_seq = eng.to_seq_raw(st, a) if (k == "set" and c.kind == "set") else eng.to_seq(st, a)
                st.heap[o.id] = ListC(c2.seq + put_seq, c.kind)
            return None
        if name == "clear":
            put(Seq())
            return None
        if name == "copy":
            return st.alloc(ListC(c.seq, c.kind))
        if name == "index":
            x = args[0]
            for i, p in enumerate(eng.parts(st, c.seq)):
                pass
            if all(p[0] == "u" for p in c.seq.parts):
                for i, p in enumerate(c.seq.parts):
                    if eng.branch(st, eng.py_eq(st, x, p[1])):
                        return i
                raise PyRaise(ValueError)
            raise Unsupported("list.index")
        if name == "insert" and args[0] == 0:
            put(unit(args[1]) + c.seq)
            return None
        if name == "sort":
            put(sort_seq(eng, st, c.seq, kw))
            return None
        if name == "pop":
            parts = list(c.seq.parts)
            if parts and parts[-1][0] == "u" and (not args or args[0] == -1):
                put(Seq(parts[:-1]))
                return parts[-1][1]
            if parts and parts[0][0] == "u" and args and args[0] == 0:
                put(Seq(parts[1:]))
                return parts[0][1]
            if len(args) == 1:
                return pop_at(eng, st, c, args[0], put)
            raise Unsupported("list.pop")
        if name == "remove":
            parts = c.seq.parts
            if all(p[0] == "u" for p in parts):
                for i, p in enumerate(parts):
                    if eng.branch(st, eng.py_eq(st, args[0], p[1])):
                        put(Seq(parts[:i] + parts[i + 1 :]))
                        return None
                raise PyRaise(ValueError if c.kind == "list" else KeyError)
            o1 = eng.intern(st, c)
            x = eng.toV(st, args[0])
            has = bterm(eng.in_seq(st, args[0], c.seq))
            if not eng.branch(st, has):
                raise PyRaise(ValueError if c.kind == "list" else KeyError)
            t = uf(c.kind + "_remove", Obj, V, Obj)(o1, x)
            st.heap[o.id] = ListC(eng.seq_of_src(st, Src("vlist", (t,), seq_ety(c.seq))), c.kind)
            return None
        if name in ("union", "intersection", "difference", "issubset", "issuperset", "isdisjoint"):
            y = Seq()
            for a in args:
                y = y + (eng.to_seq_raw(st, a) if eng.list_kind(st, a) else eng.to_seq(st, a))
            if name == "union":
                return st.alloc(ListC(c.seq + y, "set"))
            if name == "difference":
                return st.alloc(ListC(filter_seq(eng, st, c.seq, lambda s, e: znot(bterm(eng.in_seq(s, e, y)))), "set"))
            if name == "intersection":
                return st.alloc(ListC(filter_seq(eng, st, c.seq, lambda s, e: bterm(eng.in_seq(s, e, y))), "set"))
            if name == "issubset":
                return lit(SV("b", eng.seq_all(st, c.seq, lambda s, e: bterm(eng.in_seq(s, e, y)))))
        raise Unsupported(f"{c.kind}.{name}")

    def dict_method(self, eng, st, o, c, name, args, kw):
        check_args("dict", DICT_ARGS, name, args, kw)
        if name == "get":
            d = args[1] if len(args) > 1 else None
            return get_merged(eng, st, c, args[0], d)
        if name == "items":
            return ("$view", eng.dict_items_seq(st, c))
        if name == "keys":
            return ("$keys", c) if False else ("$view", map_seq(eng, st, eng.dict_items_seq(st, c), lambda e: e[0]))
        if name == "values":
            return ("$view", map_seq(eng, st, eng.dict_items_seq(st, c), lambda e: e[1]))
        if name == "copy":
            return st.alloc(c)
        if not isinstance(o, Ref):
            raise Unsupported(f"dict.{name} of a shared dict")
        if name == "update":
            for a in args:
                eng.dict_update(st, o, a)
            for k, v in kw.items():
                eng.dict_put(st, o, k, v)
            return None
        if name == "pop":
            def miss():
                if len(args) > 1:
                    return ("$missing",)
                raise PyRaise(KeyError)
            v = eng.dict_get(st, c, args[0], miss)
            if v == ("$missing",):
                return args[1]
            st.heap[o.id] = DictC(c.base, c.ty, c.upd + unit((args[0], DEL)))
            return v
        if name == "setdefault":
            v = eng.dict_get(st, c, args[0], lambda: ("$missing",))
            if isinstance(v, tuple) and v == ("$missing",):
                eng.dict_put(st, o, args[0], args[1] if len(args) > 1 else None)
                return args[1] if len(args) > 1 else None
            return v
        if name == "clear":
            st.heap[o.id] = DictC(None, c.ty, Seq())
            return None
        raise Unsupported(f"dict.{name}")

    def file_method(self, eng, st, o, c, name, args, kw):
        check_args("file", {"write": 1, "close": 0, "flush": 0, "truncate": 1}, name, args, kw)
        if name == "write":
            v = args[0]
            s = as_strseq(v)
            if s is None:
                if kind_of(v) == "V":
                    v = eng.coerce(st, v, "s")
                    s = as_strseq(v)
                elif isinstance(v, SV) and v.ty == ("cls", "bytes"):
                    s = unit(SV("s", uf("bytes_content", Obj, S)(v.t)))
                elif isinstance(v, bytes):
                    s = unit(v.decode("latin1"))
                else:
                    raise PyRaise(TypeError)
            st.heap[o.id] = FileC(c.content + s, c.info)
            return None
        if name == "close":
            self.close_file(eng, st, o)
            return None
        if name == "flush":
            return None
        if name == "truncate" and list(args) == [0]:  # recorded as one of the operations on the file
            st.heap[o.id] = FileC(c.content + unit("\0truncate\0"), c.info)
            return None
        raise Unsupported(f"file.{name}")

    def close_file(self, eng, st, o):
        """the file's content becomes visible"""
        c = st.heap[o.id]
        if c.info[0] == "closed":
            return
        ev = st.heap[EV]
        st.heap[EV] = ListC(ev.seq + unit(("file", c.info, StrV(c.content))), ev.kind)
        st.heap[o.id] = FileC(Seq(), ("closed",))

    def open_file(self, eng, st, args, kw):
        """writing: the file is emptied at once; whether it can be opened is a function of the name and the mode"""
        names = ("file", "mode", "buffering", "encoding", "errors", "newline")
        kw = dict(zip(names, args), **kw)
        path, mode = kw.pop("file"), kw.pop("mode", "r")
        if isinstance(mode, SV) and mode.k == "s":
            mode = next((m for m in "wa" if eng.branch(st, mode.t == sval(m))), mode)
        if not isinstance(mode, str) or mode.rstrip("bt") not in ("w", "a") or kw.pop("encoding", "utf-8") != "utf-8" or set(kw) - {"newline"}:
            raise Unsupported("open with other options")
        if isinstance(path, (str, SV, StrV)) is False:
            raise Unsupported("open of another object")
        if isinstance(path, SV) and path.k == "V" and path.ty and path.ty[0] == "opt":
            path = eng.coerce(st, path, "o" if path.ty[1] != "str" else "s")
        p = eng.toV(st, self.str_of(eng, st, path))
        opts = ("b" in mode, kw.get("newline", None))
        if eng.branch(st, uf("open_fails", V, S, B)(p, sval(mode[0]))):
            raise PyRaise(OSError)
        ev = st.heap[EV]
        st.heap[EV] = ListC(ev.seq + unit(("open", SV("V", p), mode[0])), ev.kind)
        return st.alloc(FileC(Seq(), (SV("V", p), mode[0]) + opts))


STRM = {"startswith", "endswith", "split", "lower", "upper", "strip", "replace", "join", "rstrip", "lstrip", "encode", "find", "isdigit", "format", "rsplit", "title", "capitalize", "isupper", "islower"}
TEXTONLY = STRM - {"replace"}  # methods of texts that no list, dict, date or number has
DICTM = {"items", "keys", "values", "get", "copy"}
LISTM = {"index", "copy"}


def deref(eng, st, v):
    if isinstance(v, Ref):
        return st.heap[v.id]
    if isinstance(v, Frozen):
        return v.content
    if isinstance(v, SV) and v.k == "o":
        return eng.known(v.t)
    if isinstance(v, (list, dict, set, frozenset)):
        return eng.conc_content(v)
    return None


def thaw(eng, st, c):
    """content of a fresh deep copy: nested snapshots stay snapshots"""
    return c


def to_list(eng, st, v):
    seq = eng.to_seq(st, v)
    if all(p[0] == "u" for p in seq.parts):
        return [p[1] for p in seq.parts]
    return None


def seq_ety(seq):
    """the static type all elements have"""
    out = {}

    def walk(q):
        for p in q.parts:
            if p[0] == "map":
                walk(p[3])
            elif p[0] == "if":
                walk(p[2])
                walk(p[3])
            elif p[0] == "u":
                v = p[1]
                k = kind_of(v)
                t = {"s": "str", "i": "int"}.get(k) or (v.ty if k == "o" and v.ty else "V")
                out[repr(t)] = t
            else:
                out["V"] = "V"

    walk(seq)
    return next(iter(out.values())) if len(out) == 1 else "V"


def sort_seq(eng, st, seq, kw):
    if all(p[0] == "u" and is_const(p[1]) for p in seq.parts) and not kw:
        return units(sorted(p[1] for p in seq.parts))
    key = kw.get("key")
    rev = kw.get("reverse", False)
    if not isinstance(rev, bool):
        raise Unsupported("sorted(reverse)")
    o = eng.intern(st, ListC(seq))
    nm = "sorted" + ("_rev" if rev else "")
    ety = seq_ety(seq)
    if key is None:
        t = uf(nm, Obj, Obj)(o)
    else:
        s2 = st.copy()
        ks = map_call(eng, s2, key, seq)
        t = uf(nm + "_by", Obj, Obj, Obj)(o, eng.intern(s2, ListC(ks)))
    r = eng.seq_of_src(st, Src("vlist", (t,), ety))
    try:
        st.add(uf("vlen", Obj, I)(t) == as_int(eng.seq_len(st, seq)))
    except NeedHole:
        raise
    return r


def map_call(eng, st, f, seq):
    """sequence of f(x) for a pure single-outcome f"""
    out = []
    for p in eng.parts(st, seq):
        if p[0] == "u":
            out.append(("u", pure_call(eng, st, f, p[1])))
        elif p[0] == "if":
            out.append(("if", p[1], map_call(eng, st, f, p[2]), map_call(eng, st, f, p[3])))
        elif p[0] == "map":
            s2 = eng.enter_map(st, p)
            out.append(p[:3] + (map_call(eng, s2, f, p[3]),) + p[4:])
        else:
            raise NeedHole(p[1])
    return Seq(tuple(out))


def pure_call(eng, st, f, x):
    outs = eng.merge_outcomes(len(st.facts), eng.explore(st, lambda s: eng.call(s, f, [x], {})))
    if len(outs) != 1 or outs[0][1][0] != "ok":
        raise Unsupported("key function")
    return eng.freeze(outs[0][0], outs[0][1][1])


def get_merged(eng, st, c, k, d):
    """dict.get without a case split when the values can be merged"""
    if isinstance(c, DictC) and c.base is not None and not c.upd.parts and kind_of(d):
        h = eng.base_has(st, c.base, c.ty, k)
        vt = c.ty[2] if c.ty else "V"
        if vt in KIND or vt[0] == "opt":
            return eng.merge_val(simp(h), eng.base_get(st, c.base, c.ty, k), d)
    return eng.dict_get(st, c, k, lambda: d)


def py_len(eng, st, v):
    if isinstance(v, Poison):
        raise NeedHole(v.loc)
    if isinstance(v, (str, bytes, tuple, list, dict, set, frozenset)) and not (isinstance(v, tuple) and v and v[0] == "$view"):
        return len(v)
    if isinstance(v, tuple):
        r = eng.seq_len(st, v[1])
        return lit(r) if not isinstance(r, int) else r
    if isinstance(v, StrV):
        return SV("i", z3.Length(eng.strterm(st, v)))
    if isinstance(v, SV):
        if v.k == "s":
            return SV("i", z3.Length(v.t))
        if v.k == "V":
            if eng.branch(st, V.is_vs(v.t)):
                return SV("i", z3.Length(V.s(v.t)))
            return py_len(eng, st, eng.coerce(st, v, "o"))
        if v.k == "o":
            k = eng.known(v.t)
            if k is not None:
                return py_len(eng, st, Frozen(k))
            if v.ty and v.ty[0] in ("list", "set", "tuple"):
                return SV("i", uf("vlen", Obj, I)(v.t))
            if v.ty and v.ty[0] == "dict":
                return SV("i", uf("dlen", Obj, I)(v.t))
            if v.ty == ("cls", "bytes"):
                return SV("i", uf("blen", Obj, I)(v.t))
            T = eng.env.TAG
            tg = uf("tag", Obj, I)(v.t)
            if eng.branch(st, tg == T["dict"]):
                return SV("i", uf("dlen", Obj, I)(v.t))
            if eng.branch(st, z3.Or(tg == T["list"], tg == T["tuple"], tg == T["set"])):
                return SV("i", uf("vlen", Obj, I)(v.t))
            raise PyRaise(TypeError)
        raise PyRaise(TypeError)
    c = deref(eng, st, v)
    if isinstance(c, ListC):
        if c.kind == "set" and c.seq.parts:
            if len(c.seq.parts) == 1 and c.seq.parts[0][0] == "map" and c.seq.parts[0][1].kind == "vlist":
                p = c.seq.parts[0]
                if is_unit_map(p) and is_identity_map(eng, st, p) and eng.is_set(p[1].key[0]):
                    return SV("i", p[4])
            if all(p[0] == "u" and is_const(p[1]) for p in c.seq.parts):
                return len({p[1] for p in c.seq.parts})
            o = eng.intern(st, c)
            r = uf("card", Obj, I)(o)
            st.add(r >= 0)
            st.add((r > 0) == eng.nonempty(st, c.seq))
            return SV("i", r)
        r = eng.seq_len(st, c.seq)
        return r if isinstance(r, int) else lit(SV("i", simp(r.t)))
    if isinstance(c, DictC):
        ce = const_entries(c.upd) if c.base is None else None
        if ce is not None and all(z3.is_true(q[0]) for q in ce) and not any(v is DEL for _, _, v in ce):
            return len({k for _, k, _ in ce})
        if c.base is not None and not c.upd.parts:
            return SV("i", uf("dlen", Obj, I)(c.base))
        r = uf("dlen", Obj, I)(eng.intern(st, c))
        st.add(r >= 0)
        if not has_del(c.upd):
            st.add((r > 0) == bterm(eng.truth_content(st, c)))
        return SV("i", r)
    h = eng.env.iterable(eng, st, v)
    if h is not None:
        r = eng.seq_len(st, h)
        return r if isinstance(r, int) else lit(r)
    raise Unsupported(f"len of {v!r}")


def enum_seq(eng, st, seq, start):
    out = []
    off = to_term(start)
    for p in eng.parts(st, seq):
        if p[0] == "u":
            out.append(("u", (lit(SV("i", simp(off))), p[1])))
            off = simp(off + 1)
        elif p[0] == "map" and is_unit_map(p):
            out.append(p[:3] + (unit((lit(SV("i", simp(off + p[2]))), p[3].parts[0][1])),) + p[4:])
            off = simp(off + p[4])
        elif p[0] == "hole":
            raise NeedHole(p[1])
        else:
            o = eng.intern(st, ListC(seq))
            src = Src("vlist", (o,), seq_ety(seq))
            s = eng.seq_of_src(st, src)
            q = s.parts[0]
            return Seq((q[:3] + (unit((lit(SV("i", simp(to_term(start) + q[2]))), q[3].parts[0][1])),) + q[4:],))
    return Seq(tuple(out))


def join_str(eng, st, sep, seq):
    ps = list(eng.parts(st, seq))
    if all(p[0] == "u" for p in ps):
        parts = []
        for i, p in enumerate(ps):
            if i:
                parts.append(sep)
            v = p[1]
            if kind_of(v) == "V":
                v = eng.coerce(st, v, "s")
            if as_strseq(v) is None:
                raise PyRaise(TypeError)
            parts.append(v)
        return eng.concat_strs(st, parts)
    if isinstance(sep, str) and sep == "":
        def flat(seq):
            out = []
            for p in eng.parts(st, seq):
                if p[0] == "map":
                    out.append(p[:3] + (flat(p[3]),) + p[4:])
                elif p[0] == "if":
                    out.append(("if", p[1], flat(p[2]), flat(p[3])))
                elif p[0] == "u":
                    s = as_strseq(p[1])
                    if s is None:
                        raise Unsupported("join")
                    out.extend(s.parts)
                else:
                    raise NeedHole(p[1])
            return Seq(tuple(out))
        return StrV(flat(seq))
    o = eng.intern(st, ListC(seq))
    return SV("s", uf("str_join", S, Obj, S)(eng.strterm(st, sep), o))


def concat_parts(t):
    """the pieces of a concatenation of strings"""
    if z3.is_app_of(t, z3.Z3_OP_SEQ_CONCAT):
        return [p for c in t.children() for p in concat_parts(c)]
    return [t]


def pop_at(eng, st, c, i, put):
    """list.pop(i): the element at i, and the list without it"""
    i = to_term(eng.coerce(st, i, "i"))
    r = eng.seq_index(st, c.seq, i, IndexError)
    o = eng.intern(st, c)
    n = to_term(eng.coerce(st, eng.seq_len(st, c.seq), "i"))
    t = uf("list_pop", Obj, I, Obj)(o, simp(z3.If(i < 0, i + n, i)))
    put(eng.seq_of_src(st, Src("vlist", (t,), seq_ety(c.seq))))
    st.add(uf("vlen", Obj, I)(t) == n - 1)
    return r
