"""Symbolic tree nodes, node data and library objects (what the contracts assume about them)."""
import csv
import enum
import struct
import uuid
from pathlib import Path

import anytree
import pydantic
import z3
from anytree import PreOrderIter, find, findall

from pyvc import world

from . import lib
from pyvc.core import *
from pyvc.engine import *
from pyvc.interp import bterm, filter_seq
from pyvc.symcls import SymClass, opaque_method
from pyvc.values import *
from pyvc.values import V, Obj, I, B, S, R

NODE, DATA = Cls("Node"), Cls("Data")
TREE = ("parent", "children")
STRUCT = {n: TREE for n in ("path", "ancestors", "leaves", "root", "size", "height", "depth", "descendants")}
DATAATTRS = ("fqn", "instances", "is_instance", "datatype", "type", "delete", "constUID", "fka", "instantiate", "allowed", "default", "min", "max",
             "unit", "arraysize", "aggregate", "description", "comment", "deprecation")


def at(eng, st, o):
    """the node in the current tree"""
    return world.after(o, world.strip(eng.env.rules, world.cur(st), ("path",)))


def install(env):
    import vss_tools.vspec.model as model
    import vss_tools.vspec.tree as tree

    cls = [model.VSSRaw, model.VSSData, model.VSSDataBranch, model.VSSDataSensor, model.VSSDataActuator, model.VSSDataAttribute,
           model.VSSDataStruct, model.VSSDataProperty]
    for i, c in enumerate(cls):
        env.CLS[c] = 101 + i
    dt = [c for c in cls if issubclass(c, model.VSSDataDatatype)]
    vd = [c for c in cls if issubclass(c, model.VSSData)]
    br = [model.VSSDataBranch]

    def type_facts(t, o):
        v = uf("at_NodeType_value", Obj, S)(t)
        tg = uf("tag", Obj, I)(o)
        return [z3.Implies(tg == env.CLS[model.VSSDataBranch], v == "branch")]

    SymClass(env, "Data", {"fqn": Opt("str")}, {
        "type": (Cls("NodeType"), vd), "description": ("str", vd), "comment": (Opt("str"), vd), "delete": ("bool", vd),
        "deprecation": (Opt("str"), vd), "constUID": (Opt("str"), vd), "fka": (List("str"), vd), "instantiate": ("bool", vd),
        "instances": ("V", br), "aggregate": ("bool", br), "is_instance": ("bool", br),
        "datatype": ("str", dt), "arraysize": (Opt("int"), dt), "min": (Opt("num"), dt), "max": (Opt("num"), dt), "unit": (Opt("str"), dt),
        "allowed": (Opt(List("V")), dt), "default": ("V", dt),
    }, world=True, real=model.VSSDataDatatype, extra=True, tags=[env.CLS[c] for c in cls], facts={"type": type_facts},
        methods={"model_dump": model_dump})

    SymClass(env, "DT", {
        "fqn": Opt("str"), "datatype": "str", "arraysize": Opt("int"), "min": Opt("num"), "max": Opt("num"), "unit": Opt("str"),
        "allowed": Opt(List("V")), "default": "V",
    }, real=model.VSSDataDatatype)

    def value_facts(t, o):
        return [z3.Or(*[t == sval(m.value) for m in model.NodeType])]

    env.STRENUM["NodeType"] = [m.value for m in model.NodeType]
    SymClass(env, "NodeType", {"value": "str", "name": "str"}, facts={"value": value_facts})
    SymClass(env, "Node", {
        "name": "str", "data": DATA, "parent": Opt(NODE), "children": Tuple(NODE), "path": Tuple(NODE), "uuid": Opt("str"),
        "ancestors": Tuple(NODE), "leaves": Tuple(NODE), "root": NODE, "size": "int", "height": "int", "depth": "int", "descendants": Tuple(NODE),
    }, world=True, real=tree.VSSNode, props={"is_leaf": is_leaf, "is_root": is_root})
    SymClass(env, "UUID", {"hex": "str"})
    files(env)
    pure(env, uuid.uuid5, "uuid5", Cls("UUID"))
    env.rules = world.Rules(TREE, dict(STRUCT, parent=TREE, children=TREE, fqn=TREE + ("name", "data")), ("name", "data", "fqn"))
    env.readsets = {"names": ("path", "name"), "tree": ("path", "name", "data", "uuid") + DATAATTRS, "data": DATAATTRS}

    @env.lib(tree.VSSNode)
    def new_node(eng, st, args, kw):
        """a new node; reading the data may fail (contract of get_vss_raw)"""
        if kw or len(args) != 3:
            raise Unsupported("VSSNode with other arguments")
        name, fqn, data = args
        d = eng.call(st, model.get_vss_raw, [data, fqn], {})
        terms = [eng.toV(st, name), eng.toV(st, d)]
        return SV("o", world.new(eng, st, "Node", terms), NODE)

    def construct(c):
        def h(eng, st, args, kw):
            """pydantic: the object is a function of the keyword arguments (and of the registries the validators read)"""
            if args:
                raise Unsupported("positional arguments of a pydantic model")
            terms = []
            for k in sorted(kw):
                terms += [V.vs(sval(k)), eng.toV(st, kw[k])]
            for g in ("dynamic_datatypes", "dynamic_units"):
                if g in st.heap:
                    terms.append(V.vo(eng.intern(st, eng.freeze_content(st, st.heap[g]))))
            w = world.strip(env.rules, world.cur(st), env.readsets["data"])
            n = f"pyd_{c.__name__}"
            if c is not model.VSSRaw and eng.branch(st, uf(n + "_invalid", *([V] * len(terms)), B)(*terms)):
                raise PyRaise(pydantic.ValidationError)
            o = uf(n, *([V] * len(terms)), Obj)(*terms)
            st.add(uf("tag", Obj, I)(o) == env.CLS[c])
            return SV("o", o, DATA)
        return h

    SymClass(env, "Unit", {"definition": "str", "unit": Opt("str"), "quantity": "str", "allowed_datatypes": Opt(List("str"))}, real=model.VSSUnit)
    SymClass(env, "Quantity", {"definition": "str", "comment": Opt("str"), "remark": Opt("str")}, real=model.VSSQuantity)
    for c in cls:
        env.libs[c] = construct(c)
    for c, n, reg in ((model.VSSUnit, "Unit", ("dynamic_quantities", "dynamic_datatypes")), (model.VSSQuantity, "Quantity", ())):
        env.libs[c] = validated(env, c, n, reg)

    @env.lib(anytree.Node.__init__)
    def base_init(eng, st, args, kw):
        """anytree: the name is stored, the node has no parent and no children"""
        if len(args) != 2 or not (len(kw) == 0 or list(kw) == ["**"]):
            raise Unsupported("Node with other arguments")
        if kw:
            c = st.heap[kw["**"].id]
            if c.base is not None or c.upd.parts:
                raise Unsupported("Node with other arguments")
        c = st.heap[args[0].id]
        st.heap[args[0].id] = InstC(c.cls, dict(c.fields, name=args[1]))

    def node_init(eng, st, w, name):
        fixed = {"name": w.arg(0), "data": w.arg(1), "parent": V.none, "uuid": V.none}
        if name == "children":
            return V.vo(eng.intern(st, ListC(Seq(), "tuple")))
        return fixed.get(name)

    env.newinit["Node"] = node_init
    env.SRC["preorder"] = (lambda e, s: uf("pre_n", Obj, I)(s.key[0]), pre_elem)
    env.plugins.append(Plug())
    env.SRC["render"] = (env.SRC["preorder"][0], render_elem)

    @env.lib(anytree.RenderTree)
    def _render(eng, st, args, kw):
        """the nodes in the order of PreOrderIter, each with the drawing before its line and before the lines that follow"""
        if kw or len(args) != 1:
            raise Unsupported("RenderTree with a style")
        key = preorder(eng, st, args[0]).parts[0][1].key
        return ("$view", eng.seq_of_src(st, Src("render", key, NODE)))

    pure(env, Path, "Path", Cls("Path"))
    pure(env, Path.cwd, "cwd", Cls("Path"))

    @env.lib(struct.pack)
    def _pack(eng, st, args, kw):
        t, o = eng.strterm(st, args[0]), eng.intern(st, ListC(units(tuple(args[1:])), "tuple"))
        if eng.branch(st, uf("pack_fails", S, Obj, B)(t, o)):
            raise PyRaise(struct.error)
        return SV("o", uf("pack", S, Obj, Obj)(t, o), ("cls", "bytes"))

    @env.lib(csv.writer)
    def _csv(eng, st, args, kw):
        if len(args) != 1:
            raise Unsupported("csv.writer with a dialect")
        return st.alloc(InstC(csv.writer, {"file": args[0], "options": tuple((k, kw[k]) for k in sorted(kw))}))

    @env.lib(PreOrderIter)
    def _pre(eng, st, args, kw):
        if kw or len(args) != 1:
            raise Unsupported("PreOrderIter with filters")
        return ("$view", preorder(eng, st, args[0]))

    @env.lib(findall)
    def _findall(eng, st, args, kw):
        if len(args) > 2 or set(kw) - {"filter_"}:
            raise Unsupported("options of findall")
        f = kw.get("filter_", args[1] if len(args) > 1 else None)
        if f is None:
            return st.alloc(ListC(preorder(eng, st, args[0]), "tuple"))
        return eng.inline(st, env.func_of(lib.findall), [args[0], f], {})

    @env.lib(find)
    def _find(eng, st, args, kw):
        if len(args) > 2 or set(kw) - {"filter_"}:
            raise Unsupported("options of find")
        env.used.add("anytree.find: at most one node satisfies the filter")
        f = kw.get("filter_", args[1] if len(args) > 1 else None)
        seq = select(eng, st, preorder(eng, st, args[0]), f)
        if not eng.branch(st, eng.nonempty(st, seq)):
            return None
        return eng.seq_index(st, seq, z3.IntVal(0), StopIteration)


def validated(env, c, name, registries):
    """pydantic: the arguments (and the registries the validators read) decide whether there is an object, and which"""

    def h(eng, st, args, kw):
        if args:
            raise Unsupported("positional arguments of a pydantic model")
        terms = []
        for k in sorted(kw):
            terms += [V.vs(sval(k)), eng.toV(st, kw[k])]
        for g in registries:
            terms.append(V.vo(eng.intern(st, eng.freeze_content(st, st.heap[g]))))
        n = f"pyd_{c.__name__}"
        if eng.branch(st, uf(n + "_invalid", *([V] * len(terms)), B)(*terms)):
            raise PyRaise(pydantic.ValidationError)
        return eng.wrap(st, uf(n, *([V] * len(terms)), Obj)(*terms), Cls(name))

    return h


def files(env):
    """paths and the files they name; the file system does not change while a model is loaded"""
    import yaml

    import vss_tools.vspec.vspec as vspec

    P = Cls("Path")

    def m(name, ret, nargs=0, raises=()):
        def h(eng, st, o, args, kw):
            if kw or len(args) > nargs:
                raise Unsupported(f"options of {name}")
            terms = [V.vo(o.t)] + [eng.toV(st, a) for a in args]
            for e in raises:
                if eng.branch(st, uf(f"path_{name}_raises_{e.__name__}", *([V] * len(terms)), B)(*terms)):
                    raise PyRaise(e)
            return eng.wrap(st, uf(f"path_{name}{len(args)}", *([V] * len(terms)), sort_of(ret))(*terms), ret)
        return h

    def mkdir(eng, st, o, args, kw):
        if args or kw != {"parents": True, "exist_ok": True}:
            raise Unsupported("mkdir with other options")
        if eng.branch(st, uf("mkdir_fails", Obj, B)(o.t)):
            raise PyRaise(OSError)
        ev = st.heap[EV]
        st.heap[EV] = ListC(ev.seq + unit(("mkdir", o)), ev.kind)

    SymClass(env, "Path", {"parent": P, "name": "str", "stem": "str", "suffix": "str", "parts": Tuple("str")}, identity=False, methods={
        "mkdir": mkdir,
        "exists": m("exists", "bool"), "is_file": m("is_file", "bool"), "read_text": m("read_text", "str", 1, (OSError,)),
        "absolute": m("absolute", P), "resolve": m("resolve", P), "with_suffix": m("with_suffix", P, 1), "joinpath": m("joinpath", P, 1)})
    def plain(t):
        tg = uf("tag", Obj, I)(V.o(t))
        return [z3.Implies(V.is_vo(t), z3.Or(tg == env.TAG["dict"], tg == env.TAG["list"]))]

    pure(env, yaml.safe_load, "yaml_load", "V", (yaml.YAMLError,), facts=plain)
    SymClass(env, "Include", {"statement": "str", "target": "str", "prefix": Opt("str")}, real=vspec.Include)
    SymClass(env, "VSpec", {"source": P, "prefix": Opt("str"), "data": Dict("str", "V"), "includes": List(Cls("Include"))}, real=vspec.VSpec)
    pure(env, vspec.VSpec, "VSpec", Cls("VSpec"), (OSError, yaml.YAMLError, vspec.IncludeStatementException, AttributeError))


def writer(env, f, name, data, file):
    """a library function that writes text to an open file: a function of its other arguments"""

    @env.lib(f)
    def h(eng, st, args, kw):
        args, kw = list(args), dict(kw)
        r = args.pop(file) if len(args) > file else None
        if not (isinstance(r, Ref) and isinstance(st.heap[r.id], FileC)):
            raise Unsupported(f"{name} to something else")
        c = st.heap[r.id]
        terms = [eng.toV(st, a) for a in args]
        for k in sorted(kw):
            terms += [V.vs(sval(k)), eng.toV(st, kw[k])]
        t = uf(f"text_{name}", *([V] * len(terms)), S)(*terms)
        st.heap[r.id] = FileC(c.content + unit(SV("s", t)), c.info)


def pure(env, f, name, ret, raises=(), facts=None):
    """a library function known only as a function of its arguments"""

    @env.lib(f)
    def h(eng, st, args, kw):
        terms = [eng.toV(st, a) for a in args] + [eng.toV(st, kw[k]) for k in sorted(kw)]
        tag = f"lib_{name}_{len(args)}_{'_'.join(sorted(kw))}"
        for e in raises:
            if eng.branch(st, uf(f"{tag}_raises_{e.__name__}", *([V] * len(terms)), B)(*terms)):
                raise PyRaise(e)
        t = uf(tag, *([V] * len(terms)), sort_of(ret))(*terms)
        for x in facts(t) if facts else ():
            st.add(x)
        return eng.wrap(st, t, ret)


def select(eng, st, seq, f):
    def pred(s, x):
        outs = eng.merge_outcomes(len(s.facts), eng.explore(s, lambda q: eng.truth(q, eng.call(q, f, [x], {}))))
        ok = [(q, c) for q, c in outs if c[0] == "ok"]
        if len(outs) != 1 or len(ok) != 1:
            conds = []
            for q, c in outs:
                if c[0] != "ok":
                    raise Unsupported("filter that may raise")
                pc = zand([t for tag, t in q.facts[len(s.facts):] if tag == "pc"])
                conds.append(zand([pc, bterm(c[1])]))
            return zor(conds)
        return bterm(ok[0][1][1])

    return filter_seq(eng, st, seq, pred)


def preorder(eng, st, o):
    if isinstance(o, SV) and o.k == "V":
        o = eng.coerce(st, o, "o")
    if not (isinstance(o, SV) and o.k == "o"):
        raise Unsupported("traversal of a new node")
    t = at(eng, st, o.t)
    st.add(uf("pre_n", Obj, I)(t) >= 1)
    st.add(uf("pre_e", Obj, I, Obj)(t, z3.IntVal(0)) == o.t)
    return eng.seq_of_src(st, Src("preorder", (t,), NODE))


def pre_elem(eng, st, src, i):
    return eng.wrap(st, uf("pre_e", Obj, I, Obj)(src.key[0], i), NODE)


def render_elem(eng, st, src, i):
    o = src.key[0]
    return (SV("s", uf("render_pre", Obj, I, S)(o, i)), SV("s", uf("render_fill", Obj, I, S)(o, i)), pre_elem(eng, st, src, i))


def is_leaf(eng, st, o):
    from pyvc.models import py_len

    n = py_len(eng, st, eng.get_attr(st, o, "children"))
    return lit(SV("b", simp(as_int(n) == 0)))


def is_root(eng, st, o):
    return lit(SV("b", simp(bterm(eng.is_(st, eng.get_attr(st, o, "parent"), None)))))


def as_int(x):
    return z3.IntVal(x) if isinstance(x, int) else x.t


def model_dump(eng, st, o, args, kw):
    """pydantic: the fields and extra attributes as JSON-like values; with exclude: without those"""
    mode = kw.get("mode", "python")
    ex = kw.get("exclude")
    rest = {k: v for k, v in kw.items() if k not in ("mode", "exclude", "exclude_none")}
    if rest or args or kw.get("exclude_none") not in (None, False):
        raise Unsupported("model_dump options")
    terms = [eng.toV(st, o), eng.toV(st, mode)] + ([] if ex is None else [eng.toV(st, ex)])
    if o.ty == DATA:
        w = world.strip(eng.env.rules, world.cur(st), eng.env.readsets["data"])
        if not w.eq(world.W0):
            terms.append(V.vo(w))
    t = uf(f"model_dump{len(terms)}", *([V] * len(terms)), Obj)(*terms)
    return eng.wrap(st, t, Dict("str", "V"))


class Plug:
    def method(self, eng, st, o, name, args, kw):
        c = st.heap[o.id] if isinstance(o, Ref) else None
        if not isinstance(c, InstC) or c.cls is not csv.writer:
            return NotImplemented
        if name == "writerows":
            return eng.inline(st, eng.env.func_of(lib.writerows), [o] + list(args), kw)
        if name != "writerow":
            raise Unsupported(f"csv writer: {name}")
        r = c.fields["file"]
        f = st.heap[r.id]
        t = uf("text_csv", V, V, S)(eng.toV(st, args[0]), eng.toV(st, c.fields["options"]))
        st.heap[r.id] = FileC(f.content + unit(SV("s", t)), f.info)
        return None

    def truediv(self, eng, st, a, b):
        if isinstance(a, SV) and a.ty == ("cls", "Path") or isinstance(b, SV) and b.ty == ("cls", "Path"):
            return SV("o", uf("path_join", V, V, Obj)(eng.toV(st, a), eng.toV(st, b)), ("cls", "Path"))
        return None

    def str_of(self, eng, st, v):
        if isinstance(v, SV) and v.k == "o" and v.ty and v.ty[0] == "cls":
            if v.ty[1] == "NodeType":
                return SV("s", uf("str_NodeType", S, S)(uf("at_NodeType_value", Obj, S)(v.t)))
            real = eng.env.classes[v.ty[1]].real
            if real is not None and "__str__" in vars(real):
                return eng.call(st, eng.class_attr(st, real, "__str__", v), [], {})
            return SV("s", uf("py_str_" + v.ty[1], Obj, S)(v.t))
        return None
