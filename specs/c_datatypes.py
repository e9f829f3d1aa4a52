"""Contracts of vss_tools.vspec.datatypes and vss_tools.vspec.utils.idgen_utils."""
from pyvc.engine import Cls
from pyvc.values import *

from . import s_datatypes as D
from .registry import add

M = "vss_tools.vspec.datatypes:"
U = "vss_tools.vspec.utils.idgen_utils:"


def gen_value(rng):
    b = rng.choice([8, 16, 32, 64])
    edge = rng.choice([0, 2**b, -(2**(b - 1)), 2**(b - 1), 2**b - 1]) + rng.choice([-1, 0, 1])
    v = rng.choice([edge, edge, 1.5, "x", None, True, float(edge), [], [edge], [edge, 0], [0, edge], ["a"], ["a", 1], [1.0], [1.0, 2], [True], [True, "a"]])
    return (v,)


NAMES = [x + y for x in D.SCALARS + ("Types.A", "", "uint", "int128") for y in ("", "[]", "[][]")]


def register(env, missing):
    import vss_tools.vspec.datatypes as real

    env.add_global("dynamic_datatypes", real.dynamic_datatypes, runner_mut(("set", "str"), "dynamic_datatypes"))
    for w in (8, 16, 32, 64):
        for s in ("u", ""):
            n = f"is_{s}int{w}"
            add(env, missing, M + n, getattr(D, n), {"value": "V"}, "C06 C07", gen=gen_value)
    for n in ("is_bool", "is_string", "is_float", "is_numeric"):
        add(env, missing, M + n, getattr(D, n), {"value": "V"}, "C06 C07", gen=gen_value)
    add(env, missing, M + "Datatypes.is_datatype", D.in_domain, {"value": "V", "datatype": "str"}, "C06 C07",
        gen=lambda r: (gen_value(r)[0], r.choice(NAMES)), indep=True, mode="opaque", ret="bool", raises=(D.DatatypesException,))
    add(env, missing, M + "Datatypes.is_subtype_of", D.is_subtype_of, {"check": "str", "base": "str"}, "C06 C08",
        gen=lambda r: (r.choice(NAMES), r.choice(NAMES)), mode="opaque", ret="bool", raises=(D.DatatypesException,))
    add(env, missing, M + "is_array", D.is_array, {"datatype": "str"}, "C07 C09 C19")
    add(env, missing, M + "get_fqn_namespaced_datatypes", D.get_fqn_namespaced_datatypes, {"fqn": Opt("str")}, "C09", mode="opaque", ret=Dict("str", "str"),
        reads=("dynamic_datatypes",))
    add(env, missing, M + "resolve_datatype", D.resolve_datatype, {"datatype": "str", "fqn": Opt("str")}, "C09")
    add(env, missing, U + "fnv1_32_hash", D.fnv1_32_hash, {"identifier": Cls("bytes")}, "C15 C16",
        gen=lambda r: (bytes(r.randrange(256) for _ in range(r.randint(0, 12))),))
    add(env, missing, U + "get_node_identifier_bytes", D.get_node_identifier_bytes,
        {"qualified_name": "str", "data_type": "V", "node_type": "V", "unit": "V", "allowed": "V", "minimum": "V", "maximum": "V", "strict_mode": "bool"},
        "C15 C16", gen=gen_ident)
    add(env, missing, U + "fnv1_32_wrapper", D.fnv1_32_wrapper, {"name": "str", "source": Dict("str", "V"), "strict_mode": "bool"}, "C15 C16", gen=gen_wrap)


def runner_mut(ty, name):
    from pyvc import runner

    def make(eng, st):
        r = runner.Mut(ty)(eng, st, name)
        return st.heap.pop(r.id)

    make.ty = ty
    return make


def gen_ident(r):
    c = r.choice
    return (c(["A", "A.b", "É.x"]), c(["uint8", "", "string[]"]), c(["sensor", "branch"]), c(["", "km", "mm"]), c(["", [1, 2], ["A"]]),
            c([None, 0, 1, -1.5, False]), c([None, 0, 5, 2.5]), c([True, False]))


def gen_wrap(r):
    d = {}
    for k, vs in {"allowed": [["A", "b"], "", [1]], "min": [0, None, -3], "max": [0, None, 7.5], "datatype": ["uint8", "String"], "type": ["sensor"],
                  "unit": ["km", ""], "description": ["x"]}.items():
        if r.random() < 0.6:
            d[k] = r.choice(vs)
    return (r.choice(["A", "A.b", "Veh.X"]), d, r.random() < 0.5)
