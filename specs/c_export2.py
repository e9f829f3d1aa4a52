"""Contracts of the exporters to interface languages."""
from graphql import GraphQLError

from pyvc import runner
from pyvc.engine import Cls
from pyvc.values import *
from pyvc.values import Obj

from . import s_export2 as S
from .c_datatypes import runner_mut
from .c_export import COMMON
from .registry import add, split_by

NODE, DATA, PATH = Cls("Node"), Cls("Data"), Cls("Path")


def graphql_objects(env):
    """graphql-core: types, fields and arguments are functions of what they are made from, the printed schema of its query type"""
    import graphql as g

    from pyvc.core import uf
    from .objects import pure

    STRUCTURAL.append((g.GraphQLList, lambda x: uf("gql_list", Obj, Obj)(pyobj_term(x.of_type))))
    for c, name, raises in ((g.GraphQLField, "GqlField", (TypeError,)), (g.GraphQLArgument, "GqlArgument", ()), (g.GraphQLNonNull, "GqlNonNull", ()),
                            (g.GraphQLObjectType, "GqlType", (GraphQLError,)), (g.GraphQLSchema, "GqlSchema", (TypeError,))):
        pure(env, c, name, Cls(name), raises)
    pure(env, g.print_schema, "print_schema", "str")
    made = env.libs[g.GraphQLObjectType]

    @env.lib(g.GraphQLObjectType)
    def object_type(eng, st, args, kw):
        """fields given as a function: what the function returns (asked for when the schema is made); its failure becomes a TypeError"""
        args = list(args)
        if len(args) > 1 and isinstance(args[1], Func):
            try:
                args[1] = eng.call(st, args[1], [], {})
            except PyRaise as e:
                raise e if issubclass(e.cls, GraphQLError) else PyRaise(TypeError)
        return made(eng, st, args, kw)


def go_objects(env, go):
    """what the structs hold"""
    from pyvc.symcls import SymClass

    c = lambda n, fields, real: SymClass(env, n, fields, real=real, world=True)
    c("GoMember", {"name": "str", "datatype": "str"}, go.GoStructMember)
    c("GoStruct", {"name": "str", "members": List(Cls("GoMember"))}, go.GoStruct)
    env.readsets["structs"] = ("name", "members", "datatype")


def gear_objects(env, gear):
    """what a module holds, as generate_module finds it"""
    from pyvc.symcls import SymClass

    c = lambda n, fields, real: SymClass(env, n, fields, real=real)
    c("GearType", {"type": "str", "is_array": "bool"}, gear.ApiGearType)
    c("GearProperty", {"type": Cls("GearType"), "description": Opt("str")}, gear.ApiGearProperty)
    c("GearInterface", {"name": "str", "properties": Dict("str", Cls("GearProperty"))}, gear.ApiGearInterface)
    c("GearStructure", {"name": "str", "properties": Dict("str", Cls("GearProperty"))}, gear.ApiGearStructure)
    c("GearEnumeration", {"name": "str", "variants": List(Fix("str", Opt("int")))}, gear.ApiGearEnumeration)
    c("GearModule", {"interfaces": List(Cls("GearInterface")), "enumerations": List(Cls("GearEnumeration")),
                     "structures": List(Cls("GearStructure"))}, gear.ApiGearModule)


def register(env, missing):
    import vss_tools.vspec.tree as tree
    import vss_tools.vspec.vssexporters.vss2apigear as gear
    import vss_tools.vspec.vssexporters.vss2ddsidl as ddsidl
    import vss_tools.vspec.vssexporters.vss2go as go
    from vss_tools.vspec.vssexporters.vss2go import NoInstanceRootException
    from vss_tools.vspec.vssexporters.vss2graphql import GraphQLFieldException

    graphql_objects(env)

    def a(m, q, spec, params, props, **kw):
        return add(env, missing, f"vss_tools.vspec.vssexporters.{m}:{q}", spec, params, props, **kw)

    p = "vss2protobuf"
    uid = (AttributeError, ValueError, SystemExit)
    two = {"static_uid": "bool", "add_optional": "bool"}
    a(p, "init_package_file", S.proto_package, {"path": PATH, "package_name": "str"}, "C20")
    a(p, "write_imports", S.proto_imports, {"fd": runner.File, "imports": List("str")}, "C20")
    a(p, "print_messages", S.proto_fields, dict({"nodes": Tuple(NODE), "fd": runner.File}, **two), "C20", indep=True)
    a(p, "traverse_signal_tree", S.proto_signals, dict({"tree": NODE, "fd": runner.File}, **two), "C20", indep=True, mode="opaque", ret=None,
      mutates=("fd",), reads=("tree",), raises=uid, exit_code=-1)
    a(p, "traverse_data_type_tree", S.proto_structs, dict({"tree": NODE}, **two, out_dir="V"), "C20", indep=True, mode="opaque", ret=None,
      effect=True, reads=("tree",), raises=uid + (OSError,), exit_code=-1)
    a(p, "cli", S.proto_cli, dict({k: v for k, v in COMMON.items() if k not in ("uuid", "expand")}, types_out_dir=Opt("str"), **two), "C20", indep=True)
    g = "vss2go"
    a(g, "get_instance_root", S.go_instance_root, {"root": NODE, "depth": "int"}, "C21", mode="opaque", ret=[NODE, "int"], reads=("tree",),
      raises=(NoInstanceRootException,))
    MAP = Dict("str", "str")
    a(g, "add_children_map_entries", S.go_children_entries, {"root": NODE, "fqn": "str", "replace": "str", "map": runner.Mut(MAP)}, "C21",
      mode="opaque", ret=None, mutates=("map",), reads=("tree",))
    a(g, "get_instance_mapping", S.go_instance_mapping, {"root": Opt(NODE)}, "C21", mode="opaque", ret=MAP, reads=("tree",), fresh=True,
      raises=(NoInstanceRootException,))
    a(g, "get_datatype", S.go_datatype, {"node": NODE}, "C21")
    a(g, "get_struct_name", S.go_struct_name, {"fqn": "str", "map": MAP}, "C21")
    go_objects(env, go)
    STRUCTS = Dict("str", Cls("GoStruct"))
    a(g, "get_go_structs", S.go_structs, {"root": Opt(NODE), "map": MAP, "type_tree": "bool"}, "C21", mode="opaque", ret=STRUCTS, fresh=True,
      reads=("tree",))
    a(g, "get_prefixes", S.go_prefixes, {"structs": STRUCTS}, "C21", mode="opaque", ret=List("str"), fresh=True, reads=("structs",),
      raises=(TypeError,))
    a(g, "get_prefix_strip_conflicts", S.go_conflicts, {"prefix": "str", "structs": STRUCTS}, "C21", mode="opaque", ret="int", reads=("structs",))
    a(g, "strip_structs_prefix", S.go_strip, {"prefix": "str", "structs": STRUCTS}, "C21", mode="opaque", ret="int", writes=True)
    a(g, "cli", S.go_cli, dict({k: v for k, v in COMMON.items() if k not in ("expand", "uuid")}, package="str", short_names="bool"), "C21", indep=True)
    a(g, "is_only_instance", S.go_only_instance, {"s": "str"}, "C21")
    q = "vss2graphql"
    bad = (tree.NoVSSDataException, GraphQLError, TypeError, AttributeError)
    for n, f in (("camel_back", S.camel_back), ("camel_case", S.camel_case)):
        add(env, missing, f"vss_tools.vspec.utils.misc:{n}", f, {"st": "str"}, "C23 C27")
    extra = {"additional_leaf_fields": Tuple(Tuple("str"))}
    a(q, "field", S.gql_field, {"node": NODE, "description_prefix": "str", "type": "V"}, "C23")
    a(q, "leaf_fields", S.gql_leaf, dict({"node": NODE}, **extra), "C23", indep=True, requires=S.gql_signal)
    a(q, "branch_fields", S.gql_branch, dict({"node": NODE}, **extra), "C23")
    a(q, "to_gql_type", S.gql_type, dict({"node": NODE}, **extra), "C23", mode="opaque", ret=Cls("GqlType"), reads=("tree",),
      raises=bad + (KeyError, GraphQLFieldException))
    a(q, "get_schema_from_tree", S.gql_schema, dict({"root": NODE}, **extra), "C23")
    gone = ("uuid", "expand", "types")
    a(q, "cli", S.gql_cli, dict({k: v for k, v in COMMON.items() if k not in gone}, gql_fields=Tuple("str")), "C23", indep=True)
    d = "vss2ddsidl"
    env.add_global("idl_file_buffer", ddsidl.idl_file_buffer, runner_mut(List("str"), "idl_file_buffer"))
    two = {"generate_uuid": "bool", "generate_all_idl_features": "bool"}
    a(d, "getAllowedName", S.idl_name, {"name": "str"}, "C24", mode="opaque", ret="str")
    a(d, "get_allowed_enum_literal", S.idl_literal, {"name": "str"}, "C24")
    a(d, "export_node", S.idl_node, dict({"node": NODE}, **two), "C24", mode="opaque", ret=None, mutates=("idl_file_buffer",),
      reads=("tree", "idl_file_buffer"), raises=(tree.NoVSSDataException, AttributeError, TypeError, IndexError, KeyError), indep=True,
      requires=S.branch_or_signal, given="the nodes of the signal tree are branches and signals",
      cases=split_by(S.is_branch, S.is_enum, S.is_list))
    exporter = runner.Inst(ddsidl.StructExporter, str_buf="str", structs_seen=runner.Mut(List("str")))
    a(d, "StructExporter.export_data_type_node", S.idl_struct, {"self": exporter, "node": NODE}, "C24", mode="opaque", ret=None, mutates=("self",),
      reads=("tree",), raises=(AttributeError, TypeError, ValueError), indep=True)
    a(d, "StructExporter.export", S.idl_structs, {"self": exporter, "root": NODE}, "C24")
    a(d, "export_idl", S.idl_write, {"file": runner.File, "root": NODE, "generate_uuids": "bool", "generate_all_idl_features": "bool"}, "C24")
    a(d, "cli", S.idl_cli, dict({k: v for k, v in COMMON.items() if k != "expand"}, all_idl_features="bool"), "C24", indep=True)
    k = "vss2apigear"
    gear_objects(env, gear)
    add_ = lambda n, f, ps, **kw: a(k, n, f, ps, "C27", **kw)
    add_("starts_with_number", S.gear_number_start, {"name": "str"})
    add_("hex_to_dec", S.gear_value, {"number": "str"})
    add_("get_allowed_enum_literal", S.gear_literal, {"name": "str"})
    add_("get_apigear_datatype", S.gear_type, {"t": "str"})
    add_("node_name", S.gear_name, {"node": NODE})
    add_("generate_property", S.gear_property, {"node": NODE, "datatype": "str"})
    add_("export_yaml", S.gear_yaml, {"file_name": PATH, "content_dict": Dict("str", "V")})
    add_("generate_module", S.gear_module, {"directory": PATH, "module": Cls("GearModule"), "module_name": "str", "module_filename": "str"})
    module = runner.Inst(gear.ApiGearModule, interfaces=runner.Mut(List(Cls("GearInterface"))), enumerations=runner.Mut(List(Cls("GearEnumeration"))),
                         structures=runner.Mut(List(Cls("GearStructure"))))
    props = runner.Mut(Dict("str", Cls("GearProperty")))
    bad = (tree.NoVSSDataException, AttributeError, TypeError, IndexError, KeyError)
    ghost = lambda f, ps, ret, **kw: add(env, missing, f"specs.s_export2:{f.__name__}", f, ps, "C27", mode="opaque", ret=ret, reads=("tree",), raises=bad, **kw)
    ghost(S.gear_all, {"node": NODE, "owned": "bool"}, [List(Cls("GearInterface")), List(Cls("GearEnumeration"))])
    add_("export_node", S.gear_node, {"node": NODE, "module": module, "interface": runner.Const(None)}, folded=S.gear_below, scrap=("module", "interface"),
         requires=S.gear_signal, given="the nodes of the signal tree are branches and signals",
         variants=[{}, {"interface": runner.Inst(gear.ApiGearInterface, name="str", properties=props)}])
    ghost(S.gear_structs, {"node": NODE}, List(Cls("GearStructure")))
    add_("export_data_type_node", S.gear_type_node, {"node": Opt(NODE), "module": module, "structure": runner.Const(None)}, folded=S.gear_type_below,
         scrap=("module", "structure"), variants=[{}, {"structure": runner.Inst(gear.ApiGearStructure, name="str", properties=props)}])
    LAYERS = Dict("V", PATH)
    some = [[k for i, k in enumerate(S.GEAR_LAYERS) if n >> i & 1] for n in range(16)]
    add_("generate_solution", S.gear_solution, {"directory": PATH, "module_filename": "str", "module_name": "str", "layers": LAYERS}, requires=S.gear_layers,
         given="the layers are some of the four, in the order of the options", variants=[{"layers": runner.Items(PATH, *ks)} for ks in some])
    add_("export_apigear", S.gear_export, {"directory": PATH, "root": NODE, "data_type_tree": Opt(NODE), "layers": LAYERS})
    add_("cli", S.gear_cli, dict({k: v for k, v in COMMON.items() if k not in ("expand", "output")}, output_dir=PATH, **{f"apigear_template_{k}_path": Opt(PATH) for k in ("unreal", "cpp", "qt5", "qt6")}))
