"""Specifications of the exporters to interface languages."""
import keyword
import re
from math import inf
from pathlib import Path

import yaml

from anytree import PreOrderIter, findall
from graphql import GraphQLArgument, GraphQLBoolean, GraphQLField, GraphQLFloat, GraphQLInt, GraphQLList, GraphQLNonNull, GraphQLObjectType
from graphql import GraphQLSchema, GraphQLString, print_schema
from vss_tools.vspec.datatypes import Datatypes, is_array
from vss_tools.vspec.main import get_trees
from vss_tools.vspec.model import VSSDataBranch, VSSDataDatatype, VSSDataStruct
from vss_tools.vspec.vssexporters.vss2apigear import ApiGearEnumeration, ApiGearInterface, ApiGearModule, ApiGearProperty, ApiGearStructure, ApiGearType, SolutionLayers
from vss_tools.vspec.vssexporters.vss2ddsidl import StructExporter, idl_file_buffer
from vss_tools.vspec.vssexporters.vss2go import GoStruct, GoStructMember, NoInstanceRootException
from vss_tools.vspec.vssexporters.vss2graphql import GraphQLFieldException

from .s_export import getattr_nn

# ------------------------------------------------------------ protobuf
PROTO_TYPES = {"uint8": "uint32", "uint16": "uint32", "int8": "int32", "int16": "int32", "boolean": "bool"}


def proto_package(path, package_name):
    with open(path, "w") as f:
        f.write('syntax = "proto3";\n\n')
        f.write(f"package {package_name};\n\n")


def proto_imports(fd, imports):
    """each import once, in order"""
    for i in sorted(set(imports)):
        fd.write(f'import "{i}";\n')
    fd.write("\n")


def proto_fields(nodes, fd, static_uid, add_optional):
    """one field per node; numbered by position, or by the static identifier, which must be there, unreserved and unique"""
    used = {}
    for i, n in enumerate(nodes, 1):
        if isinstance(n.data, VSSDataDatatype):
            t = n.data.datatype
            base = t.strip("[]")
            ty = PROTO_TYPES.get(base, base)
            if t.endswith("[]"):
                ty = "repeated " + ty
            elif add_optional:
                ty = "optional " + ty
        else:
            ty = n.get_fqn("")
            if add_optional:
                ty = "optional " + ty
        if static_uid:
            if "staticUID" not in n.data.get_extra_attributes():
                exit(-1)
            number = int(int(str(getattr(n.data, "staticUID")), 0) / 8)
            if 19000 <= number < 20000:
                exit(-1)
            if number in used:
                fd.truncate(0)
                exit(-1)
            used[number] = n.get_fqn()
        else:
            number = i
        fd.write(f"  {ty} {n.name} = {number};\n")


def proto_signals(tree, fd, static_uid, add_optional):
    """the packages of the struct types in use, then a message per branch"""
    fd.write('syntax = "proto3";\n\n')
    imports = []
    for n in findall(tree, filter_=lambda n: isinstance(n.data, VSSDataDatatype)):
        if "." in n.data.datatype:
            p = Path(n.data.datatype.replace(".", "/"))
            imports.append(f"{p.parent}/{p.parent.name}.proto")
    proto_imports(fd, imports)
    for n in findall(tree, filter_=lambda n: isinstance(n.data, VSSDataBranch)):
        fd.write(f"message {n.get_fqn('')} {{\n")
        proto_fields(n.children, fd, static_uid, add_optional)
        fd.write("}\n\n")


def proto_structs(tree, static_uid, add_optional, out_dir):
    """a message per struct, in the file of its branch, which starts with its package and imports each other file once"""
    written = {}
    for n in findall(tree, filter_=lambda n: isinstance(n.data, VSSDataStruct)):
        path = Path(n.get_fqn("/"))
        package = out_dir / path.parent
        package.mkdir(parents=True, exist_ok=True)
        out = package / f"{package.name}.proto"
        if out not in written:
            proto_package(out, ".".join(path.parent.parts))
            written[out] = set()
        with open(out, "a") as f:
            imports = []
            for c in findall(n, filter_=lambda n: isinstance(n.data, VSSDataDatatype)):
                if "." in c.data.datatype:
                    p = Path(c.data.datatype.replace(".", "/"))
                    if p.parent != path.parent:
                        imports.append(f"{p.parent}/{p.parent.name}.proto")
            proto_imports(f, [i for i in imports if i not in written[out]])
            written[out].update(imports)
            f.write(f"message {path.name} {{\n")
            proto_fields(n.children, f, static_uid, add_optional)
            f.write("}\n\n")


def proto_cli(vspec, output, include_dirs, extended_attributes, strict, aborts, overlays, quantities, units, types, types_out_dir, static_uid, add_optional):
    tree, types_tree = get_trees(vspec=vspec, include_dirs=include_dirs, aborts=aborts, strict=strict, extended_attributes=extended_attributes,
                                 quantities=quantities, units=units, types=types, overlays=overlays)
    if types_tree:
        if not types_out_dir:
            types_out_dir = Path.cwd()
        proto_structs(types_tree, static_uid, add_optional, types_out_dir)
    with open(output, "w") as f:
        proto_signals(tree, f, static_uid, add_optional)


# ------------------------------------------------------------ Go
GO_TYPES = {f"{u}int{n}[]": f"[]{u}int{n}" for n in (8, 16, 32, 64) for u in ("", "u")}
GO_TYPES.update({"float": "float32", "float[]": "[]float32", "double": "float64", "double[]": "[]float64", "numeric": "float64",
                 "numeric[]": "[]float64", "string[]": "[]string", "boolean": "bool", "boolean[]": "[]bool"})


def go_instance_root(root, depth=1):
    """the branch that is instantiated, and how many levels of instances lie between"""
    if root.parent is None:
        raise NoInstanceRootException()
    if not isinstance(root.parent.data, VSSDataBranch):
        raise NoInstanceRootException()
    if root.parent.data.is_instance:
        return go_instance_root(root.parent, depth + 1)
    return root.parent, depth


def go_children_entries(root, fqn, replace, map):
    for c in root.children:
        name = c.get_fqn()
        map[name] = replace + name[len(fqn):]
        go_children_entries(c, fqn, replace, map)


def go_instance_mapping(root):
    """an instance is named after its branch and level, what is below it after the branch"""
    if root is None:
        return {}
    r = {}
    for n in PreOrderIter(root):
        if isinstance(n.data, VSSDataBranch) and n.data.is_instance:
            base, depth = go_instance_root(n)
            name = base.get_fqn() + ".I" + str(depth)
            fqn = n.get_fqn()
            r[fqn] = name
            go_children_entries(n, fqn, base.get_fqn(), r)
    return r


def go_datatype(node):
    """Go's name of the data type, [] in front for lists"""
    if not isinstance(node.data, VSSDataDatatype):
        return None
    t = node.data.datatype
    if t in GO_TYPES:
        return GO_TYPES[t]
    return "[]" + t.rstrip("[]") if is_array(t) else t.rstrip("[]")


def go_struct_name(fqn, map):
    return map[fqn] if fqn in map else fqn


def go_only_instance(s):
    return re.match(r"^I\d+$", s) is not None


def go_member(node, map):
    """the Go type of the datatype, or the struct of the branch"""
    return GoStructMember(node.name, go_datatype(node) or go_struct_name(node.get_fqn(), map))


def go_structs(root, map, type_tree=False):
    """a struct per branch (of the signals) and per struct type, by name"""
    r = {}
    if root is not None:
        for n in PreOrderIter(root):
            if isinstance(n.data, VSSDataStruct) or (isinstance(n.data, VSSDataBranch) and not type_tree):
                s = GoStruct(go_struct_name(n.get_fqn(), map))
                s.members = [go_member(c, map) for c in n.children]
                r[s.name] = s
    return r


def go_prefixes(structs):
    """the first components of the names that have several, in order"""
    r = {}
    for s in structs.values():
        parts = s.name.split(".")
        if len(parts) > 1:
            r[parts[0]] = r[parts[0]] + 1 if parts[0] in r else 1
    return list(r)


def go_rest(name):
    return ".".join(name.split(".")[1:])


def go_strips(name, prefix):
    parts = name.split(".")
    return len(parts) > 1 and parts[0] == prefix and not go_only_instance(go_rest(name))


def go_stripped(name, prefix):
    """without the prefix, unless nothing but an instance would be left"""
    return go_rest(name) if go_strips(name, prefix) else name


def go_conflicts(prefix, structs):
    """how many names fewer there are without the prefix"""
    names = [go_stripped(s.name, prefix).replace(".", "") for s in structs.values()]
    return len(names) - len(set(names))


def go_strip(prefix, structs):
    """names lose the prefix, and so do the references to them"""
    stripped = 0
    for s in structs.values():
        if go_strips(s.name, prefix):
            s.name = go_rest(s.name)
            stripped += 1
        for m in s.members:
            parts = m.datatype.split(".")
            if len(parts) > 1 and parts[0].lstrip("[]") == prefix and not go_only_instance(go_rest(m.datatype)):
                m.datatype = ("[]" if parts[0].startswith("[]") else "") + go_rest(m.datatype)
    return stripped


def go_round(structs):
    stripped = 0
    for p in go_prefixes(structs):
        if go_conflicts(p, structs) == 0:
            stripped += go_strip(p, structs)
    return stripped


def go_text(s):
    return "type " + s.name.replace(".", "") + " struct {\n" + "".join(["\t" + m.name + " " + m.datatype.replace(".", "") + "\n" for m in s.members]) + "}\n"


def go_cli(vspec, output, include_dirs, extended_attributes, strict, aborts, overlays, quantities, units, types, package, short_names):
    """prefixes are taken off as long as that merges no names"""
    tree, types_tree = get_trees(vspec=vspec, include_dirs=include_dirs, aborts=aborts, strict=strict, extended_attributes=extended_attributes,
                                 quantities=quantities, units=units, types=types, overlays=overlays)
    names = go_instance_mapping(tree)
    structs = go_structs(tree, names)
    structs.update(go_structs(types_tree, names, True))
    if short_names:
        while go_round(structs) != 0:
            pass
    with open(output, "w") as f:
        f.write("package " + package + "\n\n")
        for s in structs.values():
            f.write(go_text(s))


# ------------------------------------------------------------ GraphQL
GQL_TYPES = {f"{u}int{n}": GraphQLInt if n < 32 or (n == 32 and not u) else GraphQLFloat for n in (8, 16, 32, 64) for u in ("", "u")}
GQL_TYPES.update({"float": GraphQLFloat, "double": GraphQLFloat, "numeric": GraphQLFloat, "boolean": GraphQLBoolean, "string": GraphQLString})
GQL_TYPES.update({k + "[]": GraphQLList(v) for k, v in GQL_TYPES.items()})


def camel_back(st):
    """the words of the name (cut before capitals and at underscores) in lower case, a capital at the start of all but the first"""
    cut = re.sub("(.)([A-Z][a-z]+)", r"\1_\2", st)
    cut = re.sub("([a-z0-9])([A-Z])", r"\1_\2", cut).lower()
    return re.sub(r"_([a-z])", lambda m: m.group(1).upper(), cut)


def camel_case(st):
    cut = re.sub("(.)([A-Z][a-z]+)", r"\1_\2", st)
    cut = re.sub("([a-z0-9])([A-Z])", r"\1_\2", cut).lower()
    return re.sub(r"(?:^|_)([a-z])", lambda m: m.group(1).upper(), cut)


def gql_field(node, description_prefix="", type=GraphQLString):
    """described with the node's description"""
    d = node.get_vss_data()
    return GraphQLField(type, deprecation_reason=d.deprecation, description=f"{description_prefix}{d.description}")


def gql_signal(node, additional_leaf_fields):
    return isinstance(node.data, VSSDataDatatype)


def gql_leaf(node, additional_leaf_fields):
    """the value with its type, the time, the fields asked for, the unit"""
    r = {}
    t = getattr(node.data, "datatype", None)
    if t is not None:
        r["value"] = gql_field(node, "Value: ", GQL_TYPES[t])
    r["timestamp"] = gql_field(node, "Timestamp: ")
    for a in additional_leaf_fields:
        if len(a) != 2:
            raise GraphQLFieldException()
        r[a[0]] = gql_field(node, f" {a[1]}: ")
    if getattr(node.data, "unit", None):
        r["unit"] = gql_field(node, "Unit of ")
    return r


def gql_branch(node, additional_leaf_fields):
    """a field per child, without branches that have no children"""
    return {camel_back(c.name): gql_field(c, type=gql_type(c, additional_leaf_fields)) for c in node.children
            if len(c.children) > 0 or hasattr(c.data, "datatype")}


def gql_type(node, additional_leaf_fields):
    """a type named after the node"""
    leaf = isinstance(node.data, VSSDataDatatype)
    fields = gql_leaf(node, additional_leaf_fields) if leaf else gql_branch(node, additional_leaf_fields)
    return GraphQLObjectType(name=node.get_fqn("_"), fields=fields, description=node.get_vss_data().description)


def gql_schema(root, additional_leaf_fields):
    """one query: the vehicle, with its id and a time"""
    arguments = dict(
        id=GraphQLArgument(GraphQLNonNull(GraphQLString), description="VIN of the vehicle that you want to request data for."),
        after=GraphQLArgument(GraphQLString, description="Filter data to only provide information that was sent from the vehicle after that timestamp."))
    query = GraphQLObjectType("Query", lambda: {"vehicle": GraphQLField(gql_type(root, additional_leaf_fields), arguments)})
    return print_schema(GraphQLSchema(query))


def gql_cli(vspec, output, include_dirs, extended_attributes, strict, aborts, overlays, quantities, units, gql_fields):
    tree, _ = get_trees(vspec=vspec, include_dirs=include_dirs, aborts=aborts, strict=strict, extended_attributes=extended_attributes,
                        quantities=quantities, units=units, overlays=overlays)
    f = open(output, "w")
    text = gql_schema(tree, [x.split(",") for x in gql_fields])
    f.write(text + "\n")
    f.close()


# ------------------------------------------------------------ DDS-IDL
IDL_WORDS = tuple("""abstract alias any attribute auto bitfield bitmask bitset boolean break case char component connector const consumes context continue
custom default do double else emits enum eventtype exception extern factory false finder fixed float for getraises goto home if import in inout int int16
int32 int64 int8 interface local long manages map mirrorport module multiple native object octet oneway out port porttype primarykey private provides
public publishes raises readonly register return sequence setraises short signed sizeof static string struct supports switch true truncatable typedef
typeid typename typeprefix uint16 uint32 uint64 uint8 union unsigned uses valuebase valuetype void volatile wchar while wstring""".split())
IDL_TYPES = {"uint8": "octet", "int8": "octet", "uint16": "unsigned short", "int16": "short", "uint32": "unsigned long", "int32": "long",
             "uint64": "unsigned long long", "int64": "long long", "boolean": "boolean", "float": "float", "double": "double", "string": "string"}


def idl_name(name):
    """not a word of IDL, C or Python"""
    return "_" + name if name.lower() in IDL_WORDS or keyword.iskeyword(name.lower()) else name


def idl_literal(name):
    """does not start with a digit"""
    return "d" + name if name[0].isdigit() else name


def is_branch(node, generate_uuid, generate_all_idl_features):
    return isinstance(node.data, VSSDataBranch)


def branch_or_signal(node, generate_uuid, generate_all_idl_features):
    return isinstance(node.data, (VSSDataBranch, VSSDataDatatype))


def is_enum(node, generate_uuid, generate_all_idl_features):
    return isinstance(node.data, VSSDataDatatype) and node.data.allowed is not None and len(node.data.allowed) > 0 and node.data.datatype in ("string", "string[]")


def is_list(node, generate_uuid, generate_all_idl_features):
    return isinstance(node.data, VSSDataDatatype) and "[" in node.data.datatype


def idl_node(node, generate_uuid, generate_all_idl_features):
    """a module per branch, a struct per leaf (after the enumeration of its allowed texts)"""
    out = idl_file_buffer
    name = idl_name(node.name)
    if isinstance(node.data, VSSDataBranch):
        out.append(f"module {name}")
        out.append("{")
        for c in node.children:
            idl_node(c, generate_uuid, generate_all_idl_features)
        out.append("};")
        out.append("")
        return
    allowed = getattr(node.data, "allowed")
    t = getattr(node.data, "datatype")
    enum = t in ("string", "string[]") if allowed else False
    if enum:
        out.append(f"module {name}_M")
        out.append("{")
        out.append(f"enum {name}Values" + "{" + ",".join(idl_literal(x) for x in allowed) + "};")
        out.append("};")
    out.append(f"struct {name}")
    out.append("{")
    if generate_uuid:
        out.append("string uuid;")
    base = t.split("[", 1)[0] if "[" in t else t
    ty = IDL_TYPES[base] if base in IDL_TYPES else base.replace(".", "::")
    default = node.data.default
    low, high = node.data.min, node.data.max
    if low is not None and high is not None and generate_all_idl_features:
        out.append(f"@range(min={low} ,max={high})")
    if enum:
        value = f"{name}_M::{name}Values value"
        initial = f" {default}"
    else:
        value = f"sequence<{ty}> value" if node.data.arraysize is not None or "[" in t else f"{ty} value"
        initial = f'  default "{default}"' if default and isinstance(default, str) else f"  default {default}"
    out.append(value + (initial if default is not None and generate_all_idl_features else "") + ";")
    note = "" if generate_all_idl_features else "//"
    if node.data.unit is not None:
        out.append(f'{note}const string unit="{node.data.unit}";')
    d = node.get_vss_data()
    out.append(f'{note}const string type ="{d.type.value}";')
    out.append(f'{note}const string description="{d.description}";')
    out.append("};")


def idl_struct(self, node):
    """a module per branch; a struct per struct (after the names of the structs its properties need and that come later); a member per property"""
    name = idl_name(node.name)
    if isinstance(node.data, VSSDataBranch):
        self.str_buf += f"module {name}" + " {\n"
    elif isinstance(node.data, VSSDataStruct):
        later = []
        for c in node.children:
            t = getattr(c.data, "datatype", None)
            if t is not None and t.startswith("Types."):
                s = t.replace(".", "::").split("[", 1)[0]
                if s not in self.structs_seen:
                    later.append(s.split("::")[-1])
        self.str_buf += "".join(f"struct {x};\n" for x in sorted(set(later))) + f"struct {name}" + " {\n"
        self.structs_seen.append(node.get_fqn("::").split("[", 1)[0])
    else:
        t = getattr_nn(node.data, "datatype", "")
        s = t.replace(".", "::").split("[", 1)[0]
        self.str_buf += (f"sequence<{s}> {name};\n" if "[" in t else f"{s} {name};\n")
    for c in node.children:
        idl_struct(self, c)
    if isinstance(node.data, (VSSDataBranch, VSSDataStruct)):
        self.str_buf += "};\n"


def idl_structs(self, root):
    self.str_buf = ""
    self.structs_seen = []
    idl_struct(self, root)
    return self.str_buf


def idl_write(file, root, generate_uuids=True, generate_all_idl_features=False):
    """the lines for this tree and nothing else"""
    idl_file_buffer.clear()
    idl_node(root, generate_uuids, generate_all_idl_features)
    file.write("\n".join(idl_file_buffer))


def idl_cli(vspec, output, include_dirs, extended_attributes, strict, aborts, uuid, overlays, quantities, units, types, all_idl_features):
    """the struct types first, then the signals"""
    tree, types_tree = get_trees(vspec=vspec, include_dirs=include_dirs, aborts=aborts, strict=strict, extended_attributes=extended_attributes,
                                 uuid=uuid, quantities=quantities, units=units, types=types, overlays=overlays)
    if types_tree is not None:
        with open(output, "w") as f:
            f.write(idl_structs(StructExporter(), types_tree))
    with open(output, "w" if types_tree is None else "a") as f:
        idl_write(f, tree, uuid, all_idl_features)


# ------------------------------------------------------------ ApiGear
def gear_number_start(name):
    return name[0].isdigit()


def gear_value(number):
    """the number a text that starts with a digit is in hexadecimal"""
    if number[0].isdigit():
        try:
            return int(number, 16)
        except ValueError:
            pass
    return None


def gear_literal(name):
    return "d" + name.replace(".", "_") if name[0].isdigit() else name


GEAR_TYPES = {"boolean": "bool", "int64": "int64", "uint64": "int64", "float": "float32", "double": "float64", "string": "string"}
GEAR_TYPES.update({f"{u}int{n}": "int32" for n in (8, 16, 32) for u in ("", "u")})


def gear_type(t):
    """the type of the elements, and whether it is a list"""
    base = t[:-2] if t.endswith("[]") else t
    r = ApiGearType(GEAR_TYPES[base] if base in GEAR_TYPES else base.replace(".", "_"))
    r.is_array = t.endswith("[]")
    return r


def gear_name(node):
    name = node.get_fqn("_")
    return name + "_Deprecated" if node.get_vss_data().deprecation else name


def gear_property(node, datatype):
    r = ApiGearProperty(gear_type(datatype))
    d = node.get_vss_data().description
    r.description = None if d == "" else d
    return r


def gear_yaml(file_name, content_dict):
    with open(file_name, "w") as f:
        yaml.dump(content_dict, f, sort_keys=False, width=inf, indent=2, encoding="utf-8", allow_unicode=True)


def gear_entry(name, p):
    r = {"name": name, "type": p.type.type}
    if p.description is not None:
        r["description"] = p.description
    if p.type.is_array:
        r["array"] = True
    return r


def gear_member(name, value):
    r = {"name": name}
    if value is not None:
        r["value"] = value
    return r


def gear_module(directory, module, module_name, module_filename):
    """the interfaces that have properties; enumerations and structures when there are some"""
    r = {"schema": "apigear.module/1.0", "name": module_name, "version": "1.0",
         "interfaces": [{"name": i.name, "properties": [gear_entry(k, p) for k, p in i.properties.items()]} for i in module.interfaces
                        if len(i.properties) > 0]}
    if len(module.enumerations) > 0:
        r["enums"] = [{"name": e.name, "members": [gear_member(v, n) for v, n in e.variants]} for e in module.enumerations]
    if len(module.structures) > 0:
        r["structs"] = [{"name": s.name, "fields": [gear_entry(k, p) for k, p in s.properties.items()]} for s in module.structures]
    gear_yaml(directory / module_filename, r)



def gear_signal(node, module, interface=None):
    """the nodes of the signal tree"""
    return isinstance(node.data, (VSSDataBranch, VSSDataDatatype))


def gear_short(node):
    return node.name + "_Deprecated" if node.get_vss_data().deprecation else node.name


def gear_described(node, p):
    d = node.get_vss_data().description
    p.description = None if d == "" else d
    return p


def gear_own(node):
    """the property of a signal: of its enumeration when it has allowed values"""
    data = node.get_vss_data()
    if isinstance(node.data, VSSDataBranch):
        return None
    if data.allowed:
        return gear_described(node, ApiGearProperty(ApiGearType(gear_name(node) + "_Value")))
    return gear_property(node, data.datatype)


def gear_variant(element, datatype):
    text = str(element)
    value = gear_value(text)
    return (gear_literal(text), None if datatype == "float" else value)


def gear_enum(node):
    r = ApiGearEnumeration(gear_name(node) + "_Value")
    for element in node.get_vss_data().allowed:
        r.variants.append(gear_variant(element, node.get_vss_data().datatype))
    return r


def gear_body(node, owned):
    """interfaces of the branches and enumerations of the signals with allowed values, from this node on in pre-order"""
    m = ApiGearModule()
    data = node.get_vss_data()
    if isinstance(node.data, VSSDataBranch):
        i = ApiGearInterface(gear_name(node))
        m.interfaces.append(i)
        for c in node.children:
            gear_below(c, m, i)
    elif data.allowed:
        e = gear_enum(node)
        if owned:
            m.enumerations.append(e)
    return m.interfaces, m.enumerations


def gear_all(node, owned):
    return gear_body(node, owned)


def gear_put(node, module, interface, lists):
    interfaces, enumerations = lists
    module.interfaces.extend(interfaces)
    module.enumerations.extend(enumerations)
    if interface is not None:
        p = gear_own(node)
        if p is not None:
            interface.properties[gear_short(node)] = p


def gear_below(node, module, interface=None):
    gear_put(node, module, interface, gear_all(node, interface is not None))


def gear_node(node, module, interface=None):
    """what gear_below does, one level down"""
    gear_put(node, module, interface, gear_body(node, interface is not None))


def gear_struct_body(node):
    """the structures of the struct types from this node on, those below a struct before it"""
    m = ApiGearModule()
    data = node.get_vss_data()
    if isinstance(node.data, VSSDataBranch):
        for c in node.children:
            gear_type_below(c, m)
    elif isinstance(node.data, VSSDataStruct):
        s = ApiGearStructure(gear_name(node))
        for c in node.children:
            gear_type_below(c, m, s)
        m.structures.append(s)
    return m.structures


def gear_structs(node):
    return gear_struct_body(node)


def gear_type_put(node, module, structure, structs):
    module.structures.extend(structs)
    if structure is not None and isinstance(node.data, VSSDataDatatype):
        structure.properties[gear_short(node)] = gear_property(node, node.data.datatype)


def gear_type_below(node, module, structure=None):
    if node is not None:
        gear_type_put(node, module, structure, gear_structs(node))


def gear_type_node(node, module, structure=None):
    """what gear_type_below does, one level down"""
    if node is not None:
        gear_type_put(node, module, structure, gear_struct_body(node))


def gear_export(directory, root, data_type_tree, layers):
    """all of the signals and all of the types"""
    if not layers:
        layers = {SolutionLayers.CPP: Path("./cppservice")}
    module = ApiGearModule()
    gear_below(root, module)
    gear_type_below(data_type_tree, module)
    gear_solution(directory, root.name + ".module.yaml", root.name, layers)
    gear_module(directory, module, root.name, root.name + ".module.yaml")


GEAR_LAYERS = {
    SolutionLayers.UNREAL: ("unreal", "apigear-io/template-unreal", ["stubs", "plugin"]),
    SolutionLayers.CPP: ("cpp", "apigear-io/template-cpp14", ["stubs"]),
    SolutionLayers.QT5: ("qt5", "apigear-io/template-qt5", ["stubs", "qmlplugin"]),
    SolutionLayers.QT6: ("qt6", "apigear-io/template-qtcpp", ["stubs", "qmlplugin"]),
}


def gear_layer(layer, path, module_filename):
    name, template, features = GEAR_LAYERS[layer]
    return {"name": name, "inputs": [module_filename], "template": template, "features": list(features), "output": path.name}


def gear_solution(directory, module_filename, module_name, layers):
    r = {"schema": "apigear.solution/1.0", "name": module_name, "version": "1.0", "layers": [gear_layer(k, layers[k], module_filename) for k in layers]}
    gear_yaml(directory / (module_name + ".solution.yaml"), r)


def gear_cli(vspec, include_dirs, extended_attributes, strict, aborts, uuid, overlays, quantities, units, types, output_dir,
             apigear_template_unreal_path, apigear_template_cpp_path, apigear_template_qt5_path, apigear_template_qt6_path):
    """nothing is written over an existing directory"""
    tree, types_tree = get_trees(vspec=vspec, include_dirs=include_dirs, aborts=aborts, strict=strict, extended_attributes=extended_attributes,
                                 uuid=uuid, quantities=quantities, units=units, types=types, overlays=overlays)
    if output_dir.exists():
        return
    output_dir.mkdir(exist_ok=True, parents=True)
    layers = {}
    if apigear_template_unreal_path is not None:
        layers[SolutionLayers.UNREAL] = apigear_template_unreal_path
    if apigear_template_cpp_path is not None:
        layers[SolutionLayers.CPP] = apigear_template_cpp_path
    if apigear_template_qt5_path is not None:
        layers[SolutionLayers.QT5] = apigear_template_qt5_path
    if apigear_template_qt6_path is not None:
        layers[SolutionLayers.QT6] = apigear_template_qt6_path
    gear_export(output_dir, tree, types_tree, layers)


def gear_layers(directory, module_filename, module_name, layers):
    """some of the layers, in this order"""
    return list(layers) == [k for k in GEAR_LAYERS if k in layers]
