"""Specifications of the exporters."""
import csv
import json
import struct
import sys

import yaml
from anytree import PreOrderIter, RenderTree
from vss_tools import log
from vss_tools.vspec.main import get_trees
from vss_tools.vspec.utils.idgen_utils import fnv1_32_hash, fnv1_32_wrapper, get_node_identifier_bytes
from vss_tools.vspec.datatypes import is_array
from vss_tools.vspec.model import VSSDataBranch, VSSDataDatatype, VSSDataStruct
from vss_tools.vspec.utils.vss2id_val import validate_static_uids
from vss_tools.vspec.vssexporters.vss2yaml import NoAliasDumper


def getattr_nn(o, name, default=None):
    """the attribute; the default when there is none or it is None"""
    v = getattr(o, name, default)
    return default if v is None else v


# ------------------------------------------------------------ JSON, YAML
def json_data(node, with_extra_attributes=True, extended_attributes=()):
    """the attributes, the identifier if there is one, and the children by name"""
    d = node.data.as_dict(with_extra_attributes, extended_attributes=extended_attributes)
    if node.uuid:
        d["uuid"] = node.uuid
    if node.children:
        d["children"] = {}
        for c in node.children:
            d["children"][c.name] = json_data(c, with_extra_attributes, extended_attributes)
    return d


def json_cli(vspec, output, include_dirs, extended_attributes, strict, aborts, uuid, expand, overlays, quantities, units, types, types_output, pretty,
             extend_all_attributes):
    tree, types_tree = get_trees(vspec=vspec, include_dirs=include_dirs, aborts=aborts, strict=strict, extended_attributes=extended_attributes, uuid=uuid,
                                 quantities=quantities, units=units, types=types, overlays=overlays, expand=expand)
    indent = 2 if pretty else None
    out = {tree.name: json_data(tree, extend_all_attributes, extended_attributes)}
    if types_tree:
        t = {types_tree.name: json_data(types_tree, extend_all_attributes, extended_attributes)}
        if types_output:
            with open(types_output, "w") as f:
                json.dump(t, f, indent=indent, sort_keys=True)
        else:
            out["ComplexDataTypes"] = t
    with open(output, "w") as f:
        json.dump(out, f, indent=indent, sort_keys=True)


def write_yaml(name, content):
    """block style, keys sorted, unicode kept, no aliases"""
    with open(name, "w") as f:
        yaml.dump(content, f, default_flow_style=False, Dumper=NoAliasDumper, sort_keys=True, width=1024, indent=2, encoding="utf-8", allow_unicode=True)


def yaml_cli(vspec, output, include_dirs, extended_attributes, strict, aborts, uuid, expand, overlays, quantities, units, types, types_output,
             extend_all_attributes):
    tree, types_tree = get_trees(vspec=vspec, include_dirs=include_dirs, aborts=aborts, strict=strict, extended_attributes=extended_attributes, uuid=uuid,
                                 quantities=quantities, units=units, types=types, overlays=overlays, expand=expand)
    out = tree.as_flat_dict(extend_all_attributes, extended_attributes)
    if types_tree:
        t = types_tree.as_flat_dict(extend_all_attributes, extended_attributes)
        if types_output:
            write_yaml(types_output, t)
        else:
            out["ComplexDataTypes"] = t
    write_yaml(output, out)


# ------------------------------------------------------------ CSV
def csv_header(with_uuid, entry_type, with_instance_column):
    return ([entry_type, "Type", "DataType", "Deprecated", "Unit", "Min", "Max", "Desc", "Comment", "Allowed", "Default"]
            + (["Id"] if with_uuid else []) + (["Instances"] if with_instance_column else []))


def csv_rows(rows, root, with_uuid, with_instance_column):
    """one row per node, parents first; attributes a node does not have leave their column empty"""
    for n in PreOrderIter(root):
        d = n.get_vss_data()
        row = [n.get_fqn(), d.type.value, getattr_nn(d, "datatype", ""), getattr_nn(d, "deprecation", ""), getattr_nn(d, "unit", ""),
               getattr_nn(d, "min", ""), getattr_nn(d, "max", ""), d.description, getattr_nn(d, "comment", ""), getattr_nn(d, "allowed", ""),
               getattr_nn(d, "default", "")]
        if with_uuid:
            row.append(getattr_nn(n, "uuid", ""))
        if with_instance_column:
            row.append(getattr_nn(d, "instances", "") or "")
        rows.append(row)


def csv_write(rows, output):
    with open(output, "w", newline="") as f:
        csv.writer(f).writerows(rows)


def csv_cli(vspec, output, include_dirs, extended_attributes, strict, aborts, uuid, expand, overlays, quantities, units, types, types_output):
    """data types go to the same table, or to one of their own"""
    tree, types_tree = get_trees(vspec=vspec, include_dirs=include_dirs, aborts=aborts, strict=strict, extended_attributes=extended_attributes, uuid=uuid,
                                 quantities=quantities, units=units, types=types, overlays=overlays, expand=expand)
    together = types_tree and not types_output
    rows = [csv_header(uuid, "Node" if together else "Signal", not expand)]
    csv_rows(rows, tree, uuid, not expand)
    if together:
        csv_rows(rows, types_tree, uuid, not expand)
    csv_write(rows, output)
    if types_tree and not together:
        rows = [csv_header(uuid, "Node", not expand)]
        csv_rows(rows, types_tree, uuid, not expand)
        csv_write(rows, types_output)


# ------------------------------------------------------------ Franca, tree
FRANCA_HEADER = '''
// Copyright (C) 2022, COVESA
//
// This program is licensed under the terms and conditions of the
// Mozilla Public License, version 2.0.  The full text of the
// Mozilla Public License is at https://www.mozilla.org/MPL/2.0/

const UTF8String VSS_VERSION = "%s"

struct SignalSpec {
    UInt32 id
    String name
    String type
    String description
    String datatype
    String unit
    Double min
    Double max
}

const SignalSpec[] signal_spec = [
'''


def franca_header(file, version="unknown"):
    file.write(FRANCA_HEADER % version)


def franca_content(file, root, with_uuid):
    """a record per node below the root"""
    out = ""
    for n in PreOrderIter(root):
        d = n.get_vss_data()
        if n.parent:
            if out:
                out += ",\n{"
            else:
                out += "{"
            out += f'\tname: "{n.get_fqn()}",\n\ttype: "{d.type.value}",\n\tdescription: "{d.description}"'
            datatype = getattr(d, "datatype", None)
            if datatype:
                out += f',\n\tdatatype: "{datatype}"'
            if with_uuid:
                out += f',\n\tuuid: "{n.uuid}"'
            unit = getattr(d, "unit", None)
            if unit:
                out += f',\n\tunit: "{unit}"'
            low, high = getattr(d, "min", None), getattr(d, "max", None)
            if low is not None:
                out += f",\n\tmin: {low}"
            if high is not None:
                out += f",\n\tmax: {high}"
            allowed = getattr(d, "allowed", None)
            if allowed:
                out += f",\n\tallowed: {allowed}"
            out += "\n}"
    file.write(out)


def franca_cli(vspec, output, include_dirs, extended_attributes, strict, aborts, uuid, overlays, quantities, units, franca_vss_version):
    tree, types_tree = get_trees(vspec=vspec, include_dirs=include_dirs, aborts=aborts, strict=strict, extended_attributes=extended_attributes, uuid=uuid,
                                 quantities=quantities, units=units, overlays=overlays)
    with open(output, "w") as f:
        franca_header(f, franca_vss_version)
        franca_content(f, tree, uuid)
        f.write("\n]")


def tree_lines(tree, attributes):
    """a line per node with the drawing of its place, and below it the attributes asked for that it has"""
    out = []
    for pre, fill, n in RenderTree(tree):
        out.append("%s%s" % (pre, n.name))
        for a in attributes:
            v = getattr(n.data, a, None)
            if v is not None:
                out.append("%s%s='%s'" % (fill, a, v) if isinstance(v, str) else "%s%s=%s" % (fill, a, v))
    return "\n".join(out)


def tree_cli(vspec, include_dirs, extended_attributes, strict, aborts, uuid, expand, overlays, quantities, units, types, output, attr):
    tree, types_tree = get_trees(vspec=vspec, include_dirs=include_dirs, aborts=aborts, strict=strict, extended_attributes=extended_attributes, uuid=uuid,
                                 quantities=quantities, units=units, types=types, overlays=overlays, expand=expand)
    text = tree_lines(tree, attr)
    if types_tree:
        text += "\n" + tree_lines(types_tree, attr)
    if output:
        with open(output, "w") as f:
            f.write(text)


# ------------------------------------------------------------ static identifiers
def all_items(d):
    """every key and value of a nested dict"""
    r = []
    for k, v in d.items():
        r.append((k, v))
        if isinstance(v, dict):
            r.extend(all_items(v))
    return r


def split_id(node, id_counter, strict_mode):
    """FNV-1 of the description of the node; the first former name stands for the name"""
    fka = getattr(node.data, "fka", None)
    if fka:
        name = fka[0] if isinstance(fka, list) else fka
    else:
        name = node.get_fqn()
    d = node.get_vss_data()
    datatype = getattr_nn(d, "datatype", "")
    unit = getattr_nn(d, "unit", "")
    allowed = getattr_nn(d, "allowed", "")
    if allowed == []:
        allowed = ""
    ident = get_node_identifier_bytes(name, datatype, d.type.value, unit, allowed, getattr_nn(d, "min", ""), getattr_nn(d, "max", ""), strict_mode)
    return format(fnv1_32_hash(ident), "08X"), id_counter + 1


def id_export(data, node, id_counter, strict_mode):
    """one entry per node, under its name; two nodes with one identifier are an error; a given identifier is kept"""
    d = node.get_vss_data()
    if d.constUID:
        uid = d.constUID
    else:
        h, id_counter = split_id(node, id_counter, strict_mode)
        uid = "0x" + h
    for k, v in all_items(data):
        if not isinstance(v, dict) and k == "staticUID" and int(uid, 16) == int(v, 16):
            exit(-1)
    name = node.get_fqn()
    e = {"staticUID": f"{uid}"}
    e["description"] = d.description
    e["type"] = str(d.type.value)
    if getattr(d, "unit", None):
        e["unit"] = d.unit
    if hasattr(d, "datatype"):
        e["datatype"] = d.datatype
    if getattr(d, "allowed", None):
        e["allowed"] = d.allowed
    for a in ("min", "max"):
        v = getattr(d, a, None)
        if v is not None:
            e[a] = v
    if getattr(d, "fka", None):
        e["fka"] = d.fka
    if d.deprecation:
        e["deprecation"] = d.deprecation
    data[name] = e
    for c in node.children:
        id_counter, id_counter = id_export(data, c, id_counter, strict_mode)
    return id_counter, id_counter


def id_cli(vspec, output, include_dirs, extended_attributes, strict, aborts, uuid, expand, overlays, quantities, units, types, validate_static_uid,
           validate_only, case_sensitive):
    """the identifiers of the tree, compared with an earlier result when one is given (without overlays: it is complete)"""
    tree, _ = get_trees(vspec=vspec, include_dirs=include_dirs, aborts=aborts, strict=strict, extended_attributes=extended_attributes, uuid=uuid,
                        quantities=quantities, units=units, types=types, overlays=overlays, expand=expand)
    ids = {}
    id_export(ids, tree, 0, case_sensitive)
    if validate_static_uid:
        before, _ = get_trees(vspec=validate_static_uid, include_dirs=include_dirs, aborts=aborts, strict=strict,
                              extended_attributes=extended_attributes, uuid=uuid, quantities=quantities, units=units, types=types, expand=expand)
        validate_static_uids(ids, before, case_sensitive)
    if not validate_only:
        with open(output, "w") as f:
            yaml.dump(ids, f)


def id_former(k, v, strict_mode, validation_tree_nodes):
    """the position of the earlier node whose identifier a former name and the present attributes give; each such is reported as a change of name"""
    at = None
    if "fka" in v:
        for former in v["fka"]:
            u = "0x" + fnv1_32_wrapper(former, v, strict_mode)
            for i, n in enumerate(validation_tree_nodes):
                if u == n.data.staticUID:
                    log.warning(f"SEMANTIC NAME CHANGE or PATH CHANGE {k}")
                    at = i
    return at


def id_named(k, nodes):
    """the position of the earlier node of that name"""
    for i, n in enumerate(nodes):
        if k == n.get_fqn():
            return i
    return None


def id_validate(signals_dict, validation_tree, strict):
    """each new node is compared with what is left of the earlier ones: the one of its identifier, or of a former name, or of its name is taken
    away and reported as such; what remains was deleted"""
    root = validation_tree
    while root.parent:
        root = root.parent
    nodes = [n for n in PreOrderIter(root)]
    for k, v in signals_dict.items():
        same = []
        for i, n in enumerate(nodes):
            uid = getattr(n.data, "staticUID", None)
            if v["staticUID"] == uid:
                if k != n.get_fqn():
                    id_former(k, v, strict, nodes)
                same.append(i)
        if len(same) > 1:
            sys.exit(-1)
        if len(same) == 1:
            d = nodes[same[0]].data
            if "deprecation" in v and d.deprecation and v["deprecation"] != d.deprecation:
                log.warning(f"DEPRECATION MSG CHANGE {k}")
            d = nodes[same[0]].get_vss_data()
            if v["description"] != d.description:
                log.warning(f"DESCRIPTION MISMATCH {k}")
            nodes.pop(same[0])
            continue
        former = id_former(k, v, strict, nodes)
        if former is not None:
            nodes.pop(former)
            continue
        named = id_named(k, nodes)
        if named is None:
            log.warning(f"ADDED ATTRIBUTE {k}")
        else:
            nodes.pop(named)
            log.warning(f"BREAKING CHANGE {k}")
    for n in nodes:
        log.warning(f"DELETED ATTRIBUTE {n.get_fqn()}")


# ------------------------------------------------------------ JSON schema
JSON_TYPES = {f"{u}int{n}": "integer" for n in (8, 16, 32, 64) for u in ("", "u")}
JSON_TYPES.update({"boolean": "boolean", "string": "string", "float": "number", "double": "number", "numeric": "number"})
JSON_TYPES.update({t + "[]": "array" for t in tuple(JSON_TYPES)})


def schema_node(json_dict, node, print_uuid, all_extended_attributes, no_additional_properties, require_all_properties):
    """the schema of a node goes under its name; data types become JSON types, lists arrays, structs and branches objects"""
    d = node.get_vss_data()
    s = {"description": d.description}
    json_dict[node.name] = s
    if isinstance(d, VSSDataDatatype):
        s["type"] = JSON_TYPES.get(d.datatype, "array" if is_array(d.datatype) else "object")
    for a, k in (("min", "minimum"), ("max", "maximum")):
        v = getattr(d, a, None)
        if v is not None:
            s[k] = v
    allowed = getattr(d, "allowed", None)
    if allowed:
        s["enum"] = allowed
    default = getattr(d, "default", None)
    if default is not None:
        s["default"] = default
    if isinstance(d, VSSDataStruct):
        s["type"] = "object"
    if all_extended_attributes:
        s["x-VSStype"] = d.type.value
        for a in ("datatype", "deprecation", "unit"):
            v = getattr(d, a, None)
            if v:
                s["x-" + a] = v
        aggregate = getattr(d, "aggregate", None)
        if aggregate:
            s["x-aggregate"] = aggregate
            s["type"] = "object"
        if d.comment:
            s["x-comment"] = d.comment
        if print_uuid:
            s["x-uuid"] = node.uuid
    for a in d.get_extra_attributes():
        s[a] = getattr(d, a)
    if isinstance(d, VSSDataBranch) or isinstance(node.data, VSSDataStruct):
        if no_additional_properties:
            s["additionalProperties"] = False
        s["properties"] = {}
        if require_all_properties:
            s["required"] = [c.name for c in node.children]
        for c in node.children:
            schema_node(s["properties"], c, print_uuid, all_extended_attributes, no_additional_properties, require_all_properties)


def schema_cli(vspec, output, include_dirs, extended_attributes, strict, aborts, uuid, expand, overlays, quantities, units, types, extend_all_attributes,
               pretty, no_additional_properties, require_all_properties):
    """the schema of the root, titled with its name; the data types below it with all attributes"""
    tree, types_tree = get_trees(vspec=vspec, include_dirs=include_dirs, aborts=aborts, strict=strict, extended_attributes=extended_attributes, uuid=uuid,
                                 quantities=quantities, units=units, types=types, overlays=overlays, expand=expand)
    indent = 2 if pretty else None
    schema = {}
    schema_node(schema, tree, uuid, extend_all_attributes, no_additional_properties, require_all_properties)
    assert len(schema.keys()) == 1
    name = list(schema.keys())[0]
    schema = schema.pop(name)
    if types_tree is not None:
        t = {}
        schema_node(t, types_tree, uuid, extend_all_attributes, no_additional_properties, require_all_properties)
        if extend_all_attributes:
            schema["x-ComplexDataTypes"] = t
    out = {"$schema": "https://json-schema.org/draft/2020-12/schema", "title": name, "type": "object", **schema}
    with open(output, "w", encoding="utf-8") as f:
        json.dump(out, f, indent=indent, sort_keys=False)


# ------------------------------------------------------------ binary
def hex_char(n):
    """'0'-'9', 'A'-... for 10 and above"""
    return chr(n + 48) if n < 10 else chr(n + 55)


def hex_len(s):
    """the length of the text in bytes as two digits"""
    n = len(s.encode())
    return hex_char(n // 16) + hex_char(n % 16)


def allowed_text(allowedList):
    """the values one after the other, each behind its length"""
    r = ""
    for v in allowedList:
        t = str(v)
        r += hex_len(t) + t
    return r


def l8v(s):
    """one byte of length, then the text"""
    b = s.encode()
    return struct.pack(f"{len(b) + 1}p", b)


def l16v(s):
    """two bytes of length, then the text"""
    b = s.encode()
    return struct.pack(f"=H{len(b)}s", len(b), b)


def binary_node(node, generate_uuid, f):
    """name, type, identifier, description, data type, min, max, unit, allowed values, default, validate, number of children; then the children"""
    d = node.get_vss_data().as_dict()
    f.write(l8v(node.name))
    f.write(l8v(d.get("type", "")))
    if node.uuid is None:
        f.write(struct.pack("B", 0))
    else:
        f.write(l8v(node.uuid))
    f.write(l16v(d.get("description", "")))
    f.write(l8v(d.get("datatype", "")))
    f.write(l8v(str(d.get("min", ""))))
    f.write(l8v(str(d.get("max", ""))))
    f.write(l8v(d.get("unit", "")))
    if d.get("allowed") is None:
        f.write(struct.pack("H", 0))
    else:
        f.write(l16v(allowed_text(d.get("allowed", ""))))
    f.write(l8v(str(d.get("default", ""))))
    f.write(l8v(str(d.get("validate", ""))))
    f.write(struct.pack("B", len(node.children)))
    for c in node.children:
        binary_node(c, generate_uuid, f)


def binary_cli(vspec, output, include_dirs, extended_attributes, strict, aborts, uuid, overlays, quantities, units):
    """the expanded tree"""
    tree, _ = get_trees(vspec=vspec, include_dirs=include_dirs, aborts=aborts, strict=strict, extended_attributes=extended_attributes, uuid=uuid,
                        quantities=quantities, units=units, overlays=overlays)
    with open(str(output), "wb") as f:
        binary_node(tree, uuid, f)
