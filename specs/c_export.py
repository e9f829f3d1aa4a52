"""Contracts of the exporters."""
import csv
import json
import struct

import yaml

from pyvc import runner
from pyvc.engine import Cls
from pyvc.values import *

from . import s_export as S
from .objects import writer
from .registry import add, split_by

NODE, DATA, PATH = Cls("Node"), Cls("Data"), Cls("Path")
PATHS = Tuple(PATH)
COMMON = {"vspec": PATH, "output": PATH, "include_dirs": PATHS, "extended_attributes": Tuple("str"), "strict": "bool", "aborts": Tuple("str"),
          "uuid": "bool", "expand": "bool", "overlays": PATHS, "quantities": PATHS, "units": PATHS, "types": PATHS}


def register(env, missing):
    import vss_tools.vspec.tree as tree

    def a(m, q, spec, params, props, **kw):
        return add(env, missing, f"vss_tools.vspec.{m}:{q}", spec, params, props, **kw)

    writer(env, json.dump, "json", 0, 1)
    writer(env, yaml.dump, "yaml", 0, 1)
    a("utils.misc", "getattr_nn", S.getattr_nn, {"o": DATA, "name": "str", "default": "V"}, "C15 C19")
    j = "vssexporters.vss2json"
    a(j, "get_data", S.json_data, {"node": NODE, "with_extra_attributes": "bool", "extended_attributes": Tuple("str")}, "C13",
      mode="opaque", ret=Dict("str", "V"), reads=("tree",))
    a(j, "cli", S.json_cli, dict(COMMON, types_output=Opt(PATH), pretty="bool", extend_all_attributes="bool"), "C13", indep=True)
    y = "vssexporters.vss2yaml"
    a(y, "export_yaml", S.write_yaml, {"file_name": PATH, "content_dict": Dict("str", "V")}, "C13")
    a(y, "cli", S.yaml_cli, dict(COMMON, types_output=Opt(PATH), extend_all_attributes="bool"), "C13", indep=True)
    c = "vssexporters.vss2csv"
    a(c, "get_header", S.csv_header, {"with_uuid": "bool", "entry_type": "str", "with_instance_column": "bool"}, "C19")
    a(c, "add_rows", S.csv_rows, {"rows": runner.Mut(List("V")), "root": NODE, "with_uuid": "bool", "with_instance_column": "bool"}, "C19",
      mode="opaque", ret=None, mutates=("rows",), reads=("tree",), raises=(tree.NoVSSDataException, AttributeError))
    a(c, "write_csv", S.csv_write, {"rows": List("V"), "output": PATH}, "C19")
    a(c, "cli", S.csv_cli, dict(COMMON, types_output=Opt(PATH)), "C19", indep=True)
    f = "vssexporters.vss2franca"
    a(f, "print_franca_header", S.franca_header, {"file": runner.File, "version": "str"}, "C25")
    a(f, "print_franca_content", S.franca_content, {"file": runner.File, "root": NODE, "with_uuid": "bool"}, "C25")
    less = {k: v for k, v in COMMON.items() if k not in ("expand", "types")}
    a(f, "cli", S.franca_cli, dict(less, franca_vss_version=Opt("str")), "C25", indep=True)
    t = "vssexporters.vss2tree"
    a(t, "get_rendered_tree", S.tree_lines, {"tree": NODE, "attributes": Tuple("str")}, "C25")
    a(t, "cli", S.tree_cli, dict({k: v for k, v in COMMON.items() if k != "output"}, output=Opt(PATH), attr=Tuple("str")), "C25", indep=True)
    i = "vssexporters.vss2id"
    a("utils.idgen_utils", "get_all_keys_values", S.all_items, {"d": Dict("V", "V")}, "C15", mode="opaque", ret=List(Fix("V", "V")))
    a(i, "generate_split_id", S.split_id, {"node": NODE, "id_counter": "int", "strict_mode": "bool"}, "C15", indep=True)
    a(i, "export_node", S.id_export, {"data": runner.Mut(Dict("str", "V")), "node": NODE, "id_counter": "int", "strict_mode": "bool"}, "C15",
      mode="opaque", ret=["int", "int"], mutates=("data",), reads=("tree",), exit_code=-1, indep=True,
      raises=(tree.NoVSSDataException, AttributeError, SystemExit, ValueError, TypeError))
    CATS = ("DESCRIPTION MISMATCH", "SEMANTIC NAME CHANGE or PATH CHANGE", "DEPRECATION MSG CHANGE", "BREAKING CHANGE", "ADDED ATTRIBUTE",
            "DELETED ATTRIBUTE")
    a("utils.vss2id_val", "validate_static_uids.check_semantics", S.id_former,
      {"k": "str", "v": Dict("str", "V"), "strict_mode": "bool", "validation_tree_nodes": List(NODE)}, "C16", free=("validation_tree_nodes",),
      mode="opaque", ret=Opt("int"), reads=("tree",), effect="logs", logs=CATS, scrap=("messages",), raises=(AttributeError, TypeError, KeyError))
    a("utils.vss2id_val", "validate_static_uids", S.id_validate, {"signals_dict": Dict("str", Dict("str", "V")), "validation_tree": NODE, "strict": "bool"}, "C16",
      mode="opaque", ret=None, reads=("tree",), exit_code=-1, effect=True, indep=True,
      logs=CATS, scrap=("messages",),
      raises=(tree.NoVSSDataException, AttributeError, SystemExit, ValueError, TypeError, KeyError, IndexError))
    a(i, "cli", S.id_cli, dict(COMMON, validate_static_uid=Opt(PATH), validate_only="bool", case_sensitive="bool"), "C15 C16", indep=True)
    s = "vssexporters.vss2jsonschema"
    b4 = {"all_extended_attributes": "bool", "no_additional_properties": "bool", "require_all_properties": "bool"}
    a(s, "export_node", S.schema_node, dict({"json_dict": runner.Mut(Dict("str", "V")), "node": NODE, "print_uuid": "bool"}, **b4), "C22", mode="opaque",
      ret=None, mutates=("json_dict",), reads=("tree",), raises=(tree.NoVSSDataException, AttributeError), indep=True)
    a(s, "cli", S.schema_cli, dict(COMMON, extend_all_attributes="bool", pretty="bool", no_additional_properties="bool", require_all_properties="bool"),
      "C22", indep=True)
    b = "vssexporters.vss2binary"
    a(b, "intToHexChar", S.hex_char, {"hexInt": "int"}, "C17")
    a(b, "hexAllowedLen", S.hex_len, {"allowed": "str"}, "C17")
    a(b, "allowedString", S.allowed_text, {"allowedList": "V"}, "C17", mode="opaque", ret="str", raises=(TypeError, ValueError))
    a(b, "create_l8v_string", S.l8v, {"s": "str"}, "C17", mode="opaque", ret=Cls("bytes"), raises=(struct.error,))
    a(b, "create_l16v_string", S.l16v, {"s": "str"}, "C17", mode="opaque", ret=Cls("bytes"), raises=(struct.error,))
    a(b, "export_node", S.binary_node, {"node": NODE, "generate_uuid": "bool", "f": runner.File}, "C17", mode="opaque", ret=None, mutates=("f",),
      reads=("tree",), raises=(tree.NoVSSDataException, AttributeError, TypeError, ValueError, struct.error), indep=True)
    a(b, "cli", S.binary_cli, {k: v for k, v in COMMON.items() if k not in ("expand", "types")}, "C17", indep=True)
