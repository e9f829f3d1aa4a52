"""Contracts of vss_tools.vspec.tree."""
import z3

from pyvc import runner
from pyvc.engine import Cls
from pyvc.values import *

from . import s_tree as S
from .registry import add

M = "vss_tools.vspec.tree:"
N = M + "VSSNode."
DYN = ("dynamic_datatypes", "dynamic_units")
NODE = Cls("Node")


def is_list(n):
    """the case that the parameter is a list, and the case that it is not"""

    def h(eng, st, p):
        c = eng.env.isinstance(eng, st, p[n], list)
        return [c, z3.Not(c)]

    return h


def register(env, missing):
    import vss_tools.vspec.model as model
    import vss_tools.vspec.tree as real

    def a(q, spec, params, props, **kw):
        add(env, missing, M + q, spec, params, props, **kw)

    a("get_expected_parent", S.get_expected_parent, {"name": "str"}, "C03")
    a("get_name", S.get_name, {"key": "str"}, "C03")
    a("count_seperator", S.count_seperator, {"s": "str"}, "C03")
    a("find_children_ids", S.find_children_ids, {"node_ids": List("str"), "name": "str"}, "C03")
    a("expand_string", S.expand_string, {"s": "str"}, "C04", mode="opaque", ret=List("str"), raises=(real.InvalidExpansionEntryException,))
    a("VSSNode.__init__", S.node_init, {"self": runner.Inst(real.VSSNode), "name": "str", "fqn": Opt("str"), "data": Dict("str", "V")}, "C03 C13")
    a("VSSNode.get_fqn", S.get_fqn, {"self": NODE, "sep": "str"}, "C03", mode="opaque", ret="str", reads=("names",))
    a("VSSNode.get_child", S.get_child, {"self": NODE, "fqn": "str"}, "C04")
    a("VSSNode.get_node_with_fqn", S.get_node_with_fqn, {"self": NODE, "fqn": "str", "sep": "str"}, "C03")
    a("VSSNode.get_instance_nodes", S.get_instance_nodes, {"self": NODE}, "C04")
    a("VSSNode.get_naming_violations", S.get_naming_violations, {"self": NODE}, "C12", mode="opaque", ret=List(List("str")), reads=("tree",))
    a("VSSNode.get_extra_attributes", S.get_extra_attributes, {"self": NODE, "allowed": ("tuple", "str")}, "C12", mode="opaque", ret=List(List("str")), reads=("tree",))
    a("VSSNode.add_uuids", S.add_uuids, {"self": NODE}, "C14", mode="opaque", ret=None, writes=True)
    a("VSSNode.delete_nodes", S.delete_nodes, {"self": NODE, "nodes": Tuple(NODE)}, "C11", mode="opaque", ret=None, writes=True)
    a("VSSNode.as_flat_dict", S.as_flat_dict, {"self": NODE, "with_extra_attributes": "bool", "extended_attributes": ("tuple", "str")}, "C13")
    a("VSSNode.copy", S.copy, {"self": NODE}, "C05", mode="opaque", ret=NODE, writes=True, reads=DYN)
    a("VSSNode._post_attach", S.post_attach, {"self": NODE, "parent": NODE}, "C03")
    a("VSSNode.get_vss_data", S.get_vss_data, {"self": NODE}, "C10")
    a("VSSNode.resolve", S.resolve, {"self": NODE}, "C10", mode="opaque", ret=None, writes=True, reads=DYN, raises=(model.ModelValidationException,))
    add(env, missing, "vss_tools.vspec.vspec:deep_update", S.deep_update, {"base": runner.Mut(Dict("str", "V")), "update": Dict("str", "V")}, "C01",
        mode="opaque", ret=None, mutates=("base",))
    a("VSSNode.merge", S.merge, {"self": NODE, "other": NODE}, "C05", mode="opaque", ret=None, writes=True, raises=(real.NotMergeableException,), reads=DYN)
    a("VSSNode.connect", S.connect, {"self": NODE, "fqn": "str", "node": NODE}, "C03", mode="opaque", ret=Opt(NODE), writes=True, reads=DYN)
    a("expand_instance", S.expand_instance, {"roots": List(NODE), "template": NODE, "instance": "V"}, "C04 C05", cases=is_list("instance"),
      mode="opaque", ret=[List(NODE), List(NODE)], writes=True, reads=DYN, raises=(real.InvalidExpansionEntryException,))
    a("add_expanded_instance_children", S.add_expanded_instance_children, {"roots": List(NODE), "instance_root": NODE, "instance_copy": NODE}, "C05",
      mode="opaque", ret=None, writes=True, reads=DYN, raises=(real.NotMergeableException,))
    a("build_tree", S.build_tree, {"data": Dict("str", "V"), "connect_orphans": "bool"}, "C03 C09", mode="opaque", ret=[NODE, Dict("str", NODE)], writes=True, mutates=("dynamic_datatypes",), reads=DYN,
      raises=(real.NoRootsException, real.MultipleRootsException, AttributeError, KeyError), indep=True)
    ER = (real.InvalidExpansionEntryException, real.NotMergeableException, AttributeError, TypeError)
    a("VSSNode.expand_instances#for", S.expand_one, {"instance_node": NODE}, "C04 C05", mode="opaque", ret=None, writes=True, reads=DYN, raises=ER)
    a("VSSNode.expand_instances", S.expand_instances, {"self": NODE}, "C04 C05", mode="opaque", ret=None, writes=True, reads=DYN, raises=ER)
