"""Specifications of vss_tools.vspec.tree."""
import re
import uuid
from copy import deepcopy

from anytree import PreOrderIter, find, findall
from pydantic import ValidationError
from vss_tools.vspec.model import ModelValidationException, VSSData, VSSDataBranch, VSSDataDatatype, VSSDataStruct, VSSRaw
from vss_tools.vspec.datatypes import dynamic_datatypes
from vss_tools.vspec.tree import (  # noqa
    InvalidExpansionEntryException, MultipleRootsException, NoRootsException, NotMergeableException, NoVSSDataException, VSSNode,
)

from .s_model import get_vss_raw, resolve_vss_raw


def get_expected_parent(name):
    """everything before the last dot, None for a name without a parent"""
    parent = ".".join(name.split(".")[:-1])
    return parent if parent and parent != name else None


def get_name(key):
    return key.split(".")[-1]


def count_seperator(s):
    return s.count(".")


def find_children_ids(node_ids, name):
    return [i for i in node_ids if get_expected_parent(i) == name]


def expand_string(s):
    """every value of the last range, in ascending order, both ends included"""
    m = re.match(r".*(\[(\d+),(\d+)\]).*", s)
    if m is None:
        return [s]
    lo, hi = int(m.group(2)), int(m.group(3))
    if hi < lo:
        raise InvalidExpansionEntryException
    return [s.replace(m.group(1), str(i)) for i in range(lo, hi + 1)]


def get_fqn(self, sep="."):
    return sep.join(n.name for n in self.path)


def get_child(self, fqn):
    same = [c for c in self.children if c.get_fqn() == fqn]
    return same[0] if same else None


def get_node_with_fqn(self, fqn, sep="."):
    n = find(self, lambda n: n.get_fqn(sep) == fqn)
    return n if n else None


def get_instance_nodes(self):
    return findall(self, filter_=lambda n: isinstance(n.data, VSSDataBranch) and n.data.instances)


def camel(name):
    return re.fullmatch("[A-Z][A-Za-z0-9]*", name) is not None


def get_naming_violations(self):
    """each node not in CamelCase and each boolean not named Is... or Has..., in tree order"""
    out = []
    for n in PreOrderIter(self):
        if not camel(n.name):
            out.append([n.get_fqn(), "not CamelCase"])
        if isinstance(n.data, VSSDataDatatype) and n.data.datatype == "boolean" and n.name[:2] != "Is" and n.name[:3] != "Has":
            out.append([n.get_fqn(), "Not starting with 'Is' or 'Has'"])
    return out


def get_extra_attributes(self, allowed):
    return [[n.get_fqn(), f] for n in PreOrderIter(self) for f in n.data.get_extra_attributes() if f not in allowed]


def add_uuids(self):
    space = uuid.uuid5(uuid.NAMESPACE_OID, "vehicle_signal_specification")
    for n in PreOrderIter(self):
        n.uuid = uuid.uuid5(space, n.get_fqn()).hex


def delete_nodes(self, nodes):
    for n in nodes:
        n.parent = None


def as_flat_dict(self, with_extra_attributes, extended_attributes=()):
    out = {}
    for n in PreOrderIter(self):
        d = n.data.as_dict(with_extra_attributes, extended_attributes=extended_attributes)
        if n.uuid:
            d["uuid"] = n.uuid
        out[n.get_fqn()] = d
    return out


def copy(self):
    """a detached copy: same name and attributes, copies of the children in the same order"""
    node = VSSNode(self.name, self.get_fqn(), self.data.model_dump(mode="json", exclude={"fqn"}))
    for c in self.children:
        c.copy().parent = node
    return node


def post_attach(self, parent):
    self.data.fqn = self.get_fqn()


def get_vss_data(self):
    if isinstance(self.data, VSSData):
        return self.data
    raise NoVSSDataException


def resolve(self):
    """every incomplete node is validated again; the first invalid one in tree order is reported"""
    for n in findall(self, filter_=lambda n: isinstance(n.data, VSSRaw)):
        try:
            n.data = resolve_vss_raw(n.data)
        except ValidationError:
            raise ModelValidationException


def merge(self, other):
    """attributes of the other node win; children of both are merged, new ones move over"""
    if self.get_fqn() != other.get_fqn():
        raise NotMergeableException
    attrs = self.data.as_dict(exclude_fields=["fqn"])
    deep_update(attrs, other.data.as_dict(exclude_fields=["fqn", "is_instance"]))
    self.data = get_vss_raw(attrs, self.get_fqn())
    for c in other.children:
        mine = self.get_child(c.get_fqn())
        if mine:
            mine.merge(c)
        else:
            c.parent = self


def connect(self, fqn, node):
    """an orphan goes below its parent, missing branches are created on the way up"""
    there = self.get_node_with_fqn(fqn)
    if there:
        return there
    up = get_expected_parent(fqn)
    if not up:
        return None
    parent = self.get_node_with_fqn(up)
    if parent:
        node.parent = parent
        return parent
    branch = VSSNode(up.split(".")[-1], up, {"type": "branch"})
    node.parent = branch
    return self.connect(up, branch)


def add_expanded_instance_children(roots, instance_root, instance_copy):
    """children the instantiated node does not have are copied to every new node; the others are merged into those it has"""
    missing = [c for c in instance_copy.children if not instance_root.get_child(c.get_fqn())]
    for root in roots:
        for c in missing:
            c.copy().parent = root
    present = [(instance_root.get_child(c.get_fqn()), c) for c in instance_copy.children if instance_root.get_child(c.get_fqn())]
    for mine, c in present:
        mine.merge(c)
        c.parent = None


def expand_instance(roots, template, instance):
    """one new node per root and per name; a list or a range nests the following instances below the new nodes"""
    many = isinstance(instance, list)
    names = []
    for i in instance if many else [instance]:
        names.extend(expand_string(str(i)))
    new = []
    for name in names:
        for root in roots:
            n = template.copy()
            n.name = name
            n.data.instances = []
            if isinstance(n.data, VSSDataBranch):
                n.data.is_instance = True
            n.parent = root
            n.children = []
            new.append(n)
    return (new if many or len(names) > 1 else roots), new


def deep_update(base, update):
    """values of the update win, mappings on both sides are combined (in a copy)"""
    for k, v in update.items():
        if isinstance(v, dict) and k in base and isinstance(base[k], dict):
            d = base[k].copy()
            deep_update(d, v)
            base[k] = d
        else:
            base[k] = v


def node_init(self, name, fqn, data):
    """attributes as validated data; no identifier yet"""
    self.name = name
    self.data = get_vss_raw(data, fqn)
    self.uuid = None


def build_tree(data, connect_orphans=False):
    """one node per key, shorter names first, each below the node of its parent name"""
    nodes = {}
    for k in sorted(data.keys(), key=count_seperator):
        node = VSSNode(get_name(k), k, data.get(k))
        if isinstance(node.data, VSSDataStruct):
            dynamic_datatypes.add(k)
        node.children = []
        up = get_expected_parent(k)
        if up and up in nodes:
            node.parent = nodes[up]
        else:
            for c in find_children_ids(list(nodes.keys()), k):
                node.children.append(nodes[c])  # a tuple: the order of the keys rules this out
        nodes[k] = node
    roots = [n for k, n in nodes.items() if not n.parent and "." not in k]
    orphans = {k: n for k, n in nodes.items() if not n.parent and "." in k}
    if not roots:
        raise NoRootsException
    if len(roots) > 1:
        raise MultipleRootsException
    root = roots[0]
    if connect_orphans:
        placed = [k for k, n in orphans.items() if root.connect(k, n)]
        for k in placed:
            del orphans[k]
    return root, orphans


def expand_one(instance_node):
    """the instantiable children of the node move to the new nodes, the others stay"""
    template = deepcopy(instance_node)
    for c in template.children:
        if not getattr(c.data, "instantiate", True):
            c.parent = None
    for c in instance_node.children:
        if getattr(c.data, "instantiate", True):
            c.parent = None
    roots = [instance_node]
    new = []
    for i in instance_node.data.instances:
        roots, some = expand_instance(roots, template, i)
        new.extend(some)
    add_expanded_instance_children([n for n in new if n.is_leaf], instance_node, template)
    instance_node.data.instances = []


def expand_instances(self):
    """until no node below has instances"""
    todo = self.get_instance_nodes()
    while todo:
        for node in todo:
            expand_one(node)
        todo = self.get_instance_nodes()
