"""Specifications of vss_tools.vspec.vspec, .units_quantities and .main."""
import yaml
from anytree import PreOrderIter, findall
from pydantic import ValidationError
from vss_tools.vspec.datatypes import dynamic_datatypes, dynamic_quantities, dynamic_units
from vss_tools.vspec.main import (
    ExtraAttributesException, MultipleTypeTreesException, NameViolationException, RootTypesException,
    load_quantities_and_units as the_load_quantities_and_units,
)
import rich_click as click

from vss_tools.vspec.model import ModelValidationException, VSSDataBranch, VSSDataProperty, VSSDataStruct, VSSQuantity, VSSUnit, get_all_model_fields
from vss_tools.vspec.units_quantities import MalformedDictException, UnitQuantityRedefinitionException
from vss_tools.vspec.tree import VSSNode, build_tree
from vss_tools.vspec.vspec import InvalidSpecDuplicatedEntryException, Include, IncludeNotFoundException, IncludeStatementException, SpecException, VSpec, deep_update, get_vspecs


# ---- vspec.py
def include_init(self, statement, prefix=None):
    """'#include TARGET [PREFIX]': the own prefix is appended to the prefix of the including file"""
    words = statement.split()
    if len(words) < 2:
        raise IncludeStatementException
    self.statement = statement
    self.target = words[1]
    if len(words) == 3:
        self.prefix = words[2] if prefix is None else prefix + "." + words[2]
    else:
        self.prefix = prefix


def resolve_path(self, include_dirs):
    """the target in the first directory that has it"""
    there = [d / self.target for d in include_dirs if (d / self.target).exists()]
    if not there:
        raise IncludeNotFoundException
    return there[0]


def vspec_init(self, source, prefix=None):
    """all keys of the file below the prefix; one include per line that starts with #include"""
    text = source.read_text()
    data = yaml.safe_load(text)
    if data is None:
        data = {}
    self.source = source
    self.prefix = prefix
    self.data = {f"{prefix}.{k}": v for k, v in data.items()} if prefix else data
    self.includes = [Include(line.strip(), prefix) for line in text.splitlines() if line.strip().startswith("#include")]


def vspec_update(self, other):
    deep_update(self.data, other.data)


def spec_get_vspecs(includes, spec, prefix=None):
    """the file, then everything its includes contribute, depth first in statement order; its own directory is searched last"""
    first = VSpec(spec, prefix)
    dirs = includes + [first.source.parent]
    return [first] + [v for i in first.includes for v in get_vspecs(includes, i.resolve_path(dirs), i.prefix)]


def load_vspec(include_dirs, specs, identifier=None):
    """each file searches its own directory first; later files override earlier ones"""
    every = [v for s in specs for v in get_vspecs([s.parent] + include_dirs, s)]
    result = None
    for v in every:
        if result is None:
            result = v
        else:
            result.update(v)
    if not result:
        raise SpecException
    return result


# ---- units_quantities.py
def load_all(files, cls):
    """the entries of all files; a name may be defined once"""
    found = {}
    for f in files:
        content = yaml.safe_load(f.read_text())
        if content:
            for name, entry in content.items():
                if entry is None:
                    raise MalformedDictException
                if name in found:
                    raise UnitQuantityRedefinitionException
                try:
                    found[name] = cls(**entry)
                except ValidationError:
                    raise ModelValidationException
    return found


def load_units(unit_files):
    return load_all(unit_files, VSSUnit)


def load_quantities(quantities):
    return load_all(quantities, VSSQuantity)


# ---- main.py
def default_quantities(quantities, units, vspec_root):
    return not quantities and (vspec_root / "quantities.yaml").exists()


def default_units(quantities, units, vspec_root):
    return not units and (vspec_root / "units.yaml").exists()


def load_quantities_and_units(quantities, units, vspec_root):
    """the files given, else the default file next to the model; a unit is known by its key and by its symbol"""
    if not quantities and (vspec_root / "quantities.yaml").exists():
        quantities = (vspec_root / "quantities.yaml",)
    if not units and (vspec_root / "units.yaml").exists():
        units = (vspec_root / "units.yaml",)
    dynamic_quantities.extend(load_quantities(list(quantities)))
    table = load_units(list(units))
    for key, unit in table.items():
        datatypes = [] if unit.allowed_datatypes is None else unit.allowed_datatypes
        if unit.unit is not None:
            dynamic_units[unit.unit] = datatypes
        dynamic_units[key] = datatypes


def check_name_violations(root, strict, aborts):
    if (strict or "name-style" in aborts) and root.get_naming_violations():
        raise NameViolationException


def check_extra_attribute_violations(root, strict, aborts, extended_attributes):
    """an unknown attribute is an error when asked for; one named like a core attribute always is"""
    extra = root.get_extra_attributes(extended_attributes)
    for a in extra:
        if a[1] in get_all_model_fields():
            raise ExtraAttributesException
    if extra and (strict or "unknown-attribute" in aborts):
        raise ExtraAttributesException


def kind_ok(node):
    above = node.parent
    if above is None:
        return True
    if isinstance(node.data, VSSDataProperty):
        return isinstance(above.data, VSSDataStruct)
    if isinstance(node.data, VSSDataStruct):
        return isinstance(above.data, (VSSDataStruct, VSSDataBranch))
    return isinstance(above.data, VSSDataBranch)


def get_invalid_node_msgs(root):
    """one message for each node below a parent of the wrong kind, in tree order"""
    return [
        f"'{n.get_fqn()} ({n.data.__class__.__name__})', invalid parent: '{n.parent.data.__class__.__name__}'"
        for n in PreOrderIter(root) if not kind_ok(n)
    ]


def validate_tree(root):
    if [n for n in PreOrderIter(root) if not kind_ok(n)]:
        exit(1)


def get_types_root(types, include_dirs):
    """every file of types becomes a tree below one root, in order; all of them are resolved once all are there"""
    if not types:
        return None
    top = None
    for f in types:
        root, orphans = build_tree(load_vspec(include_dirs, [f], "Types").data)
        if orphans:
            exit(1)
        if top is None:
            top = root
        elif top.get_fqn() != root.get_fqn():
            raise MultipleTypeTreesException
        else:
            top.merge(root)
    if [t for t in dynamic_datatypes if "." not in t]:
        raise RootTypesException
    if top:
        try:
            top.resolve()
        except ModelValidationException:
            exit(1)
    return top


def get_trees(vspec, include_dirs=(), aborts=(), strict=False, extended_attributes=(), uuid=False, quantities=(), units=(), types=(), overlays=(), expand=True):
    """units, types, model with overlays; then tree, instances, identifiers, validation of the data, deletion, rule checks"""
    try:
        load_quantities_and_units(quantities, units, vspec.parent)
    except ModelValidationException:
        exit(1)
    where = []
    for d in include_dirs:
        if d not in where:
            where.append(d)
    try:
        types_root = get_types_root(types, where)
        spec = load_vspec(where, [vspec] + list(overlays))
    except InvalidSpecDuplicatedEntryException:
        exit(1)
    root, orphans = build_tree(spec.data, connect_orphans=True)
    if orphans:
        exit(1)
    if expand:
        root.expand_instances()
    if uuid:
        root.add_uuids()
    try:
        root.resolve()
    except ModelValidationException:
        exit(1)
    root.delete_nodes(tuple([n for n in PreOrderIter(root) if n.get_vss_data().delete]))
    validate_tree(root)
    if types_root:
        validate_tree(types_root)
        try:
            check_extra_attribute_violations(types_root, True, aborts, extended_attributes)
        except (NameViolationException, ExtraAttributesException):
            exit(1)
    try:
        check_name_violations(root, strict, aborts)
        check_extra_attribute_violations(root, strict, aborts, extended_attributes)
    except (NameViolationException, ExtraAttributesException):
        exit(1)
    return root, types_root


def validate_attribute(value):
    """an extended attribute given on the command line: no comma, no core attribute"""
    if "," in value:
        raise click.BadParameter("Comma (',') not allowed")
    if value in get_all_model_fields():
        raise click.BadParameter(f"'{value}' is a core attribute")
    return value
