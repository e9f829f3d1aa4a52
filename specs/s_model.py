"""Specifications of vss_tools.vspec.model (and the rest of vss_tools.vspec.datatypes)."""
import re

from pydantic import ValidationError

from vss_tools.vspec.datatypes import dynamic_datatypes, dynamic_quantities, dynamic_units
from vss_tools.vspec.model import ModelException, NodeType, VSSData, VSSDataAttribute, VSSDataBranch, VSSDataProperty, VSSDataSensor, VSSDataStruct, VSSRaw

from .s_datatypes import SCALARS, builtin, get_fqn_namespaced_datatypes, in_domain, is_array, is_subtype_of, resolve_datatype


def known_datatype(datatype, fqn):
    """a predefined datatype, a struct by full name, a struct visible by its short name, or an array of one"""
    if builtin(datatype) or datatype in dynamic_datatypes or datatype in get_fqn_namespaced_datatypes(fqn):
        return True
    base = datatype.removesuffix("[]")
    return datatype.endswith("[]") and (base in dynamic_datatypes or base in get_fqn_namespaced_datatypes(fqn))


def check_type_arraysize_consistency(self):
    if self.arraysize is not None and not is_array(self.datatype):
        raise AssertionError
    return self


def check_type_default_consistency(self):
    default = self.default
    if default is None:
        return self
    if is_array(self.datatype) != isinstance(default, list):
        raise AssertionError
    if isinstance(default, list):
        size = self.arraysize
        if size is not None and size != 0 and len(default) != size:
            raise AssertionError
        for v in default:
            if not in_domain(v, self.datatype):
                raise AssertionError
    elif not in_domain(default, self.datatype):
        raise AssertionError
    return self


def check_default_values_allowed(self):
    if self.default and self.allowed:
        values = self.default if isinstance(self.default, list) else [self.default]
        if any(v not in self.allowed for v in values):
            raise AssertionError
    return self


def check_allowed_datatype_consistency(self):
    if self.allowed is not None:
        for v in self.allowed:
            if not in_domain(v, self.datatype):
                raise AssertionError
    return self


def check_allowed_min_max(self):
    limited = self.min is not None or self.max is not None
    if limited and self.allowed is not None:
        raise AssertionError
    return self


def check_datatype(self):
    if not known_datatype(self.datatype, self.fqn):
        raise AssertionError
    self.datatype = resolve_datatype(self.datatype, self.fqn)
    return self


def check_valid_unit(v):
    if v is not None and v not in dynamic_units:
        raise AssertionError
    return v


def check_datatype_matching_allowed_unit_datatypes(self):
    unit = self.unit
    if unit is None or unit == "":
        return self
    if not builtin(self.datatype):
        raise AssertionError
    element = self.datatype.rstrip("[]")
    for allowed in dynamic_units[unit]:
        if is_subtype_of(element, allowed):
            return self
    raise AssertionError


def check_const_uid_format(v):
    if v is not None and re.fullmatch("0x[0-9A-Fa-f]{8}", v) is None:
        raise AssertionError
    return v


def fill_instances(v):
    if v is None:
        return []
    if isinstance(v, str):
        return [v]
    if isinstance(v, list):
        return v
    raise AssertionError


def check_valid_quantity(v):
    if v not in dynamic_quantities:
        raise AssertionError
    return v


def check_valid_datatypes(values):
    for v in values:
        if not known_datatype(v, None):
            raise AssertionError
    return values


INTERNAL = ["delete", "instantiate", "fqn", "arraysize", "aggregate", "is_instance"]


def as_dict(self, with_extra_attributes=True, exclude_fields=INTERNAL, extended_attributes=()):
    """every attribute that is set, except the internal ones, the excluded ones and (on request) the unknown ones"""
    hidden = set(exclude_fields)
    if not with_extra_attributes:
        hidden = set(exclude_fields + [a for a in self.get_extra_attributes() if a not in extended_attributes])
    dump = self.model_dump(mode="json", exclude_none=False, exclude=hidden)
    return {k: v for k, v in dump.items() if k in extended_attributes or not (v is None or v == [])}


def raw_extra_attributes(self):
    return [k for k in self.model_dump().keys() if k not in self.model_fields.keys()]


def resolve_vss_raw(model):
    """validated against the common attributes first, then against the attributes of its type"""
    common = VSSData(**model.model_dump())
    return data_class(common.type)(**common.model_dump())


def get_vss_raw(data, fqn):
    """the validated object when the attributes are valid, the unchecked one otherwise"""
    raw = VSSRaw(fqn=fqn, **data)
    try:
        return resolve_vss_raw(raw)
    except (ValidationError, ModelException):
        return raw


def data_class(t):
    if t == NodeType.BRANCH:
        return VSSDataBranch
    if t == NodeType.ATTRIBUTE:
        return VSSDataAttribute
    if t == NodeType.STRUCT:
        return VSSDataStruct
    if t == NodeType.PROPERTY:
        return VSSDataProperty
    return VSSDataSensor


def get_all_model_fields():
    """the attributes of all node types"""
    out = set()
    for c in (VSSDataBranch, VSSDataAttribute, VSSDataSensor, VSSDataSensor, VSSDataStruct, VSSDataProperty):
        for k in c.model_fields.keys():
            out.add(k)
    return list(out)
