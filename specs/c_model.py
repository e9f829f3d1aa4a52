"""Contracts of vss_tools.vspec.model."""
from pyvc import runner
from pyvc.engine import Cls
from pyvc.values import *

from . import s_model as S
from .c_datatypes import runner_mut
from .registry import add

M = "vss_tools.vspec.model:"
D = "vss_tools.vspec.datatypes:"
DT = {"self": Cls("DT")}


def register(env, missing):
    import vss_tools.vspec.datatypes as dt

    env.add_global("dynamic_units", dt.dynamic_units, runner_mut(("dict", "str", List("str")), "dynamic_units"))
    env.add_global("dynamic_quantities", dt.dynamic_quantities, runner_mut(("list", "str"), "dynamic_quantities"))
    d = M + "VSSDataDatatype."
    for n, p in {
        "check_type_arraysize_consistency": "C07", "check_type_default_consistency": "C06 C07", "check_default_values_allowed": "C07",
        "check_allowed_datatype_consistency": "C06 C07", "check_allowed_min_max": "C07", "check_datatype": "C09 C10",
        "check_datatype_matching_allowed_unit_datatypes": "C08",
    }.items():
        add(env, missing, d + n, getattr(S, n), DT, p)
    add(env, missing, d + "check_valid_unit", S.check_valid_unit, {"v": Opt("str")}, "C08")
    add(env, missing, M + "VSSData.check_const_uid_format", S.check_const_uid_format, {"v": Opt("str")}, "C07 C10")
    add(env, missing, M + "VSSDataBranch.fill_instances", S.fill_instances, {"v": "V"}, "C04")
    add(env, missing, M + "VSSUnit.check_valid_quantity", S.check_valid_quantity, {"v": "str"}, "C08")
    add(env, missing, M + "VSSUnit.check_valid_datatypes", S.check_valid_datatypes, {"values": List("str")}, "C08")
    add(env, missing, M + "VSSRaw.get_extra_attributes", S.raw_extra_attributes, {"self": Cls("Data")}, "C12 C13")
    add(env, missing, M + "VSSRaw.as_dict", S.as_dict,
        {"self": Cls("Data"), "with_extra_attributes": "bool", "exclude_fields": List("str"), "extended_attributes": ("tuple", "str")}, "C13 C01",
        mode="opaque", ret=Dict("str", "V"), reads=("data",), fresh=True)
    add(env, missing, M + "resolve_vss_raw", S.resolve_vss_raw, {"model": Cls("Data")}, "C10 C07")
    add(env, missing, M + "get_vss_raw", S.get_vss_raw, {"data": Dict("str", "V"), "fqn": Opt("str")}, "C10 C03", mode="opaque", ret=Cls("Data"),
        reads=("fresh", "dynamic_datatypes", "dynamic_units"))
    add(env, missing, M + "get_all_model_fields", S.get_all_model_fields, {}, "C12")
