"""Contracts of the SAMM exporter."""
from pyvc import runner
from pyvc.engine import Cls
from pyvc.values import *

from . import s_samm as S
from .registry import add

NODE = Cls("Node")
H = "vss_tools.vspec.vssexporters.vss2samm.helpers."


def register(env, missing):
    def a(m, q, spec, params, **kw):
        return add(env, missing, f"{H}{m}:{q}", spec, params, "C28", **kw)

    a("vss_helper", "has_constraints", S.has_constraints, {"vss_node": NODE})
    a("vss_helper", "is_vss_node_selected_for_processing", S.samm_selected, {"selected_signals_paths": List("str"), "vss_node": NODE})
    a("vss_helper", "get_node_rdf_type", S.samm_kind, {"vss_node": NODE})
    a("vss_helper", "get_data_type", S.samm_datatype, {"vss_node": NODE})
    a("vss_helper", "get_data_unit_uri", S.samm_unit, {"unit": "str"})
    a("vss_helper", "get_instances_type_from_list", S.samm_instance_type, {"instances_list": List("str")})
    a("string_helper", "str_to_lc_first", S.lower_first, {"string_to_update": "str"})
    a("string_helper", "str_to_uc_first", S.upper_first, {"string_to_update": "str"})
