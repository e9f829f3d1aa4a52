"""Contracts of vss_tools.vspec.vspec, .units_quantities and .main."""
import yaml

from pyvc import runner
from pyvc.engine import Cls
from pyvc.values import *

from . import s_load as S
from .registry import add, split_by

NODE, PATH, SPEC = Cls("Node"), Cls("Path"), Cls("VSpec")
DYN = ("dynamic_datatypes", "dynamic_units")
LOADERR = (OSError, yaml.YAMLError)


def register(env, missing):
    import vss_tools.vspec.main as main
    import vss_tools.vspec.model as model
    import vss_tools.vspec.tree as tree
    import vss_tools.vspec.units_quantities as uq
    import vss_tools.vspec.vspec as real

    def a(q, spec, params, props, m="vss_tools.vspec.vspec:", **kw):
        return add(env, missing, m + q, spec, params, props, **kw)

    a("Include.__init__", S.include_init, {"self": runner.Inst(real.Include), "statement": "str", "prefix": Opt("str")}, "C02")
    a("Include.resolve_path", S.resolve_path, {"self": Cls("Include"), "include_dirs": List(PATH)}, "C02")
    a("VSpec.__init__", S.vspec_init, {"self": runner.Inst(real.VSpec), "source": PATH, "prefix": Opt("str")}, "C02")
    a("VSpec.update", S.vspec_update, {"self": runner.Inst(real.VSpec, data=runner.Mut(Dict("str", "V"))), "other": SPEC}, "C01 C02",
      mode="opaque", ret=None, writes=True)
    a("get_vspecs", S.spec_get_vspecs, {"includes": List(PATH), "spec": PATH, "prefix": Opt("str")}, "C02", mode="opaque", ret=List(SPEC),
      raises=LOADERR + (real.IncludeNotFoundException, real.IncludeStatementException, AttributeError))
    a("load_vspec", S.load_vspec, {"include_dirs": List(PATH), "specs": List(PATH), "identifier": Opt("str")}, "C01 C02", mode="opaque", ret=SPEC, writes=True,
      raises=LOADERR + (real.IncludeNotFoundException, real.IncludeStatementException, AttributeError, real.SpecException))
    u = "vss_tools.vspec.units_quantities:"
    ue = LOADERR + (uq.MalformedDictException, uq.UnitQuantityRedefinitionException, model.ModelValidationException, AttributeError)
    a("load_units", S.load_units, {"unit_files": List(PATH)}, "C08", m=u, mode="opaque", ret=Dict("str", Cls("Unit")), raises=ue, reads=("dynamic_quantities", "dynamic_datatypes"))
    a("load_quantities", S.load_quantities, {"quantities": List(PATH)}, "C08", m=u, mode="opaque", ret=Dict("str", Cls("Quantity")), raises=ue)
    a("validate_attribute", S.validate_attribute, {"value": "str"}, "C12", m="vss_tools.vspec.cli_options:")
    m = "vss_tools.vspec.main:"
    a("load_quantities_and_units", S.load_quantities_and_units, {"quantities": Tuple(PATH), "units": Tuple(PATH), "vspec_root": PATH}, "C08", m=m,
      mode="opaque", ret=None, raises=ue, mutates=("dynamic_quantities", "dynamic_units"), reads=("dynamic_quantities", "dynamic_units", "dynamic_datatypes"), cases=split_by(S.default_quantities, S.default_units))
    a("check_name_violations", S.check_name_violations, {"root": NODE, "strict": "bool", "aborts": Tuple("str")}, "C12", m=m,
      mode="opaque", ret=None, reads=("tree",), raises=(main.NameViolationException,))
    a("check_extra_attribute_violations", S.check_extra_attribute_violations,
      {"root": NODE, "strict": "bool", "aborts": Tuple("str"), "extended_attributes": Tuple("str")}, "C12", m=m,
      mode="opaque", ret=None, reads=("tree",), raises=(main.ExtraAttributesException, IndexError))
    a("get_invalid_node_msgs", S.get_invalid_node_msgs, {"root": NODE}, "C10", m=m)
    a("validate_tree", S.validate_tree, {"root": NODE}, "C10", m=m, mode="opaque", ret=None, reads=("tree",), raises=(SystemExit,))
    lerr = LOADERR + (real.IncludeNotFoundException, real.IncludeStatementException, AttributeError, real.SpecException)
    terr = (tree.NoRootsException, tree.MultipleRootsException, KeyError, tree.NotMergeableException, SystemExit)
    every = tuple(dict.fromkeys(ue + lerr + terr + (main.MultipleTypeTreesException, main.RootTypesException, IndexError, tree.NoVSSDataException,
                                                    tree.InvalidExpansionEntryException, tree.NotMergeableException, TypeError)))
    env.load_errors = tuple(e for e in every if e is not model.ModelValidationException)
    a("get_types_root", S.get_types_root, {"types": Tuple(PATH), "include_dirs": List(PATH)}, "C09", m=m, mode="opaque", ret=Opt(NODE), writes=True,
      mutates=("dynamic_datatypes",), reads=DYN, raises=lerr + terr + (main.MultipleTypeTreesException, main.RootTypesException), indep=True)
    a("get_trees", S.get_trees, {"vspec": PATH, "include_dirs": Tuple(PATH), "aborts": Tuple("str"), "strict": "bool", "extended_attributes": Tuple("str"),
      "uuid": "bool", "quantities": Tuple(PATH), "units": Tuple(PATH), "types": Tuple(PATH), "overlays": Tuple(PATH), "expand": "bool"},
      "C01 C02 C03 C04 C05 C08 C09 C10 C11 C12 C14", m=m, mode="opaque", ret=[NODE, Opt(NODE)], writes=True, indep=True,
      mutates=("dynamic_datatypes", "dynamic_units", "dynamic_quantities"), reads=DYN + ("dynamic_quantities",),
      raises=env.load_errors)
