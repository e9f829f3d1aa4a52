"""Specifications of vss_tools.vspec.datatypes and utils.idgen_utils."""

from vss_tools.vspec.datatypes import DatatypesException, dynamic_datatypes

RANGES = {
    "uint8": (0, 255),
    "int8": (-128, 127),
    "uint16": (0, 65535),
    "int16": (-32768, 32767),
    "uint32": (0, 4294967295),
    "int32": (-2147483648, 2147483647),
    "uint64": (0, 18446744073709551615),
    "int64": (-9223372036854775808, 9223372036854775807),
}


def in_range(value, lo, hi):
    if isinstance(value, list):
        return all(isinstance(v, int) and lo <= v and v <= hi for v in value)
    return isinstance(value, int) and lo <= value and value <= hi


def is_uint8(value):
    return in_range(value, 0, 255)


def is_int8(value):
    return in_range(value, -128, 127)


def is_uint16(value):
    return in_range(value, 0, 65535)


def is_int16(value):
    return in_range(value, -32768, 32767)


def is_uint32(value):
    return in_range(value, 0, 4294967295)


def is_int32(value):
    return in_range(value, -2147483648, 2147483647)


def is_uint64(value):
    return in_range(value, 0, 18446744073709551615)


def is_int64(value):
    return in_range(value, -9223372036854775808, 9223372036854775807)


def is_bool(value):
    if isinstance(value, list):
        return all(isinstance(v, bool) for v in value)
    return isinstance(value, bool)


def is_string(value):
    if isinstance(value, list):
        return all(isinstance(v, str) for v in value)
    return isinstance(value, str)


def is_float(value):
    """a number, or a list of only integers or only floats"""
    if isinstance(value, list):
        return all(isinstance(v, float) for v in value) or all(isinstance(v, int) for v in value)
    return isinstance(value, (int, float))


def is_numeric(value):
    return is_float(value)


def in_domain(value, datatype):
    """the value is in the domain of the datatype or, element by element, of its array form"""
    if datatype == "uint8" or datatype == "uint8[]":
        return is_uint8(value)
    if datatype == "int8" or datatype == "int8[]":
        return is_int8(value)
    if datatype == "uint16" or datatype == "uint16[]":
        return is_uint16(value)
    if datatype == "int16" or datatype == "int16[]":
        return is_int16(value)
    if datatype == "uint32" or datatype == "uint32[]":
        return is_uint32(value)
    if datatype == "int32" or datatype == "int32[]":
        return is_int32(value)
    if datatype == "uint64" or datatype == "uint64[]":
        return is_uint64(value)
    if datatype == "int64" or datatype == "int64[]":
        return is_int64(value)
    if datatype == "boolean" or datatype == "boolean[]":
        return is_bool(value)
    if datatype == "string" or datatype == "string[]":
        return is_string(value)
    if datatype == "float" or datatype == "float[]" or datatype == "double" or datatype == "double[]":
        return is_float(value)
    if datatype == "numeric" or datatype == "numeric[]":
        return is_numeric(value)
    raise DatatypesException


SCALARS = ("uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "boolean", "float", "double", "string", "numeric")


BUILTIN = SCALARS + tuple(s + "[]" for s in SCALARS)


def builtin(name):
    return name in BUILTIN


def is_subtype_of(check, base):
    """same width and signedness chains, every numeric type below numeric; arrays element-wise"""
    if not builtin(check):
        raise DatatypesException
    if not builtin(base):
        raise DatatypesException
    return check == base or check in narrower(base)


def narrower(base):
    """the datatypes whose values are all in the base datatype, by name"""
    return NARROWER[base]


NARROWER = {
    "uint8": (), "int8": (), "boolean": (), "float": (), "double": (), "string": (),
    "uint16": ("uint8",), "uint32": ("uint8", "uint16"), "uint64": ("uint8", "uint16", "uint32"),
    "int16": ("int8",), "int32": ("int8", "int16"), "int64": ("int8", "int16", "int32"),
    "numeric": ("uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float", "double"),
}
NARROWER.update({k + "[]": tuple(x + "[]" for x in v) for k, v in NARROWER.items()})


def is_array(datatype):
    return datatype[-2:] == "[]"


def visible(struct, fqn):
    """the struct lies in a branch enclosing the node, and is not the struct that contains the node"""
    inside = (fqn + ".").startswith(struct + ".")
    return not inside and fqn.startswith(".".join(struct.split(".")[:-1]) + ".")


def get_fqn_namespaced_datatypes(fqn):
    """short name -> the innermost visible struct of that name"""
    if not fqn:
        return {}
    outer_first = sorted(dynamic_datatypes, key=lambda t: (t.count("."), t))
    return {t.split(".")[-1]: t for t in outer_first if visible(t, fqn)}


def resolve_datatype(datatype, fqn):
    if not fqn:
        return datatype
    base = datatype.rstrip("[]")
    short = get_fqn_namespaced_datatypes(fqn)
    full = short[base] if base in short else base
    return full + "[]" if datatype.endswith("[]") else full


def get_node_identifier_bytes(qualified_name, data_type, node_type, unit, allowed, minimum, maximum, strict_mode):
    lo = "" if minimum is None else minimum
    hi = "" if maximum is None else maximum
    text = f"{qualified_name}: unit: {unit}, datatype: {data_type}, type: {node_type}allowed: {allowed}min: {lo}max: {hi}"
    return text.encode() if strict_mode else text.encode().lower()


def fnv1_32_hash(identifier):
    h = 2166136261
    for b in identifier:
        h = ((h * 16777619) & 0xFFFFFFFF) ^ b
    return h


def fnv1_32_wrapper(name, source, strict_mode):
    ident = get_node_identifier_bytes(
        name, source.get("datatype", ""), source.get("type", ""), source.get("unit", ""), source.get("allowed", ""),
        source.get("min"), source.get("max"), strict_mode,
    )
    return format(fnv1_32_hash(ident), "08X")
