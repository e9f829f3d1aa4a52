"""Specifications of the SAMM exporter's decisions (vssexporters.vss2samm.helpers)."""
import re

from rdflib import XSD, URIRef

from vss_tools.vspec.model import NodeType
from vss_tools.vspec.vssexporters.vss2samm.helpers.samm_concepts import SammCConcepts, SammConcepts

ESCAPE = "#V2E-ESC-CHAR#"

XSD_TYPES = {
    "uint8": XSD.unsignedByte,
    "int8": XSD.byte,
    "uint16": XSD.unsignedShort,
    "int16": XSD.short,
    "uint32": XSD.unsignedInt,
    "int32": XSD.int,
    "uint64": XSD.unsignedLong,
    "int64": XSD.long,
    "boolean": XSD.boolean,
    "float": XSD.float,
    "double": XSD.double,
    "string": XSD.string,
    "dateTime": XSD.dateTime,
    "dateTimeStamp": XSD.dateTimeStamp,
    "iso8601": XSD.dateTimeStamp,
    "anyURI": XSD.anyURI,
}


def unit(name):
    return URIRef(f"urn:samm:org.eclipse.esmf.samm:unit:2.1.0#{name}")


UNITS = {
    "cm3": unit("cubicCentimetre"),
    "cm^3": unit("cubicCentimetre"),
    "kw": unit("kilowatt"),
    "kW": unit("kilowatt"),
    "kWh": unit("kilowattHour"),
    "l": unit("litre"),
    "l/100km": unit("litrePerHour"),
    "mm": unit("millimetre"),
    "kg": unit("kilogram"),
    "inch": unit("inch"),
    "A": unit("ampere"),
    "Ah": unit("ampereHour"),
    "Nm": unit("newtonMetre"),
    "N.m": unit("newtonMetre"),
    "V": unit("volt"),
    "celsius": unit("degreeCelsius"),
    "cm/s": unit("centimetrePerSecond"),
    "degree": unit("degreeUnitOfAngle"),
    "degrees": unit("degreeUnitOfAngle"),
    "degrees/s": unit("degreePerSecond"),
    "g/s": unit("gramPerSecond"),
    "kilometer": unit("kilometre"),
    "km": unit("kilometre"),
    "km/h": unit("kilometrePerHour"),
    "kpa": unit("kilopascal"),
    "kPa": unit("kilopascal"),
    "l/h": unit("litrePerHour"),
    "m": unit("metre"),
    "m/s": unit("metrePerSecond"),
    "m/s2": unit("metrePerSecondSquared"),
    "m/s^2": unit("metrePerSecondSquared"),
    "mbar": unit("millibar"),
    "min": unit("minuteUnitOfTime"),
    "ml": unit("millilitre"),
    "pa": unit("pascal"),
    "Pa": unit("pascal"),
    "percent": unit("percent"),
    "percentage": unit("percent"),
    "ratio": unit("rate"),
    "rpm": unit("revolutionsPerMinute"),
    "g/km": unit("kilogramPerKilometre"),
    "s": unit("secondUnitOfTime"),
    "h": unit("secondUnitOfTime"),
    "W": unit("watt"),
    "cpm": unit("cycle"),
    "bpm": unit("cycle"),
    "iso8601": unit("secondUnitOfTime"),
    "blank": unit("blank"),
}


def has_constraints(vss_node):
    """a sensor or actuator with a minimum or a maximum"""
    d = vss_node.data
    if not hasattr(d, "type") or d.type not in (NodeType.ACTUATOR, NodeType.SENSOR):
        return False
    if hasattr(d, "max") and d.max is not None:
        return True
    return hasattr(d, "min") and d.min is not None


def samm_selected(selected_signals_paths, vss_node):
    """the node is selected: nothing is, or a selected path lies at, above or below it"""
    if not selected_signals_paths:
        return True
    f = vss_node.get_fqn()
    for s in selected_signals_paths:
        if (s + ".").startswith(f + ".") or (f + ".").startswith(s + "."):
            return True
    return False


def samm_kind(vss_node):
    """the class of the signal's characteristic"""
    d = vss_node.data
    if hasattr(d, "allowed") and d.allowed and type(d.allowed) is list:
        return SammCConcepts.STATE if d.default else SammCConcepts.ENUM
    if hasattr(d, "datatype") and d.datatype and d.datatype.endswith("[]"):
        return SammCConcepts.LIST
    if (hasattr(d, "type") and d.type in (NodeType.SENSOR, NodeType.ACTUATOR, NodeType.ATTRIBUTE)
            and hasattr(d, "unit") and d.unit and d.unit != "iso8601"):
        return SammCConcepts.MEASUREMENT
    return SammConcepts.CHARACTERISTIC


def samm_datatype(vss_node):
    """the XSD type of the signal's datatype"""
    d = vss_node.data
    if hasattr(d, "unit") and d.unit == "iso8601":
        return XSD_TYPES["iso8601"]
    if not hasattr(d, "datatype"):
        return XSD_TYPES["anyURI"]
    t = d.datatype if d.datatype else "anyURI"
    if t.endswith("[]"):
        t = t[:-2]
    if t in XSD_TYPES:
        return XSD_TYPES[t]
    return XSD_TYPES["anyURI"]


def samm_unit(unit):
    """the SAMM unit of a VSS unit; an unknown one is blank"""
    if unit in UNITS:
        return UNITS[unit]
    return UNITS["blank"]


def samm_instance_type(instances_list):
    """the common name of numbered instances, if all have the same"""
    for e in instances_list:
        if type(e) is not str:
            return ""
    name = ""
    for e in instances_list:
        n = re.sub(r"[0-9]", "", e)
        if not name:
            name = n
        elif name != n:
            name = ""
            break
    return name


def lower_first(string_to_update):
    if len(string_to_update) > 0:
        return string_to_update[0].lower() + string_to_update[1:]
    return string_to_update


def upper_first(string_to_update):
    if len(string_to_update) > 0:
        return string_to_update[0].upper() + string_to_update[1:]
    return string_to_update
