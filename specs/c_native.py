"""The C reader: functions under contract for CBMC (/verif/native_c/contracts.c).  `unwind` covers every iteration the stated domain allows
(unwinding assertions are on), so these are complete; the ones named bounded are not, and are reported as such."""
import shutil

from pyvc.engine import Contract

FULL = [
    ("getMaxValidation", "contract", 5, "C18", "all valid values"),
    ("translateToMatrixIndex", "contract", 5, "C18", "all bytes"),
    ("validationMatrix", "harness", 5, "C18", "all valid values"),
    ("compareNodeName", "harness", 257, "C18", "names and segments of up to 255 bytes (one length byte)"),
    ("hexDigit", "contract", 5, "C17", "all digits"),
    ("hexToInt", "contract", 5, "C17", "all digits"),
    ("intToHex", "harness", 5, "C17", "0..255"),
    ("nodeTypeToString", "harness", 12, "C17", "all types"),
    ("stringToNodeType", "harness", 12, "C17", "names of up to 255 bytes (one length byte)"),
    ("validate", "harness", 20, "C17", "all valid values (validateToString, validateToUint8)"),
    ("accessors", "harness", 5, "C17 C18", "any node (VSSgetName, ...)"),
]
BOUNDED = [
    ("bounded_countSegments", "harness", 9, "C18", "paths of up to 6 characters"),
    ("bounded_getPathSegment", "harness", 9, "C18", "paths of up to 6 characters"),
    ("bounded_matchPath", "harness", 9, "C18", "paths and names of up to 3 characters (pushPathSegment, popPathSegment)"),
    ("bounded_allowed", "harness", 12, "C17", "up to 2 allowed values of up to 2 characters (countAllowedElements, extractAllowedElement, calculatAllowedStrLen)"),
]


def register(env, missing):
    from native_c.run import verify

    env.external = []
    for rows, bounded in ((FULL, False), (BOUNDED, True)):
        for f, kind, unwind, props, domain in rows:
            c = Contract(f"binary/c_parser/cparserlib.c:{f.removeprefix('bounded_')}", None, {}, props=props.split())
            c.native = (f, kind, unwind)
            c.bounded = domain if bounded else ""
            c.note = ("BOUNDED: " if bounded else "") + domain
            c.run = verify
            if shutil.which("cbmc") is None:
                missing.append((c, "cbmc is not installed"))
            else:
                env.external.append(c)
