"""Independent statement of the SVD document model: one table per element says which child element or attribute
carries which model attribute and how its text is read.  From this table come the reference parser (document -> plain
dict), the builder (plain dict -> svdsuite parse-model objects) and the reference emitter (plain dict -> document).
"""
import dataclasses
import enum
import re

from .xmlast import N, L, kids


class Reject(Exception):
    """the document must be refused (ParserException or NotImplementedError)"""


class OutOfDomain(Exception):
    """the document uses something no property here speaks about"""


ACCESS = ["read-only", "write-only", "read-write", "writeOnce", "read-writeOnce"]
PROT = ["s", "n", "p", "any"]
ENDIAN = ["little", "big", "selectable", "other"]
SAUACC = ["c", "n"]
USAGE_AB = ["registers", "buffer", "reserved"]
DATATYPE = [f"{u}int{w}_t{p}" for u in ("u", "") for w in (8, 16, 32, 64) for p in ("", " *")]
MWV = ["oneToClear", "oneToSet", "oneToToggle", "zeroToClear", "zeroToSet", "zeroToToggle", "clear", "set", "modify"]
READACT = ["clear", "set", "modify", "modifyExternal"]
USAGE_EV = ["read", "write", "read-write"]
CPUNAMES = [
    "CM0", "CM0PLUS", "CM0+", "CM1", "CM3", "CM4", "CM7", "CM23", "CM33", "CM35P", "CM52", "CM55", "CM85", "SC000",
    "SC300", "ARMV8MML", "ARMV8MBL", "ARMV81MML", "CA5", "CA7", "CA8", "CA9", "CA15", "CA17", "CA53", "CA57", "CA72",
    "SMC1", "other",
]

ENUMS = {
    "access": ACCESS, "prot": PROT, "endian": ENDIAN, "sauacc": SAUACC, "abusage": USAGE_AB, "dtype": DATATYPE,
    "mwv": MWV, "readact": READACT, "evusage": USAGE_EV, "cpuname": CPUNAMES,
}

# (kind of carrier, xml name, model attribute, reader, presence)
#   carrier: "e" child element, "a" attribute, "r" raw (unstripped) child element
#   presence: "m" mandatory, "o" optional, or ("d", value): missing/empty means value
E, A, R = "e", "a", "r"

DIM = [
    (E, "dim", "dim", "int", "o"),
    (E, "dimIncrement", "dim_increment", "int", "o"),
    (E, "dimIndex", "dim_index", "str", "o"),
    (E, "dimName", "dim_name", "str", "o"),
    ("one", "dimArrayIndex", "dim_array_index", "dimArrayIndex", "o"),
]
PROPS = [
    (E, "size", "size", "int", "o"),
    (E, "access", "access", "access", "o"),
    (E, "protection", "protection", "prot", "o"),
    (E, "resetValue", "reset_value", "hex", "o"),
    (E, "resetMask", "reset_mask", "hex", "o"),
]
RC = [("many", ("register", "cluster"), "registers_clusters", None, "o")]

TABLE = {
    "region": [
        (A, "enabled", "enabled", "bool", "o"),
        (A, "name", "name", "str", "o"),
        (E, "base", "base", "hex", "m"),
        (E, "limit", "limit", "hex", "m"),
        (E, "access", "access", "sauacc", "m"),
    ],
    "sauRegionsConfig": [
        (A, "enabled", "enabled", "bool", "o"),
        (A, "protectionWhenDisabled", "protection_when_disabled", "prot", "o"),
        ("many", ("region",), "regions", None, "o"),
    ],
    "cpu": [
        (E, "name", "name", "cpuname", "m"),
        (E, "revision", "revision", "str", "m"),
        (E, "endian", "endian", "endian", "m"),
        (E, "mpuPresent", "mpu_present", "bool", "o"),
        (E, "fpuPresent", "fpu_present", "bool", "o"),
        (E, "fpuDP", "fpu_dp", "bool", "o"),
        (E, "dspPresent", "dsp_present", "bool", "o"),
        (E, "icachePresent", "icache_present", "bool", "o"),
        (E, "dcachePresent", "dcache_present", "bool", "o"),
        (E, "itcmPresent", "itcm_present", "bool", "o"),
        (E, "dtcmPresent", "dtcm_present", "bool", "o"),
        (E, "vtorPresent", "vtor_present", "bool", "o"),
        (E, "nvicPrioBits", "nvic_prio_bits", "int", "m"),
        (E, "vendorSystickConfig", "vendor_systick_config", "bool", "m"),
        (E, "deviceNumInterrupts", "device_num_interrupts", "int", "o"),
        (E, "sauNumRegions", "sau_num_regions", "int", "o"),
        ("one", "sauRegionsConfig", "sau_regions_config", "sauRegionsConfig", "o"),
    ],
    "enumeratedValue": [
        (E, "name", "name", "str", "m"),
        (R, "description", "description", "str", "o"),
        (E, "value", "value", "str", "o"),
        (E, "isDefault", "is_default", "bool", "o"),
    ],
    "dimArrayIndex": [
        (E, "headerEnumName", "header_enum_name", "str", "o"),
        ("many", ("enumeratedValue",), "enumerated_values", None, "o"),
    ],
    "addressBlock": [
        (E, "offset", "offset", "hex", ("d", 0)),
        (E, "size", "size", "hex", "m"),
        (E, "usage", "usage", "abusage", "m"),
        (E, "protection", "protection", "prot", "o"),
    ],
    "interrupt": [
        (E, "name", "name", "str", "m"),
        (R, "description", "description", "str", "o"),
        (E, "value", "value", "int", ("d", 0)),
    ],
    "writeConstraint": [
        (E, "writeAsRead", "write_as_read", "bool", "o"),
        (E, "useEnumeratedValues", "use_enumerated_values", "bool", "o"),
        ("range", "range", "range_", None, "o"),
    ],
    "enumeratedValues": [
        (A, "derivedFrom", "derived_from", "str", "o"),
        (E, "name", "name", "str", "o"),
        (E, "headerEnumName", "header_enum_name", "str", "o"),
        (E, "usage", "usage", "evusage", "o"),
        ("many", ("enumeratedValue",), "enumerated_values", None, "o"),
    ],
    "field": [(A, "derivedFrom", "derived_from", "str", "o")] + DIM + [
        (E, "name", "name", "str", "m"),
        (R, "description", "description", "str", "o"),
        (E, "bitOffset", "bit_offset", "int", "o"),
        (E, "bitWidth", "bit_width", "int", "o"),
        (E, "lsb", "lsb", "int", "o"),
        (E, "msb", "msb", "int", "o"),
        (E, "bitRange", "bit_range", "str", "o"),
        (E, "access", "access", "access", "o"),
        (E, "modifiedWriteValues", "modified_write_values", "mwv", "o"),
        ("one", "writeConstraint", "write_constraint", "writeConstraint", "o"),
        (E, "readAction", "read_action", "readact", "o"),
        ("many", ("enumeratedValues",), "enumerated_value_containers", None, "o"),
    ],
    "register": [(A, "derivedFrom", "derived_from", "str", "o")] + DIM + [
        (E, "name", "name", "str", "m"),
        (E, "displayName", "display_name", "str", "o"),
        (R, "description", "description", "str", "o"),
        (E, "alternateGroup", "alternate_group", "str", "o"),
        (E, "alternateRegister", "alternate_register", "str", "o"),
        (E, "addressOffset", "address_offset", "hex", "m"),
    ] + PROPS + [
        (E, "dataType", "data_type", "dtype", "o"),
        (E, "modifiedWriteValues", "modified_write_values", "mwv", "o"),
        ("one", "writeConstraint", "write_constraint", "writeConstraint", "o"),
        (E, "readAction", "read_action", "readact", "o"),
        ("wrapped", ("fields", "field"), "fields", None, "o"),
    ],
    "cluster": [(A, "derivedFrom", "derived_from", "str", "o")] + DIM + [
        (E, "name", "name", "str", "m"),
        (R, "description", "description", "str", "o"),
        (E, "alternateCluster", "alternate_cluster", "str", "o"),
        (E, "headerStructName", "header_struct_name", "str", "o"),
        (E, "addressOffset", "address_offset", "hex", "m"),
    ] + PROPS + RC,
    "peripheral": [(A, "derivedFrom", "derived_from", "str", "o")] + DIM + [
        (E, "name", "name", "str", "m"),
        (E, "version", "version", "str", "o"),
        (R, "description", "description", "str", "o"),
        (E, "alternatePeripheral", "alternate_peripheral", "str", "o"),
        (E, "groupName", "group_name", "str", "o"),
        (E, "prependToName", "prepend_to_name", "str", "o"),
        (E, "appendToName", "append_to_name", "str", "o"),
        (E, "headerStructName", "header_struct_name", "str", "o"),
        (R, "disableCondition", "disable_condition", "str", "o"),
        (E, "baseAddress", "base_address", "hex", "m"),
    ] + PROPS + [
        ("many", ("addressBlock",), "address_blocks", None, "o"),
        ("many", ("interrupt",), "interrupts", None, "o"),
        ("wrapped", ("registers", ("register", "cluster")), "registers_clusters", None, "o"),
    ],
    "device": [
        (A, "xs:noNamespaceSchemaLocation", "xs_no_namespace_schema_location", "str", ("d", "")),
        (A, "schemaVersion", "schema_version", "str", "m"),
        (E, "vendor", "vendor", "str", "o"),
        (E, "vendorID", "vendor_id", "str", "o"),
        (E, "name", "name", "str", "m"),
        (E, "series", "series", "str", "o"),
        (E, "version", "version", "str", "m"),
        (R, "description", "description", "str", ("d", "")),
        (R, "licenseText", "license_text", "str", "o"),
        ("one", "cpu", "cpu", "cpu", "o"),
        (E, "headerSystemFilename", "header_system_filename", "str", "o"),
        (E, "headerDefinitionsPrefix", "header_definitions_prefix", "str", "o"),
        (E, "addressUnitBits", "address_unit_bits", "int", "m"),
        (E, "width", "width", "int", "m"),
    ] + PROPS + [
        ("wrapped", ("peripherals", "peripheral"), "peripherals", None, "o"),
    ],
}

DEC = re.compile(r"\+?[0-9]+\Z")
HEX = re.compile(r"\+?0[xX][0-9a-fA-F]+\Z")
BIN = re.compile(r"(#|0[bB])[01]+\Z")
# text that is certainly no number in any notation SVD knows (scaled k/m/g/t suffixes are left out on purpose)
GARBAGE = [
    re.compile(p)
    for p in (
        r"\Z", r"[G-Zg-z!?@$%&*]+\Z", r"0[xX]\Z", r"#\Z", r"0[bB]\Z", r"0[xX][0-9a-fA-F]*[g-zG-Z]+\Z",
        r"(#|0[bB])[01]*[2-9]+[0-9]*\Z", r"[0-9]+\.[0-9]+\Z", r"[0-9]+ [0-9]+\Z", r"[0-9]+[a-fA-F]+\Z",
        r"[0-9]+,[0-9]+\Z", r"--?[0-9]+-\Z", r"(#|0[bB])[01]*[xX]+[01xX]*\Z",  # don't care bits only stand in enumerated values
        r"(0[xX])?[0-9a-fA-F]+#[0-9a-fA-F#]*\Z", r"0[xX]#[0-9a-fA-F]*\Z",
        r"\+?(0[xX]|0[bB]|#)?[0-9a-fA-F]*_[0-9a-fA-F_]*\Z", r"\+?0[oO][0-7]+\Z", r"(0[bB]|#)+(0[bB]|#)[01]+\Z",
        r"(?=.*[^\x00-\x7f])[^\W_]+\Z",
    )
]


def too_long(text):
    """numbers of up to 900 digits are read, of more than 1500 refused"""
    if 900 < len(text) <= 1500:
        raise OutOfDomain("number of about a thousand digits")
    return len(text) > 1500


def read_int(text):
    if too_long(text):
        raise Reject("number of thousands of digits")
    if DEC.match(text):
        return int(text, 10)
    if HEX.match(text):
        return int(text.lstrip("+")[2:], 16)
    if BIN.match(text):
        return int(text.lstrip("#")[2:] if text[0] != "#" else text[1:], 2)
    for g in GARBAGE:
        if g.match(text):
            raise Reject(f"not a number: {text!r}")
    raise OutOfDomain(f"number notation {text!r}")


def read_bool(text):
    low = text.lower()
    if low in ("true", "1"):
        return True
    if low in ("false", "0"):
        return False
    raise Reject(f"not a boolean: {text!r}")


def read_enum(kind, text):
    if kind == "access":
        low = text.lower()
        for v in ACCESS:
            if v.lower() == low:
                return v
        if low == "read":
            return "read-only"
        if low == "write":
            return "write-only"
        return None
    if kind == "cpuname":
        if text == "CM0+":
            return text
        for v in CPUNAMES:
            if v.upper() == text.upper() and v != "CM0+":
                return v
        if text.upper() == "CM0_PLUS":
            raise OutOfDomain("CM0_PLUS")
        raise Reject(f"unknown cpu {text!r}")
    if text in ENUMS[kind]:
        return text
    raise Reject(f"unknown {kind} {text!r}")


def read_value(reader, text):
    if reader == "str":
        return text
    if reader in ("int", "hex"):
        return read_int(text)
    if reader == "bool":
        return read_bool(text)
    return read_enum(reader, text)


_WS = " \t\r\n"


def leaf_text(node, tag, raw):
    """the text that counts: the last element of that name; empty means absent"""
    found = kids(node, tag)
    if not found:
        return None
    text = found[-1].get("x")
    if text is None or text == "":
        return None
    if found[-1].get("c"):
        raise OutOfDomain("mixed content")
    if raw:
        return text
    stripped = text.strip()
    return stripped


def ref_parse(node, kind="device"):
    """document -> {"_": kind, attribute: value}"""
    out = {"_": kind}
    for carrier, xml, attr, reader, presence in TABLE[kind]:
        if carrier == A:
            val = (node.get("a") or {}).get(xml)
            val = val.strip() if val is not None else None
        elif carrier in (E, R):
            val = leaf_text(node, xml, carrier == R)
        elif carrier == "one":
            found = kids(node, xml)
            out[attr] = ref_parse(found[-1], reader) if found else None
            continue
        elif carrier == "many":
            out[attr] = [ref_parse(c, c["t"]) for c in node.get("c", ()) if c["t"] in xml]
            continue
        elif carrier == "wrapped":
            wrapper, inner = xml
            inner = (inner,) if isinstance(inner, str) else inner
            wrappers = kids(node, wrapper)
            if wrapper == "peripherals" and not wrappers:
                raise Reject("missing peripherals")
            out[attr] = [ref_parse(c, c["t"]) for w in wrappers for c in w.get("c", ()) if c["t"] in inner]
            continue
        elif carrier == "range":
            found = kids(node, xml)
            if not found:
                out[attr] = None
                continue
            pair = []
            for sub in ("minimum", "maximum"):
                text = leaf_text(found[-1], sub, False)
                if text is None:
                    raise Reject(f"missing {sub}")
                pair.append(read_int(text))
            out[attr] = pair
            continue
        else:
            raise AssertionError(carrier)
        if val is None:
            if presence == "m":
                raise Reject(f"missing {xml} in {kind}")
            out[attr] = presence[1] if isinstance(presence, tuple) else None
        else:
            out[attr] = read_value(reader, val)
    return out


# ----------------------------------------------------------------------------- objects <-> dicts

CLASSNAMES = {
    "SVDSauRegion": "region", "SVDSauRegionsConfig": "sauRegionsConfig", "SVDCPU": "cpu",
    "SVDEnumeratedValue": "enumeratedValue", "SVDDimArrayIndex": "dimArrayIndex", "SVDAddressBlock": "addressBlock",
    "SVDInterrupt": "interrupt", "SVDWriteConstraint": "writeConstraint",
    "SVDEnumeratedValueContainer": "enumeratedValues", "SVDField": "field", "SVDRegister": "register",
    "SVDCluster": "cluster", "SVDPeripheral": "peripheral", "SVDDevice": "device",
}
KINDCLASS = {v: k for k, v in CLASSNAMES.items()}


def observe_parsed(obj):
    """svdsuite parse-model object -> plain dict (types are part of what is observed)"""
    if obj is None or type(obj) in (int, bool, str):
        return obj
    if isinstance(obj, enum.Enum):
        return obj.value
    if isinstance(obj, (list, tuple)):
        return [observe_parsed(o) for o in obj]
    name = type(obj).__name__
    if name in CLASSNAMES:
        out = {"_": CLASSNAMES[name]}
        for f in dataclasses.fields(obj):
            if f.name != "parent":
                out[f.name] = observe_parsed(getattr(obj, f.name))
        return out
    return f"<{type(obj).__name__} {obj!r}>"


ENUMCLASS = {
    "access": "AccessType", "prot": "ProtectionStringType", "endian": "EndianType", "sauacc": "SauAccessType",
    "abusage": "EnumeratedTokenType", "dtype": "DataTypeType", "mwv": "ModifiedWriteValuesType",
    "readact": "ReadActionType", "evusage": "EnumUsageType", "cpuname": "CPUNameType",
}


def build(d, parents=True):
    """plain dict -> svdsuite parse-model objects, without the parser under test"""
    from svdsuite.model import parse as mp, types as mt

    kind = d["_"]
    kwargs = {}
    children = []
    for carrier, xml, attr, reader, _ in TABLE[kind]:
        val = d.get(attr)
        if carrier in (E, R, A):
            if val is not None and reader in ENUMCLASS:
                val = getattr(mt, ENUMCLASS[reader])(val)
        elif carrier == "one":
            val = build(val, parents) if val is not None else None
            if val is not None:
                children.append(val)
        elif carrier in ("many", "wrapped"):
            val = [build(v, parents) for v in (val or [])]
            children.extend(val)
        elif carrier == "range":
            val = tuple(val) if val is not None else None
        kwargs[attr] = val
    obj = getattr(mp, KINDCLASS[kind])(**kwargs)
    if parents:
        for c in children:
            c.parent = obj
    return obj


def to_ast(d):
    """plain dict -> document, in schema order (reference emitter)"""
    kind = d["_"]
    attrs = {}
    children = []
    for carrier, xml, attr, reader, _ in TABLE[kind]:
        val = d.get(attr)
        if val is None:
            continue
        if carrier == A:
            attrs[xml] = str(val).lower() if reader == "bool" else str(val)
        elif carrier in (E, R):
            if reader == "bool":
                val = "true" if val else "false"
            elif reader == "hex":
                val = f"0x{val:x}"
            children.append(L(xml, val))
        elif carrier == "one":
            children.append(to_ast(val))
        elif carrier == "many":
            children.extend(to_ast(v) for v in val)
        elif carrier == "wrapped":
            if val or xml[0] == "peripherals":
                children.append(N(xml[0], *[to_ast(v) for v in val]))
        elif carrier == "range":
            children.append(N("range", L("minimum", val[0]), L("maximum", val[1])))
    return N(kind, *children, attrs=attrs)


def diff(want, got, path="", limit=6):
    """readable differences between two plain values"""
    out = []

    def rec(a, b, p):
        if len(out) >= limit:
            return
        if type(a) is not type(b) and not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
            out.append(f"{p}: expected {a!r}, got {b!r}"[:300])
        elif isinstance(a, dict):
            for k in sorted(set(a) | set(b), key=str):
                if k not in a:
                    out.append(f"{p}.{k}: unexpected {b[k]!r}"[:300])
                elif k not in b:
                    out.append(f"{p}.{k}: missing, expected {a[k]!r}"[:300])
                else:
                    rec(a[k], b[k], f"{p}.{k}")
        elif isinstance(a, (list, tuple)):
            if len(a) != len(b):
                an = [x.get("name") if isinstance(x, dict) else x for x in a][:12]
                bn = [x.get("name") if isinstance(x, dict) else x for x in b][:12]
                out.append(f"{p}: expected {len(a)} items {an!r}, got {len(b)} {bn!r}"[:300])
                return
            for i, (x, y) in enumerate(zip(a, b)):
                tag = x.get("name") if isinstance(x, dict) and x.get("name") else i
                rec(x, y, f"{p}[{tag}]")
        elif a != b:
            out.append(f"{p}: expected {a!r}, got {b!r}"[:300])

    rec(want, got, path)
    return out
