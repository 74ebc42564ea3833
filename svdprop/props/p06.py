"""A device that can be written as a schema-valid document is written as one."""
from .. import common, gen, schemas, spec, xmlast
from ..engine import Violation
from . import p05
from svdsuite import Serializer, Validator, SVDSchemaVersion

ID = "P06"
RULE = "the device, written in schema order by the reference emitter, is valid for at least one schema version"
QUICK, THOROUGH = 15000, 250000
ASSUMPTIONS = ["validity is decided by libxml2's XSD validator over the schema copies in /verif/golden"]
RICH = gen.profile(meta=0.5, prop=0.4, dim=0.25, cpu=0.5, wc=0.3, interrupts=0.4, conts=0.4, derive=0.3)


def generate(r):
    if r.random() < 0.6:
        d = gen.Gen(r, RICH).device()
    else:
        d = names(gen.any_device(r, p=r.choice([0.2, 0.5, 0.8]), depth=2, lists=2), r)
    d = schemas.tidy(d, r)
    if r.random() < 0.4:
        d = older(d, r)
    return {"device": d, "pretty": r.random() < 0.3}


def older(d, r):
    """the device, changed until it satisfies one of the versions"""
    doc = schemas.fit(spec.to_ast(d), r.choice(schemas.VERSIONS + 2 * schemas.VERSIONS[:4]), r)
    try:
        return d if doc is None else spec.ref_parse(doc)
    except (spec.Reject, spec.OutOfDomain):
        return d


def names(d, r):
    """identifiers and literals where the schema asks for them"""
    for carrier, xml, attr, reader, presence in spec.TABLE[d["_"]]:
        v = d[attr]
        if v is None:
            continue
        if carrier == "one":
            names(v, r)
        elif carrier in ("many", "wrapped"):
            for x in v:
                names(x, r)
        elif reader == "str" and attr not in ("description", "license_text", "display_name", "disable_condition", "vendor",
                                              "xs_no_namespace_schema_location"):
            d[attr] = r.choice(["Abc", "x_1", "R2", "_", "A" * r.choice([9, 33, 65, 200])])
        elif reader == "prot" and v == "any":
            d[attr] = "s"
        elif reader in ("int", "hex") and isinstance(v, int):
            d[attr] = v % (1 << r.choice([4, 8, 11, 16, 32] if reader == "int" else [4, 16, 32, 32]))
    kind = d["_"]
    if kind == "cpu":
        d["revision"] = "r0p1"
        d["nvic_prio_bits"] = r.randint(2, 8)
        if d["device_num_interrupts"] is not None:
            d["device_num_interrupts"] = r.choice([0, 16, 240, 300, 1024])
        if d["sau_num_regions"] is not None:
            d["sau_num_regions"] %= 256
    if kind == "enumeratedValue":
        d["value"] = r.choice(["0", "0x1", "#01x", "0b11", "0X1F", "255", "4096", "#xxxx", "0b1XX0", "4294967295"])
    if kind == "field":
        for k in ("bit_offset", "bit_width", "lsb", "msb", "bit_range"):
            d[k] = None
        how = r.randrange(4)
        at = r.choice([0, 1, 3, 9, 10, 31, 40])
        if how == 0:
            d["bit_range"] = f"[{at + r.choice([0, 2, 7])}:{at}]"
        elif how == 1:
            d["lsb"], d["msb"] = at, at + r.choice([0, 1, 23])
        else:
            d["bit_offset"] = at
            d["bit_width"] = r.choice([None, 1, 4, 16, 64])
    if kind == "writeConstraint":
        keep = r.choice(["write_as_read", "use_enumerated_values", "range_"])
        d.update(write_as_read=None, use_enumerated_values=None, range_=None)
        d[keep] = [0, 3] if keep == "range_" else True
    if kind in ("peripheral", "cluster", "register", "field"):
        if d["dim"] is None or d["dim_increment"] is None:
            for k in ("dim", "dim_increment", "dim_index", "dim_name", "dim_array_index"):
                d[k] = None
        elif d["dim_index"] is not None:
            d["dim_index"] = r.choice(["0-3", "A-C", "a,b"])
    return d


def check(case, ctx):
    d = case["device"]
    plain = xmlast.emit_bytes(spec.to_ast(d))
    written = Serializer.device_to_svd_content(spec.build(d), pretty_print=case["pretty"])
    n = 0
    for v in schemas.VERSIONS:
        if not schemas.verdict(plain, v):
            continue
        n += 1
        if not schemas.verdict(written, v):
            raise Violation(f"schema {v}: {schemas.schema(v).error_log.last_error}")
        if not Validator.validate_xml_content(written, get_exception=False, schema_version=SVDSchemaVersion(v)):
            raise Violation(f"schema {v}: Validator refuses the written document")
        ctx.tag("valid " + v)
    ctx.nontrivial(n > 0)


def smaller(case):
    for new in p05.smaller_dicts(case["device"]):
        yield dict(case, device=new)


sample, explain = p05.sample, p05.explain
