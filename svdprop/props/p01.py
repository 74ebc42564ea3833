"""Parsing carries the whole document over into the model and nothing else."""
from .. import common, gen, spec, xmlast
from ..engine import Violation
from svdsuite import Parser

ID = "P01"
RULE = "the document is well formed for the reference parser and has at least 25 XML elements"
QUICK, THOROUGH = 30000, 400000
ASSUMPTIONS = common.ASSUME[:1]
RICH = gen.profile(meta=0.6, prop=0.5, dim=0.3, cpu=0.6, wc=0.4, interrupts=0.4, conts=0.5)


def generate(r):
    if r.random() < 0.7:
        d = gen.any_device(r)
    else:
        d = gen.Gen(r, RICH).device()
    doc = gen.write_doc(d, r, fancy=r.choice([0, 0.3]), pad=r.choice([0, 0.2]), shuffle=r.choice([0, 0.5]),
                        split=r.choice([0, 0.4]), unknown=r.choice([0, 0.1]))
    for block in common.nodes(doc, "addressBlock"):
        if r.random() < 0.05:  # counts as 0 then
            block["c"] = [c for c in block["c"] if c["t"] != "offset"]
    return {"doc": doc, "style": gen.any_style(r)}


def links(obj, parent, path="device"):
    """every element's parent is the element that contains it"""
    if path != "device" and obj.parent is not parent:
        raise Violation(f"{path}: parent is {type(obj.parent).__name__}, not the containing {type(parent).__name__}")
    kind = spec.CLASSNAMES[type(obj).__name__]
    for carrier, _, attr, _, _ in spec.TABLE[kind]:
        val = getattr(obj, attr)
        if carrier == "one" and val is not None:
            links(val, obj, f"{path}.{attr}")
        elif carrier in ("many", "wrapped"):
            for i, v in enumerate(val):
                links(v, obj, f"{path}.{attr}[{i}]")


def check(case, ctx):
    try:
        want = spec.ref_parse(case["doc"])
    except spec.OutOfDomain as e:
        ctx.skip(common.generic(e))
    except spec.Reject as e:
        want = None
        reason = e
    try:
        parsed = Parser.from_xml_content(xmlast.emit_bytes(case["doc"], case["style"])).get_parsed_device()
    except common.REFUSED_BY_PARSER as e:
        if want is not None:
            raise Violation(f"refused: {type(e).__name__} {e}") from None
        ctx.tag("rejected")
        return
    if want is None:
        raise Violation(f"accepted although {reason}")
    common.compare(want, spec.observe_parsed(parsed))
    links(parsed, None)
    n = xmlast.size(case["doc"])
    ctx.nontrivial(n >= 25)
    ctx.tag("elements", n)


smaller, sample, explain = common.smaller, common.sample, common.explain
