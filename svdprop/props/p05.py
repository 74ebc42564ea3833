"""Serializing a parsed device and parsing the result gives the same device; the device itself is left alone."""
from .. import common, gen, spec, xmlast
from ..engine import Violation
from svdsuite import Parser, Serializer

ID = "P05"
RULE = "the device has at least 20 stated values (elements and attributes)"
QUICK, THOROUGH = 12000, 200000
ASSUMPTIONS = ["lxml escapes text and attributes correctly; the output is also read with expat and the reference parser"]
RICH = gen.profile(meta=0.6, prop=0.5, dim=0.3, cpu=0.6, wc=0.4, interrupts=0.4, conts=0.5)


def generate(r):
    if r.random() < 0.7:
        d = gen.any_device(r)
    else:
        d = gen.Gen(r, RICH).device()
    if r.random() < 0.15:
        hollow(r, d)
    return {"device": d, "pretty": r.random() < 0.5, "decl": r.random() < 0.5,
            "bad": r.choice(["\x00", "\x01", "\x1f", "\ud800", "\ufffe", "\x0b"]) if r.random() < 0.1 else None}


def hollow(r, d):
    """attributes that are there but empty"""
    for carrier, _, attr, reader, presence in spec.TABLE[d["_"]]:
        v = d[attr]
        if carrier == "a" and attr in ("derived_from", "name") and isinstance(v, str) and r.random() < 0.5:
            d[attr] = ""
        for x in v if isinstance(v, list) else [v]:
            if isinstance(x, dict):
                hollow(r, x)


def check(case, ctx):
    d = case["device"]
    model = spec.build(d)
    if spec.observe_parsed(model) != d:
        raise common.HarnessError("built model differs")
    pretty, decl = case["pretty"], case["decl"]
    content = Serializer.device_to_svd_content(model, pretty_print=pretty, xml_declaration=decl)
    if type(content) is not bytes:
        raise Violation(f"device_to_svd_content returns {type(content).__name__}")
    if content.startswith(b"<?xml") != decl:
        raise Violation(f"xml_declaration={decl} but the content starts with {content[:20]!r}")
    ast = xmlast.from_bytes(content)
    if any(n.get("stray") for n in xmlast.walk_nodes(ast)):
        raise Violation("stray text between elements")
    try:
        common.compare(d, spec.ref_parse(ast), "document written: ")
    except (spec.Reject, spec.OutOfDomain) as e:
        raise Violation(f"the document written is not acceptable: {e}") from None
    back = Parser.from_xml_content(content).get_parsed_device()
    got = spec.observe_parsed(back)
    common.compare(d, got, "parsed again: ")
    if not back == model or back != model:
        raise Violation("the device parsed again has the same values but does not compare equal")
    if Serializer.device_to_svd_content(model, pretty_print=pretty, xml_declaration=decl) != content:
        raise Violation("serializing again gives other bytes")
    text = Serializer.device_to_svd_str(model, pretty_print=pretty)
    if type(text) is not str:
        raise Violation(f"device_to_svd_str returns {type(text).__name__}")
    common.compare(d, spec.observe_parsed(Parser.from_xml_str(text).get_parsed_device()), "string parsed again: ")
    Serializer.device_to_svd_file("out.svd", model, pretty_print=pretty, xml_declaration=decl)
    with open("out.svd", "rb") as f:
        if f.read() != content:
            raise Violation("file differs from content")
    common.compare(d, spec.observe_parsed(Parser.from_svd_file("out.svd").get_parsed_device()), "file parsed again: ")
    if case["pretty"] and d["peripherals"] and content.count(b"\n") < 3:
        raise Violation("pretty_print has no effect")
    common.compare(d, spec.observe_parsed(model), "model after serializing: ")
    # a second round from the parsed model
    again = Serializer.device_to_svd_content(Parser.from_xml_content(content).get_parsed_device(), pretty, decl)
    if again != content:
        raise Violation("serialize(parse(x)) differs from x for x written by the serializer")
    back.peripherals[-1].name += "x"
    if back == model:
        raise Violation("devices with different values compare equal")
    unwritable(case, model, content, ctx)
    n = stated(d)
    ctx.tag("values", n)
    ctx.nontrivial(n >= 20)


def unwritable(case, model, content, ctx):
    """a text XML cannot carry: refused, and the file that is there stays"""
    bad = case.get("bad")
    if not bad:
        return
    model.name += bad
    try:
        Serializer.device_to_svd_content(model)
    except ValueError:
        pass
    else:
        raise Violation(f"a device named {model.name!r} is written")
    try:
        Serializer.device_to_svd_file("out.svd", model)
    except ValueError:
        pass
    else:
        raise Violation(f"a device named {model.name!r} is written to a file")
    with open("out.svd", "rb") as f:
        if f.read() != content:
            raise Violation("a device that cannot be written costs the existing file")
    ctx.tag("not to be written")


def stated(d):
    return sum(1 for v in d.values() if v is not None and not isinstance(v, (dict, list))) + sum(
        stated(x) for v in d.values() for x in (v if isinstance(v, list) else [v]) if isinstance(x, dict))


def smaller(case):
    d = case["device"]
    for new in smaller_dicts(d):
        yield dict(case, device=new)
    if case.get("bad"):
        yield dict(case, bad=None)
    if case["pretty"]:
        yield dict(case, pretty=False)


def smaller_dicts(d):
    for carrier, _, attr, reader, presence in spec.TABLE[d["_"]]:
        v = d[attr]
        if carrier in ("many", "wrapped"):
            for i in range(len(v)):
                if attr != "peripherals" or len(v) > 1:
                    yield dict(d, **{attr: v[:i] + v[i + 1:]})
            for i in range(len(v)):
                for x in smaller_dicts(v[i]):
                    yield dict(d, **{attr: v[:i] + [x] + v[i + 1:]})
        elif v is not None and presence == "o":
            yield dict(d, **{attr: None})
            if carrier == "one":
                for x in smaller_dicts(v):
                    yield dict(d, **{attr: x})


def sample(case):
    return xmlast.emit(spec.to_ast(case["device"]), {"indent": 0, "decl": False})[:600]


def explain(case):
    return xmlast.emit(spec.to_ast(case["device"]))
