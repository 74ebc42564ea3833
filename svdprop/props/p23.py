"""A processed device converted to a parsed one stands for the same device: processing it again, also after writing it down and
reading it back, gives the same result."""
from .. import common, gen, refproc, spec, xmlast
from ..engine import Violation
from . import p01
from svdsuite import Parser, Process, Serializer

ID = "P23"
RULE = "the document is processed without leaving elements out and contains a derivedFrom, a dim or enumerated values"
QUICK, THOROUGH = 6500, 150000
ASSUMPTIONS = common.ASSUME
PROFILES = [
    gen.profile(twins=0.05, derive=0.3, dim=0.2, meta=0.4, prop=0.3, cpu=0.4, wc=0.25, conts=0.3, interrupts=0.3, alt=0.08, altgroup=0.08,
                overlap=ov, rcs=(1, 3), fields=(0, 3))
    for ov in (0.0, 0.1)
]
LEFT_OUT = ("empty-peripheral", "size-peripheral", "size-rc", "empty-cluster", "reserved-register")


def generate(r):
    return common.gen_case(r, r.choice(PROFILES), tries=4, accept=lambda d, dev, rp: not any(w[0] in LEFT_OUT for w in rp.warn))


def check(case, ctx):
    kind, dev, rp = common.reference(case["doc"])
    if kind != "ok" or any(w[0] in LEFT_OUT for w in rp.warn):
        ctx.skip("refused, not judged or something is left out")
    out = common.run_code(xmlast.emit_bytes(case["doc"], case["style"]))
    if out.kind != "ok":
        raise Violation(f"a document with a defined meaning is refused ({out.kind}): {out.text}")
    want = refproc.observe(out.device)
    converted = out.process.convert_processed_device_to_svd_device()
    p01.links(converted, None)
    p01.links(out.parsed, None)
    common.disjoint(out.device, converted, "processed and converted device")
    common.disjoint(out.parsed, converted, "parsed and converted device")
    common.compare(want, refproc.observe(out.device), "processed device after converting it: ")
    plain = spec.observe_parsed(converted)
    for e in everything(plain):
        if e.get("derived_from") is not None or e.get("dim") is not None:
            raise Violation(f"{e['_']} {e.get('name')} still has derivedFrom or dim")
    common.compare(want, refproc.observe(Process(converted, None).get_processed_device()), "converted and processed: ")
    common.compare(plain, spec.observe_parsed(converted), "converted device after processing it: ")
    content = Serializer.device_to_svd_content(converted)
    again = Parser.from_xml_content(content).get_parsed_device()
    common.compare(want, refproc.observe(Process(again, None).get_processed_device()), "converted, written, read and processed: ")
    third = Process.from_xml_content(content).convert_processed_device_to_svd_device()
    common.compare(plain, spec.observe_parsed(third), "converted a second time: ")
    n = common.attr_count(case["doc"], "derivedFrom") + len(common.nodes(case["doc"], "dim")) + len(common.nodes(case["doc"], "enumeratedValue"))
    ctx.tag("processed")
    ctx.nontrivial(n > 0)


def everything(d):
    if isinstance(d, dict):
        if "_" in d:
            yield d
        for v in d.values():
            yield from everything(v)
    elif isinstance(d, list):
        for v in d:
            yield from everything(v)


smaller, sample, explain = common.smaller, common.sample, common.explain
