"""The register map lists every peripheral and every register of the processed device with its absolute address."""
from .. import common, gen, xmlast
from ..engine import Violation
from svdsuite import PeripheralRegisterMap

ID = "P25"
RULE = "the document is processed and has a register in a cluster or at least two peripherals"
QUICK, THOROUGH = 9000, 200000
ASSUMPTIONS = common.ASSUME
PROFILES = [
    gen.profile(derive=0.2, dim=0.2, cluster=0.5, depth=3, blocks=(1, 4), pers=(1, 4), overlap=0.2),
    gen.profile(derive=0.4, dim=0.1, cluster=0.3, blocks=(1, 3), pers=(2, 5), rcs=(1, 2), alt=0.2, overlap=0.3),
]


def generate(r):
    return common.gen_case(r, r.choice(PROFILES), tries=4)


def flat(rcs, base, path=()):
    for e in rcs:
        if e["_"] == "cluster":
            yield from flat(e["registers_clusters"], base + e["address_offset"])
        else:
            yield base + e["address_offset"], e


def flat_real(rcs):
    for e in rcs:
        if hasattr(e, "registers_clusters"):
            yield from flat_real(e.registers_clusters)
        else:
            yield e


def check(case, ctx):
    kind, dev, _ = common.reference(case["doc"])
    if kind != "ok":
        ctx.skip("refused or not judged")
    content = xmlast.emit_bytes(case["doc"], case["style"])
    out = common.run_code(content)
    if out.kind != "ok":
        raise Violation(f"a document with a defined meaning is refused ({out.kind}): {out.text}")
    listed = PeripheralRegisterMap(out.device).peripheral_map
    inclusters = 0
    want = sorted(dev["peripherals"], key=lambda p: p["base_address"])
    if [m.address for m in listed] != [p["base_address"] for p in want]:
        raise Violation(f"peripherals at {[m.address for m in listed]}, expected {[p['base_address'] for p in want]}")
    byname = {p["name"]: p for p in want}
    if len(listed) != len(byname) or {m.name for m in listed} != set(byname):
        raise Violation(f"peripherals {[m.name for m in listed]}, expected {list(byname)}")
    real = {p.name: p for p in out.device.peripherals}
    for m in listed:
        p = byname[m.name]
        if m.processed is not real[m.name]:
            raise Violation(f"{m.name} does not refer to the processed peripheral")
        if m.address != p["base_address"] or m.description != p["description"]:
            raise Violation(f"{m.name}: address or description differ")
        blocks = p["address_blocks"]
        rng = (p["base_address"] + min(b["offset"] for b in blocks), p["base_address"] + max(b["offset"] + b["size"] for b in blocks) - 1)
        if tuple(m.allocated_range) != rng:
            raise Violation(f"{m.name}: allocated range {m.allocated_range}, expected {rng}")
        regs = list(flat(p["registers_clusters"], p["base_address"]))
        inclusters += sum(e["_"] == "cluster" for e in p["registers_clusters"])
        if len(regs) != len(m.registers):
            raise Violation(f"{m.name}: {len(m.registers)} registers, expected {len(regs)}")
        reals = list(flat_real(real[m.name].registers_clusters))
        for (addr, e), r, obj in zip(regs, m.registers, reals):
            if r.address != addr:
                raise Violation(f"{m.name}.{e['name']}: at {r.address:#x}, expected {addr:#x}")
            for k in ("name", "size", "access", "protection", "reset_value", "reset_mask", "display_name", "description"):
                v = getattr(r, k)
                v = getattr(v, "value", v)
                if v != e[k] and not (v == getattr(e[k], "value", e[k])):
                    raise Violation(f"{m.name}.{e['name']}: {k} is {v!r}, expected {e[k]!r}")
            if r.processed is not obj:
                raise Violation(f"{m.name}.{e['name']} does not refer to the processed register")
            if [f.name for f in r.fields] != [f["name"] for f in e["fields"]] or any(a is not b for a, b in zip(r.fields, obj.fields)):
                raise Violation(f"{m.name}.{e['name']}: fields differ")
    # the constructors for text and bytes give the same map
    for other in (PeripheralRegisterMap.from_xml_content(content), PeripheralRegisterMap.from_xml_str(content.decode("utf-8"))):
        if brief(other) != brief(PeripheralRegisterMap(out.device)):
            raise Violation("the map depends on the constructor")
    ctx.tag("registers", sum(len(m.registers) for m in listed))
    ctx.tag("top-level clusters", inclusters)
    ctx.nontrivial(inclusters > 0 or len(listed) > 1)


def brief(m):
    return [(p.name, p.address, tuple(p.allocated_range), [(r.name, r.address, r.size, r.reset_value) for r in p.registers])
            for p in m.peripheral_map]


smaller, sample, explain = common.smaller, common.sample, common.explain
