"""Every processed element refers back to the parsed element it came from."""
from .. import common, gen

ID = "P28"
RULE = "the document is processed and an element is there more than once (dim) or was copied from a base"
QUICK, THOROUGH = 7500, 150000
ASSUMPTIONS = common.ASSUME
PROFILES = [
    gen.profile(derive=0.3, dim=0.25, cluster=0.4, conts=0.3, interrupts=0.3, rcs=(1, 3), fields=(0, 3), derive_conts=0.3),
    gen.profile(derive=0.15, dim=0.4, cluster=0.5, depth=3, interrupts=0.2, blocks=(1, 3), cpu=0.5),
]


def generate(r):
    return common.gen_case(r, r.choice(PROFILES), tries=4)


def check(case, ctx):
    dev, _, out = common.judge(case, ctx, src=True)
    if dev is None:
        return
    if out.device.parsed is not out.parsed:
        raise common.Violation("the processed device does not refer to the parsed device")
    pairs = [(out.device.cpu, out.parsed.cpu)]
    if out.device.cpu is not None:
        a, b = out.device.cpu.sau_regions_config, out.parsed.cpu.sau_regions_config
        pairs.append((a, b))
        if a is not None:
            pairs += list(zip(a.regions, b.regions))
    for a, b in pairs:
        if a is not None and a.parsed is not b:
            raise common.Violation(f"{type(a).__name__} does not refer to the parsed element it came from")
    n = common.attr_count(case["doc"], "derivedFrom") + len(common.nodes(case["doc"], "dim"))
    ctx.nontrivial(n > 0)


smaller, sample, explain = common.smaller, common.sample, common.explain
