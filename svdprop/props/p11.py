"""An element with derivedFrom has every value it states itself and takes the others from its base."""
from .. import common, gen

ID = "P11"
RULE = "the document is processed and contains at least one derivedFrom on a peripheral, cluster, register or field"
QUICK, THOROUGH = 17000, 250000
ASSUMPTIONS = common.ASSUME
PROFILE = gen.profile(twins=0.05, pers=(1, 3), rcs=(1, 4), derive=0.45, meta=0.5, prop=0.35, wc=0.3, conts=0.1, chain=0.4, cluster=0.25,
                      depth=2, fields=(0, 3), dim=0.12, alt=0.08, interrupts=0.3, altgroup=0.05, altboth=0.2, ladder=0.03)
KINDS = ("peripheral", "cluster", "register", "field")


def generate(r):
    return common.gen_case(r, PROFILE, tries=4)


def check(case, ctx):
    dev, _, _ = common.judge(case, ctx)
    if dev is None:
        return
    n = common.attr_count(case["doc"], "derivedFrom", KINDS)
    for k in KINDS:
        ctx.tag("derived " + k, common.attr_count(case["doc"], "derivedFrom", (k,)))
    ctx.nontrivial(n > 0)


smaller, sample, explain = common.smaller, common.sample, common.explain
