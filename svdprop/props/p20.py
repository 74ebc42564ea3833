"""Addresses, sizes, extents and order in the processed device follow from the offsets in the document."""
from .. import common, gen

ID = "P20"
RULE = "the document is processed and the device has at least four registers and clusters"
QUICK, THOROUGH = 9000, 150000
ASSUMPTIONS = common.ASSUME
PROFILE = gen.profile(pers=(1, 4), rcs=(1, 4), depth=3, cluster=0.45, fields=(0, 1), conts=0.0, derive=0.2, dim=0.2, overlap=0.2,
                      unaligned=0.1, alt=0.1, altgroup=0.08, meta=0.05, prop=0.25, size64=0.5, blocks=(1, 3), blockoverlap=0.2, reserved=0.05, oddsize=0.03)


def generate(r):
    return common.gen_case(r, PROFILE, tries=3)


def check(case, ctx):
    dev, _, out = common.judge(case, ctx, ignore=("description",))
    if dev is None:
        return
    n = len(common.all_of(dev, "register")) + len(common.all_of(dev, "cluster"))
    ctx.tag("registers and clusters", n)
    ctx.nontrivial(n >= 4)


smaller, sample, explain = common.smaller, common.sample, common.explain
