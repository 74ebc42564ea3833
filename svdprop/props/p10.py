"""Dimensioned elements expand into exactly the elements dim, dimIncrement and dimIndex describe."""
from .. import common, gen

ID = "P10"
RULE = "the document is processed and contains at least one dim element (list or array)"
QUICK, THOROUGH = 9000, 300000
ASSUMPTIONS = common.ASSUME
PROFILE = gen.profile(dim=0.45, derive=0.12, baddim=0.04, dimodd=0.05, bigdim=0.1, conts=0.15, cluster=0.35)
BAD = gen.profile(dim=0.6, baddim=0.3, dimodd=0.05, pers=(1, 1), rcs=(1, 2), conts=0.05, derive=0.05)  # mostly refused


def generate(r):
    if r.random() < 0.15:
        return common.gen_case(r, BAD, tries=1)
    return common.gen_case(r, PROFILE, tries=4)


def check(case, ctx):
    dev, rp, out = common.judge(case, ctx)
    n = len(common.nodes(case["doc"], "dim"))
    if dev is not None:
        common.separate(out.device)
        ctx.tag("dim elements", n)
        ctx.nontrivial(n > 0)


smaller, sample, explain = common.smaller, common.sample, common.explain
