"""A derived element has its own children and those of its base, however deep and in however many steps."""
from .. import common, gen

ID = "P12"
RULE = "the document is processed and a peripheral, cluster or register is derived from one that has or inherits children"
QUICK, THOROUGH = 12000, 200000
ASSUMPTIONS = common.ASSUME
PROFILE = gen.profile(pers=(2, 4), rcs=(1, 3), derive=0.5, meta=0.1, prop=0.15, wc=0.05, conts=0.25, chain=0.6, cluster=0.5,
                      depth=3, fields=(0, 2), dim=0.12, nested_ref=0.5, inherited_ref=0.5, shadow=0.12, reserved=0.03, ladder=0.06, heap=0.012)
KINDS = ("peripheral", "cluster", "register")


def generate(r):
    return common.gen_case(r, PROFILE, tries=4)


def check(case, ctx):
    dev, rp, out = common.judge(case, ctx)
    if dev is None:
        return
    common.separate(out.device)
    n = 0
    for node, base in common.derived(rp):
        if node.kind in KINDS and rp.children(base):
            n += 1
            ctx.tag("derived " + node.kind)
            if base.d["derived_from"] is not None:
                ctx.tag("in more than one step")
    ctx.nontrivial(n > 0)


smaller, sample, explain = common.smaller, common.sample, common.explain
