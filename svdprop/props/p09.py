"""size, access, protection, resetValue and resetMask are inherited from the closest element that states them."""
from .. import common, gen

ID = "P09"
RULE = "the document is processed and states at least two register properties, at least one of them above register level"
QUICK, THOROUGH = 22000, 300000
ASSUMPTIONS = common.ASSUME
PROFILE = gen.profile(pers=(1, 2), rcs=(1, 3), prop=0.35, devprops=0.6, conts=0.0, derive=0.15, cluster=0.45, depth=3, meta=0.05,
                      wc=0.2, oddsize=0.06, size64=0.5, fields=(0, 2), dim=0.08)
TAGS = ("size", "access", "protection", "resetValue", "resetMask")


def generate(r):
    return common.gen_case(r, PROFILE, tries=3, style={"indent": 1})


def check(case, ctx):
    dev, _, _ = common.judge(case, ctx, ignore=("description",))
    if dev is None:
        return
    above = below = 0

    def rec(node):
        nonlocal above, below
        k = sum(1 for c in node["c"] if c["t"] in TAGS)
        if node["t"] in ("device", "peripheral", "cluster"):
            above += k
        elif node["t"] in ("register", "field"):
            below += k
        for c in node["c"]:
            rec(c)

    rec(case["doc"])
    ctx.tag("stated on groups", above)
    ctx.tag("stated on registers and fields", below)
    ctx.nontrivial(above >= 1 and above + below >= 2)


smaller, sample, explain = common.smaller, common.sample, common.explain
