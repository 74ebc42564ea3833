"""Enumerated values: every literal notation, don't-care bits, the default, duplicates, reserved and out-of-range values."""
from .. import common, gen

ID = "P18"
RULE = "the document is processed and the processed device has at least three enumerated values"
QUICK, THOROUGH = 24000, 350000
ASSUMPTIONS = common.ASSUME + ["isDefault on fields wider than 14 bits and more than 12 don't-care bits are left out (exponential output)"]
PROFILES = [
    gen.profile(pers=(1, 1), rcs=(1, 2), depth=0, fields=(1, 3), conts=1.0, vals=(1, 6), derive=0.1, dim=0.15, meta=0.02, prop=0.05,
                wild=w, default=df, evoddity=ev, widefield=0.08, derive_conts=0.1, manyx=0.03)
    for w in (0.1, 0.6) for df in (0.1, 0.6) for ev in (0.0, 0.0, 0.15, 0.4)
]


def generate(r):
    return common.gen_case(r, r.choice(PROFILES), tries=3, style={"indent": 1})


def check(case, ctx):
    dev, rp, _ = common.judge(case, ctx)
    if dev is None:
        return
    n = common.count(dev, lambda x: "value" in x and "name" in x)
    ctx.tag("values", n)
    for k in rp.reswarn:
        ctx.tag(k)
    ctx.nontrivial(n >= 3)


smaller, sample, explain = common.smaller, common.sample, common.explain
