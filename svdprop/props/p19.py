"""Containers of enumerated values: at most one per direction, the usage default, and derivedFrom as a copy of the base."""
from .. import common, gen, spec
from . import p16

ID = "P19"
RULE = "a field has two containers or a container names a base, and the document is processed or refused for its containers"
QUICK, THOROUGH = 24000, 300000
ASSUMPTIONS = common.ASSUME
PROFILES = [
    gen.profile(pers=(1, 2), rcs=(1, 2), depth=1, cluster=0.2, fields=(1, 3), conts=0.8, vals=(1, 3), derive=dv, derive_conts=0.5, dim=dm,
                meta=0.02, prop=0.05, wild=0.2, default=0.25, chain=0.4, evoddity=0.0, ownvals=0.1)
    for dv in (0.1, 0.35) for dm in (0.0, 0.2)
]


def generate(r):
    for left in range(4, 0, -1):
        d = gen.Gen(r, r.choice(PROFILES)).device()
        k = r.random()
        fs = [f for f in p16.fields(d) if f["enumerated_value_containers"]]
        if fs and k < 0.35:
            f = r.choice(fs)
            if len(f["enumerated_value_containers"]) < 3:
                c = dict(r.choice(f["enumerated_value_containers"]))
                c["name"] = r.choice([None, "Extra"])
                c["usage"] = r.choice([None, "read", "write", "read-write"])
                c["derived_from"] = None
                f["enumerated_value_containers"].insert(r.randint(0, 1), c)
            if r.random() < 0.5:
                r.choice(f["enumerated_value_containers"])["usage"] = r.choice(["read", "write"])
        kind, dev, _ = common.reference(d)
        if left == 1 or (kind == "ok" and interesting(d)) or (kind == "refuse" and k < 0.35):
            break
    return {"doc": gen.write_doc(d, r), "style": {"indent": 1}}


def interesting(d):
    return any(len(f["enumerated_value_containers"]) > 1 or any(c["derived_from"] for c in f["enumerated_value_containers"])
               for f in p16.fields(d))


def check(case, ctx):
    dev, reason, _ = common.judge(case, ctx)
    d = spec.ref_parse(case["doc"])
    if dev is None:
        ctx.nontrivial(any(w in str(reason) for w in ("container", "usage", "derivedFrom")))
        return
    ctx.tag("derived containers", common.attr_count(case["doc"], "derivedFrom", ("enumeratedValues",)))
    ctx.nontrivial(interesting(d))


smaller, sample, explain = common.smaller, common.sample, common.explain
