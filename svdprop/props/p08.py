"""Device, CPU and SAU statements reach the processed device unchanged, with the documented defaults where nothing is stated."""
from .. import common, gen, xmlast

ID = "P08"
RULE = "the document is processed and states at least eight device, CPU or SAU values"
QUICK, THOROUGH = 34000, 350000
ASSUMPTIONS = common.ASSUME
PROFILE = gen.profile(pers=(1, 2), rcs=(1, 2), depth=0, fields=(0, 1), conts=0, meta=0.3, derive=0.1, devprops=0.6)
TEXT = ["vendor", "vendor_id", "series", "header_system_filename", "header_definitions_prefix", "version", "name"]


def generate(r):
    d = gen.Gen(r, PROFILE).device()
    p = r.choice([0.2, 0.5, 0.9])
    for k in TEXT:
        if r.random() < p or k in ("name", "version"):
            d[k] = r.choice(gen.WORDS)
        else:
            d[k] = None
    d["description"] = r.choice(gen.RAWS)
    d["license_text"] = r.choice(gen.RAWS) if r.random() < p else None
    d["address_unit_bits"] = r.choice([8, 16, 32, 1])
    d["width"] = r.choice([8, 16, 32, 64, 128])
    d["cpu"] = gen.any_element(r, "cpu", p, 0, 3) if r.random() < 0.85 else None
    return {"doc": gen.write_doc(d, r, fancy=r.choice([0, 0.3])), "style": {"indent": 1}}


def check(case, ctx):
    dev, _, _ = common.judge(case, ctx)
    if dev is not None:
        n = sum(1 for c in case["doc"]["c"] if not c["c"])
        for cpu in case["doc"]["c"]:
            if cpu["t"] == "cpu":
                n += xmlast.size(cpu)
                ctx.tag("cpu")
        ctx.nontrivial(n >= 8)


smaller, sample, explain = common.smaller, common.sample, common.explain
