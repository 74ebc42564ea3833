"""A field sits on the bits its position states, in whichever of the three notations, in part, inherited or repeated."""
from .. import common, gen, spec

ID = "P16"
RULE = "the document is processed and has at least two fields"
QUICK, THOROUGH = 30000, 350000
ASSUMPTIONS = common.ASSUME
PROFILE = gen.profile(pers=(1, 1), rcs=(1, 2), depth=1, cluster=0.1, fields=(1, 5), conts=0.0, derive=0.4, partialbits=0.7, widefield=0.1,
                      dim=0.2, meta=0.02, prop=0.1, exceed=0.3)
POS = ("bit_offset", "bit_width", "lsb", "msb", "bit_range")


def fields(d):
    out = []

    def rec(e):
        out.extend(e.get("fields") or ())
        for k in ("peripherals", "registers_clusters"):
            for c in e.get(k) or ():
                rec(c)

    rec(d)
    return out


def vary(r, f):
    """state a position in another or an additional way, or not at all"""
    k = r.randrange(8)
    if k == 0:
        for p in POS:
            f[p] = None
        for p in r.sample(["bit_offset", "bit_width", "lsb", "msb"], r.randint(0, 3)):
            f[p] = r.randrange(1, 9)
    elif k == 1 and (f["bit_range"] or "").count(":") == 1:
        hi, lo = f["bit_range"].strip("[]").split(":")
        f["bit_range"] = f"[{lo}:{hi}]"
    elif k == 2:
        f["bit_range"] = r.choice(["[3]", "3:0", "[a:b]", "[3:0", "(3:0)", "[3-0]", "[:]", "[03:00]", "[15:8]", "[5:5]"])
    elif k == 3:  # bitRange wins over the rest
        f["bit_offset"], f["bit_width"] = r.randrange(8), r.randint(1, 4)
        lo = r.randrange(16)
        f["bit_range"] = f"[{lo + r.randrange(4)}:{lo}]"
    elif k == 4:  # lsb/msb win over offset/width
        lo = r.randrange(16)
        f["bit_range"] = None
        f["lsb"], f["msb"] = lo, lo + r.randrange(4)
        f["bit_offset"], f["bit_width"] = r.randrange(8), r.randint(1, 4)
    elif k == 5:
        f["bit_range"] = f["lsb"] = f["msb"] = None
        f["bit_offset"] = r.randrange(28)
        f["bit_width"] = r.randint(1, 4)
    elif k == 6 and f["derived_from"] is not None:
        for p in POS:
            f[p] = None


def generate(r):
    for left in range(5, 0, -1):
        d = gen.Gen(r, PROFILE).device()
        fs = fields(d)
        for _ in range(r.choice([0, 1, 1, 2])):
            if fs:
                vary(r, r.choice(fs))
        kind, dev, _ = common.reference(d)
        if left == 1 or (kind == "ok" and len(fs) > 1) or (kind == "refuse" and r.random() < 0.3):
            break
    return {"doc": gen.write_doc(d, r), "style": {"indent": 1}}


def check(case, ctx):
    dev, rp, _ = common.judge(case, ctx, ignore=("description",))
    if dev is None:
        return
    n = len(common.all_of(dev, "field"))
    ctx.tag("fields", n)
    if "bitrange-swapped" in rp.reswarn:
        ctx.tag("bitRange the wrong way round")
    ctx.nontrivial(n >= 2)


smaller, sample, explain = common.smaller, common.sample, common.explain
_ = spec
