"""Two fields of a register may share bits only if no access reaches both: one is read-only and the other write-only."""
from .. import common, gen, spec
from . import p16

ID = "P17"
RULE = "two fields of one register share bits, whether that is allowed or has to be refused"
QUICK, THOROUGH = 26000, 350000
ASSUMPTIONS = common.ASSUME
PROFILE = gen.profile(pers=(1, 2), rcs=(1, 2), depth=1, cluster=0.3, fields=(2, 5), conts=0.0, derive=0.15, partialbits=0.3, dim=0.12,
                      meta=0.02, prop=0.3, devprops=0.5)


def generate(r):
    want = r.random()
    for left in range(6, 0, -1):
        d = gen.Gen(r, PROFILE).device()
        fs = p16.fields(d)
        if not fs:
            continue
        mode = r.randrange(3)
        for f in r.sample(fs, min(len(fs), r.choice([1, 2, 3]))):
            # move next to, onto or into another field of the document; the access decides
            t = r.choice(fs)
            if t is f or t["bit_range"] is None and t["lsb"] is None and t["bit_offset"] is None:
                continue
            if t["bit_range"]:
                hi, lo = [int(x) for x in t["bit_range"].strip("[]").split(":")]
            elif t["lsb"] is not None:
                lo, hi = t["lsb"], t["msb"] if t["msb"] is not None else t["lsb"]
            else:
                lo, hi = t["bit_offset"], t["bit_offset"] + (t["bit_width"] or 1) - 1
            width = r.randint(1, 4)
            lsb = max(0, r.choice([lo - width, lo - width + 1, lo, hi, hi + 1, lo - 1]))
            for k in p16.POS:
                f[k] = None
            if r.random() < 0.5:
                f["bit_offset"], f["bit_width"] = lsb, width
            else:
                f["lsb"], f["msb"] = lsb, lsb + width - 1
            if mode == 0:
                f["access"], t["access"] = r.choice([("read-only", "write-only"), ("write-only", "read-only")])
            elif mode == 1:
                f["access"] = r.choice(spec.ACCESS + [None])
        kind, dev, _ = common.reference(d)
        if left == 1 or kind == "ok" and shared(dev) or (kind == "refuse" and "overlap" in dev and want < 0.5):
            break
    return {"doc": gen.write_doc(d, r), "style": {"indent": 1}}


def shared(dev):
    n = 0
    for reg in common.all_of(dev, "register"):
        fs = reg["fields"]
        n += sum(1 for i, f in enumerate(fs) for g in fs[:i] if f["lsb"] <= g["msb"] and g["lsb"] <= f["msb"])
    return n


def check(case, ctx):
    dev, reason, _ = common.judge(case, ctx, ignore=("description",))
    if dev is None:
        ctx.nontrivial("overlap" in str(reason))
        return
    n = shared(dev)
    ctx.tag("pairs that may share bits", n)
    ctx.nontrivial(n > 0)


smaller, sample, explain = common.smaller, common.sample, common.explain
