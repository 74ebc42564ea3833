"""What has to be left out is left out and nothing else: reserved names, odd sizes, empty groups; equal names are refused."""
import copy

from .. import common, gen

ID = "P21"
RULE = "the document is processed with something left out, or refused for equal names, missing address blocks or sizes"
QUICK, THOROUGH = 20000, 300000
ASSUMPTIONS = common.ASSUME
PROFILES = [
    gen.profile(twins=0.08, pers=(1, 3), rcs=(1, 4), depth=2, cluster=0.35, fields=(0, 3), conts=0.1, derive=dv, dim=0.1, meta=0.03, prop=0.2,
                reserved=0.12, oddsize=od, emptycluster=0.2, emptyreg=0.12, dupname=du, altgroup=ag, noblock=nb, alt=0.05, pool=0.7)
    for dv in (0.0, 0.25) for od in (0.0, 0.25) for du in (0.0, 0.0, 0.3) for ag in (0.05, 0.3) for nb in (0.0, 0.0, 0.1)
]
KINDS = ("empty-peripheral", "size-peripheral", "size-rc", "empty-cluster", "reserved-register", "reserved-field")
REFUSED = ("duplicate", "no address block", "unsupported size", "alternateRegister and alternateGroup")


def generate(r):
    want = r.random()
    for left in range(5, 0, -1):
        g = gen.Gen(r, r.choice(PROFILES))
        d = g.device()
        if r.random() < 0.08:
            hollow(r, g, d)
        if r.random() < 0.06:
            again(r, g, d)
        kind, dev, rp = common.reference(d)
        if left == 1 or kind == "ok" and any(w[0] in KINDS for w in rp.warn):
            break
        if kind == "refuse" and want < 0.4 and any(x in dev for x in REFUSED):
            break
    return {"doc": gen.write_doc(d, r), "style": {"indent": 1}}


def hollow(r, g, d):
    """peripherals derived from one that lacks registers, address blocks or a proper size itself"""
    base = r.choice(d["peripherals"])
    own = [x for p in d["peripherals"] for x in p["registers_clusters"] if x["_"] == "register" and x.get("derived_from") is None]
    for key in ("registers_clusters", "address_blocks"):
        if r.random() < 0.8:
            base[key] = []
    if r.random() < 0.3:
        base["size"] = r.choice([12, 0, 33])
    p = g.blank("peripheral")
    p.update(name=g.uid("Hol"), derived_from=base["name"], base_address=0x60000000,
             registers_clusters=[dict(r.choice(own))] if own and r.random() < 0.8 else [],
             address_blocks=[dict(b) for b in r.choice(d["peripherals"])["address_blocks"]] if r.random() < 0.3 else [])
    d["peripherals"].insert(r.randint(0, len(d["peripherals"])), p)


def again(r, g, d):
    """an element stated twice, word by word; an interrupt also with another description"""
    lists = [d["peripherals"]] + [x[k] for x, _ in g.collect(d) for k in ("registers_clusters", "fields") if x.get(k)]
    own = [p["interrupts"] for p in d["peripherals"] if p["interrupts"]]
    lst = r.choice(own) if own and r.random() < 0.5 else r.choice(lists)
    twin = copy.deepcopy(r.choice(lst))
    if twin["_"] == "interrupt" and r.random() < 0.7:
        twin["description"] = g.text()
    lst.insert(r.randint(0, len(lst)), twin)


def check(case, ctx):
    dev, rp, _ = common.judge(case, ctx)
    if dev is None:
        ctx.nontrivial(any(x in str(rp) for x in REFUSED))
        return
    hit = [w[0] for w in rp.warn if w[0] in KINDS]
    for w in hit:
        ctx.tag(w)
    ctx.nontrivial(bool(hit))


smaller, sample, explain = common.smaller, common.sample, common.explain
