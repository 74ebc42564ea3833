"""A derivedFrom path names its base by scope: siblings first, then from the top; definitions may come later in the document."""
from .. import common, gen, spec
from ..engine import Violation  # noqa: F401

ID = "P13"
RULE = "the document is processed and a path has several parts, names an element defined later, or could mean two elements"
QUICK, THOROUGH = 16000, 250000
ASSUMPTIONS = common.ASSUME
PROFILES = [
    gen.profile(pers=(2, 4), rcs=(1, 3), derive=0.5, meta=0.0, prop=0.05, wc=0.0, conts=0.15, cluster=0.4, depth=d, fields=(0, 2),
                dim=dim, pool=0.95, nested_ref=0.6, inherited_ref=inh, chain=ch, derive_conts=0.4, dots=0.0, twins=tw,
                shadow=0.15 - tw, reserved=tw / 5, ladder=0.05)
    for d in (1, 2, 3) for dim in (0.0, 0.2) for inh in (0.2, 0.7) for ch in (0.0, 0.5) for tw in (0.0, 0.15)
]


def label(d):
    """give every element that is not derived a description of its own, so that the base shows in the result"""
    n = 0

    def rec(e):
        nonlocal n
        kind = e["_"]
        if kind in ("peripheral", "cluster", "register", "field"):
            n += 1
            e["description"] = None if e["derived_from"] is not None else f"{kind} {n}"
        elif kind == "enumeratedValue":
            n += 1
            e["description"] = f"value {n}"
        for k in ("peripherals", "registers_clusters", "fields", "enumerated_value_containers", "enumerated_values"):
            for c in e.get(k) or ():
                rec(c)

    rec(d)


def generate(r):
    prof = r.choice(PROFILES)
    for left in range(4, 0, -1):
        d = gen.Gen(r, prof).device()
        label(d)
        if left == 1 or common.reference(d)[0] == "ok":
            break
    return {"doc": gen.write_doc(d, r), "style": {"indent": 1}}


def check(case, ctx):
    dev, rp, _ = common.judge(case, ctx)
    if dev is None:
        return
    names = {}

    def collect(n):
        if n.kind != "device" and n.name is not None:
            names.setdefault((n.kind, n.name), []).append(n)
        for c in n.own:
            collect(c)

    collect(rp.root)
    hit = False
    for node, base in common.derived(rp):
        path = node.d["derived_from"]
        if "." in path:
            ctx.tag("path of several parts")
            hit = True
        if tuple(map(int, base.src.split("/")[1:])) > tuple(map(int, node.src.split("/")[1:])):
            ctx.tag("base defined later")
            hit = True
        if len(names.get((node.kind, path.split(".")[-1]), ())) > 1:
            ctx.tag("name exists several times")
            hit = True
        if base.parent is node.parent:
            ctx.tag("sibling")
    ctx.nontrivial(hit)


smaller, sample, explain = common.smaller, common.sample, common.explain
