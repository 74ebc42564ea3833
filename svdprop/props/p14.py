"""The order in which sibling elements are written down has no influence on the processed device."""
import json
from random import Random

from .. import common, gen, refproc, xmlast
from ..engine import Violation
from ..xmlast import clone, N, L

ID = "P14"
RULE = "the document is processed, contains a derivedFrom or dim element, and the permutation moved at least two elements"
QUICK, THOROUGH = 5000, 80000
ASSUMPTIONS = ["where the rules leave the meaning open (reference abstains) the order is not judged"]
PROFILES = [
    gen.profile(twins=0.06, derive=0.4, chain=0.5, dim=0.15, cluster=0.4, pers=(2, 4), rcs=(1, 4), overlap=0.1, alt=0.1, inherited_ref=0.5),
    gen.profile(twins=0.06, derive=0.25, dim=0.3, cluster=0.4, conts=0.4, fieldoverlap=0.1, oddsize=0.03, reserved=0.03, overlap=0.2),
    gen.profile(twins=0.06, derive=0.2, dim=0.15, fields=(2, 6), fieldoverlap=0.5, overlap=0.3, rcs=(2, 4), tie=1.0),
    gen.profile(twins=0.06, derive=0.5, pool=0.95, cluster=0.4, depth=3, conts=0.2, derive_conts=0.4, pers=(2, 4)),
]
MOVABLE = {"peripheral", "register", "cluster", "field", "enumeratedValues", "addressBlock", "interrupt"}


def generate(r):
    c = common.gen_case(r, r.choice(PROFILES), tries=2)
    if r.random() < 0.35:  # address blocks at one offset, interrupts of one number
        for p in common.nodes(c["doc"], "peripheral"):
            for tag, key, words in (("addressBlock", "offset", "usage"), ("interrupt", "value", "name")):
                some = [b for b in p["c"] if b["t"] == tag]
                if tag == "interrupt" and not some and r.random() < 0.5:
                    some = [N("interrupt", L("name", r.choice("XYZ")), L("value", str(r.randrange(3))))]
                    p["c"].append(some[0])
                if some and r.random() < 0.8:
                    for _ in range(r.choice([1, 1, 2])):
                        twin = clone(r.choice(some))
                        for x in twin["c"]:
                            if x["t"] == words:
                                x["x"] = r.choice(["registers", "buffer", "reserved"]) if tag == "addressBlock" else r.choice("ABCXYZ")
                            elif x["t"] == "size":
                                x["x"] = str(4 * r.randint(1, 64))
                        p["c"].append(twin)
    return {"doc": c["doc"], "style": {"indent": 1}, "perms": [r.randrange(1 << 30) for _ in range(2)]}


def permute(doc, seed):
    r = Random(seed)
    moved = 0

    def rec(node):
        nonlocal moved
        for c in node["c"]:
            rec(c)
        slots = [i for i, c in enumerate(node["c"]) if c["t"] in MOVABLE]
        if len(slots) > 1:
            how = r.randrange(3)
            els = [node["c"][i] for i in slots]
            new = list(els)
            if how == 0:
                new.reverse()
            else:
                r.shuffle(new)
            # what stays stays; different kinds may change places
            moved += sum(a is not b for a, b in zip(els, new))
            for i, e in zip(slots, new):
                node["c"][i] = e

    doc = clone(doc)
    rec(doc)
    return doc, moved


def ties(doc, device):
    """address blocks at one offset and interrupts of one number are in the order of the document"""
    kind, dev, _ = common.reference(doc)
    if kind != "ok":
        return
    want = {p["name"]: p for p in dev["peripherals"]}
    for p in device.peripherals:
        for key, values in (("address_blocks", [(b["offset"], b["size"], b["usage"]) for b in want[p.name]["address_blocks"]]),
                            ("interrupts", [(i["value"], i["name"]) for i in want[p.name]["interrupts"]])):
            got = [(b.offset, b.size, b.usage.value) if key == "address_blocks" else (b.value, b.name) for b in getattr(p, key)]
            if got != values:
                raise Violation(f"{key} of {p.name} are listed {got}, in the document's order it is {values}")


def canonical(v):
    """lists which only keep the order of the document among equals (blocks at one offset, interrupts of one number) as sorted lists"""
    if isinstance(v, dict):
        out = {k: canonical(x) for k, x in v.items()}
        for key in ("address_blocks", "interrupts"):
            if key in out:
                out[key] = sorted(out[key], key=lambda x: json.dumps(x, sort_keys=True))
        return out
    if isinstance(v, list):
        return [canonical(x) for x in v]
    return v


def check(case, ctx):
    kind, dev, _ = common.reference(case["doc"])
    if kind == "ood":
        ctx.skip("not judged")
    first = common.run_code(xmlast.emit_bytes(case["doc"], case["style"]))
    want = canonical(refproc.observe(first.device)) if first.kind == "ok" else None
    total = 0
    for seed in case["perms"]:
        doc, moved = permute(case["doc"], seed)
        if not moved:
            continue
        total += moved
        if common.reference(doc)[0] == "ood":
            ctx.skip("not judged")
        out = common.run_code(xmlast.emit_bytes(doc, case["style"]))
        if out.kind != first.kind:
            raise Violation(f"as written: {first.kind} ({first.text}); siblings permuted: {out.kind} ({out.text})")
        if want is not None:
            common.compare(want, canonical(refproc.observe(out.device)), "siblings permuted: ")
            ties(doc, out.device)
            a, b = texts(first), texts(out)
            if a != b:
                raise Violation(f"siblings permuted: warnings differ: {sorted(a ^ b)[:3]}")
    ctx.tag(first.kind)
    ctx.tag("elements moved", total)
    inter = common.attr_count(case["doc"], "derivedFrom") + len(common.nodes(case["doc"], "dim"))
    ctx.nontrivial(first.kind == "ok" and total >= 2 and inter > 0)


def texts(out):
    return {str(w.message) for w in out.warnings if "verlap" not in str(w.message)}


def smaller(case):
    if len(case["perms"]) > 1:
        for p in case["perms"]:
            yield dict(case, perms=[p])
    for doc in common.smaller_docs(case["doc"]):
        yield dict(case, doc=doc)


sample = common.sample


def explain(case):
    return common.explain(case) + "\n--- permuted\n" + xmlast.emit(permute(case["doc"], case["perms"][0])[0])
