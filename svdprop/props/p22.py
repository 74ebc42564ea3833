"""Everything SVDConv would complain about is reported by a ProcessWarning that names the element, and nothing else is."""
import collections
import re

from .. import common, gen, xmlast
from ..engine import Violation
from svdsuite import ProcessWarning

ID = "P22"
RULE = "the document is processed and at least one warning is due"
QUICK, THOROUGH = 15000, 250000
ASSUMPTIONS = common.ASSUME + ["messages are compared by a keyword and the element names they quote, not by their wording"]
PROFILES = [
    gen.profile(twins=0.05, pers=(1, 4), rcs=(1, 4), depth=2, cluster=0.3, fields=(0, 3), conts=0.2, derive=dv, dim=0.15, meta=0.03, prop=0.2,
                overlap=ov, unaligned=ov / 2, alt=al, altgroup=0.08, reserved=od, oddsize=od, emptycluster=od, emptyreg=od,
                exceed=0.3, evoddity=0.2 if od else 0.0, blocks=(1, 3), size64=0.4)
    for dv in (0.05, 0.25) for ov in (0.1, 0.4) for al in (0.0, 0.3) for od in (0.0, 0.06)
]


def generate(r):
    c = common.gen_case(r, r.choice(PROFILES), tries=3, accept=lambda d, dev, rp: rp.warn or r.random() < 0.3)
    if r.random() < 0.3:  # blocks that reach into each other
        for b in common.nodes(c["doc"], "addressBlock"):
            if r.random() < 0.3:
                for x in b["c"]:
                    if x["t"] == "size":
                        x["x"] = r.choice(["0x40", "0x1000", "0x101"])
    if r.random() < 0.3:
        family(r, c["doc"])
    return c


def family(r, doc):
    """three to six siblings of one address that name each other as alternates: in a row, all the first one, or anyhow"""
    tag, key = r.choice([("peripheral", "alternatePeripheral"), ("register", "alternateRegister"), ("cluster", "alternateCluster")])
    spots = [(p, e) for p in xmlast.walk_nodes(doc) for e in p["c"]
             if e["t"] == tag and not any(x["t"] in ("dim", "alternateGroup") for x in e["c"])]
    if not spots:
        return
    parent, first = r.choice(spots)
    names = [f"Fam{x}" for x in r.sample("ABCDEFGHIJ", r.randint(3, 6))]
    members = []
    how = r.choice(["row", "row", "star", "any"])
    for i, name in enumerate(names):
        e = xmlast.clone(first)
        e["c"] = [x for x in e["c"] if x["t"] not in ("name", key)]
        e["c"].insert(0, xmlast.L("name", name))
        other = {"row": names[i - 1] if i else None, "star": names[0] if i else None,
                 "any": r.choice([n for n in names if n != name] + [None])}[how]
        if other is not None and r.random() < 0.93:
            e["c"].insert(1, xmlast.L(key, other))
        if r.random() < 0.2:
            for x in e["c"]:
                if x["t"] in ("addressOffset", "baseAddress") and isinstance(x.get("x"), str):
                    x["x"] = "0x10" if x["t"] == "addressOffset" else "0x40000010"
        members.append(e)
    r.shuffle(members)
    parent["c"].extend(members)


def classify(text):
    names = re.findall(r"'([^']*)'", text)
    # names say nothing about the kind of a warning
    low = re.sub(r"'([^']*)'", lambda m: m.group(0) if m.group(1) in ("reserved", "%s") else "''", text.lower())
    if "overlap" in low:
        if "effective" in low:
            return "overlap-effective", names[0], names[1]
        if "specified" in low:
            return "overlap-specified", names[0], names[1]
        if "block with offset" in low:
            return "blocks-overlap", str(int(names[0], 0)), str(int(names[1], 0))
        return "overlap-rc", names[0], names[1]
    if "aligned" in low:
        return ("align-peripheral" if "peripheral" in low else "align-rc"), names[0], None
    if "multiple of 8" in low:
        return ("size-peripheral" if low.startswith("peripheral") else "size-rc"), names[0], None
    if "no register" in low:
        return ("empty-cluster" if low.startswith("cluster") else "empty-peripheral"), names[0], None
    if "exceeds" in low:
        return "field-exceeds", names[0], None
    if "outside" in low:
        return "enum-range", names[0], None
    for key, kind in (("does not contain", "dim-without-%s"), ("smaller msb", "bitrange-swapped"),
                      ("duplicate enumerated value name", "enum-dup-name"), ("duplicate enumerated value value", "enum-dup-value"),
                      ("default value", "default-with-value")):
        if key in low:
            return kind
    if low.startswith("enumerated value with name 'reserved'"):
        return "enum-reserved"
    if "reserved" in low:
        return ("reserved-register" if low.startswith("register") else "reserved-field"), None, None
    return "?" + text


def mentions(text, about):
    """a word of its own, not part of another name"""
    return not about or re.search(r"(?<!\w)" + re.escape(about) + r"(?!\w)", text) is not None


def check(case, ctx):
    kind, dev, rp = common.reference(case["doc"])
    if kind != "ok":
        ctx.skip("refused or not judged")
    out = common.run_code(xmlast.emit_bytes(case["doc"], case["style"]))
    if out.kind != "ok":
        raise Violation(f"a document with a defined meaning is refused ({out.kind}): {out.text}")
    got_final, got_kinds, texts = collections.Counter(), set(), collections.defaultdict(set)
    for w in out.warnings:
        if not issubclass(w.category, ProcessWarning):
            continue
        c = classify(str(w.message))
        if isinstance(c, tuple):
            got_final[c] += 1
        elif c.startswith("?"):
            raise Violation("unknown warning: " + c[1:])
        else:
            got_kinds.add(c)
            texts[c].add(str(w.message))
    want = collections.Counter()
    for k, name, other in rp.warn:
        want[(k, None if k.startswith("reserved") else name, other)] += 1
    for k in sorted(want | got_final, key=str):
        if want[k] != got_final[k]:
            raise Violation(f"{k}: {want[k]} warnings due, {got_final[k]} given")
    if got_kinds != rp.reswarn:
        raise Violation(f"warnings due {sorted(rp.reswarn)}, given {sorted(got_kinds)}")
    # each is about an element that gives rise to it, and each such element has one
    for k, about in sorted(rp.reswarn_about):
        if not any(mentions(t, about) for t in texts[k]):
            raise Violation(f"{k}: no warning about {about!r}")
    for k, ts in texts.items():
        for t in ts:
            if not any(mentions(t, about) for kind, about in rp.reswarn_about if kind == k):
                raise Violation(f"no reason for the warning: {t}")
    for k in want:
        ctx.tag(k[0], want[k])
    for k in got_kinds:
        ctx.tag(k)
    ctx.nontrivial(bool(want) or bool(got_kinds))


smaller, sample, explain = common.smaller, common.sample, common.explain
