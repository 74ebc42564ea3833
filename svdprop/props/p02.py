"""Numbers, booleans and enumerated words mean what their notation says; anything else is refused, never guessed."""
from .. import common, gen, spec, xmlast
from ..engine import Violation
from ..xmlast import kids  # noqa: F401
from svdsuite import Parser

ID = "P02"
RULE = "at least one literal of the document was rewritten in another notation or replaced by text that is no literal"
QUICK, THOROUGH = 50000, 600000
ASSUMPTIONS = common.ASSUME[:1]

LEAVES = {}  # xml element name below a parent kind -> reader
ATTRS = {}
for _kind, _rows in spec.TABLE.items():
    for _carrier, _xml, _attr, _reader, _ in _rows:
        if _carrier == "e" and _reader != "str":
            LEAVES[_kind, _xml] = _reader
        elif _carrier == "a" and _reader != "str":
            ATTRS[_kind, _xml] = _reader
LEAVES["range", "minimum"] = LEAVES["range", "maximum"] = "int"


def number(r):
    n = r.choice([0, 1, r.randrange(10), r.randrange(256), r.randrange(1 << 32), r.randrange(1 << 64), r.randrange(1 << 80)])
    if r.random() < 0.03:
        n = r.getrandbits(r.choice([1000, 2000]))
    return r.choice([
        str(n), f"0{n}", f"000{n}", f"+{n}", f"{n:#x}", f"0X{n:x}", f"0x{n:X}", f"0X{n:X}", f"0x{n:012x}", f"+{n:#x}",
        f"0b{n:b}", f"0B{n:b}", f"#{n:b}", f"#00{n:b}", f"0b0{n:b}",
        f"0x{n:x}"[::1].swapcase().replace("X", "x", 1),
    ])


BADNUM = ["abc", "0x", "#", "0b", "0xg", "0x1g", "0b12", "#2", "1.5", "1 2", "12ab", "1,000", "?", "zz", "0b", "x", "NaN", "--",
          "five", "0xZZ", "#13", "0b3", "1.0", "10 20", "77f",
          "0b1x", "#1x0", "0b1X", "#x", "0bxx", "#X1", "0x1x", "1x", "1e3", "0x10h", "0x1#2", "0x#1", "1#0", "0x1#", "1e#1", "0x2#0a",
          "1_0", "0x1_0", "0b1_0", "#1_0", "0o17", "0O7", "٣", "１２", "²", "1٣", "##1", "#0b1", "0b0b1", "0b#1", "_1", "1_",
          "9" * 5000, "0x" + "f" * 4000, "#" + "10" * 9000, "0b" + "1" * 15000, "9" * 2000]


def text_for(r, reader, bad):
    if reader in ("int", "hex"):
        return r.choice(BADNUM) if bad else number(r)
    if reader == "bool":
        if bad:
            return r.choice(["yes", "no", "2", "-1", "tru", "truee", "on", "01", "00", "t", "f", "none", "0x1"])
        return r.choice(["true", "false", "1", "0", "True", "False", "TRUE", "FALSE", "tRuE", "fAlSe"])
    values = spec.ENUMS[reader]
    v = r.choice(values)
    if reader == "access":
        if bad:  # documented: unknown access words count as not stated
            return r.choice(["readonly", "rw", "read write", "none", "readwrite", "write-once"])
        return r.choice([v, v.upper(), v.lower(), v.title(), "read", "write", "READ", "Write"])
    if reader == "cpuname" and not bad:
        return r.choice([v, v if v == "CM0+" else v.lower(), v if v == "CM0+" else v.upper()])
    if bad:
        return r.choice([v + "x", "x" + v, v[:-1] + "_" if len(v) > 1 else "q", "unknown", "0", v.swapcase(), v.title(), v.replace(" ", ""),
                         v.replace(" ", "  "), v.replace("-", ""), v.replace("-", "_"), v.replace("-", " "), v.replace("_", ""), v[0], v + "s",
                         v + " " + v, "".join(f"-{c.lower()}" if c.isupper() else c for c in v), v[:3]])
    return v


def generate(r):
    doc = gen.write_doc(gen.any_device(r, p=r.choice([0.2, 0.4]), depth=1, lists=r.choice([1, 2])), r)
    spots = []

    def rec(node):
        for c in node["c"]:
            if (node["t"], c["t"]) in LEAVES and not c["c"]:
                spots.append((c, None, LEAVES[node["t"], c["t"]]))
            rec(c)
        for a in node.get("a") or ():
            if (node["t"], a) in ATTRS:
                spots.append((node, a, ATTRS[node["t"], a]))

    rec(doc)
    r.shuffle(spots)
    bad = r.random() < 0.35
    n = r.choice([1, 3, 8])
    # all readers get their share: one spot per reader first
    seen = set()
    spots.sort(key=lambda s: (s[2] in seen or seen.add(s[2]) or False))
    if bad:
        spots = [r.choice(spots)]
    for node, attr, reader in spots[:n]:
        text = text_for(r, reader, bad)
        if attr:
            node["a"][attr] = text
        else:
            node["x"] = r.choice([text, text, text, f" {text}", f"\n{text}\t"])
    return {"doc": doc, "style": {"indent": 1}, "n": min(n, len(spots)), "bad": bad}


def check(case, ctx):
    try:
        want = spec.ref_parse(case["doc"])
    except spec.OutOfDomain as e:
        ctx.skip(common.generic(e))
    except spec.Reject as e:
        want, reason = None, e
    try:
        parsed = Parser.from_xml_content(xmlast.emit_bytes(case["doc"], case["style"])).get_parsed_device()
    except common.REFUSED_BY_PARSER as e:
        if want is not None:
            raise Violation(f"refused: {type(e).__name__} {e}") from None
        ctx.tag("refused")
        ctx.nontrivial()
        return
    if want is None:
        raise Violation(f"accepted although {reason}")
    common.compare(want, spec.observe_parsed(parsed))
    ctx.tag("unknown word read as nothing" if case.get("bad") else "read")
    ctx.nontrivial(case.get("n", 1) > 0)


smaller, sample, explain = common.smaller, common.sample, common.explain
