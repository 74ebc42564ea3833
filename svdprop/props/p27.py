"""Whatever the input, the answer is a device or one of the documented refusals, never another exception; where the damaged document
still has a defined meaning, that meaning is what comes out."""
import re
import warnings

from lxml import etree

from .. import common, gen, refproc, spec, xmlast
from ..engine import Violation
from ..xmlast import N, L
from svdsuite import Parser, ParserWarning, Process, PeripheralRegisterMap, ProcessException, Serializer, Validator, SVDSchemaVersion

ID = "P27"
RULE = "the document was damaged and is either refused as documented or processed to the end"
QUICK, THOROUGH = 24000, 400000
ASSUMPTIONS = common.ASSUME + ["documents made to exhaust memory (dim or enumerated values in the millions) are left out"]
BUDGET = 25
MIN_NONTRIVIAL = 0.15
PROFILES = [
    gen.profile(pers=(1, 3), rcs=(1, 3), depth=2, cluster=0.35, fields=(0, 3), conts=0.3, derive=0.25, dim=0.25, meta=0.15, prop=0.3,
                cpu=0.3, interrupts=0.3, wc=0.2),
    gen.profile(pers=(1, 2), rcs=(1, 2), depth=2, cluster=0.5, fields=(0, 2), conts=0.2, derive=0.4, dim=0.4, prop=0.2, alt=0.2),
]
TEXTS = ["", "-1", "0x", "abc", "99999999999999999999", "1e3", "0xFFFFFFFFFFFFFFFF", "%s", "[%s]", "a,b", "3-1", "true", "0b12", "#1x0",
         "0b1x", "[7:0", "[1:2]", "[31:0]", "reserved", "é", ".", "A[%s]B", "%s%s", "X%s", "0", "1", "2", "32", "7", "64", "8", "read-only",
         "write", "n", "0-1", "A-B", "0-1,5", "A-Bx", "0-3000000000", "1-2-3", "0X10", "010", "1_0", "+4", "٣", "_", "a.b", "[1:-1]", "4294967296", "r0p1", "CM0+", "other", "1.3",
         "0b", "#", "0x1g", "10k", "2147483648", "any", "x", "default", "\u00a01", "Per", "false", "-0x4",
         "0x" + "f" * 4000, "9" * 4500, "0-" + "9" * 4500, "[" + "9" * 4500 + ":0]", "#" + "1" * 16000, "#1" + "0" * 16000 + "x", "0x" + "1" * 800]
REFS = ["", ".", "..", "a..b", ".x", "x.", "%s", "nope", "A.B.C.D.E.F", " ", "self"]
LEAVES = {row[1] for rows in spec.TABLE.values() for row in rows if row[0] in ("e", "r")} - {"dimArrayIndex", "writeConstraint"}
BIT = ("lsb", "msb", "bitWidth", "bitOffset", "bitRange")


def generate(r):
    d = gen.any_device(r, p=r.choice([0.2, 0.5]), depth=1, lists=2) if r.random() < 0.15 else gen.Gen(r, r.choice(PROFILES)).device()
    doc = gen.write_doc(d, r)
    if r.random() < 0.75:
        for _ in range(r.choice([1, 1, 1, 2, 4])):
            mutate(r, doc)
        tame(doc)
        return {"doc": doc, "style": {"indent": 1}, "edits": []}
    edits = []
    for _ in range(r.choice([1, 1, 2, 3, 8])):
        edits.append([r.random(), r.choice(["flip", "del", "ins", "dup", "cut", "token", "digit"]), r.randrange(256), r.randrange(1, 60)])
    return {"doc": doc, "style": {"indent": r.randrange(2)}, "edits": edits}


def mutate(r, doc):
    every = list(xmlast.walk_nodes(doc))
    parents = {id(c): p for p in every for c in p["c"]}
    leaves = [n for n in every if not n["c"] and n is not doc]
    inner = [n for n in every if n["c"]]
    names = sorted({n["t"] for n in every} | {"dim", "dimIncrement", "dimIndex", "size", "cluster", "field", "alternateRegister", "enumeratedValues"})
    k = r.randrange(12)
    if k == 11:  # nothing left in an element, or an attribute nobody knows, or both
        n = r.choice(every)
        tag = r.choice(sorted({n["t"] for n in every}))
        n = r.choice([n for n in every if n["t"] == tag])
        how = r.randrange(3)
        if how != 1 and n is not doc:
            n["c"], n["x"] = [], r.choice([None, "", "text", " "])
        if how != 0:
            n["a"] = dict(n.get("a") or {}, **{r.choice(["id", "name", "size", "enabled", "xml:lang", "value", "derivedfrom"]): r.choice(TEXTS[:40])})
        return
    if r.random() < 0.5:  # spread over the kinds of leaves
        tag = r.choice(sorted({n["t"] for n in leaves}))
        leaves = [n for n in leaves if n["t"] == tag]
    if k <= 2:
        r.choice(leaves)["x"] = r.choice(TEXTS)
    elif k == 3:
        a, b = r.choice(leaves), r.choice([n for n in every if not n["c"]])
        a["x"] = b.get("x") or ""
    elif k == 4:
        n = r.choice([n for n in every if n is not doc])
        parents[id(n)]["c"] = [c for c in parents[id(n)]["c"] if c is not n]
    elif k == 5:
        n = r.choice([n for n in every if n is not doc])
        p = parents[id(n)]
        p["c"].insert(r.randint(0, len(p["c"])), xmlast.clone(n))
    elif k == 6:
        n, p = r.choice([n for n in every if n is not doc]), r.choice(inner)
        if xmlast.size(n) < 60:
            p["c"].insert(r.randint(0, len(p["c"])), xmlast.clone(n))
    elif k == 7:
        r.choice([n for n in every if n is not doc])["t"] = r.choice(names)
    elif k == 10:  # two leaves of one element trade places
        groups = [[c for c in n["c"] if not c["c"] and c.get("x")] for n in inner]
        pairs = [g for g in groups if len(g) > 1]
        bits = [[c for c in g if c["t"] in ("lsb", "msb")] for g in pairs]
        bits = [g for g in bits if len(g) == 2]
        if pairs:
            a, b = r.sample(r.choice(bits if bits and r.random() < 0.5 else pairs), 2)
            a["x"], b["x"] = b["x"], a["x"]
    elif k == 8 and r.random() < 0.6:
        attrs = [(n, a) for n in every for a in (n.get("a") or {})]
        n, a = r.choice([(n, a) for n, a in attrs if a == r.choice(sorted({a for _, a in attrs}))] or attrs)
        n["a"] = dict(n["a"], **{a: r.choice(TEXTS)})
    else:
        refs = [n for n in every if (n.get("a") or {}).get("derivedFrom") is not None]
        n = r.choice(refs) if refs and r.random() < 0.6 else r.choice(
            [n for n in every if n["t"] in ("peripheral", "register", "cluster", "field", "enumeratedValues")] or [doc])
        some = [x.get("x") or "" for x in every if x["t"] == "name"]
        path = r.choice(REFS) if r.random() < 0.4 else ".".join(r.choice(some or REFS) for _ in range(r.choice([1, 1, 2, 3])))
        n["a"] = dict(n.get("a") or {}, derivedFrom=path)


def numbers(text):
    return [10 ** 30 if len(x) > 30 else int(x, 0) if x[1:2] in "xXbB" and len(x) > 2 else int(x) for x in re.findall(r"0[xX][0-9a-fA-F]+|0[bB][01]+|\d+", text or "")]


def tame(doc):
    """keep the amount of work bounded"""
    every = list(xmlast.walk_nodes(doc))
    wide = any(x > 12 for n in every if n["t"] in BIT for x in numbers(n.get("x")))
    for n in every:
        if n["t"] == "dim" and any(x > 40 for x in numbers(n.get("x"))):
            n["x"] = "40"
        if n["t"] == "isDefault" and wide:
            n["x"] = "false"


def data_of(case):
    data = bytearray(xmlast.emit_bytes(case["doc"], case["style"]))
    for at, how, byte, length in case["edits"]:
        if not data:
            break
        i = int(at * len(data))
        if how == "flip":
            data[i] ^= 1 << (byte % 8)
        elif how == "del":
            del data[i:i + length]
        elif how == "ins":
            data[i:i] = bytes([byte]) * (length % 3 + 1)
        elif how == "dup":
            data[i:i] = data[i:i + length]
        elif how == "cut":
            if byte < 64:
                del data[i:]
        elif how == "token":
            data[i:i] = [b"<", b">", b"&", b"&amp;", b"]]>", b"<!--", b"-->", b"</name>", b"\x00", b"<?x", b"&#0;", b"<name>", b"'", b'"'][byte % 14]
        elif how == "digit":
            for j in range(i, len(data)):
                if 48 <= data[j] <= 57:
                    data[j] = 48 + byte % 10
                    break
    return bytes(data)


def read(data):
    """bytes that are no well-formed document are read with a warning only"""
    try:
        etree.fromstring(data, etree.XMLParser(recover=False))
        return Parser.from_xml_content(data).get_parsed_device()
    except etree.XMLSyntaxError:
        pass
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        parsed = Parser.from_xml_content(data).get_parsed_device()
    if not any(issubclass(w.category, ParserWarning) for w in caught):
        raise Violation("a document that is not well-formed is read without a ParserWarning")
    return parsed


def write(svd, ctx):
    """a text that was recovered from damage may hold characters XML cannot carry, which is refused (P05)"""
    try:
        Serializer.device_to_svd_str(svd)
    except ValueError:
        if not re.search("[\x00-\x08\x0b\x0c\x0e-\x1f\ufffe\uffff\ud800-\udfff]", "".join(texts(spec.observe_parsed(svd)))):
            raise
        ctx.tag("recovered characters cannot be written")


def texts(x):
    if isinstance(x, str):
        yield x
    elif isinstance(x, (dict, list, tuple)):
        for y in x.values() if isinstance(x, dict) else x:
            yield from texts(y)


def check(case, ctx):
    data = data_of(case)
    edited = bool(case["edits"])
    tree = case["doc"]
    if edited:
        try:
            tree = xmlast.from_bytes(data)
        except Exception:  # pylint: disable=broad-except
            tree = None
        if tree is not None:
            every = list(xmlast.walk_nodes(tree))
            if any(n["t"] == "dim" and any(x > 200 for x in numbers(n.get("x"))) for n in every):
                ctx.skip("large dim")
            if any(n["t"] == "isDefault" for n in every) and any(x > 12 for n in every if n["t"] in BIT for x in numbers(n.get("x"))):
                ctx.skip("default value in a wide field")
        elif b"isDefault" in data or re.search(rb"\d{4,}</dim", data):
            ctx.skip("damaged, contains defaults or large dims")
    kind = dev = None
    if tree is not None and not (edited and any(x in data for x in (b"<!--", b"<?x", b"<![", b"&#")) or any(
            n.get("stray") or n["c"] and n["t"] in LEAVES for n in xmlast.walk_nodes(tree))):
        try:
            kind, dev, _ = common.reference(tree)
        except Exception as e:  # pylint: disable=broad-except
            ctx.tag(f"reference gave up: {type(e).__name__}")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for version in (SVDSchemaVersion.V1_3_9,):
            try:
                Validator.validate_xml_content(data, get_exception=False, schema_version=version)
            except etree.XMLSyntaxError:
                pass
        try:
            parsed = read(data)
        except common.REFUSED_BY_PARSER + (etree.XMLSyntaxError,) as e:
            if kind in ("ok", "refuse"):
                raise Violation(f"a document that can be read is refused by the parser: {type(e).__name__} {e}") from None
            ctx.tag(f"parser: {type(e).__name__}")
            ctx.nontrivial()
            return
        if kind == "reject":
            raise Violation(f"read although {dev}")
        spec.observe_parsed(parsed)
        write(parsed, ctx)
        try:
            p = Process(parsed, None)
        except ProcessException:
            if kind == "ok":
                raise
            ctx.tag("refused by Process")
            ctx.nontrivial()
            return
        if kind == "refuse":
            raise Violation(f"a document that has to be refused is accepted: {dev}")
        got = refproc.observe(p.get_processed_device())
        if kind == "ok":
            common.compare(refproc.without_src(dev), got)
            ctx.tag("compared")
        ctx.tag("processed")
        PeripheralRegisterMap(p.get_processed_device())
        svd = p.convert_processed_device_to_svd_device()
        write(svd, ctx)
        ctx.nontrivial()


def smaller(case):
    for i in range(len(case["edits"])):
        yield dict(case, edits=case["edits"][:i] + case["edits"][i + 1:])
    if not case["edits"]:
        for doc in common.smaller_docs(case["doc"]):
            yield dict(case, doc=doc)


def sample(case):
    return data_of(case).decode("utf-8", "replace")[:600]


def explain(case):
    return data_of(case).decode("utf-8", "replace")
