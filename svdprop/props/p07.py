"""The validator's verdict is the verdict of the published schema of the version asked for."""
import lxml.etree

from .. import common, gen, schemas, spec, xmlast
from ..engine import Violation
from . import p03, p06
from svdsuite import Validator, SVDSchemaVersion

ID = "P07"
RULE = "the document differs from a schema-valid one in at most a few places (every case), and it was judged by at least two versions or with at least ten other texts"
QUICK, THOROUGH = 4500, 70000
ASSUMPTIONS = ["validity is decided by libxml2's XSD validator over the schema copies in /verif/golden"]
NAMES = sorted({row[1] for rows in spec.TABLE.values() for row in rows if isinstance(row[1], str)})


def generate(r):
    if r.random() < 0.5:
        return notations(r)
    if r.random() < 0.5:
        d = gen.Gen(r, gen.profile(pers=(1, 2), rcs=(1, 2), depth=1, meta=0.4, cpu=0.5, wc=0.3, dim=0.2)).device()
    else:
        d = p06.names(gen.any_device(r, p=r.choice([0.1, 0.3, 0.6]), depth=1, lists=1), r)
    doc = spec.to_ast(schemas.tidy(d, r))
    home = r.choice(schemas.VERSIONS + 2 * schemas.VERSIONS[:4])
    doc = schemas.fit(doc, home, r) or doc
    if r.random() < 0.7:
        for _ in range(r.choice([1, 1, 2])):
            damage(r, doc)
    first = [home] if home != "1.3.11" else []
    rest = r.sample([v for v in schemas.VERSIONS[:-1] if v != home], 5)
    full = first + rest[:2 - len(first)] + ["1.3.11"]
    return {"doc": doc, "versions": full, "briefly": [v for v in rest if v not in full], "decl": r.choice(["utf-8", None, "iso-8859-1"])}


def damage(r, doc):
    k = r.randrange(13)
    if k >= 10:
        return literal(r, doc)
    if k >= 8:
        # another word of the same vocabulary
        spots = [(c, p03.ROWS[n["t"]][c["t"]][1]) for n in xmlast.walk_nodes(doc) for c in n["c"]
                 if n["t"] in p03.ROWS and c["t"] in p03.ROWS[n["t"]] and p03.ROWS[n["t"]][c["t"]][1] in spec.ENUMS]
        for leaf, reader in spots:
            if r.random() < 0.4:
                leaf["x"] = r.choice(spec.ENUMS[reader])
        return
    if k < 3:
        p03.mutate(r, doc, r.choice(["drop", "empty", "repeat", "pad", "unknown", "attr", "order", "dropattr"]))
        return
    nodes = list(xmlast.walk_nodes(doc))
    node = r.choice(nodes)
    if k == 3 and len(node["c"]) > 1:
        i = r.randrange(len(node["c"]) - 1)
        node["c"][i], node["c"][i + 1] = node["c"][i + 1], node["c"][i]
    elif k == 4:
        leaf = r.choice([n for n in nodes if not n["c"]])
        leaf["x"] = r.choice(["", "abc", "-1", "0x", "0xFFFF", "12", "%s", "x[%s]", "r1p1", "true", "CM52", "CM85", "SMC1", "1.5",
                              "any", "a b", "\u4e00", "reserved", "read-write", "[3:0]", "0b1", "#x1", "999999999999"])
    elif k == 5:
        node.setdefault("a", {})[r.choice(["derivedFrom", "schemaVersion", "enabled", "name", "foo"])] = r.choice(
            ["A", "A.B", "1.1", "true", "%s", ""])
    elif k == 6:
        node["c"].insert(r.randint(0, len(node["c"])), xmlast.L(r.choice(NAMES), r.choice(["1", "Abc", "true"])))
    elif node["c"]:
        node["c"].insert(0, xmlast.clone(r.choice(node["c"])))


NOTATIONS = {
    "int": ["4k", "0x4K", "1M", "2g", "1T", "0x1F", "0Xff", "#101", "0b11", "+5", "+0x5", "0kk", "k", "05", "5 ", "1,0", "-1", "#12", "0x", "7F", "+"],
    "bool": ["true", "false", "1", "0", "TRUE", "yes", "2"],
    "dimIndex": ["0-3", "3-0", "A-D", "A-", "a-d", "0,1,2", "A, B", "A,,B", "A", "_a,b", "0-", "A-3", "0-10,A", "10-20", "a,b ,c", ""],
    "bitRange": ["[7:0]", "[31:0]", "[49:0]", "[50:0]", "[63:32]", "[7:0", "7:0", "[ 7:0]", "[0:7]", "[127:0]", "[07:00]"],
    "value": ["0b1x", "#1X", "0B1", "0xA", "0Xa", "10", "x", "1x", "+3", "0b2", "#", "+#1", "0x1x", "4k"],
    "revision": ["r0p0", "r10p12", "p0", "r0", "R0P0", "rp", "r0p0a", "r1p"],
    "name": ["A%s", "A[%s]", "%s", "[%s]", "A%sB", "1A", "A-B", "A.B", "_a", "A%s%s", "A[%s]B", "%sA", "%s1", "_", "A b", "\u00c4", "a" * 300],
}
NOTATIONS["hex"] = NOTATIONS["int"]
NAMED = ("name", "displayName", "headerStructName", "alternateGroup", "alternateRegister", "alternateCluster", "alternatePeripheral", "groupName",
         "prependToName", "appendToName", "headerEnumName", "headerSystemFilename", "headerDefinitionsPrefix", "dimName", "vendorID", "series",
         "version", "vendor", "disableCondition", "licenseText", "description")


def literals(doc):
    """(element, leaf) -> [(number of the leaf in the document, kind of its text)]"""
    spots = {}
    number = {id(n): i for i, n in enumerate(xmlast.walk_nodes(doc))}
    for n in xmlast.walk_nodes(doc):
        for c in n["c"]:
            reader = p03.ROWS.get(n["t"], {}).get(c["t"], (None, None))[1]
            if c["t"] in ("dimIndex", "bitRange", "revision") or (c["t"], n["t"]) == ("value", "enumeratedValue"):
                kind = c["t"]
            elif reader in ("int", "hex", "bool"):
                kind = reader
            elif c["t"] in NAMED:
                kind = "name"
            elif n["t"] == "range":
                kind = "int"
            else:
                continue
            spots.setdefault((n["t"], c["t"]), []).append((number[id(c)], kind))
    return spots


def literal(r, doc):
    """another notation, of those some version may accept there, in one place"""
    spots = literals(doc)
    if spots:
        at, kind = r.choice(spots[r.choice(sorted(spots))])
        list(xmlast.walk_nodes(doc))[at]["x"] = r.choice(NOTATIONS[kind])


def notations(r):
    """one document of some version and a number of texts to put into one of its leaves each"""
    d = p06.names(gen.any_device(r, p=r.choice([0.4, 0.7, 0.9]), depth=1, lists=1), r)
    for e in repeated(d):
        if r.random() < 0.5:
            e.update(dim=2, dim_increment=8, dim_index=r.choice([None, "0-1", "a,b"]))
            e["name"] += "%s"
    home = r.choice(schemas.VERSIONS)
    doc = spec.to_ast(schemas.tidy(d, r))
    doc = schemas.fit(doc, home, r) or doc
    texts = []
    spots = literals(doc)
    for _ in range(24):
        if spots:
            wanted = r.choice(sorted({k for x in spots.values() for _, k in x} | {"any", "name"}))
            names = [x for x in sorted(spots) if wanted in ("any", spots[x][0][1])]
            n, kind = r.choice(spots[r.choice(names or sorted(spots))])
            texts.append([n, r.choice(NOTATIONS[kind])])
    return {"doc": doc, "versions": [], "briefly": [home], "texts": texts, "decl": "utf-8"}


def repeated(d):
    out, todo = [], [d]
    while todo:
        e = todo.pop()
        if e["_"] in ("peripheral", "cluster", "register", "field"):
            out.append(e)
        for k in ("peripherals", "registers_clusters", "fields"):
            todo += e.get(k) or []
    return out


def check(case, ctx):
    for at, text in case.get("texts", ()):
        doc = xmlast.clone(case["doc"])
        list(xmlast.walk_nodes(doc))[at]["x"] = text
        data = xmlast.emit_bytes(doc)
        v = case["briefly"][0]
        want = schemas.verdict(data, v)
        got = Validator.validate_xml_content(data, get_exception=False, schema_version=SVDSchemaVersion(v))
        if got is not want:
            raise Violation(f"validate_xml_content for {v} with text {text!r}: {got}, the schema says {want}: "
                            f"{schemas.schema(v).error_log.last_error}")
        ctx.tag(f"text {'valid' if want else 'invalid'} {v}")
    style = {"indent": 1, "decl": case["decl"] is not None, "encoding": case["decl"] or ""}
    text = xmlast.emit(case["doc"], style)
    data = text.encode(case["decl"] or "utf-8", "xmlcharrefreplace")
    with open("v.svd", "wb") as f:
        f.write(data)
    if SVDSchemaVersion.get_latest().value != "1.3.11":
        raise Violation("latest version is not 1.3.11")
    if sorted(v.value for v in SVDSchemaVersion) != sorted(schemas.VERSIONS):
        raise Violation("the versions offered are not the published ones")
    seen = set()
    for v in case["briefly"]:
        want = schemas.verdict(data, v)
        got = Validator.validate_xml_content(data, get_exception=False, schema_version=SVDSchemaVersion(v))
        if got is not want:
            raise Violation(f"validate_xml_content for {v}: {got}, the schema says {want}: {schemas.schema(v).error_log.last_error}")
        seen.add(want)
        ctx.tag(f"{'valid' if want else 'invalid'} {v}")
    for v in case["versions"]:
        want = schemas.verdict(data, v)
        version = SVDSchemaVersion(v)
        seen.add(want)
        for label, fn, arg in (("validate_xml_content", Validator.validate_xml_content, data),
                               ("validate_xml_str", Validator.validate_xml_str, text),
                               ("validate_xml_file", Validator.validate_xml_file, "v.svd")):
            got = fn(arg, get_exception=False, schema_version=version)
            if got is not want:
                raise Violation(f"{label} for {v}: {got}, the schema says {want}: {schemas.schema(v).error_log.last_error}")
            try:
                got = fn(arg, get_exception=True, schema_version=version)
            except lxml.etree.DocumentInvalid as e:
                got = False
                if not str(e):
                    raise Violation("exception without a message") from None
            else:
                if got is not True:
                    raise Violation(f"{label} for {v} returns {got} instead of raising")
            if got is not want:
                raise Violation(f"{label} for {v} with get_exception: valid={got}, the schema says {want}")
            if v == "1.3.11":
                if fn(arg, False) is not want:
                    raise Violation(f"{label}: default version is not the newest")
                try:
                    got = fn(arg)
                except lxml.etree.DocumentInvalid:
                    got = False
                if got is not want:
                    raise Violation(f"{label}: defaults do not give the verdict of the newest version by exception")
        ctx.tag(f"{'valid' if want else 'invalid'} {v}")
    ctx.nontrivial(len(case["versions"]) > 1 or len(case.get("texts", ())) > 9)
    ctx.tag("versions disagree" if len(seen) > 1 else "versions agree")


def smaller(case):
    if case.get("texts"):
        if len(case["texts"]) > 1:
            for t in case["texts"]:
                yield dict(case, texts=[t])
        return
    if len(case["versions"]) > 1 or case["briefly"]:
        for v in case["versions"] + case["briefly"]:
            yield dict(case, versions=[v], briefly=[])
    for d in common.smaller_docs(case["doc"]):
        yield dict(case, doc=d)


sample = common.sample
explain = common.explain
