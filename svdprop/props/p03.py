"""Irregular documents: what vendors get wrong is read like SVDConv reads it and reported; what is essential is insisted on."""
import collections
import warnings

from .. import common, gen, spec, xmlast
from ..engine import Violation
from ..xmlast import N, L, kids
from svdsuite import Parser, ParserWarning

ID = "P03"
RULE = "at least one irregularity (missing, empty, repeated, padded, unknown, split or out of order) was put into the document"
QUICK, THOROUGH = 40000, 450000
ASSUMPTIONS = common.ASSUME[:1]

ROWS = {}  # kind -> {xml: (carrier, reader, presence)} of leaves
for _kind, _rows in spec.TABLE.items():
    ROWS[_kind] = {x: (c, rd, p) for c, x, _, rd, p in _rows if c in ("e", "r")}
OTHER = {"int": "3", "hex": "0x3", "bool": "true", "str": "Other"}


def elements(doc):
    out = []

    def rec(node):
        if node["t"] in ROWS:
            out.append(node)
        for c in node["c"]:
            rec(c)

    rec(doc)
    return out


KNOWN = {k: {n for how, x, *_ in rows if how != "a" for n in ((x,) if isinstance(x, str) else x[:1] if how == "wrapped" else x)}
         for k, rows in spec.TABLE.items()}
KNOWN.update(registers={"register", "cluster"}, fields={"field"}, peripherals={"peripheral"}, range={"minimum", "maximum"})


def mutate(r, doc, kind):
    """puts one irregularity in; returns whether it did"""
    els = elements(doc)
    node = r.choice(els)
    if r.random() < 0.5:  # spread over the kinds of elements
        want = r.choice(sorted({e["t"] for e in els}))
        node = r.choice([e for e in els if e["t"] == want])
    rows = ROWS[node["t"]]
    leaves = [c for c in node["c"] if c["t"] in rows and not c["c"]]
    if kind in ("drop", "empty"):
        need = [c for c in leaves if rows[c["t"]][2] == "m"]
        opts = [c for c in leaves if rows[c["t"]][2] != "m"]
        pool = need if (need and r.random() < 0.5) else (opts or need)
        if not pool:
            return False
        leaf = r.choice(pool)
        if kind == "drop":
            node["c"] = [c for c in node["c"] if c is not leaf]
        else:
            leaf["x"] = None
        return True
    if kind == "dropattr":
        doc["a"] = {k: v for k, v in doc["a"].items() if r.random() < 0.5}
        return True
    if kind == "peripherals":
        doc["c"] = [c for c in doc["c"] if c["t"] != "peripherals"]
        return True
    if kind == "repeat":
        if not leaves:
            return False
        leaf = r.choice(leaves)
        _, reader, _ = rows[leaf["t"]]
        values = spec.ENUMS.get(reader)
        extra = L(leaf["t"], r.choice(values) if values else OTHER[reader])
        if r.random() < 0.15:
            extra["x"] = None
        at = r.randint(0, len(node["c"]))
        node["c"].insert(at, extra)
        return True
    if kind == "again":  # a whole cpu, writeConstraint, ... a second time, not quite the same
        spots = [(e, c) for e in [doc] + els for c in e["c"] if c["t"] in SINGLE]
        spots += [(c, x) for e in els for c in e["c"] if c["t"] == "writeConstraint" for x in c["c"] if x["t"] == "range"]
        if not spots:
            return False
        node, first = r.choice(spots)
        new = xmlast.clone(first)
        for x in list(xmlast.walk_nodes(new)):
            k = r.random()
            if x is not new and k < 0.2:
                parents = [y for y in xmlast.walk_nodes(new) if any(z is x for z in y["c"])]
                for y in parents:
                    y["c"] = [z for z in y["c"] if z is not x]
            elif not x["c"] and x.get("x") and k < 0.5 and (x["x"].isdigit() or x["x"] in ("true", "false")):
                x["x"] = r.choice(["0", "1"])
        node["c"].insert(r.randint(0, len(node["c"])), new)
        return True
    if kind == "pad":
        if not leaves:
            return False
        leaf = r.choice(leaves)
        if not leaf.get("x"):
            return False
        leaf["x"] = r.choice(["", " ", "\n   ", "\t"]) + leaf["x"] + r.choice([" ", "\n  ", "\t", "  "])
        return True
    if kind == "padattr":
        spots = [(e, row[1]) for e in [doc] + els for row in spec.TABLE.get(e["t"], ()) if row[0] == "a" and row[1] in (e.get("a") or {})]
        if not spots:
            return False
        e, name = r.choice(spots)
        e["a"][name] = r.choice([e["a"][name] + " ", "\t" + e["a"][name], " " + e["a"][name] + " ", "  ", " "])
        return True
    if kind == "unknown":
        new = r.choice([
            N("vendorExtensions", L("name", "nope"), L("size", "8"), N("registers", N("register", L("name", "ghost")))),
            L("Name", "wrong case"), L("derivedFrom", "nowhere"), L("registerName", "x"), L("bitWidths", "4"), N("note"),
        ])
        node["c"].insert(r.randint(0, len(node["c"])), xmlast.clone(new))
        return True
    if kind == "astray":  # something the standard knows, at a place where it does not
        every = list(xmlast.walk_nodes(doc))
        thing = xmlast.clone(r.choice([e for e in every if e is not doc]))
        if xmlast.size(thing) > 80:
            return False
        if r.random() < 0.5:
            target, thing = r.choice([e for e in every if e["t"] in KNOWN]), N(r.choice(["vendorExtensions", "x", "extension"]), thing)
        else:
            targets = [e for e in every if e["t"] in KNOWN and thing["t"] not in KNOWN[e["t"]]]
            if not targets:
                return False
            target = r.choice(targets)
        target["c"].insert(r.randint(0, len(target["c"])), thing)
        return True
    if kind == "attr":
        node.setdefault("a", {})[r.choice(["custom", "name2", "size"])] = "1"
        return True
    if kind == "split":
        for tag in r.choice([("registers", "fields"), ("peripherals",)]):
            for w in kids(node, tag):
                cut = r.randint(0, len(w["c"]))
                rest = N(tag, *w["c"][cut:])
                w["c"] = w["c"][:cut]
                node["c"].insert(r.randint(node["c"].index(w) + 1, len(node["c"])), rest)
                return True
        return False
    if kind == "order":
        # keep the relative order of repeatable elements
        groups = {}
        for c in node["c"]:
            groups.setdefault(c["t"] if c["t"] not in ("register", "cluster") else "rc", []).append(c)
        pools = list(groups.values())
        out = []
        while pools:
            g = r.choice(pools)
            out.append(g.pop(0))
            pools = [p for p in pools if p]
        node["c"] = out
        return True
    raise AssertionError(kind)


KINDS = ["drop", "empty", "repeat", "repeat", "pad", "unknown", "attr", "split", "order", "dropattr", "drop", "again", "again", "astray", "padattr"]
SINGLE = ("cpu", "sauRegionsConfig", "writeConstraint", "dimArrayIndex")


def generate(r):
    doc = gen.write_doc(gen.any_device(r, p=r.choice([0.2, 0.5]), depth=1, lists=2), r)
    n = 0
    for _ in range(r.choice([1, 1, 2, 5])):
        kind = r.choice(KINDS) if r.random() > 0.015 else "peripherals"
        n += mutate(r, doc, kind)
    return {"doc": doc, "style": {"indent": r.randrange(2), "longempty": r.randrange(2)}, "n": n}


def expected_warnings(doc):
    """(what, element name) the parser has to report"""
    out = collections.Counter()

    def rec(node):
        rows = ROWS.get(node["t"], {})
        if node["t"] == "range":
            rows = {"minimum": ("e", "int", "m"), "maximum": ("e", "int", "m")}
        for tag, (carrier, _, _) in rows.items():
            found = kids(node, tag)
            if len(found) > 1:
                out[("Multiple", tag)] += 1
            if found and carrier == "e" and found[-1].get("x") and found[-1]["x"].strip() != found[-1]["x"]:
                out[("stripped", tag)] += 1
            if node["t"] == "interrupt" and tag == "value" and not (found and found[-1].get("x")):
                out[("value", "value")] += 1
            if node["t"] == "device" and tag == "description" and not (found and found[-1].get("x")):
                out[("description", "description")] += 1
        for a, v in (node.get("a") or {}).items():
            if any(row[0] == "a" and row[1] == a for row in spec.TABLE.get(node["t"], ())) and v.strip() != v:
                out[("stripped", a.split(":")[-1])] += 1
        last = {c["t"]: c for c in node["c"]}
        told = set()
        for c in node["c"]:
            if c["t"] not in KNOWN.get(node["t"], ()):
                continue
            if c["t"] in SINGLE + ("range",):
                if c is not last[c["t"]]:
                    out[("Multiple", c["t"])] += c["t"] not in told
                    told.add(c["t"])
                    continue
            if c["t"] in spec.TABLE or c["t"] in ("registers", "fields", "peripherals", "range"):
                if node["t"] in spec.TABLE or node["t"] in ("registers", "fields", "peripherals"):
                    rec(c)

    rec(doc)
    if (doc.get("a") or {}).get("xs:noNamespaceSchemaLocation") is None:
        out[("noNamespaceSchemaLocation", "noNamespaceSchemaLocation")] += 1
    return out


def check(case, ctx):
    try:
        want = spec.ref_parse(case["doc"])
    except spec.OutOfDomain as e:
        ctx.skip(common.generic(e))
    except spec.Reject as e:
        want, reason = None, e
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        try:
            parsed = Parser.from_xml_content(xmlast.emit_bytes(case["doc"], case["style"])).get_parsed_device()
        except common.REFUSED_BY_PARSER as e:
            if want is not None:
                raise Violation(f"refused: {type(e).__name__} {e}") from None
            ctx.tag("refused: " + common.generic(reason))
            ctx.nontrivial()
            return
    if want is None:
        raise Violation(f"accepted although {reason}")
    common.compare(want, spec.observe_parsed(parsed))
    texts = [str(w.message) for w in caught if issubclass(w.category, ParserWarning)]
    expected = expected_warnings(case["doc"])
    for (what, name), n in expected.items():
        said = sum(what in t and name in t for t in texts)
        if said < n:
            raise Violation(f"{said} of {n} ParserWarnings about {name!r} ({what}); warnings: {texts[:5]}")
    if texts and not expected:
        raise Violation(f"ParserWarning although nothing is irregular: {texts[0]}")
    for what, _ in expected:
        ctx.tag("reported: " + what)
    ctx.tag("read")
    ctx.nontrivial(case.get("n", 1) > 0)


smaller, sample, explain = common.smaller, common.sample, common.explain
