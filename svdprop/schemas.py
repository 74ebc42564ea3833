"""The published schema versions, from copies kept here (golden/), and devices that satisfy the newest one."""
import functools
import os
import re

import lxml.etree

from . import boot

VERSIONS = ["1.0", "1.1", "1.2", "1.3.1", "1.3.2", "1.3.3", "1.3.4", "1.3.5", "1.3.6", "1.3.7", "1.3.8", "1.3.9", "1.3.10",
            "1.3.11"]


@functools.lru_cache(None)
def schema(version):
    return lxml.etree.XMLSchema(lxml.etree.parse(os.path.join(boot.VERIF, "golden", f"{version}.xsd")))


def verdict(data, version):
    return schema(version).validate(lxml.etree.fromstring(data))


def tidy(d, r):
    """change what the newest schema does not allow"""
    kind = d["_"]
    if kind == "device":
        d["schema_version"] = r.choice(["1.3", "1.1", "1.2"])
        d["description"] = d["description"] or "x"
    if kind in ("cluster", "device") and not d["description"]:
        d["description"] = "some text"
    if d.get("description"):
        d["description"] = d["description"].encode("latin-1", "ignore").decode("latin-1") or "x"
    if kind == "enumeratedValue":
        if d["value"] is not None and d["is_default"] is not None:
            if r.random() < 0.5:
                d["value"] = None
            else:
                d["is_default"] = None
        if d["value"]:
            d["value"] = d["value"].replace("0B", "0b")
        if d["value"] is None and d["is_default"] is None:
            d["is_default"] = True
    if kind == "dimArrayIndex" and not d["enumerated_values"]:
        d["header_enum_name"] = d["header_enum_name"] or "Hdr"
    if d.get("dim_index") and "," not in d["dim_index"] and "-" not in d["dim_index"]:
        d["dim_index"] = None
    if kind == "cpu" and d["sau_regions_config"] and not d["sau_regions_config"]["regions"]:
        pass
    if kind == "field" and d["bit_range"] is None and d["derived_from"] is not None:
        pos = [d[k] is not None for k in ("lsb", "msb", "bit_offset", "bit_width")]
        if pos[:2] in ([True, False], [False, True]) or pos[2:] == [False, True]:
            lsb = d["lsb"] or d["bit_offset"] or 0
            d.update(lsb=None, msb=None, bit_width=None, bit_offset=lsb)
    for v in list(d.values()):
        for x in v if isinstance(v, list) else [v]:
            if isinstance(x, dict):
                tidy(x, r)
    return d


# what to write into an element an older version insists on
FILL = {"bool": "true", "int": "1", "hex": "0x1"}
TEXTS = {"name": "Nm", "description": "text", "version": "1.0", "usage": "registers", "access": "read-only", "value": "1", "revision": "r0p0",
         "endian": "little", "bitRange": "[1:0]", "vendorSystickConfig": "false", "schemaVersion": "1.1", "dimIndex": "0-1", "writeAsRead": "true"}


def fit(doc, version, r, steps=80):
    """change the document until the schema of this version accepts it; None if that does not work out"""
    from . import spec, xmlast

    readers = {x: rd for rows in spec.TABLE.values() for c, x, _, rd, _ in rows if c in ("e", "r")}
    root = lxml.etree.fromstring(xmlast.emit_bytes(doc))
    check = schema(version)

    def new(name):
        e = lxml.etree.Element(name)
        e.text = TEXTS.get(name) or FILL.get(readers.get(name), "Txt")
        return e

    for _ in range(steps):
        if check.validate(root):
            return xmlast.from_bytes(lxml.etree.tostring(root))
        error = check.error_log[0]
        found = root.xpath(error.path) if error.path else []
        if not found:
            return None
        node, text = found[0], error.message
        parent = node.getparent()
        expected = re.findall(r"[A-Za-z]\w*", text.split("Expected is")[1]) if "Expected is" in text else []
        expected = [x for x in expected if x not in ("one", "of")]
        attribute = re.search(r"attribute '([^']*)'", text)
        allowed = re.search(r"element of the set \{(.*)\}", text)
        if attribute:
            name = attribute.group(1)
            fixed = re.search(r"fixed value constraint '([^']*)'", text)
            if fixed:
                node.set(name, fixed.group(1))
            elif "required" in text:
                node.set(name, TEXTS.get(name, "Txt"))
            elif allowed:
                node.set(name, r.choice(re.findall(r"'([^']*)'", allowed.group(1))))
            else:
                node.attrib.pop(name, None)
        elif "Missing child" in text:
            plain = [x for x in expected if x in readers]
            if plain:
                node.append(new(plain[0]))
            elif parent is not None:
                parent.remove(node)
            else:
                return None
        elif allowed:
            node.text = r.choice(re.findall(r"'([^']*)'", allowed.group(1)))
        elif "not expected" in text:
            if len(expected) == 1 and expected[0] in readers and parent.find(expected[0]) is None:
                node.addprevious(new(expected[0]))
            elif parent is None:
                return None
            else:
                parent.remove(node)
        elif parent is None:
            return None
        elif node.text != TEXTS.get(node.tag) and node.tag in TEXTS:
            node.text = TEXTS[node.tag]
        else:
            parent.remove(node)
    return None
