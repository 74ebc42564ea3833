"""Plain-data XML documents and an emitter that shares no code with the serializer under test.

A node is a dict {"t": tag, "a": {attr: value}, "x": text or None, "c": [children]}.  Documents are plain JSON so
that a failing case can be written to a replay file, shrunk structurally and read by a person.
A *style* is a dict that says how a document is written down (indentation, comments, declaration, quotes, ...): two
styles of one document have the same meaning.
"""
from random import Random

XS = "http://www.w3.org/2001/XMLSchema-instance"


def N(tag, *children, text=None, attrs=None):
    node = {"t": tag, "c": [c for c in children if c is not None]}
    if text is not None:
        node["x"] = text
    if attrs:
        node["a"] = dict(attrs)
    return node


def L(tag, text):
    """leaf, or nothing when text is None"""
    return None if text is None else {"t": tag, "x": str(text), "c": []}


def kids(node, tag):
    return [c for c in node.get("c", ()) if c["t"] == tag]


def clone(node):
    out = {"t": node["t"], "c": [clone(c) for c in node.get("c", ())]}
    if node.get("x") is not None:
        out["x"] = node["x"]
    if node.get("a"):
        out["a"] = dict(node["a"])
    return out


def esc(text, attr_quote=None):
    out = []
    for ch in text:
        if ch == "&":
            out.append("&amp;")
        elif ch == "<":
            out.append("&lt;")
        elif ch == ">":
            out.append("&gt;")
        elif ch == "\r" or (attr_quote and ch in "\n\t"):
            out.append(f"&#{ord(ch)};")
        elif attr_quote and ch == attr_quote:
            out.append("&quot;" if ch == '"' else "&apos;")
        else:
            out.append(ch)
    return "".join(out)


PLAIN = {"indent": 1}


def emit(doc, style=None):
    """text of the document (str); the declaration is included unless style["decl"] is False"""
    st = style or PLAIN
    rnd = Random(st.get("seed", 0))
    comments = st.get("comments", 0)  # per cent
    cdata = st.get("cdata", 0)
    indent = st.get("indent", 1)
    q = "'" if st.get("single") else '"'
    prefix = st.get("prefix", "xs")
    charrefs = st.get("charrefs", 0)
    intext = st.get("intext", 0)
    out = []
    decl = st.get("decl", True)
    if decl:
        enc = st.get("encoding", "utf-8")
        out.append(f"<?xml version={q}1.0{q} encoding={q}{enc}{q}?>" + ("\n" if indent else ""))
    if comments:
        out.append("<!-- generated: <name>not a name</name> -->\n")
    entities = st.get("entities", 0)  # per cent of the texts, and fewer elements, that are written by way of an internal entity
    declared = []
    doctype_at = len(out)

    def entity(markup):
        """declare an entity that stands for this markup"""
        value = markup.replace("&", "&#38;").replace("%", "&#37;").replace('"', "&#34;")
        declared.append(f'<!ENTITY e{len(declared)} "{value}">')
        return f"&e{len(declared) - 1};"

    def text_of(text):
        if entities and text and rnd.randrange(100) < entities:
            i, j = sorted((rnd.randint(0, len(text)), rnd.randint(0, len(text))))
            return esc(text[:i]) + entity(esc(text[i:j])) + esc(text[j:])
        if intext and text and rnd.randrange(100) < intext:  # comments split the text, but don't belong to it
            cut = rnd.randint(0, len(text))
            return plain_text(text[:cut]) + rnd.choice(["<!-- 0x1 -->", "<?pi x?>", "<!--a--><!--b-->"]) + plain_text(text[cut:])
        return plain_text(text)

    def plain_text(text):
        if cdata and text and "]]>" not in text and "\r" not in text and rnd.randrange(100) < cdata:
            return f"<![CDATA[{text}]]>"
        if charrefs and text and rnd.randrange(100) < charrefs:
            return "".join(f"&#{ord(ch)};" if rnd.random() < 0.3 else esc(ch) for ch in text)
        return esc(text)

    def noise(depth):
        if comments and rnd.randrange(100) < comments:
            k = rnd.randrange(3)
            if k == 0:
                out.append("<!-- <size>99</size> -->")
            elif k == 1:
                out.append("<?pi some data?>")
            else:
                out.append("<!--c-->")

    def walk(node, depth):
        pad = ("\n" + "  " * depth) if indent else ""
        if depth:
            out.append(pad)
        attrs = dict(node.get("a") or {})
        items = [(k, v) for k, v in attrs.items()]
        if st.get("revattrs"):
            items.reverse()
        rendered = []
        if depth == 0:
            ns = f"xmlns:{prefix}={q}{XS}{q}"
            rendered.append(ns)
            for other, uri in (st.get("namespaces") or {}).items():
                if other != prefix:
                    rendered.insert(0 if st.get("revattrs") else 1, f"xmlns:{other}={q}{uri}{q}")
        for k, v in items:
            if k.startswith("xs:"):
                k = prefix + k[2:]
            rendered.append(f"{k}={q}{esc(v, q)}{q}")
        sep = "\n    " if st.get("attrnl") else " "
        open_ = "<" + node["t"] + ("".join(sep + r for r in rendered))
        children = node.get("c") or []
        text = node.get("x")
        if not children and (text is None or text == ""):
            if st.get("longempty"):
                out.append(f"{open_}></{node['t']}>")
            else:
                out.append(open_ + "/>")
            return
        out.append(open_ + ">")
        if text is not None and not children:
            out.append(text_of(text))
            out.append(f"</{node['t']}>")
            return
        noise(depth)
        for c in children:
            start = len(out)
            walk(c, depth + 1)
            if entities and len(declared) < 60 and rnd.randrange(400) < entities:
                out[start:] = [entity("".join(out[start:]))]
            noise(depth)
        out.append(pad if depth else ("\n" if indent else ""))
        out.append(f"</{node['t']}>")

    walk(doc, 0)
    if declared or st.get("doctype") or st.get("subset"):
        out.insert(doctype_at, f"<!DOCTYPE {doc['t']}{st.get('doctype', '')} [\n" + "\n".join(st.get("subset", []) + declared) + "\n]>\n")
    if comments:
        out.append("\n<!-- end -->")
    return "".join(out)


def emit_bytes(doc, style=None):
    st = style or PLAIN
    enc = st.get("encoding", "utf-8")
    return emit(doc, st).encode(enc)


def size(node):
    return 1 + sum(size(c) for c in node.get("c", ()))


def walk_nodes(node):
    yield node
    for c in node.get("c", ()):
        yield from walk_nodes(c)


def from_bytes(data):
    """document read back with the standard library's parser (expat), not with the one the code under test uses"""
    import xml.etree.ElementTree as ET

    def conv(e):
        node = {"t": e.tag, "c": [conv(c) for c in e]}
        if not node["c"] and e.text:
            node["x"] = e.text
        elif node["c"] and ((e.text or "").strip() or any((c.tail or "").strip() for c in e)):
            node["stray"] = True
        if e.attrib:
            node["a"] = {("xs:" + k.split("}")[1] if k.startswith("{" + XS + "}") else k): v for k, v in e.attrib.items()}
        return node

    return conv(ET.fromstring(data))
