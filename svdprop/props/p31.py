"""A document is read on its own: no other file is opened and no connection made, whatever it refers to."""
import ctypes
import os
import resource
import socket
import struct
import warnings

from .. import common, gen, schemas, spec, xmlast
from ..engine import Violation, HarnessError
from svdsuite import Parser, Process, PeripheralRegisterMap, ProcessException, Serializer, Validator, SVDSchemaVersion

ID = "P31"
RULE = "the document refers to a file or an address outside of it, or expands entities to more than its own size"
QUICK, THOROUGH = 9000, 100000
ASSUMPTIONS = ["opening a file is noticed by inotify on the file's directory, a connection by a listener on the loopback address",
               "documents are small; what libxml2 does to entities nested beyond its limits is not judged except for time and memory"]
SECRET = "c4n4ry"
FILES = {
    "secret.txt": SECRET, "el.xml": f"<size>16</size><description>{SECRET}</description>",
    "x.dtd": f'<!ENTITY ext "{SECRET}">\n<!ATTLIST register derivedFrom CDATA "{SECRET}">\n<!ATTLIST device schemaVersion CDATA "{SECRET}">',
    "other.svd": f"<device><name>{SECRET}</name></device>", "CMSIS-SVD.xsd": "<xs/>", "x.xsl": "<x/>", "cat.xml": "<catalog/>",
}
IN_OPEN, IN_ACCESS = 0x20, 0x1
WAYS = ("content", "str", "file", "process content", "process str", "process file", "map file", "map str", "validate content", "validate str", "validate file")
DOCTYPES = ["", "", ' SYSTEM "{u}x.dtd"', ' PUBLIC "-//ARM//SVD" "{u}x.dtd"']
_state = {}


def generate(r):
    c = common.gen_case(r, gen.profile(pers=(1, 2), rcs=(1, 2), depth=1, fields=(0, 1), meta=0.5, derive=0.1, cpu=0.1), tries=2)
    subset, used = [], False
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.randrange(6)
        n = len(subset)
        if k == 0:
            subset.append(f'<!ENTITY x{n} SYSTEM "{{u}}secret.txt">')
        elif k == 1:
            subset.append(f'<!ENTITY x{n} PUBLIC "pub" "{{u}}el.xml">')
        elif k == 2:
            subset.append(f'<!ENTITY % p{n} SYSTEM "{{u}}x.dtd"> %p{n};')
        elif k == 3:
            subset.append(f'<!ENTITY x{n} SYSTEM "{{u}}el.xml"><!ENTITY y{n} "&#38;x{n};">')
        elif k == 4:
            subset.append(f'<!NOTATION n{n} SYSTEM "{{u}}x.xsl"><!ENTITY x{n} SYSTEM "{{u}}secret.txt" NDATA n{n}>')
        else:
            depth = r.choice([2, 3, 12])
            subset.append(f'<!ENTITY x{n} "lollollol">' + "".join(
                f'<!ENTITY x{n}l{i} "{(f"&#38;x{n}l{i - 1};" if i else f"&#38;x{n};") * 10}">' for i in range(depth)))
            if r.random() < 0.6:
                put(r, c["doc"], f"&x{n}l{depth - 1};")
                used = True
            continue
        if r.random() < 0.6 and k != 2:
            put(r, c["doc"], f"&{'y' if k == 3 else 'x'}{n};")
            used = True
    if any("%" in s for s in subset) and r.random() < 0.5:
        put(r, c["doc"], "&ext;")
        used = True
    how = {"doctype": r.choice(DOCTYPES), "subset": subset, "used": used,
           "uri": r.choice(["", "./", "file://{d}/", "{d}/", "http://127.0.0.1:{p}/", "ftp://127.0.0.1:{p}/"]),
           "hint": r.choice(["CMSIS-SVD.xsd", "./CMSIS-SVD.xsd", "{u}CMSIS-SVD.xsd", "{d}/CMSIS-SVD.xsd"]),
           "include": r.random() < 0.3, "style": r.random() < 0.3, "ways": r.sample(range(len(WAYS)), 4)}
    if how["include"]:
        per = next(n for n in xmlast.walk_nodes(c["doc"]) if n["t"] == "peripheral")
        per["c"].append({"t": "xi:include", "a": {"xmlns:xi": "http://www.w3.org/2001/XInclude", "href": "{u}secret.txt", "parse": "text"}, "c": []})
    return {"doc": c["doc"], "how": how}


def put(r, doc, ref):
    """mark a leaf: MARKED texts get the reference after writing"""
    leaves = [n for n in xmlast.walk_nodes(doc) if n.get("x") and n["t"] in ("description", "name", "displayName", "size", "access")]
    if leaves:
        n = r.choice(leaves)
        n["x"] = n["x"] + f"\u2981{ref[1:-1]}\u2981"


def workspace():
    """directory with the files nobody may open, its inotify descriptor and the listener; one per worker process"""
    if _state.get("pid") != os.getpid():
        d = os.path.join(os.getcwd(), "outside")
        os.makedirs(d, exist_ok=True)
        for name, text in FILES.items():
            with open(os.path.join(d, name), "w", encoding="utf-8") as f:
                f.write(text)
        libc = ctypes.CDLL(None, use_errno=True)
        fd = libc.inotify_init1(os.O_NONBLOCK)
        if fd < 0 or libc.inotify_add_watch(fd, d.encode(), IN_OPEN | IN_ACCESS) < 0:
            fd = None  # no inotify here: what is left is the secret in the results and the connections
        listener = socket.socket()
        listener.bind(("127.0.0.1", 0))
        listener.listen(8)
        listener.setblocking(False)
        _state.update(pid=os.getpid(), dir=d, fd=fd, listener=listener, port=listener.getsockname()[1])
        with open(os.path.join(d, "x.xsl"), encoding="utf-8"):
            pass
        if fd is not None and touched() != ["x.xsl opened"]:
            raise HarnessError("inotify does not notice an opened file")
    return _state


def touched():
    out = []
    while _state["fd"] is not None:
        try:
            data = os.read(_state["fd"], 65536)
        except BlockingIOError:
            break
        at = 0
        while at < len(data):
            _, mask, _, n = struct.unpack_from("iIII", data, at)
            name = data[at + 16:at + 16 + n].rstrip(b"\0").decode()
            at += 16 + n
            if name in FILES and mask & IN_OPEN:
                out.append(name + " opened")
    while True:
        try:
            conn, _ = _state["listener"].accept()
        except BlockingIOError:
            break
        conn.close()
        out.append("connection made")
    return out


def written(case, ws):
    how = case["how"]
    u = how["uri"].replace("{d}", ws["dir"]).replace("{p}", str(ws["port"]))

    def fill(s):
        return s.replace("{u}", u).replace("{d}", ws["dir"])

    doc = xmlast.clone(case["doc"])
    doc["a"]["xs:noNamespaceSchemaLocation"] = fill(how["hint"])
    for n in xmlast.walk_nodes(doc):
        if n["t"] == "xi:include":
            n["a"]["href"] = fill(n["a"]["href"])
    text = xmlast.emit(doc, {"indent": 1, "doctype": fill(how["doctype"]), "subset": [fill(s) for s in how["subset"]]})
    parts = text.split("\u2981")
    for i in range(1, len(parts), 2):
        parts[i] = f"&{parts[i]};"
    text = "".join(parts)
    if how["style"]:
        head, sep, rest = text.partition("?>\n")
        text = head + sep + f'<?xml-stylesheet type="text/xsl" href="{u}x.xsl"?>\n<?oasis-xml-catalog catalog="{u}cat.xml"?>\n' + rest
    return text, doc


def use(way, text):
    """everything a document goes through"""
    data = text.encode("utf-8")
    if way.endswith("file"):
        with open("in.svd", "wb") as f:
            f.write(data)
        arg = ("in.svd", "./in.svd", os.path.abspath("in.svd"))[len(text) % 3]
    else:
        arg = data if way.endswith("content") else text
    suffix = {"content": "xml_content", "str": "xml_str", "file": "svd_file"}[way.split()[-1]]
    if way.startswith("validate"):
        fn = getattr(Validator, "validate_" + {"svd_file": "xml_file"}.get(suffix, suffix))
        return "verdict", fn(arg, get_exception=False, schema_version=SVDSchemaVersion.V1_3_9)
    cls = {"process": Process, "map": PeripheralRegisterMap}.get(way.split()[0], Parser)
    obj = getattr(cls, "from_" + suffix)(arg)
    if cls is Parser:
        dev = obj.get_parsed_device()
        return "model", spec.observe_parsed(dev), Serializer.device_to_svd_str(dev)
    if cls is Process:
        return "processed", None, Serializer.device_to_svd_str(obj.convert_processed_device_to_svd_device())
    return "map", None, str([[p.name, p.description, [(x.name, x.description) for x in p.registers]] for p in obj.peripheral_map])


def check(case, ctx):
    ws = workspace()
    text, doc = written(case, ws)
    os.chdir(ws["dir"])  # relative references lead to the files, too
    how = case["how"]
    try:
        want = ("ok", spec.ref_parse(doc)) if not how["used"] else (None, None)
    except (spec.Reject, spec.OutOfDomain):
        want = (None, None)
    verdict = None
    try:
        touched()
        for nth in how["ways"]:
            way = WAYS[nth]
            if way.startswith("validate") and not how["used"] and not any("%" in s for s in how["subset"]) and verdict is None:
                verdict = schemas.verdict(xmlast.emit_bytes(doc), "1.3.9")
                touched()
            before = resource.getrusage(resource.RUSAGE_SELF).ru_utime
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    got = use(way, text)
                except (ProcessException,) + common.REFUSED_BY_PARSER as e:
                    got = ("refused", None, str(e))
                except Exception as e:  # pylint: disable=broad-except
                    if type(e).__name__ != "XMLSyntaxError":
                        raise
                    got = ("refused", None, str(e))
            after = resource.getrusage(resource.RUSAGE_SELF).ru_utime
            out = touched()
            if out:
                raise Violation(f"{way}: {sorted(set(out))}")
            if after - before > 10:
                raise Violation(f"{way}: {after - before:.0f} s for {len(text)} characters")
            if got[0] == "verdict":
                if verdict is not None and got[1] is not verdict:
                    raise Violation(f"{way}: verdict {got[1]}, without the references {verdict}")
            elif got[0] != "refused" and SECRET in got[2]:
                raise Violation(f"{way}: text of another file in the result")
            if got[0] == "model" and want[0] == "ok":
                common.compare(want[1], got[1], f"{way}: ")
            if got[0] == "refused" and want[0] == "ok" and way in ("content", "str", "file"):
                raise Violation(f"{way}: refused although no reference is used: {got[2]}")
            ctx.tag(got[0])
    finally:
        os.chdir(os.path.dirname(ws["dir"]))
    ctx.tag("used" if how["used"] else "declared only")
    ctx.nontrivial(bool(how["subset"]) or "{u}" in how["doctype"])


def smaller(case):
    how = case["how"]
    for i in range(len(how["ways"])):
        if len(how["ways"]) > 1:
            yield dict(case, how=dict(how, ways=[how["ways"][i]]))
    for i in range(len(how["subset"])):
        yield dict(case, how=dict(how, subset=how["subset"][:i] + how["subset"][i + 1:], used=True))
    for key in ("include", "style"):
        if how[key]:
            yield dict(case, how=dict(how, **{key: False}))
    if how["doctype"]:
        yield dict(case, how=dict(how, doctype=""))
    for d in common.smaller_docs(case["doc"]):
        yield dict(case, doc=d)


def sample(case):
    return f"{case['how']}"[:600]


def explain(case):
    return f"{case['how']}\n" + xmlast.emit(case["doc"], {"indent": 1, "doctype": case["how"]["doctype"], "subset": case["how"]["subset"]})
