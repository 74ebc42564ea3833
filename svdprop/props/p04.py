"""Every entry point reads the same device, however the document is encoded and wherever it is stored."""
import glob
import os
import unicodedata
import warnings
from html import escape as html_escape, unescape
from urllib.parse import quote, quote_plus, unquote, unquote_plus

from lxml.etree import XMLSyntaxError

from .. import common, gen, refproc, spec, xmlast
from ..engine import Violation
from svdsuite import Parser, ParserWarning, Process, PeripheralRegisterMap, ProcessException

ID = "P04"
RULE = "the document has text outside ASCII, or is stored in another form than plain UTF-8 bytes with a matching declaration"
QUICK, THOROUGH = 9000, 120000
ASSUMPTIONS = common.ASSUME[:1]

# (encoding named in the declaration or None, codec of the bytes, byte order mark put in front)
FORMS = [
    ("utf-8", "utf-8", b""), (None, "utf-8", b""), ("utf-8", "utf-8", b"\xef\xbb\xbf"), (None, "utf-8", b"\xef\xbb\xbf"),
    ("UTF-8", "utf-8", b""), ("utf-16", "utf-16", b""), (None, "utf-16", b""), ("UTF-16", "utf-16-be", b"\xfe\xff"),
    ("iso-8859-1", "latin-1", b""), ("ISO-8859-15", "iso-8859-15", b""), ("windows-1252", "cp1252", b""),
    ("us-ascii", "ascii", b""), ("iso-8859-2", "iso-8859-2", b""), ("windows-1251", "cp1251", b""),
]
# bytes that are not what the declaration says: only the documented fallback reads them
WRONG = [("utf-8", "cp1252"), (None, "cp1252"), ("ascii", "cp1252"), ("utf-8", "latin-1"), ("ascii", "utf-8")]
PATHS = ["a.svd", "with space.svd", "per%20cent.svd", "ha#sh.svd", "qu?ery.svd", "ümläut.svd", "名.svd", "sub/dir/x.svd",
         "no_extension", "amp&lt;.xml", "a+b=c.svd", "..dots..svd", "[b].svd", "semi;colon.svd", "quote'd.svd", "col:on.svd",
         "a$HOME.svd", "${HOME}", "~", "~root", "%HOME%.svd", " leading.svd", "trailing ", "*.svd", "a?.svd", "-", "-.svd", "back\\slash.svd",
         "new\nline.svd", "x.svd.gz", "{0}.svd", "%s.svd", "C:x.svd", "data,x", "LONG" * 50, "a|b", "a&b.svd", "#", "?", "\U0001F600.svd", "e\u0301.svd"]
STRDECL = ["utf-8", "UTF-8", "utf-16", "iso-8859-1", "windows-1252", "us-ascii", None]
STARTS = [" ", "\n", "\t", "\r\n  ", "<!-- before -->", "x", "\x0b", "?", "&", "<"]  # in front of everything, also of the XML declaration
LATIN = ["a\u00a0b", "Größe", "é", "naïve – “x”", "µs ±1 °C", "straße ñ", "€ 5"]
WIDE = ["名前", "Ж ж", "✓", "\U0001F600", "āē", "a\ufeffb", "\ufeff", "a\u200bb", "a\u2028b", "a\u2029b", "a\u0085b", "a\u00adb", "e\u0301 é", "\ufffd",
        "\u202eabc", "ﬁ", "Å Å", "\U0010FFFD"]


def generate(r):
    plain = r.random() < 0.15
    d = gen.Gen(r, gen.profile(pers=(1, 2), rcs=(1, 2), fields=(0, 2), depth=1, meta=0.4, cpu=0.2)).device() \
        if r.random() < 0.75 else gen.any_device(r, p=0.3, depth=1, lists=1)
    wrong = r.random() < 0.25
    words = LATIN if wrong else LATIN + WIDE

    def texts(e):
        for carrier, _, attr, reader, _ in spec.TABLE[e["_"]]:
            if carrier in ("e", "r") and reader == "str" and attr in (
                    "description", "license_text", "vendor", "series", "group_name", "display_name", "disable_condition"):
                if e[attr] is not None:
                    e[attr] = r.choice(words) + (" " + r.choice(words) if r.random() < 0.3 else "")
            elif carrier == "one" and e[attr]:
                texts(e[attr])
            elif carrier in ("many", "wrapped"):
                for x in e[attr]:
                    texts(x)

    if not plain:
        texts(d)
    if wrong:
        d["description"] = r.choice(LATIN)
    doc = gen.write_doc(d, r)
    form = ["wrong", r.randrange(len(WRONG))] if wrong else ["good", r.randrange(len(FORMS))]
    return {"doc": doc, "form": form, "path": r.choice(PATHS), "strdecl": r.randrange(len(STRDECL)),
            "abs": r.random() < 0.5, "indent": r.randrange(2), "start": r.choice([""] * 12 + STARTS),
            "end": r.choice(["", "", "\n", "\r\n", "\n\n", " \n\t ", "<!-- é -->\n", "\n<?end of=file?>\n"])}


DECOY = (b"<?xml version='1.0' encoding='utf-8'?><device><name>DECOY</name><addressUnitBits>8</addressUnitBits><width>32</width>"
         b"<description>another file</description></device>")


def decoys(path):
    """files of other content under names this one could be mistaken for"""
    base, ext = os.path.splitext(path)
    near = {unquote(path), unquote_plus(path), quote(path), quote_plus(path, safe="/"), path.split("#")[0], path.split("?")[0], path.split(";")[0],
            path.split(":")[-1], path.lower(), path.upper(), path.strip("."), path + ".svd", path + ".xml", path + "~", path + ".bak", base,
            base + ".xml", base + ".svd", base + ".SVD", os.path.basename(path), path.replace(" ", ""), path.replace("+", " "),
            path.encode("ascii", "ignore").decode(), path.encode("ascii", "replace").decode(), "x.svd", unescape(path), html_escape(path),
            "".join(c for c in unicodedata.normalize("NFD", path) if not unicodedata.combining(c)), glob.escape(path), path.replace("[b]", "b"),
            path.replace("..", ".")}
    # names that reach out of the directory or are no names of files are left out
    return sorted(n for n in near if n and n != path and "\0" not in n and not os.path.isabs(n) and os.path.basename(n) not in ("", ".", "..")
                  and (os.path.dirname(n) == "" or os.path.isdir(os.path.dirname(n))) and not os.path.exists(n))


def text_of(case, decl):
    text = xmlast.emit(case["doc"], {"indent": case["indent"], "decl": decl is not None, "encoding": decl or ""})
    return case.get("start", "") + text.rstrip("\n") + case.get("end", "\n")


def outcome(fn, see, parser_warnings=None):
    """parser_warnings: list that gets the texts of the ParserWarnings"""
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        try:
            return "ok", see(fn())
        except ProcessException:
            return "refuse", None
        except common.REFUSED_BY_PARSER:
            return "reject", None
        finally:
            if parser_warnings is not None:
                parser_warnings.extend(str(w.message) for w in caught if issubclass(w.category, ParserWarning))


def see_map(m):
    return [[p.name, p.description, p.address, list(p.allocated_range),
             [[x.name, x.display_name, x.description, x.address, x.size] for x in p.registers]] for p in m.peripheral_map]


def check(case, ctx):
    doc = case["doc"]
    kind, nth = case["form"]
    if kind == "good":
        decl, codec, mark = FORMS[nth]
    else:
        (decl, codec), mark = WRONG[nth], b""
    text = text_of(case, decl)
    errors = "strict" if codec.startswith("utf") else "xmlcharrefreplace"
    data = mark + text.encode(codec, errors)
    if kind == "wrong":
        try:
            data.decode("utf-8" if codec != "utf-8" else "ascii")
            ctx.skip("text turned out to fit the declaration")
        except UnicodeDecodeError:
            pass
    if case.get("start"):
        return check_start(case, ctx)
    string = text_of(case, STRDECL[case["strdecl"]])
    path = case["path"]
    if os.path.dirname(path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
    beside = decoys(path)
    for other in beside:
        with open(other, "wb") as f:
            f.write(DECOY)
    with open(path, "wb") as f:
        f.write(data)
    try:
        name = os.path.abspath(path) if case["abs"] else path
        try:
            want = ("ok", spec.ref_parse(doc))
        except spec.OutOfDomain as e:
            ctx.skip(common.generic(e))
        except spec.Reject:
            want = ("reject", None)
        compare = [("Parser.from_xml_content", lambda: Parser.from_xml_content(data)),
                   ("Parser.from_svd_file", lambda: Parser.from_svd_file(name)),
                   ("Parser.from_xml_str", lambda: Parser.from_xml_str(string))]
        told = {}
        for label, fn in compare:
            got = outcome(fn, lambda p: spec.observe_parsed(p.get_parsed_device()), told.setdefault(label, []))
            same(want, got, label)
        reported("Parser", kind, want[0], told)
        ctx.tag("parsed")
        ref = common.reference(doc)
        if ref[0] == "ood":
            ctx.tag("processing not judged")
        else:
            want = (ref[0], refproc.without_src(ref[1]) if ref[0] == "ok" else None)
            told = {}
            for label, fn in (("Process.from_xml_content", lambda: Process.from_xml_content(data)),
                              ("Process.from_svd_file", lambda: Process.from_svd_file(name)),
                              ("Process.from_xml_str", lambda: Process.from_xml_str(string))):
                got = outcome(fn, lambda p: refproc.observe(p.get_processed_device()), told.setdefault(label, []))
                same(want, got, label)
            reported("Process", kind, want[0], told)
            ctx.tag("processed")
            if ref[0] == "ok":
                base = outcome(lambda: PeripheralRegisterMap.from_xml_content(xmlast.emit_bytes(doc)), see_map)
                for label, fn in (("PeripheralRegisterMap.from_xml_content", lambda: PeripheralRegisterMap.from_xml_content(data)),
                                  ("PeripheralRegisterMap.from_svd_file", lambda: PeripheralRegisterMap.from_svd_file(name)),
                                  ("PeripheralRegisterMap.from_xml_str", lambda: PeripheralRegisterMap.from_xml_str(string))):
                    same(base, outcome(fn, see_map), label)
                ctx.tag("mapped")
    finally:
        for written in [path] + beside:
            os.unlink(written)
    ctx.tag(f"{kind} {decl} {codec}")
    ctx.nontrivial(not data.isascii() or case["form"] != ["good", 0])


def check_start(case, ctx):
    """not well-formed, at least if there is a declaration: however it is read, the outcome is the same"""
    string = text_of(case, "utf-8" if case["strdecl"] % 2 else None)
    data = string.encode("utf-8")
    with open("start.svd", "wb") as f:
        f.write(data)
    seen = []
    bounded = common.reference(case["doc"])[0] != "ood"
    for cls in (Parser, Process) if bounded else (Parser,):
        for fn, arg in ((cls.from_xml_str, string), (cls.from_xml_content, data), (cls.from_svd_file, "start.svd")):
            told = []

            def run():
                try:
                    return fn(arg)
                except XMLSyntaxError as e:
                    raise common.REFUSED_BY_PARSER[0](str(e)) from e

            if cls is Parser:
                seen.append((outcome(run, lambda p: spec.observe_parsed(p.get_parsed_device()), told), len(told)))
            else:
                seen.append((outcome(run, lambda p: refproc.observe(p.get_processed_device()), told), len(told)))
        for label, (got, number) in zip(("from_xml_content", "from_svd_file"), seen[-2:]):
            same(seen[-3][0], got, f"{cls.__name__}.{label} against from_xml_str ")
            if number != seen[-3][1]:
                raise Violation(f"{cls.__name__}.{label}: {number} ParserWarnings, {seen[-3][1]} for the text")
    os.unlink("start.svd")
    ctx.tag("something in front: " + seen[0][0][0])
    ctx.nontrivial()


def reported(cls, kind, verdict, told):
    """ParserWarnings: those of the text for documents that fit their declaration, and at least one more for those that do not"""
    plain = sorted(told[f"{cls}.from_xml_str"])
    for way in ("from_xml_content", "from_svd_file"):
        got = sorted(told[f"{cls}.{way}"])
        if kind == "good" and len(got) != len(plain):
            raise Violation(f"{cls}.{way}: ParserWarnings {got}, but {plain} for the text")
        if kind == "wrong" and verdict != "reject" and len(got) <= len(plain):
            raise Violation(f"{cls}.{way}: no ParserWarning tells that the bytes do not fit their declaration: {got}")


def same(want, got, label):
    if want[0] != got[0]:
        raise Violation(f"{label}: expected {want[0]}, got {got[0]}")
    common.compare(want[1], got[1], label + " ")


def smaller(case):
    for d in common.smaller_docs(case["doc"]):
        yield dict(case, doc=d)
    if case.get("start"):
        yield dict(case, start="")
    if case.get("end"):
        yield dict(case, end="")
    if case["path"] != "a.svd":
        yield dict(case, path="a.svd")


sample = common.sample


def explain(case):
    return f"{case['form']} {case['path']} str declared {STRDECL[case['strdecl']]}\n" + xmlast.emit(case["doc"])
