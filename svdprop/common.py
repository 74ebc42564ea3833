"""Things several checks share: running the code and the reference on one document, comparing, shrinking documents."""
import collections
import enum
import re
import warnings

from . import boot  # noqa: F401
from . import spec, refproc, gen, xmlast
from .engine import Violation, HarnessError  # noqa: F401
from .spec import Reject, OutOfDomain
from .refproc import Refuse
from .xmlast import clone

from svdsuite import Process, Parser, ProcessException, ParserException, ProcessWarning, ParserWarning

REFUSED_BY_PARSER = (ParserException, NotImplementedError)

ASSUME = [
    "XML well-formedness and decoding are lxml's; documents are generated, not taken from vendors",
    "where the SVD rules as implemented by SVDConv leave the meaning open the reference abstains (class 'not judged')",
]


def reference(doc_or_dict):
    """('ok', device, rp) | ('reject'|'refuse', reason, None) | ('ood', reason, None)"""
    try:
        parsed = spec.ref_parse(doc_or_dict) if "t" in doc_or_dict else doc_or_dict
    except Reject as e:
        return "reject", str(e), None
    except OutOfDomain as e:
        return "ood", str(e), None
    try:
        dev, rp = refproc.ref_process(parsed)
        return "ok", dev, rp
    except Refuse as e:
        return "refuse", str(e), None
    except OutOfDomain as e:
        return "ood", str(e), None


def build_device(parsed_dict):
    return spec.build(parsed_dict)


class Outcome:
    __slots__ = ("kind", "device", "text", "warnings", "process", "parsed")

    def __init__(self):
        self.kind = self.device = self.text = self.process = self.parsed = None
        self.warnings = []


def run_code(content):
    """parse and process; kind is ok, reject (documented parser refusal) or refuse (ProcessException)"""
    out = Outcome()
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        try:
            out.parsed = Parser.from_xml_content(content).get_parsed_device()
            out.process = Process(out.parsed, None)
            out.device = out.process.get_processed_device()
            out.kind = "ok"
        except ProcessException as e:
            out.kind, out.text = "refuse", str(e)
        except REFUSED_BY_PARSER as e:
            out.kind, out.text = "reject", str(e)
    out.warnings = [w for w in caught if issubclass(w.category, (ProcessWarning, ParserWarning))]
    return out


def drop(value, keys):
    if isinstance(value, dict):
        return {k: drop(v, keys) for k, v in value.items() if k not in keys}
    if isinstance(value, list):
        return [drop(v, keys) for v in value]
    return value


def judge(case, ctx, ignore=(), src=False, want=None):
    """run both sides on case["doc"]; returns (device dict or None, reference state, outcome) after comparing"""
    kind, dev, rp = reference(case["doc"])
    if kind == "ood":
        ctx.tag("not judged: " + generic(dev))
        ctx.skip("not judged")
    out = run_code(xmlast.emit_bytes(case["doc"], case.get("style")))
    if kind == "ok":
        if out.kind != "ok":
            raise Violation(f"a document with a defined meaning is refused ({out.kind}): {out.text}")
        srcmap = refproc.sources(out.parsed) if src else None
        got = refproc.observe(out.device, srcmap)
        expected = dev if src else refproc.without_src(dev)
        if ignore:
            expected, got = drop(expected, ignore), drop(got, ignore)
        compare(expected, got)
        ctx.tag("processed")
        return dev, rp, out
    ctx.tag(f"{kind}: {generic(dev)}")
    if out.kind == "ok":
        raise Violation(f"a document that has to be refused is accepted: {dev}")
    if out.kind != kind:
        raise Violation(f"expected {kind} ({dev}), got {out.kind} ({out.text})")
    return None, dev, out


def compare(expected, got, what=""):
    diffs = spec.diff(expected, got)
    if diffs:
        raise Violation(what + "; ".join(diffs[:4]))


def generic(reason):
    return re.sub(r"(derivedFrom|literal|dimIndex|notation|missing|unknown) .*", r"\1", str(reason))[:60]


def all_of(dev, kind):
    """every element of a kind in a processed plain device"""
    out = []

    def rec(e):
        if e.get("_") == kind:
            out.append(e)
        for key in ("peripherals", "registers_clusters", "fields"):
            for c in e.get(key) or ():
                rec(c)

    rec(dev)
    return out


def derived(rp):
    """(node, base node) for every element of the document that names a base"""
    out = []

    def rec(n):
        if n.kind != "device" and n.d.get("derived_from") is not None:
            out.append((n, rp.find_base(n)[0]))
        for c in n.own:
            rec(c)

    rec(rp.root)
    return out


# ------------------------------------------------------------------------------------------------ generation
def gen_case(r, prof, tries=3, style=None, writer=None, accept=None):
    """a document of the profile; refused or unjudged ones are retried a few times so that most cases are valid"""
    for left in range(tries, 0, -1):
        d = gen.Gen(r, prof).device()
        kind, dev, rp = reference(d)
        if left == 1 or (kind == "ok" and (accept is None or accept(d, dev, rp))):
            break
    doc = gen.write_doc(d, r, **(writer or {}))
    return {"doc": doc, "style": style or {"indent": 1}}


# ------------------------------------------------------------------------------------------------ shrinking
def smaller_docs(doc):
    """candidates, biggest cuts first; every candidate is a fresh tree"""
    paths = []

    def rec(node, path):
        paths.append((path, node))
        for i, c in enumerate(node.get("c", ())):
            rec(c, path + (i,))

    rec(doc, ())

    def at(root, path):
        for i in path:
            root = root["c"][i]
        return root

    sizes = []
    for path, node in paths:
        kids = node.get("c", ())
        if len(kids) > 1:
            chunk = len(kids) // 2
            while chunk >= 1:
                for start in range(0, len(kids), chunk):
                    cut = sum(xmlast.size(c) for c in kids[start:start + chunk])
                    sizes.append((cut, path, start, chunk))
                chunk //= 2
        elif len(kids) == 1:
            sizes.append((xmlast.size(kids[0]), path, 0, 1))
    sizes.sort(key=lambda s: -s[0])
    for _, path, start, chunk in sizes:
        new = clone(doc)
        node = at(new, path)
        del node["c"][start:start + chunk]
        yield new
    for path, node in paths:
        for k in list((node.get("a") or {})):
            if node["t"] != "device":
                new = clone(doc)
                del at(new, path)["a"][k]
                yield new
    for path, node in paths:
        t = node.get("x")
        if t and not node.get("c") and len(t) > 1:
            for simple in simpler_text(t):
                new = clone(doc)
                at(new, path)["x"] = simple
                yield new


def simpler_text(t):
    s = t.strip()
    if s != t:
        yield s
    if s.isdigit() and int(s) > 8:
        yield "1"
    if s.lower().startswith("0x") and s not in ("0x0", "0x4"):
        yield "0x0"
        yield "0x4"
    if len(s) > 12 and not s.startswith("0"):
        yield s[:4]


def smaller(case):
    if case.get("style") not in (None, {"indent": 1}):
        yield dict(case, style={"indent": 1})
    for doc in smaller_docs(case["doc"]):
        yield dict(case, doc=doc)


def smaller_key(*keys):
    """shrinker for cases holding several documents"""
    def gen_smaller(case):
        for key in keys:
            val = case[key]
            if isinstance(val, list):
                for i in range(len(val)):
                    if len(val) > 1:
                        yield dict(case, **{key: val[:i] + val[i + 1:]})
                for i in range(len(val)):
                    for doc in smaller_docs(val[i]):
                        yield dict(case, **{key: val[:i] + [doc] + val[i + 1:]})
            else:
                for doc in smaller_docs(val):
                    yield dict(case, **{key: doc})
    return gen_smaller


def sample(case):
    return xmlast.emit(case["doc"], {"indent": 0, "decl": False})[:600]


def explain(case):
    return xmlast.emit(case["doc"], case.get("style"))


def count(d, pred):
    """number of plain dicts below d for which pred holds"""
    n = 0
    stack = [d]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            if pred(x):
                n += 1
            stack.extend(x.values())
        elif isinstance(x, list):
            stack.extend(x)
    return n


def nodes(doc, tag):
    return [n for n in xmlast.walk_nodes(doc) if n["t"] == tag]


def attr_count(doc, attr, tags=None):
    return sum(1 for n in xmlast.walk_nodes(doc) if (n.get("a") or {}).get(attr) is not None and (tags is None or n["t"] in tags))


counter = collections.Counter


def separate(device):
    """every element below a processed device is an object of its own"""
    seen = set()

    def rec(elements, path):
        for i, e in enumerate(elements):
            here = f"{path}.{getattr(e, 'name', i)}"
            if id(e) in seen:
                raise Violation(f"{here} is the same object as another element")
            seen.add(id(e))
            for attr in ("registers_clusters", "fields", "enumerated_value_containers", "enumerated_values"):
                if isinstance(getattr(e, attr, None), list):
                    rec(getattr(e, attr), here)

    rec(device.peripherals, "device")


def disjoint(one, other, what):
    """two object trees have no list, dict or element in common"""
    def collect(root):
        found, todo = {}, [(root, "device")]
        while todo:
            o, path = todo.pop()
            if isinstance(o, (list, dict)) or (hasattr(o, "__dict__") and not isinstance(o, (type, enum.Enum))):
                if id(o) in found:
                    continue
                found[id(o)] = path, o
                inner = enumerate(o) if isinstance(o, list) else o.items() if isinstance(o, dict) else vars(o).items()
                todo.extend((x, f"{path}.{k}") for k, x in inner)
        return found

    first, second = collect(one), collect(other)
    for i in first:
        if i in second:
            raise Violation(f"{what}: {second[i][0]} of the one is {first[i][0]} of the other")
