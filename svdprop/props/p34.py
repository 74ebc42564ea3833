"""Effort stays bounded: no shape of document makes reading, processing or writing explode."""
import math
import sys
import warnings
from random import Random

from .. import boot  # noqa: F401
from ..engine import Violation
from svdsuite import Parser, Process, PeripheralRegisterMap, ProcessException, Serializer

ID = "P34"
RULE = "the document was processed at three sizes and has derivations, repetitions, alternates, overlaps or one text that grows"
QUICK, THOROUGH = 900, 20000
BUDGET = 60
ASSUMPTIONS = ["effort is the number of calls, jumps and branches Python takes (sys.monitoring), not time; what C libraries do inside one call is not seen",
               "a literal with many don't-care bits asks for exponentially many values, each of which is listed or reported; it is left out",
               "growth up to the power 5 of the size (processing; nested lists of derived elements that end in a refusal reach 4) and 1.6 (everything else) counts as bounded"]
LIMITS = {"parse": 1.6, "process": 5.0, "convert": 1.6, "write": 1.6, "map": 1.6}
KINDS = ["peripheral", "cluster", "register", "field", "enumeratedValues"]
STEP = {"peripheral": 0x10000, "cluster": 0x400, "register": 4}
TOOL = 4


UNITS = ["a", "0", "1", "Z", "a,", "1,", "a, ", "1-", "A-", "[", "[1:", "x", "%s", "[%s]", "a.", ".", " ", "_", "1 ", "f", "k", "&amp;", "é"]
PLACES = {  # one text of a document; {} is where it goes
    "dimIndex": "<dim>2</dim><dimIncrement>4</dimIncrement><dimIndex>{}</dimIndex><name>R%s</name><addressOffset>0</addressOffset>",
    "dimName": "<dim>2</dim><dimIncrement>4</dimIncrement><name>R{}%s</name><displayName>D{}%s</displayName><addressOffset>0</addressOffset>",
    "dim": "<dim>{}</dim><dimIncrement>4</dimIncrement><name>R</name><addressOffset>0</addressOffset>",
    "name": "<name>{}</name><description>{}</description><addressOffset>0</addressOffset>",
    "number": "<name>R</name><addressOffset>{}</addressOffset>",
    "access": "<name>R</name><addressOffset>0</addressOffset><access>{}</access>",
    "bitRange": "<name>R</name><addressOffset>0</addressOffset><fields><field><name>F</name><bitRange>{}</bitRange></field></fields>",
    "literal": "<name>R</name><addressOffset>0</addressOffset><fields><field><name>F</name><bitRange>[7:0]</bitRange><enumeratedValues>"
               "<enumeratedValue><name>a</name><value>{}</value></enumeratedValue></enumeratedValues></field></fields>",
    "path": "<name>A</name><addressOffset>0</addressOffset></register><register derivedFrom='{}'><name>R</name><addressOffset>4</addressOffset>",
}


def level(r, kind, inner=True):
    lv = {"kind": kind, "link": r.choice(["none", "none", "prev", "prev", "first", "half", "next", "random"]), "order": r.choice(["up", "up", "down", "mixed"]),
          "alt": r.choice(["none"] * 4 + ["prev", "first", "ring"]), "same": r.random() < 0.3, "dim": r.choice([0, 0, 0, 2, 3]),
          "own": r.random() < 0.4, "far": r.random() < 0.3, "inner": None}
    deeper = KINDS[KINDS.index(kind) + 1:]
    if inner and deeper and kind != "field" and r.random() < 0.4:
        k = r.choice([k for k in deeper if k in {"peripheral": ("cluster", "register"), "cluster": ("register",), "register": ("field",)}[kind]])
        lv["inner"] = level(r, k, False)
    return lv


def generate(r):
    if r.random() < 0.08:
        return {"shape": "nested", "kind": r.choice(["plain", "derived", "dim"]), "n": r.choice([8, 12]), "seed": 0}
    if r.random() < 0.08:
        return {"shape": "values", "wild": r.random() < 0.5, "default": r.random() < 0.5, "n": 8, "seed": 0}
    if r.random() < 0.06:
        place = r.choice(sorted(PLACES))
        return {"shape": "text", "place": place, "unit": r.choice([u for u in UNITS if (place, u) != ("literal", "x")]), "head": r.choice(["", "", "0x", "#", "0b", "[", "a", "1", "A-"]),
                "tail": r.choice(["", "", "!", "b", "1", "]", ":1]", " ", "-", ",", ".", "x"]), "n": r.choice([24, 40]), "seed": 0}
    lv = level(r, r.choice(KINDS))
    return {"shape": "level", "level": lv, "n": (r.choice([4, 5]) if lv["inner"] else r.choice([8, 10, 12])), "seed": r.randrange(1 << 30)}


def el(tag, *children, **attrs):
    a = "".join(f' {k}="{v}"' for k, v in attrs.items() if v)
    return f"<{tag}{a}>" + "".join(children) + f"</{tag}>"


def names(lv, n):
    return {"peripheral": "P", "cluster": "C", "register": "R", "field": "F", "enumeratedValues": "E"}[lv["kind"]]


def elements(lv, n, seed, path, where):
    """n elements of one level and what is inside them"""
    r = Random(seed)
    kind = lv["kind"]
    stem = names(lv, n)
    out = []
    dim = lv["dim"] if kind not in ("enumeratedValues",) else 0
    mark = "[%s]" if kind in ("peripheral",) else "%s" if kind == "field" else "%s"
    name = lambda i: f"{stem}{i}x" + (mark if dim else "")
    refname = lambda i: f"{stem}{i}x" + ("0" if dim and kind != "field" else mark if dim else "")
    for i in range(n):
        target = {"none": None, "prev": i - 1 if i else None, "first": 0 if i else None, "half": i // 2 if i else None,
                  "next": i + 1 if i + 1 < n else None, "random": r.randrange(i) if i else None}[lv["link"]]
        ref = None if target is None else ".".join(path + [refname(target)]) if lv["far"] or kind == "enumeratedValues" else refname(target)
        alt = {"none": None, "prev": i - 1 if i else None, "first": 0 if i else None, "ring": (i + 1) % n}[lv["alt"]]
        body = [el("dim", str(dim)), el("dimIncrement", hex(max(1, STEP.get(kind, 1) // 4)))] if dim else []
        body.append(el("name", name(i)))
        at = 0 if lv["same"] else i
        inner = ""
        if target is None or lv["own"]:
            if lv["inner"]:
                inner = elements(lv["inner"], n, seed + 1 if target is None else seed + i + 2, path + [refname(i)], i)
            elif kind in ("peripheral", "cluster"):
                inner = el("register", el("name", f"Own{i}"), el("addressOffset", hex(4 * i)))
        if kind == "peripheral":
            if alt is not None:
                body.append(el("alternatePeripheral", refname(alt)))
            body += [el("baseAddress", hex(0x40000000 + STEP[kind] * at)),
                     el("addressBlock", el("offset", "0"), el("size", "0x400"), el("usage", "registers"))]
            if inner:
                body.append(el("registers", inner))
        elif kind == "cluster":
            if alt is not None:
                body.append(el("alternateCluster", refname(alt)))
            body += [el("addressOffset", hex(STEP[kind] * at)), inner]
        elif kind == "register":
            if alt is not None:
                body.append(el("alternateRegister", refname(alt)))
            body.append(el("addressOffset", hex(STEP[kind] * at)))
            if target is None:
                body.append(el("size", "128"))
            if inner:
                body.append(el("fields", inner))
        elif kind == "field":
            body += [el("bitOffset", str(at * (dim or 1))), el("bitWidth", "1")]
        else:
            body.append(el("enumeratedValue", el("name", "v"), el("value", "1")) if target is None else "")
        out.append(el(kind, *body, derivedFrom=ref))
    if lv["order"] == "down":
        out.reverse()
    elif lv["order"] == "mixed":
        r.shuffle(out)
    if kind == "enumeratedValues":  # each in a field of its own
        return "".join(el("register", el("name", f"R{i}"), el("addressOffset", hex(4 * i)),
                          el("fields", el("field", el("name", "F"), el("bitOffset", "0"), el("bitWidth", "4"), x))) for i, x in enumerate(out))
    return "".join(out)


def per(*registers):
    return el("peripheral", el("name", "P"), el("baseAddress", "0x40000000"),
              el("addressBlock", el("offset", "0"), el("size", "0x1000"), el("usage", "registers")), el("registers", *registers))


def document(case, n):
    if case["shape"] == "nested":
        x = el("register", el("name", "R"), el("addressOffset", "0"), el("fields", el("field", el("name", "F"), el("bitOffset", "0"), el("bitWidth", "1"))))
        for i in range(n):
            more = el("register", el("name", f"T{i}"), el("addressOffset", "0x100"), derivedFrom=f"S{i}") if case["kind"] == "derived" else ""
            own = el("register", el("name", f"S{i}"), el("addressOffset", "0x80"))
            dims = el("dim", "1") + el("dimIncrement", "0x200") if case["kind"] == "dim" else ""
            x = el("cluster", dims, el("name", f"C{i}" + ("[%s]" if dims else "")), el("addressOffset", "0"), x, own, more)
        body = per(x)
    elif case["shape"] == "text":
        body = per(el("register", PLACES[case["place"]].replace("{}", case["head"] + case["unit"] * n + case["tail"])))
    elif case["shape"] == "values":
        values = [el("enumeratedValue", el("name", f"v{i}"), el("value", f"#1{i:08b}x" if case["wild"] else str(i))) for i in range(n)]
        if case["default"]:
            values.append(el("enumeratedValue", el("name", "other"), el("isDefault", "true")))
        body = per(el("register", el("name", "R"), el("addressOffset", "0"), el("fields", el("field", el("name", "F"), el("bitOffset", "0"),
                      el("bitWidth", "10"), el("enumeratedValues", *values)))))
    else:
        lv = case["level"]
        body = {"peripheral": lambda: elements(lv, n, case["seed"], [], 0), "cluster": lambda: per(elements(lv, n, case["seed"], ["P"], 0)),
                "register": lambda: per(elements(lv, n, case["seed"], ["P"], 0)),
                "field": lambda: per(el("register", el("name", "R"), el("size", "128"), el("addressOffset", "0"), el("fields", elements(lv, n, case["seed"], ["P", "R"], 0)))),
                "enumeratedValues": lambda: per(elements(lv, n, case["seed"], ["P"], 0))}[lv["kind"]]()
    return ('<?xml version="1.0"?>' + el("device", el("name", "D"), el("version", "1"), el("description", "d"), el("addressUnitBits", "8"),
                                         el("width", "32"), el("peripherals", body), schemaVersion="1.3"))


class Counter:
    """Python events while it is active"""

    def __enter__(self):
        self.n = 0
        e = sys.monitoring.events
        sys.monitoring.use_tool_id(TOOL, "effort")
        for ev in (e.PY_START, e.CALL, e.JUMP, e.BRANCH):
            sys.monitoring.register_callback(TOOL, ev, self.tick)
        sys.monitoring.set_events(TOOL, e.PY_START | e.CALL | e.JUMP | e.BRANCH)
        return self

    def tick(self, *_):
        self.n += 1

    def __exit__(self, *_):
        sys.monitoring.set_events(TOOL, 0)
        sys.monitoring.free_tool_id(TOOL)


def measure(text, long=False):
    """(outcome, size of document and result, effort of each stage)"""
    effort, state = {}, {}
    data = text.encode("utf-8")
    size = len(data) if long else data.count(b"</")

    def stage(name, fn):
        with Counter() as c:
            try:
                state[name] = fn()
            finally:
                effort[name] = c.n

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            stage("parse", lambda: Parser.from_xml_content(data).get_parsed_device())
            stage("process", lambda: Process(state["parse"], None))
        except (ProcessException, NotImplementedError) as e:
            return "refused: " + type(e.__cause__).__name__, size, effort
        dev = state["process"].get_processed_device()
        stage("convert", lambda: state["process"].convert_processed_device_to_svd_device())
        stage("write", lambda: Serializer.device_to_svd_content(state["convert"]))
        stage("map", lambda: PeripheralRegisterMap(dev))
    return "ok", size + len(state["write"]) // 4 if long else size + state["write"].count(b"</") // 4, effort


def check(case, ctx):
    n = case["n"]
    rows = [measure(document(case, k * n), case["shape"] == "text") for k in (1, 2, 4)]
    kinds = {x[0] for x in rows}
    ctx.tag(case["shape"] + (" " + case["level"]["kind"] if case["shape"] == "level" else ""))
    if len(kinds) > 1:
        ctx.skip("accepted at one size, refused at another")
    ctx.tag(rows[0][0])
    (_, s1, e1), (_, s2, e2) = rows[1:]
    for stage, limit in LIMITS.items():
        if stage in e1 and e1[stage] > 200:
            times, larger = math.log(e2[stage] / e1[stage]), math.log(s2 / s1)
            if larger > 0.4:
                ctx.tag(f"{stage} exponent {times / larger:.0f}")
            if times > limit * larger + 0.3:
                raise Violation(f"{stage}: effort {[x[2][stage] for x in rows]} at the sizes {[x[1] for x in rows]}")
    lv = case.get("level")
    ctx.nontrivial(case["shape"] == "text" or rows[0][0] == "ok" and (lv is None or lv["link"] != "none" or lv["dim"] or lv["same"] or lv["alt"] != "none"))


def smaller(case):
    lv = case.get("level")
    if lv:
        if lv["inner"]:
            yield dict(case, level=dict(lv, inner=None))
            for k, v in (("alt", "none"), ("same", False), ("dim", 0), ("link", "none"), ("own", False), ("far", False), ("order", "up")):
                if lv["inner"][k] != v:
                    yield dict(case, level=dict(lv, inner=dict(lv["inner"], **{k: v})))
        for k, v in (("alt", "none"), ("same", False), ("dim", 0), ("link", "none"), ("own", False), ("far", False), ("order", "up")):
            if lv[k] != v:
                yield dict(case, level=dict(lv, **{k: v}))
    if case["n"] > 4:
        yield dict(case, n=case["n"] - 2)


def sample(case):
    return str(case)


def explain(case):
    return f"{case}\n" + document(case, case["n"])[:3000]
