"""What becomes of warnings is the caller's decision: ignored, recorded or turned into exceptions, the library does the rest as always."""
import re
import warnings

from .. import common, gen, refproc, spec, xmlast
from ..engine import Violation
from . import p03, p22
from svdsuite import (Parser, Process, PeripheralRegisterMap, ParserException, ParserWarning, ProcessException, ProcessWarning, Serializer,
                      Validator, SVDSchemaVersion)

ID = "P32"
RULE = "the document gives at least one warning"
QUICK, THOROUGH = 8000, 120000
MIN_NONTRIVIAL = 0.4
ASSUMPTIONS = ["the warnings shown with the filter 'always' are the ones there are (their content is the subject of P22, P03 and P02)"]
ENTRIES = ("parse", "process", "model", "map", "map file", "validate")


def generate(r):
    k = r.random()
    entry = r.randrange(len(ENTRIES))
    if k < 0.45:
        c = p22.generate(r)
    elif k < 0.85:
        c = p03.generate(r)
        entry = r.choice([0, 0, 0, ENTRIES.index("validate")])  # these state any number for dim
    else:
        c = common.gen_case(r, gen.profile(pers=(1, 2), rcs=(1, 3), derive=0.2, dim=0.15, overlap=0.2), tries=2)
    for n in common.nodes(c["doc"], "access"):
        if r.random() < 0.02:
            n["x"] = "read-sometimes"
    return {"doc": c["doc"], "style": c.get("style"), "latin": r.random() < 0.12, "entry": entry,
            "nth": r.randrange(1000), "how": r.choice(["all", "category", "message", "parser", "process", "other"])}


def content_of(case):
    if not case["latin"]:
        return xmlast.emit_bytes(case["doc"], case["style"])
    doc = xmlast.clone(case["doc"])
    for n in common.nodes(doc, "description")[:1]:
        n["x"] = "caf\xe9"
    text = xmlast.emit(doc, {"indent": 1, "decl": False})
    return text.encode("latin-1", "replace")


def run(content, entry, model=None):
    """outcome as plain data"""
    try:
        if entry == "parse":
            return "ok", spec.observe_parsed(Parser.from_xml_content(content).get_parsed_device())
        if entry == "process":
            return "ok", refproc.observe(Process.from_xml_content(content).get_processed_device())
        if entry == "model":
            return "ok", refproc.observe(Process(model, None).get_processed_device())
        if entry == "validate":
            return "ok", Validator.validate_xml_content(content, get_exception=False, schema_version=SVDSchemaVersion.V1_3_9)
        if entry == "map":
            m = PeripheralRegisterMap.from_xml_content(content)
        else:
            with open("in.svd", "wb") as f:
                f.write(content)
            m = PeripheralRegisterMap.from_svd_file("in.svd")
        return "ok", [[p.name, p.address, list(p.allocated_range), refproc.observe(p.processed)] for p in m.peripheral_map]
    except (ParserException, NotImplementedError, ProcessException) as e:
        return type(e).__name__, str(e)
    except Warning as e:  # only under a filter that says so
        return "warning", (type(e), str(e))


def under(setup, *args):
    with warnings.catch_warnings(record=True) as caught:
        warnings.resetwarnings()
        setup()
        got = run(*args)
    return got, [(w.category, str(w.message)) for w in caught]


def check(case, ctx):
    content = content_of(case)
    entry = ENTRIES[case["entry"]]
    model = None
    if entry == "model":
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                model = Parser.from_xml_content(content).get_parsed_device()
            except (ParserException, NotImplementedError):
                ctx.skip("no model")
        before = spec.observe_parsed(model)
    args = (content, entry, model)
    plain, seen = under(lambda: warnings.simplefilter("always"), *args)
    if plain[0] == "warning":
        raise Violation(f"a warning is raised although the filter says 'always': {plain[1]}")
    for category, text in seen:
        if category not in (ParserWarning, ProcessWarning):
            raise Violation(f"warning of another category: {category.__name__}: {text}")
    for name in ("ignore", "default", "once", "module"):
        if name == "ignore" or case["nth"] % 4 == ("default", "once", "module").index(name):
            got, caught = under(lambda: warnings.simplefilter(name), *args)
            same(plain, got, f"filter {name}")
            if name == "ignore" and caught:
                raise Violation(f"filter ignore lets through {caught}")
            if set(caught) - set(seen):
                raise Violation(f"filter {name}: warnings nobody has seen before")
    # some of the warnings become exceptions
    chosen = seen[case["nth"] % len(seen)] if seen else (ProcessWarning, "nothing")
    how = case["how"]

    def fatal():
        warnings.simplefilter("always")
        if how == "all":
            warnings.simplefilter("error")
        elif how in ("category", "parser", "process"):
            warnings.filterwarnings("error", category={"category": chosen[0], "parser": ParserWarning, "process": ProcessWarning}[how])
        elif how == "message":
            warnings.filterwarnings("error", message=re.escape(chosen[1]) + r"\Z", category=chosen[0])
        else:
            warnings.filterwarnings("error", category=DeprecationWarning)

    def meant(w):
        if how == "all":
            return True
        if how == "message":
            return w[0] is chosen[0] and w[1].lower() == chosen[1].lower()  # filters ignore case
        return w[0] is {"category": chosen[0], "parser": ParserWarning, "process": ProcessWarning}.get(how)

    got, caught = under(fatal, *args)
    first = next((i for i, w in enumerate(seen) if meant(w)), None)
    if first is None:
        same(plain, got, f"errors for {how}")
        if caught != seen:
            raise Violation(f"errors for {how}: other warnings: {caught[:3]} / {seen[:3]}")
    else:
        if got[0] != "warning":
            raise Violation(f"the warning {seen[first]} is to be an exception, but the outcome is {got[0]} {str(got[1])[:200]}")
        if got[1] != seen[first]:
            raise Violation(f"the first warning to become an exception is {seen[first]}, but {got[1]} comes")
        if caught != seen[:first]:
            raise Violation(f"warnings before the exception: {caught}, expected {seen[:first]}")
        ctx.tag("became an exception")
    again, caught = under(lambda: warnings.simplefilter("always"), *args)
    same(plain, again, "afterwards")
    if caught != seen:
        raise Violation(f"afterwards other warnings: {caught[:3]} / {seen[:3]}")
    if model is not None:
        common.compare(before, spec.observe_parsed(model), "model afterwards: ")
    ctx.tag(entry)
    ctx.tag(plain[0])
    ctx.nontrivial(bool(seen))


def same(a, b, what):
    if a != b:
        if a[0] == b[0] == "ok" and isinstance(a[1], dict):
            common.compare(a[1], b[1], what + ": ")
        raise Violation(f"{what}: {str(b)[:300]} instead of {str(a)[:300]}")


def smaller(case):
    yield from (dict(case, doc=d) for d in common.smaller_docs(case["doc"]))
    if case["latin"]:
        yield dict(case, latin=False)


def sample(case):
    return common.sample(case)


def explain(case):
    return f"{ENTRIES[case['entry']]}, errors for {case['how']}\n{content_of(case).decode('latin-1')}"
