"""Models are plain values: they can be compared, copied, pickled and printed, and copies are as good as the original and independent of it."""
import copy
import dataclasses
import pickle
import random
import warnings

from .. import common, gen, refproc, spec, xmlast
from ..engine import Violation
from svdsuite import Parser, Process, PeripheralRegisterMap, ProcessException, Serializer

ID = "P33"
RULE = "the document gives a model of at least ten elements"
QUICK, THOROUGH = 2400, 50000
ASSUMPTIONS = common.ASSUME
PROFILES = [
    gen.profile(pers=(1, 3), rcs=(1, 3), depth=2, cluster=0.3, fields=(0, 2), conts=0.4, cpu=0.4, dim=0.2, derive=dv, meta=0.3, prop=0.3,
                wc=0.2, interrupts=0.3, alt=0.05)
    for dv in (0.0, 0.3)
]


def generate(r):
    if r.random() < 0.2:
        doc = gen.write_doc(gen.any_device(r, p=0.4, depth=1, lists=2), r)
        return {"doc": doc, "process": False, "pick": r.randrange(1 << 30)}
    c = common.gen_case(r, r.choice(PROFILES), tries=3)
    return {"doc": c["doc"], "process": True, "pick": r.randrange(1 << 30)}


def objects(root):
    """every model object and list reachable from root: id -> object"""
    out, todo = {}, [root]
    while todo:
        o = todo.pop()
        if id(o) in out:
            continue
        if dataclasses.is_dataclass(o) and not isinstance(o, type):
            out[id(o)] = o
            todo += list(vars(o).values())
        elif isinstance(o, (list, dict, set)):
            out[id(o)] = o
            todo += list(o.values() if isinstance(o, dict) else o)
        elif isinstance(o, tuple):
            todo += list(o)
    return out


def shape(root):
    """how the objects hang together: paths in order of discovery, shared ones by number"""
    number, lines = {}, []

    def rec(o, depth):
        if dataclasses.is_dataclass(o):
            if id(o) in number:
                return f"#{number[id(o)]}"
            number[id(o)] = len(number)
            lines.append((type(o).__name__, tuple((k, rec(v, depth + 1)) for k, v in sorted(vars(o).items()))))
            return f"new {type(o).__name__}"
        if isinstance(o, (list, tuple)):
            return type(o).__name__, tuple(rec(x, depth + 1) for x in o)
        return repr(o)

    rec(root, 0)
    return lines


def parents(model):
    """every child refers to the very object that holds it"""
    for path, obj, parent in spec_children(model):
        if obj.parent is not parent:
            raise Violation(f"{path}: parent is not the object that holds it")


def spec_children(model):
    out = []

    def rec(o, path):
        for f in dataclasses.fields(o):
            if f.name == "parent":
                continue
            v = getattr(o, f.name)
            for i, c in enumerate(v if isinstance(v, list) else [v]):
                if dataclasses.is_dataclass(c):
                    out.append((f"{path}.{f.name}[{i}]", c, o))
                    rec(c, f"{path}.{f.name}[{i}]")

    rec(model, "device")
    return out


def copies(root):
    yield "deepcopy", copy.deepcopy(root)
    for protocol in (2, pickle.HIGHEST_PROTOCOL):
        yield f"pickle {protocol}", pickle.loads(pickle.dumps(root, protocol))


def examine(root, observe, what, r):
    seen = observe(root)
    structure = shape(root)
    mine = objects(root)
    if not root == root or root != root:
        raise Violation(f"{what} does not equal itself")
    for how, other in copies(root):
        if type(other) is not type(root):
            raise Violation(f"{how} of {what} is a {type(other).__name__}")
        common.compare(seen, observe(other), f"{how} of {what}: ")
        if shape(other) != structure:
            raise Violation(f"{how} of {what} hangs together in another way")
        if not root == other or root != other or not other == root:
            raise Violation(f"{how} of {what} does not equal the original")
        shared = [o for k, o in objects(other).items() if k in mine]
        if shared:
            raise Violation(f"{how} of {what} shares a {type(shared[0]).__name__} with the original")
        # a change to the copy makes it different and leaves the original
        path = change(other, r)
        if path:
            if root == other or not root != other:
                raise Violation(f"{what} equals a copy with another {path}")
            common.compare(seen, observe(root), f"{what} after changing {path} of its {how}: ")
    text, again = repr(root), repr(root)
    if text != again or type(text) is not str:
        raise Violation(f"repr of {what} changes")
    for o in list(mine.values())[:400]:
        if dataclasses.is_dataclass(o):
            if not (repr(o).startswith(type(o).__name__ + "(") and repr(o).endswith(")")):
                raise Violation(f"repr of a {type(o).__name__} is {repr(o)[:60]}...")
            str(o)
            if getattr(o, "name", None) is not None and str(o.name) not in repr(o) and repr(o.name) not in repr(o):
                raise Violation(f"repr of a {type(o).__name__} does not show its name {o.name!r}")
    common.compare(seen, observe(root), f"{what} after printing: ")
    if shape(root) != structure:
        raise Violation(f"{what} has changed")


def change(root, r):
    """another value for some int, bool or str of the model; returns what was changed"""
    places = []

    def rec(o, path, seen):
        if id(o) in seen:
            return
        seen.add(id(o))
        for f in dataclasses.fields(o):
            if f.name in ("parent", "parsed"):
                continue
            v = getattr(o, f.name)
            if isinstance(v, (int, str)) and not dataclasses.is_dataclass(v):
                places.append((o, f.name, path))
            for i, c in enumerate(v if isinstance(v, list) else [v]):
                if dataclasses.is_dataclass(c):
                    rec(c, f"{path}.{f.name}[{i}]", seen)

    rec(root, type(root).__name__, set())
    if not places:
        return None
    o, name, path = r.choice(places)
    v = getattr(o, name)
    setattr(o, name, not v if isinstance(v, bool) else v + 1 if isinstance(v, int) else v + "'")
    return f"{path}.{name}"


def check(case, ctx):
    r = random.Random(case["pick"])
    content = xmlast.emit_bytes(case["doc"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            model = Parser.from_xml_content(content).get_parsed_device()
            twin = Parser.from_xml_content(content).get_parsed_device()
        except common.REFUSED_BY_PARSER:
            ctx.skip("not to be parsed")
        if model != twin or not model == twin:
            raise Violation("the same document parsed twice gives models that do not compare equal")
        parents(model)
        examine(model, spec.observe_parsed, "the parsed model", r)
        for _, other in copies(model):
            parents(other)
        count = len(spec_children(model))
        ctx.tag("parsed")
        if case["process"]:
            try:
                p = Process(model, None)
            except ProcessException:
                ctx.tag("refused")
                try:
                    Process(copy.deepcopy(twin), None)
                except ProcessException:
                    pass
                else:
                    raise Violation("a copy of a model that is refused is accepted") from None
            else:
                dev = p.get_processed_device()
                want = refproc.observe(dev)
                examine(dev, refproc.observe, "the processed device", r)
                if dev != Process(twin, None).get_processed_device():
                    raise Violation("equal models give devices that do not compare equal")
                for how, other in copies(model):
                    q = Process(other, None)
                    common.compare(want, refproc.observe(q.get_processed_device()), f"{how} of the model processed: ")
                    if Serializer.device_to_svd_content(other) != Serializer.device_to_svd_content(model):
                        raise Violation(f"{how} of the model is written in another way")
                if case["pick"] % 4 == 0:
                    m = PeripheralRegisterMap.from_xml_content(content)
                    for x in m.peripheral_map[:2]:
                        y = pickle.loads(pickle.dumps(x))
                        if x != y or x != copy.deepcopy(x):
                            raise Violation("an entry of the register map does not equal its copy")
                        repr(x)
                ctx.tag("processed")
    ctx.nontrivial(count >= 10)


def smaller(case):
    yield from (dict(case, doc=d) for d in common.smaller_docs(case["doc"]))


def sample(case):
    return common.sample(case)


def explain(case):
    return common.explain(case)
