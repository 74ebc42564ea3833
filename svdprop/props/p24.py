"""Processing neither changes the parsed device nor depends on anything but the document: repeated runs, fresh interpreters with
other hash seeds and locales and other documents before give the same result, the same warnings in the same order and the same file."""
import hashlib
import json
import os
import subprocess
import sys

from .. import boot, common, gen, refproc, spec, xmlast
from ..engine import Violation, HarnessError
from . import p15
from svdsuite import Process, ProcessException, Serializer, Parser

ID = "P24"
RULE = "the document is processed and contains a derivedFrom or dim element"
QUICK, THOROUGH = 3500, 90000
ASSUMPTIONS = ["two hash seeds stand for all of them, one of them with -O and an ASCII locale"]
PROFILES = [
    gen.profile(derive=0.35, dim=0.25, conts=0.3, overlap=0.2, alt=0.15, cluster=0.4, cpu=0.5, meta=0.3, evoddity=0.2),
    gen.profile(derive=0.35, pool=0.95, dim=0.1, pers=(2, 4), fieldoverlap=0.1, reserved=0.05, oddsize=0.03, swap=0.2),
]
SEEDS = ("1", "4711")
_helpers = {}

HELPER = r"""
import sys, os, json, hashlib
sys.path.insert(0, %r)
os.environ["SVD_REPO"] = %r
from svdprop.props import p24
for line in sys.stdin:
    rec = json.loads(line)
    sys.stdout.write(json.dumps(p24.summary(rec["doc"].encode("utf-8"))) + "\n")
    sys.stdout.flush()
"""


def helper(seed):
    key = (os.getpid(), seed)
    if key not in _helpers:
        env = dict(os.environ, PYTHONHASHSEED=seed, PYTHONDONTWRITEBYTECODE="1")
        options = []
        if seed == SEEDS[1]:  # another environment: no assertions, plain ASCII as the encoding of files
            options = ["-O"]
            env.update(PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", LC_ALL="C", TZ="Asia/Tokyo")
        _helpers[key] = subprocess.Popen([sys.executable] + options + ["-c", HELPER % (boot.VERIF, boot.REPO)], stdin=subprocess.PIPE,
                                         stdout=subprocess.PIPE, text=True, env=env)
    return _helpers[key]


def elsewhere(content, seed):
    h = helper(seed)
    try:
        h.stdin.write(json.dumps({"doc": content.decode("utf-8")}) + "\n")
        h.stdin.flush()
        line = h.stdout.readline()
    except BrokenPipeError:
        line = ""
    if not line:
        _helpers.pop((os.getpid(), seed), None)
        raise HarnessError("helper interpreter ended")
    return json.loads(line)


def summary(content):
    """what one run shows to the outside"""
    out = common.run_code(content)
    written = None
    if out.kind == "ok":
        svd = out.process.convert_processed_device_to_svd_device()
        if svd.peripherals:  # files depend on the locale more easily than strings
            name = f"written{os.getpid()}.svd"
            Serializer.device_to_svd_file(name, svd)
            with open(name, "rb") as f:
                written = hashlib.sha256(f.read()).hexdigest()
            back = Parser.from_svd_file(name).get_parsed_device()
            written += hashlib.sha256(Serializer.device_to_svd_str(back, pretty_print=True).encode()).hexdigest()
            os.unlink(name)
    return [out.kind, out.text, refproc.observe(out.device), [str(w.message) for w in out.warnings], written]


def size(observed):
    if isinstance(observed, dict):
        return 1 + sum(map(size, observed.values()))
    return sum(map(size, observed)) if isinstance(observed, list) else 0


def same(a, b, what):
    if a[0] != b[0] or a[1] != b[1]:
        raise Violation(f"{what}: {a[0]} {a[1]!r} / {b[0]} {b[1]!r}")
    common.compare(json.loads(json.dumps(a[2])), json.loads(json.dumps(b[2])), what + ": ")
    if a[3] != b[3]:
        raise Violation(f"{what}: other warnings: {a[3][:4]} / {b[3][:4]}")
    if a[4] != b[4]:
        raise Violation(f"{what}: the file written differs")


def generate(r):
    k = r.random()
    if k < 0.12:
        return p15.generate(r)
    if k < 0.2:
        doc = gen.write_doc(gen.any_device(r, depth=1), r)
        for n in xmlast.walk_nodes(doc):
            if n["t"] in ("dim", "bitWidth", "msb", "bitOffset", "lsb") and len(n.get("x") or "") > 1:
                n["x"] = str(r.randrange(12))  # not more copies or default values than there is memory for
        return {"doc": doc, "style": {"indent": 1}}
    return common.gen_case(r, r.choice(PROFILES), tries=2)


def deep(obj, memo=None):
    """identities of everything reachable from the parsed device, so that exchanged objects are noticed too"""
    out, seen, todo = [], set(), [obj]
    while todo:
        o = todo.pop()
        if id(o) in seen or o is None or isinstance(o, (int, str, bool)):
            continue
        seen.add(id(o))
        if isinstance(o, (list, tuple)):
            out.append((id(o), [id(x) for x in o]))
            todo.extend(o)
        elif isinstance(o, dict):
            todo.extend(o.values())
        elif hasattr(o, "__dict__") and type(o).__module__.startswith("svdsuite.model.parse"):
            out.append((id(o), sorted((k, id(v)) for k, v in vars(o).items() if not isinstance(v, (int, str)))))
            todo.extend(vars(o).values())
    return out


def check(case, ctx):
    content = xmlast.emit_bytes(case["doc"], case["style"])
    first = summary(content)
    if first[0] == "reject":
        ctx.skip("refused by the parser")
    if size(first[2]) > 40000:
        ctx.skip("too large to process it this often")
    parsed = Parser.from_xml_content(content).get_parsed_device()
    before, shape = spec.observe_parsed(parsed), deep(parsed)
    results = []
    for _ in range(2):
        try:
            p = Process(parsed, None)
            results.append(p.get_processed_device())
            svd = p.convert_processed_device_to_svd_device()
            Serializer.device_to_svd_str(svd)
        except ProcessException as e:
            results.append(str(e))
        common.compare(before, spec.observe_parsed(parsed), "parsed device after processing it: ")
        if deep(parsed) != shape:
            raise Violation("objects of the parsed device were exchanged or set while processing it")
    a, b = (refproc.observe(x) if not isinstance(x, str) else x for x in results)
    if isinstance(a, str) or isinstance(b, str):
        if a != b or first[0] != "refuse":
            raise Violation("processing the same parsed device twice: one result differs")
    else:
        common.compare(a, b, "processing the same parsed device twice: ")
        common.compare(first[2], a, "processing another parse of the same text: ")
    same(first, summary(content), "same text again")
    for seed in SEEDS:
        same(first, elsewhere(content, seed), "other interpreter")
    ctx.tag(first[0])
    n = common.attr_count(case["doc"], "derivedFrom") + len(common.nodes(case["doc"], "dim"))
    ctx.nontrivial(first[0] == "ok" and n > 0)


smaller, sample, explain = common.smaller, common.sample, common.explain
