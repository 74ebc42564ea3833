"""Asking for the resolver log changes nothing about the result, and the log is written: it shows the graph and names the elements."""
import base64
import gc
import gzip
import json
import os
import re
import subprocess
import sys
import warnings

from lxml import etree

from .. import boot, common, gen, refproc, xmlast
from ..engine import HarnessError, Violation
from . import p15
from svdsuite import Process, PeripheralRegisterMap, Parser, ProcessException

import rustworkx.visualization.graphviz as _drawing

# Pillow is missing here; rustworkx insists on it but uses it only when no file name is given, which the code under test always does
_drawing.HAS_PILLOW = True

ID = "P26"
RULE = "the log was written for a document with a derivedFrom or dim element"
QUICK, THOROUGH = 1700, 30000
BUDGET = 60
ASSUMPTIONS = common.ASSUME + ["Graphviz' dot is installed; rustworkx is told that Pillow is too, it does not use it for files"]
PROFILES = [
    gen.profile(pers=(1, 2), rcs=(1, 2), depth=1, cluster=0.3, fields=(0, 2), conts=0.2, derive=0.4, dim=0.2),
    gen.profile(pers=(1, 3), rcs=(1, 2), depth=1, cluster=0.3, fields=(0, 1), conts=0.2, derive=0.5, dim=0.2, baddim=0.05),
]
ODD = ['A&B', 'A<B', 'A"B', "A'B", 'A B', 'Ä', 'A>B', 'A\\B', 'A\\nB', '{A|B}', 'A;B', 'A->B', '漢', 'A\\', '"', '<b>', '</div>', 'A<!--B', '&lt;', '&amp;B', '<script>', 'A<br>B', 'SVG_PAN_ZOOM_INSTANCES', 'L' * 200, 'ThisNameIsLongerThanOthersAre_' * 3, 'N' * 48, 'BODY_CONTENT', 'COMPRESSED_DATA']


def generate(r):
    c = common.gen_case(r, r.choice(PROFILES), tries=2) if r.random() < 0.85 else p15.generate(r)
    if r.random() < 0.2:
        names = [n for n in common.nodes(c["doc"], "name") if n.get("x") and re.fullmatch(r"\w+", n["x"])]
        if names:
            old, new = r.choice(names)["x"], r.choice(ODD)
            for n in xmlast.walk_nodes(c["doc"]):
                if n["t"] == "name" and n.get("x") == old:
                    n["x"] = new
                ref = (n.get("a") or {}).get("derivedFrom")
                if ref:
                    n["a"]["derivedFrom"] = ".".join(new if p == old else p for p in ref.split("."))
    c["entry"] = r.randrange(4)
    c["exists"] = r.random() < 0.3
    c["ascii"] = r.random() < (0.1 if c["doc"] and all(ord(x) < 128 for n in xmlast.walk_nodes(c["doc"]) for x in n.get("x") or "") else 0.5)
    return c


def run(content, entry, log):
    """(kind, text, device plain, warnings, is the log there when a refusal arrives)"""
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        try:
            if entry == 0:
                dev = Process(Parser.from_xml_content(content).get_parsed_device(), log).get_processed_device()
            elif entry == 1:
                dev = Process.from_xml_content(content, resolver_logging_file_path=log).get_processed_device()
            elif entry == 2:
                dev = Process.from_xml_str(content.decode("utf-8"), log).get_processed_device()
            else:
                with open("in.svd", "wb") as f:
                    f.write(content)
                m = PeripheralRegisterMap.from_svd_file("in.svd", log)
                got = [[p.name, p.address, list(p.allocated_range), refproc.observe(p.processed)] for p in m.peripheral_map]
                return "ok", None, got, messages(caught)
            return "ok", None, refproc.observe(dev), messages(caught)
        except ProcessException as e:
            return "refuse", str(e), None, messages(caught), log is not None and os.path.exists(log)
        except common.REFUSED_BY_PARSER as e:
            return "reject", str(e), None, messages(caught)


HELPER = r"""
import sys, os, json
sys.path.insert(0, %r)
os.environ["SVD_REPO"] = %r
from svdprop.props import p26
for line in sys.stdin:
    rec = json.loads(line)
    try:
        out = p26.run(rec["doc"].encode("utf-8"), rec["entry"], rec["log"])
    except Exception as e:
        out = ["exception", type(e).__name__ + " " + str(e), None, []]
    sys.stdout.write(json.dumps(out) + "\n")
    sys.stdout.flush()
"""
_helper = {}


def run_ascii(content, entry, log):
    """the same in an interpreter whose locale is plain ASCII"""
    h = _helper.get(os.getpid())
    if h is None:
        env = dict(os.environ, PYTHONUTF8="0", PYTHONCOERCECLOCALE="0", LC_ALL="C", PYTHONDONTWRITEBYTECODE="1")
        h = _helper[os.getpid()] = subprocess.Popen([sys.executable, "-c", HELPER % (boot.VERIF, boot.REPO)], stdin=subprocess.PIPE,
                                                    stdout=subprocess.PIPE, text=True, env=env)
    try:
        h.stdin.write(json.dumps({"doc": content.decode("utf-8"), "entry": entry, "log": log}) + "\n")
        h.stdin.flush()
        line = h.stdout.readline()
    except BrokenPipeError:
        line = ""
    if not line:
        _helper.pop(os.getpid(), None)
        raise HarnessError("helper interpreter ended")
    got = json.loads(line)
    if got[0] == "exception":
        raise Violation(f"with log in an ASCII locale: {got[1]}")
    return got


def messages(caught):
    return [f"{w.category.__name__}: {w.message}" for w in caught if "svdsuite" in w.category.__module__]


def payload(path):
    with open(path, encoding="utf-8") as f:
        text = f.read()
    m = re.search(r'compressedDataBase64 = "([^"]*)"', text)
    if not m:
        raise Violation("the log carries no data")
    return gzip.decompress(base64.b64decode(m.group(1))).decode("utf-8")


def check(case, ctx):
    content = xmlast.emit_bytes(case["doc"], case["style"])
    log = os.path.abspath("log.html")
    gc.collect()  # a generator of an earlier case must not write now
    if os.path.exists(log):
        os.remove(log)
    before = set(os.listdir("."))
    plain = run(content, case["entry"], None)
    new = set(os.listdir(".")) - before - {"in.svd"}
    if new:
        raise Violation(f"files written without asking for a log: {sorted(new)}")
    if case.get("exists"):
        with open(log, "w", encoding="utf-8") as f:
            f.write("old " * 100000)
    if case.get("ascii"):
        logged = run_ascii(content, case["entry"], log)
        plain = json.loads(json.dumps(plain))
        ctx.tag("ASCII locale")
    else:
        logged = run(content, case["entry"], log)
    for what, a, b in zip(("outcome", "message", "device", "warnings"), plain, logged):
        if a != b:
            if what == "device":
                common.compare(a, b, "with log: ")
            raise Violation(f"with log another {what}: {str(a)[:200]} / {str(b)[:200]}")
    ctx.tag(plain[0])
    if plain[0] != "ok":
        if plain[0] == "refuse":
            if not logged[4]:
                raise Violation("no log of a refused document")
            if "<h1>Initialization" not in payload(log):
                raise Violation("the log of a refused document is empty")
            ctx.tag("log of a refused document")
            ctx.nontrivial()
        return
    if not os.path.exists(log):
        raise Violation("no log was written")
    with open(log, encoding="utf-8") as f:
        if "old old" in f.read():
            raise Violation("what was in the file before is still there")
    html = payload(log)
    shapes = re.findall(r"<svg\b.*?</svg>", html, re.S)
    if len(shapes) < 3:
        raise Violation(f"{len(shapes)} graphs in the log")
    labels = set()
    first = None
    for s in shapes:
        tree = etree.HTML(s)  # a browser reads it as HTML, too
        texts = ["".join(t.itertext()) for t in tree.iter("text")]
        if first is None:
            first = texts
        labels.update(texts)
    tags = ("peripheral", "register", "cluster", "field")
    named = []

    def rec(n):
        if n["t"] in tags:
            named.extend(c["x"] for c in n["c"] if c["t"] == "name" and c.get("x"))
        for c in n["c"]:
            rec(c)

    rec(case["doc"])
    def shown(x, texts):  # blanks may be shown in another way, and long labels in several lines
        return re.search(r"\s", x) or x in texts

    for name in named:
        if not shown(name, first):
            raise Violation(f"{name} is missing in the first graph of the log")
        if not re.search(r"\s", name) and first.count(name) < named.count(name):
            raise Violation(f"{name} is {first.count(name)} times in the first graph of the log, it is stated {named.count(name)} times")
    refs = [(n.get("a") or {}).get("derivedFrom") for n in xmlast.walk_nodes(case["doc"])]
    for ref in refs:
        if ref and not shown(ref, first):
            raise Violation(f"derivedFrom {ref} is missing in the first graph of the log")
    page = etree.HTML(html)
    lines = {"Elements to process": [], "Resolved placeholders": []}
    for div in page.iter("div"):
        if div.get("class") == "scrollable-div":
            said = (div.getprevious().tail if div.getprevious() is not None else div.getparent().text) or ""
            extra = [e.tag for e in div.iter() if e is not div and e.tag != "br"]
            if extra:
                raise Violation(f"{extra} in a list of the log")
            for k in lines:
                if k in said:
                    lines[k] += [div.text or ""] + [e.tail or "" for e in div]
    listed = [m.group(1) for x in lines["Elements to process"] for m in [re.fullmatch(r"\s*\d+: (.*) \(\w+\)\s*", x, re.S)] if m]
    resolved = [x.strip() for x in lines["Resolved placeholders"]]
    for what, wanted, there in (("element to process", named, listed), ("resolved placeholder", refs, resolved)):
        for x in set(wanted):
            if x and not re.search(r"\s", x) and there.count(x) < wanted.count(x):
                raise Violation(f"{x} is listed {there.count(x)} times as {what} in the log, it is stated {wanted.count(x)} times")
    ctx.tag("graphs", len(shapes))
    ctx.nontrivial(any(refs) or bool(common.nodes(case["doc"], "dim")))


def smaller(case):
    if case.get("exists"):
        yield dict(case, exists=False)
    if case.get("ascii"):
        yield dict(case, ascii=False)
    if case["entry"]:
        yield dict(case, entry=0)
    for doc in common.smaller_docs(case["doc"]):
        yield dict(case, doc=doc)


sample, explain = common.sample, common.explain
