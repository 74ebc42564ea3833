"""Documents do not influence each other: read, processed and written in any interleaving, in one thread or several, each gives
what it gives alone."""
import itertools
import os
import sys
import threading
import warnings

from lxml import etree

from .. import boot, common, gen, refproc, spec, xmlast
from ..engine import Violation
from . import p27
from svdsuite import Parser, Process, PeripheralRegisterMap, ProcessException, Serializer

ID = "P29"
RULE = "at least two documents with a defined meaning took turns"
QUICK, THOROUGH = 3500, 60000
ASSUMPTIONS = common.ASSUME + ["threads are switched every few microseconds, not at chosen points"]
PROFILES = [
    gen.profile(pers=(1, 2), rcs=(1, 3), depth=1, fields=(0, 2), derive=0.3, dim=0.25, conts=0.3, cpu=0.3, meta=0.2, wc=0.2),
    gen.profile(pers=(1, 2), rcs=(1, 2), depth=1, fields=(0, 2), derive=0.4, pool=0.95, dim=0.1, alt=0.1, overlap=0.1, baddim=0.02),
]
STEPS = ("parse", "process", "again", "map", "convert", "write", "store", "load")
count = itertools.count()


def generate(r):
    docs = [common.gen_case(r, r.choice(PROFILES), tries=2)["doc"] for _ in range(r.choice([2, 2, 3]))]
    if r.random() < 0.3:  # the same document with other numbers: the most that can be mixed up
        twin = xmlast.clone(docs[0])
        for n in xmlast.walk_nodes(twin):
            if n["t"] in ("resetValue", "description", "access", "baseAddress") and r.random() < 0.5:
                n["x"] = {"resetValue": "0x3", "description": "twin", "access": "read-only", "baseAddress": "0x50000000"}[n["t"]]
        docs[1] = twin
    codings = [None] * len(docs)
    if r.random() < 0.15:  # bytes that do not fit the declaration: how one is read must not depend on the others
        for i, doc in enumerate(docs):
            if r.random() < 0.8:
                for n in doc["c"]:
                    if n["t"] == "description":
                        n["x"] = r.choice(["é", "µs ±1 °C", "Größe"])
                        codings[i] = r.choice([["utf-8", "cp1252"], ["ascii", "utf-8"], ["ascii", "cp1252"], ["utf-16", "utf-8"]])
    order = [i for i in range(len(docs)) for _ in STEPS]
    r.shuffle(order)
    mode = r.choice(["turns", "turns", "threads"])
    breaks = []
    if mode == "turns" and r.random() < 0.4:  # steps that are interrupted first: which turn, after how many calls
        for _ in range(r.choice([1, 2, 3])):
            breaks.append([r.randrange(len(order)), int(2 ** (r.random() * 12))])
    crowd, times = [], 0
    if r.random() < 0.25:  # damaged versions of the documents before or among them, over and over
        for _ in range(r.choice([1, 1, 2])):
            doc = xmlast.clone(r.choice(docs))
            if r.random() < 0.5:
                drop_mandatory(r, doc)
            else:
                p27.mutate(r, doc)
            p27.tame(doc)
            crowd.append(doc)
        times = r.choice([1, 5, 40])
    return {"docs": docs, "codings": codings, "order": order, "mode": mode, "breaks": breaks, "crowd": crowd, "times": times,
            "crowd_at": r.choice([0, r.randrange(len(order))])}


def drop_mandatory(r, doc):
    """without one of the elements that have to be there, or with nonsense in it: the parser gives up deep inside"""
    spots = [(n, c) for n in xmlast.walk_nodes(doc) for c in n["c"]
             if c["t"] in ("name", "addressOffset", "baseAddress", "value", "bitOffset", "usage", "size", "access", "resetValue", "dim", "isDefault", "bitWidth")]
    if spots:
        deep = r.choice(sorted({n["t"] for n, _ in spots}))
        n, c = r.choice([x for x in spots if x[0]["t"] == deep])
        if r.random() < 0.5:
            n["c"] = [x for x in n["c"] if x is not c]
        else:
            c["x"] = "nonsense"


def encoded(doc, coding):
    if not coding:
        return xmlast.emit_bytes(doc)
    return xmlast.emit(doc, {"decl": True, "encoding": coding[0]}).encode(coding[1], "xmlcharrefreplace")


def crowd(case):
    contents = [xmlast.emit_bytes(d) for d in case.get("crowd") or ()]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for _ in range(case.get("times") or 0):
            for c in contents:
                try:
                    Process.from_xml_content(c)
                except (ProcessException, etree.XMLSyntaxError) + common.REFUSED_BY_PARSER:
                    pass


class Job:
    """one document on its way through the library, a step at a time"""

    def __init__(self, content, path=None):
        self.content = content
        self.path = path or f"doc{next(count)}.svd"
        self.at = 0
        self.seen = {}
        self.failed = None

    def step(self):
        if self.failed or self.at >= len(STEPS):
            return
        what = STEPS[self.at]
        self.at += 1
        try:
            getattr(self, what)()
        except (ProcessException,) + common.REFUSED_BY_PARSER as e:
            self.failed = type(e).__name__

    def interrupted(self, calls):
        """the next step, broken off after so many calls of functions"""
        if self.failed or self.at >= len(STEPS):
            return False
        left = [calls]

        def hook(frame, event, arg):
            if event in ("call", "c_call") and frame.f_code.co_filename.startswith(boot.SRC) and frame.f_code.co_name != "__del__":
                left[0] -= 1
                if left[0] == 0:
                    raise KeyboardInterrupt
        kept = dict(self.__dict__)
        old = sys.getprofile()
        sys.setprofile(hook)
        try:
            getattr(self, STEPS[self.at])()
        except KeyboardInterrupt:
            return True
        except (ProcessException,) + common.REFUSED_BY_PARSER:
            if left[0] <= 0:
                raise Violation(f"an interruption of {STEPS[self.at]} is turned into a refusal") from None
        finally:
            sys.setprofile(old)
            self.__dict__.clear()
            self.__dict__.update(kept)
        if left[0] <= 0:
            raise Violation(f"an interruption of {STEPS[self.at]} is swallowed")
        return False

    def parse(self):
        self.parsed = Parser.from_xml_content(self.content).get_parsed_device()

    def process(self):
        self.proc = Process(self.parsed, None)

    def again(self):
        self.second = Process.from_xml_content(self.content)

    def map(self):
        self.listing = PeripheralRegisterMap(self.proc.get_processed_device())

    def convert(self):
        self.svd = self.proc.convert_processed_device_to_svd_device()

    def write(self):
        self.text = Serializer.device_to_svd_str(self.svd)

    def store(self):
        """jobs taking turns share one path: what is read is what was written last"""
        with open(self.path, "wb") as f:
            f.write(self.content)
        self.loaded = Parser.from_svd_file(self.path).get_parsed_device()

    def load(self):
        with open(self.path, "wb") as f:
            f.write(self.content)
        self.third = Process.from_svd_file(self.path)

    def result(self):
        if self.failed:
            return {"failed": self.failed}
        return {"parsed": spec.observe_parsed(self.parsed), "device": refproc.observe(self.proc.get_processed_device()),
                "second": refproc.observe(self.second.get_processed_device()), "text": self.text,
                "loaded": spec.observe_parsed(self.loaded), "third": refproc.observe(self.third.get_processed_device()),
                "map": [[p.name, p.address, list(p.allocated_range), [[x.name, x.address, x.size] for x in p.registers]]
                        for p in self.listing.peripheral_map]}


def check(case, ctx):
    contents = [encoded(d, c) for d, c in zip(case["docs"], case.get("codings") or [None] * len(case["docs"]))]
    shared = f"shared{next(count)}.svd" if case["mode"] == "turns" else None
    jobs = [Job(c, shared) for c in contents]
    if case["mode"] == "turns":
        for turn, i in enumerate(case["order"]):
            if turn == case.get("crowd_at"):
                crowd(case)
            if i < len(jobs):
                for at, calls in case.get("breaks") or ():
                    if at == turn and jobs[i].interrupted(calls):
                        ctx.tag("interrupted at " + STEPS[jobs[i].at])
                jobs[i].step()
        for j in jobs:
            for _ in STEPS:
                j.step()
    else:
        errors = []
        crowd(case)

        def work(job):
            try:
                for _ in STEPS:
                    job.step()
            except Exception as e:  # pylint: disable=broad-except
                errors.append(e)

        old = sys.getswitchinterval()
        sys.setswitchinterval(5e-6)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                threads = [threading.Thread(target=work, args=(j,)) for j in jobs]
                for t in threads:
                    t.start()
                for t in threads:
                    t.join()
        finally:
            sys.setswitchinterval(old)
        if errors:
            raise errors[0]
    good = 0
    for n, (j, doc) in enumerate(zip(jobs, case["docs"])):
        got = j.result()
        alone = Job(contents[n])
        for _ in STEPS:
            alone.step()
        want = alone.result()
        for path in {j.path, alone.path}:
            if n == len(jobs) - 1 or path != shared:
                if os.path.exists(path):
                    os.unlink(path)
        common.compare(want, got, f"document {n} among others: ")
        kind, dev, _ = common.reference(doc)
        if kind == "ok":
            if "failed" in got:
                raise Violation(f"document {n} is refused among others: {got['failed']}")
            common.compare(refproc.without_src(dev), got["device"], f"document {n} among others: ")
            good += 1
        elif kind in ("refuse", "reject") and "failed" not in got:
            raise Violation(f"document {n} is accepted among others")
    ctx.tag(case["mode"])
    if any(case.get("codings") or ()):
        ctx.tag("bytes that do not fit their declaration")
    if case.get("crowd"):
        ctx.tag("among a crowd of damaged documents")
    ctx.nontrivial(good >= 2)


def smaller(case):
    for i in range(len(case["docs"])):
        if len(case["docs"]) > 1:
            codings = case.get("codings") or [None] * len(case["docs"])
            yield dict(case, docs=case["docs"][:i] + case["docs"][i + 1:], codings=codings[:i] + codings[i + 1:],
                       order=[o - (o > i) for o in case["order"] if o != i])
    if case.get("times"):
        yield dict(case, times=0)
        yield dict(case, crowd_at=0)
        for i in range(len(case["crowd"])):
            if len(case["crowd"]) > 1:
                yield dict(case, crowd=[case["crowd"][i]])
            for doc in common.smaller_docs(case["crowd"][i]):
                yield dict(case, crowd=case["crowd"][:i] + [doc] + case["crowd"][i + 1:])
    for i in range(len(case.get("breaks") or ())):
        yield dict(case, breaks=case["breaks"][:i] + case["breaks"][i + 1:])
    if case["mode"] == "threads":
        yield dict(case, mode="turns")
    for i in range(len(case["docs"])):
        for doc in common.smaller_docs(case["docs"][i]):
            yield dict(case, docs=case["docs"][:i] + [doc] + case["docs"][i + 1:])


def sample(case):
    return f"{case['mode']} {case['order']} " + " || ".join(common.sample({"doc": d})[:200] for d in case["docs"])


def explain(case):
    more = "".join(f"\n--- {case['times']} times at turn {case['crowd_at']}\n" + xmlast.emit(d) for d in case.get("crowd") or ())
    return f"{case['mode']} {case['order']}\n" + "\n".join(common.explain({"doc": d}) for d in case["docs"]) + more
