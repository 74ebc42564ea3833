"""Driver: generates cases, checks them in parallel, shrinks failures, writes replay and evidence files.

A property module provides
    ID, RULE (what makes a case non-trivial), QUICK, THOROUGH (numbers of cases), optionally BUDGET (CPU seconds / case)
    generate(rnd) -> case                 a JSON value; every random choice comes from rnd
    check(case, ctx) -> None              raises Violation; ctx.tag(...), ctx.nontrivial(), ctx.skip(reason)
    smaller(case) -> iterable of cases    optional, candidates for shrinking
    sample(case) -> str                   optional, short text for the evidence
Case i of seed s is generated from Random(f"{s}:{ID}:{i}") and nothing else, so runs do not depend on the number of
worker processes.
"""
import collections
import hashlib
import importlib
import json
import os
import pickle
import resource
import signal
import sys
import tempfile
import time
import traceback
import warnings
from random import Random

from . import boot

QUICK_SECONDS = 600  # a quick run that takes longer (ten times the usual) ends with what it has explored
CASE_CPU = 40  # CPU seconds after which a case counts as not terminating
MEM = 3 << 30


class Violation(Exception):
    def __init__(self, message, key=None):
        super().__init__(message)
        self.key = key


class Skip(Exception):
    pass


class HarnessError(Exception):
    pass


class Hang(BaseException):
    pass


class Ctx:
    def __init__(self):
        self.tags = collections.Counter()
        self.is_nontrivial = False
        self.scratch = None

    def tag(self, name, n=1):
        self.tags[name] += n

    def nontrivial(self, yes=True):
        if yes:
            self.is_nontrivial = True

    def skip(self, reason):
        raise Skip(reason)


def code_frame(exc):
    """deepest frame inside the code under test, or None"""
    src = os.path.realpath(boot.SRC) + os.sep
    found = None
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for fr in traceback.extract_tb(exc.__traceback__):
            if os.path.realpath(fr.filename).startswith(src):
                found = f"{os.path.basename(fr.filename)}:{fr.name}"
        exc = exc.__cause__ or exc.__context__
    return found


def _alarm(signum, frame):
    raise Hang()


def run_case(mod, case):
    """-> (verdict, message, key, ctx); verdict: ok, skip, violation, error"""
    ctx = Ctx()
    signal.signal(signal.SIGVTALRM, _alarm)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        limit = getattr(mod, "BUDGET", CASE_CPU)
        signal.setitimer(signal.ITIMER_VIRTUAL, limit)
        try:
            try:
                mod.check(case, ctx)
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            return "ok", "", None, ctx
        except Skip as e:
            return "skip", str(e), None, ctx
        except Violation as e:
            return "violation", str(e), e.key, ctx
        except Hang:
            if getattr(mod, "HANG_IS_VIOLATION", True):
                return "violation", f"no result after {limit} s of CPU time", None, ctx
            return "skip", "time limit", None, ctx
        except MemoryError:
            if getattr(mod, "HANG_IS_VIOLATION", True):
                return "violation", "memory exhausted on a small document", None, ctx
            return "skip", "memory limit", None, ctx
        except HarnessError:
            return "error", traceback.format_exc(), None, ctx
        except Exception as e:  # pylint: disable=broad-except
            where = code_frame(e)
            if where:
                return "violation", f"unexpected {type(e).__name__} in {where}: {str(e)[:300]}", None, ctx
            if isinstance(e, (ImportError, OSError)):
                return "error", traceback.format_exc(), None, ctx
            # the result cannot even be looked at (an attribute is missing, a list is None, ...)
            at = traceback.extract_tb(e.__traceback__)[-1]
            text = f"result not usable: {type(e).__name__} {str(e)[:300]} ({os.path.basename(at.filename)}:{at.lineno})"
            return "violation", text, None, ctx


def make_case(mod, seed, i):
    return mod.generate(Random(f"{seed}:{mod.ID}:{i}"))


def digest(case):
    return hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=8).hexdigest()


def _found_elsewhere(stop):
    """another worker found a violation some time ago"""
    try:
        return time.time() - os.stat(stop).st_mtime > 15
    except OSError:
        return False


def _worker(mod, seed, indices, path, scratch, deadline):
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    tempfile.tempdir = scratch
    cur = path + ".cur"
    res = {"n": 0, "skip": collections.Counter(), "tags": collections.Counter(), "digests": set(), "bad": [],
           "samples": [], "error": None, "known": {}, "late": False}
    stop = os.path.join(os.path.dirname(path), "stop")
    fd = os.open(cur, os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
    for i in indices:
        if _found_elsewhere(stop):
            break
        if time.time() > deadline:
            res["late"] = True
            break
        os.pwrite(fd, b"%-12d" % i, 0)
        try:
            case = make_case(mod, seed, i)
        except MemoryError:
            res["skip"]["memory in generator"] += 1
            continue
        except Exception:  # pylint: disable=broad-except
            res["error"] = f"generator, case {i}\n" + traceback.format_exc()
            break
        verdict, msg, key, ctx = run_case(mod, case)
        res["n"] += 1
        res["tags"].update(ctx.tags)
        if verdict == "skip":
            res["skip"][msg] += 1
        elif verdict == "error":
            res["error"] = f"case {i}\n{msg}"
            break
        elif verdict == "violation":
            known = known_findings(mod.ID)
            if key is not None and key in known:
                res["known"][key] = res["known"].get(key, 0) + 1
            else:
                res["bad"].append((i, msg, key))
                if not os.path.exists(stop):
                    with open(stop, "w", encoding="ascii"):
                        pass
                if len(res["bad"]) >= 3:
                    break
        else:
            if ctx.is_nontrivial:
                res["digests"].add(digest(case))
                if len(res["samples"]) < 2:
                    res["samples"].append((i, sample(mod, case)))
    os.close(fd)
    with open(path, "wb") as f:
        pickle.dump(res, f)


def sample(mod, case):
    if hasattr(mod, "sample"):
        return mod.sample(case)
    return json.dumps(case)[:400]


KNOWN_FILE = os.path.join(boot.VERIF, "known_findings.txt")


def known_findings(prop):
    """finding lines: 'finding: property=<id> key=<key> <text>'; fixed lines suppress nothing"""
    out = {}
    if os.path.exists(KNOWN_FILE):
        with open(KNOWN_FILE, encoding="utf-8") as f:
            for line in f:
                if line.startswith(f"finding: property={prop} key="):
                    rest = line.split(" key=", 1)[1].strip()
                    key, _, text = rest.partition(" ")
                    out[key] = text
    return out


def shrink(mod, case, message, seconds=25):
    """greedy descent over mod.smaller; every accepted step still violates"""
    if not hasattr(mod, "smaller") or os.environ.get("SVD_NOSHRINK"):
        return case, message, 0
    end = time.time() + seconds
    steps = tries = 0
    improved = True
    while improved and time.time() < end:
        improved = False
        for cand in mod.smaller(case):
            if time.time() > end:
                break
            tries += 1
            try:
                verdict, msg, _, _ = run_case(mod, cand)
            except Exception:  # pylint: disable=broad-except
                continue
            if verdict == "violation":
                case, message = cand, msg
                steps += 1
                improved = True
                break
    return case, message, steps


def load(prop):
    mod = importlib.import_module(f"svdprop.props.{prop.lower()}")
    assert mod.ID == prop
    return mod


def write_replay(mod, seed, index, case, message):
    out = os.path.join(boot.VERIF, "replays")
    os.makedirs(out, exist_ok=True)
    path = os.path.join(out, f"{mod.ID}-{seed}-{index}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump({"property": mod.ID, "seed": seed, "index": index, "message": message, "case": case}, f, indent=1)
    return path


def replay(path):
    boot.check_target()
    with open(path, encoding="utf-8") as f:
        rec = json.load(f)
    mod = load(rec["property"])
    with tempfile.TemporaryDirectory(prefix="svdprop") as tmp:
        os.chdir(tmp)
        verdict, msg, _, _ = run_case(mod, rec["case"])
    print(f"{verdict}: {msg}")
    if hasattr(mod, "explain"):
        print(mod.explain(rec["case"]))
    if verdict == "violation":
        print(f"VIOLATION property={mod.ID} replay={path}")
        return 1
    return 0 if verdict in ("ok", "skip") else 2


def corpus(prop):
    d = os.path.join(boot.VERIF, "corpus", prop)
    if not os.path.isdir(d):
        return []
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".json")]


def run(prop, tier, seed, count=None, jobs=None):
    boot.check_target()
    t0 = time.time()
    mod = load(prop)
    jobs = jobs or min(8, os.cpu_count() or 1)
    total = count or (mod.THOROUGH if tier == "thorough" else mod.QUICK)
    bad = []  # (index, message, case)
    tags, skips, digests, samples, n, known = collections.Counter(), collections.Counter(), set(), [], 0, {}
    error, late = None, False
    deadline = t0 + QUICK_SECONDS if tier == "quick" and not count else float("inf")

    with tempfile.TemporaryDirectory(prefix="svdprop") as tmp:
        cwd = os.getcwd()
        os.chdir(tmp)
        # saved regression cases first
        replayed = 0
        for path in corpus(prop):
            with open(path, encoding="utf-8") as f:
                case = json.load(f)["case"]
            verdict, msg, key, ctx = run_case(mod, case)
            replayed += 1
            if verdict == "violation" and not (key and key in known_findings(prop)):
                bad.append((-replayed, f"{msg} (saved case {os.path.basename(path)})", case))
            elif verdict == "error":
                error = msg
        os.chdir(cwd)

        # fork workers, each a residue class of the case numbers
        pids = {}
        if not bad and not error:
            sys.stdout.flush()
            for j in range(jobs):
                path = os.path.join(tmp, f"w{j}")
                pid = os.fork()
                if pid == 0:
                    code = 70
                    try:
                        _worker(mod, seed, range(j, total, jobs), path, os.path.join(tmp, f"d{j}"), deadline)
                        code = 0
                    except BaseException:  # pylint: disable=broad-except
                        traceback.print_exc()
                    finally:
                        sys.stderr.flush()
                        os._exit(code)
                pids[pid] = path
        for pid, path in pids.items():
            _, status = os.waitpid(pid, 0)
            if status == 0 and os.path.exists(path):
                with open(path, "rb") as f:
                    r = pickle.load(f)
                n += r["n"]
                tags.update(r["tags"])
                skips.update(r["skip"])
                digests |= r["digests"]
                samples += r["samples"]
                for k, v in r["known"].items():
                    known[k] = known.get(k, 0) + v
                bad += [(i, m, None) for i, m, _ in r["bad"]]
                error = error or r["error"]
                late = late or r["late"]
                continue
            try:
                with open(path + ".cur", encoding="ascii") as f:
                    index = int(f.read())
            except (OSError, ValueError):
                index = None
            if os.WIFSIGNALED(status) and index is not None and os.WTERMSIG(status) in (
                signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL,
            ):
                bad.append((index, f"the process died with signal {os.WTERMSIG(status)}", "crash"))
            else:
                error = error or f"worker ended with status {status} at case {index}"

        replay_path = None
        message = None
        if bad:
            bad.sort(key=lambda b: b[0])
            index, message, case = bad[0]
            if case == "crash":
                case = make_case(mod, seed, index)
            elif case is None:
                case = make_case(mod, seed, index)
                os.chdir(tmp)
                resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
                case, message, _ = shrink(mod, case, message)
                os.chdir(cwd)
            replay_path = write_replay(mod, seed, index, case, message)

    wall = time.time() - t0
    samples.sort(key=lambda s: s[0])
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": len(digests),
            "rule": mod.RULE,
            "samples": [s for _, s in samples[:6]],
            "skipped": dict(skips.most_common()),
            "classes": dict(tags.most_common()),
            "saved_cases_replayed": replayed,
            "known_findings_hit": known,
            "stopped_early": late,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "violations": [{"case": i, "message": m[:500]} for i, m, _ in bad[:10]],
        "wall_s": round(wall, 2),
    }
    os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(boot.VERIF, "evidence", f"{prop}.json"), "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
    for key, text in known_findings(prop).items():
        print(f"KNOWN-FINDING: property={prop} {text}")
    if bad:
        print(f"{len(bad)} violating cases; first: {message}")
        print(f"VIOLATION property={prop} replay={replay_path}")
        return 1
    if error:
        print(f"HARNESS ERROR in {prop}: {error}", file=sys.stderr)
        return 2
    print(f"{prop}: {n} cases, {len(digests)} distinct non-trivial, {sum(skips.values())} skipped, {wall:.1f} s")
    # a check that hardly tests anything must not pass silently
    floor = getattr(mod, "MIN_NONTRIVIAL", 0.2)
    if not count and not late and len(digests) < floor * total:
        print(f"HARNESS ERROR: only {len(digests)} of {total} cases were non-trivial", file=sys.stderr)
        return 2
    return 0
