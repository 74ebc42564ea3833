#!/usr/bin/env python3
"""Mutation testing of the checks: single edits of /repo/src in scratch copies under /tmp, kept when the repository's tests still
pass, then shown to every check with reduced numbers of cases.  usage: mutate.py OUT.jsonl [--part I/N] [--only substring]
Not used by any registered check."""
import argparse, ast, json, os, random, shutil, subprocess, sys, multiprocessing

REPO, VERIF, PY = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "/opt/venv/bin/python"
FILES = ["parse.py", "process.py", "serialize.py", "validate.py", "map.py", "model/types.py", "model/process.py", "model/parse.py",
         "resolve/resolver.py", "resolve/graph.py", "resolve/graph_builder.py", "resolve/graph_elements.py", "resolve/logger.py",
         "util/process_parse_model_convert.py", "util/xml_parse.py", "util/html_generator.py"]
CHECKS = [f"P{i:02d}" for i in range(1, 35)]
CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"],
       ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Mod: "//", ast.Pow: "*"}


def mutants(path):
    src = open(path, encoding="utf-8").read()
    lines = src.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    data = src.encode()
    tree = ast.parse(src)

    def pos(line, col):
        return starts[line - 1] + col

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def text(n):
        a, b = span(n)
        return data[a:b].decode()

    out = []

    def add(n, new, what):
        a, b = span(n)
        out.append((n.lineno, what, a, b, new))

    for n in ast.walk(tree):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            for op in CMP[type(n.ops[0])]:
                add(n, f"{text(n.left)} {op} {text(n.comparators[0])}", "cmp")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + op.join(text(v) for v in n.values) + ")", "bool")
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                k = " and " if isinstance(n.op, ast.And) else " or "
                add(n, "(" + k.join(text(v) for v in rest) + ")", "booldrop")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, f"({text(n.operand)})", "not")
        elif isinstance(n, ast.IfExp):
            add(n, f"({text(n.body)})", "ifexp")
            add(n, f"({text(n.orelse)})", "ifexp")
        elif isinstance(n, (ast.If, ast.While)):
            add(n.test, f"(not ({text(n.test)}))", "neg")
            if isinstance(n, ast.If):
                add(n.test, "False", "iffalse")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.JoinedStr):
            add(n, f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})", "bin")
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            add(n, str(n.value + 1), "const")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, str(not n.value), "const")
        elif isinstance(n, ast.Call):
            f = text(n.func)
            if f == "or_if_none" and len(n.args) == 2:
                add(n, text(n.args[0]), "orifnone")
                add(n, f"({text(n.args[0])} or ({text(n.args[1])}))", "orifnone")
            elif f in ("max", "min"):
                add(n.func, "min" if f == "max" else "max", "minmax")
            elif f in ("copy.copy", "copy.deepcopy", "sorted", "list", "set") and len(n.args) >= 1 and not isinstance(n.args[0], ast.GeneratorExp):
                add(n, text(n.args[0]), "nocopy")
            for k in n.keywords:
                if k.arg and not (isinstance(k.value, ast.Constant)) and k.arg not in ("key", "parsed"):
                    add(k.value, "None", "kwnone")
            if f.endswith((".strip", ".lower")) and isinstance(n.func, ast.Attribute):
                add(n, text(n.func.value), "nostr")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", "del")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and isinstance(getattr(n, "targets", [getattr(n, "target", None)])[0], (ast.Attribute, ast.Subscript)):
            add(n, "pass", "del")
        elif isinstance(n, ast.Continue):
            add(n, "pass", "del")
        elif isinstance(n, ast.Break):
            add(n, "continue", "del")
        elif isinstance(n, ast.Raise):
            add(n, "pass", "del")
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, (ast.Name, ast.Constant)):
            add(n.value, "None", "ret")
    res = []
    for line, what, a, b, new in out:
        if data[a:b].decode() == new:
            continue
        m = (data[:a] + new.encode() + data[b:]).decode()
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        res.append((line, what, data[a:b].decode()[:80], new[:80], m))
    return res


def work(job):
    idx, rel, line, what, old, new, text = job
    d = f"/tmp/mut/w{os.getpid()}"
    if not os.path.exists(d):
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    path = f"{d}/src/svdsuite/{rel}"
    orig = open(f"{REPO}/src/svdsuite/{rel}", encoding="utf-8").read()
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", LC_ALL="C.UTF-8")
    rec = dict(idx=idx, file=rel, line=line, what=what, old=old, new=new)
    try:
        with open(path, "w", encoding="utf-8") as f:
            f.write(text)
        try:
            t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=d, env=env,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
            rec["tests"] = t.returncode == 0
        except subprocess.TimeoutExpired:
            rec["tests"] = False
        if rec["tests"]:
            rec["caught"] = None
            for p in order(rel):
                env2 = dict(env, SVD_REPO=d, VERIF_SEED="1")
                cnt = {"P34": "60", "P33": "150", "P31": "200", "P30": "250", "P26": "40", "P24": "150", "P29": "150", "P14": "200", "P07": "200"}.get(p, "500")
                try:
                    t = subprocess.run([PY, f"{VERIF}/run.py", p, "--count", cnt, "--jobs", "1"], env=dict(env2, SVD_NOSHRINK="1"),
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300, text=True)
                except subprocess.TimeoutExpired:
                    rec.setdefault("odd", []).append(p + " timeout")
                    continue
                if t.returncode == 1:
                    rec["caught"] = p
                    break
                if t.returncode not in (0,):
                    rec.setdefault("odd", []).append(f"{p} exit {t.returncode} {t.stdout[-200:]}")
    finally:
        with open(path, "w", encoding="utf-8") as f:
            f.write(orig)
    return rec


def order(rel):
    first = {"parse.py": ["P01", "P03", "P02", "P04"], "serialize.py": ["P05", "P06", "P23"], "validate.py": ["P07"], "map.py": ["P25"],
             "util/process_parse_model_convert.py": ["P23"], "util/xml_parse.py": ["P04", "P27"], "resolve/logger.py": ["P26"],
             "util/html_generator.py": ["P26"], "model/types.py": ["P02"], "model/parse.py": ["P01", "P23"]}.get(
        rel, ["P12", "P22", "P10", "P09", "P18", "P13", "P15", "P28", "P21"])
    return first + [c for c in CHECKS if c not in first]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--only", default="")
    ap.add_argument("--sample", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    done = set()
    if os.path.exists(a.out):
        done = {json.loads(l)["idx"] for l in open(a.out)}
    jobs = []
    for rel in FILES:
        for k, (line, what, old, new, text) in enumerate(mutants(f"{REPO}/src/svdsuite/{rel}")):
            idx = f"{rel}:{k}"
            if a.only in rel and idx not in done and random.Random(idx).random() < a.sample:
                jobs.append((idx, rel, line, what, old, new, text))
    random.Random(1).shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    with open(a.out, "a", encoding="utf-8") as f, multiprocessing.Pool(a.jobs) as pool:
        for rec in pool.imap_unordered(work, jobs):
            f.write(json.dumps(rec) + "\n")
            f.flush()
            if rec["tests"]:
                print(rec.get("caught"), rec["file"], rec["line"], rec["what"], "|", rec["old"], "->", rec["new"], rec.get("odd", ""), flush=True)


if __name__ == "__main__":
    main()
