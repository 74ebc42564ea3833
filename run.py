#!/usr/bin/env python3
"""./run.py P05 [--tier quick|thorough] [--count N] [--seed N] [--jobs N]   |   ./run.py --replay FILE"""
import argparse
import os
import sys

PY = "/opt/venv/bin/python"
if sys.executable != PY and os.path.exists(PY) and not os.environ.get("SVD_REEXEC") or os.environ.get("PYTHONHASHSEED") != "0":
    env = dict(os.environ, SVD_REEXEC="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    exe = PY if os.path.exists(PY) else sys.executable
    os.execve(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from svdprop import engine  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--count", type=int)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return engine.replay(a.replay)
    return engine.run(a.property, a.tier, a.seed, a.count, a.jobs)


if __name__ == "__main__":
    sys.exit(main())
