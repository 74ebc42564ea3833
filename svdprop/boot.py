"""Make the code under test importable: always the current working tree of /repo."""
import os
import sys

REPO = os.environ.get("SVD_REPO", "/repo")
SRC = os.path.join(REPO, "src")
sys.dont_write_bytecode = True
if SRC not in sys.path:
    sys.path.insert(0, SRC)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def check_target():
    import svdsuite

    where = os.path.realpath(svdsuite.__file__)
    if not where.startswith(os.path.realpath(SRC) + os.sep):
        raise SystemExit(f"harness error: svdsuite imported from {where}, not from {SRC}")
