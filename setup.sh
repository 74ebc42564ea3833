#!/bin/sh
# nothing to build: the checks are Python and import /repo/src as it is; make sure that works
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
exec ./run.py P01 --count 50
