#!/bin/sh
# Offline: the machinery is plain Python run by the interpreter /repo is built with; only check it is usable.
set -eu
cd "$(dirname "$0")"
mkdir -p evidence replays
/opt/pypyvenv/bin/python - <<'P'
import sys
sys.dont_write_bytecode = True
import ast, glob
for f in glob.glob("dst/**/*.py", recursive=True):
    ast.parse(open(f).read(), f)
import numpy, pandas, openpyxl, matplotlib, tqdm, plotly
print("setup ok")
P
