#!/bin/bash
# Nothing to compile: the checks are Python; the extension of /repo is (re)built by a check when needed.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays .scratch
exec /opt/venv/bin/python -c '
import sys, os
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"; os.environ["MPLBACKEND"] = "Agg"
sys.dont_write_bytecode = True
sys.path.insert(0, ".")
from mc import boot
ip = boot.load()
print("intvalpy", ip.__version__, boot.ext_info())'
