#!/bin/bash
# Builds the executors (from /repo's working tree) so that the checks only rebuild what changed
set -e
cd "$(dirname "$0")"
exec python3 - <<'P'
import sys
sys.path.insert(0, "checks")
import os, importlib, vt
for f in sorted(os.listdir("checks")):
    if f.startswith("c") and f[1:3].isdigit() and f.endswith(".py"):
        c = importlib.import_module(f[:-3]).CHECK
        o = c.__new__(c)
        o.tier, o.seed = "quick", 1
        o.build()
        print("built", c.prop, flush=True)
P
