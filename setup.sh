#!/bin/bash
# Builds the code under test and the harness crates once; the checks then rebuild incrementally.
cd "$(dirname "$0")" || exit 1
exec /opt/veriftools/pyvenv/bin/python3 - <<'P'
import os, sys
sys.path.insert(0, ".")
from lib import common
common.build_cli()
for c in sorted(os.listdir("harness")):
    if os.path.exists("harness/%s/Cargo.toml" % c):
        common.build_harness(c)
print("setup done")
P
