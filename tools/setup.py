#!/usr/bin/env python3
"""setup_cmd: builds the harness from /repo's working tree so that the checks start warm.
A package that does not build is left to the checks that need it."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib, registry
failed = 0
for p in registry.PACKAGES:
    print("building", p, flush=True)
    try:
        vlib.build(p)
    except vlib.ToolError as e:
        print(e, flush=True); failed += 1
sys.exit(1 if failed == len(registry.PACKAGES) else 0)
