#!/usr/bin/env python3
"""Framework setup: everything is compiled by the checks themselves from
/repo's current tree; this only verifies that the tools they need exist."""
import shutil, sys
missing = [x for x in ("clang++", "gcc", "ninja", "ld.lld", "python3") if not shutil.which(x)]
if missing:
    sys.exit("missing tools: %s" % missing)
import core
core.build_faultio()
print("ok")
