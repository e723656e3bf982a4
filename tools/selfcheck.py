#!/usr/bin/env python3
"""setup_cmd: nothing has to be built; confirms that the installed tools the checks rely on are there."""
import shutil, sys
import z3
bad = [t for t in ("clang++", "g++", "cvc5") if not shutil.which(t)]
if bad: print("missing:", bad); sys.exit(1)
print("ok", z3.get_version_string())
