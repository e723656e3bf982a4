#!/usr/bin/env python3-vt
"""C21: scopes"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from core import *
from scopes import *
s = Suite("C21", "Scopes are renumbered without changing their order")
s.assumptions += ["std::sort, std::unique, std::lower_bound, std::vector and tsl::robin_map behave as specified: after sorting and removal of duplicates the position of a collected scope is its rank among the distinct collected scopes",
    "loops over all variables, thread states and table entries are verified for an arbitrary element (for-each rule)", "fewer than 2^31 distinct scopes are in use; scope numbers kept outside variables and thread states are not renumbered (documented limitation)"]
s.native_full("full_scope.cpp")
s.ir("v", "var.cpp", ["-I" + VERIF + "/stubs/tsl_spec"])
s.task("jitc_compact_scopes", compact(), "v")
s.task("jitc_scope_next, new_scope, advance_scope", alloc(), "v")
s.task("canary: jitc_compact_scopes", compact(True), "v", kind="canary")
s.task("canary: scope allocation", alloc(True), "v", kind="canary")
if __name__ == "__main__": s.main()
