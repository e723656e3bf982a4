#!/usr/bin/env python3-vt
"""C04: value numbering"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from core import *
from varlife import *
s = Suite("C04", "Value numbering only merges identical expressions")
s.native_full("full_lvn.cpp")
s.assumptions += ["tsl::robin_map implements a map whose lookup compares keys with operator== (stubs/tsl_spec is its specification); hash collisions do not affect it",
    "entries of the value numbering table refer to live variables with that key (established by jitc_var_new / jitc_lvn_put, preserved by jitc_lvn_drop: proved; other functions drop and re-enter a variable around changes of its key fields: jitc_var_resize is proved in C03, evaluation and loops are only searched natively)",
    "the record given to jitc_var_new has no references and no extra data yet; the log is inactive; slots, std::vector and malloc behave as specified",
    "scope numbers separate pieces of code that must not share variables (jit_new_scope: C21)"]
s.ir("v", "var.cpp", ["-I" + VERIF + "/stubs/tsl_spec"])
s.task("VariableKey, VariableKeyHasher", keys, "v")
for w in ("drop", "put"): s.task("jitc_lvn_" + w, lvn(w), "v")
for be in (0, 1, 2): s.task(f"jitc_var_new, backend {be}", new_var(be, None), "v")
for l in ("prefix", "location"): s.task(f"jitc_var_new, label {l}", new_var(2, l), "v")
s.task("canary: VariableKey", lambda c: keys(c, True), "v", kind="canary")
s.task("canary: jitc_lvn_drop", lvn("drop", True), "v", kind="canary")
if __name__ == "__main__": s.main()
