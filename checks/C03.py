#!/usr/bin/env python3-vt
"""C03: life cycle of variables (reference counting)"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from core import *
from varlife import *
s = Suite("C03", "Variables live exactly as long as they are referenced")
s.native_full("full_ref.cpp")
s.assumptions += ["ownership: the variable being released still owns one reference per use of an operand (established by jitc_var_new_node_* / jitc_var_new, preserved by jitc_var_free; functions of other files that store operands in variables by hand -- loops, calls, conditionals, packets -- are only searched natively)",
    "reference counts stay below 2^32 - 1 (side effect references: 2^16 - 1; stashed counts: at most 2^16 - 1, their storage is 16 bits wide)",
    "std::vector, malloc/free and the slot lists (FreeSlots) behave as specified by their contracts; user callbacks may create and release other variables (the table may move) but do not touch the variable being released",
    "log output is inactive", "termination of a release follows from the acyclic operand relation (not proved)"]
s.ir("v", "var.cpp", ["-I" + VERIF + "/stubs/tsl_spec"])
for nm, sign in (("inc", 1), ("dec", -1)):
    for se in (False, True):
        for rec in (False, True):
            f = f"jitc_var_{nm}_ref" + ("_se" if se else ""); s.task(f + (" (record)" if rec else " (index)"), counts(f, sign, se, rec), "v")
s.task("jitc_var", lookup, "v"); s.task("jitc_var_stash_ref, jitc_var_unstash_ref", stash, "v")
PT = partitions()
for k in range(8): s.task(f"jitc_var_free, operands {k}", release(PT[k::8], None), "v")
for x in ("label", "internal", "external"):
    for k in range(2): s.task(f"jitc_var_free, {x} {k}", release(PT[k::2], x), "v")
import vartask
vartask.add_node_tasks(s)
s.task("canary: jitc_var_dec_ref", counts("jitc_var_dec_ref", -1, False, False, True), "v", kind="canary")
s.task("canary: jitc_var_free", release([(1, 2, 0, 0)], None, True), "v", kind="canary")
if __name__ == "__main__": s.main()
