#!/usr/bin/env python3-vt
"""C05: slots and registry ids"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from core import *
from slots import *
s = Suite("C05", "Slot and registry ids are unique, dense and stable")
s.assumptions += ["tsl::robin_map and std::vector behave as specified (stubs/tsl_spec and the contracts in engine/slots.py); loops over all entries of a map or all domains are verified for an arbitrary element (for-each rule)",
    "FreeSlots::push is only called with slots that are not free, FreeSlots::pop only if there are free slots (both are obligations at the call sites in the registry; jitc_var_new and jitc_var_free: proved in C03)",
    "registered pointers are not null, at most 2^32-3 ids per domain, at most 2^20 domains", "the destination of jitc_registry_get_pointers has room for id_bound pointers (documented)"]
s.native("slots.cpp", ["-I" + VERIF + "/stubs/tsl_native", "-fsanitize=address,undefined", "-D_GLIBCXX_ASSERTIONS"])
s.ir("r", "registry.cpp", ["-I" + VERIF + "/stubs/tsl_spec"])
s.task("FreeSlots::push", push(), "r")
s.task("FreeSlots::pop", pop(), "r")
s.task("FreeSlots::empty, size", small, "r")
s.task("jitc_registry_put", put(), "r")
s.task("jitc_registry_remove", remove(), "r")
s.task("jitc_registry_id, ptr, id_bound, peek", lookup, "r")
s.task("jitc_registry_get_pointers", get_pointers, "r")
s.task("jitc_registry_clear", clear, "r")
s.task("jitc_registry_shutdown", shutdown, "r")
s.task("DomainKey", names, "r")
for n, f in (("FreeSlots::push", push), ("FreeSlots::pop", pop), ("jitc_registry_put", put), ("jitc_registry_remove", remove)): s.task("canary: " + n, f(True), "r", kind="canary")
if __name__ == "__main__": s.main()
