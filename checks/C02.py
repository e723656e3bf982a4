#!/usr/bin/env python3-vt
"""C02: constant folding of traced operations (src/op.cpp)"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from core import *
from optask import *
import vartask
s = Suite("C02", "Constant folding is exact")
s.native_full("full_fold.cpp")
s.assumptions += ["functions of src/var.cpp that create variables return a fresh live index that carries the requested operation (their own contracts: jitc_var_new_node_*, jitc_var_literal, jitc_var_resize are proved here; jitc_var_new is the subject of C03)",
    "not specified: integer division by zero, MIN / -1, shifts by at least the width, conversions of out of range or NaN floats to integers; conversions between half and other floats pass through single precision; the sign of a NaN is not part of the value",
    "signed integer overflow of the compiled folding code wraps (the code is compiled that way by the compilers in use; formally undefined in C++)",
    "fma, sqrt, sin, cos, exp2, log2, tanh of the C library are functions of their arguments (uninterpreted); fused multiply-add obeys the listed instances of its definition",
    "the compiled IR (clang 18, -O0 with inlining/SROA passes, -DNDEBUG) is what runs; the Metal branches are not reachable (no Metal device on this platform)"]
s.ir("o", "op.cpp"); s.ir("v", "var.cpp")
s.task("jitc_var_literal", vartask.literal, "v")
def fn_of(c, d):
    r = [f.name for f in c.mod.fns.values() if f.dname.split("(")[0] == d]
    return r[0]
def task(op, t, **kw): return lambda c: trace(op, ARGT(op, t), OPS[op][3](t), fn_of(c, "jitc_var_" + OPS[op][0]), True, **kw)(c)
for op, (fn, n, tys, res, args) in OPS.items():
    for t in tys: s.task(f"{op} {t}", task(op, t), "o")
def cast(s_, t_, re): return lambda c: trace("Bitcast" if re else "Cast", [s_], t_, fn_of(c, "jitc_var_cast"), True, extra=[TY[t_][0], re])(c)
for a in ALL:
    for b in ALL:
        s.task(f"conversion {a} to {b}", cast(a, b, 0), "o")
        if W(a) == W(b): s.task(f"bit cast {a} to {b}", cast(a, b, 1), "o")
for op, t in (("Add", "Int16"), ("Mul", "Float32"), ("Shr", "Int32"), ("Select", "Float64"), ("Lt", "Int8"), ("Popc", "UInt64"), ("Copysign", "Float16")):
    s.task(f"canary: {op} {t}", task(op, t, canary="fp"), "o", kind="canary")
if __name__ == "__main__": s.main()
