#!/usr/bin/env python3-vt
"""C01: simplifications of traced operations (src/op.cpp)"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from core import *
from optask import *
import vartask
s = Suite("C01", "Algebraic simplification never changes a traced result")
s.native_full("full_simp.cpp")
s.assumptions += ["functions of src/var.cpp that create variables return a fresh live index that carries the requested operation (their own contracts: jitc_var_new_node_*, jitc_var_literal, jitc_var_resize are proved here; jitc_var_new is the subject of C03)",
    "not specified: integer division by zero, MIN / -1, shifts by at least the width, conversions of out of range or NaN floats to integers; conversions between half and other floats pass through single precision; the sign of a NaN is not part of the value",
    "signed integer overflow of the compiled folding code wraps (the code is compiled that way by the compilers in use; formally undefined in C++)",
    "fma, sqrt, sin, cos, exp2, log2, tanh of the C library are functions of their arguments (uninterpreted); fused multiply-add obeys the listed instances of its definition",
    "the compiled IR (clang 18, -O0 with inlining/SROA passes, -DNDEBUG) is what runs; the Metal branches are not reachable (no Metal device on this platform)",
    "simplifications may change the sign of a zero result and may replace a division by a literal with a multiplication by its reciprocal (this is how the library behaves independently of JitFlag::FastMath); with FastMath, 0*x = 0 and approximate rcp, sqrt, rsqrt, div are accepted"]
s.ir("o", "op.cpp"); s.ir("v", "var.cpp")
vartask.add_node_tasks(s)
fname = lambda f: next(n for n in [f])
def fn_of(c, d):
    r = [f.name for f in c.mod.fns.values() if f.dname.split("(")[0] == d]
    return r[0]
def task(op, t, alias, **kw):
    fn, n, tys, res, _ = OPS[op]; ts = ARGT(op, t)
    def go(c): return trace(op, ts, res(t), fn_of(c, "jitc_var_" + fn), False, alias, **kw)(c)
    return go
for op, (fn, n, tys, res, args) in OPS.items():
    for t in tys:
        ts = ARGT(op, t)
        s.task(f"{op} {t}", task(op, t, None), "o")
        if n == 2: s.task(f"{op} {t}, same variable twice", task(op, t, [0, 0]), "o")
        if op == "Select": s.task(f"{op} {t}, same variable twice", task(op, t, [0, 1, 1]), "o")
# --- conversions
def fusion(t):
    def prep(c, ex, st, O, ids, kinds, ds, sizes, be):
        """a rounding node refers to its operand (same type, value of the node = rounded value of the operand)"""
        xs = z3.BitVec("x.size", 32); st.assume(z3.Or(xs == 1, xs == sizes[0]))
        i, kd, d = O.opaque(st, "x", t, be, xs); p = O.V.ptr(st, ids[0]); ex.store(st, Ptr(p.obj, 8), i, I32); st.assume(z3.Implies(O.fld(st, i, "symbolic") == 1, O.fld(st, ids[0], "symbolic") == 1))
        for k in ROUND: st.assume(z3.Implies(kinds[0] == O.knum[k], fpv(ds[0], t) == exact(k, t, [t], [d])))
    return prep
def cast(s_, t_, re): return lambda c: trace("Bitcast" if re else "Cast", [s_], t_, fn_of(c, "jitc_var_cast"), False, extra=[TY[t_][0], re], prep=fusion(s_) if K(s_) == "f" else None)(c)
for a in ALL:
    for b in ALL:
        s.task(f"conversion {a} to {b}", cast(a, b, 0), "o")
        if W(a) == W(b): s.task(f"bit cast {a} to {b}", cast(a, b, 1), "o")
# --- operands that are empty arrays, dispatch by operation code
def empty(op, t):
    def go(c):
        fn, n, tys, res, _ = OPS[op]; ts = ARGT(op, t)
        for m in range((1 << n) - 1):
            ex = c.exec(full_ms=20000, quick_ms=300, float_mode="ieee"); st = State(); O = Ops(c, ex, st); be = V32("backend"); st.assume(z3.And(z3.UGE(be, 1), z3.ULE(be, 2)))
            ids = []
            for k in range(n):
                if m >> k & 1: sz = V32(f"a{k}.size"); st.assume(sz != 0); ids.append(O.opaque(st, f"a{k}", ts[k], be, sz)[0])
                else: ids.append(0)
            for kind, s2, r in ex.call(st, fn_of(c, "jitc_var_" + fn), ids):
                if m: ex.oblige(s2, "an empty and a non-empty operand are incompatible", kind != 'ret')
                else: ex.oblige(s2, "operations on empty operands are empty", kind == 'ret' and eq(r, 0, 32) if not isinstance(r, bool) else False)
                ex.oblige(s2, "references are balanced", O.V.balanced(s2)); c.cover(ex, s2, f"empty {m}")
    return go
for op, (fn, n, tys, res, args) in OPS.items(): s.task(f"{op}: empty operands", empty(op, "Float32" if "Float32" in tys else tys[-1]), "o")
def dispatch(c):
    num = {}
    for op, (fn, n, tys, res, args) in OPS.items():
        ex = c.exec(full_ms=20000, quick_ms=300, float_mode="ieee"); st = State(); O = Ops(c, ex, st)
        k = ex.call(State(), "w_op_" + op, [])[0][2]; ex.oblige(st, f"{op}: operation codes are distinct", k not in num); num[k] = op
        deps = ex.new_array(st, 4, 4, "dep", writable=False); vals = [bv(ex.arr_read(st.mem[deps.obj], z3.BitVecVal(i, 64)), 32) for i in range(3)]
        calls = []
        for f2, o2 in FNOP.items():
            def h(ex, st, a, i, o2=o2): calls.append((o2, list(a), st)); r = fresh("result", 32); st.ghost["called"] = (o2, list(a), r); return r
            ex.contracts[fn_of(c, f2)] = h
        outs = ex.call(st, fn_of(c, "jitc_var_op"), [k, deps])
        for kind, s2, r in outs:
            w = s2.ghost.get("called"); ok = kind == 'ret' and w is not None and w[0] == op
            ex.oblige(s2, f"{op}: dispatched to the operation of that name with its operands in order", z3.And(*[eq(x, y, 32) for x, y in zip(w[1][:n], vals)], eq(r, w[2], 32)) if ok else False); c.cover(ex, s2, op)
s.task("dispatch by operation code", dispatch, "o")
for op, t in (("Add", "Int16"), ("Mul", "Float32"), ("Shr", "Int32"), ("Select", "Float64"), ("And", "UInt8"), ("Or", "Bool"), ("Fma", "UInt32")):
    s.task(f"canary: {op} {t}", task(op, t, None, canary="fp"), "o", kind="canary")
if __name__ == "__main__": s.main()
