#!/usr/bin/env python3-vt
"""C12 half precision: contracts on drjit::half (both the software fallback and the F16C build)"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from core import *

s = Suite("C12", "Half precision conversion and arithmetic round correctly")
s.assumptions += ["the hardware instructions vcvtps2ph/vcvtph2ps follow IEEE-754 and MXCSR selects round-to-nearest-even (F16C build)",
                  "single precision hardware add/sub/mul/div/compare and int/double->float conversion are IEEE-754 (round to nearest even)",
                  "NaN payload bits are not part of the property"]
s.ir("fb", "half.cpp"); s.ir("hw", "half.cpp", ["-mf16c"])
F16, F32s, F64s = z3.Float16(), z3.Float32(), z3.Float64()
RNE = z3.RNE()
def h2f(v): return z3.fpFPToFP(RNE, z3.fpBVToFP(bv(v, 16), F16), F32s)
def half_of(v, f):
    "post-condition: v is the half precision rounding of the float f"
    v = bv(v, 16)
    return z3.If(z3.fpIsNaN(f), z3.UGT(v & 0x7fff, 0x7c00), v == z3.fpToIEEEBV(z3.fpFPToFP(RNE, f, F16)))
def fx(v): return tofp(v, 32)
def single(c, fn, args, goal, name, ex=None, hint=None):
    ex = ex or c.exec(float_mode="ieee")
    outs = ex.call(State(), fn, args)
    for kind, st, v in outs:
        if kind != 'ret': ex.oblige(st, name + ": no exception", False); continue
        ex.oblige(st, name, goal(v), hint=hint)
        c.cover(ex, st, name)
    return ex
def conv_f2h(fn):
    def t(c):
        b = z3.BitVec("b", 32); f = tofp(b, 32)
        single(c, fn, [f], lambda v: half_of(v, f), f"{fn}: IEEE round to nearest even", hint=["default", "qffp", "cvc5"])
    return t
def conv_h2f(fn):
    def t(c):
        h = z3.BitVec("h", 16)
        single(c, fn, [h], lambda v: fx(v) == h2f(h), f"{fn}: exact", hint=["default", "qffp", "cvc5"])
    return t
for irn in ("fb", "hw"):
    s.task(f"{irn}: float32_to_float16_fallback", conv_f2h("h_from_f32_fb"), irn)
    s.task(f"{irn}: float16_to_float32_fallback", conv_h2f("h_to_f32_fb"), irn)
    s.task(f"{irn}: float32_to_float16", conv_f2h("h_from_f32"), irn)
    s.task(f"{irn}: float16_to_float32", conv_h2f("h_to_f32"), irn)
# --- operators, against the contracts of the two conversions
def contracts(ex):
    def f2h(ex, st, a, inst):
        v = fresh("f2h", 16); f = fx(a[0])
        st.assume(half_of(v, f)); return v
    def h2fc(ex, st, a, inst): return h2f(a[0])
    for n in ex.mod.fns.values():
        if "drjit::half::float32_to_float16(" in n.dname: ex.contracts[n.name] = f2h
        if "drjit::half::float16_to_float32(" in n.dname: ex.contracts[n.name] = h2fc
def ops(c):
    a, b16, b32 = z3.BitVec("a", 16), z3.BitVec("b", 16), z3.BitVec("b32", 32)
    other = {"h": (b16, h2f(b16)), "f": (tofp(b32, 32), tofp(b32, 32)), "i": (b32, z3.fpSignedToFP(RNE, b32, F32s))}
    AR = {"add": z3.fpAdd, "sub": z3.fpSub, "mul": z3.fpMul, "div": z3.fpDiv}
    CM = {"eq": z3.fpEQ, "ne": z3.fpNEQ, "lt": z3.fpLT, "gt": z3.fpGT, "le": z3.fpLEQ, "ge": z3.fpGEQ}
    def go(fn, args, goal, name):
        ex = c.exec(float_mode="ieee"); contracts(ex)
        single(c, fn, args, goal, name, ex=ex)
    for n, f in AR.items():
        for k, (arg, fv) in other.items():
            spec = f(RNE, h2f(a), fv)
            go(f"h_{n}_{k}", [a, arg], lambda v: half_of(v, spec), f"operator {n} ({k})")
            if k != "i": go(f"h_{n}eq_{k}", [a, arg], lambda v: half_of(v, spec), f"operator {n}= ({k})")
    for n, f in CM.items():
        for k, (arg, fv) in other.items():
            go(f"h_{n}_{k}", [a, arg], lambda v: tobool(v) == f(h2f(a), fv), f"operator {n} ({k})")
    b64, b8, i16 = z3.BitVec("b64", 64), z3.BitVec("b8", 8), z3.BitVec("i16", 16)
    bb = z3.Bool("bb")
    for fn, arg, spec in [("h_ctor_f32", tofp(b32, 32), tofp(b32, 32)), ("h_ctor_f64", tofp(b64, 64), z3.fpFPToFP(RNE, tofp(b64, 64), F32s)),
                          ("h_ctor_i32", b32, z3.fpSignedToFP(RNE, b32, F32s)), ("h_ctor_u32", b32, z3.fpUnsignedToFP(RNE, b32, F32s)),
                          ("h_ctor_u8", b8, z3.fpUnsignedToFP(RNE, b8, F32s)), ("h_ctor_i16", i16, z3.fpSignedToFP(RNE, i16, F32s)),
                          ("h_ctor_u64", b64, z3.fpUnsignedToFP(RNE, b64, F32s)), ("h_ctor_bool", bb, z3.If(bb, z3.FPVal(1, F32s), z3.FPVal(0, F32s)))]:
        go(fn, [arg], lambda v: half_of(v, spec), fn)
    go("h_op_float", [a], lambda v: fx(v) == h2f(a), "operator float")
    go("h_copy", [a], lambda v: bv(v, 16) == a, "copy construction / assignment")
    go("h_neg", [a], lambda v: z3.If(z3.fpIsNaN(z3.fpBVToFP(a, F16)), z3.UGT(bv(v, 16) & 0x7fff, 0x7c00), bv(v, 16) == a ^ 0x8000), "unary minus")
s.task("fb: operators", ops, "fb"); s.task("hw: operators", ops, "hw")
def consts(c):
    import math, struct
    vals = [math.e, math.log(2), 1 / math.log(2), math.pi, 1 / math.pi, math.sqrt(math.pi), 1 / math.sqrt(math.pi), 2 * math.pi, 1 / (2 * math.pi), math.sqrt(2 * math.pi), 1 / math.sqrt(2 * math.pi),
            4 * math.pi, 1 / (4 * math.pi), math.sqrt(4 * math.pi), 1 / math.sqrt(4 * math.pi), math.sqrt(2), 1 / math.sqrt(2), math.inf, None, None, None]
    for i, x in enumerate(vals):
        def goal(v, i=i, x=x):
            v = bv(v, 16)
            if i in (18, 20): return z3.UGT(v & 0x7fff, 0x7c00)
            if i == 19: return v == 0x3bff
            if i == 17: return v == 0x7c00
            # a neighbour of the exact value (either of the two enclosing halves is accepted)
            hb = struct.unpack("<H", struct.pack("<e", x))[0]
            return z3.And(z3.UGE(v, hb - 1), z3.ULE(v, hb + 1))
        single(c, "h_const", [i], goal, f"constant {i}")
s.task("constants", consts, "fb")
# --- must-fail canaries (vacuity)
def bad(c):
    b = z3.BitVec("b", 32); f = tofp(b, 32)
    single(c, "h_from_f32_fb", [f], lambda v: z3.If(z3.fpIsNaN(f), z3.UGT(v & 0x7fff, 0x7c00), v == z3.fpToIEEEBV(z3.fpFPToFP(z3.RTZ(), f, F16))), "canary: truncation")
s.task("canary", bad, "fb", kind="canary")
s.native("half.cpp", always=True, name="half-fallback"); s.native("half.cpp", flags=["-mf16c"], always=True, name="half-f16c")
if __name__ == "__main__": s.main()
