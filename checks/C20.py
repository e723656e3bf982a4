#!/usr/bin/env python3-vt
"""C20: type tables and reduction identities (src/var.cpp), type predicates (src/internal.h)"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from core import *
s = Suite("C20", "Type tables and reduction identities agree with the types")
s.assumptions += ["'one' is not defined for pointers; Void / BaseInt / BaseFloat carry no values",
                  "floating point neutrality is stated for non-NaN elements up to the sign of zero"]
s.ir("t", "types.cpp")
#   index: (name, kind, bits of a value, bytes, llvm, llvm_bin, ptx, ptx_bin, ptx_bin2)
T = {1: ("bool", "bool", 1, 1, "i1", "i1", "pred", "pred", "b8"), 3: ("int8", "s", 8, 1, "i8", "i8", "s8", "b8", "b8"), 4: ("uint8", "u", 8, 1, "i8", "i8", "u8", "b8", "b8"),
     5: ("int16", "s", 16, 2, "i16", "i16", "s16", "b16", "b16"), 6: ("uint16", "u", 16, 2, "i16", "i16", "u16", "b16", "b16"),
     7: ("int32", "s", 32, 4, "i32", "i32", "s32", "b32", "b32"), 8: ("uint32", "u", 32, 4, "i32", "i32", "u32", "b32", "b32"),
     9: ("int64", "s", 64, 8, "i64", "i64", "s64", "b64", "b64"), 10: ("uint64", "u", 64, 8, "i64", "i64", "u64", "b64", "b64"),
     11: ("pointer", "p", 64, 8, "i64", "i64", "u64", "b64", "b64"),
     13: ("float16", "f", 16, 2, "half", "i16", "f16", "b16", "b16"), 14: ("float32", "f", 32, 4, "float", "i32", "f32", "b32", "b32"), 15: ("float64", "f", 64, 8, "double", "i64", "f64", "b64", "b64")}
FS = {16: z3.FPSort(5, 11), 32: z3.Float32(), 64: z3.Float64()}
def run1(ex, st, fn, *a):
    r = ex.call(st, fn, list(a))
    assert len(r) == 1 and r[0][0] == 'ret', (fn, a, r)
    return r[0][2]
def text(ex, st, p):
    r = ""
    for i in range(24):
        b = ex.load(st, Ptr(p.obj, add64(p.off, i)), I8)
        if not isinstance(b, int): return None
        if b == 0: break
        r += chr(b)
    return r
def mod(c):
    ex = c.exec(full_ms=20000, quick_ms=500)
    for f in ex.mod.fns.values():
        d = f.dname.split("(")[0]
        if d in ("jitc_raise", "jitc_fail"): ex.contracts[f.name] = lambda ex, st, a, i: RAISE
    return ex
def domain(kind, w, x):
    """constraint on the 64-bit pattern of a value of the type"""
    return z3.BoolVal(True) if w == 64 else z3.ULT(x, 1 << w)
def tables(c):
    ex = mod(c); st = State()
    ex.oblige(st, "number of types", eq(run1(ex, st, "w_count"), 16, 32))
    seen = {}
    for t, (nm, kind, w, by, llvm, lbin, ptx, pbin, pbin2) in T.items():
        ex.oblige(st, f"{nm}: size", z3.And(eq(run1(ex, st, "w_size", t), by, 32), eq(run1(ex, st, "w_sizeof", t), by, 32)))
        ex.oblige(st, f"{nm}: size text", text(ex, st, run1(ex, st, "w_size_str", t)) == str(by))
        ones, one, mn, mx = [bv(run1(ex, st, f, t), 64) for f in ("w_ones", "w_one", "w_min", "w_max")]
        ex.oblige(st, f"{nm}: all ones", ones == z3.BitVecVal(mask(w), 64))
        x = z3.BitVec("x", 64); t2 = st.copy(); t2.assume(domain(kind, w, x))
        lo = z3.Extract(w - 1, 0, x)
        L = lambda v: z3.Extract(w - 1, 0, v)
        for v, q in ((mn, "minimum"), (mx, "maximum")): ex.oblige(st, f"{nm}: {q} is a value of the type", domain(kind, w, v))
        if kind == "f":
            F = FS[w]; fp = lambda b: z3.fpBVToFP(b, F)
            t2.assume(z3.Not(z3.fpIsNaN(fp(lo))))
            ex.oblige(t2, f"{nm}: minimum", z3.fpLEQ(fp(L(mn)), fp(lo))); ex.oblige(t2, f"{nm}: maximum", z3.fpGEQ(fp(L(mx)), fp(lo)))
            ex.oblige(st, f"{nm}: one", z3.And(domain(kind, w, one), L(one) == z3.fpToIEEEBV(z3.FPVal(1.0, F))))
        else:
            le = (lambda a, b: a <= b) if kind == "s" else z3.ULE
            ex.oblige(t2, f"{nm}: minimum", le(L(mn), lo)); ex.oblige(t2, f"{nm}: maximum", le(lo, L(mx)))
            if kind != "p": ex.oblige(st, f"{nm}: one", one == 1)
        c.cover(ex, t2, nm)
        for fn, want in (("w_llvm", llvm), ("w_llvm_bin", lbin), ("w_ptx", ptx), ("w_ptx_bin", pbin), ("w_ptx_bin2", pbin2), ("w_name", nm)):
            got = run1(ex, st, fn, t)
            ex.oblige(st, f"{nm}: name used in generated code ({fn[2:]})", text(ex, st, got) == want)
            if fn not in ("w_name",): ex.oblige(st, f"{nm}: length tag ({fn[2:]})", eq(ex.load(st, Ptr(got.obj, add64(got.off, 7)), I8), len(want), 8))
        if kind in "su" : ex.oblige(st, f"{nm}: double width integer", text(ex, st, run1(ex, st, "w_llvm_big", t)) == f"i{2*w}")
        ab = text(ex, st, run1(ex, st, "w_llvm_abbrev", t)); ex.oblige(st, f"{nm}: abbreviated name", ab == {"half": "f16", "float": "f32", "double": "f64"}.get(llvm, llvm))
        m = simp(run1(ex, st, "w_mangle", t)); ex.oblige(st, f"{nm}: mangling code is unique", isinstance(m, int) and m not in seen); seen[m] = 1
        sh = text(ex, st, run1(ex, st, "w_short", t)); ex.oblige(st, f"{nm}: short name", sh == {"bool": "bool", "s": f"i{w}", "u": f"u{w}", "p": "ptr", "f": f"f{w}"}[kind])
    for t in (0, 2, 12): ex.oblige(st, "types without values have size zero", eq(run1(ex, st, "w_size", t), 0, 32))
s.task("type tables", tables, "t")
OPS = {1: "add", 2: "mul", 3: "min", 4: "max", 5: "and", 6: "or"}
def identity(c):
    ex = mod(c); st = State()
    for t, (nm, kind, w, by, *_r) in T.items():
        for op, on in OPS.items():
            idv = bv(run1(ex, st, "w_identity", t, op), 64)
            if kind == "p" and on == "mul": continue
            ex.oblige(st, f"{nm} {on}: identity is a value of the type", domain(kind, w, idv))
            x = z3.BitVec("x", 64); t2 = st.copy(); t2.assume(domain(kind, w, x)); lo, i = z3.Extract(w - 1, 0, x), z3.Extract(w - 1, 0, idv)
            if on in ("and", "or"): g = ((i & lo) if on == "and" else (i | lo)) == lo
            elif kind == "f":
                F = FS[w]; a, b = z3.fpBVToFP(i, F), z3.fpBVToFP(lo, F); t2.assume(z3.Not(z3.fpIsNaN(b)))
                if on == "add": g = z3.fpEQ(z3.fpAdd(z3.RNE(), a, b), b)
                if on == "mul": g = z3.fpEQ(z3.fpMul(z3.RNE(), a, b), b)
                if on == "min": g = z3.fpEQ(z3.If(z3.fpLT(b, a), b, a), b)
                if on == "max": g = z3.fpEQ(z3.If(z3.fpLT(a, b), b, a), b)
            elif kind == "bool":
                g = {"add": (i | lo) == lo, "mul": (i & lo) == lo, "min": z3.If(z3.ULT(lo, i), lo, i) == lo, "max": z3.If(z3.ULT(i, lo), lo, i) == lo}[on]
            else:
                lt = (lambda a, b: a < b) if kind == "s" else z3.ULT
                g = {"add": i + lo == lo, "mul": i * lo == lo, "min": z3.If(lt(lo, i), lo, i) == lo, "max": z3.If(lt(i, lo), lo, i) == lo}[on]
            ex.oblige(t2, f"{nm} {on}: identity is neutral", g)
    c.cover(ex, st, "identities")
s.task("reduction identities", identity, "t")
def preds(c):
    ex = mod(c); st = State()
    P = {"is_arithmetic": lambda t, k, w: k not in ("bool", "void"), "is_float": lambda t, k, w: k == "f", "is_half": lambda t, k, w: k == "f" and w == 16, "is_single": lambda t, k, w: k == "f" and w == 32,
         "is_double": lambda t, k, w: k == "f" and w == 64, "is_bool": lambda t, k, w: k == "bool", "is_sint": lambda t, k, w: k == "s", "is_uint": lambda t, k, w: k == "u", "is_int": lambda t, k, w: k in "su",
         "is_b8": lambda t, k, w: k in ("s", "u") and w == 8, "is_void": lambda t, k, w: k == "void"}
    kinds = {0: ("void", "void", 0)}; kinds.update({t: v[:3] for t, v in T.items()})
    vk, lit = z3.BitVec("kind", 32), z3.BitVec("lit", 64)
    for t, (nm, k, w) in kinds.items():
        for p, f in P.items():
            if k == "p" and p == "is_arithmetic": continue
            ex.oblige(st, f"jitc_{p}({nm})", tobool(run1(ex, st, "w_" + p, t)) == z3.BoolVal(bool(f(t, k, w))))
            if p != "is_b8": ex.oblige(st, f"jitc_{p}(variable of type {nm})", tobool(run1(ex, st, "w_v_" + p, t, vk, lit)) == z3.BoolVal(bool(f(t, k, w))))
    c.cover(ex, st, "predicates")
s.task("type predicates", preds, "t")
def literals(c):
    """literal classification: for every variable kind and literal of the type"""
    LIT, CV = 3, None
    for t, (nm, kind, w, by, *_r) in T.items():
        ex = mod(c); st = State(); vk, lit = z3.BitVec("kind", 32), z3.BitVec("lit", 64)
        st.assume(domain(kind, w, lit)); st.assume(z3.ULT(vk, 200)); lo = z3.Extract(w - 1, 0, lit)
        isl = vk == LIT
        if kind == "f":
            F = FS[w]; v = z3.fpBVToFP(lo, F); fin = lambda q: z3.fpEQ(v, z3.FPVal(q, F))
            spec = {"is_zero": lo == 0, "is_any_zero": z3.fpIsZero(v), "is_one": fin(1.0), "is_min": z3.And(z3.fpIsInf(v), z3.fpIsNegative(v)), "is_max": z3.And(z3.fpIsInf(v), z3.fpIsPositive(v))}
        else:
            mn = z3.BitVecVal(1 << (w - 1), w) if kind == "s" else z3.BitVecVal(0, w)
            mx = z3.BitVecVal(mask(w - 1) if kind == "s" else mask(w), w)
            spec = {"is_zero": lo == 0, "is_any_zero": lo == 0, "is_one": lo == 1, "is_min": lo == mn, "is_max": lo == mx}
        for p, g in spec.items():
            for k, s2, r in ex.call(st.copy(), "w_v_" + p, [t, vk, lit]):
                if not ex.pv.feasible(s2.pc): continue
                # cooperative vector literals (kind CoopVecLiteral) may also be classified; all other kinds never are
                s3 = s2.copy(); s3.assume(isl); ex.oblige(s3, f"jitc_{p}({nm} literal)", tobool(r) == g)
                ex.oblige(s2, f"jitc_{p}({nm}): only for literals of that value", z3.Implies(tobool(r), g))
        c.cover(ex, st, nm)
s.task("literal predicates", literals, "t")
def canary(c):
    ex = mod(c); st = State()
    ex.oblige(st, "canary: size of int16", eq(run1(ex, st, "w_size", 5), 4, 32))
s.task("canary", canary, "t", kind="canary")
s.native("types.cpp", ["-fsanitize=address,undefined", "-fno-sanitize=vptr"])
if __name__ == "__main__": s.main()
