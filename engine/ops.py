"""Semantics of the traced operations and contracts on the functions of src/op.cpp and src/var.cpp that create variables (C01, C02).
Every variable of the verified state has a denotation: an arbitrary lane's value, a bit-vector of its type's width."""
from core import *
from vars import *
from redspec import type_table
from run import _T
TY = {"Bool": (1, 1, "b"), "Int8": (3, 8, "s"), "UInt8": (4, 8, "u"), "Int16": (5, 16, "s"), "UInt16": (6, 16, "u"), "Int32": (7, 32, "s"), "UInt32": (8, 32, "u"),
      "Int64": (9, 64, "s"), "UInt64": (10, 64, "u"), "Float16": (13, 16, "f"), "Float32": (14, 32, "f"), "Float64": (15, 64, "f")}
VTN = {v[0]: k for k, v in TY.items()}
W = lambda t: TY[t][1]
K = lambda t: TY[t][2]
INTS = [t for t in TY if K(t) in "su"]; FLOATS = [t for t in TY if K(t) == "f"]; ARITH = INTS + FLOATS; ALL = list(TY)
F32s, F64s = z3.Float32(), z3.Float64()
RNE = z3.RNE()
def fpv(x, t): return x if z3.is_fp(x) else z3.fpBVToFP(bv(x, W(t)), FS[W(t)])
def val(x, t):
    """value in the precision the operation is computed in (half precision: single)"""
    x = fpv(x, t); return z3.fpFPToFP(RNE, x, F32s) if t == "Float16" else x
def rnd(y, t):
    """rounding of a computed value to the type"""
    return z3.fpFPToFP(RNE, y, FS[W(t)]) if y.sort() != FS[W(t)] else y
SQ = z3.Function("sqrt64", F64s, F64s)
def sqrt_(y):
    """square root of a single/double precision value. float(sqrt64(double(x))) is the correctly rounded single precision root (double rounding is innocuous for sqrt)"""
    return SQ(y) if y.sort() == F64s else z3.fpFPToFP(RNE, SQ(z3.fpFPToFP(RNE, y, F64s)), F32s)
UF_ = {(n, s): z3.Function(f"{n}{s.ebits() + s.sbits()}", s, s) for n in ("sin", "cos", "exp2", "log2", "tanh", "rcpa", "rsqrta", "sqrta") for s in (F32s, F64s)}
DIVA = {s: z3.Function(f"diva{s.ebits() + s.sbits()}", s, s, s) for s in (F32s, F64s)}
def un(n, y): return UF_[(n, y.sort())](y)
def signbit(x, t): return z3.Extract(W(t) - 1, W(t) - 1, x) == 1
def bit(c): return z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
# fma: an uninterpreted function with its defining IEEE facts for the neutral operands (instances assumed where used; proved separately for half and single precision)
FMA = {s: z3.Function(f"fma{s.ebits() + s.sbits()}", s, s, s, s) for s in (F32s, F64s)}
def fma(a, b, c): return FMA[a.sort()](a, b, c)
def fma_facts(a, b, c):
    r = fma(a, b, c); one = z3.FPVal(1.0, a.sort()); m = z3.fpMul(RNE, a, b)
    return [z3.Implies(a == one, r == z3.fpAdd(RNE, b, c)), z3.Implies(b == one, r == z3.fpAdd(RNE, a, c)),
            z3.Implies(z3.fpIsZero(c), z3.Or(r == m, z3.And(z3.fpIsZero(r), z3.fpIsZero(m)))),
            z3.Implies(z3.And(z3.fpIsZero(a), z3.fpIsZero(b)), z3.Or(r == c, z3.And(z3.fpIsZero(r), z3.fpIsZero(c))))]
def popc(a):
    w = a.size(); r = z3.BitVecVal(0, w)
    for i in range(w): r = r + (z3.ZeroExt(w - 1, z3.Extract(i, i, a)) if w > 1 else z3.Extract(i, i, a))
    return r
def clz(a):
    w = a.size(); r = z3.BitVecVal(w, w)
    for i in range(w): r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(w - 1 - i, w), r)
    return r
def ctz(a):
    w = a.size(); r = z3.BitVecVal(w, w)
    for i in reversed(range(w)): r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(i, w), r)
    return r
def brev(a): return z3.Concat(*[z3.Extract(i, i, a) for i in range(a.size())])
def conv(x, s, t):
    """value conversion; result: ('fp', term) or ('bv', term)"""
    ks, kt = K(s), K(t); ws, wt = W(s), W(t)
    if s == t: return x
    if kt == "b": return bit(z3.Not(z3.fpIsZero(fpv(x, s)))) if ks == "f" else bit(bv(x, ws) != 0)
    if kt == "f":
        if ks == "f":
            y = fpv(x, s)
            if "Float16" in (s, t): y = z3.fpFPToFP(RNE, y, F32s)        # conversions from and to half precision go through single precision
            return rnd(y, t)
        x = bv(x, ws); cs = F32s if t == "Float16" else FS[wt]
        if ks == "b": x = z3.ZeroExt(31, x)
        return rnd(z3.fpUnsignedToFP(RNE, x, cs) if ks in "ub" else z3.fpSignedToFP(RNE, x, cs), t)
    if ks == "f":
        y = val(x, s)
        return z3.fpToSBV(z3.RTZ(), y, z3.BitVecSort(wt)) if kt == "s" else z3.fpToUBV(z3.RTZ(), y, z3.BitVecSort(wt))
    x = bv(x, ws)
    return z3.Extract(wt - 1, 0, x) if wt <= ws else z3.SignExt(wt - ws, x) if ks == "s" else z3.ZeroExt(wt - ws, x)
def convertible(x, s, t):
    """the conversion of this value is defined"""
    if K(s) != "f" or K(t) == "f": return z3.BoolVal(True)
    y = val(x, s)
    if K(t) == "b": return z3.BoolVal(True)          # NaN is not zero
    y = z3.fpRoundToIntegral(z3.RTZ(), y); w = W(t); so = y.sort()
    lo, hi = (0, 2 ** w) if K(t) == "u" else (-2 ** (w - 1), 2 ** (w - 1))
    if s == "Float16" and hi > 65504: return z3.And(z3.Not(z3.fpIsNaN(y)), z3.Not(z3.fpIsInf(y)), z3.fpGEQ(y, z3.FPVal(lo if lo == 0 else -65504.0, so)))
    return z3.And(z3.fpGEQ(y, z3.FPVal(float(lo), so)), z3.fpLT(y, z3.FPVal(float(hi), so)))
ROUND = {"Ceil": z3.RTP(), "Floor": z3.RTN(), "Round": z3.RNE(), "Trunc": z3.RTZ()}
CMPF = {"Eq": z3.fpEQ, "Neq": z3.fpNEQ, "Lt": z3.fpLT, "Le": z3.fpLEQ, "Gt": z3.fpGT, "Ge": z3.fpGEQ}
def minmax(op, x, y, t):
    """IEEE-754 minimum / maximum / minNum / maxNum on a float type (bit patterns)"""
    a, b = fpv(x, t), fpv(y, t); lt = z3.fpLT(a, b) if op in ("Min", "FMin") else z3.fpGT(a, b); gt = z3.fpLT(b, a) if op in ("Min", "FMin") else z3.fpGT(b, a)
    neg = signbit(x, t) if op in ("Min", "FMin") else z3.Not(signbit(x, t))
    core = z3.If(lt, a, z3.If(gt, b, z3.If(neg, a, b)))
    na, nb = z3.fpIsNaN(a), z3.fpIsNaN(b)
    return z3.If(z3.Or(na, nb), z3.fpNaN(a.sort()), core) if op in ("Min", "Max") else z3.If(na, b, z3.If(nb, a, core))
def num_same(x, y): return z3.Or(x == y, z3.And(z3.fpIsZero(x), z3.fpIsZero(y)))
def exact(k, rt, ts, a):
    """meaning of a node of kind k (result type rt, operand types ts): term (bit pattern) or FP term of sort rt"""
    t = ts[0]; f = K(t) == "f"; w = W(t); x = a[0]; sg = K(t) == "s"
    y = a[1] if len(a) > 1 else None
    v = lambda i: val(a[i], ts[i])
    if k in ROUND and K(rt) != "f": return conv(z3.fpRoundToIntegral(ROUND[k], val(x, t)), "Float64" if t == "Float64" else "Float32", rt)
    if k == "Neg": return z3.fpNeg(fpv(x, t)) if f else -x
    if k == "Not": return ~x
    if k == "Abs": return z3.fpAbs(fpv(x, t)) if f else z3.If(x < 0, -x, x) if sg else x
    if k == "Sqrt": return rnd(sqrt_(v(0)), t)
    if k in ("Add", "Sub", "Mul", "Div") and f: return rnd({"Add": z3.fpAdd, "Sub": z3.fpSub, "Mul": z3.fpMul, "Div": z3.fpDiv}[k](RNE, v(0), v(1)), t)
    if k == "Add": return x + y
    if k == "Sub": return x - y
    if k == "Mul": return x * y
    if k in ("Div", "Mod"):        # small integers: computed in 32 bit (same value; the form that the compiled code has)
        if w < 32: e = lambda q: z3.SignExt(32 - w, q) if sg else z3.ZeroExt(32 - w, q); x, y = e(x), e(y)
        sg = sg or w < 32
        r = (x / y if sg else z3.UDiv(x, y)) if k == "Div" else z3.SRem(x, y) if sg else z3.URem(x, y)
        return z3.Extract(w - 1, 0, r) if w < 32 else r
    if k in ("MulHi", "MulWide"):
        e = (lambda q: z3.SignExt(w, q)) if sg else (lambda q: z3.ZeroExt(w, q)); p = e(x) * e(y)
        return z3.Extract(2 * w - 1, w, p) if k == "MulHi" else p
    if k == "Fma": return rnd(fma(v(0), v(1), v(2)), t) if f else x * y + a[2]
    if k in ("Min", "Max", "FMin", "FMax"):
        if f: return minmax(k, x, y, t)
        lt = (x < y) if sg else z3.ULT(x, y)
        return z3.If(lt, x, y) if k in ("Min", "FMin") else z3.If(lt, y, x)
    if k == "Copysign":
        if f: return fpv(z3.Concat(z3.Extract(w - 1, w - 1, y), z3.Extract(w - 2, 0, x)), t)
        if not sg: return x
        p = z3.If(x < 0, -x, x); return z3.If(y < 0, -p, p)
    if k in ROUND: return rnd(z3.fpRoundToIntegral(ROUND[k], v(0)), t)
    if k in CMPF:
        if f: return bit(CMPF[k](v(0), v(1)))
        lt, le = ((x < y), (x <= y)) if sg else (z3.ULT(x, y), z3.ULE(x, y))
        return bit({"Eq": x == y, "Neq": x != y, "Lt": lt, "Le": le, "Gt": z3.Not(le), "Ge": z3.Not(lt)}[k])
    if k == "Select": return z3.If(x == 1, a[1], a[2])
    if k == "Popc": return popc(x)
    if k == "Clz": return clz(x)
    if k == "Ctz": return ctz(x)
    if k == "Brev": return brev(x)
    if k in ("And", "Or", "Xor"):
        if len(ts) > 1 and ts[1] == "Bool" and t != "Bool": y = z3.SignExt(w - 1, y)
        return x & y if k == "And" else x | y if k == "Or" else x ^ y
    if k == "Shl": return x << y
    if k == "Shr": return x >> y if sg else z3.LShR(x, y)
    if k == "Rcp": return rnd(z3.fpDiv(RNE, z3.FPVal(1.0, v(0).sort()), v(0)), t)
    if k in ("Sin", "Cos", "Exp2", "Log2", "Tanh"): return rnd(un(k.lower(), v(0)), t)
    if k == "RcpApprox": return rnd(un("rcpa", v(0)), t)
    if k == "SqrtApprox": return rnd(un("sqrta", v(0)), t)
    if k == "RSqrtApprox": return rnd(un("rsqrta", v(0)), t)
    if k == "DivApprox": return rnd(DIVA[v(0).sort()](v(0), v(1)), t)
    if k == "Cast": return conv(x, t, rt)
    if k == "Bitcast": return x if W(t) == W(rt) else None
    raise Unsupported(f"no meaning for node kind {k}")
def matches(v, term, rt):
    """bit pattern v of type rt is the value (NaN payloads are not part of the meaning)"""
    if z3.is_fp(term): return fpv(v, rt) == term
    return z3.And(v == term) if K(rt) != "f" else z3.Or(v == term, fpv(v, rt) == fpv(term, rt))
def rel(op, rt, ts, a, fm, litmask, strict=False):
    """what the variable returned by the traced operation may denote: predicate on its bit pattern.
    fm: fast math enabled (Bool), litmask: per operand, Bool 'is a literal and constants are propagated'"""
    t = ts[0]; f = K(t) == "f"
    M = lambda v, term: matches(v, term, rt)
    E = lambda k, ts=ts, a=a: exact(k, rt, ts, a)
    f32 = t == "Float32"        # approximate square roots and divisions exist in single precision only
    if op == "Rsqrt":
        v0 = val(a[0], t); one = z3.FPVal(1.0, v0.sort())
        rc = [rnd(z3.fpDiv(RNE, one, v0), t)]; rca = [rnd(un("rcpa", v0), t)] + ([DIVA[v0.sort()](one, v0)] if f32 else [])
        sq = lambda y: [rnd(sqrt_(val(y, t)), t)]
        sqa = lambda y: [rnd(un("sqrta", val(y, t)), t)] if f32 else []
        ok = [rnd(z3.fpDiv(RNE, one, sqrt_(v0)), t), *sq(rc[0])]; approx = ([rnd(un("rsqrta", v0), t)] if f32 else []) + sqa(rc[0]) + [x for y in rca for x in sq(y) + sqa(y)]
        return lambda v: z3.Or(*[M(v, x) for x in ok], z3.And(fm, z3.Or(*[M(v, x) for x in approx])) if not strict else False)
    if not f or strict and op not in ("FMin", "FMax"): return lambda v: M(v, E(op))
    if op in ("Add", "Sub", "Fma"):
        def p(v):
            r = num_same(fpv(v, rt), E(op))
            if op == "Fma": r = z3.Or(r, z3.And(fm, z3.Or(z3.fpIsZero(fpv(a[0], t)), z3.fpIsZero(fpv(a[1], t))), num_same(fpv(v, rt), fpv(a[2], t))))
            return r
        return p
    if op in ("FMin", "FMax"): return lambda v: num_same(fpv(v, rt), E(op))
    if op == "Mul": return lambda v: z3.Or(M(v, E(op)), z3.And(fm, z3.Or(z3.fpIsZero(fpv(a[0], t)), z3.fpIsZero(fpv(a[1], t))), z3.fpIsZero(fpv(v, rt))))
    if op == "Div":
        rc = E("Rcp", ts[1:], a[1:]); y1 = val(a[1], ts[1]); rcs = [(rc, z3.BoolVal(True)), (E("RcpApprox", ts[1:], a[1:]), fm)] + ([(DIVA[y1.sort()](z3.FPVal(1.0, y1.sort()), y1), fm)] if f32 else [])
        byrec = [z3.And(c, z3.Or(M(v_, rnd(z3.fpMul(RNE, val(a[0], t), val(q, t)), t)), z3.And(fm, z3.Or(z3.fpIsZero(fpv(a[0], t)), z3.fpIsZero(q)), z3.fpIsZero(fpv(v_, rt))))) for v_ in [z3.BitVec("v!", W(rt))] for q, c in rcs]
        def p(v): return z3.Or(M(v, E("Div")), z3.And(fm, M(v, E("DivApprox"))) if f32 else False, z3.And(litmask[1], z3.substitute(z3.Or(*byrec), (z3.BitVec("v!", W(rt)), v))))
        return p
    if op in ("Rcp", "Sqrt"):
        ap = [E("RcpApprox")] if op == "Rcp" else [E("SqrtApprox")] if f32 else []
        if op == "Rcp" and f32: ap.append(rnd(DIVA[val(a[0], t).sort()](z3.FPVal(1.0, val(a[0], t).sort()), val(a[0], t)), t))
        return lambda v: z3.Or(M(v, E(op)), z3.And(fm, z3.Or(*[M(v, x) for x in ap])))
    return lambda v: M(v, E(op))
def defined(op, rt, ts, a):
    """operand values for which the operation has a specified result"""
    if op in ("Div", "Mod") and K(ts[0]) != "f": return a[1] != 0
    if op in ("Shl", "Shr"): return z3.ULT(a[1], W(ts[0]))
    if op == "Cast": return convertible(a[0], ts[0], rt)
    return z3.BoolVal(True)
# operation -> (function of src/op.cpp, operand count, operand types, result type)
same = lambda t: t
OPS = {}
def o(name, fn, n, tys, res=same, args=None): OPS[name] = (fn, n, tys, res, args)
for n, f in (("Neg", "neg"), ("Abs", "abs")): o(n, f, 1, ARITH)
o("Not", "not", 1, ALL)
for n, f in (("Sqrt", "sqrt"), ("Rcp", "rcp"), ("Rsqrt", "rsqrt"), ("Ceil", "ceil"), ("Floor", "floor"), ("Round", "round"), ("Trunc", "trunc")): o(n, f, 1, FLOATS)
for n in ("Sin", "Cos", "Exp2", "Log2", "Tanh"): o(n, n.lower() + "_intrinsic", 1, FLOATS)
for n in ("Add", "Sub", "Mul", "Div", "Min", "Max", "FMin", "FMax", "Copysign"): o(n, n.lower(), 2, ARITH)
o("Mod", "mod", 2, INTS)
o("MulHi", "mul_hi", 2, ["Int32", "UInt32", "Int64", "UInt64"]); o("MulWide", "mul_wide", 2, ["Int32", "UInt32"], lambda t: t.replace("32", "64"))
o("Fma", "fma", 3, ARITH)
for n in ("Eq", "Neq", "Lt", "Le", "Gt", "Ge"): o(n, n.lower(), 2, ALL, lambda t: "Bool")
o("Select", "select", 3, ALL, args=lambda t: ["Bool", t, t])
for n in ("Popc", "Clz", "Ctz", "Brev"): o(n, n.lower(), 1, INTS)
for n in ("And", "Or", "Xor"): o(n, n.lower(), 2, ALL)
for n in ("Shl", "Shr"): o(n, n.lower(), 2, INTS)
FNOP = {f"jitc_var_{v[0]}": k for k, v in OPS.items()}
ARGT = lambda op, t: OPS[op][4](t) if OPS[op][4] else [t] * OPS[op][1]
MAXV = {}; MINV = {}
for _t, (_vt, _w, _k) in TY.items():
    MAXV[_vt] = {"b": 1, "u": mask(_w), "s": mask(_w - 1), "f": {16: 0x7c00, 32: 0x7f800000, 64: 0x7ff0000000000000}.get(_w)}[_k]
    MINV[_vt] = {"b": 0, "u": 0, "s": 1 << (_w - 1), "f": (1 << (_w - 1)) | MAXV[_vt]}[_k]
def leaves(k):
    k = simp(k) if is_sym(k) else k
    if isinstance(k, int): return [(k, z3.BoolVal(True))]
    if z3.is_app(k) and k.decl().kind() == z3.Z3_OP_ITE: return [(v, z3.And(k.arg(0), c)) for v, c in leaves(k.arg(1))] + [(v, z3.And(z3.Not(k.arg(0)), c)) for v, c in leaves(k.arg(2))]
    raise Unsupported("symbolic node kind")
class Ops:
    def __init__(s, c, ex, st):
        s.c, s.ex = c, ex; ex.raw_float = True
        for f in ex.mod.fns.values():
            d = f.dname.split("(")[0]
            if d.startswith("StringBuffer::"): ex.contracts[f.name] = (lambda ex, st, a, i: ex.new_cells(st, 16, "text")) if d.endswith("::get") else (lambda ex, st, a, i: None)
            if d in ("jitc_fail", "jitc_raise_consumed_error", "jitc_raise_dirty_error"): ex.contracts[f.name] = lambda ex, st, a, i: RAISE
        V_ = s.V = Vars(ex, st)
        C = ex.contracts
        get = lambda n: bv(ex.call(State(), n, [])[0][2], 32)
        s.kinds = {}; s.knum = {}
        for f in ex.mod.fns.values():
            if f.name.startswith("w_kind_"): n = ex.call(State(), f.name, [])[0][2]; s.kinds[n] = f.name[7:]; s.knum[f.name[7:]] = n
        type_table(ex, st)
        s.flags = z3.BitVec("jit_flags", 32)
        s.cp = (s.flags & get("w_flag_cp")) != 0; s.fm = (s.flags & get("w_flag_fm")) != 0
        by = lambda d: [f.name for f in ex.mod.fns.values() if f.dname.split("(")[0] == d]
        for d in ("jitc_flags", "jit_flags"):
            for n in by(d): C[n] = lambda ex, st, a, i: s.flags
        for n in by("jitc_var_literal"): C[n] = s.c_literal
        for k in (1, 2, 3):
            for n in by(f"jitc_var_new_node_{k}"): C[n] = lambda ex, st, a, i, k=k: s.c_node(st, a, k)
        for n in by("jitc_var_resize"): C[n] = s.c_resize
        for n in by("jitc_is_max"): C[n] = lambda ex, st, a, i: s.c_minmax(st, a[0], MAXV)
        for n in by("jitc_is_min"): C[n] = lambda ex, st, a, i: s.c_minmax(st, a[0], MINV)
        for n in by("jitc_var_new_ref"): C[n] = s.c_new_ref
        for fn, op in FNOP.items():
            for n in by(fn): C[n] = lambda ex, st, a, i, op=op: s.c_op(st, a, op)
        for n in by("jitc_var_cast"): C[n] = s.c_cast
        C["__cxa_allocate_exception"] = lambda ex, st, a, i: ex.new_cells(st, 64, "exception")
        C["__cxa_throw"] = lambda ex, st, a, i: RAISE
        C["__cxa_free_exception"] = lambda ex, st, a, i: None
        for n in ex.mod.fns.values():
            if n.dname.startswith("std::runtime_error::"): C[n.name] = lambda ex, st, a, i: None
            if n.dname.startswith("drjit::half::float16_to_float32("): C[n.name] = s.c_h2f
            if n.dname.startswith("drjit::half::float32_to_float16("): C[n.name] = s.c_f2h
        for nm in ("sin", "cos", "exp2", "log2", "tanh"):
            C[nm + "f"] = lambda ex, st, a, i, nm=nm: un(nm, tofp(a[0], 32)); C[nm] = lambda ex, st, a, i, nm=nm: un(nm, tofp(a[0], 64))
        old = ex.fintr
        def fintr(op, a, ty):
            if ty.k == "float" and op == "sqrt": return sqrt_(tofp(a[0], ty.w))
            if ty.k == "float" and op in ("sin", "cos", "exp2", "log2"): return un(op, tofp(a[0], ty.w))
            if ty.k == "float" and op == "fma":
                return fma(*[tofp(x, ty.w) for x in a])
            if ty.k == "float" and op == "copysign":
                w = ty.w; x, y = bv(a[0], w), bv(a[1], w); return z3.Concat(z3.Extract(w - 1, w - 1, y), z3.Extract(w - 2, 0, x))
            return old(op, a, ty)
        ex.fintr = fintr
        ex.loopspecs.append(("", lambda fn, h: LoopSpec(mode="unroll", unroll=80)))      # loops over the operands / bits of a literal: fully unrolled (the exit condition must be reached)
        st.ghost["den"] = {}; st.ghost["held"] = {}
    # ---- state access
    def fld(s, st, i, n):
        r = s.ex.call(st.copy(), "w_field_" + n, [s.V.ptr(st, i)]); assert len(r) == 1; return bv(r[0][2], 64 if n == "literal" else 32)
    def ty(s, st, i):
        v = conc(simp(s.fld(st, i, "type")))
        if v is None or v not in VTN: raise Unsupported("operand type is not concrete")
        return VTN[v]
    def den(s, st, i): return st.ghost["den"][s.V.key(i)]
    def setden(s, st, i, v): d = dict(st.ghost["den"]); d[s.V.key(i)] = v; st.ghost["den"] = d
    def hold(s, st, *ids):
        h = dict(st.ghost["held"])
        for i in ids: h[s.V.key(i)] = h.get(s.V.key(i), 0) + 1
        st.ghost["held"] = h
    def live(s, st, i, what):
        """a variable created during the operation may only be used while a reference is held"""
        k = s.V.key(i)
        if s.V.made(st, i) is not None and st.ghost["refs"].get(k, 0) <= 0 and not st.ghost["held"].get(k, 0): s.ex.oblige(st, f"{what}: no variable is used after its last reference was released", False)
    def opaque(s, st, name, t, be, size, **kw):
        """operand: any kind. A literal's payload is its value (zero-extended), a non-literal's value is arbitrary"""
        kind, lit, sym = z3.BitVec(name + ".kind", 32), z3.BitVec(name + ".literal", 64), z3.BitVec(name + ".symbolic", 32)
        st.assume(z3.And(z3.UGE(kind, 1), z3.ULT(kind, 100), z3.ULE(sym, 1), kind != s.knum["CoopVecLiteral"]))
        i = s.V.mk(st, name, kind=kind, type=TY[t][0], backend=be, size=size, literal=lit, symbolic=sym, **kw)
        d = z3.BitVec(name + ".value", W(t)); st.assume(z3.Implies(kind == s.knum["Literal"], lit == (z3.ZeroExt(64 - W(t), d) if W(t) < 64 else d)))
        if K(t) == "f": pass
        s.setden(st, i, d); st.ghost.setdefault("vals", {})
        return i, kind, d
    def new(s, st, what, t, be, size, d, lit=None, kind=None, symbolic=0, move=True):
        i = s.V.create(st, what, may_move=move, kind=kind if kind is not None else fresh("kind", 32), type=TY[t][0], backend=be, size=size, literal=lit if lit is not None else fresh("payload", 64), symbolic=symbolic)
        s.setden(st, i, d); return i
    # ---- contracts
    def c_f2h(s, ex, st, a, i):
        v = fresh("f2h", 16); f = tofp(a[0], 32); st.assume(fpv(v, "Float16") == z3.fpFPToFP(RNE, f, FS[16]))
        if not z3.is_fp(a[0]) : st.assume(z3.Extract(15, 15, v) == z3.Extract(31, 31, bv(a[0], 32)))
        return v
    def c_h2f(s, ex, st, a, i):
        h = bv(a[0], 16); r = z3.fpFPToFP(RNE, fpv(h, "Float16"), F32s); v = fresh("h2f", 32)
        st.assume(fpv(v, "Float32") == r); st.assume(z3.Extract(15, 15, h) == z3.Extract(31, 31, v)); return v
    def c_new_ref(s, ex, st, a, i):
        s.live(st, a[0], "jitc_var_new_ref"); s.V.ref(st, a[0], 1); return a[0]
    def c_minmax(s, st, p, tab):
        for k, (i, q) in st.ghost["vars"].items():
            if q.obj == p.obj: return z3.And(s.fld(st, i, "kind") == s.knum["Literal"], s.fld(st, i, "literal") == tab[TY[s.ty(st, i)][0]])
        s.ex.oblige(st, "jitc_is_min/max: valid record", False); raise Abort()
    def c_literal(s, ex, st, a, i):
        vt = conc(simp(bv(a[1], 32)))
        if vt not in VTN: raise Unsupported("literal of symbolic type")
        t = VTN[vt]; w = W(t); size = simp(bv(a[3], 64))
        x = bv(ex.load(st, a[2], _T("int", max(8, w))), max(8, w))
        if t == "Bool": ex.oblige(st, "a boolean literal is 0 or 1", z3.ULE(x, 1)); x = z3.Extract(0, 0, x)
        ex.oblige(st, "literals are not evaluated right away", eq(a[4], 0, 32))
        x = simp(x) if is_sym(x) else x; x = bv(x, w)
        if conc(size) == 0: return 0
        ex.oblige(st, "variable size fits", z3.ULE(bv(size, 64), 0xffffffff))
        return s.new(st, "literal", t, bv(a[0], 32), z3.Extract(31, 0, bv(size, 64)), x, lit=z3.ZeroExt(64 - w, x) if w < 64 else x, kind=s.knum["Literal"])
    def c_node(s, st, a, n):
        ex = s.ex; be, kind, vt, size, sym = [bv(x, 32) if not isinstance(x, bool) and not z3.is_bool(x) else x for x in a[:5]]
        vt = conc(simp(vt))
        if vt not in VTN: raise Unsupported("node of symbolic type")
        rt = VTN[vt]; ids = [a[5 + 2 * k] for k in range(n)]; ps = [a[6 + 2 * k] for k in range(n)]; ts, ds = [], []
        for i, p in zip(ids, ps):
            k = s.V.key(i)
            if k not in st.ghost["vars"]: ex.oblige(st, "operand of a new node is a live variable", False); raise Abort()
            s.live(st, i, "new node")
            q = s.V.ptr(st, i); ok = isinstance(p, Ptr) and p.obj == q.obj and conc(p.off) == conc(q.off)
            ex.oblige(st, "node creation receives the current record of every operand", ok)
            if not ok: raise Abort()
            sz = s.fld(st, i, "size"); ex.oblige(st, "operand size is compatible with the node", z3.Or(sz == 1, sz == size))
            ts.append(s.ty(st, i)); ds.append(s.den(st, i))
            ex.oblige(st, "operand and node belong to the same backend", s.fld(st, i, "backend") == be)
            ex.oblige(st, "nodes of symbolic operands are symbolic", z3.Implies(s.fld(st, i, "symbolic") == 1, tobool(sym) if not isinstance(sym, int) else z3.BoolVal(bool(sym))))
        v = fresh("node", W(rt))
        try: lv = leaves(kind)
        except Unsupported:      # the kind of an existing node
            lv = [(s.knum[k], kind == s.knum[k]) for k in ROUND]; ex.oblige(st, "only rounding nodes are reused with another result type", z3.Or(*[x for _, x in lv]))
        for kv, cond in lv:
            kn = s.kinds.get(kv)
            if kn is None: raise Unsupported(f"unexpected node kind {kv}")
            term = exact(kn, rt, ts, ds)
            if term is None: ex.oblige(st, "bit casts relate types of the same size", z3.Not(cond)); continue
            if kn == "Fma" and K(rt) == "f": [st.assume(x) for x in fma_facts(*[val(d, t) for d, t in zip(ds, ts)])]
            s.check_types(st, kn, rt, ts, cond)
            if not z3.is_fp(term) and K(rt) != "f" and z3.is_true(cond): v = term
            else: st.assume(z3.Implies(cond, matches(v, term, rt)))
        s.hold(st, *ids)
        kd = simp(kind); return s.new(st, "node", rt, be, size, v, kind=kind, symbolic=z3.If(tobool(sym), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)) if not isinstance(sym, int) else int(sym))
    def check_types(s, st, kn, rt, ts, cond):
        """the node is well typed"""
        if kn in OPS:
            n = OPS[kn][1]; t = ts[1] if kn == "Select" else ts[0]
            ok = len(ts) == n and t in OPS[kn][2] and (rt == OPS[kn][3](t) or kn in ROUND and K(rt) in "us") and (ts == ARGT(kn, t) or kn in ("And", "Or") and ts[1] == "Bool")
            s.ex.oblige(st, f"{kn} nodes are well typed", z3.Or(z3.Not(cond), z3.BoolVal(ok)))
    def c_resize(s, ex, st, a, i):
        s.live(st, a[0], "jitc_var_resize")
        size = z3.Extract(31, 0, bv(a[1], 64)); sz = s.fld(st, a[0], "size"); kd = s.fld(st, a[0], "kind"); t = s.ty(st, a[0])
        ex.oblige(st, "only scalars and literals are resized", z3.Or(sz == size, sz == 1, kd == s.knum["Literal"]))
        ex.oblige(st, "variable size fits", z3.ULE(bv(a[1], 64), 0xffffffff))
        if s.ex.pv.prove(st.pc, sz == size, full=False)[0] == "proved": s.V.ref(st, a[0], 1); return a[0]
        if s.V.made(st, a[0]) is None: ex.oblige(st, "operands are not resized in place (an extra reference is held)", z3.Or(sz == size, kd == s.knum["Evaluated"], z3.BoolVal(s.V.delta(st, a[0]) >= 1)))
        be = s.fld(st, a[0], "backend"); d = s.den(st, a[0]); s.hold(st, a[0])
        k2 = fresh("kind", 32); st.assume(z3.Implies(kd == s.knum["Literal"], k2 == s.knum["Literal"]))
        return s.new(st, "resized", t, be, size, d, lit=s.fld(st, a[0], "literal"), kind=k2, symbolic=s.fld(st, a[0], "symbolic"))
    def c_op(s, st, a, op):
        return s.relation(st, list(a[:OPS[op][1]]), op, None)
    def c_cast(s, ex, st, a, i):
        vt = conc(simp(bv(a[1], 32))); r = conc(simp(bv(a[2], 32)))
        if vt not in VTN or r is None: raise Unsupported("symbolic cast")
        if conc(simp(a[0]) if is_sym(a[0]) else a[0]) == 0: return 0
        return s.relation(st, [a[0]], "Bitcast" if r else "Cast", VTN[vt])
    def relation(s, st, ids, op, rt):
        """contract of another traced operation (its own body is verified against the same relation)"""
        ex = s.ex
        zero = [conc(simp(i) if is_sym(i) else i) == 0 for i in ids]
        if any(zero): return 0 if all(zero) else RAISE      # empty operands (proved in 'empty operands')
        for i in ids:
            if s.V.key(i) not in st.ghost["vars"]: ex.oblige(st, f"operands of {op} are live variables", False); raise Abort()
            s.live(st, i, op)
        ts = [s.ty(st, i) for i in ids]; ds = [s.den(st, i) for i in ids]; t = ts[1] if op == "Select" else ts[0]
        sizes = [s.fld(st, i, "size") for i in ids]; size = sizes[0]
        for x in sizes[1:]: size = z3.If(z3.ULT(size, x), x, size)
        for x in sizes: ex.oblige(st, f"operands of {op} have compatible sizes", z3.Or(x == 1, x == size))
        be = s.fld(st, ids[0], "backend")
        for i in ids[1:]: ex.oblige(st, f"operands of {op} belong to one backend", s.fld(st, i, "backend") == be)
        if rt is None: rt = OPS[op][3](t); s.check_types(st, op, rt, ts, z3.BoolVal(True))
        if op == "Bitcast" and W(ts[0]) != W(rt): ex.oblige(st, "bit casts relate types of the same size", False); raise Abort()
        lits = [z3.And(s.cp, s.fld(st, i, "kind") == s.knum["Literal"]) for i in ids]
        f = any(K(x) == "f" for x in ts + [rt])
        if not f or op in ("Bitcast", "Cast") and not z3.is_fp(exact(op, rt, ts, ds)): v = exact(op, rt, ts, ds)
        elif op in ("Bitcast", "Cast"): v = fresh(op, W(rt)); st.assume(matches(v, exact(op, rt, ts, ds), rt))
        else:
            v = fresh(op, W(rt)); st.assume(z3.Implies(defined(op, rt, ts, ds), rel(op, rt, ts, ds, s.fm, lits)(v)))
            if op == "Fma": [st.assume(x) for x in fma_facts(*[val(d, t) for d, t in zip(ds, ts)])]
        s.hold(st, *ids)
        # constant folding: literal operands yield a literal (C02)
        isl = z3.And(s.cp, *lits); kind = fresh("kind", 32); lit = fresh("lit", 64)
        if op != "Rsqrt": st.assume(z3.Implies(isl, z3.And(kind == s.knum["Literal"], lit == (z3.ZeroExt(64 - W(rt), v) if W(rt) < 64 else v))))
        sym = fresh("symbolic", 32); st.assume(z3.And(z3.ULE(sym, 1), z3.Implies(sym == 1, z3.Or(*[s.fld(st, i, "symbolic") == 1 for i in ids]))))
        return s.new(st, op, rt, be, size, v, kind=kind, lit=lit, symbolic=sym)
