"""Shared specification of the CPU (prefix) reduction kernels and of the chunk decomposition (C07, C08, C09)."""
import re
from core import *
import tasks
OPS = {"Add": 1, "Mul": 2, "Min": 3, "Max": 4, "And": 5, "Or": 6}
# type -> (VarType, width, signed / float)
TYPES = {"UInt8": (4, 8, "u"), "Int32": (7, 32, "s"), "UInt32": (8, 32, "u"), "Int64": (9, 64, "s"), "UInt64": (10, 64, "u"),
         "Float16": (13, 16, "f"), "Float32": (14, 32, "f"), "Float64": (15, 64, "f")}
from run import _T
_IT = lambda w: _T("int", w)
_FT = lambda w: _T("float", w)
class Red:
    """element type T, accumulator type Value, operation op and identity (independent statement of the semantics)"""
    def __init__(s, ex, ty, op):
        s.ex, s.ty, s.op, s.st = ex, ty, op, None
        s.vt, s.w, s.kind = TYPES[ty]
        s.vw = 32 if s.w == 16 else s.w           # half precision accumulates in single precision
        if s.w == 16:
            s.h2f = z3.Function("h2f", z3.BitVecSort(16), z3.BitVecSort(32)); s.f2h = z3.Function("f2h", z3.BitVecSort(32), z3.BitVecSort(16))
            # contracts of the conversions (proved in C12): functions of the bits
            ex.contracts["drjit::half::float16_to_float32"] = lambda ex, st, a, i: s.h2f(bv(a[0], 16))
            ex.contracts["drjit::half::float32_to_float16"] = lambda ex, st, a, i: s.f2h(bv(a[0], 32))
    def ident(s):
        w, k = s.vw, s.kind
        f = lambda sg, e: z3.BitVecVal((sg << (w - 1)) | e, w)
        inf = {32: 0x7f800000, 64: 0x7ff0000000000000}
        one = {32: 0x3f800000, 64: 0x3ff0000000000000}
        if s.op in ("Add", "Or"): return z3.BitVecVal(0, w)
        if s.op == "Mul": return z3.BitVecVal(one[w] if k == "f" else 1, w)
        if s.op == "And": return z3.BitVecVal(mask(w), w)
        if s.op == "Min": return f(0, inf[w]) if k == "f" else z3.BitVecVal(mask(w) if k == "u" else mask(w - 1), w)
        if s.op == "Max": return f(1, inf[w]) if k == "f" else z3.BitVecVal(0 if k == "u" else 1 << (w - 1), w)
    def red(s, a, b):
        w, k, ex = s.vw, s.kind, s.ex
        if s.op == "Add": return ex.fbin("fadd", a, b, w) if k == "f" else a + b
        if s.op == "Mul" and w == 8: return z3.Extract(7, 0, bv(ex.binop("mul", z3.ZeroExt(24, a), z3.ZeroExt(24, b), _IT(32), s.st), 32))
        if s.op == "Mul": return ex.fbin("fmul", a, b, w) if k == "f" else bv(ex.binop("mul", a, b, _IT(w), s.st), w)
        if s.op == "And": return a & b
        if s.op == "Or": return a | b
        lt = (lambda x, y: ex.fcmp("olt", x, y, _FT(w))) if k == "f" else (lambda x, y: z3.ULT(x, y)) if k == "u" else (lambda x, y: x < y)
        if s.op == "Min": return z3.If(lt(b, a), b, a)
        return z3.If(lt(a, b), b, a)
    def red_t(s, a, b):
        """the operation on element values (half precision: computed in single precision and rounded)"""
        if s.w != 16: return s.red(a, b)
        if s.op in ("Add", "Mul"): return s.f2h(s.red(s.h2f(a), s.h2f(b)))
        p, q = (b, a) if s.op == "Min" else (a, b)
        return z3.If(tobool(s.ex.fcmp("olt", s.h2f(p), s.h2f(q), _FT(32))), b, a)
    def up(s, x): return s.h2f(x) if s.w == 16 else x
    def down(s, x): return s.f2h(x) if s.w == 16 else x
CT = {"unsigned char": (8, "u"), "int": (32, "s"), "unsigned int": (32, "u"), "long": (64, "s"), "unsigned long": (64, "u"), "float": (32, "f"), "double": (64, "f"), "drjit::half": (16, "h")}
def std_minmax(ex):
    """std::min(a, b) == (b < a) ? b : a and std::max(a, b) == (a < b) ? b : a (ISO C++; libstdc++ not re-verified)"""
    def mk(w, k, mn):
        def h(ex, st, a, ins):
            T = z3.BitVecSort(w)
            ty = _IT(w)
            x, y = bv(ex.load(st, a[0], ty), w), bv(ex.load(st, a[1], ty), w)
            p, q = (y, x) if mn else (x, y)
            H2F = z3.Function("h2f", z3.BitVecSort(16), z3.BitVecSort(32))
            lt = ex.fcmp("olt", p, q, _FT(w)) if k == "f" else ex.fcmp("olt", H2F(p), H2F(q), _FT(32)) if k == "h" else z3.ULT(p, q) if k == "u" else p < q
            r = ex.new_cells(st, w // 8, "minmax")
            ex.store(st, r, simp(z3.If(tobool(lt), y, x)), ty)
            return r
        return h
    for f in ex.mod.fns.values():
        m = re.match(r"(.*) const& std::(min|max)<(.*)>\(", f.dname)
        if m and m.group(1) == m.group(3) and m.group(1) in CT:
            ex.contracts[f.name] = mk(*CT[m.group(1)], m.group(2) == "min")
Z = lambda x: z3.ZeroExt(32, x)
def V(n): return z3.BitVec(n, 32)
def umin(a, b): return z3.If(z3.ULE(a, b), a, b)
def supported(ty, op): return not (TYPES[ty][2] == "f" and op in ("And", "Or"))

class Chunks:
    """work decomposition: ceil(size / bs) blocks of bs elements (the last may be partial), cpb = ceil(bs / cs) chunks per block
    of cs elements, cc chunks in total, work units of wus chunks.  Kernel precondition, for every chunk i < cc with
    block b = i / cpb and position c = i % cpb:  b * bs < size  and  c * cs < bs  (established by the caller, lemma 'chunks');
    for the work unit: index * wus < cc, index * wus + wus < 2^32"""
    def __init__(s, ex, st):
        s.ex = ex
        s.index, s.wus, s.size, s.bs, s.cs, s.cc, s.cpb = [V(n) for n in ("index", "wus", "size", "bs", "cs", "cc", "cpb")]
        for c in (z3.UGE(s.size, 1), z3.UGE(s.bs, 1), z3.ULE(s.bs, s.size), z3.UGE(s.wus, 1), z3.UGE(s.cs, 1), z3.ULE(s.cs, s.bs), z3.UGE(s.cpb, 1)): st.assume(c)
        s.first = ex.prod32(st, s.index, s.wus)
        st.assume(z3.ULT(s.first, Z(s.cc))); st.assume(z3.ULT(s.first + Z(s.wus), 1 << 32))
        s.last = umin(s.first + Z(s.wus), Z(s.cc))
    def named(s, ctx, st):
        """the loop's chunk index: the 32-bit induction variable equal to first + k"""
        for tg, nm in ctx.names.items():
            if s.ex.pv.prove(st.pc, Z(nm) == s.first + ctx.k, full=False)[0] == "proved":
                s.ex.oblige(st, "chunk index does not wrap around", Z(nm) == s.first + ctx.k)
                st.assume(Z(nm) == s.first + ctx.k)
                return nm
        return z3.simplify(z3.Extract(31, 0, s.first + ctx.k))
    def chunk(s, st, i32):
        """element range of chunk i32, with the facts that define it"""
        ex = s.ex
        i = Z(i32)
        b, c = ex.nl_divmod(st, i32, s.cpb, 32)
        pb, pc = ex.prod32(st, b, s.bs), ex.prod32(st, c, s.cs)
        st.assume(z3.Implies(z3.ULT(i, Z(s.cc)), z3.And(z3.ULT(pb, Z(s.size)), z3.ULT(pc, Z(s.bs)))))
        lo = pb + pc
        hi = umin(pb + umin(pc + Z(s.cs), Z(s.bs)), Z(s.size))
        return i, lo, hi
def outer(mod, fn, header):
    return not any(h != header.idx and header.idx in blks for h, blks in mod.loops(fn).items())
def record_kernel(ex, creator, nargs):
    """replace the kernel selected by `creator(vt, op)` by its contract: record the arguments of the call"""
    n = [f.name for f in ex.mod.fns.values() if re.match(r"_ZL\d+" + creator + r"(I.*)?7VarType", f.name)]
    assert len(n) == 1, n
    def create(ex, st, a, i):
        st.ghost["created"] = st.ghost.get("created", []) + [(a[0], a[1] if len(a) > 1 else None)]
        return FPtr("kernel!")
    def kern(ex, st, a, i): st.ghost["calls"] = st.ghost.get("calls", []) + [a]
    ex.contracts[n[0]] = create; ex.contracts["kernel!"] = kern
def samep(a, b): return isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and (a.off is b.off or conc(a.off) == conc(b.off))
def alloc_contract(ex):
    def mal(ex, st, a, i):
        p = ex.new_cells(st, bv(a[1], 64), "scratch")
        st.ghost["mallocs"] = st.ghost.get("mallocs", []) + [(p, bv(a[1], 64))]
        return p
    def fr(ex, st, a, i): st.ghost["frees"] = st.ghost.get("frees", []) + [a[0]]; st.ghost["subs_at_free"] = len(st.ghost.get("subs", []))
    ex.contracts["jitc_malloc"] = mal; ex.contracts["jitc_free"] = fr
def type_table(ex, st):
    """contents of type_size[] (proved in C20)"""
    p = ex.glob(st, "type_size"); o = st.wobj(p.obj); o.writable = True
    for i, v in enumerate([0, 1, 0, 1, 1, 2, 2, 4, 4, 8, 8, 8, 0, 2, 4, 8]): ex.store(st, Ptr(p.obj, 4 * i), v, I32)
    o = st.wobj(p.obj); o.writable = False
def eq_ceil(q, a, b):
    """q == ceil(a / b)"""
    return z3.And(z3.UGE(Z(q) * Z(b), Z(a)), z3.ULT(Z(q) * Z(b), Z(a) + Z(b)))
