"""contracts of the functions called by the variable-level reductions of src/var.cpp (C07, C08)"""
from core import *
from redspec import *
from vars import *
from run import _T
def var_contracts(ex, st, V_):
    """contracts of the functions called by jitc_var_reduce / jitc_var_block_reduce"""
    C = ex.contracts
    def by(d):
        r = [f.name for f in ex.mod.fns.values() if f.dname.split("(")[0] == d]; assert r, d; return r
    S = {op: z3.Function("S" + op, z3.BitVecSort(32), z3.BitVecSort(32), z3.BitVecSort(64), z3.BitVecSort(64)) for op in ("add", "mul")}   # contracts proved in 'literal sums/products'
    for op in S:
        def scal(ex, st, a, i, op=op): ex.store(st, a[2], S[op](bv(a[0], 32), bv(a[1], 32), bv(ex.load(st, a[2], I64), 64)), I64)
        for n in by("jitc_reduce_scalar_" + op): C[n] = scal
    def literal(ex, st, a, i):
        val = bv(ex.load(st, a[2], I64), 64)
        return V_.create(st, ("literal", bv(a[0], 32), bv(a[1], 32), val, bv(a[3], 64), a[4]), kind=3, size=z3.Extract(31, 0, bv(a[3], 64)), literal=val, type=a[1], backend=a[0])
    for n in by("jitc_var_literal"): C[n] = literal
    for n in by("jitc_var_u32"): C[n] = lambda ex, st, a, i: V_.create(st, ("literal", bv(a[0], 32), z3.BitVecVal(8, 32), Z(bv(a[1], 32)), z3.BitVecVal(1, 64), 0))
    for n in by("jitc_var_counter"): C[n] = lambda ex, st, a, i: V_.create(st, ("counter", bv(a[0], 32), bv(a[1], 64)))
    for nm in ("lt", "select", "div"):
        for n in by("jitc_var_" + nm): C[n] = lambda ex, st, a, i, nm=nm: V_.create(st, (nm,) + tuple(a[:3 if nm == "select" else 2]))
    for n in by("jitc_var_scatter"): C[n] = lambda ex, st, a, i: V_.create(st, ("scatter",) + tuple(a[:6]))
    ident = z3.Function("identity", z3.BitVecSort(32), z3.BitVecSort(32), z3.BitVecSort(64))
    for n in by("jitc_reduce_identity"): C[n] = lambda ex, st, a, i: ident(bv(a[0], 32), bv(a[1], 32))        # proved in C20
    def ev(ex, st, a, i):
        """jitc_var_eval() of a variable that is neither literal nor undefined: it becomes an evaluated one; creates and releases variables (the table may move)"""
        k = V_.key(a[0]); kd = kind_of(ex, st, V_, a[0])
        ex.oblige(st, "only variables that are not literals or undefined are expected to have data after jitc_var_eval()", z3.And(kd != 2, kd != 3))
        V_.move(st); p = V_.ptr(st, a[0]); st.ghost["evaluated"] = st.ghost.get("evaluated", []) + [k]
        d = ex.new_cells(st, None, "data"); st.ghost["data"] = d
        o = st.wobj(p.obj); ex.store(st, Ptr(p.obj, DATA_OFF), d, PT)
        return 1
    for n in by("jitc_var_eval"): C[n] = ev
    def vdata(ex, st, a, i):
        """jitc_var_data(): a new reference to an evaluated version of the variable (itself, or a new one) and its data"""
        k = V_.key(a[0]); V_.move(st); st.ghost["evaluated"] = st.ghost.get("evaluated", []) + [k]
        d = ex.new_cells(st, None, "data"); st.ghost["data"] = d; ex.store(st, a[2], d, PT)
        if V_.data_self: V_.ref(st, a[0], 1); ex.store(st, Ptr(V_.ptr(st, a[0]).obj, DATA_OFF), d, PT); return a[0]
        j = V_.create(st, ("data",), may_move=False); o = st.mem[V_.ptr(st, a[0]).obj]; q = st.wobj(V_.ptr(st, j).obj); q.cells = dict(o.cells); q.lazy = o.lazy; ex.store(st, Ptr(V_.ptr(st, j).obj, DATA_OFF), d, PT)
        return j
    V_.data_self = True
    for n in by("jitc_var_data"): C[n] = vdata
    def mal(ex, st, a, i):
        p = ex.new_cells(st, bv(a[1], 64), "mem"); st.ghost["mallocs"] = st.ghost.get("mallocs", []) + [(p, bv(a[0], 32), bv(a[1], 64))]; return p
    for n in by("jitc_malloc"): C[n] = mal
    def blk(ex, st, a, i): st.ghost["reds"] = st.ghost.get("reds", []) + [tuple(a)]
    for n in by("jitc_block_reduce"): C[n] = blk
    for n in by("jitc_var_mem_map"): C[n] = lambda ex, st, a, i: V_.create(st, ("mem", bv(a[0], 32), bv(a[1], 32), a[2], bv(a[3], 64), a[4]))
    can = z3.Function("can_scatter_reduce", z3.BitVecSort(32), z3.BitVecSort(32), z3.BitVecSort(32), z3.BoolSort())
    for n in by("jitc_can_scatter_reduce"): C[n] = lambda ex, st, a, i: can(*[bv(x, 32) for x in a[:3]])
    return S, ident
def kind_of(ex, st, V_, i): return bv(ex.load(st, Ptr(V_.ptr(st, i).obj, 44), I32), 32) & 0x7f
DATA_OFF = 24; PT = _T("ptr", 64)
def is_lit(w, vt, backend, val, size): return z3.And(w[1] == backend, w[2] == vt, w[3] == val, w[4] == size) if w and w[0] == "literal" and conc(w[5]) == 0 else z3.BoolVal(False)
def mkvar_task(c, literal, vt=None):
    ex = c.exec(full_ms=20000, quick_ms=2000); ex.nl = True; ex.pv.int_first = 5000; st = State(); V_ = Vars(ex, st); type_table(ex, st)
    be, size, lit = V("backend"), V("size"), z3.BitVec("lit", 64)
    vt = V("vt") if vt is None else z3.BitVecVal(vt, 32)
    for x in (z3.UGE(vt, 1), z3.ULE(vt, 15), z3.UGE(be, 1), z3.ULE(be, 2), size != 0): st.assume(x)
    kind = 3 if literal else V("kind")
    if not literal: st.assume(z3.And(kind != 3, z3.ULT(kind, 100)))
    sym = V("symbolic"); st.assume(z3.ULE(sym, 1))
    i = V_.mk(st, "operand", kind=kind, type=vt, backend=be, size=size, literal=lit, symbolic=sym)
    return ex, st, V_, i, vt, be, size, lit, sym
def tsz(vt):
    r = z3.BitVecVal(0, 32)
    for i, v in enumerate([0, 1, 0, 1, 1, 2, 2, 4, 4, 8, 8, 8, 0, 2, 4, 8]): r = z3.If(vt == i, z3.BitVecVal(v, 32), r)
    return r
def DEFMASK(ex): return ex.call(State(), "w_kind_default_mask", [])[0][2]
