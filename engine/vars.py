"""Contracts on the variable table (src/var.cpp) used when functions that create variables are verified.
Assumed: jitc_var(i) returns the record of a live variable; every function that creates variables may move the
table (records obtained earlier become invalid); inc_ref/dec_ref change the reference count of one variable."""
from core import *
FIELDS = dict(kind=0, type=0, backend=0, size=0, literal=0, symbolic=0, d0=0, d1=0, d2=0, d3=0)
class Vars:
    def __init__(s, ex, st):
        s.ex, s.n, s.getters = ex, 0, {}
        C = ex.contracts
        fn = lambda d: [f.name for f in ex.mod.fns.values() if f.dname == d]
        for n in fn("jitc_var(unsigned int)"): C[n] = s.c_var
        for n in fn("jitc_var_inc_ref(unsigned int)"): C[n] = lambda ex, st, a, i: s.ref(st, a[0], 1)
        for n in fn("jitc_var_inc_ref(unsigned int, Variable*)"): C[n] = lambda ex, st, a, i: s.ref(st, a[0], 1)
        for n in fn("jitc_var_dec_ref(unsigned int)"): C[n] = lambda ex, st, a, i: s.ref(st, a[0], -1)
        for n in fn("jitc_var_dec_ref(unsigned int, Variable*)"): C[n] = lambda ex, st, a, i: s.ref(st, a[0], -1)
        for f in ex.mod.fns.values():
            d = f.dname.split("(")[0]
            if d in ("jitc_log", "jitc_var_log", "jitc_trace"): C[f.name] = lambda ex, st, a, i: None
            if d in ("jitc_raise",): C[f.name] = lambda ex, st, a, i: RAISE
        st.ghost["vars"] = {}; st.ghost["refs"] = {}; st.ghost["made"] = []
    def key(s, i): i = simp(i) if is_sym(i) else i; return i if isinstance(i, int) else i.sexpr()
    def new_index(s, st, name):
        s.n += 1; i = z3.BitVec(f"{name}#{s.n}", 32); st.assume(i != 0)
        for k, (j, p) in st.ghost["vars"].items(): st.assume(i != j)
        return i
    def mk(s, st, name, index=None, **f):
        """a live variable with the given fields"""
        i = index if index is not None else s.new_index(st, name)
        p = s.ex.new_cells(st, 64, "heap variable " + name); o = st.wobj(p.obj)
        for k in range(8): o.cells[8 * k] = (8, 0)
        a = [p] + [f.get(k, d) for k, d in FIELDS.items()]
        r = s.ex.call(st, "w_mkvar", a); assert len(r) == 1
        t = r[0][1]; st.mem = t.mem; st.pc = t.pc
        st.ghost["vars"] = dict(st.ghost["vars"]); st.ghost["vars"][s.key(i)] = (i, p)
        return i
    def ptr(s, st, i): return st.ghost["vars"][s.key(i)][1]
    def c_var(s, ex, st, a, ins):
        k = s.key(a[0])
        if k in st.ghost["vars"]: return st.ghost["vars"][k][1]
        ex.oblige(st, "only valid variable indices are accessed", False); raise Abort()
    def ref(s, st, i, d):
        k = s.key(i)
        if k == 0: return
        if k not in st.ghost["vars"]: raise Unsupported(f"reference count of unknown variable {k}")
        r = dict(st.ghost["refs"]); r[k] = r.get(k, 0) + d; st.ghost["refs"] = r
    def delta(s, st, i): return st.ghost["refs"].get(s.key(i), 0)
    def move(s, st):
        """the table grows: all records move"""
        nv = {}
        for k, (i, p) in st.ghost["vars"].items():
            o = st.mem[p.obj]; q = s.ex.new_cells(st, 64, o.name); no = st.wobj(q.obj); no.cells = dict(o.cells); no.lazy = o.lazy
            st.wobj(p.obj).alive = False; nv[k] = (i, q)
        st.ghost["vars"] = nv
    def create(s, st, what, may_move=True, **f):
        """a call of a creating function: fresh index (reference owned by the caller), recorded as st.ghost['made'][index]"""
        if may_move: s.move(st)
        i = s.mk(st, "new", **f)
        st.ghost["made"] = st.ghost["made"] + [(i, what)]
        r = dict(st.ghost["refs"]); r[s.key(i)] = r.get(s.key(i), 0) + 1; st.ghost["refs"] = r
        return i
    def made(s, st, i):
        for j, w in st.ghost["made"]:
            if s.key(j) == s.key(i): return w
        return None
    def balanced(s, st, result=None):
        """every reference acquired was released; the result carries exactly one"""
        bad = [(k, n) for k, n in st.ghost["refs"].items() if n != (1 if result is not None and k == s.key(result) else 0)]
        return not bad
