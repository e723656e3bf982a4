#!/usr/bin/env python3-vt
"""C17: contracts on include/drjit-core/nanostl.h (vector<T>, string, unique_ptr, tuple)"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from core import *
s = Suite("C17", "The nano-STL containers behave like sequences")
s.assumptions += ["operator new returns fresh storage (never throws); sizes below 2^40 elements / 2^48 bytes",
                  "element constructors do not throw", "vector<T> is verified for an element type with non-trivial copy/move/destructor that records its own lifetime",
                  "arguments of string::put do not point into the string's own buffer (passing the string itself is covered)",
                  "floating point formatting defers to snprintf(\"%g\") (native driver only)"]
s.ir("n", "nanostl.cpp")
B64 = lambda x: bv(x, 64)
LIVE = z3.BitVecVal(1, 32)
def setup(c, es=8):
    ex = c.exec(full_ms=30000, quick_ms=1000)
    ex.heap_es = es
    def check(ex, st, a, i):
        ex.oblige(st, "element lifetime: only live elements are read, assigned or destroyed", tobool(a[0]))
    ex.contracts["ghost_check"] = check
    def new(ex, st, a, i):
        n = simp(a[0])
        if es == 8:
            cnt = ex.div_exact(n, 8) if is_sym(n) else n // 8
            if cnt is None: raise Unsupported("allocation size")
            return ex.new_array(st, 8, cnt if isinstance(cnt, int) else simp(cnt), "heap", content=lambda x: z3.BitVecVal(0, 64))
        return ex.new_array(st, 1, n, "heap")
    for n in ("_Znam", "_Znwm"): ex.contracts[n] = new
    def delete(ex, st, a, i):
        p = a[0]
        if isinstance(p, Ptr) and p.obj is None: return
        if es == 8:
            o = st.mem.get(p.obj)
            if o is not None and o.es == 8:
                x = fresh("x", 64)
                ex.oblige(st, "all elements are destroyed before their storage is released", z3.Implies(z3.ULT(x, B64(ex.elem_count(o))), z3.Extract(63, 32, ex.arr_read(o, x)) != LIVE))
        ex.ext_delete(st, p, a[1] if len(a) > 1 else None)
    for n in ("_ZdaPv", "_ZdaPvm", "_ZdlPv", "_ZdlPvm"): ex.contracts[n] = delete
    return ex
def get(ex, st, fn, *args):
    r = ex.call(st, fn, list(args))
    assert len(r) == 1 and r[0][0] == 'ret', r
    return r[0][1], r[0][2]
class Vec: pass
def mkvec(ex, st, nm, kind, content=None):
    v = Vec(); v.p = ex.new_cells(st, 24, nm); v.kind = kind
    f = v.f = content if content is not None else z3.Function(nm + "_c", z3.BitVecSort(64), z3.BitVecSort(32))
    if kind == "null": n = cap = 0; d = NULL
    else:
        if kind == "alloc": n, cap = z3.BitVec(nm + "_n", 64), z3.BitVec(nm + "_cap", 64); st.assume(z3.ULE(n, cap))
        if kind == "full": n = cap = z3.BitVec(nm + "_n", 64)
        st.assume(z3.ULT(cap, 1 << 40))
        d = ex.new_array(st, 8, cap, "heap_" + nm, content=lambda x: z3.If(z3.ULT(x, n), z3.Concat(LIVE, f(x)), z3.BitVecVal(0, 64)))
    v.n, v.cap, v.d = n, cap, d
    t, _ = get(ex, st, "v_set", v.p, d, n, cap)
    return t, v
def chkvec(ex, st, p, n, f, what):
    """p is a well-formed vector with n live elements f(0..n-1)"""
    st, sz = get(ex, st, "v_size", p); st, cap = get(ex, st, "v_cap", p); st, d = get(ex, st, "v_data", p); st, em = get(ex, st, "v_empty", p)
    ex.oblige(st, f"{what}: size", eq(sz, n, 64))
    ex.oblige(st, f"{what}: size <= capacity", z3.ULE(B64(sz), B64(cap)))
    ex.oblige(st, f"{what}: empty()", tobool(em) == (B64(sz) == 0))
    ok = isinstance(d, Ptr) and (d.obj is None or st.mem[d.obj].alive)
    ex.oblige(st, f"{what}: storage is live", ok)
    if not ok: return st, None
    if d.obj is None: ex.oblige(st, f"{what}: no storage means no capacity", eq(cap, 0, 64))
    else:
        o = st.mem[d.obj]
        ex.oblige(st, f"{what}: storage holds 'capacity' elements", z3.And(eq(d.off, 0, 64), eq(ex.elem_count(o), cap, 64)))
        x = fresh("x", 64)
        w = ex.arr_read(o, x)
        ex.oblige(st, f"{what}: elements", z3.Implies(z3.ULT(x, B64(n)), w == z3.Concat(LIVE, bv(f(x), 32))))
        ex.oblige(st, f"{what}: nothing is live beyond the end", z3.Implies(z3.And(z3.UGE(x, B64(n)), z3.ULT(x, B64(cap))), z3.Extract(63, 32, w) != LIVE))
    return st, (d, cap)
def counts(ex, st):
    st, c = get(ex, st, "v_ctor"); st, d = get(ex, st, "v_dtor")
    return st, B64(c) - B64(d)
def elem(ex, st, val, nm="arg"):
    p = ex.new_cells(st, 8, nm); ex.store(st, p, z3.Concat(LIVE, bv(val, 32)), I64); return p
def nheap(st): return {i for i, o in st.mem.items() if i.startswith("heap") and o.alive}
X = z3.BitVec("xval", 32)
def zero(x): return z3.BitVecVal(0, 32)
EMPTY = (0, zero)
def vec_op(fn, kinds, args, post, two=False, same=False, pre=None, dst=False):
    """post(ex, st, a, b, ret) -> dict: a=(n, f) b=(n, f) live=delta of live elements, ret=condition, heaps=number of live blocks"""
    def t(c):
        for ka in kinds:
            for kb in (kinds if two else [None]):
                ex = setup(c); st = State()
                a = b = None
                if dst:
                    a = Vec(); a.p = ex.new_cells(st, 24, "dst"); a.n = 0; a.f = zero; a.d = NULL; a.cap = 0
                else: st, a = mkvec(ex, st, "a", ka)
                if two or dst == "from": st, b = mkvec(ex, st, "b", kb or ka)
                st, l0 = counts(ex, st)
                ar, info = args(ex, st, a, b)
                if pre: st.assume(pre(a, b))
                if not ex.pv.feasible(st.pc): continue
                ns = 0
                for k, st2, r in ex.call(st, fn, ar):
                    if not ex.pv.feasible(st2.pc): continue
                    ex.oblige(st2, "returns normally", k == 'ret')
                    if k != 'ret': continue
                    ns += 1
                    q = post(ex, st2, a, b, r, info)
                    blocks = set()
                    for v, key in ((a, "a"), (b, "b")):
                        if v is None or key not in q: continue
                        st2, w = chkvec(ex, st2, v.p, *q[key], f"{fn}: {'this' if key == 'a' else 'operand'}")
                        if w and w[0].obj is not None:
                            ex.oblige(st2, f"{fn}: vectors do not share storage", w[0].obj not in blocks); blocks.add(w[0].obj)
                            if "cap" in q and key == "a": ex.oblige(st2, f"{fn}: capacity", q["cap"](B64(w[1])))
                    ex.oblige(st2, f"{fn}: storage no longer in use is released, none is leaked", nheap(st2) == blocks)
                    st2, l1 = counts(ex, st2)
                    ex.oblige(st2, f"{fn}: constructions minus destructions", l1 - l0 == B64(q["live"]))
                    for nme, g in q.get("ret", []): ex.oblige(st2, f"{fn}: {nme}", g)
                    c.cover(ex, st2, f"{fn} returns")
                ex.oblige(st, f"{fn}: some path returns", ns > 0)
    return t
ALL = ["null", "alloc"]
pa = lambda *xs: (lambda ex, st, a, b: ([a.p] + list(xs), None))
pab = lambda ex, st, a, b: ([a.p, b.p], None)
def ptr_to(ex, st, r, a, idx):
    st, d = get(ex, st, "v_data", a.p)
    return isinstance(r, Ptr) and isinstance(d, Ptr) and r.obj == d.obj and eq(r.off, add64(d.off, mul64(B64(idx), 8)) if is_sym(B64(idx)) else idx * 8, 64)
M = z3.BitVec("m", 64)
small = lambda a, b: z3.ULT(M, 1 << 40)
n1 = lambda f, n, x: (lambda y: z3.If(y == B64(n), bv(x, 32), bv(f(y), 32)))
V = [
 ("v_default", ["null"], pa(), lambda ex, st, a, b, r, i: dict(a=EMPTY, live=0, cap=lambda c: c == 0), dict(dst=True)),
 ("v_copy", ALL, pab, lambda ex, st, a, b, r, i: dict(a=(b.n, b.f), b=(b.n, b.f), live=b.n), dict(dst="from")),
 ("v_move", ALL, pab, lambda ex, st, a, b, r, i: dict(a=(b.n, b.f), b=EMPTY, live=0), dict(dst="from")),
 ("v_destroy", ALL, pa(), lambda ex, st, a, b, r, i: dict(live=-B64(a.n) if is_sym(a.n) else 0), {}),
 ("v_clear", ALL, pa(), lambda ex, st, a, b, r, i: dict(a=EMPTY, live=-B64(a.n), cap=lambda c: c == B64(a.cap)), {}),
 ("v_sized", ["null"], pa(M), lambda ex, st, a, b, r, i: dict(a=(M, zero), live=M), dict(dst=True, pre=small)),
 ("v_fill", ["null"], lambda ex, st, a, b: ([a.p, M, elem(ex, st, X)], None), lambda ex, st, a, b, r, i: dict(a=(M, lambda x: X), live=M), dict(dst=True, pre=small)),
 ("v_range", ["alloc"], lambda ex, st, a, b: ([a.p, b.d, Ptr(b.d.obj, mul64(b.n, 8))], None), lambda ex, st, a, b, r, i: dict(a=(b.n, b.f), b=(b.n, b.f), live=b.n), dict(dst="from")),
 ("v_assign", ALL, pab, lambda ex, st, a, b, r, i: dict(a=(b.n, b.f), b=(b.n, b.f), live=B64(b.n) - B64(a.n)), dict(two=True)),
 ("v_massign", ALL, pab, lambda ex, st, a, b, r, i: dict(a=(b.n, b.f), b=EMPTY, live=-B64(a.n)), dict(two=True)),
 ("v_push", ALL + ["full"], lambda ex, st, a, b: ([a.p, elem(ex, st, X)], None), lambda ex, st, a, b, r, i: dict(a=(simp(B64(a.n) + 1), n1(a.f, a.n, X)), live=1), {}),
 ("v_pushm", ALL + ["full"], lambda ex, st, a, b: ([a.p, elem(ex, st, X)], None), lambda ex, st, a, b, r, i: dict(a=(simp(B64(a.n) + 1), n1(a.f, a.n, X)), live=1), {}),
 ("v_pushself", ["alloc", "full"], pa(M), lambda ex, st, a, b, r, i: dict(a=(simp(B64(a.n) + 1), n1(a.f, a.n, a.f(M))), live=1), dict(pre=lambda a, b: z3.ULT(M, B64(a.n)))),
 ("v_emplaceself", ["alloc", "full"], pa(M), lambda ex, st, a, b, r, i: dict(a=(simp(B64(a.n) + 1), n1(a.f, a.n, a.f(M))), live=1), dict(pre=lambda a, b: z3.ULT(M, B64(a.n)))),
 ("v_emplace", ALL + ["full"], pa(X), lambda ex, st, a, b, r, i: dict(a=(simp(B64(a.n) + 1), n1(a.f, a.n, X)), live=1, ret=[("returns the new element", ptr_to(ex, st, r, a, a.n))]), {}),
 ("v_pop", ["alloc", "full"], pa(), lambda ex, st, a, b, r, i: dict(a=(simp(B64(a.n) - 1), a.f), live=-1 & mask(64)), dict(pre=lambda a, b: B64(a.n) != 0)),
 ("v_back", ["alloc"], pa(), lambda ex, st, a, b, r, i: dict(a=(a.n, a.f), live=0, ret=[("returns the last element", ptr_to(ex, st, r, a, simp(B64(a.n) - 1)))]), dict(pre=lambda a, b: B64(a.n) != 0)),
 ("v_at", ["alloc"], pa(M), lambda ex, st, a, b, r, i: dict(a=(a.n, a.f), live=0, ret=[("returns element i", ptr_to(ex, st, r, a, M))]), dict(pre=lambda a, b: z3.ULT(M, B64(a.n)))),
 ("v_begin", ["alloc"], pa(), lambda ex, st, a, b, r, i: dict(a=(a.n, a.f), live=0, ret=[("begin()", ptr_to(ex, st, r, a, 0))]), {}),
 ("v_end", ["alloc"], pa(), lambda ex, st, a, b, r, i: dict(a=(a.n, a.f), live=0, ret=[("end()", ptr_to(ex, st, r, a, a.n))]), {}),
 ("v_resize", ALL, pa(M), lambda ex, st, a, b, r, i: dict(a=(M, lambda y: z3.If(z3.ULT(y, B64(a.n)), bv(a.f(y), 32), zero(y))), live=M - B64(a.n)), dict(pre=small)),
 ("v_resize2", ALL, pa(M, X), lambda ex, st, a, b, r, i: dict(a=(M, lambda y: z3.If(z3.ULT(y, B64(a.n)), bv(a.f(y), 32), X)), live=M - B64(a.n)), dict(pre=small)),
 ("v_swap", ALL, pab, lambda ex, st, a, b, r, i: dict(a=(b.n, b.f), b=(a.n, a.f), live=0), dict(two=True)),
 ("v_reserve", ALL, pa(M), lambda ex, st, a, b, r, i: dict(a=(a.n, a.f), live=0, cap=lambda c: z3.And(z3.UGE(c, M), z3.UGE(c, B64(a.cap)))), dict(pre=small)),
]
for fn, kinds, args, post, kw in V: s.task(f"vector: {fn[2:]}", vec_op(fn, kinds, args, post, **kw), "n")
def v_selfassign(c):
    for k in ALL:
        ex = setup(c); st = State(); st, a = mkvec(ex, st, "a", k)
        for kd, st2, r in ex.call(st, "v_assign", [a.p, a.p]):
            if ex.pv.feasible(st2.pc): chkvec(ex, st2, a.p, a.n, a.f, "self-assignment"); c.cover(ex, st2, "self-assignment")
s.task("vector: self-assignment", v_selfassign, "n")
def v_eq(fn, neg):
    def t(c):
        for ka in ALL:
            for kb in ALL:
                # different contents: a positive answer must be justified
                ex = setup(c); st = State()
                st, a = mkvec(ex, st, "a", ka); st, b = mkvec(ex, st, "b", kb)
                for k, st2, r in ex.call(st, fn, [a.p, b.p]):
                    if not ex.pv.feasible(st2.pc): continue
                    r = z3.Not(tobool(r)) if neg else tobool(r)
                    x = fresh("x", 64); st2.assume(z3.ULT(x, B64(a.n)))
                    for ln, kk, h in st2.hyps: st2.assume(z3.Implies(z3.ULT(x, kk), h(x)))
                    ex.oblige(st2, f"{fn}: reported equal only if sizes and all elements agree", z3.Implies(r, z3.And(B64(a.n) == B64(b.n), bv(a.f(x), 32) == bv(b.f(x), 32))))
                    chkvec(ex, st2, a.p, a.n, a.f, fn); chkvec(ex, st2, b.p, b.n, b.f, fn)
                # same contents
                ex = setup(c); st = State()
                st, a = mkvec(ex, st, "a", ka); st, b = mkvec(ex, st, "b", kb, content=a.f); st.assume(B64(a.n) == B64(b.n))
                for k, st2, r in ex.call(st, fn, [a.p, b.p]):
                    if not ex.pv.feasible(st2.pc): continue
                    ex.oblige(st2, f"{fn}: equal vectors are reported equal", z3.Not(tobool(r)) if neg else tobool(r)); c.cover(ex, st2, "equal")
    return t
s.task("vector: ==", v_eq("v_eq", False), "n"); s.task("vector: !=", v_eq("v_ne", True), "n")

# ------------------------------------------------------------------ string
def mkstr(ex, st, nm, kind, content=None):
    v = Vec(); v.p = ex.new_cells(st, 24, nm); v.kind = kind
    v.f = content if content is not None else z3.Function(nm + "_t", z3.BitVecSort(64), z3.BitVecSort(8))
    if kind == "null": v.n = v.cap = 0; v.d = NULL
    else:
        v.n, v.cap = z3.BitVec(nm + "_n", 64), z3.BitVec(nm + "_cap", 64)
        st.assume(z3.ULE(v.n, v.cap)); st.assume(z3.ULT(v.cap, 1 << 46))
        g = z3.Function(nm + "_junk", z3.BitVecSort(64), z3.BitVecSort(8))
        v.d = ex.new_array(st, 1, v.cap + 1, "heap_" + nm, content=lambda x, f=v.f, n=v.n: z3.If(z3.ULT(x, n), f(x), z3.If(x == n, z3.BitVecVal(0, 8), g(x))))
    t, _ = get(ex, st, "s_set", v.p, v.d, v.n, v.cap)
    return t, v
def mkc(ex, st, nm):
    """zero-terminated text of length n (no embedded zeros are assumed to be looked at: strlen is a contract)"""
    n = z3.BitVec(nm + "_len", 64); st.assume(z3.ULT(n, 1 << 46))
    f = z3.Function(nm + "_txt", z3.BitVecSort(64), z3.BitVecSort(8))
    p = ex.new_array(st, 1, n + 1, "ctext_" + nm, content=lambda x: z3.If(x == n, z3.BitVecVal(0, 8), f(x)), writable=False)
    st.ghost.setdefault("cstr", {})[p.obj] = n
    c = Vec(); c.p, c.n, c.f = p, n, f
    return c
def ssetup(c):
    ex = setup(c, 1)
    def strlen(ex, st, a, i):
        p = a[0]
        if isinstance(p, Ptr) and p.obj in st.ghost.get("cstr", {}): return simp(st.ghost["cstr"][p.obj] - B64(p.off))
        return ex.ext_strlen(st, p)
    ex.contracts["strlen"] = strlen
    ex.loopspecs.append(("formatter", lambda fn, h: LoopSpec(mode="unroll", unroll=24)))
    return ex
def chkstr(ex, st, p, n, f, what):
    st, sz = get(ex, st, "s_size", p); st, sl = get(ex, st, "s_length", p); st, cap = get(ex, st, "s_cap", p); st, d = get(ex, st, "s_data", p); st, cs = get(ex, st, "s_cstr", p)
    st, be = get(ex, st, "s_begin", p); st, en = get(ex, st, "s_end", p)
    ex.oblige(st, f"{what}: size", z3.And(eq(sz, n, 64), eq(sl, n, 64)))
    ex.oblige(st, f"{what}: size <= capacity", z3.ULE(B64(sz), B64(cap)))
    ok = isinstance(d, Ptr) and (d.obj is None or st.mem[d.obj].alive)
    ex.oblige(st, f"{what}: storage is live", ok)
    if not ok: return st, None
    ex.oblige(st, f"{what}: c_str() is valid", isinstance(cs, Ptr) and cs.obj is not None)
    x = fresh("x", 64)
    if d.obj is None:
        ex.oblige(st, f"{what}: no storage means empty", z3.And(eq(cap, 0, 64), eq(n, 0, 64)))
        ex.oblige(st, f"{what}: c_str() of an empty string", eq(ex.load(st, cs, I8), 0, 8))
    else:
        o = st.mem[d.obj]
        ex.oblige(st, f"{what}: begin/end/c_str", isinstance(be, Ptr) and isinstance(en, Ptr) and be.obj == d.obj and en.obj == d.obj and cs.obj == d.obj and z3.And(eq(be.off, 0, 64), eq(en.off, n, 64), eq(cs.off, 0, 64)))
        ex.oblige(st, f"{what}: storage holds capacity + 1 bytes", z3.And(eq(d.off, 0, 64), z3.UGE(B64(o.size), B64(cap) + 1)))
        w = ex.arr_read(o, x) if o.kind == "array" else None
        for bs, pn, pf in getattr(f, "segs", [(z3.BitVecVal(0, 64), B64(n), f)]):
            ex.oblige(st, f"{what}: text", z3.Implies(z3.ULT(x, B64(pn)), bv(ex.arr_read(o, simp(bs + x)), 8) == bv(pf(x), 8)) if w is not None else False)
        ex.oblige(st, f"{what}: zero-terminated", z3.Implies(x == B64(n), w == 0))
    return st, (d, cap)
from core import ir as _ir
def cat(*parts):
    """concatenation of (n, f) pieces"""
    n = simp(sum([B64(p[0]) for p in parts], z3.BitVecVal(0, 64)))
    def f(x):
        base = z3.BitVecVal(0, 64); r = z3.BitVecVal(0, 8); segs = []
        for pn, pf in parts:
            segs.append((base, B64(pn), pf)); base = base + B64(pn)
        for b, pn, pf in reversed(segs): r = z3.If(z3.ULT(x - b, pn), bv(pf(x - b), 8), r)
        return r
    base = z3.BitVecVal(0, 64); f.segs = []
    for pn, pf in parts: f.segs.append((base, B64(pn), pf)); base = base + B64(pn)
    return n, f
lit = lambda t: (len(t), lambda x: (lambda r: r)(__import__("functools").reduce(lambda acc, iv: z3.If(x == iv[0], z3.BitVecVal(iv[1], 8), acc), enumerate(t), z3.BitVecVal(0, 8))))
def str_op(fn, kinds, args, post, two=False, pre=None, dst=False):
    def t(c):
        for ka in kinds:
            for kb in (ALL if two else [None]):
                ex = ssetup(c); st = State(); a = b = None
                if dst:
                    a = Vec(); a.p = ex.new_cells(st, 24, "dst"); a.n = 0; a.f = lambda x: z3.BitVecVal(0, 8); a.cap = 0
                else: st, a = mkstr(ex, st, "a", ka)
                if two: st, b = mkstr(ex, st, "b", kb)
                ar, info = args(ex, st, a, b)
                if pre: st.assume(pre(a, b))
                if not ex.pv.feasible(st.pc): continue
                for k, st2, r in ex.call(st, fn, ar):
                    if not ex.pv.feasible(st2.pc): continue
                    ex.oblige(st2, "returns normally", k == 'ret')
                    if k != 'ret': continue
                    q = post(ex, st2, a, b, r, info)
                    blocks = set()
                    for v, key in ((a, "a"), (b, "b")):
                        if v is None or key not in q: continue
                        st2, w = chkstr(ex, st2, v.p, *q[key], f"{fn}: {'this' if key == 'a' else 'operand'}")
                        if w and w[0].obj is not None:
                            ex.oblige(st2, f"{fn}: strings do not share storage", w[0].obj not in blocks); blocks.add(w[0].obj)
                            if "cap" in q and key == "a": ex.oblige(st2, f"{fn}: capacity", q["cap"](B64(w[1])))
                    ex.oblige(st2, f"{fn}: storage no longer in use is released, none is leaked", nheap(st2) == blocks)
                    for nme, g in q.get("ret", []): ex.oblige(st2, f"{fn}: {nme}", g)
                    c.cover(ex, st2, f"{fn} returns")
    return t
SE = (0, lambda x: z3.BitVecVal(0, 8))
me = lambda a: (a.n, a.f)
def withc(*more):
    def f(ex, st, a, b):
        c = mkc(ex, st, "c")
        return [a.p] + [b.p for x in more if x == 'b'] + [c.p], c
    return f
CH = z3.BitVec("ch", 8)
def rng(ex, st, a, b):
    c = mkc(ex, st, "c"); n = z3.BitVec("rn", 64); st.assume(z3.ULE(n, c.n)); return [a.p, c.p, n], (n, c.f)
SV = [
 ("s_default", ["null"], pa(), lambda ex, st, a, b, r, i: dict(a=SE), dict(dst=True)),
 ("s_copy", ["null"], pab, lambda ex, st, a, b, r, i: dict(a=me(b), b=me(b)), dict(dst=True, two=True)),
 ("s_move", ["null"], pab, lambda ex, st, a, b, r, i: dict(a=me(b), b=SE), dict(dst=True, two=True)),
 ("s_range", ["null"], rng, lambda ex, st, a, b, r, i: dict(a=i), dict(dst=True)),
 ("s_fromc", ["null"], withc(), lambda ex, st, a, b, r, i: dict(a=me(i)), dict(dst=True)),
 ("s_destroy", ALL, pa(), lambda ex, st, a, b, r, i: dict(), {}),
 ("s_assign", ALL, pab, lambda ex, st, a, b, r, i: dict(a=me(b), b=me(b)), dict(two=True)),
 ("s_massign", ALL, pab, lambda ex, st, a, b, r, i: dict(a=me(b), b=SE), dict(two=True)),
 ("s_assignc", ALL, withc(), lambda ex, st, a, b, r, i: dict(a=me(i)), {}),
 ("s_swap", ALL, pab, lambda ex, st, a, b, r, i: dict(a=me(b), b=me(a)), dict(two=True)),
 ("s_reserve", ALL, pa(M), lambda ex, st, a, b, r, i: dict(a=me(a), cap=lambda c: z3.And(z3.UGE(c, M), z3.UGE(c, B64(a.cap)))), dict(pre=lambda a, b: z3.ULT(M, 1 << 46))),
 ("s_resize", ALL, pa(M, CH), lambda ex, st, a, b, r, i: dict(a=(M, lambda x: z3.If(z3.ULT(x, B64(a.n)), bv(a.f(x), 8), CH))), dict(pre=lambda a, b: z3.ULT(M, 1 << 46))),
 ("s_clear", ALL, pa(), lambda ex, st, a, b, r, i: dict(a=SE, cap=lambda c: c == B64(a.cap)), {}),
 ("s_puts", ALL, pab, lambda ex, st, a, b, r, i: dict(a=cat(me(a), me(b)), b=me(b)), dict(two=True)),
 ("s_pluseq", ALL, pab, lambda ex, st, a, b, r, i: dict(a=cat(me(a), me(b)), b=me(b)), dict(two=True)),
 ("s_putc", ALL, pa(CH), lambda ex, st, a, b, r, i: dict(a=cat(me(a), (1, lambda x: CH))), {}),
 ("s_putcs", ALL, withc(), lambda ex, st, a, b, r, i: dict(a=cat(me(a), me(i))), {}),
 ("s_putlit", ALL, pa(), lambda ex, st, a, b, r, i: dict(a=cat(me(a), lit(b"abc"))), {}),
 ("s_put2", ALL, withc('b'), lambda ex, st, a, b, r, i: dict(a=cat(me(a), me(b), lit(b"-"), me(i)), b=me(b)), dict(two=True)),
 ("s_add1", ["null"], withc('b'), lambda ex, st, a, b, r, i: dict(a=cat(me(b), me(i)), b=me(b)), dict(two=True, dst=True)),
 ("s_add3", ["null"], withc('b'), lambda ex, st, a, b, r, i: dict(a=cat(me(b), me(i)), b=SE), dict(two=True, dst=True)),
 ("s_add2", ["null"], lambda ex, st, a, b: (lambda c: ([a.p, c.p, b.p], c))(mkc(ex, st, "c")), lambda ex, st, a, b, r, i: dict(a=cat(me(i), me(b)), b=me(b)), dict(two=True, dst=True)),
 ("s_indent", ALL, pa(M), lambda ex, st, a, b, r, i: dict(a=cat(me(a), (M, lambda x: z3.BitVecVal(32, 8)))), dict(pre=lambda a, b: z3.ULT(M, 1 << 46))),
 ("s_putbool", ALL, pa(z3.BitVec("bl", 1)), lambda ex, st, a, b, r, i: dict(a=cat(me(a), (1, lambda x: z3.If(z3.BitVec("bl", 1) == 1, z3.BitVecVal(49, 8), z3.BitVecVal(48, 8))))), {}),
]
for fn, kinds, args, post, kw in SV: s.task(f"string: {fn[2:]}", str_op(fn, kinds, args, post, **kw), "n")
def s_self(fn, double):
    def t(c):
        for k in ALL:
            ex = ssetup(c); st = State(); st, a = mkstr(ex, st, "a", k)
            for kd, st2, r in ex.call(st, fn, [a.p, a.p]):
                if ex.pv.feasible(st2.pc):
                    chkstr(ex, st2, a.p, *(cat(me(a), me(a)) if double else me(a)), f"{fn} with itself"); c.cover(ex, st2, "returns")
    return t
s.task("string: self-assignment", s_self("s_assign", False), "n")
s.task("string: self-move", s_self("s_massign", False), "n")
s.task("string: appending itself", s_self("s_puts", True), "n")
def s_eq(fn, neg):
    """memcmp is replaced by its contract: zero iff the n bytes agree"""
    def t(c):
        for ka in ALL:
            for kb in ALL:
                ex = ssetup(c); st = State()
                def memcmp(ex, st, a, i):
                    (p, o), (q, o2) = ex.obj(st, a[0], "memcmp"), ex.obj(st, a[1], "memcmp")
                    n = B64(a[2])
                    for oo, pp in ((o, p), (o2, q)): ex.oblige(st, "memory safety: memcmp reads within its operands", z3.And(z3.ULE(n, B64(oo.size)), z3.ULE(B64(pp.off), B64(oo.size) - n)))
                    r = fresh("cmp", 32); w = fresh("w", 64)
                    t2 = st.copy()
                    st.assume(r == 0); st.hyps.append(("memcmp", n, lambda x, o=st.mem[o.id], o2=st.mem[o2.id], a0=B64(p.off), b0=B64(q.off): ex.arr_read(o, a0 + x) == ex.arr_read(o2, b0 + x)))
                    t2.assume(r != 0); t2.assume(z3.And(z3.ULT(w, n), ex.arr_read(t2.mem[o.id], B64(p.off) + w) != ex.arr_read(t2.mem[o2.id], B64(q.off) + w)))
                    return Multi([(st, 'ret', r), (t2, 'ret', r)])
                for nm in ("memcmp", "bcmp"): ex.contracts[nm] = memcmp
                st, a = mkstr(ex, st, "a", ka); st, b = mkstr(ex, st, "b", kb)
                same = z3.Bool("same_text")     # ghost: both texts agree
                for k, st2, r in ex.call(st, fn, [a.p, b.p]):
                    if not ex.pv.feasible(st2.pc): continue
                    r = z3.Not(tobool(r)) if neg else tobool(r)
                    x = fresh("x", 64)
                    t2 = st2.copy(); t2.assume(z3.ULT(x, B64(a.n)))
                    for ln, n, h in t2.hyps: t2.assume(z3.Implies(z3.ULT(x, n), h(x)))
                    ex.oblige(t2, f"{fn}: reported equal only if the texts agree", z3.Implies(r, z3.And(B64(a.n) == B64(b.n), bv(a.f(x), 8) == bv(b.f(x), 8))))
                    y = z3.BitVec("y", 64)
                    ex.oblige(st2, f"{fn}: reported different only if the texts differ", z3.Implies(z3.Not(r), z3.Or(B64(a.n) != B64(b.n), z3.Exists([y], z3.And(z3.ULT(y, B64(a.n)), bv(a.f(y), 8) != bv(b.f(y), 8))))))
                    c.cover(ex, st2, "returns")
    return t
s.task("string: ==", s_eq("s_eq", False), "n"); s.task("string: !=", s_eq("s_ne", True), "n")
def s_num(fn, w, signed, base=10, prefix=b""):
    """the appended text is the canonical representation of the value: with v0 = |value|, v(i+1) = v(i) / base (mathematical
    division, introduced by its defining equation v(i) = base * v(i+1) + r(i), r(i) < base), the characters from the last one
    are the digits r(0), r(1), .. up to the first i with v(i+1) = 0"""
    def t(c):
        for ka in (ALL if w == 8 else ['alloc']):
            ex = ssetup(c); st = State(); st, a = mkstr(ex, st, "a", ka)
            ex.div_ghost = True
            v = z3.BitVec("value", w)
            arg = Ptr(None, v) if fn == "s_putptr" else v
            for k, st2, r in ex.call(st, fn, [a.p, arg]):
                if not ex.pv.feasible(st2.pc): continue
                st2, d = get(ex, st2, "s_data", a.p); st2, n2 = get(ex, st2, "s_size", a.p)
                m = simp(B64(n2) - B64(a.n))
                ex.oblige(st2, f"{fn}: number of characters is fixed on a path", isinstance(m, int))
                if not isinstance(m, int): continue
                st2, _ = chkstr(ex, st2, a.p, simp(B64(a.n) + m), lambda x: z3.If(z3.ULT(x, B64(a.n)), bv(a.f(x), 8), ex.arr_read(st2.mem[d.obj], x)), f"{fn}: this")
                ch = [bv(simp(ex.arr_read(st2.mem[d.obj], simp(B64(a.n) + i))), 8) for i in range(m)]
                neg = (v < 0) if signed else z3.BoolVal(False)
                isneg = False
                if signed:
                    isneg = ex.pv.prove(st2.pc, neg)[0] == "proved"
                    if not isneg: ex.oblige(st2, f"{fn}: sign is fixed on a path", z3.Not(neg))
                pre = (b"-" if isneg else b"") + prefix
                for i, q in enumerate(pre): ex.oblige(st2, f"{fn}: prefix", i < m and ch[i] == q)
                dg = ch[len(pre):]
                ex.oblige(st2, f"{fn}: at least one digit", len(dg) > 0)
                if not dg: continue
                cur = simp(-v if isneg else v)
                # narrow types may be promoted before the division
                W = ex.digits_width = 32 if w < 32 else w
                cur = simp(z3.ZeroExt(W - w, bv(cur, w))) if W > w else cur
                for (k2, (q2, r2, f2, x2)) in list(getattr(ex, "_dg", {}).items()):   # name used by the code for the same dividend
                    if k2 in st2.ghost.get("divs", ()) and z3.is_bv(x2) and x2.size() == W and is_sym(cur) and "value" in str(x2) and ex.pv.prove(st2.pc, x2 == cur)[0] == "proved": cur = x2; break
                for i, q in enumerate(reversed(dg)):
                    if base == 16: nxt, rem = z3.LShR(bv(cur, W), 4), bv(cur, W) & 15
                    else: nxt, rem = ex.divmod_ghost(st2, bv(cur, W), base, W)
                    rem = z3.Extract(7, 0, bv(rem, W))
                    ex.oblige(st2, f"{fn}: digit", q == (z3.If(z3.ULT(rem, 10), rem + 48, rem + 87) if base == 16 else rem + 48))
                    ex.oblige(st2, f"{fn}: no leading zero, no missing digit", (bv(nxt, W) == 0) == z3.BoolVal(i == len(dg) - 1))
                    cur = nxt
                c.cover(ex, st2, "returns")
    return t
for fn, w, sg in (("s_putu8", 8, 0), ("s_puti8", 8, 1), ("s_putu16", 16, 0), ("s_puti16", 16, 1), ("s_putu32", 32, 0), ("s_puti32", 32, 1), ("s_putu64", 64, 0), ("s_puti64", 64, 1)):
    s.task(f"string: {fn[2:]}", s_num(fn, w, sg), "n")
s.task("string: put pointer", s_num("s_putptr", 64, 0, 16, b"0x"), "n")

# ------------------------------------------------------------------ unique_ptr / tuple
def tr(ex, st, nm, val):
    """a live heap element"""
    return ex.new_array(st, 8, 1, "heap_" + nm, content=lambda x: z3.Concat(LIVE, bv(val, 32)))
def mkup(ex, st, nm, full):
    p = ex.new_cells(st, 8, nm); d = NULL; v = z3.BitVec(nm + "_v", 32)
    if full: d = tr(ex, st, nm, v)
    st, _ = get(ex, st, "u_set", p, d)
    return st, p, d, v
def same(p, q): return isinstance(p, Ptr) and isinstance(q, Ptr) and p.obj == q.obj and (p.obj is None or eq(p.off, q.off, 64))
def chkup(ex, st, p, d, v, what):
    st, g = get(ex, st, "u_get", p); st, b = get(ex, st, "u_bool", p); st, n = get(ex, st, "u_not", p)
    ex.oblige(st, f"{what}: owns the right object", same(g, d))
    ex.oblige(st, f"{what}: bool / operator!", z3.And(tobool(b) == z3.BoolVal(d.obj is not None), tobool(n) == z3.BoolVal(d.obj is None)))
    if d.obj is not None:
        ex.oblige(st, f"{what}: owned object is alive", st.mem[d.obj].alive)
        if st.mem[d.obj].alive: ex.oblige(st, f"{what}: owned object is intact", eq(ex.load(st, g, I64), z3.Concat(LIVE, bv(v, 32)), 64))
    return st
def up_op(fn, run):
    def t(c):
        for fa in (False, True):
            for fb in (False, True):
                ex = setup(c); st = State()
                st, a, da, va = mkup(ex, st, "a", fa); st, b, db, vb = mkup(ex, st, "b", fb)
                st, l0 = counts(ex, st)
                args, post = run(ex, st, a, b, da, db, va, vb)
                for k, st2, r in ex.call(st, fn, args):
                    if not ex.pv.feasible(st2.pc): continue
                    ex.oblige(st2, f"{fn}: returns normally", k == 'ret')
                    if k != 'ret': continue
                    owned, dead = [], 0
                    for p, d, v in post["own"](r):
                        st2 = chkup(ex, st2, p, d, v, fn) if p is not None else st2
                        if d.obj is not None: owned.append(d.obj)
                    ex.oblige(st2, f"{fn}: every object has one owner", len(set(owned)) == len(owned))
                    ex.oblige(st2, f"{fn}: everything else is released", nheap(st2) == set(owned))
                    st2, l1 = counts(ex, st2)
                    ex.oblige(st2, f"{fn}: constructions minus destructions", l1 - l0 == z3.BitVecVal(len(owned) - (da.obj is not None) - (db.obj is not None), 64))
                    for nme, g in post.get("ret", lambda r: [])(r): ex.oblige(st2, f"{fn}: {nme}", g)
                    c.cover(ex, st2, f"{fn} returns")
    return t
U = [
 ("u_massign", lambda ex, st, a, b, da, db, va, vb: ([a, b], dict(own=lambda r: [(a, db, vb), (b, NULL, 0)]))),
 ("u_reset", lambda ex, st, a, b, da, db, va, vb: ([a, db], dict(own=lambda r: [(a, db, vb)]))),
 ("u_release", lambda ex, st, a, b, da, db, va, vb: ([a], dict(own=lambda r: [(a, NULL, 0), (None, da, va), (b, db, vb)], ret=lambda r: [("returns the object", same(r, da))]))),
 ("u_destroy", lambda ex, st, a, b, da, db, va, vb: ([a], dict(own=lambda r: [(b, db, vb)]))),
]
for fn, run in U: s.task(f"unique_ptr: {fn[2:]}", up_op(fn, run), "n")
def u_move(c):
    for full in (False, True):
        ex = setup(c); st = State(); st, b, db, vb = mkup(ex, st, "b", full); a = ex.new_cells(st, 8, "dst")
        for k, st2, r in ex.call(st, "u_move", [a, b]):
            st2 = chkup(ex, st2, a, db, vb, "move"); st2 = chkup(ex, st2, b, NULL, 0, "moved-from"); c.cover(ex, st2, "returns")
s.task("unique_ptr: move constructor", u_move, "n")
def u_selfmove(c):
    for full in (False, True):
        ex = setup(c); st = State(); st, b, db, vb = mkup(ex, st, "b", full)
        for k, st2, r in ex.call(st, "u_massign", [b, b]): st2 = chkup(ex, st2, b, db, vb, "self-move"); c.cover(ex, st2, "returns")
s.task("unique_ptr: self-move", u_selfmove, "n")
def u_make(c):
    ex = setup(c); st = State(); a = ex.new_cells(st, 8, "dst"); st, l0 = counts(ex, st)
    for k, st2, r in ex.call(st, "u_make", [a, X]):
        st2, g = get(ex, st2, "u_get", a)
        ex.oblige(st2, "make_unique: exactly one object", isinstance(g, Ptr) and nheap(st2) == {g.obj})
        st2 = chkup(ex, st2, a, g, X, "make_unique"); st2, l1 = counts(ex, st2); ex.oblige(st2, "make_unique: one construction", l1 - l0 == 1); c.cover(ex, st2, "returns")
s.task("unique_ptr: make_unique", u_make, "n")
def tup(c):
    ex = setup(c); st = State(); a, b, cc = z3.BitVec("a", 32), z3.BitVec("b", 32), z3.BitVec("c", 8)
    def mk(st, nm, a, b, cc):
        p = ex.new_cells(st, 32, nm); st, _ = get(ex, st, "t_make", p, a, elem(ex, st, b, nm + "_e"), cc); return st, p
    def chk(st, p, a, b, cc, what):
        st, x = get(ex, st, "t_0", p); st, y = get(ex, st, "t_1", p); st, z = get(ex, st, "t_2", p)
        ex.oblige(st, f"{what}: get<0>", eq(x, a, 32)); ex.oblige(st, f"{what}: get<2>", eq(z, cc, 8))
        ex.oblige(st, f"{what}: get<1>", eq(ex.load(st, y, I64), z3.Concat(LIVE, bv(b, 32)), 64)); return st
    st, p = mk(st, "t", a, b, cc); st = chk(st, p, a, b, cc, "tuple constructor")
    a2, b2, c2 = z3.BitVec("a2", 32), z3.BitVec("b2", 32), z3.BitVec("c2", 8)
    st, q = mk(st, "u", a2, b2, c2); st, _ = get(ex, st, "t_copy", q, p); st = chk(st, q, a, b, cc, "tuple assignment"); st = chk(st, p, a, b, cc, "tuple assignment (source)")
    x, e, y = ex.new_cells(st, 4, "x"), elem(ex, st, b2, "e"), ex.new_cells(st, 1, "y")
    st, _ = get(ex, st, "t_tie", p, x, e, y)
    ex.oblige(st, "tie: every element", z3.And(eq(ex.load(st, x, I32), a, 32), eq(ex.load(st, y, I8), cc, 8), eq(ex.load(st, e, I64), z3.Concat(LIVE, b), 64)))
    st = chk(st, p, a, b, cc, "tie (source)"); c.cover(ex, st, "tie")
    x2, y2 = ex.new_cells(st, 4, "x2"), ex.new_cells(st, 1, "y2")
    st, _ = get(ex, st, "t_mk", a, cc, x2, y2)
    ex.oblige(st, "make_tuple / structured binding", z3.And(eq(ex.load(st, x2, I32), a, 32), eq(ex.load(st, y2, I8), cc, 8)))
    x3, y3 = ex.new_cells(st, 8, "x3"), ex.new_cells(st, 4, "y3")
    st, _ = get(ex, st, "t_conv", x3, y3, a, cc)
    ex.oblige(st, "tuple conversion", z3.And(eq(ex.load(st, x3, I64), z3.ZeroExt(32, a), 64), eq(ex.load(st, y3, I32), z3.SignExt(24, cc), 32))); c.cover(ex, st, "conversion")
s.task("tuple", tup, "n")
def canary(c):
    vec_op("v_push", ["full"], lambda ex, st, a, b: ([a.p, elem(ex, st, X)], None), lambda ex, st, a, b, r, i: dict(a=(simp(B64(a.n) + 1), n1(a.f, a.n, X + 1)), live=1))(c)
s.task("canary", canary, "n", kind="canary")
s.native("nanostl.cpp", ["-fsanitize=address,undefined", "-fno-sanitize=vptr"])
if __name__ == "__main__": s.main()
