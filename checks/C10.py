#!/usr/bin/env python3-vt
"""C10: CPU fill, poke, copy and aggregation (src/llvm_ts.cpp)"""
import sys, os, re; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from core import *
import tasks
from redspec import *
s = Suite("C10", "CPU fill, poke, copy and aggregation write exactly what was asked")
s.ir("r", "red.cpp")
X = z3.BitVec("x!any", 64)
def memset(isize):
    def t(c, canary=False):
      for zero in (True, False):
        ex = c.exec(full_ms=20000, quick_ms=500); st = State(); tasks.install(ex)
        size, cap, val = V("size"), z3.BitVec("capacity", 64), z3.BitVec("value", 8 * isize)
        st.assume(z3.UGE(cap, Z(size))); st.assume(z3.ULE(cap, 1 << 40))
        src = ex.new_cells(st, isize, "value"); ex.store(st, src, val, _IT(8 * isize))
        dst = ex.new_array(st, isize, cap, "dst"); o0 = st.mem[dst.obj]
        st.assume((val == 0) == zero)
        def cmp(ex, st, a, i):      # decided comparisons (all of them here, by the case distinction on the value) do not fork
            r = ex.ext_cmp(st, "memcmp", list(a[:3]))
            if not is_sym(r): return r
            if ex.pv.prove(st.pc, bv(r, 32) == 0, full=False)[0] == "proved": return 0
            return 1 if ex.pv.prove(st.pc, bv(r, 32) != 0, full=False)[0] == "proved" else r
        ex.contracts["memcmp"] = ex.contracts["bcmp"] = cmp
        for k, s2, v in ex.call(st, "w_memset", [dst, size, isize, src]):
            subs = s2.ghost.get("subs", []); ex.oblige(s2, "fill returns", k == 'ret')
            if not subs: ex.oblige(s2, "nothing is done only for empty ranges", size == 0); c.cover(ex, s2, "empty"); continue
            ex.oblige(s2, "exactly one work unit", z3.And(z3.BoolVal(len(subs) == 1), bv(subs[0].n, 32) == 1)); ex.oblige(s2, "the source value is not needed after the call", True)
            ex.store(s2, src, fresh("overwritten", 8 * isize), _IT(8 * isize))
            for k3, s3, v3 in tasks.item(ex, s2, subs[0], 0):
                ex.oblige(s3, "work unit does not raise", k3 == 'ret')
                w0, w1 = bv(ex.arr_read(o0, X), 8 * isize), bv(ex.arr_read(s3.mem[dst.obj], X), 8 * isize)
                ex.oblige(s3, "every element of the range receives the value, everything else is unchanged", w1 == z3.If(z3.ULT(X, Z(size) + (1 if canary else 0)), val, w0)); c.cover(ex, s3, "filled")
    return t
from redspec import _IT
for n in (1, 2, 4, 8): s.task(f"memset_async isize={n}", memset(n), "r")
s.task("canary: memset_async", lambda c: memset(4)(c, True), "r", kind="canary")
def memset_other(c):
    ex = c.exec(full_ms=20000); st = State(); tasks.install(ex); size, isize = V("size"), V("isize")
    for n in (1, 2, 4, 8): st.assume(isize != n)
    dst = ex.new_array(st, 1, z3.BitVec("capacity", 64), "dst"); o0 = st.mem[dst.obj]; src = ex.new_cells(st, 8, "value")
    for k, s2, v in ex.call(st, "w_memset", [dst, size, isize, src]):
        ex.oblige(s2, "other element sizes are refused without effect", k != 'ret' and not s2.ghost.get("subs") and s2.mem[dst.obj].layers == o0.layers); c.cover(ex, s2, "refused")
s.task("memset_async: invalid element sizes", memset_other, "r")
def poke(c):
    for n in (1, 2, 4, 8):
        ex = c.exec(full_ms=20000); st = State(); tasks.install(ex); val, off, cap = z3.BitVec("value", 8 * n), z3.BitVec("offset", 64), z3.BitVec("capacity", 64)
        for f in (z3.ULE(cap, 1 << 60), z3.ULE(off, cap), z3.ULE(n, cap - off)): st.assume(f)
        src = ex.new_cells(st, n, "value"); ex.store(st, src, val, _IT(8 * n)); dst = ex.new_array(st, 1, cap, "dst"); o0 = st.mem[dst.obj]
        for k, s2, v in ex.call(st, "w_poke", [Ptr(dst.obj, off), src, n]):
            subs = s2.ghost.get("subs", []); ex.oblige(s2, "exactly one work unit", z3.And(z3.BoolVal(k == 'ret' and len(subs) == 1), bv(subs[0].n, 32) == 1) if subs else False)
            ex.store(s2, src, fresh("overwritten", 8 * n), _IT(8 * n))
            for k3, s3, v3 in tasks.item(ex, s2, subs[0], 0):
                ex.oblige(s3, "work unit does not raise", k3 == 'ret')
                w0, w1 = bv(ex.arr_read(o0, X), 8), bv(ex.arr_read(s3.mem[dst.obj], X), 8); d = X - off
                want = w0
                for i in range(n): want = z3.If(d == i, z3.Extract(8 * i + 7, 8 * i, val), want)
                ex.oblige(s3, "exactly the bytes of the element are written", w1 == want); c.cover(ex, s3, f"poke {n}")
s.task("poke", poke, "r")
def memcpy(sync):
    def t(c):
        ex = c.exec(full_ms=20000); st = State(); tasks.install(ex); n, cap = z3.BitVec("size", 64), z3.BitVec("capacity", 64)
        st.assume(z3.And(z3.ULE(n, cap), z3.ULE(cap, 1 << 60)))
        src = ex.new_array(st, 1, n, "src", writable=False); dst = ex.new_array(st, 1, cap, "dst"); o0 = st.mem[dst.obj]; i0 = st.mem[src.obj]
        ex.contracts["task_wait_and_release"] = lambda ex, st, a, i: st.ghost.update(waited=st.ghost.get("waited", 0) + 1, subs_at_wait=len(st.ghost.get("subs", [])))
        for f in ex.mod.fns.values():
            if f.dname.startswith(("unlock_guard::", "unlock_guard<")) or "unlock_guard" in f.dname.split("(")[0]: ex.contracts[f.name] = lambda ex, st, a, i: None
        for k, s2, v in ex.call(st, "w_memcpy" if sync else "w_memcpy_async", [dst, src, n]):
            subs = s2.ghost.get("subs", []); ex.oblige(s2, "exactly one work unit", z3.And(z3.BoolVal(k == 'ret' and len(subs) == 1), bv(subs[0].n, 32) == 1) if subs else False)
            if sync: ex.oblige(s2, "the copy is awaited", s2.ghost.get("waited", 0) == 1 and s2.ghost["subs_at_wait"] == 1)
            for k3, s3, v3 in tasks.item(ex, s2, subs[0], 0):
                ex.oblige(s3, "work unit does not raise", k3 == 'ret')
                w0, w1, wi = [bv(ex.arr_read(o, X), 8) for o in (o0, s3.mem[dst.obj], i0)]
                ex.oblige(s3, "the range is copied, everything else is unchanged", w1 == z3.If(z3.ULT(X, n), wi, w0)); c.cover(ex, s3, "copied")
    return t
s.task("memcpy_async", memcpy(False), "r"); s.task("memcpy", memcpy(True), "r")
def params(st):
    size, ideal, cores, cap = V("size"), V("ideal"), V("cores"), z3.BitVec("capacity", 64)
    for x in (z3.UGE(cores, 1), z3.ULE(cores, 4096), z3.UGE(ideal, 2), z3.ULE(ideal, 1 << 30), z3.ULE(cap, 1 << 60), z3.UGE(size, 1)): st.assume(x)
    st.ghost["cores"] = cores
    return size, ideal, cores, cap, z3.If(cores == 1, size, ideal)      # last: size of a work unit
def split(c):
    ex = c.exec(full_ms=20000, quick_ms=100); st = State(); tasks.install(ex); std_minmax(ex)
    size, ideal, cores, cap, wus = params(st); agg, dst = ex.new_cells(st, None, "entries"), ex.new_cells(st, None, "dst")
    for k, s2, v in ex.call(st, "w_aggregate", [ideal, dst, agg, size]):
        subs = s2.ghost.get("subs", []); ex.oblige(s2, "one group of work units", k == 'ret' and len(subs) == 1)
        if len(subs) != 1: continue
        n = bv(subs[0].n, 32)
        for one in (True, False):
            u = s2.copy(); u.assume((cores == 1) == one); w = size if one else ideal
            ex.oblige(u, "the work units partition the list: they cover all entries and none is empty", z3.And(eq_ceil(n, size, w), n != 0)); c.cover(ex, u, "split")
            ex.oblige(u, "a work unit starts at an existing entry", z3.Implies(z3.ULT(V("idx"), n), z3.ULT(Z(V("idx")) * Z(w), Z(size))))
s.task("aggregate: work units", split, "r")
def aggregate(c, canary=False):
  for one in (True, False):
    ex = c.exec(full_ms=20000, quick_ms=200); st = State(); tasks.install(ex); std_minmax(ex); ex.nl = True; ex.pv.int_first = 5000
    size, ideal, cores, cap, wus = params(st); st.assume((cores == 1) == one); wus = size if one else ideal
    agg = ex.new_array(st, 8, Z(size) * 2, "entries", writable=False); dst = ex.new_array(st, 1, cap, "dst"); ents = st.mem[agg.obj]
    A = lambda x: bv(ex.arr_read(ents, x), 64)
    G = {}
    def hook(ex, st, v):
        if ex.dry and "S" in G and getattr(v, "num_args", lambda: 1)(): return G["S"]
        if "S" in G and ex.pv.prove(st.pc, bv(v, 64) == G["src"], full=False)[0] == "proved": return G["S"]
    ex.ptr_hook = hook
    def pre(ctx, t):
        nm = next(iter(ctx.names.values()), None)
        if nm is None: nm = z3.simplify(z3.Extract(31, 0, G["start"] + ctx.k))
        elif ex.pv.prove(t.pc, Z(nm) == G["start"] + ctx.k, full=False)[0] == "proved":
            ex.oblige(t, "entry index does not wrap around", Z(nm) == G["start"] + ctx.k); t.assume(Z(nm) == G["start"] + ctx.k)
        G["i"] = nm; i = Z(nm); w0 = A(i * 2); G["sz"] = sz = z3.Extract(15, 0, w0); G["off"] = off = z3.ZeroExt(32, z3.Extract(63, 32, w0)); G["src"] = A(i * 2 + 1)
        n = z3.If(sz > 0, sz, -sz); G["n"] = n = z3.SignExt(48, n)
        # precondition on the entry: a size of 1, 2, 4 or 8 bytes, inside the destination; negative: the address of as many readable bytes
        t.assume(z3.Or(*[z3.Or(sz == v, sz == -v) for v in (1, 2, 4, 8)])); t.assume(z3.And(z3.ULE(off, cap), z3.ULE(n, cap - off)))
        G["S"] = ex.new_array(t, 1, n, "source", writable=False)
        G["src0"] = t.mem[G["S"].obj]
    def iteration(ctx, pre, e):
        kind, t = e[0], e[1]
        if kind == 'back':
            o0, o1 = pre.mem[dst.obj], t.mem[dst.obj]; w0, w1 = bv(ex.arr_read(o0, X), 8), bv(ex.arr_read(o1, X), 8); d = X - G["off"]
            lit = w0
            for b in range(8): lit = z3.If(d == b, z3.Extract(8 * b + 7, 8 * b, G["src"]), lit)
            want = z3.If(z3.ULT(d, G["n"]), z3.If(G["sz"] > 0, lit, bv(ex.arr_read(G["src0"], d), 8)), w0)
            if canary: want = z3.If(z3.ULT(d, G["n"]), lit, w0)
            ex.oblige(t, "an entry writes its literal or the contents of its address at its offset, and nothing else", w1 == want)
            ex.oblige(t, "only entries of the list", z3.ULT(Z(G["i"]), Z(size))); c.cover(ex, t, "entry")
            G["k_i"] = True
        elif kind == 'exit': ex.oblige(t, "all entries of the work unit are processed", G["start"] + ctx.k == G["end"])
        else: ex.oblige(t, "no failure", False)
    def spec(fn, header):
        def cands(ctx): return [Pred(lambda env: z3.ULE(G["start"] + env.k, G["end"]), "in range")]
        return LoopSpec(mode="cut", havoc=iteration, havoc_pre=pre, rename=True, cands=cands)
    ex.loopspecs.append(("aggregate", spec))
    for k, s2, v in ex.call(st, "w_aggregate", [ideal, dst, agg, size]):
        subs = s2.ghost.get("subs", []); ex.oblige(s2, "one group of work units", k == 'ret' and len(subs) == 1)
        if len(subs) != 1: continue
        n, idx = bv(subs[0].n, 32), V("idx")
        p = ex.prod32(s2, idx, wus); s2.assume(z3.ULT(idx, n)); s2.assume(z3.ULT(p, Z(size)))    # proved in "work units"
        G["start"], G["end"] = p, umin(p + Z(wus), Z(size))
        for k3, s3, v3 in tasks.item(ex, s2, subs[0], idx):
            ex.oblige(s3, "work unit does not raise", k3 == 'ret'); c.cover(ex, s3, "work unit")
s.task("aggregate", aggregate, "r")
s.task("canary: aggregate", lambda c: aggregate(c, True), "r", kind="canary")
s.native("fill.cpp", ["-fsanitize=address,undefined", "-fno-sanitize=vptr,signed-integer-overflow,alignment"])
if __name__ == "__main__": s.main()
