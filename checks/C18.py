#!/usr/bin/env python3-vt
"""C18: contracts on src/llvm_memmgr.cpp"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from core import *
s = Suite("C18", "JIT code memory sections are aligned, disjoint and in bounds")
s.assumptions += ["posix_memalign(p, a, n) either fails leaving *p unchanged or yields a fresh a-aligned block of n bytes; free() releases a block",
                  "IR size below 2^48 (size * 10 does not overflow)",
                  "jitc_raise throws"]
s.ir("m", "memmgr.cpp"); s.ir("mdbg", "memmgr.cpp", ["-UNDEBUG"])
B = lambda v: bv(v, 64)
def setup(c):
    ex = c.exec()
    C = ex.contracts
    def palign(ex, st, a, inst):
        ex.oblige(st, "buffer is page aligned", eq(a[1], 4096, 64))
        t = st.copy()                                    # failure
        n = simp(B(a[2]))
        p = ex.new_array(st, 1, n, "heap_buf")
        ex.store(st, a[0], p, PTR)
        return Multi([(st, 'ret', 0), (t, 'ret', 12)])
    C["posix_memalign"] = palign
    for f in c.mod.fns.values():
        if f.dname.startswith("jitc_raise("): C[f.name] = lambda ex, st, a, i: RAISE
        if f.dname.startswith("jitc_log("): C[f.name] = lambda ex, st, a, i: None
    return ex
def get(ex, st, fn, args=()):
    r = ex.call(st, fn, list(args))
    assert len(r) == 1 and r[0][0] == 'ret', r
    return r[0][1], r[0][2]
def states(c, ex):
    """every state reachable after prepare + any number of allocate calls: invariant offset <= size, arbitrary content"""
    n = z3.BitVec("irsize", 64)
    st = State(); st.assume(z3.ULT(n, z3.BitVecVal(1 << 48, 64)))
    out = []
    for kind, t, v in ex.call(st, "w_prepare", [n]):
        if kind != 'ret': continue
        off0, got0 = z3.BitVec("offset0", 64), z3.Bool("got0")
        t, d = get(ex, t, "w_data")
        ok = isinstance(d, Ptr) and d.obj is not None
        ex.oblige(t, "prepare succeeds with a buffer", ok)
        if not ok: continue
        size = t.mem[d.obj].size
        t.assume(z3.ULE(off0, B(size)))
        t, _ = get(ex, t, "w_set_offset", [off0]); t, _ = get(ex, t, "w_set_got", [got0])
        out.append((t, d, size, off0, got0))
    return out
def alloc_task(fn, align):
    def t(c):
        ex = setup(c)
        for st, d, size, off0, got0 in states(c, ex):
            req = z3.BitVec("req", 64)
            name = ex.new_cells(st, 8, "secname", lazy=lambda ex, st, o, off, n, k: z3.BitVec(f"nm{off}", 8 * n))
            pre = st.mem[d.obj].clone(None)
            args = [req, align, z3.BitVec("id", 32), name] + ([z3.BitVec("ro", 32)] if "data" in fn else [])
            al = align or 16
            tight = (off0 + (al - 1)) & z3.BitVecVal(~(al - 1) & mask(64), 64)
            fits = z3.And(z3.ULE(tight, B(size)), z3.ULE(req, B(size) - tight))
            isgot = z3.And([z3.BitVec(f"nm{i}", 8) == b for i, b in enumerate(b".got")])
            for kind, t2, v in ex.call(st, fn, args):
                ex.oblige(t2, "allocate does not raise", kind == 'ret')
                if kind != 'ret': continue
                t2, d2 = get(ex, t2, "w_data"); t2, o2 = get(ex, t2, "w_offset"); t2, g2 = get(ex, t2, "w_got")
                ex.oblige(t2, "buffer is not replaced", isinstance(d2, Ptr) and d2.obj == d.obj and eq(d2.off, 0, 64))
                post = t2.mem[d.obj]
                x = fresh("x", 64)
                ex.oblige(t2, "bytes of earlier sections are preserved", z3.Implies(z3.ULT(x, off0), ex.arr_read(post, x) == ex.arr_read(pre, x)))
                ex.oblige(t2, "invariant: offset within the buffer", z3.ULE(B(o2), B(size)))
                ex.oblige(t2, "offset never moves backwards", z3.UGE(B(o2), off0))
                ex.oblige(t2, "a .got section (and nothing else) raises the GOT flag", tobool(g2) == z3.Or(got0, isgot))
                if isinstance(v, Ptr) and v.obj is None:
                    ex.oblige(t2, "only requests that do not fit are refused", z3.And(eq(v.off, 0, 64), z3.Not(fits)))
                    c.cover(ex, t2, "refusal reachable")
                    continue
                ex.oblige(t2, "section lies in the buffer object", isinstance(v, Ptr) and v.obj == d.obj)
                r = B(v.off)
                ex.oblige(t2, "section is aligned", (r & (al - 1)) == 0)
                ex.oblige(t2, "section starts after all earlier sections", z3.UGE(r, off0))
                ex.oblige(t2, "section ends within the buffer", z3.And(z3.ULE(r, B(size)), z3.ULE(req, B(size) - r)))
                ex.oblige(t2, "offset covers the section", z3.UGE(B(o2), r + req))
                ex.oblige(t2, "padding is zero-filled", z3.Implies(z3.And(z3.UGE(x, off0), z3.ULT(x, r)), ex.arr_read(post, x) == 0))
                c.cover(ex, t2, "success reachable")
    return t
for a in [0] + [1 << i for i in range(0, 32)]:
    s.task(f"allocate align={a}", alloc_task("w_alloc", a), "m")
for a in (0, 1, 16, 4096): s.task(f"allocate_data align={a}", alloc_task("w_alloc_data", a), "m")
s.task("allocate align=64 (debug build)", alloc_task("w_alloc", 64), "mdbg")
def prepare(c):
    ex = setup(c)
    for st, d, size, off0, got0 in states(c, ex):
        n = z3.BitVec("irsize2", 64); st.assume(z3.ULT(n, z3.BitVecVal(1 << 48, 64)))
        for kind, t, v in ex.call(st, "w_prepare", [n]):
            t, d2 = get(ex, t, "w_data"); t, o2 = get(ex, t, "w_offset")
            if kind == 'ret':
                ok = isinstance(d2, Ptr) and d2.obj is not None and t.mem[d2.obj].alive
                ex.oblige(t, "prepare leaves a live buffer", ok)
                if ok:
                    ex.oblige(t, "buffer start", eq(d2.off, 0, 64))
                    ex.oblige(t, "buffer capacity is at least 10x the IR size", z3.UGE(B(t.mem[d2.obj].size), n * 10))
                ex.oblige(t, "offset is reset", eq(o2, 0, 64))
                c.cover(ex, t, "prepare ok")
            nm = ex.new_cells(t, 8, "nm", lazy=lambda ex, st, o, off, n, k: 65)
            # whatever happened: later requests must not touch released memory / leave the buffer
            for k2, t2, v2 in ex.call(t.copy(), "w_alloc", [z3.BitVec("r3", 64), 16, 0, nm]):
                c.cover(ex, t2, "allocate after prepare")
            for k2, t2, v2 in ex.call(t.copy(), "w_prepare", [z3.BitVec("irsize3", 64) & 0xffffffff]):
                c.cover(ex, t2, "prepare after prepare")
            for k2, t2, v2 in ex.call(t, "w_shutdown", []):
                t2, d3 = get(ex, t2, "w_data"); t2, o3 = get(ex, t2, "w_offset")
                ex.oblige(t2, "shutdown clears the buffer", isinstance(d3, Ptr) and d3.obj is None)
                ex.oblige(t2, "shutdown releases the buffer", not any(o.alive for i, o in t2.mem.items() if i.startswith("heap")))
                t2, g3 = get(ex, t2, "w_got")
                ex.oblige(t2, "shutdown resets the GOT flag and offset", z3.And(z3.Not(tobool(g3)), eq(o3, 0, 64)))
                # a request without a buffer is refused and writes nothing
                for k3, t3, v3 in ex.call(t2, "w_alloc", [1 , 16, 0, nm]):
                    ex.oblige(t3, "request without buffer is refused", isinstance(v3, Ptr) and v3.obj is None)
s.task("prepare / shutdown", prepare, "m")
def canary(c):
    ex = setup(c)
    for st, d, size, off0, got0 in states(c, ex):
        for kind, t2, v in ex.call(st, "w_alloc", [z3.BitVec("req", 64), 16, 0, ex.new_cells(st, 8, "nm", lazy=lambda ex, st, o, off, n, k: z3.BitVec(f"nm{off}", 8 * n))]):
            if isinstance(v, Ptr) and v.obj: ex.oblige(t2, "canary: 32-byte alignment", (B(v.off) & 31) == 0)
s.task("canary", canary, "m", kind="canary")
s.native("memmgr.cpp", flags=["-fsanitize=address,undefined", "-fno-sanitize=vptr"], always=True)
if __name__ == "__main__": s.main()
