#!/usr/bin/env python3-vt
"""C16: launch configurations: CUDADevice::get_launch_config (src/internal.h), LLVMThreadState::launch (src/llvm_ts.cpp)"""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from core import *
import tasks
s = Suite("C16", "Launch configurations cover every element exactly once")
s.assumptions += ["CUDA: 1 <= SM count <= 4096, 1 <= max. threads <= 1024, blocks per SM limit <= 64",
                  "LLVM: at most 1024 worker threads; packet size and block size are powers of two, packet <= block <= 2^20",
                  "task_submit_dep runs func(i, payload copy) exactly once for every i below the work unit count",
                  "a range [start, end) handed to a kernel is processed element by element (property C23)"]
s.ir("g", "launch.cpp"); s.ir("l", "cpulaunch.cpp")
V = lambda n: z3.BitVec(n, 32)
def gpu_pre(st, mt=None):
    sm, size, maxt, mb = V('sm'), V('size'), V('maxt') if mt is None else mt, V('maxb')
    for k in (z3.ULE(1, sm), z3.ULE(sm, 1 << 12), z3.ULE(mb, 64), z3.ULE(1, size)): st.assume(k)
    if mt is None: st.assume(z3.ULE(1, maxt)); st.assume(z3.ULE(maxt, 1024))
    return sm, size, maxt, mb
def gpu_cover(c):
    ex = c.exec(full_ms=20000, quick_ms=500); st = State()
    sm, size, maxt, mb = gpu_pre(st)
    b, t = ex.new_cells(st, 4, 'b'), ex.new_cells(st, 4, 't')
    for k, s2, v in ex.call(st, 'w_config', [sm, size, maxt, mb, b, t]):
        B, T = bv(ex.load(s2, b, I32), 32), bv(ex.load(s2, t, I32), 32)
        B64, T64 = z3.ZeroExt(32, B), z3.ZeroExt(32, T)
        ex.oblige(s2, "without a block limit, blocks * threads >= size", z3.Or(mb != 0, z3.UGE(B64 * T64, z3.ZeroExt(32, size))))
        ex.oblige(s2, "threads per block is a positive multiple of the warp size", z3.And(T != 0, z3.URem(T, z3.BitVecVal(32, 32)) == 0))
        ex.oblige(s2, "at least one block", B != 0)
        c.cover(ex, s2, "returns")
s.task("get_launch_config: coverage", gpu_cover, "g")
def gpu_limits(w):
    def t(c):
        ex = c.exec(full_ms=20000, quick_ms=500); st = State()
        sm, size, maxt, mb = gpu_pre(st, 32 * w)
        b, t = ex.new_cells(st, 4, 'b'), ex.new_cells(st, 4, 't')
        for k, s2, v in ex.call(st, 'w_config', [sm, size, maxt, mb, b, t]):
            B, T = bv(ex.load(s2, b, I32), 32), bv(ex.load(s2, t, I32), 32)
            ex.oblige(s2, "threads per block within the kernel's limit", z3.ULE(T, 32 * w))
            if w in (1, 32): ex.oblige(s2, "block limit is respected", z3.Implies(z3.And(mb != 0), z3.ULE(z3.ZeroExt(32, B), z3.ZeroExt(32, mb) * z3.ZeroExt(32, sm))))
    return t
for w in (1, 2, 3, 4, 6, 8, 16, 20, 24, 32): s.task(f"get_launch_config: limits, max_threads={32*w}", gpu_limits(w), "g")
for w in range(1, 33):
    if w not in (1, 2, 3, 4, 6, 8, 16, 20, 24, 32): s.task(f"get_launch_config: limits, max_threads={32*w}", gpu_limits(w), "g", thorough_only=True)
def gpu_null(c):
    ex = c.exec(full_ms=20000, quick_ms=500); st = State()
    sm, size, maxt, mb = gpu_pre(st, 1024)
    b, t = ex.new_cells(st, 4, 'b'), ex.new_cells(st, 4, 't')
    for k, s2, v in ex.call(st, 'w_config_null', [sm, size, b, t]):
        ex.oblige(s2, "null outputs are allowed", z3.And(bv(ex.load(s2, b, I32), 32) != 0, bv(ex.load(s2, t, I32), 32) != 0))
s.task("get_launch_config: null outputs", gpu_null, "g")

def cpu(vec, blks, canary=False):
    def t(c):
        for blk in blks:
            ex = c.exec(full_ms=20000, quick_ms=500); st = State()
            tasks.install(ex)
            size, cores, tid = V('size'), V('cores'), V('tid')
            st.ghost.update(cores=cores, tid=tid); S64 = z3.ZeroExt(32, size)
            st.assume(z3.ULE(1, size)); st.assume(z3.ULE(cores, 1024))
            def kern(ex, st, a, i):
                st.ghost["calls"] = st.ghost.get("calls", []) + [a]
                return None
            ex.contracts["ghost_kernel"] = kern
            extra = ex.new_cells(st, 8, "user_param")
            for k, s2, v in ex.call(st, 'w_launch', [vec, blk, size, extra]):
                ex.oblige(s2, "launch returns", k == 'ret')
                subs = s2.ghost.get("subs", [])
                ex.oblige(s2, "exactly one group of work units is submitted", len(subs) == 1)
                if len(subs) != 1: continue
                sub = subs[0]
                n = bv(sub.n, 32)
                ex.oblige(s2, "at least one work unit", n != 0)
                def run(st, i, then):
                    for k, s3, v in tasks.item(ex, st, sub, i):
                        ex.oblige(s3, "work unit does not raise", k == 'ret')
                        cs = s3.ghost.get("calls", []); s3.ghost["calls"] = []
                        ex.oblige(s3, "a work unit invokes the kernel at most once", len(cs) <= 1)
                        r = None
                        if cs:
                            a = cs[0]; r = (bv(a[0], 64), bv(a[1], 64))
                            ex.oblige(s3, "range is non-empty and within the array", z3.And(z3.ULT(r[0], r[1]), z3.ULE(r[1], S64)))
                            ex.oblige(s3, "range starts at a packet boundary", z3.URem(r[0], z3.BitVecVal(vec, 64)) == 0)
                            ex.oblige(s3, "thread index of the executing worker is passed", eq(a[2], tid, 32))
                            p = a[3]
                            q = ex.load(s3, Ptr(p.obj, add64(p.off, 24)), PTR) if isinstance(p, Ptr) else None
                            ex.oblige(s3, "kernel parameters reach the kernel unchanged", isinstance(q, Ptr) and q.obj == extra.obj)
                            if canary: ex.oblige(s3, "canary: full blocks only", r[1] - r[0] == blk)
                        then(s3, r)
                def first(s3, r):
                    ex.oblige(s3, "first work unit starts at element 0", r is not None and r[0] == 0)
                run(s2.copy(), 0, first)
                t2 = s2.copy(); t2.assume(n != 0)
                def last(s3, r):
                    if r is not None: ex.oblige(s3, "last work unit ends at the end of the array", r[1] == S64); c.cover(ex, s3, "last unit active")
                run(t2, simp(n - 1), last)
                t3 = s2.copy(); i = V('i'); t3.assume(z3.ULT(i, n - 1)); t3.assume(n != 0)
                def one(s3, r):
                    def two(s4, r2):
                        if r is None: ex.oblige(s4, "inactive work units come last", r2 is None)
                        elif r2 is None: ex.oblige(s4, "the last active work unit ends at the end of the array", r[1] == S64)
                        else: ex.oblige(s4, "consecutive work units are adjacent", r[1] == r2[0]); c.cover(ex, s4, "adjacent")
                    run(s3, i + 1, two)
                run(t3, i, one)
    return t
for vec in (1, 2, 4, 8, 16, 32):
    q = sorted({vec, 16384, 1 << 20})
    s.task(f"LLVMThreadState::launch packet={vec}", cpu(vec, q), "l")
    s.task(f"LLVMThreadState::launch packet={vec} all block sizes", cpu(vec, [1 << k for k in range(21) if 1 << k > vec and 1 << k not in q]), "l", thorough_only=True)
s.task("canary", cpu(8, [64], True), "l", kind="canary")
s.native("launch.cpp", flags=["-fsanitize=address,undefined", "-fno-sanitize=vptr"], always=True)
if __name__ == "__main__": s.main()
