#!/usr/bin/env python3-vt
"""C07: CPU block reductions (src/llvm_red.h, src/llvm_ts.cpp, src/var.cpp)"""
import sys, os, re; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from core import *
import tasks
from redspec import *
from varred import *
from redspec import _FT, _IT
from run import _T
s = Suite("C07", "CPU block reductions compute the exact block-wise fold")
s.ir("r", "red.cpp")
def kernel(ty, op, canary=False):
    def t(c):
        ex = c.exec(full_ms=30000, quick_ms=120); ex.nl = True; ex.comm_ite = True; ex.pv.int_first = 5000
        st = State(); tasks.install(ex); std_minmax(ex)
        R = Red(ex, ty, op); ch = Chunks(ex, st)
        es = R.w // 8
        inp = ex.new_array(st, es, Z(ch.size), "in", writable=False); out = ex.new_array(st, es, Z(ch.cc), "out")
        F = z3.Function("Fold", z3.BitVecSort(64), z3.BitVecSort(R.vw))
        G = {}
        rd = lambda st, x: ex.arr_read(st.mem[inp.obj], x)
        def pre(ctx, t):
            G["i"], G["lo"], G["hi"] = ch.chunk(t, ch.named(ctx, t))
        def iteration(ctx, pre, e):
            kind, t = e[0], e[1]
            if kind == 'back':
                i, lo, hi = G["i"], G["lo"], G["hi"]
                x = z3.BitVec("x!any", 64)
                w0, w1 = bv(ex.arr_read(pre.mem[out.obj], x), R.w), bv(ex.arr_read(t.mem[out.obj], x), R.w)
                ex.oblige(t, "nothing but the chunk's own result is written", z3.Or(x == i, w0 == w1))
                r = bv(ex.arr_read(t.mem[out.obj], i), R.w)
                for cond, n in ((z3.ULT(lo, hi), hi - lo), (z3.UGE(lo, hi), z3.BitVecVal(0, 64))):
                    u = t.copy(); u.assume(cond)
                    ex.oblige(u, "a chunk's result is the fold of exactly its elements" + (" (non-empty chunk)" if n is not None and cond.decl().name() == "bvult" else " (empty chunk)"), r == R.down(F(n + 1 if canary else n)))
                    if cond.decl().name() == "bvult": c.cover(ex, u, "non-empty chunk")
                ex.oblige(t, "only chunks of this work unit are processed", z3.ULT(G["i"], ch.last))
                c.cover(ex, t, "chunk processed")
            elif kind == 'exit':
                ex.oblige(t, "all chunks of the work unit are processed", ch.first + ctx.k == ch.last)
            else: ex.oblige(t, "kernel does not raise", False)
        def spec(fn, header):
            if outer(ex.mod, fn, header): return LoopSpec(mode="cut", havoc=iteration, havoc_pre=pre, rename=True)
            def defs(ctx):
                r0 = lambda k: rd(ctx.st0, G["lo"] + k)
                return lambda k: [F(z3.BitVecVal(0, 64)) == R.ident(), z3.Implies(z3.ULT(G["lo"] + k, Z(ch.size)), F(k + 1) == R.red(F(k), R.up(bv(r0(k), R.w))))]
            def cands(ctx):
                return [Eq(tg, lambda k: F(k), "accumulator is the fold of the first k elements") for tg in ctx.accs]
            return LoopSpec(mode="cut", cands=cands, defs=defs)
        ex.loopspecs.append(("create_block_reduction_2", spec))
        for k, s2, v in ex.call(st, "w_red_kernel", [R.vt, OPS[op], ch.index, ch.wus, ch.size, ch.bs, ch.cs, ch.cc, ch.cpb, inp, out]):
            ex.oblige(s2, "kernel returns", k == 'ret')
            c.cover(ex, s2, "kernel returns")
    return t
for ty in TYPES:
    for op in OPS:
        if supported(ty, op):
            s.task(f"block_reduce kernel {ty} {op}", kernel(ty, op), "r")
s.task("canary: kernel", kernel("UInt32", "Add", True), "r", kind="canary")

def driver(ty, canary=False):
    def t(c):
        ex = c.exec(full_ms=20000, quick_ms=100); st = State(); tasks.install(ex); alloc_contract(ex); std_minmax(ex)
        ex.div_ghost = False
        vt, w, _ = TYPES[ty]; es = w // 8
        record_kernel(ex, "create_block_reduction", 9)
        size, bs, ideal, op, cores, lg = V("size"), V("bs"), V("ideal"), V("op"), V("cores"), V("lg")
        bc = z3.UDiv(size, bs) + z3.If(z3.URem(size, bs) != 0, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
        # block size setting: a power of two (jit_llvm_set_block_size); at least one thread
        for x in (z3.UGE(cores, 1), z3.ULE(cores, 4096), z3.UGE(ideal, 2), z3.ULE(ideal, 1 << 30), z3.UGE(op, 1), z3.ULE(op, 6)): st.assume(x)
        st.ghost["cores"] = cores
        type_table(ex, st)
        inp = ex.new_cells(st, None, "in"); out = ex.new_cells(st, None, "out")
        def rec(ex, st, a, i):
            st.ghost["rec"] = st.ghost.get("rec", []) + [a[1:]]; st.ghost["subs_at_rec"] = len(st.ghost.get("subs", []))
        nm = next(f.name for f in ex.mod.fns.values() if f.dname.startswith("LLVMThreadState::block_reduce("))
        first = [0]
        orig = ex.find_contract
        def find(name):
            if name == nm:
                # the outermost call is verified; recursive calls use the contract
                return rec if first[0] else first.__setitem__(0, 1)
            return orig(name)
        ex.find_contract = find
        def copy(ex, st, a, i): st.ghost["copies"] = st.ghost.get("copies", []) + [a[1:]]
        ex.contracts["LLVMThreadState::memcpy_async"] = copy
        for k, s2, v in ex.call(st, "w_block_reduce", [vt, op, ideal, size, bs, inp, out]):
            g = s2.ghost; subs = g.get("subs", []); cp = g.get("copies", []); recs = g.get("rec", [])
            if k != 'ret':
                ex.oblige(s2, "only invalid block sizes are refused", z3.And(size != 0, z3.Or(bs == 0, z3.UGT(bs, size)))); c.cover(ex, s2, "refused")
                ex.oblige(s2, "a refused reduction does nothing", not subs and not cp and not recs); continue
            if not subs:
                if cp:
                    ex.oblige(s2, "single-element blocks: the array is copied", z3.And(z3.BoolVal(len(cp) == 1 and samep(cp[0][0], out) and samep(cp[0][1], inp)), bs == 1, size != 0, bv(cp[0][2], 64) == Z(size) * es))
                    c.cover(ex, s2, "copy")
                else: ex.oblige(s2, "nothing is done only for empty arrays", size == 0); c.cover(ex, s2, "empty")
                ex.oblige(s2, "no second pass without a first", not recs); continue
            ex.oblige(s2, "valid arguments", z3.And(size != 0, bs != 0, z3.ULE(bs, size)))
            ex.oblige(s2, "exactly one group of work units is submitted, nothing is copied", len(subs) == 1 and not cp)
            cr = g.get("created", [])
            ex.oblige(s2, "the kernel of the requested type and operation is used", z3.And(z3.BoolVal(len(cr) == 1), bv(cr[0][0], 32) == vt, bv(cr[0][1], 32) == op))
            n = bv(subs[0].n, 32); idx = V("idx"); s2.assume(z3.ULT(idx, n))
            for k3, s3, v3 in tasks.item(ex, s2, subs[0], idx):
                ex.oblige(s3, "work unit does not raise", k3 == 'ret')
                cs = s3.ghost.get("calls", [])
                ex.oblige(s3, "a work unit invokes the kernel exactly once", len(cs) == 1)
                if len(cs) != 1: continue
                ki, wus, ksize, kbs, kcs, kcc, kcpb = [bv(x, 32) for x in cs[0][:7]]
                buf = cs[0][8]
                ex.oblige(s3, "kernel receives its work unit, the array and the block size", z3.And(z3.BoolVal(samep(cs[0][7], inp)), ki == idx, ksize == size, kbs == bs))
                ex.oblige(s3, "chunks are not empty", z3.And(kcs != 0, wus != 0))
                ex.oblige(s3, "every block is split into ceil(block size / chunk size) chunks", eq_ceil(kcpb, bs, kcs))
                ex.oblige(s3, "chunk count is the number of blocks times the chunks per block", Z(kcc) == Z(bc) * Z(kcpb))
                ex.oblige(s3, "work unit starts at an existing chunk", z3.ULT(Z(idx) * Z(wus), Z(kcc)))
                ex.oblige(s3, "work unit does not wrap around", z3.ULT(Z(idx) * Z(wus) + Z(wus), 1 << 32))
                ex.oblige(s3, "work units cover all chunks", z3.UGE(Z(n) * Z(wus), Z(kcc) + (1 if canary else 0)))
                if samep(buf, out):
                    ex.oblige(s3, "results are written directly only if blocks are not split", kcpb == 1)
                    ex.oblige(s3, "no second pass for unsplit blocks", not recs and not g.get("mallocs"))
                    c.cover(ex, s3, "direct")
                else:
                    ml = g.get("mallocs", [])
                    ex.oblige(s3, "partial results go to a scratch buffer of sufficient size", z3.And(z3.BoolVal(len(ml) == 1 and samep(ml[0][0], buf)), ml[0][1] == Z(kcc) * es) if ml else False)
                    ex.oblige(s3, "exactly one second pass, after the first, before the scratch buffer is released", len(recs) == 1 and g["subs_at_rec"] == 1 and len(g.get("frees", [])) == 1 and samep(g["frees"][0], buf))
                    if len(recs) != 1: continue
                    r = recs[0]
                    ex.oblige(s3, "the second pass reduces the partial results of each block", z3.And(z3.BoolVal(samep(r[4], buf) and samep(r[5], out)), bv(r[0], 32) == vt, bv(r[1], 32) == op, bv(r[2], 32) == kcc, bv(r[3], 32) == kcpb))
                    ex.oblige(s3, "the second pass has valid arguments", z3.And(kcpb != 0, z3.ULE(kcpb, kcc)))
                    ex.oblige(s3, "the second pass works on smaller blocks (termination)", z3.ULT(kcpb, bs))
                    c.cover(ex, s3, "two passes")
    return t
for ty in TYPES: s.task(f"block_reduce {ty}", driver(ty), "r", thorough_only=ty not in ("UInt8", "Float16", "UInt32", "Float64"))
s.task("canary: driver", driver("UInt32", True), "r", kind="canary")

def expand(ty, op):
    """reduce_expanded kernel: ptr[x] = op(..op(ptr[x], ptr[x + size])..., ptr[x + (exp - 1) * size]) for x in [start, end)"""
    def t(c):
        ex = c.exec(full_ms=30000, quick_ms=120); ex.nl = True; ex.comm_ite = True; ex.pv.int_first = 5000
        st = State(); tasks.install(ex); R = Red(ex, ty, op); std_minmax(ex); ex.data_mul = True
        es = R.w // 8
        start, end, exp, size = V("start"), V("end"), V("exp"), V("size")
        total = ex.prod32(st, exp, size)
        for x in (z3.ULE(start, end), z3.ULE(end, size), z3.UGE(exp, 1), z3.ULT(total, 1 << 32)): st.assume(x)
        ptr = ex.new_array(st, es, total, "ptr")
        o0 = st.mem[ptr.obj]
        init = lambda x: bv(ex.arr_read(o0, x), R.w)
        ch = z3.Function("chain", z3.BitVecSort(64), z3.BitVecSort(32), z3.BitVecSort(R.w))
        Ch = lambda x, j: z3.If(j == 1, init(x), ch(x, j))
        lo32 = lambda k: z3.Extract(31, 0, k)
        def spec(fn, header):
            loops = ex.mod.loops(fn)
            depth = sum(1 for h, b in loops.items() if header.idx in b) - 1
            size_of = len(loops[header.idx])
            inner = [h for h in loops if h != header.idx and h in loops[header.idx]]
            kind = {(0, 2): "blocks", (1, 1): "blk j", (2, 0): "blk k", (0, 1): "rest", (1, 0): "rest j"}[(depth, len(inner))]
            def prod_facts(st, j):
                p = ex.prod32(st, j, size)
                st.assume(z3.Implies(z3.And(z3.ULT(j, exp)), z3.ULE(p + Z(size), total)))      # (j + 1) * size <= exp * size
                return p
            def mk(ctx):
                """content of ptr before iteration k"""
                def phi(w=32): return [tg for tg in ctx.init if tg[0] == 'phi']
                i0 = G.get("i")
                if kind in ("blocks", "rest"):
                    step = 128 if kind == "blocks" else 1
                    tg = phi()[0]
                    base = bv(ctx.init[tg], 32)
                    def f(k):
                        return lambda x, prev: z3.If(z3.And(z3.UGE(x, Z(start)), z3.ULT(x, Z(base) + k * step)), Ch(x, exp), init(x))
                    return f
                i = G["i"]; B = 128 if kind.startswith("blk") else 1
                done = lambda x: z3.And(z3.UGE(x, Z(start)), z3.ULT(x, Z(i)))
                inb = lambda x: z3.And(z3.UGE(x, Z(i)), z3.ULT(x, Z(i) + B))
                if kind in ("blk j", "rest j"):
                    return lambda k: lambda x, prev: z3.If(done(x), Ch(x, exp), z3.If(inb(x), Ch(x, lo32(k) + 1), init(x)))
                j = G["j"]
                return lambda k: lambda x, prev: z3.If(done(x), Ch(x, exp), z3.If(z3.And(inb(x), z3.ULT(x, Z(i) + k)), Ch(x, j + 1), z3.If(inb(x), Ch(x, j), init(x))))
            def cands(ctx):
                r = [Content(ptr.obj, mk(ctx), "chained up to here")]
                return r + [Pred(lambda env: inrange(ctx, env.k), "no wrap-around")]
            def inrange(ctx, k):
                base = Z(bv(ctx.init[[tg for tg in ctx.init if tg[0] == 'phi'][0]], 32))
                if kind == "blocks": return z3.And(z3.ULE(k, 1 << 32), z3.ULE(base + 128 * k, Z(end)))
                if kind == "rest": return z3.And(z3.ULE(k, 1 << 32), z3.ULE(base + k, Z(end)))
                if kind == "blk k": return z3.ULE(k, 128)
                return z3.And(z3.ULE(k, 1 << 32), z3.ULE(k + 1, Z(exp)))
            def pre(ctx, t):
                """name the loop variables, state what is known about them"""
                for tg, nm in ctx.names.items():
                    v = nm
                    if kind in ("blocks", "rest"): G["i"] = nm
                    elif kind in ("blk j", "rest j"): G["j"] = nm
                    else: G["k"] = nm
                if kind in ("blk j", "rest j") and "j" in G: lemma(t, z3.And(Z(G["j"]) == ctx.k + 1, lo32(ctx.k) + 1 == G["j"]))
                if kind in ("blocks", "rest") and "i" in G: lemma(t, Z(G["i"]) == Z(bv(ctx.init[next(iter(ctx.names))], 32)) + ctx.k * (128 if kind == "blocks" else 1))
                if kind in ("blk j", "rest j") and "j" in G:
                    p = prod_facts(t, G["j"]); 
                    if kind == "rest j": step_def(t, Z(G["i"]))
                if kind == "blk k": step_def(t, Z(G["i"]) + ctx.k)
            def lemma(t, g):
                if ex.pv.prove(t.pc, g, full=False)[0] == "proved": ex.oblige(t, "loop variable does not wrap around", g); t.assume(g)
            def step_def(t, x):
                j = G["j"]; p = ex.prod32(t, j, size)
                R.st = t; t.assume(ch(x, j + 1) == R.red_t(Ch(x, j), init(x + p))); R.st = None
            return LoopSpec(mode="cut", cands=cands, havoc_pre=pre, rename="all")
        G = {}
        ex.loopspecs.append(("reduce_expanded_impl", spec))
        for k, s2, v in ex.call(st, "w_expand_kernel", [R.vt, OPS[op], ptr, start, end, exp, size]):
            ex.oblige(s2, "kernel returns", k == 'ret')
            x = z3.BitVec("x!any", 64)
            r = bv(ex.arr_read(s2.mem[ptr.obj], x), R.w)
            ex.oblige(s2, "every element of the range is the chained combination of its copies, all others are unchanged",
                      r == z3.If(z3.And(z3.UGE(x, Z(start)), z3.ULT(x, Z(end))), Ch(x, exp), init(x)))
            c.cover(ex, s2, "kernel returns")
    return t
for ty in TYPES:
    for op in OPS:
        if supported(ty, op) and ty != "UInt8": s.task(f"reduce_expanded kernel {ty} {op}", expand(ty, op), "r", thorough_only=not (ty == "UInt32" or op == "Add" or (op == "Min" and ty in ("Float16", "Float32", "Int32"))))
def dot_kernel(ty):
    """dot product kernel: out[0] = fma(a[end-1], b[end-1], .. fma(a[start], b[start], 0)) in the element type"""
    def t(c):
        ex = c.exec(full_ms=30000, quick_ms=120); ex.comm_ite = True
        st = State(); tasks.install(ex); R = Red(ex, ty, "Add"); w = R.w; es = w // 8
        start, end, size = V("start"), V("end"), V("size")
        for x in (z3.ULE(start, end), z3.ULE(end, size)): st.assume(x)
        a, b = [ex.new_array(st, es, Z(size), n, writable=False) for n in "ab"]; out = ex.new_array(st, es, z3.BitVecVal(1, 64), "out")
        F = z3.Function("Dot", z3.BitVecSort(64), z3.BitVecSort(w))
        rd = lambda p, x: bv(ex.arr_read(st.mem[p.obj], x), w)
        fma = lambda x, y, z: bv(ex.fintr("fma", [x, y, z], _FT(R.vw)), R.vw)
        def spec(fn, header):
            def defs(ctx):
                return lambda k: [F(z3.BitVecVal(0, 64)) == R.down(z3.BitVecVal(0, R.vw)),
                    F(k + 1) == R.down(fma(R.up(rd(a, Z(start) + k)), R.up(rd(b, Z(start) + k)), R.up(F(k))))]
            return LoopSpec(mode="cut", defs=defs, cands=lambda ctx: [Eq(tg, lambda k: F(k), "result is the dot product of the first k elements") for tg in ctx.accs] + [Pred(lambda env: z3.ULE(env.k, Z(end) - Z(start)), "in range")])
        ex.loopspecs.append(("reduce_dot_create", spec))
        for k, s2, v in ex.call(st, "w_dot_kernel", [R.vt, a, b, start, end, out]):
            ex.oblige(s2, "kernel returns", k == 'ret')
            ex.oblige(s2, "result is the dot product of the range", bv(ex.arr_read(s2.mem[out.obj], z3.BitVecVal(0, 64)), w) == F(Z(end) - Z(start)))
            c.cover(ex, s2, "kernel returns")
    return t
def dot_driver(ty):
    def t(c):
        ex = c.exec(full_ms=20000, quick_ms=100); st = State(); tasks.install(ex); alloc_contract(ex); std_minmax(ex); type_table(ex, st)
        vt, w, _ = TYPES[ty]; es = w // 8
        record_kernel(ex, "jitc_reduce_dot_create", 5)
        size, ideal, cores = V("size"), V("ideal"), V("cores")
        for x in (z3.UGE(cores, 1), z3.ULE(cores, 4096), z3.UGE(ideal, 1)): st.assume(x)
        st.ghost["cores"] = cores
        a, b, out = [ex.new_cells(st, None, n) for n in ("a", "b", "out")]
        def rec(ex, st, a, i): st.ghost["rec"] = st.ghost.get("rec", []) + [a[1:]]; st.ghost["subs_at_rec"] = len(st.ghost.get("subs", []))
        ex.contracts["LLVMThreadState::block_reduce"] = rec
        for k, s2, v in ex.call(st, "w_reduce_dot", [vt, ideal, a, b, size, out]):
            g = s2.ghost; subs = g.get("subs", [])
            ex.oblige(s2, "reduction returns", k == 'ret')
            ex.oblige(s2, "exactly one group of work units is submitted", len(subs) == 1)
            if k != 'ret' or len(subs) != 1: continue
            n = bv(subs[0].n, 32)
            cr = g.get("created", []); ex.oblige(s2, "the kernel of the requested type is used", z3.And(z3.BoolVal(len(cr) == 1), bv(cr[0][0], 32) == vt))
            def ranges(s3):
                cs = s3.ghost.get("calls", []); ex.oblige(s3, "a work unit invokes the kernel exactly once", len(cs) == 1)
                return cs[0]
            idx = V("idx"); s2.assume(z3.ULT(idx, n))
            for k3, s3, v3 in tasks.item(ex, s2.copy(), subs[0], idx):
                ex.oblige(s3, "work unit does not raise", k3 == 'ret')
                q = ranges(s3); st0, en, dst = bv(q[2], 32), bv(q[3], 32), q[4]
                ex.oblige(s3, "both arrays are passed", samep(q[0], a) and samep(q[1], b) or samep(q[0], b) and samep(q[1], a))
                ex.oblige(s3, "range lies in the array", z3.And(z3.ULE(st0, en), z3.ULE(en, size)))
                ex.oblige(s3, "first range starts at element 0", z3.Implies(idx == 0, st0 == 0))
                ex.oblige(s3, "last range ends at the end of the array", z3.Implies(idx == n - 1, en == size))
                if dst.obj == out.obj:
                    ex.oblige(s3, "the result is written directly only by a single work unit", z3.And(n == 1, bv(dst.off, 64) == 0))
                    ex.oblige(s3, "no second pass", not g.get("rec") and not g.get("mallocs")); c.cover(ex, s3, "direct")
                else:
                    ml, r, fr = g.get("mallocs", []), g.get("rec", []), g.get("frees", [])
                    ex.oblige(s3, "partial results go to a scratch buffer, one each", z3.And(z3.BoolVal(len(ml) == 1 and ml[0][0].obj == dst.obj), bv(dst.off, 64) == Z(idx) * es, z3.UGE(ml[0][1], Z(n) * es)) if ml else False)
                    ok = len(r) == 1 and g["subs_at_rec"] == 1 and len(fr) == 1 and samep(fr[0], ml[0][0])
                    ex.oblige(s3, "exactly one second pass, before the scratch buffer is released", ok)
                    if ok: ex.oblige(s3, "the second pass adds up all partial results", z3.And(z3.BoolVal(samep(r[0][4], ml[0][0]) and samep(r[0][5], out)), bv(r[0][0], 32) == vt, bv(r[0][1], 32) == OPS["Add"], bv(r[0][2], 32) == n, bv(r[0][3], 32) == n)); c.cover(ex, s3, "two passes")
                s4 = s3; s4.assume(z3.ULT(idx, n - 1)); s4.ghost["calls"] = []
                for k5, s5, v5 in tasks.item(ex, s4, subs[0], simp(idx + 1)):
                    q2 = ranges(s5); ex.oblige(s5, "consecutive ranges are adjacent", bv(q2[2], 32) == en); c.cover(ex, s5, "adjacent")
    return t
def expand_driver(c):
    ex = c.exec(full_ms=20000, quick_ms=100); st = State(); tasks.install(ex); alloc_contract(ex); std_minmax(ex); type_table(ex, st)
    record_kernel(ex, "reduce_expanded_create", 5)
    size, ideal, cores, exp, op = V("size"), V("ideal"), V("cores"), V("exp"), V("op")
    for x in (z3.UGE(cores, 1), z3.ULE(cores, 4096), z3.UGE(ideal, 1), z3.UGE(op, 1), z3.ULE(op, 6)): st.assume(x)
    st.ghost["cores"] = cores
    p = ex.new_cells(st, None, "ptr"); vt = TYPES["UInt32"][0]
    for k, s2, v in ex.call(st, "w_reduce_expanded", [vt, op, ideal, p, exp, size]):
        g = s2.ghost; subs = g.get("subs", [])
        ex.oblige(s2, "reduction returns", k == 'ret'); ex.oblige(s2, "exactly one group of work units is submitted", len(subs) == 1)
        if k != 'ret' or len(subs) != 1: continue
        n = bv(subs[0].n, 32); cr = g.get("created", [])
        ex.oblige(s2, "the kernel of the requested type and operation is used", z3.And(z3.BoolVal(len(cr) == 1), bv(cr[0][0], 32) == vt, bv(cr[0][1], 32) == op))
        idx = V("idx"); s2.assume(z3.ULT(idx, n))
        for k3, s3, v3 in tasks.item(ex, s2, subs[0], idx):
            cs = s3.ghost.get("calls", []); ex.oblige(s3, "a work unit invokes the kernel exactly once", len(cs) == 1)
            q = cs[0]; st0, en = bv(q[1], 32), bv(q[2], 32)
            ex.oblige(s3, "array, expansion factor and size are passed", z3.And(z3.BoolVal(samep(q[0], p)), bv(q[3], 32) == exp, bv(q[4], 32) == size))
            ex.oblige(s3, "range lies in the array", z3.And(z3.ULE(st0, en), z3.ULE(en, size)))
            ex.oblige(s3, "first range starts at element 0", z3.Implies(idx == 0, st0 == 0))
            ex.oblige(s3, "last range ends at the end of the array", z3.Implies(idx == n - 1, en == size))
            s3.assume(z3.ULT(idx, n - 1)); s3.ghost["calls"] = []
            for k5, s5, v5 in tasks.item(ex, s3, subs[0], simp(idx + 1)):
                q2 = s5.ghost["calls"][0]; ex.oblige(s5, "consecutive ranges are adjacent", bv(q2[1], 32) == en); c.cover(ex, s5, "adjacent")
for ty in ("Float16", "Float32", "Float64"):
    s.task(f"reduce_dot kernel {ty}", dot_kernel(ty), "r"); s.task(f"reduce_dot {ty}", dot_driver(ty), "r")
s.task("reduce_expanded driver", expand_driver, "r")
def lemmas(c):
    """arithmetic and algebra that composes the contracts (over mathematical integers / all machine words)"""
    ex = c.exec(full_ms=20000, quick_ms=1200); st = State()
    size, bs, cs, cpb, bc, cc, i, b, q, x, y = z3.Ints("size bs cs cpb bc cc i b q x y")
    isceil = lambda n, a, d: z3.And(n * d >= a, n * d < a + d)
    mono = lambda a, b, d: z3.Implies(z3.And(a <= b, d >= 0), a * d <= b * d)
    H = [size >= 1, bs >= 1, cs >= 1, isceil(cpb, bs, cs), isceil(bc, size, bs), cc == bc * cpb, cpb >= 1, bc >= 1, b >= 0, q >= 0, q < cpb]
    s1 = st.copy()
    for h in H + [i == b * cpb + q, i < cc, mono(bc, b, cpb), mono(b, bc - 1, bs), mono(q, cpb - 1, cs)]: s1.assume(h)
    ex.oblige(s1, "a chunk index below the chunk count belongs to an existing block", b < bc)
    ex.oblige(s1, "kernel precondition: the block starts inside the array", b * bs < size)
    ex.oblige(s1, "kernel precondition: the chunk starts inside its block", q * cs < bs)
    c.cover(ex, s1, "chunk")
    for f in ("a * d <= b * d",):
        a_, b_, d_ = z3.Ints("a b d"); s2 = st.copy(); s2.assume(a_ <= b_); s2.assume(d_ >= 0)
        ex.oblige(s2, "monotonicity of products", (b_ - a_) * d_ >= 0)
    # every element lies in exactly one chunk
    B, R, C, D = z3.Ints("B R C D")
    s3 = st.copy()
    for h in H[:8] + [x >= 0, x < size, x == B * bs + R, 0 <= R, R < bs, B >= 0, R == C * cs + D, D >= 0, D < cs, C >= 0]: s3.assume(h)
    s3.assume(z3.Implies(B >= bc, B * bs >= bc * bs)); s3.assume(z3.Implies(C >= cpb, C * cs >= cpb * cs)); s3.assume(z3.Implies(z3.And(B <= bc - 1), B * cpb <= (bc - 1) * cpb))
    ex.oblige(s3, "the block of an element exists", B < bc)
    ex.oblige(s3, "the chunk of an element exists", z3.And(C < cpb, B * cpb + C < cc))
    mn = lambda a, b: z3.If(a <= b, a, b)
    ex.oblige(s3, "an element lies in the range of its chunk", z3.And(B * bs + C * cs <= x, x < mn(B * bs + mn(C * cs + cs, bs), size)))
    B2, C2 = z3.Ints("B2 C2")
    s4 = s3.copy()
    for h in (B2 >= 0, C2 >= 0, C2 < cpb, B2 * bs + C2 * cs <= x, x < B2 * bs + mn(C2 * cs + cs, bs)): s4.assume(h)
    for p, q_, d in ((B, B2, bs), (B2, B, bs), (C, C2, cs), (C2, C, cs)): s4.assume(z3.Implies(p + 1 <= q_, (p + 1) * d <= q_ * d))
    ex.oblige(s4, "an element lies in no chunk of another block", B2 == B)
    ex.oblige(s4, "an element lies in no other chunk of its block", C2 == C)
    # uniqueness of the division by the block size
    n, last, Q, Rm = z3.Ints("n last Q Rm"); sd = st.copy()
    for h in (n >= 1, bs >= 1, last >= 1, last <= bs, size == (n - 1) * bs + last, size == Q * bs + Rm, Rm >= 0, Rm < bs, Q >= 0): sd.assume(h)
    for a1, a2 in ((Q, n - 2), (n - 1, Q - 1), (n, Q - 1), (Q, n - 1)): sd.assume(z3.Implies(a1 <= a2, a1 * bs <= a2 * bs))
    ex.oblige(sd, "quotient and remainder in terms of the number of blocks", z3.If(last == bs, z3.And(Q == n, Rm == 0), z3.And(Q == n - 1, Rm == last)))
    # fold of a concatenation (induction over the second part), from associativity and identity
    S = z3.DeclareSort("Val"); op = z3.Function("op", S, S, S); e = z3.Const("e", S); v = z3.Function("v", z3.IntSort(), S)
    fold = z3.Function("fold", z3.IntSort(), z3.IntSort(), S); lo, mid, hi = z3.Ints("lo mid hi")
    base = st.copy(); base.assume(fold(mid, mid) == e); base.assume(op(fold(lo, mid), e) == fold(lo, mid))
    ex.oblige(base, "fold of a concatenation (base)", fold(lo, mid) == op(fold(lo, mid), fold(mid, mid)))
    ind = st.copy()
    for h in (fold(lo, hi) == op(fold(lo, mid), fold(mid, hi)), fold(lo, hi + 1) == op(fold(lo, hi), v(hi)), fold(mid, hi + 1) == op(fold(mid, hi), v(hi)),
              op(op(fold(lo, mid), fold(mid, hi)), v(hi)) == op(fold(lo, mid), op(fold(mid, hi), v(hi)))): ind.assume(h)
    ex.oblige(ind, "fold of a concatenation (step)", fold(lo, hi + 1) == op(fold(lo, mid), fold(mid, hi + 1)))
    # the premises: associativity and identity of the integer operations (floating point sums and products are
    # re-associated by the split; the property is the exact sequence of operations, see DESIGN.md)
    for w in (8, 32, 64):
        a_, b_, c_ = [z3.BitVec(n, w) for n in "abc"]
        ops = {"Add": (lambda p, q: p + q, 0), "Mul": (lambda p, q: p * q, 1), "And": (lambda p, q: p & q, mask(w)), "Or": (lambda p, q: p | q, 0)}
        for sg in ("u", "s"):
            lt = z3.ULT if sg == "u" else (lambda p, q: p < q)
            ops["Min " + sg] = (lambda p, q, lt=lt: z3.If(lt(q, p), q, p), mask(w) if sg == "u" else mask(w - 1))
            ops["Max " + sg] = (lambda p, q, lt=lt: z3.If(lt(p, q), q, p), 0 if sg == "u" else 1 << (w - 1))
        for n, (f, idn) in ops.items():
            if n != "Mul": ex.oblige(st.copy(), f"{n}{w} is associative", f(f(a_, b_), c_) == f(a_, f(b_, c_)))
            else:
                # ((a b) mod m) c = a ((b c) mod m) (mod m): differ by multiples of m
                A, Bq, Cq, k1, k2 = z3.Ints("A B C k1 k2"); m = 2 ** w
                ex.oblige(st.copy(), f"Mul{w} is associative", (A * Bq - m * k1) * Cq - A * (Bq * Cq - m * k2) == m * (A * k2 - k1 * Cq))
            ex.oblige(st.copy(), f"{n}{w} has the given identity", z3.And(f(a_, z3.BitVecVal(idn, w)) == a_, f(z3.BitVecVal(idn, w), a_) == a_))
s.task("composition lemmas", lemmas, "r")
# ----------------------------------------------------- literals (src/var.cpp)
s.ir("v", "lit.cpp")
from vars import Vars
LT = {3: (8, "s"), 4: (8, "u"), 5: (16, "s"), 6: (16, "u"), 7: (32, "s"), 8: (32, "u"), 9: (64, "s"), 10: (64, "u"), 13: (16, "f"), 14: (32, "f"), 15: (64, "f")}
def lit_raise(ex):
    for f in ex.mod.fns.values():
        if f.dname.split("(")[0] == "jitc_raise": ex.contracts[f.name] = lambda ex, st, a, i: RAISE
def fconv(ex):
    """conversions of half precision (C12) as functions of the bits"""
    h2f = z3.Function("h2f", z3.BitVecSort(16), z3.BitVecSort(32)); f2h = z3.Function("f2h", z3.BitVecSort(32), z3.BitVecSort(16))
    ex.contracts["drjit::half::float16_to_float32"] = lambda ex, st, a, i: h2f(bv(a[0], 16))
    ex.contracts["drjit::half::float32_to_float16"] = lambda ex, st, a, i: f2h(bv(a[0], 32))
    def d2h(v): return f2h(bv(ex.cast(st, "fptrunc", v, _FT(64), _FT(32)), 32))
    st = State()
    def to_double(v, w):
        if w == 16: v, w = h2f(v), 32
        return v if w == 64 else bv(ex.cast(st, "fpext", v, _FT(32), _FT(64)), 64)
    def from_double(v, w):
        return v if w == 64 else bv(ex.cast(st, "fptrunc", v, _FT(64), _FT(32)), 32) if w == 32 else d2h(v)
    return to_double, from_double
def cell8(ex, st, v):
    p = ex.new_cells(st, 8, "value"); ex.store(st, p, v, I64); return p
def scalar_add(c):
    for vt, (w, kind) in LT.items():
        ex = c.exec(full_ms=20000, quick_ms=2000); st = State(); lit_raise(ex); td, fd = fconv(ex); ex.comm_ite = True
        v0, size = z3.BitVec("v", 64), V("size"); p = cell8(ex, st, v0); v = simp(z3.Extract(w - 1, 0, v0))
        for k, s2, r in ex.call(st, "w_scalar_add", [vt, size, p]):
            ex.oblige(s2, "returns", k == 'ret'); x = bv(ex.load(s2, p, I64), 64)
            if kind == "f": want = fd(bv(ex.fbin("fmul", td(v, w), ex.cast(s2, "uitofp", size, _IT(32), _FT(64)), 64), 64), w); 
            else: want = z3.Extract(w - 1, 0, z3.Extract(w - 1, 0, v0) * z3.Extract(w - 1, 0, z3.ZeroExt(32, size)))
            ex.oblige(s2, f"sum of size literals is size * value (type {vt})", z3.Extract(w - 1, 0, x) == want)
            if w < 64: ex.oblige(s2, f"nothing else is written (type {vt})", z3.Extract(63, w, x) == z3.Extract(63, w, v0))
            c.cover(ex, s2, f"type {vt}")
    for vt in (0, 1, 2, 11, 12):
        ex = c.exec(); st = State(); lit_raise(ex)
        for k, s2, r in ex.call(st, "w_scalar_add", [vt, V("size"), cell8(ex, st, z3.BitVec("v", 64))]): ex.oblige(s2, f"type {vt} is refused", k != 'ret')
s.task("literal sums", scalar_add, "v")
def scalar_mul(c):
    """pw(b, 0) = 1, pw(b, i) = (i odd ? b : 1) * pw(b * b, i / 2): the product of i copies of b modulo 2^64 (lemmas below)"""
    pw = z3.Function("pw", z3.BitVecSort(64), z3.BitVecSort(32), z3.BitVecSort(64)); MUL = z3.Function("times", z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
    for vt, (w, kind) in LT.items():
        ex = c.exec(full_ms=20000, quick_ms=2000); st = State(); lit_raise(ex); td, fd = fconv(ex); ex.comm_ite = True
        v0, size = z3.BitVec("v", 64), V("size"); p = cell8(ex, st, v0); v = simp(z3.Extract(w - 1, 0, v0))
        b0 = v0 if w == 64 else z3.SignExt(64 - w, v) if kind == "s" else z3.ZeroExt(64 - w, v)
        if kind == "f":
            pows = []
            def cpow(ex, st, a, i):
                r = z3.BitVec("pow!", 64); pows.append((bv(a[0], 64), bv(a[1], 64), r)); return r
            ex.contracts["pow"] = cpow
            for f in ex.mod.fns.values():
                if f.dname.startswith("pow") or f.dname.startswith("std::pow"): ex.contracts[f.name] = cpow
        one = z3.BitVecVal(1, 64); ex.nl = True; mul = lambda a, b: bv(ex.nl_mul(st, a, b, 64), 64)
        def spec(fn, header):
            def classify(ctx, val):
                """the exponent (32 bits), the accumulated product (starts as 1) and the base"""
                i = b = r = None
                for tg, v in ctx.init.items():
                    if isinstance(v, Ptr) or tg[0] != 'phi': continue
                    if width(bv(val(tg), 64) if isinstance(v, int) and not is_sym(val(tg)) else val(tg)) == 32: i = bv(val(tg), 32)
                    elif not is_sym(v) and v == 1: r = bv(val(tg), 64)
                    else: b = bv(val(tg), 64)
                return i, b, r
            G = {}
            def inv(env):
                class E: init = env.init
                i, b, r = classify(E, env.val)
                return mul(r, pw(b, i)) == pw(b0, size)
            def unfold(ctx, t):
                i, b, r = classify(ctx, lambda tg: ctx.value_at(tg, ctx.k))
                t.assume(pw(b, z3.BitVecVal(0, 32)) == one)
                nxt = pw(mul(b, b), z3.LShR(i, 1))
                t.assume(z3.Implies(i != 0, pw(b, i) == z3.If(z3.Extract(0, 0, i) == 1, mul(b, nxt), nxt)))
                t.assume(mul(mul(r, b), nxt) == mul(r, mul(b, nxt)))       # associativity modulo 2^64 (composition lemmas)
                t.assume(mul(r, one) == r)
            return LoopSpec(mode="cut", cands=lambda ctx: [Pred(inv, "product so far times base^exponent is the requested power")], havoc_pre=unfold)
        st.assume(mul(one, pw(b0, size)) == pw(b0, size))
        if kind != "f": ex.loopspecs.append(("jitc_var_reduce_scalar_mul", spec))
        for k, s2, r in ex.call(st, "w_scalar_mul", [vt, size, p]):
            ex.oblige(s2, "returns", k == 'ret'); x = bv(ex.load(s2, p, I64), 64)
            if kind == "f":
                ex.oblige(s2, f"product of size literals is the power of value and size (type {vt})", z3.And(z3.BoolVal(len(pows) == 1), z3.Extract(w - 1, 0, x) == fd(pows[0][2], w), pows[0][0] == td(v, w), pows[0][1] == ex.cast(s2, "uitofp", size, _IT(32), _FT(64))))
            else: ex.oblige(s2, f"product of size literals is the power of value and size (type {vt})", z3.Extract(w - 1, 0, x) == z3.Extract(w - 1, 0, pw(b0, size)))
            if w < 64: ex.oblige(s2, f"nothing else is written (type {vt})", z3.Extract(63, w, x) == z3.Extract(63, w, v0))
            c.cover(ex, s2, f"type {vt}")
s.task("literal products", scalar_mul, "v")
def rd(S, op, vt, n, v): return z3.If(op == 1, S["add"](vt, n, v), z3.If(op == 2, S["mul"](vt, n, v), v))
def var_reduce(literal):
    def t(c, data_self=None):
        if data_self is None:
            for d in ((True, False) if not literal else (True,)): t(c, d)
            return
        ex, st, V_, i, vt, be, size, lit, sym = mkvar_task(c, literal); S, ident = var_contracts(ex, st, V_); V_.data_self = data_self
        op = V("op"); st.assume(z3.UGE(op, 1)); st.assume(z3.ULE(op, 6)); b, t_ = V("reqb"), V("reqt")
        for k, s2, r in ex.call(st, "w_var_reduce", [b, t_, op, i]):
            if k != 'ret':
                ex.oblige(s2, "only mask operations and mismatched types are refused", z3.Or(z3.UGE(op, 5), z3.And(t_ != 0, t_ != vt), z3.And(b != 0, b != be))); c.cover(ex, s2, "refused"); continue
            w = V_.made(s2, r); ex.oblige(s2, "one variable results, all other references are balanced", w is not None and V_.balanced(s2, r))
            if w is None: continue
            if literal: ex.oblige(s2, "the reduction of a literal is the literal of size * value (sum), value^size (product), value (min/max)", is_lit(w, vt, be, z3.If(size == 1, lit, rd(S, op, vt, size, lit)), z3.BitVecVal(1, 64)))
            else:
                g = s2.ghost; rs, ml = g.get("reds", []), g.get("mallocs", [])
                ok = w[0] == "mem" and len(rs) == 1 and len(ml) == 1 and V_.key(i) in g.get("evaluated", []) and samep(w[3], ml[0][0]) and samep(rs[0][6], ml[0][0]) and isinstance(rs[0][5], Ptr) and rs[0][5].obj == g["data"].obj
                ex.oblige(s2, "the variable is evaluated and its data reduced into a fresh array of one element", ok)
                if ok: ex.oblige(s2, "the reduction spans the whole array with the requested type and operation", z3.And(w[1] == be, w[2] == vt, w[4] == 1, bv(rs[0][0], 32) == be, bv(rs[0][1], 32) == vt, bv(rs[0][2], 32) == op, bv(rs[0][3], 32) == size, bv(rs[0][4], 32) == size, ml[0][2] == Z(tsz(vt))))
            c.cover(ex, s2, "result")
        ex2 = c.exec(); st = State(); V2 = Vars(ex2, st); S, ident = var_contracts(ex2, st, V2); op = V("op"); st.assume(z3.And(z3.UGE(op, 1), z3.ULE(op, 4)))
        for k, s2, r in ex2.call(st, "w_var_reduce", [b, t_, op, 0]):
            if k != 'ret': ex2.oblige(s2, "empty array: refused only without type information", z3.Or(b == 0, t_ == 0)); continue
            w = V2.made(s2, r); ex2.oblige(s2, "empty array: the identity", is_lit(w, t_, b, ident(t_, op), z3.BitVecVal(1, 64))); c.cover(ex2, s2, "empty")
    return t
def var_block_reduce(literal):
    def t(c, v=None):
        if not literal and v is None:
            for v in range(1, 16): t(c, v)
            return
        ex, st, V_, i, vt, be, size, lit, sym = mkvar_task(c, literal, v); S, ident = var_contracts(ex, st, V_)
        op, bs, mode = V("op"), V("bs"), V("mode"); st.assume(z3.UGE(op, 1)); st.assume(z3.ULE(op, 6)); nblk = V("nblk"); last = V("last")
        # number of blocks and size of the last block
        st.assume(z3.And(z3.UGE(nblk, 1), z3.UGE(last, 1), z3.ULE(last, bs)))
        st.assume(z3.Implies(bs != 0, Z(size) == ex.prod32(st, simp(nblk - 1), bs) + Z(last)))
        facts_div(ex, st, size, bs, nblk, last)
        for k, s2, r in ex.call(st, "w_var_block_reduce", [op, i, bs, mode]):
            if k != 'ret':
                # (reference balance on the error path is C03)
                if literal: ex.oblige(s2, "only empty blocks are refused", bs == 0)
                else: ex.oblige(s2, "only empty blocks and impossible strategies are refused", z3.Or(bs == 0, mode == -1, z3.UGT(mode, 1)))
                c.cover(ex, s2, "refused"); continue
            w = V_.made(s2, r); ex.nl_congruence(s2)
            if w is None:
                ex.oblige(s2, "single-element blocks: the variable itself (one new reference)", z3.And(z3.BoolVal(V_.key(r) == V_.key(i) and V_.balanced(s2, i)), bs == 1)); c.cover(ex, s2, "identity"); continue
            ex.oblige(s2, "one variable results, all other references are balanced", V_.balanced(s2, r))
            head, tail = rd(S, op, vt, bs, lit), rd(S, op, vt, last, lit)
            nb64 = Z(nblk)
            if literal:
                if w[0] == "literal":
                    ex.oblige(s2, "uniform blocks: one literal per block with the fold of block-size equal values", z3.And(is_lit(w, vt, be, head, nb64), last == bs)); c.cover(ex, s2, "uniform")
                else:
                    ok = w[0] == "select"; m = V_.made(s2, w[1]) if ok else None; h, tl = (V_.made(s2, w[2]), V_.made(s2, w[3])) if ok else (None, None)
                    ok = ok and m and m[0] == "lt"; cn, lm = (V_.made(s2, m[1]), V_.made(s2, m[2])) if ok else (None, None); ok = ok and cn and lm and cn[0] == "counter"
                    ex.oblige(s2, "ragged last block: select(counter < last block, full block, last block)", ok)
                    if ok: ex.oblige(s2, "ragged last block: the last block folds the remaining elements", z3.And(is_lit(h, vt, be, head, nb64), is_lit(tl, vt, be, tail, nb64), cn[1] == be, cn[2] == nb64, is_lit(lm, z3.BitVecVal(8, 32), be, Z(nblk - 1), z3.BitVecVal(1, 64)))); c.cover(ex, s2, "ragged")
                continue
            if w[0] == "mem":
                g = s2.ghost; rs, ml = g.get("reds", []), g.get("mallocs", [])
                ok = len(rs) == 1 and len(ml) == 1 and V_.key(i) in g.get("evaluated", []) and samep(w[3], ml[0][0]) and samep(rs[0][6], ml[0][0]) and isinstance(rs[0][5], Ptr) and rs[0][5].obj == g["data"].obj
                ex.oblige(s2, "evaluated: the data is reduced into a fresh array", ok)
                if ok: ex.oblige(s2, "evaluated: all elements, requested type, operation and block size, one result per block", z3.And(w[1] == be, w[2] == vt, w[4] == nb64, bv(rs[0][0], 32) == be, bv(rs[0][1], 32) == vt, bv(rs[0][2], 32) == op, bv(rs[0][3], 32) == size, bv(rs[0][4], 32) == bs))
                if ok: ex.oblige(s2, "evaluated: the result array is large enough", z3.UGE(ml[0][2], Z(nblk) * Z(tsz(vt))))
                c.cover(ex, s2, "evaluated")
            else:
                ok = w[0] == "scatter"; tg, of, mk = [V_.made(s2, w[j]) for j in (1, 3, 4)] if ok else (None,) * 3
                ok = ok and of and of[0] == "div"; cn, dv = (V_.made(s2, of[1]), V_.made(s2, of[2])) if ok else (None, None); ok = ok and cn and dv and cn[0] == "counter"
                ex.oblige(s2, "symbolic: scatter-reduction of element j to position j / block size", ok)
                if ok: ex.oblige(s2, "symbolic: target of identities, offsets and operation", z3.And(is_lit(tg, vt, be, ident(vt, op), nb64), z3.BoolVal(V_.key(w[2]) == V_.key(i)), cn[1] == be, cn[2] == Z(size), is_lit(dv, z3.BitVecVal(8, 32), be, Z(bs), z3.BitVecVal(1, 64)), is_lit(mk, z3.BitVecVal(1, 32), be, z3.BitVecVal(1, 64), z3.BitVecVal(1, 64)), bv(w[5], 32) == op)); c.cover(ex, s2, "symbolic")
    return t
def facts_div(ex, st, size, bs, nblk, last):
    """quotient and remainder of size / bs in terms of the number of blocks (uniqueness of Euclidean division)"""
    q, r = ex.nl_divmod(st, size, bs, 32)
    st.assume(z3.Implies(bs != 0, z3.If(last == bs, z3.And(q == nblk, r == 0), z3.And(q == nblk - 1, r == last))))
    p, pm = ex.prod32(st, nblk, bs), ex.prod32(st, simp(nblk - 1), bs)
    st.assume(p == pm + Z(bs))
def var_dot(c):
    for self_ in (True, False):
        ex = c.exec(full_ms=20000, quick_ms=2000); st = State(); V_ = Vars(ex, st); type_table(ex, st); S, ident = var_contracts(ex, st, V_); V_.data_self = self_
        v = []
        for n in "ab":
            be, size, vt, kd = V("backend_" + n), V("size_" + n), V("type_" + n), V("kind_" + n)
            for x in (z3.UGE(vt, 1), z3.ULE(vt, 15), z3.UGE(be, 1), z3.ULE(be, 3), size != 0, z3.UGE(kd, 1), z3.ULT(kd, 100)): st.assume(x)
            v.append((V_.mk(st, n, kind=kd, type=vt, backend=be, size=size, literal=z3.BitVec("lit_" + n, 64), symbolic=0), be, size, vt, kd))
        (i, be, size, vt, kd), (j, be2, size2, vt2, kd2) = v; C = ex.contracts
        def by(d):
            r = [f.name for f in ex.mod.fns.values() if f.dname.split("(")[0] == d]; assert r, d; return r
        def vd(ex, st, a, ins, base=C[by("jitc_var_data")[0]]):
            r = base(ex, st, a, ins); st.ghost["datas"] = {**st.ghost.get("datas", {}), V_.key(a[0]): st.ghost["data"].obj}; return r
        for n in by("jitc_var_data"): C[n] = vd
        for n in by("jitc_var_mul"): C[n] = lambda ex, st, a, i: V_.create(st, ("mul", a[0], a[1]))
        for n in by("jitc_var_reduce"): C[n] = lambda ex, st, a, i: V_.create(st, ("reduce",) + tuple(a))
        for n in by("jitc_reduce_dot"): C[n] = lambda ex, st, a, i: st.ghost.update(dots=st.ghost.get("dots", []) + [tuple(a)])
        for k, s2, r in ex.call(st, "w_var_reduce_dot", [i, j]):
            if k != 'ret': ex.oblige(s2, "only operands of different backends or types are refused", z3.Or(be != be2, vt != vt2)); c.cover(ex, s2, "refused"); continue
            w = V_.made(s2, r); ex.oblige(s2, "one variable results, all other references are balanced", w is not None and V_.balanced(s2, r)); ex.oblige(s2, "mismatched operands are refused", z3.And(be == be2, vt == vt2))
            if w is None: continue
            if w[0] == "mem":
                g = s2.ghost; ds, ml, da = g.get("dots", []), g.get("mallocs", []), g.get("datas", {})
                ok = len(ds) == 1 and len(ml) == 1 and samep(w[3], ml[0][0]) and samep(ds[0][5], ml[0][0]) and isinstance(ds[0][2], Ptr) and ds[0][2].obj == da.get(V_.key(i)) and isinstance(ds[0][3], Ptr) and ds[0][3].obj == da.get(V_.key(j))
                ex.oblige(s2, "the dot product of the data of both operands is written to a fresh array", ok)
                if ok: ex.oblige(s2, "the dot product spans both arrays, which have the same number of floating point values", z3.And(w[1] == be, w[2] == vt, w[4] == 1, size == size2, z3.UGE(vt, 13), bv(ds[0][0], 32) == be, bv(ds[0][1], 32) == vt, bv(ds[0][4], 32) == size, ml[0][2] == Z(tsz(vt))))
                c.cover(ex, s2, "fast path")
            else:
                m = V_.made(s2, w[4]) if w[0] == "reduce" else None
                ex.oblige(s2, "otherwise: the sum of the element-wise product", z3.And(z3.BoolVal(bool(m) and m[0] == "mul" and {V_.key(m[1]), V_.key(m[2])} == {V_.key(i), V_.key(j)}), *([bv(w[1], 32) == be, bv(w[2], 32) == vt, bv(w[3], 32) == 1] if m else []))); c.cover(ex, s2, "general")
def var_mask(which):
    def t(c):
        for asy in (False, True):
            for self_ in (True, False):
                ex = c.exec(full_ms=20000, quick_ms=2000); st = State(); V_ = Vars(ex, st); type_table(ex, st); S, ident = var_contracts(ex, st, V_); V_.data_self = self_; C = ex.contracts
                def by(d):
                    r = [f.name for f in ex.mod.fns.values() if f.dname.split("(")[0] == d]; assert r, d; return r
                be, size, vt, kd, lit, rb = V("backend"), V("size"), V("type"), V("kind"), z3.BitVec("lit", 64), V("reqb")
                for x in (z3.UGE(vt, 1), z3.ULE(vt, 15), z3.UGE(be, 1), z3.ULE(be, 3), size != 0, z3.UGE(kd, 1), z3.ULT(kd, 100), z3.Implies(z3.And(kd == 3, vt == 1), z3.ULE(lit, 1))): st.assume(x)
                i = V_.mk(st, "mask", kind=kd, type=vt, backend=be, size=size, literal=lit, symbolic=0)
                for nm in ("any", "all"):
                    for n in by("jitc_" + nm): C[n] = lambda ex, st, a, i, nm=nm: (st.ghost.update(tests=st.ghost.get("tests", []) + [(nm,) + tuple(a)]), z3.Bool("test_" + nm))[1]
                    for n in by(f"jitc_{nm}_async"): C[n] = lambda ex, st, a, i, nm=nm: st.ghost.update(tests=st.ghost.get("tests", []) + [(nm,) + tuple(a)])
                for n in by("jitc_var_bool"): C[n] = lambda ex, st, a, i: V_.create(st, ("bool", bv(a[0], 32), a[1]))
                const = {"any": z3.Or(kd == 3, kd == DEFMASK(ex)), "all": kd == 3}[which]
                def truth(x): x = x if not isinstance(x, (int, bool)) else z3.BoolVal(bool(x)); return x if z3.is_bool(x) else x != 0
                for k, s2, r in ex.call(st, f"w_{which}" + ("_async" if asy else ""), ([rb, i] if asy else [i])):
                    if k != 'ret': ex.oblige(s2, "only other types (or backends) are refused", z3.Or(vt != 1, be != rb) if asy else vt != 1); c.cover(ex, s2, "refused"); continue
                    g = s2.ghost; ts = g.get("tests", [])
                    if not ts:
                        v = None
                        if asy: w = V_.made(s2, r); v = w and w[0] == "bool" and w[2]
                        else: v = r
                        ex.oblige(s2, "constant masks: the literal (the mask of active lanes counts as set)", z3.And(z3.Or(kd == 3, z3.And(kd == DEFMASK(ex), which == "any")), truth(v) == z3.If(kd == 3, lit != 0, True)) if v is not None else False)
                        ex.oblige(s2, "constant masks: references are balanced", V_.balanced(s2, r if asy else None)); c.cover(ex, s2, "constant"); continue
                    ok = len(ts) == 1 and ts[0][0] == which and isinstance(ts[0][2], Ptr) and ts[0][2].obj == g["data"].obj and V_.key(i) in g.get("evaluated", [])
                    ex.oblige(s2, "the data of the evaluated mask is tested", ok)
                    if ok: ex.oblige(s2, "all entries of the mask are tested", z3.And(bv(ts[0][1], 32) == be, bv(ts[0][3], 32) == size))
                    if asy:
                        w = V_.made(s2, r); ml = g.get("mallocs", []); okw = ok and w is not None and w[0] == "mem" and len(ml) == 1 and samep(w[3], ml[0][0]) and samep(ts[0][4], ml[0][0])
                        ex.oblige(s2, "the result is a fresh boolean variable of size 1", z3.And(w[2] == 1, w[4] == 1, w[1] == rb, z3.UGE(ml[0][2], 4)) if okw else False)
                        ex.oblige(s2, "references are balanced", V_.balanced(s2, r))
                    else: ex.oblige(s2, "the result of the test is returned and references are balanced", z3.And(truth(r) == z3.Bool("test_" + which), V_.balanced(s2)))
                    c.cover(ex, s2, "tested")
                for k, s2, r in (ex.call(st, f"w_{which}", [0]) if not asy else []): ex.oblige(s2, "empty masks: false (any) / true (all)", k == 'ret' and truth(r) == (which == "all"))
    return t
s.task("jitc_var_reduce_dot", var_dot, "v"); s.task("jitc_var_any", var_mask("any"), "v"); s.task("jitc_var_all", var_mask("all"), "v")
for lit in (True, False):
    s.task("jitc_var_reduce " + ("literal" if lit else "evaluated"), var_reduce(lit), "v"); s.task("jitc_var_block_reduce " + ("literal" if lit else "general"), var_block_reduce(lit), "v")
s.native("red.cpp", ["-fsanitize=address,undefined", "-fno-sanitize=vptr,signed-integer-overflow"])
s.native_full("full_red.cpp")
if __name__ == "__main__": s.main()
