#!/usr/bin/env python3-vt
"""C08: CPU prefix reductions (src/llvm_red.h, src/llvm_ts.cpp, src/var.cpp)"""
import sys, os, re; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from core import *
import tasks
from redspec import *
from varred import *
from redspec import _FT, _IT
s = Suite("C08", "CPU prefix reductions compute exact running folds")
s.ir("r", "red.cpp")
def kernel(ty, op, inplace, scr, canary=False):
    def t(c):
        ex = c.exec(full_ms=30000, quick_ms=120); ex.nl = True; ex.comm_ite = True; ex.pv.int_first = 5000; ex.data_mul = True
        st = State(); tasks.install(ex); std_minmax(ex)
        R = Red(ex, ty, op); ch = Chunks(ex, st); es = R.w // 8
        out = ex.new_array(st, es, Z(ch.size), "out")
        inp = out if inplace else ex.new_array(st, es, Z(ch.size), "in", writable=False)
        scratch = ex.new_array(st, es, Z(ch.cc), "scratch", writable=False) if scr else Ptr(None, 0)
        excl, rev = z3.BitVec("exclusive", 1), z3.BitVec("reverse", 1)
        F = z3.Function("Fold", z3.BitVecSort(64), z3.BitVecSort(R.vw))
        G = {}
        rd = lambda st, x, p=inp: bv(ex.arr_read(st.mem[p.obj], x), R.w)
        def val(k):      # value written at step k of the chunk
            return z3.If(excl == 1, R.down(F(k + (1 if canary else 0))), R.down(F(k + 1)))
        def pre(ctx, t): G["i"], G["lo"], G["hi"] = ch.chunk(t, ch.named(ctx, t))
        def iteration(ctx, pre, e):
            kind, t = e[0], e[1]
            if kind == 'back':
                i, lo, hi = G["i"], G["lo"], G["hi"]; x = z3.BitVec("x!any", 64)
                w0, w1 = rd(pre, x, out), rd(t, x, out); inr = z3.And(z3.UGE(x, lo), z3.ULT(x, hi))
                ex.oblige(t, "nothing but the chunk's own range is written", z3.Or(inr, w0 == w1))
                for r in (0, 1):
                    u = t.copy(); u.assume(rev == r); u.assume(inr)
                    ex.oblige(u, ("reverse" if r else "forward") + ": every element receives the running fold from the chunk's starting value", w1 == val((hi - 1 - x) if r else (x - lo)))
                    c.cover(ex, u, "element written " + ("backward" if r else "forward"))
                ex.oblige(t, "only chunks of this work unit are processed", z3.ULT(i, ch.last))
            elif kind == 'exit': ex.oblige(t, "all chunks of the work unit are processed", ch.first + ctx.k == ch.last)
            else: ex.oblige(t, "kernel does not raise", False)
        def spec(fn, header):
            if outer(ex.mod, fn, header): return LoopSpec(mode="cut", havoc=iteration, havoc_pre=pre, rename=True)
            def dirn(ctx):
                if "dir" not in ctx.__dict__:
                    ctx.dir = 1 if ex.pv.prove(ctx.st0.pc, rev == 1, full=False)[0] == "proved" else 0
                return ctx.dir
            def defs(ctx):
                lo, hi = G["lo"], G["hi"]; r = dirn(ctx)
                f0 = R.up(rd(ctx.st0, G["i"], scratch)) if scr else R.ident()
                pos = lambda k: (hi - 1 - k) if r else lo + k
                return lambda k: [F(z3.BitVecVal(0, 64)) == f0, z3.Implies(z3.ULT(k, hi - lo), F(k + 1) == R.red(F(k), R.up(rd(ctx.st0, pos(k)))))]
            def cands(ctx):
                lo, hi = G["lo"], G["hi"]; r = dirn(ctx)
                def content(k):
                    def f(x, prev):
                        done = z3.And(z3.ULT(x, hi), z3.UGE(x, hi - k)) if r else z3.And(z3.UGE(x, lo), z3.ULT(x, lo + k))
                        return z3.If(done, val((hi - 1 - x) if r else (x - lo)), bv(prev(x), R.w))
                    return f
                return [Eq(tg, lambda k: F(k), "accumulator is the running fold") for tg in ctx.accs if tg[0] == "phi" or 8 * tg[3] == R.vw] + [Content(out.obj, content, "running folds up to here")] + \
                       [Pred(lambda env: z3.Implies(z3.ULT(lo, hi), z3.ULE(env.k, hi - lo)), "in range")]
            return LoopSpec(mode="cut", cands=cands, defs=defs)
        ex.loopspecs.append(("create_block_prefix_reduction_2", spec))
        for k, s2, v in ex.call(st, "w_prefix_kernel", [R.vt, OPS[op], ch.index, ch.wus, ch.size, ch.bs, ch.cs, ch.cc, ch.cpb, excl, rev, inp, scratch, out]):
            ex.oblige(s2, "kernel returns", k == 'ret'); c.cover(ex, s2, "kernel returns")
    return t
for ty in TYPES:
    for op in OPS:
        if supported(ty, op):
            for ip in (0, 1):
                for sc in (0, 1):
                    s.task(f"prefix kernel {ty} {op}{' in place' if ip else ''}{' with starting values' if sc else ''}", kernel(ty, op, ip, sc), "r", thorough_only=not ((ip, sc) == (0, 1) and (ty == "UInt32" or op == "Add") or (ip, sc) == (1, 0) and op == "Add" or (ty, op) == ("UInt32", "Add")))
s.task("canary: kernel", kernel("UInt32", "Add", 0, 0, True), "r", kind="canary")
def tb(x): return z3.BoolVal(x != 0) if isinstance(x, int) else x if z3.is_bool(x) else x != 0
def driver(ty, canary=False):
    def t(c):
        ex = c.exec(full_ms=20000, quick_ms=100); st = State(); tasks.install(ex); alloc_contract(ex); std_minmax(ex); ex.div_ghost = False
        vt, w, _ = TYPES[ty]; es = w // 8
        for n, tag in (("create_block_reduction", "red"), ("create_block_prefix_reduction", "prefix")):
            f = [f.name for f in ex.mod.fns.values() if re.match(r"_ZL\d+" + n + r"(I.*)?7VarType", f.name)]; assert len(f) == 1, f
            def create(ex, st, a, i, tag=tag):
                st.ghost["created"] = st.ghost.get("created", []) + [(tag, bv(a[0], 32), bv(a[1], 32))]; return FPtr("kernel!" + tag)
            def kern(ex, st, a, i, tag=tag): st.ghost["calls"] = st.ghost.get("calls", []) + [(tag,) + tuple(a)]
            ex.contracts[f[0]] = create; ex.contracts["kernel!" + tag] = kern
        size, bs, ideal, op, cores = V("size"), V("bs"), V("ideal"), V("op"), V("cores"); excl, rev = z3.BitVec("exclusive", 1), z3.BitVec("reverse", 1)
        bc = z3.UDiv(size, bs) + z3.If(z3.URem(size, bs) != 0, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
        for x in (z3.UGE(cores, 1), z3.ULE(cores, 4096), z3.UGE(ideal, 2), z3.ULE(ideal, 1 << 30), z3.UGE(op, 1), z3.ULE(op, 6)): st.assume(x)
        st.ghost["cores"] = cores; type_table(ex, st)
        nm = next(f.name for f in ex.mod.fns.values() if f.dname.startswith("LLVMThreadState::block_prefix_reduce("))
        inplace = [False]
        def rec(ex, st, a, i):
            st.ghost["rec"] = st.ghost.get("rec", []) + [a[1:]]; st.ghost["subs_at_rec"] = len(st.ghost.get("subs", [])); st.ghost["frees_at_rec"] = len(st.ghost.get("frees", []))
        first = [0]; orig = ex.find_contract
        def find(name):
            if name == nm: return rec if first[0] else first.__setitem__(0, 1)      # recursive calls use the contract
            return orig(name)
        ex.find_contract = find
        def note(key):
            def h(ex, st, a, i): st.ghost[key] = st.ghost.get(key, []) + [a[1:]]
            return h
        ex.contracts["LLVMThreadState::memcpy_async"] = note("copies")
        def fill(ex, st, a, i): st.ghost["fills"] = st.ghost.get("fills", []) + [(a[1], bv(a[2], 32), bv(a[3], 32), bv(ex.load(st, a[4], _IT(64)), 64))]
        ex.contracts["LLVMThreadState::memset_async"] = fill
        ident = z3.Function("identity", z3.BitVecSort(32), z3.BitVecSort(32), z3.BitVecSort(64))
        ex.contracts["jitc_reduce_identity"] = lambda ex, st, a, i: ident(bv(a[0], 32), bv(a[1], 32))        # proved in C20
        for ip in (False, True):
            st1 = st.copy(); first[0] = 0
            out = ex.new_cells(st1, None, "out"); inp = out if ip else ex.new_cells(st1, None, "in")
            for k, s2, v in ex.call(st1, "w_block_prefix_reduce", [vt, op, ideal, size, bs, excl, rev, inp, out]):
                g = s2.ghost; subs, cp, fl, recs, ml, fr = [g.get(n, []) for n in ("subs", "copies", "fills", "rec", "mallocs", "frees")]
                if k != 'ret':
                    ex.oblige(s2, "only invalid block sizes are refused", z3.And(size != 0, z3.Or(bs == 0, z3.UGT(bs, size)))); c.cover(ex, s2, "refused")
                    ex.oblige(s2, "a refused reduction does nothing", not (subs or cp or fl or recs or ml)); continue
                if not subs:
                    ex.oblige(s2, "no second pass without a first", not recs and not ml)
                    u = s2.copy(); u.assume(z3.And(size != 0, bs == 1, excl == 1))
                    if ex.pv.feasible(u.pc):
                        ok = len(fl) == 1 and not cp and samep(fl[0][0], out)
                        ex.oblige(u, "exclusive scan of single-element blocks: identities", z3.And(z3.BoolVal(ok), fl[0][1] == size, fl[0][2] == es, fl[0][3] == ident(z3.BitVecVal(vt, 32), op)) if ok else False); c.cover(ex, u, "identity fill")
                    u = s2.copy(); u.assume(z3.And(size != 0, bs == 1, excl == 0))
                    if ex.pv.feasible(u.pc):
                        ok = len(cp) == 1 and not fl and samep(cp[0][0], out) and samep(cp[0][1], inp)
                        ex.oblige(u, "inclusive scan of single-element blocks: the array itself", (z3.And(z3.BoolVal(ok), bv(cp[0][2], 64) == Z(size) * es) if ok else z3.BoolVal(ip and not cp and not fl))); c.cover(ex, u, "copy" if not ip else "nothing to do in place")
                    u = s2.copy(); u.assume(z3.Not(z3.And(size != 0, bs == 1)))
                    ex.oblige(u, "nothing is done only for empty arrays", z3.And(z3.BoolVal(not cp and not fl), size == 0)); c.cover(ex, u, "empty"); continue
                ex.oblige(s2, "valid arguments", z3.And(size != 0, z3.UGE(bs, 2), z3.ULE(bs, size)))
                ex.oblige(s2, "one or two groups of work units are submitted, nothing else is written", len(subs) in (1, 2) and not cp and not fl)
                ex.oblige(s2, "the kernels of the requested type and operation are used", z3.And(*[z3.And(x[1] == vt, x[2] == op) for x in g.get("created", [])]))
                two = len(subs) == 2
                ex.oblige(s2, "the scratch buffer is released once, after the last pass was submitted", len(ml) == len(fr) == (1 if two else 0) and (not two or samep(fr[0], ml[0][0]) and g.get("subs_at_free") == 2))
                args = []
                for j, sub in enumerate(subs):
                    final = j == len(subs) - 1
                    n = bv(sub.n, 32); idx = V("idx"); s3_ = s2.copy(); s3_.assume(z3.ULT(idx, n)); s3_.ghost["calls"] = []
                    for k3, s3, v3 in tasks.item(ex, s3_, sub, idx):
                        ex.oblige(s3, "work unit does not raise", k3 == 'ret')
                        cs = s3.ghost.get("calls", []); ok = len(cs) == 1 and cs[0][0] == ("prefix" if final else "red")
                        ex.oblige(s3, "a work unit invokes the kernel exactly once", ok)
                        if not ok: continue
                        a = cs[0][1:]; ki, wus, ksize, kbs, kcs, kcc, kcpb = [bv(x, 32) for x in a[:7]]
                        ex.oblige(s3, "kernel receives its work unit, the array and the block size", z3.And(ki == idx, ksize == size, kbs == bs, z3.BoolVal(samep(a[9] if final else a[7], inp))))
                        ex.oblige(s3, "chunks are not empty", z3.And(kcs != 0, wus != 0))
                        ex.oblige(s3, "every block is split into ceil(block size / chunk size) chunks", eq_ceil(kcpb, bs, kcs))
                        ex.oblige(s3, "chunk count is the number of blocks times the chunks per block", Z(kcc) == Z(bc) * Z(kcpb))
                        ex.oblige(s3, "work unit starts at an existing chunk", z3.ULT(Z(idx) * Z(wus), Z(kcc)))
                        ex.oblige(s3, "work unit does not wrap around", z3.ULT(Z(idx) * Z(wus) + Z(wus), 1 << 32))
                        ex.oblige(s3, "work units cover all chunks", z3.UGE(Z(n) * Z(wus), Z(kcc) + (1 if canary else 0)))
                        args.append((wus, kcs, kcc, kcpb, n))
                        if final:
                            ex.oblige(s3, "the requested direction and kind of scan, into the output", z3.And(tb(a[7]) == (excl == 1), tb(a[8]) == (rev == 1), z3.BoolVal(samep(a[11], out))))
                            if two: ex.oblige(s3, "the final pass starts from the scanned partial results", samep(a[10], ml[0][0]))
                            else:
                                ex.oblige(s3, "a single pass only if blocks are not split, without starting values", z3.And(kcpb == 1, z3.BoolVal(isinstance(a[10], int) and a[10] == 0 or isinstance(a[10], Ptr) and a[10].obj is None))); c.cover(ex, s3, "single pass")
                        else: ex.oblige(s3, "partial results go to a scratch buffer of sufficient size", z3.And(z3.BoolVal(samep(a[8], ml[0][0])), ml[0][1] == Z(kcc) * es))
                if two:
                    ex.oblige(s2, "exactly one recursive pass, between the two", len(recs) == 1 and g["subs_at_rec"] == 1 and g["frees_at_rec"] == 0)
                    if len(recs) != 1 or len(args) != 2: continue
                    ex.oblige(s2, "both passes use the same decomposition", z3.And(*[args[0][q] == args[1][q] for q in (1, 2, 3)]))
                    r = recs[0]; kcc, kcpb = args[1][2], args[1][3]
                    ex.oblige(s2, "the recursive pass is an exclusive in-place scan of the partial results of each block in the same direction", z3.And(z3.BoolVal(samep(r[6], ml[0][0]) and samep(r[7], ml[0][0])),
                        bv(r[0], 32) == vt, bv(r[1], 32) == op, bv(r[2], 32) == kcc, bv(r[3], 32) == kcpb, tb(r[4]), tb(r[5]) == (rev == 1)))
                    ex.oblige(s2, "the recursive pass has valid arguments and smaller blocks (termination)", z3.And(kcpb != 0, z3.ULE(kcpb, kcc), z3.ULT(kcpb, bs))); c.cover(ex, s2, "two passes")
                else: ex.oblige(s2, "no recursive pass for unsplit blocks", not recs)
    return t
for ty in TYPES: s.task(f"block_prefix_reduce {ty}", driver(ty), "r", thorough_only=ty not in ("UInt8", "UInt32", "Float64"))
s.task("canary: driver", driver("UInt32", True), "r", kind="canary")
def var_level(literal):
    """jitc_var_block_prefix_reduce(): the literal shortcut and the evaluated path"""
    def t(c):
        for self_, ty in [(d, v) for d in ((True, False) if not literal else (True,)) for v in range(3, 16)]:
            ex, st, V_, i, vt, be, size, lit, sym = mkvar_task(c, literal, ty); S, ident = var_contracts(ex, st, V_); V_.data_self = self_; C = ex.contracts
            def by(d):
                r = [f.name for f in ex.mod.fns.values() if f.dname.split("(")[0] == d]; assert r, d; return r
            for nm, na in (("mod", 2), ("sub", 2), ("add", 2), ("mul", 2), ("cast", 3)):
                for n in by("jitc_var_" + nm): C[n] = lambda ex, st, a, i, nm=nm, na=na: V_.create(st, (nm,) + tuple(a[:na]))
            for n in by("jitc_block_prefix_reduce"): C[n] = lambda ex, st, a, i: st.ghost.update(reds=st.ghost.get("reds", []) + [tuple(a)])
            op, bs, excl, rev = V("op"), V("bs"), z3.BitVec("exclusive", 1), z3.BitVec("reverse", 1)
            for x in (z3.UGE(op, 1), z3.ULE(op, 6)): st.assume(x)
            # an element p: block b, position q; the division of the size by the block size
            p, b, q = V("p"), V("b"), V("q"); n, rem = ex.nl_divmod(st, size, bs, 32)
            st.assume(z3.ULT(p, size)); st.assume(z3.Implies(bs != 0, z3.And(Z(p) == ex.prod32(st, b, bs) + Z(q), z3.ULT(q, bs))))
            full = V("full")         # the block is complete: (b + 1) * bs <= size
            pb = ex.prod32(st, b, bs); isfull = z3.ULE(pb + Z(bs), Z(size))
            st.assume(z3.Implies(z3.And(bs != 0, rem == 0), isfull))          # arithmetic fact (proved in 'arithmetic' below)
            blen = z3.If(isfull, bs, z3.Extract(31, 0, Z(size) - pb))
            rank = z3.If(rev == 1, blen - 1 - q, q); count = rank + z3.If(excl == 1, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32))
            st.assume(z3.Implies(z3.ULE(size, bs), z3.And(b == 0, q == p)))   # p < size <= bs
            def E(s2, j):
                """value of the counter expression at element p (None: not such an expression)"""
                w = V_.made(s2, j)
                if w is None: return None
                if w[0] == "counter": ex.oblige(s2, "the counter spans the array", z3.And(w[1] == be, w[2] == Z(size))); return p
                if w[0] == "literal": ex.oblige(s2, "operands are 32-bit scalars", z3.And(w[2] == 8, w[4] == 1)); return simp(z3.Extract(31, 0, w[3])) if False else z3.simplify(z3.Extract(31, 0, w[3]))
                if w[0] in ("mod", "sub", "add"):
                    x, y = E(s2, w[1]), E(s2, w[2])
                    if x is None or y is None: return None
                    if w[0] == "sub": return x - y
                    if w[0] == "add": return x + y
                    ex.oblige(s2, "no division by zero", y != 0); r = ex.nl_divmod(s2, x, y, 32)[1]
                    s2.assume(z3.Implies(z3.And(x == p, y == bs), r == q)); return r     # uniqueness of Euclidean division
                return None
            for k, s2, r in ex.call(st, "w_var_block_prefix_reduce", [op, i, bs, excl, rev]):
                if k != 'ret': ex.oblige(s2, "only empty blocks are refused", bs == 0); c.cover(ex, s2, "refused"); continue
                ex.oblige(s2, "empty blocks are refused", bs != 0); w = V_.made(s2, r)
                if w is None:
                    ex.oblige(s2, "the variable itself (one new reference): inclusive minima and maxima of a literal", z3.And(z3.BoolVal(literal and V_.key(r) == V_.key(i) and V_.balanced(s2, i)), excl == 0, z3.Or(op == 3, op == 4))); c.cover(ex, s2, "identity"); continue
                ex.oblige(s2, "one variable results, all other references are balanced", V_.balanced(s2, r))
                if w[0] == "mul":
                    o = [x for x in w[1:3] if V_.key(x) != V_.key(i)]; ok = len(o) == 1 and literal; ct = o[0] if ok else None; m = V_.made(s2, ct) if ok else None; cast = False
                    if m and m[0] == "cast": ex.oblige(s2, "the count is converted to the type of the literal", z3.And(bv(m[2], 32) == vt, z3.BoolVal(not is_sym(m[3]) and not m[3]))); ct = m[1]; cast = True
                    e = E(s2, ct) if ok else None
                    ex.oblige(s2, "sums of a literal: a count times the literal", z3.And(z3.BoolVal(e is not None), op == 1, z3.Or(z3.BoolVal(cast), vt == 8)))
                    if e is not None:
                        ex.oblige(s2, "sums of a literal: the count is the number of elements folded", e == count)
                        ex.oblige(s2, "floating point: the count is representable and does not multiply an infinity by zero", z3.Implies(z3.UGE(vt, 13), z3.And(count != 0, vt != 13)))
                    c.cover(ex, s2, "count"); continue
                g = s2.ghost; rs, ml = g.get("reds", []), g.get("mallocs", [])
                ok = w[0] == "mem" and len(rs) == 1 and len(ml) == 1 and V_.key(i) in g.get("evaluated", []) and samep(w[3], ml[0][0]) and samep(rs[0][8], ml[0][0]) and isinstance(rs[0][7], Ptr) and rs[0][7].obj == g["data"].obj
                ex.oblige(s2, "otherwise: the data of the evaluated variable is scanned into a fresh array", ok)
                if ok: ex.oblige(s2, "all elements, requested type, operation, block size, kind and direction", z3.And(w[1] == be, w[2] == vt, w[4] == Z(size), bv(rs[0][0], 32) == be, bv(rs[0][1], 32) == vt, bv(rs[0][2], 32) == op, bv(rs[0][3], 32) == size, bv(rs[0][4], 32) == bs, tb(rs[0][5]) == (excl == 1), tb(rs[0][6]) == (rev == 1), ml[0][2] == Z(tsz(vt)) * Z(size)))
                c.cover(ex, s2, "scan")
            for k, s2, r in ex.call(st, "w_var_block_prefix_reduce", [op, 0, bs, excl, rev]): ex.oblige(s2, "empty array: empty result", k == 'ret' and r == 0)
    return t
def arithmetic(c):
    ex = c.exec(full_ms=20000, quick_ms=2000); st = State(); b, bs, n, q, size, p = z3.Ints("b bs n q size p")
    for h in (bs >= 1, b >= 0, q >= 0, q < bs, p == b * bs + q, p < size, size == n * bs, z3.Implies(n <= b, n * bs <= b * bs), z3.Implies(b + 1 <= n, (b + 1) * bs <= n * bs)): st.assume(h)
    ex.oblige(st, "an element of an array that is a multiple of the block size lies in a complete block", (b + 1) * bs <= size); c.cover(ex, st, "block")
s.ir("v", "lit.cpp")
s.task("arithmetic", arithmetic, "r")
for lit in (True, False): s.task("jitc_var_block_prefix_reduce " + ("literal" if lit else "general"), var_level(lit), "v")
s.native("prefix.cpp", ["-fsanitize=address,undefined", "-fno-sanitize=vptr,signed-integer-overflow"])
s.native_full("full_prefix.cpp")
if __name__ == "__main__": s.main()
