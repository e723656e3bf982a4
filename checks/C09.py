#!/usr/bin/env python3-vt
"""C09: mask compression and bucket sorting (src/llvm_ts.cpp)"""
import sys, os, re; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from core import *
import tasks
from redspec import *
from redspec import _IT
s = Suite("C09", "Mask compression and bucket sorting are exact")
s.ir("r", "red.cpp")
B64 = z3.BitVecSort(64); X = z3.BitVec("x!any", 64); K = lambda n: z3.BitVecVal(n, 64)
def params(st):
    size, ideal, cores = V("size"), V("ideal"), V("cores")
    for x in (z3.UGE(cores, 1), z3.ULE(cores, 4096), z3.UGE(ideal, 2), z3.ULE(ideal, 1 << 30)): st.assume(x)
    st.ghost["cores"] = cores
    return size, ideal, cores
def captured(ex, st, sub, skip):
    """the one stack variable captured by reference (the result that the work items fill in)"""
    c = [v for sz, v in st.mem[sub.payload.obj].cells.values() if isinstance(v, Ptr) and v.obj and st.mem[v.obj].kind == "cells" and v.obj not in skip]
    return c[0] if len(c) == 1 else None
# ------------------------------------------------------------------ compress
def compress_call(c, ex, st, size, ideal, cores, inp, out):
    """symbolic outcomes of compress(); the recursive sum is replaced by its contract (C08), the wait by its effect"""
    alloc_contract(ex)
    def scan(ex, st, a, i): st.ghost["scans"] = st.ghost.get("scans", []) + [a[1:]]; st.ghost["subs_at_scan"] = len(st.ghost.get("subs", []))
    ex.contracts["LLVMThreadState::block_prefix_reduce"] = scan
    def sync(ex, st, a, i):
        subs = st.ghost.get("subs", []); st.ghost["synced"] = len(subs); st.ghost["frees_at_sync"] = len(st.ghost.get("frees", []))
        if subs:
            p = captured(ex, st, subs[-1], {inp.obj, out.obj} | {m[0].obj for m in st.ghost.get("mallocs", [])}); st.ghost["result"] = p
            if p is not None: st.ghost["before"] = ex.load(st, p, _IT(32)); ex.store(st, p, V("count!"), _IT(32))
    for f in ex.mod.fns.values():
        if f.dname.startswith("jitc_sync_thread("): ex.contracts[f.name] = sync
    return ex.call(st, "w_compress", [ideal, inp, size, out])
def compress_split(c):
    ex = c.exec(full_ms=20000, quick_ms=100); st = State(); tasks.install(ex); std_minmax(ex); size, ideal, cores = params(st)
    inp, out = ex.new_cells(st, None, "in"), ex.new_cells(st, None, "out")
    for k, s2, v in compress_call(c, ex, st, size, ideal, cores, inp, out):
        ex.oblige(s2, "compress returns", k == 'ret'); g = s2.ghost; subs, ml, fr, sc = [g.get(n, []) for n in ("subs", "mallocs", "frees", "scans")]
        if not subs: ex.oblige(s2, "nothing is done only for empty masks: no position is set", z3.And(size == 0, bv(v, 32) == 0)); c.cover(ex, s2, "empty"); continue
        two = len(subs) == 2; ex.oblige(s2, "one or two groups of work units", len(subs) in (1, 2))
        ex.oblige(s2, "the result is the count stored by the work units, read after all of them have finished", z3.And(z3.BoolVal(g.get("synced") == len(subs) and g.get("result") is not None), bv(v, 32) == V("count!")))
        real = [f for f in fr if not (isinstance(f, int) and f == 0 or isinstance(f, Ptr) and f.obj is None)]
        ex.oblige(s2, "the scratch buffer is released once, after the last pass was submitted", len(ml) == len(real) == (1 if two else 0) and (not two or samep(real[0], ml[0][0]) and g["subs_at_free"] == 2))
        n = bv(subs[-1].n, 32)
        for one in (True, False):
            u = s2.copy(); u.assume((cores == 1) == one); w = size if one else ideal
            if not ex.pv.feasible(u.pc): continue
            ex.oblige(u, "the work units partition the mask: they cover all positions and none is empty", z3.And(eq_ceil(n, size, w), n != 0)); c.cover(ex, u, "two passes" if two else "one pass")
            ex.oblige(u, "a work unit starts at an existing position", z3.Implies(z3.ULT(V("idx"), n), z3.ULT(Z(V("idx")) * Z(w), Z(size))))
        if two:
            ex.oblige(s2, "both passes use the same work units, several of them", z3.And(bv(subs[0].n, 32) == n, z3.UGE(n, 2)))
            a = sc[0] if len(sc) == 1 else None
            ex.oblige(s2, "the partial counts are scanned once, in place and exclusively, in between", z3.And(z3.BoolVal(samep(a[6], ml[0][0]) and samep(a[7], ml[0][0]) and g["subs_at_scan"] == 1), bv(a[0], 32) == 8, bv(a[1], 32) == OPS["Add"],
                bv(a[2], 32) == n, bv(a[3], 32) == n, z3.BoolVal(conc(a[4]) == 1 and conc(a[5]) == 0), ml[0][1] == Z(n) * 4) if a else False)
        else: ex.oblige(s2, "a single pass only for a single work unit", z3.And(n == 1, z3.BoolVal(not sc)))
s.task("compress: work units", compress_split, "r")
def compress_units(c, canary=False):
  for one in (True, False):
    ex = c.exec(full_ms=20000, quick_ms=120); st = State(); tasks.install(ex); std_minmax(ex); ex.nl = True; ex.pv.int_first = 5000
    size, ideal, cores = params(st); st.assume((cores == 1) == one); st.assume(size != 0); wus = size if one else ideal
    inp = ex.new_array(st, 1, Z(size), "in", writable=False); out = ex.new_array(st, 4, Z(size), "out"); o0 = st.mem[out.obj]
    # P(j): number of set positions below j;  Pos(r): the r-th set position (exists uniquely for r < P(size): P increases by 1 there)
    P, Pos = z3.Function("P", B64, B64), z3.Function("Pos", B64, B64); L = lambda x: z3.Extract(31, 0, x)
    rd = lambda st, x: bv(ex.arr_read(st.mem[inp.obj], x), 8)
    G = {}
    def facts(st, j):       # definition of P and Pos at position j < size; the mask contains zeros and ones (documented precondition)
        m = rd(st, j)
        return [z3.ULE(m, 1), P(j + 1) == P(j) + z3.ZeroExt(56, m), z3.ULE(P(j), j), z3.Implies(m == 1, Pos(P(j)) == j)]
    def spec(fn, header):
        def defs(ctx): return lambda k: [z3.Implies(z3.ULT(k, G["hi"] - G["lo"]), z3.And(*facts(ctx.st0, G["lo"] + k))), z3.ULE(P(G["lo"]), G["lo"])]
        def content(k): return lambda x, prev: z3.If(z3.And(z3.UGE(x, P(G["lo"])), z3.ULT(x, P(G["lo"] + k + (1 if canary else 0)))), L(Pos(x)), bv(prev(x), 32))
        def cands(ctx):
            inr = Pred(lambda env: z3.ULE(env.k, G["hi"] - G["lo"]), "in range"); mono = Pred(lambda env: z3.ULE(P(G["lo"]), P(G["lo"] + env.k)), "count increases")
            if G["phase"] == 0: return [inr, mono] + [Eq(t, lambda k: L(P(G["lo"] + k) - P(G["lo"])), "counts the set positions") for t in ctx.accs]
            return [inr, mono, Content(out.obj, content, "ascending list of the set positions so far")] + [Eq(t, lambda k: L(P(G["lo"] + k)), "index of the next set position") for t in ctx.accs]
        return LoopSpec(mode="cut", cands=cands, defs=defs)
    ex.loopspecs.append(("compress", spec))
    for k, s2, v in compress_call(c, ex, st, size, ideal, cores, inp, out):
        subs = s2.ghost.get("subs", []); ml = s2.ghost.get("mallocs", [])
        for j, sub in enumerate(subs):
            n, idx = bv(sub.n, 32), V("idx"); u = s2.copy()
            p = ex.prod32(u, idx, wus); u.assume(z3.ULT(idx, n)); u.assume(z3.ULT(p, Z(size)))    # proved in "work units"
            G["lo"], G["hi"], G["phase"] = p, umin(p + Z(wus), Z(size)), 0 if j == 0 and len(subs) == 2 else 1
            if ml:
                scr = ml[0][0]; scratch = ex.new_array(u, 4, Z(n), "scratch", writable=G["phase"] == 0); o = u.mem[scratch.obj]
                for q in [q for q, (sz, w) in u.mem[sub.payload.obj].cells.items() if isinstance(w, Ptr) and w.obj == scr.obj]: u.wobj(sub.payload.obj).cells[q] = (8, scratch)
                if G["phase"]: u.assume(bv(ex.arr_read(o, Z(idx)), 32) == L(P(p)))       # contract of the scan: 'composition' below
            res = ex.new_cells(u, 4, "count"); old = s2.ghost["result"].obj      # the variable of compress() the items refer to
            for q in [q for q, (sz, w) in u.mem[sub.payload.obj].cells.items() if isinstance(w, Ptr) and w.obj == old]: u.wobj(sub.payload.obj).cells[q] = (8, res)
            ex.store(u, res, V("before"), _IT(32))
            if not ml: u.assume(n == 1); u.assume(idx == 0); u.assume(p == 0); u.assume(P(K(0)) == 0)
            for k3, s3, v3 in tasks.item(ex, u, sub, idx):
                ex.oblige(s3, "work unit does not raise", k3 == 'ret'); w0, w1 = bv(ex.arr_read(o0, X), 32), bv(ex.arr_read(s3.mem[out.obj], X), 32); cnt = bv(ex.load(s3, res, _IT(32)), 32)
                if G["phase"] == 0:
                    b0, b1 = bv(ex.arr_read(o, X), 32), bv(ex.arr_read(s3.mem[scratch.obj], X), 32)
                    ex.oblige(s3, "counting: the number of set positions of the work unit, nothing else", z3.And(b1 == z3.If(X == Z(idx), L(P(G["hi"]) - P(G["lo"])), b0), w0 == w1, cnt == V("before"))); c.cover(ex, s3, "count")
                else:
                    ex.oblige(s3, "writing: the set positions of the work unit at their ranks in ascending order, nothing else", w1 == z3.If(z3.And(z3.UGE(X, P(G["lo"])), z3.ULT(X, P(G["hi"]))), L(Pos(X)), w0))
                    ex.oblige(s3, "the last work unit, and only it, stores the number of set positions", cnt == z3.If(G["hi"] == Z(size), L(P(Z(size))), V("before"))); c.cover(ex, s3, "write")
s.task("compress: counting and writing", compress_units, "r")
s.task("canary: compress", lambda c: compress_units(c, True), "r", kind="canary")
def compress_lemma(c):
    """composition: with scratch[c] = P(end of c) - P(start of c), the exclusive scan (C08: sum of the preceding entries) is P(start of c);
    the output ranges [P(lo), P(hi)) of the work units are disjoint and cover [0, P(size))"""
    ex = c.exec(full_ms=20000, quick_ms=2000); st = State(); P, S, start = [z3.Function(n, z3.IntSort(), z3.IntSort()) for n in ("P", "S", "start")]; i, j, n = z3.Ints("i j n")
    end = lambda i: start(i + 1)              # consecutive work units: the end of one is the start of the next
    ex.oblige(st, "scan of the partial counts, base", z3.Implies(z3.And(S(0) == 0, start(0) == 0, P(0) == 0), S(0) == P(start(0))))
    ex.oblige(st, "scan of the partial counts, step", z3.Implies(z3.And(S(i) == P(start(i)), S(i + 1) == S(i) + P(end(i)) - P(start(i))), S(i + 1) == P(start(i + 1))))
    m = z3.Int("m"); ex.oblige(st, "ranks are monotone, step", z3.Implies(z3.And(P(i) <= P(j), z3.Or(m == 0, m == 1), P(j + 1) == P(j) + m), P(i) <= P(j + 1)))
    ex.oblige(st, "ranks do not exceed the position, step", z3.Implies(z3.And(P(j) <= j, z3.Or(m == 0, m == 1), P(j + 1) == P(j) + m), P(j + 1) <= j + 1))
    ex.oblige(st, "ranks of distinct set positions are distinct", z3.Implies(z3.And(i < j, P(i + 1) <= P(j), P(i + 1) == P(i) + 1), P(i) < P(j)))
    w, a = z3.Ints("w a"); sz = z3.Int("size")
    ex.oblige(st, "consecutive work units", z3.Implies(z3.And(w >= 1, (i + 1) * w < sz, i >= 0), z3.If(i * w + w < sz, i * w + w, sz) == (i + 1) * w)); c.cover(ex, st, "lemma")
s.task("compress: composition", compress_lemma, "r")
# ------------------------------------------------------------------ block_mkperm
def mkperm_call(ex, st, size, ideal, cores, bs, bc, ptr, perm, offs):
    alloc_contract(ex); ex.contracts["task_wait_and_release"] = lambda ex, st, a, i: wait(ex, st, a[0])
    C = ex.contracts
    def submit(ex, st, a, i, orig=C["task_submit_dep"]):
        r = orig(ex, st, a, i); st.ghost["tasks"] = st.ghost.get("tasks", []) + [(r, len(st.ghost["subs"]))]; return r
    C["task_submit_dep"] = submit
    def wait(ex, st, t):
        n = [k for r, k in st.ghost.get("tasks", []) if samep(r, t)]; st.ghost["waited"] = n[0] if n else 0; subs = st.ghost.get("subs", [])
        if len(subs) >= 2:
            p = captured(ex, st, subs[1], {o.obj for o in (ptr, perm, offs) if o.obj} | {m[0].obj for m in st.ghost.get("mallocs", [])}); st.ghost["result"] = p
            if p is not None: st.ghost["initial"] = ex.load(st, p, _IT(32)); ex.store(st, p, V("unique!"), _IT(32))
    for f in ex.mod.fns.values():
        d = f.dname.split("(")[0]
        if "unlock_guard" in d or d.startswith("ProfilerPhase::"): C[f.name] = lambda ex, st, a, i: None
    return ex.call(st, "w_mkperm", [ideal, ptr, size, bs, bc, perm, offs])
def derived(st, sub, known):
    """32-bit values captured by a work item that are not among the known inputs"""
    r = []
    for q, (sz, v) in sorted(st.mem[sub.payload.obj].cells.items()):
        if sz == 4 and not isinstance(v, Ptr) and not any(is_sym(v) and v.eq(k) for k in known) and not any(x is v or is_sym(x) and is_sym(v) and x.eq(v) for _, x in r): r.append((q, v))
    return r
def roles(ex, st, subs, size, bs, bc, one):
    """(task size, tasks per group, number of groups) as captured by the work items, for more than one core"""
    d0, d1 = derived(st, subs[0], [size, bs, bc]), derived(st, subs[1], [size, bs, bc])
    v0, v1 = [v for _, v in d0], [v for _, v in d1]
    isin = lambda x, l: any(x is y or is_sym(x) and is_sym(y) and x.eq(y) for y in l)
    tpg = [v for v in v0 if isin(v, v1)]; ts = [v for v in v0 if not isin(v, v1)]; nb = [v for v in v1 if not isin(v, v0)]
    return ts, tpg, nb
def mkperm_split(c):
    ex = c.exec(full_ms=20000, quick_ms=100); st = State(); tasks.install(ex); std_minmax(ex); size, ideal, cores = params(st); bs, bc = V("bs"), V("bc"); st.assume(bs != 0)
    ex.div_ghost = False
    ptr, perm, offs = ex.new_cells(st, None, "ptr"), ex.new_cells(st, None, "perm"), ex.new_cells(st, None, "offsets")
    for k, s2, v in mkperm_call(ex, st, size, ideal, cores, bs, bc, ptr, perm, offs):
        g = s2.ghost; subs, ml, fr = [g.get(n, []) for n in ("subs", "mallocs", "frees")]
        if k != 'ret': ex.oblige(s2, "only an empty set of buckets is refused", z3.And(bc == 0, z3.BoolVal(not subs))); c.cover(ex, s2, "refused"); continue
        if not subs: ex.oblige(s2, "nothing is done only for empty arrays: no bucket is used", z3.And(size == 0, bv(v, 32) == 0)); c.cover(ex, s2, "empty"); continue
        ex.oblige(s2, "three groups of work units, the second one a single work unit", z3.And(z3.BoolVal(len(subs) == 3), bv(subs[1].n, 32) == 1, bv(subs[0].n, 32) == bv(subs[2].n, 32)))
        ex.oblige(s2, "the result is what the second group stored, read after it has finished", z3.And(z3.BoolVal(g.get("waited", 0) >= 2 and g.get("result") is not None), bv(v, 32) == V("unique!")))
        ex.oblige(s2, "the result is initialised", bv(g.get("initial", 1), 32) == 0)
        n = bv(subs[0].n, 32)
        ex.oblige(s2, "the table of histograms holds one pointer per work unit and is released once, after the last group was submitted", z3.And(z3.BoolVal(len(ml) == len(fr) == 1 and samep(fr[0], ml[0][0]) and g["subs_at_free"] == 3), ml[0][1] == Z(n) * 8))
        for one in (True, False):
            u = s2.copy(); u.assume((cores == 1) == one)
            if not ex.pv.feasible(u.pc): continue
            ts, tpg, nb = roles(ex, u, subs, size, bs, bc, one)
            if one: ts, tpg, nb = bs, 1, next((x for x in nb + tpg if is_sym(x)), None)
            else: ts, tpg, nb = [x[0] if len(x) == 1 else None for x in (ts, tpg, nb)]
            if ts is None or tpg is None or nb is None: ex.oblige(u, "the decomposition is passed to the work units", False); continue
            ts, tpg, nb = bv(ts, 32), bv(tpg, 32), bv(nb, 32)
            ex.oblige(u, "the groups partition the array", z3.And(eq_ceil(nb, size, bs), nb != 0))
            ex.oblige(u, "the work units partition every group", z3.And(ts != 0, eq_ceil(tpg, bs, ts), tpg != 0))
            u.assume(eq_ceil(nb, size, bs)); u.assume(eq_ceil(tpg, bs, ts))
            ex.oblige(u, "one work unit per part of every group", Z(n) == Z(nb) * Z(tpg)); c.cover(ex, u, "split")
s.task("block_mkperm: work units", mkperm_split, "r")
def depth(mod, fn, header): return sum(header.idx in blks for h, blks in mod.loops(fn).items())
L32 = lambda x: z3.Extract(31, 0, x)
def accumulate(c, ex, st, sub, res, buckets, offs, o0, bs, bc, TPG, NB, TOT, pt, size, one, hasoff, canary):
    """second group: within every sorting group, histograms become first positions; table of the non-empty buckets"""
    B32 = z3.BitVecSort(32); IN = z3.ULE
    # histogram t, bucket b at element (t << 32) | b of one array (separate allocations; bounds are checked per histogram)
    hist = ex.new_array(st, 4, K(1 << 62), "histograms"); h0 = st.mem[hist.obj]; HO = hist.obj
    task = lambda x: z3.ZeroExt(34, z3.Extract(61, 32, x)); bkt = lambda x: z3.ZeroExt(32, L32(x)); at = lambda t, b: z3.Concat(z3.Extract(31, 0, t), z3.Extract(31, 0, b))
    valid = lambda x: z3.And(z3.Extract(63, 62, x) == 0, z3.ULT(bkt(x), Z(bc)))
    st.wobj(HO).inb = lambda e: z3.And(valid(e), z3.ULT(task(e), Z(TOT)))
    st.wobj(buckets.obj).ptrs = lambda ex, st, o, off: Ptr(HO, z3.Concat(z3.Extract(29, 0, bv(ex.elem_index(st, off, 8), 64)), z3.BitVecVal(0, 34)))
    S, O, U, Bk = z3.Function("S", B64, B64, B32), z3.Function("O", B64, B32), z3.Function("U", B64, B32), z3.Function("Bk", B64, B32)
    KP = z3.Function("KP", B64, B64); F = z3.Function("F", B64, B32)
    S0 = lambda b, j: z3.If(j == 0, bv(0, 32), S(b, j)); O0 = lambda b: z3.If(b == 0, bv(0, 32), O(b)); U0 = lambda b: z3.If(b == 0, bv(0, 32), U(b)); KP0 = lambda k: z3.If(k == 0, K(0), KP(k))
    single = z3.And(NB == 1, z3.BoolVal(hasoff)); T = lambda b: S0(b, Z(TPG)); G = {}
    new = lambda x: G["gs"] + O0(bkt(x)) + S0(bkt(x), task(x) - G["first"])            # first position of bucket b in work unit t of the group
    def table(n, x, prev):         # table of the non-empty buckets among the first n
        u = z3.LShR(x, 2); b = Z(Bk(u)); q = z3.Extract(1, 0, x)
        return z3.If(z3.And(single, z3.ULT(u, Z(U0(n)))), z3.If(q == 0, Bk(u), z3.If(q == 1, O0(b), z3.If(q == 2, T(b), bv(0, 32)))), bv(prev(x), 32))
    def nm(ctx): return next(iter(ctx.names.values()), None)
    def pre_g(ctx, t):
        g = nm(ctx); g = L32(ctx.k) if g is None else g
        G["g"] = g; p = ex.prod32(t, g, TPG) if not one else Z(g); G["gs64"] = ex.prod32(t, g, bs); G["gs"] = L32(G["gs64"]); G["first"] = p
        for f in (z3.Implies(z3.ULT(g, NB), z3.And(z3.ULT(G["gs64"], Z(size)), z3.ULE(p + Z(TPG), Z(TOT)))), KP0(ctx.k) == p, z3.Implies(g == NB, p == pt), KP(ctx.k + 1) == KP0(ctx.k) + Z(TPG)): t.assume(f)    # definition of KP(k) = k * tasks per group; "decomposition"
    def pre_i(ctx, t): i = nm(ctx); G["i"] = Z(L32(ctx.k) if i is None else i)
    def spec(fn, header):
        d = depth(ex.mod, fn, header)
        if d == 1:
            def cands(ctx):
                def content(kk):
                    def f(x, prev):
                        if z3.is_bv_value(kk): return bv(prev(x), 32)
                        base = lambda kq: z3.If(z3.And(valid(x), z3.ULT(task(x), KP0(kq))), F(x), bv(prev(x), 32))
                        if kk.eq(simp(ctx.k + 1)): return z3.If(z3.And(valid(x), z3.UGE(task(x), G["first"]), z3.ULT(task(x), G["first"] + Z(TPG))), new(x), base(ctx.k))
                        return base(kk)
                    return f
                r = [Pred(lambda env: z3.ULE(env.k, Z(NB)), "in range"), Content(HO, content, "first positions of the groups so far")]
                if hasoff: r.append(Content(offs.obj, lambda kk: lambda x, prev: z3.If(kk == 0, bv(prev(x), 32), table(Z(bc), x, prev)), "table of non-empty buckets"))
                return r + [Eq(t, lambda k: z3.If(z3.And(single, k != 0), U0(Z(bc)), bv(0, 32)), "number of non-empty buckets") for t in ctx.accs]
            return LoopSpec(mode="cut", cands=cands, havoc_pre=pre_g, havoc=lambda ctx, pre, e: None, rename=True)
        if d == 2:
            def defs(ctx): return lambda k: [z3.Implies(z3.ULT(k, Z(bc)), z3.And(O(k + 1) == O0(k) + T(k), U(k + 1) == U0(k) + z3.If(z3.UGT(T(k), 0), bv(1, 32), bv(0, 32)), z3.Implies(z3.UGT(T(k), 0), Z(Bk(Z(U0(k)))) == k))), z3.ULE(Z(U0(k)), k)]
            def cands(ctx):
                content = lambda kk: lambda x, prev: z3.If(z3.And(valid(x), z3.UGE(task(x), G["first"]), z3.ULT(task(x), G["first"] + Z(TPG)), z3.ULT(bkt(x), kk)), new(x), bv(prev(x), 32))
                r = [Pred(lambda env: z3.ULE(env.k, Z(bc)), "in range"), Content(HO, content, "first positions of the buckets so far")]
                if hasoff: r.append(Content(offs.obj, lambda kk: lambda x, prev: table(kk, x, prev), "table of non-empty buckets so far"))
                for t in ctx.accs: r += [Eq(t, lambda k: O0(k) + (bv(1, 32) if canary else bv(0, 32)), "elements in the buckets so far"), Eq(t, lambda k, t=t: z3.If(single, U0(k), bv(ctx.init[t], 32)), "non-empty buckets so far")]
                return r
            return LoopSpec(mode="cut", cands=cands, defs=defs, havoc_pre=pre_i, havoc=lambda ctx, pre, e: None, rename=True)
        def defs(ctx): return lambda k: [z3.Implies(z3.ULT(k, Z(TPG)), S(G["i"], k + 1) == S0(G["i"], k) + bv(ex.arr_read(ctx.st0.mem[HO], at(G["first"] + k, G["i"])), 32))]
        def cands(ctx):
            content = lambda kk: lambda x, prev: z3.If(z3.And(valid(x), bkt(x) == G["i"], z3.UGE(task(x), G["first"]), z3.ULT(task(x) - G["first"], kk)), new(x), bv(prev(x), 32))
            return [Pred(lambda env: z3.ULE(env.k, Z(TPG)), "in range"), Content(HO, content, "first positions of the work units so far")] + [Eq(t, lambda k: S0(G["i"], k), "elements of the bucket so far") for t in ctx.accs]
        return LoopSpec(mode="cut", cands=cands, defs=defs, rename=True)
    ex.loopspecs.append(("block_mkperm", spec))
    for k3, s3, v3 in tasks.item(ex, st, sub, 0):
        ex.oblige(s3, "work unit does not raise", k3 == 'ret'); w0, w1 = bv(ex.arr_read(h0, X), 32), bv(ex.arr_read(s3.mem[HO], X), 32)
        ex.oblige(s3, "every histogram of every group becomes first positions, nothing else changes", w1 == z3.If(z3.And(valid(X), z3.ULT(task(X), Z(TOT))), F(X), w0))
        ex.oblige(s3, "the number of non-empty buckets is stored for a single group with a table, zero otherwise", bv(ex.load(s3, res, _IT(32)), 32) == z3.If(single, U0(Z(bc)), bv(0, 32)))
        if hasoff:
            a, b = bv(ex.arr_read(o0, X), 32), bv(ex.arr_read(s3.mem[offs.obj], X), 32)
            ex.oblige(s3, "the table lists exactly the non-empty buckets in ascending order with start and size; nothing else is written", b == table(Z(bc), X, lambda x: a))
        c.cover(ex, s3, "accumulated")
def mkperm_units(phase, canary=False, ones=(True, False), offsets=(False,)):
    """phase 0: histograms, 1: accumulation, 2: writing the permutation"""
    def t(c):
      for one in ones:
       for hasoff in offsets:
        ex = c.exec(full_ms=20000, quick_ms=120); st = State(); tasks.install(ex); std_minmax(ex); ex.nl = True; ex.pv.int_first = 5000
        size, ideal, cores = params(st); bs, bc = V("bs"), V("bc"); st.assume((cores == 1) == one)
        for f in (bs != 0, size != 0, bc != 0, z3.ULE(bc, 1 << 28)): st.assume(f)
        ptr = ex.new_array(st, 4, Z(size), "ptr", writable=False); perm = ex.new_array(st, 4, Z(size), "perm"); p0 = st.mem[perm.obj]
        offs = ex.new_array(st, 4, Z(bc) * 4 + 1, "offsets") if hasoff else Ptr(None, 0); o0 = st.mem[offs.obj] if hasoff else None
        el = lambda st, i: bv(ex.arr_read(st.mem[ptr.obj], i), 32)
        for k, s2, v in mkperm_call(ex, st, size, ideal, cores, bs, bc, ptr, perm, offs):
            subs = s2.ghost.get("subs", [])
            if len(subs) != 3: ex.oblige(s2, "three groups of work units", False); continue
            ts, tpg, nb = roles(ex, s2, subs, size, bs, bc, one)
            u = s2.copy(); sub = subs[phase]; TS, TPG, NB, TOT = V("task_size"), V("tasks_per_group"), V("groups"), V("total")
            # proved in "work units": the captured decomposition; from here on it is arbitrary but satisfies these facts
            ren = [(nb, NB)] + ([] if one else [(ts, TS), (tpg, TPG)])
            for q, (sz, w) in list(u.mem[sub.payload.obj].cells.items()):
                for vals, nm in ren:
                    if sz == 4 and any(is_sym(w) and is_sym(x) and w.eq(x) for x in vals): u.wobj(sub.payload.obj).cells[q] = (4, nm)
            if one: TS, TPG = bs, bv(1, 32)
            u.pc = list(st.pc) + [TS != 0, TPG != 0, NB != 0, z3.ULT(TOT, 1 << 29)]
            pt = ex.prod32(u, NB, TPG) if not one else Z(NB); u.assume(pt == Z(TOT))
            old, res = s2.ghost["result"].obj, ex.new_cells(u, 4, "unique"); ex.store(u, res, V("before"), _IT(32)); scr = s2.ghost["mallocs"][0][0]
            buckets = ex.new_array(u, 8, Z(TOT), "buckets", writable=phase == 0); t0 = u.mem[buckets.obj]
            for q, (sz, w) in list(u.mem[sub.payload.obj].cells.items()):
                if isinstance(w, Ptr) and w.obj == old: u.wobj(sub.payload.obj).cells[q] = (8, res)
                if isinstance(w, Ptr) and w.obj == scr.obj: u.wobj(sub.payload.obj).cells[q] = (8, buckets)
            if phase == 1: accumulate(c, ex, u, sub, res, buckets, offs, o0, bs, bc, TPG, NB, TOT, pt, size, one, hasoff, canary); continue
            idx = V("idx"); u.assume(z3.ULT(idx, TOT))
            grp, tk = ex.nl_divmod(u, idx, TPG, 32) if not one else (idx, bv(0, 32))
            gs, lo_ = ex.prod32(u, grp, bs), ex.prod32(u, tk, TS)
            for f in (z3.ULT(grp, NB), z3.ULT(gs, Z(size)), z3.ULT(lo_, Z(bs))): u.assume(f)       # "block_mkperm: decomposition"
            lo = gs + lo_; hi = umin(lo + Z(TS), umin(gs + Z(bs), Z(size))); n = z3.If(z3.ULT(lo, hi), hi - lo, K(0))
            D = z3.Function("D", B64, B64, z3.BitVecSort(32))        # D(b, k): number of the first k elements of the range that are in bucket b
            D0 = lambda x, k: z3.If(k == 0, bv(0, 32), D(x, k))
            W = z3.Function("W", B64, B64, z3.BitVecSort(32))        # W(x, k): entry x of the permutation after the first k elements
            H = {}
            def count(ctx, x, kk, st0):      # definition by recursion on kk
                if z3.is_bv_value(kk): assert kk.as_long() == 0; return bv(0, 32)
                if kk.eq(simp(ctx.k + 1)): return D0(x, ctx.k) + z3.If(Z(el(st0, lo + ctx.k)) == x, bv(1, 32), bv(0, 32))
                return D0(x, kk)
            def alloc(ex, st, a, i):
                p = ex.new_array(st, 4, Z(bc), "histogram"); ex.oblige(st, "the histogram has an entry per bucket", bv(a[0], 64) == Z(bc) * 4); st.ghost["hist"] = p; H["p"] = p; return p
            for f in ex.mod.fns.values():
                if f.dname.startswith("malloc_check(") or f.name == "malloc": ex.contracts[f.name] = alloc
            ex.contracts["malloc"] = alloc
            def fr(ex, st, a, i): st.ghost["freed"] = st.ghost.get("freed", []) + [a[0]]
            ex.contracts["free"] = fr
            if phase == 2:
                H["p"] = hp = ex.new_array(u, 4, Z(bc), "first")          # first free position per bucket: result of the accumulation
                First = u.mem[hp.obj]
                def ptrs(ex, st, o, off):
                    e = ex.elem_index(st, off, 8); ex.oblige(st, "a work unit only uses its own histogram", bv(e, 64) == Z(idx)); return hp
                u.wobj(buckets.obj).ptrs = ptrs
                rank = lambda st, k: bv(ex.arr_read(First, Z(el(st, lo + k))), 32) + D0(Z(el(st, lo + k)), k)
            def spec(fn, header):
                def facts(ctx, k):
                    b = el(ctx.st0, lo + k); f = [z3.ULT(b, bc)]       # precondition: bucket indices are valid
                    if phase == 2: f.append(z3.ULT(Z(rank(ctx.st0, k)), Z(size)))      # "block_mkperm: ranks"
                    return z3.Implies(z3.ULT(k, n), z3.And(*f))
                def defs(ctx): return lambda k: [facts(ctx, k)]
                def cands(ctx):
                    r = [Pred(lambda env: z3.ULE(env.k, n), "in range")]
                    if phase == 0: r.append(Content(H["p"].obj, lambda kk: lambda x, prev: z3.If(z3.ULT(x, Z(bc)), count(ctx, x, kk, ctx.st0), bv(prev(x), 32)), "bucket counts so far"))
                    else:
                        r.append(Content(H["p"].obj, lambda kk: lambda x, prev: bv(ex.arr_read(First, x), 32) + count(ctx, x, kk, ctx.st0), "next position per bucket"))
                        def w(kk):
                            def f(x, prev):
                                if z3.is_bv_value(kk): return bv(prev(x), 32)
                                if kk.eq(simp(ctx.k + 1)): return z3.If(x == Z(rank(ctx.st0, ctx.k)), L32(lo + ctx.k), z3.If(ctx.k == 0, bv(prev(x), 32), W(x, ctx.k)))
                                return z3.If(kk == 0, bv(prev(x), 32), W(x, kk))
                            return f
                        r.append(Content(perm.obj, w, "every element so far is written at its rank, in order"))
                    return r
                return LoopSpec(mode="cut", cands=cands, defs=defs)
            ex.loopspecs.append(("block_mkperm", spec))
            for k3, s3, v3 in tasks.item(ex, u, sub, idx):
                ex.oblige(s3, "work unit does not raise", k3 == 'ret'); pa, pb = bv(ex.arr_read(p0, X), 32), bv(ex.arr_read(s3.mem[perm.obj], X), 32)
                if phase == 0:
                    h = s3.ghost.get("hist"); ba, bb = bv(ex.arr_read(t0, X), 64), bv(ex.arr_read(s3.mem[buckets.obj], X), 64)
                    ex.oblige(s3, "one histogram is allocated and registered for the work unit", z3.And(z3.BoolVal(h is not None), bb == z3.If(X == Z(idx), bv(ex.ptr_bits(s3, h), 64), ba)) if h is not None else False)
                    if h is not None: ex.oblige(s3, "it counts the elements of the work unit in each bucket", z3.Implies(z3.ULT(X, Z(bc)), bv(ex.arr_read(s3.mem[h.obj], X), 32) == D0(X, n + (1 if canary else 0)))); c.cover(ex, s3, "histogram")
                    ex.oblige(s3, "nothing else is written", z3.And(pa == pb, z3.BoolVal(not s3.ghost.get("freed")))); 
                else:
                    ex.oblige(s3, "the permutation receives every element of the work unit at its rank, nothing else", pb == z3.If(n == 0, pa, W(X, n))); c.cover(ex, s3, "permutation")
                    ex.oblige(s3, "the histogram is released", len(s3.ghost.get("freed", [])) == 1 and samep(s3.ghost["freed"][0], hp))
    return t
s.task("block_mkperm: histograms", mkperm_units(0), "r"); s.task("block_mkperm: permutation", mkperm_units(2), "r")
for one in (True, False):
    for off in (True, False): s.task(f"block_mkperm: accumulation{'' if one else ', split groups'}{', bucket table' if off else ''}", mkperm_units(1, False, (one,), (off,)), "r")
s.task("canary: accumulation", mkperm_units(1, True, (True,), (False,)), "r", kind="canary")
s.task("canary: block_mkperm", mkperm_units(0, True), "r", kind="canary")
def mkperm_lemma(c):
    """composition.  b: sequence of buckets of the n elements of a sorting group; L_v(m), E_v(m): number of the first m elements in a bucket
    below v / in bucket v.  Work unit t covers [cut(t), cut(t + 1)), cut(t) = min(t * task size, n)."""
    ex = c.exec(full_ms=20000, quick_ms=3000); st = State(); I = z3.IntSort(); ob = lambda name, hyps, goal: ex.oblige(st, name, z3.Implies(z3.And(*hyps), goal))
    L, E = z3.Function("L", I, I, I), z3.Function("E", I, I, I); b = z3.Function("b", I, I); v, w, m, n, i, j, t = z3.Ints("v w m n i j t"); one = lambda x: z3.If(x, 1, 0)
    step = lambda m, *vs: [f for v in vs for f in (L(v, m + 1) == L(v, m) + one(b(m) < v), E(v, m + 1) == E(v, m) + one(b(m) == v))]
    ob("elements below bucket v + 1 are those below v and those in v (base)", [L(v + 1, 0) == 0, L(v, 0) == 0, E(v, 0) == 0], L(v + 1, 0) == L(v, 0) + E(v, 0))
    ob("elements below bucket v + 1 are those below v and those in v (step)", step(m, v, v + 1) + [L(v + 1, m) == L(v, m) + E(v, m)], L(v + 1, m + 1) == L(v, m + 1) + E(v, m + 1))
    O, S = z3.Function("O", I, I), z3.Function("S", I, I)
    ob("start of a bucket: no element below bucket 0", step(m, 0) + [L(0, m) == 0, b(m) >= 0], L(0, m + 1) == 0)
    ob("start of a bucket (step)", [O(v) == L(v, n), O(v + 1) == O(v) + E(v, n), L(v + 1, n) == L(v, n) + E(v, n)], O(v + 1) == L(v + 1, n))
    ts, bs, tpg = z3.Ints("ts bs tpg"); cut = lambda t: z3.If(t * ts < n, t * ts, n); mn = lambda a, b: z3.If(a < b, a, b)
    st0, en = t * ts, mn(t * ts + ts, n)
    ob("work units are consecutive parts of the group", [ts >= 1, n >= 1, t >= 0, t * ts >= 0], z3.And(z3.If(st0 < en, z3.And(st0 == cut(t), en == mn(t * ts + ts, n)), cut(t) == mn(t * ts + ts, n)), cut(0) == 0))
    ob("the last work unit ends with the group", [n <= bs, tpg * ts >= bs], cut(tpg) == n)
    ob("first position in a work unit (step): elements of the bucket before the work unit", [S(t) == E(v, cut(t)), S(t + 1) == S(t) + E(v, cut(t + 1)) - E(v, cut(t))], S(t + 1) == E(v, cut(t + 1)))
    D, lo, k = z3.Function("D", I, I), z3.Int("lo"), z3.Int("k")
    ob("count within a work unit (step)", [E(v, lo + k) == E(v, lo) + D(k), D(k + 1) == D(k) + one(b(lo + k) == v)] + step(lo + k, v), E(v, lo + k + 1) == E(v, lo) + D(k + 1))
    ob("counts do not exceed the number of elements (step)", step(m, v) + [L(v, m) + E(v, m) <= m], L(v, m + 1) + E(v, m + 1) <= m + 1)
    ob("counts are monotone (step)", step(m, v) + [E(v, i) <= E(v, m), L(v, i) <= L(v, m)], z3.And(E(v, i) <= E(v, m + 1), L(v, i) <= L(v, m + 1)))
    rank = lambda i: L(b(i), n) + E(b(i), i)
    ob("rank is below the number of elements", step(i, b(i)) + [i + 1 <= n, E(b(i), i + 1) <= E(b(i), n), L(b(i), n) + E(b(i), n) <= n, L(b(i), n) >= 0, E(b(i), i) >= 0], z3.And(rank(i) >= 0, rank(i) < n))
    ob("same bucket: ranks in the order of the elements (stability)", step(i, b(i)) + [i < j, b(i) == b(j), E(b(i), i + 1) <= E(b(i), j)], rank(i) < rank(j))
    ob("elements below a bucket are monotone in the bucket (step)", [L(v, n) <= L(w, n), L(w + 1, n) == L(w, n) + E(w, n), E(w, n) >= 0], L(v, n) <= L(w + 1, n))
    ob("different buckets: ranks in the order of the buckets (grouping)", step(i, b(i)) + [b(i) < b(j), L(b(i) + 1, n) == L(b(i), n) + E(b(i), n), L(b(i) + 1, n) <= L(b(j), n), E(b(i), i + 1) <= E(b(i), n), E(b(j), j) >= 0], rank(i) < rank(j))
    W = z3.Function("W", I, I, I); x = z3.Int("x"); R = z3.Function("R", I, I)
    ob("writing in order: an element stays at its rank (step)", [W(x, k + 1) == z3.If(x == R(k), k, W(x, k)), x == R(i), z3.Implies(k > i, W(x, k) == i), z3.Implies(k != i, R(k) != R(i))], z3.Implies(k + 1 > i, W(x, k + 1) == i))
    g, nb, size = z3.Ints("g nb size")
    ob("a group starts inside the array", [bs >= 1, size >= 1, nb * bs >= size, nb * bs < size + bs, g >= 0, g <= nb - 1, g * bs <= (nb - 1) * bs], g * bs < size)
    ob("a work unit starts inside the group", [ts >= 1, tpg * ts >= bs, tpg * ts < bs + ts, t >= 0, t <= tpg - 1, t * ts <= (tpg - 1) * ts], t * ts < bs)
    ob("the work units of a group exist", [g <= nb - 1, tpg >= 1, (g + 1) * tpg <= nb * tpg], g * tpg + tpg <= nb * tpg); c.cover(ex, st, "lemma")
s.task("block_mkperm: composition", mkperm_lemma, "r")
s.native("perm.cpp", ["-fsanitize=address,undefined", "-fno-sanitize=vptr,signed-integer-overflow"])
if __name__ == "__main__": s.main()
