"""allocation and compaction of variable scopes (src/var.cpp) -- property C21"""
from varlife import *
from run import _T
def run1(ex, st, f, args):
    r = ex.call(st, f, args); assert len(r) == 1 and r[0][0] == 'ret', f; st.mem, st.pc = r[0][1].mem, r[0][1].pc; return r[0][2]
def peek(ex, st, f, args=()):
    r = ex.call(st.copy(), f, list(args)); assert len(r) == 1 and r[0][0] == 'ret', f; return r[0][2]
def mkts(ex, st, c, nm):
    p = ex.new_cells(st, size_of(c, 1), nm); run1(ex, st, "w_setts", [p, V32(nm + ".scope"), NULL]); return p
def compact(canary=False):
    """jitc_compact_scopes. Loops over variables, thread states and the value numbering table are verified for an arbitrary
    element (for-each rule: every element is visited once, and the body only changes that element). std::sort, std::unique
    and std::lower_bound carry contracts: after sorting and removal of duplicates, the position of a collected scope is its
    rank among the distinct collected scopes (strictly monotone, equal for equal scopes, below their number)."""
    def t(c):
        ex = c.exec(full_ms=30000, quick_ms=500); st = State(); L = Life(c, ex, st); C = ex.contracts; DYN = bv(peek(ex, st, "w_dynamic"), 32); RANK = z3.Function("rank", z3.BitVecSort(32), z3.BitVecSort(32)); NS = V32("n_scopes"); st.assume(z3.ULT(NS, 1 << 31))
        T = {k: mkts(ex, st, c, n) for k, n in ((0, "thread"), (1, "recording"))}; tso = {peek(ex, st, "w_tss", [k]).off: k for k in (0, 1)}; tobj = peek(ex, st, "w_tss", [0]).obj
        j, q = L.mk(st, "numbered", dep=[V32(f"numbered.d{k}") for k in range(4)]); st.assume(z3.And(j != 0, z3.ULT(j, L.N)))
        def has(st, n): return any(x[0] == n for x in st.ghost["log"])
        want = lambda s: z3.If(z3.ULT(s, DYN), s, DYN + RANK(s) + (1 if canary else 0))
        slot = {}
        for k in (0, 1): slot[k] = ex.new_cells(st, 8, "thread list"); ex.store(st, slot[k], T[k], _T("ptr", 64))
        fake = ex.new_cells(st, 4, "scopes"); P = lambda x: Ptr(fake.obj, x)
        def begin(ex, st, a, k2):
            k = tso.get(a[0].off) if a[0].obj == tobj else None
            if k is None: raise Unsupported("an unknown list of thread states is visited")
            L.log(st, ("each", k, has(st, "sort"))); return slot[k]
        def end(ex, st, a, k2): k = tso[a[0].off]; return Ptr(slot[k].obj, 8)
        def erase(ex, st, a, k2): ex.oblige(st, "all duplicates are removed", z3.BoolVal(has(st, "unique"))); L.log(st, ("erase",)); return P(0)
        def lower(ex, st, a, k2):
            v = bv(ex.load(st, a[2], _T("int", 32)), 32) if isinstance(a[2], Ptr) else bv(a[2], 32); ex.oblige(st, "scopes are looked up in the sorted list of distinct scopes", z3.BoolVal(has(st, "erase"))); st.assume(z3.ULT(RANK(v), NS)); L.log(st, ("rank", v)); return Ptr(fake.obj, simp(z3.ZeroExt(32, RANK(v)) * 4))
        for f in ex.mod.fns.values():
            d = f.dname
            if d.startswith("std::vector<ThreadState*,"):
                m = d.split("::")[-1].split("(")[0]
                if m == "begin": C[f.name] = begin
                elif m == "end": C[f.name] = end
            elif d.startswith("std::vector<unsigned int,") and "_Vector_base" not in d:
                m = d.split("::")[-1].split("(")[0]; m = "erase" if ">::erase(" in d else "push_back" if ">::push_back(" in d else m
                if m == "vector" or m.startswith("~") or m in ("begin", "end", "reserve", "size") or ">::begin(" in d or ">::end(" in d or ">::cbegin(" in d: C[f.name] = (lambda ex, st, a, k: z3.ZeroExt(32, NS)) if "size(" in d else (lambda ex, st, a, k: P(0)) if "begin(" in d else (lambda ex, st, a, k: P(simp(z3.ZeroExt(32, NS) * 4))) if "end(" in d else (lambda ex, st, a, k: None)
                elif m == "erase": C[f.name] = erase
                elif m == "push_back": C[f.name] = lambda ex, st, a, k: L.log(st, ("collect", bv(ex.load(st, a[1], _T("int", 32)), 32)))
            elif d.startswith("void std::sort<"): C[f.name] = lambda ex, st, a, k: L.log(st, ("sort",))
            elif " std::unique<" in d: C[f.name] = lambda ex, st, a, k: L.log(st, ("unique", ex.oblige(st, "duplicates are removed from the sorted list", z3.BoolVal(has(st, "sort"))))) or P(0)
            elif " std::lower_bound<" in d: C[f.name] = lower
        # loops over variables
        def idx(ph):
            v = [(k, ty, v) for k, (ty, v) in ph.items() if ty.k == 'int']
            if len(v) != 1 or len(ph) != 1: raise Unsupported("loop of jitc_compact_scopes without a plain index")
            return v[0]
        def entry(ex, st, ph): L.log(st, ("loop", has(st, "sort"))); k, ty, v = idx(ph); ex.oblige(st, "the first variable is visited first", bv(v, ty.w) == 1)
        def gen(ex, st, ph): k, ty, v = idx(ph); i = fresh("i", 32); _, p = L.mk(st, f"v{i}", index=i); st.assume(z3.And(i != 0, i != j)); st.ghost["cur"] = (i, L.snap(st, p)); return {k: i if ty.w == 32 else z3.ZeroExt(ty.w - 32, i)}
        def back(ex, pre, st, ph):
            k, ty, v = idx(ph); i, d0 = st.ghost["cur"]; ex.oblige(st, "the next variable is visited next", bv(v, ty.w) == z3.ZeroExt(ty.w - 32, i) + 1 if ty.w > 32 else bv(v, 32) == i + 1); d1 = L.snap(st, L.rec(ex, st, i)); live = z3.Or(d0["ref_count"] != 0, d0["ref_count_se"] != 0); s = d0["scope"]
            col = [x[1] for x in st.ghost["log"][len(pre.ghost["log"]):] if x[0] == "collect"]
            if not has(pre, "sort"):
                ex.oblige(st, "exactly the dynamic scopes of live variables are collected", z3.And(z3.BoolVal(bool(col)) == z3.And(live, z3.UGE(s, DYN)), *[x == s for x in col])); ex.oblige(st, "collecting changes nothing", L.unchanged(st, d0, d1)); c.cover(ex, st, "variable collected")
            else: ex.oblige(st, "live variables receive the rank of their scope", z3.Implies(live, d1["scope"] == want(s))); ex.oblige(st, "reserved scopes stay, nothing else changes", z3.And(L.unchanged(st, d0, d1, ("scope",)), z3.Implies(z3.And(live, z3.ULT(s, DYN)), d1["scope"] == s))); ex.oblige(st, "scopes are collected before they are renumbered", z3.BoolVal(not col)); c.cover(ex, st, "variable renumbered")
        ex.loopspecs.append(("jitc_compact_scopes", lambda f, h: LoopSpec(mode="inv", entry=entry, gen=gen, back=back) if any(p.ty.k == 'int' for p in h.phis) else None))
        # value numbering table
        esz = bv(peek(ex, st, "w_vk_size"), 64); ent = ex.new_cells(st, z3.simplify(esz).as_long(), "table entry"); [ex.store(st, Ptr(ent.obj, o), V32(f"old key {o}"), _T("int", 32)) for o in range(0, z3.simplify(esz).as_long(), 4)]; run1(ex, st, "w_entry_set", [ent, j])
        # the new table starts empty; keys of different entries stay different because renumbering is injective (below)
        M = AbsMap(ex, st, {36: KEYF}, lambda ex, st, m, key, q: st.assume(z3.BoolVal(False)))
        C["spec_map_begin"] = lambda ex, st, a, k: Multi([(st, 'ret', ent)]); C["spec_map_next"] = lambda ex, st, a, k: NULL
        res = ex.call(st, "w_compact", []); ex.oblige(State(), "the function returns", z3.BoolVal(len(res) > 0))
        for kind, s2, r in res:
            lg = s2.ghost["log"]; ex.oblige(s2, "never raises an error", kind == 'ret'); ex.oblige(s2, "variables are visited once before and once after sorting", [x[1] for x in lg if x[0] == "loop"] == [False, True])
            ex.oblige(s2, "all thread states are visited once before and once after sorting", sorted(x[1:] for x in lg if x[0] == "each") == [(0, False), (0, True), (1, False), (1, True)])
            k0 = [n for n, x in enumerate(lg) if x[0] == "sort"]; ex.oblige(s2, "the collected scopes are sorted once", len(k0) == 1)
            col = [x[1] for x in lg if x[0] == "collect"]; pre = [x for x in lg[:k0[0]] if x[0] == "collect"] if k0 else []
            ex.oblige(s2, "nothing is collected after sorting", len(pre) == len(col))
            for k in T: s0, s1 = V32(("thread", "recording")[k] + ".scope"), bv(peek(ex, s2, "w_ts_scope", [T[k]]), 32); ex.oblige(s2, "the dynamic scope of a thread is collected", z3.Implies(z3.UGE(s0, DYN), z3.Or(False, *[x == s0 for x in col]))); ex.oblige(s2, "a thread receives the rank of its scope", s1 == want(s0))
            ex.oblige(s2, "new scopes follow all renumbered ones", bv(peek(ex, s2, "w_ctr"), 32) == DYN - 1 + NS)
            ins = [x for x in s2.ghost["maplog"] if x[0] == "insert"]; ex.oblige(s2, "every entry of the value numbering table is entered again", len(ins) == 1)
            for x in ins: kw = key_of(L, s2, L.rec(ex, s2, j)); ex.oblige(s2, "under the current key of its variable", z3.And(bv(peek(ex, s2, "w_entry_get", [x[3]]), 32) == j, *[eq(u, w, 32) for u, w in zip(x[2], kw)]))
            c.cover(ex, s2, "done")
        # meaning: the order and equality of dynamic scopes is preserved, and reserved scopes stay below
        a, b = V32("a"), V32("b"); u = State(); u.assume(z3.And(z3.ULT(RANK(a), NS), z3.ULT(RANK(b), NS), z3.ULT(NS, 1 << 31), z3.Implies(z3.ULT(a, b), z3.ULT(RANK(a), RANK(b))), z3.Implies(z3.ULT(b, a), z3.ULT(RANK(b), RANK(a)))))
        ex.oblige(u, "renumbering preserves the order of scopes", z3.ULT(want(a), want(b)) == z3.ULT(a, b)); ex.oblige(u, "renumbered scopes do not exceed the counter", z3.Implies(z3.UGE(a, DYN), z3.ULE(want(a), DYN - 1 + NS)))
    return t
def alloc(canary=False):
    def t(c):
        for n in ("jitc_scope_next", "jitc_new_scope", "jitc_advance_scope"):
            for be in (1, 2):
                ex = c.exec(full_ms=10000, quick_ms=300); st = State(); L = Life(c, ex, st); C = ex.contracts; c0, inc = V32("counter"), V32("n"); run1(ex, st, "w_ctr_set", [c0]); T = {b: mkts(ex, st, c, f"thread{b}") for b in (1, 2)}; new = V32("compacted"); s0 = {b: V32(f"thread{b}.scope") for b in T}
                def comp(ex, st, a, k): L.log(st, ("compact",)); run1(ex, st, "w_ctr_set", [new]); st.assume(z3.ULT(new, 1 << 31)); return None
                for f in ex.mod.fns.values():
                    if f.dname.split("(")[0] == "thread_state": C[f.name] = lambda ex, st, a, k: (L.log(st, ("ts", a[0])), T[be])[1]
                    if f.dname.split("(")[0] == "jitc_compact_scopes": C[f.name] = comp
                for kind, s2, r in ex.call(st, fn(c, n), {"jitc_scope_next": [], "jitc_new_scope": [be], "jitc_advance_scope": [be, inc]}[n]):
                    r, c1 = bv(r, 32), bv(peek(ex, s2, "w_ctr"), 32); cp = len(L.evs(s2, "compact")); ex.oblige(s2, "never raises an error", kind == 'ret'); ex.oblige(s2, "the result is the value of the counter", r == c1)
                    if n == "jitc_advance_scope": ex.oblige(s2, "the counter advances by the given amount and never wraps around", c1 == z3.If(z3.ULT(c0 + inc, c0), z3.BitVecVal(0xffffffff, 32), c0 + inc + (1 if canary else 0)))
                    else: ex.oblige(s2, "scopes are compacted exactly if the counter is exhausted", z3.BoolVal(cp == 1) == (c0 == 0xffffffff)); ex.oblige(s2, "the new scope follows all scopes in use", z3.And(r == (new if cp else c0) + 1, z3.UGT(r, new if cp else c0)))
                    if n != "jitc_scope_next":
                        ex.oblige(s2, "the thread state of the requested backend is used", z3.And(len(L.evs(s2, "ts")) == 1, *[eq(x[1], be, 32) for x in L.evs(s2, "ts")])); ex.oblige(s2, "it enters the new scope", bv(peek(ex, s2, "w_ts_scope", [T[be]]), 32) == r)
                    c.cover(ex, s2, n + (", compaction" if cp else ""))
    return t
