"""life cycle of variables: reference counting, release, stashing, creation (src/var.cpp) -- properties C03 and C04"""
from core import *
from run import _T, LoopSpec, RAISE, Multi
from vars import *
from absmap import *
def V32(n): return z3.BitVec(n, 32)
FLD = "scope size counter scratch kind backend type write_ptr written retain_data symbolic unaligned optix side_effect coop_vec param_type consumed array_state param_offset reg_index ref_count_se array_length extra ref_count".split()
WID = dict(kind=7, backend=2, type=5, write_ptr=1, written=1, retain_data=1, symbolic=1, unaligned=1, optix=1, side_effect=1, coop_vec=1, param_type=2, consumed=1, array_state=3, ref_count_se=16, array_length=16)
def fns(c, d): return [f.name for f in c.mod.fns.values() if f.dname.split("(")[0] == d]
def fn(c, d, exact=False):
    r = [f.name for f in c.mod.fns.values() if (f.dname == d if exact else f.dname.split("(")[0] == d)]; assert len(r) == 1, (d, r); return r[0]
class Life:
    """the variable table as a set of records (index -> record); records move whenever the table may grow"""
    def __init__(s, c, ex, st, lookup=True):
        s.c, s.ex, C = c, ex, ex.contracts; s.V = Vars.__new__(Vars); V = s.V; V.ex, V.n, V.getters = ex, 0, {}
        st.ghost.update(vars={}, refs={}, made=[], log=[])
        for f in ex.mod.fns.values():
            d = f.dname
            if d.split("(")[0] in ("jitc_log", "jitc_trace"): C[f.name] = lambda ex, st, a, i: None
            elif d.split("(")[0] in ("jitc_raise",): C[f.name] = lambda ex, st, a, i: RAISE
            elif d.split("(")[0] == "jitc_fail": C[f.name] = s.c_fail
            elif d.startswith("std::vector<Variable,") and "::operator[](" in d: C[f.name] = s.c_at
            elif d.startswith("std::vector<Variable,") and "::size()" in d: C[f.name] = s.c_size
            elif d.startswith("std::vector<VariableExtra,") and "::operator[](" in d: C[f.name] = s.c_extra
            elif d.startswith("std::vector<unsigned int,"):
                m = d.split("::")[-1].split("(")[0]
                if m in ("push_back", "back", "pop_back", "empty", "emplace_back"): C[f.name] = lambda ex, st, a, i, m=m: s.c_uvec(ex, st, m, a)
            elif d.startswith("std::vector<CallReduceRecord") and "::empty()" in d: C[f.name] = lambda ex, st, a, i: z3.Bool("call_reduce_cache_empty")
            elif d.split("(")[0] == "jitc_var_call_reduce_cache_remove": C[f.name] = lambda ex, st, a, i: s.log(st, ("cache_remove", a[0]))
            elif d.startswith("FreeSlots::push("): C[f.name] = lambda ex, st, a, i: s.log(st, ("slot_push", a[1]))
            elif d.split("(")[0] == "jitc_free": C[f.name] = lambda ex, st, a, i: s.log(st, ("free", a[0]))
            elif d.startswith("unlock_guard::"): C[f.name] = lambda ex, st, a, i, d=d: s.log(st, ("lock",) if "~" in d else ("unlock",))
        C["free"] = lambda ex, st, a, i: s.log(st, ("free_label", a[0]))
        s.N = V32("table_size")
    def log(s, st, x): st.ghost["log"] = st.ghost["log"] + [x]
    def evs(s, st, n): return [x for x in st.ghost["log"] if x[0] == n]
    def c_fail(s, ex, st, a, i): ex.oblige(st, "no internal error (jitc_fail) is reached", False); raise Abort()
    def rec(s, ex, st, i):
        k = s.V.key(i)
        if k in st.ghost["vars"]: return st.ghost["vars"][k][1]
        for k2, (j, p) in st.ghost["vars"].items():
            if ex.pv.prove(st.pc, eq(i, j, 32), full=True)[0] == "proved": return p
        ex.oblige(st, "only records of variables that exist are accessed", False); raise Abort()
    def c_at(s, ex, st, a, ins):
        i = simp(z3.Extract(31, 0, bv(a[1], 64))); k = s.V.key(i)
        if k in st.ghost["vars"]: return st.ghost["vars"][k][1]
        out = []
        for k2, (j, p) in st.ghost["vars"].items():
            e = eq(i, j, 32)
            if ex.pv.feasible(st.pc, e): t = st.copy(); t.assume(e); out.append((t, 'ret', p))
        ex.oblige(st, "only records of variables that exist are accessed", z3.Or(False, *[eq(i, j, 32) for j, p in st.ghost["vars"].values()]))
        return Multi(out)
    def c_size(s, ex, st, a, i): return z3.ZeroExt(32, s.N)
    def c_extra(s, ex, st, a, i):
        s.log(st, ("extra", a[1])); d = st.ghost.setdefault("extra", {}); k = a[1].sexpr() if is_sym(a[1]) else a[1]
        if k not in d: ex.oblige(st, "only extra records that exist are accessed", False); raise Abort()
        return d[k]
    def c_uvec(s, ex, st, m, a):
        """the work list (and the list of unused extra slots)"""
        nm = a[0].obj
        if m in ("push_back", "emplace_back"):
            v = ex.load(st, a[1], _T("int", 32)); s.log(st, ("push", nm, v, add(a[0].off, 0))); return NULL if m == "emplace_back" else None
        if m == "empty": return st.ghost["todo_empty"]
        if m == "back":
            ex.oblige(st, "the work list is not empty when an element is removed", z3.Not(st.ghost["todo_empty"]))
            p = ex.new_cells(st, 4, "work list element"); ex.store(st, p, s.todo, _T("int", 32)); s.log(st, ("back",)); return p
        if m == "pop_back": s.log(st, ("pop",)); return None
    def fld(s, st, p, n, *x): r = s.ex.call(st.copy(), "w_field_" + n, [p, *x]); assert len(r) == 1; return bv(r[0][2], 64 if n == "literal" else 32)
    def set(s, st, p, n, v): r = s.ex.call(st, "w_set_" + n, [p, v]); assert len(r) == 1; st.mem = r[0][1].mem; st.pc = r[0][1].pc
    def mk(s, st, nm, index=None, dep=(0, 0, 0, 0), **f):
        """a record with arbitrary contents except for the given fields"""
        i = index if index is not None else V32(nm); p = s.ex.new_cells(st, 64, "record of " + nm); o = st.wobj(p.obj)
        for k in range(8): o.cells[8 * k] = (8, 0)
        lit = f.pop("literal", None); r = s.ex.call(st, "w_mkvar", [p, 0, 0, 0, 0, z3.BitVec(nm + ".literal", 64) if lit is None else lit, 0, *dep]); assert len(r) == 1
        st.mem = r[0][1].mem; st.pc = r[0][1].pc
        for n in FLD:
            v = f.get(n); 
            if v is None: v = V32(f"{nm}.{n}"); v = v & ((1 << WID[n]) - 1) if n in WID else v
            s.set(st, p, n, v)
        st.ghost["vars"] = dict(st.ghost["vars"]); st.ghost["vars"][s.V.key(i)] = (i, p)
        return i, p
    def snap(s, st, p): d = {n: s.fld(st, p, n) for n in FLD}; d["literal"] = s.fld(st, p, "literal"); d["dep"] = [s.fld(st, p, "dep", k) for k in range(4)]; return d
    def unchanged(s, st, a, b, but=()):
        return z3.And(*[eq(a[n], b[n], 32) for n in FLD if n not in but], *([a["literal"] == b["literal"]] if "literal" not in but else []), *[x == y for x, y in zip(a["dep"], b["dep"])])
# ------------------------------------------------------------------ reference counts
def counts(which, sign, se, by_record, canary=False):
    """jitc_var_{inc,dec}_ref{,_se}: exactly one reference more/less; release exactly when the last one of both kinds is gone"""
    def t(c):
        ex = c.exec(full_ms=30000, quick_ms=500); st = State(); L = Life(c, ex, st); C = ex.contracts
        i, p = L.mk(st, "a"); st.assume(i != 0); st.assume(z3.ULT(i, L.N)); d0 = L.snap(st, p); cnt = d0["ref_count_se"] if se else d0["ref_count"]; other = d0["ref_count"] if se else d0["ref_count_se"]
        st.assume(z3.Or(d0["ref_count"] != 0, d0["ref_count_se"] != 0))
        if sign > 0: st.assume(cnt != (0xffff if se else 0xffffffff))
        else: st.assume(cnt != 0)
        for n in fns(c, "jitc_var_free"): C[n] = lambda ex, st, a, k: L.log(st, ("release", a[0], a[1]))
        C["jitc_var(unsigned int)"] = lambda ex, st, a, k: L.rec(ex, st, a[0])
        f = fn(c, which + ("(unsigned int, Variable*)" if by_record else "(unsigned int)"), True)
        for kind, s2, r in ex.call(st, f, [i, p] if by_record else [i]):
            d1 = L.snap(s2, p); n = "ref_count_se" if se else "ref_count"; new = cnt + sign + (1 if canary else 0)
            ex.oblige(s2, "never raises an error", kind == 'ret')
            ex.oblige(s2, "the reference count changes by exactly one", d1[n] == new); ex.oblige(s2, "nothing else about the variable changes", L.unchanged(s2, d0, d1, (n,)))
            rel = L.evs(s2, "release"); dead = z3.And(new == 0, other == 0)
            ex.oblige(s2, "the variable is released exactly when no reference of either kind remains", z3.Implies(dead, len(rel) == 1) if not rel else z3.And(dead, len(rel) == 1))
            for x in rel: ex.oblige(s2, "the variable itself is released", z3.And(eq(x[1], i, 32), z3.BoolVal(isinstance(x[2], Ptr) and x[2].obj == p.obj)))
            c.cover(ex, s2, "released" if rel else "alive")
        if not by_record:
            st = State(); L = Life(c, ex, st)
            for n in fns(c, "jitc_var_free"): C[n] = lambda ex, st, a, k: L.log(st, ("release", a[0], a[1]))
            for kind, s2, r in ex.call(st, f, [0]): ex.oblige(s2, "index 0 is ignored", kind == 'ret' and not s2.ghost["log"]); c.cover(ex, s2, "index 0")
    return t
def lookup(c):
    """jitc_var(index), jitc_var(WeakRef): the record of the index; a weak reference resolves exactly if the slot still holds the same generation"""
    ex = c.exec(full_ms=30000, quick_ms=500); C = ex.contracts
    def table(st, L):
        # the table as one block of records: variables.data() + 64 * index
        base = ex.new_array(st, 8, z3.ZeroExt(32, L.N) * 8, "table"); return base
    for weak in (False, True):
        st = State(); L = Life(c, ex, st); st.assume(z3.ULT(L.N, 1 << 31)); base = table(st, L); i, g = V32("index"), V32("generation")
        for f in ex.mod.fns.values():
            if f.dname.startswith("std::vector<Variable,") and "::data()" in f.dname: C[f.name] = lambda ex, st, a, k: base
        fails = []
        for n in fns(c, "jitc_fail"): C[n] = lambda ex, st, a, k: RAISE
        word = lambda st, off: ex.arr_read(st.mem[base.obj], simp((z3.ZeroExt(32, i) * 64 + off) / 8))
        o = st.mem[base.obj]; rd = lambda off: ex.arr_read(o, simp(z3.ZeroExt(32, i) * 8 + off // 8))
        live = z3.Or(z3.Extract(31, 0, rd(0)) != 0, z3.Extract(15, 0, rd(56)) != 0); gen = z3.Extract(63, 32, rd(32))
        if weak:
            f = fn(c, "jitc_var(WeakRef)", True); args = [simp(z3.Concat(g, i))]
        else: f = fn(c, "jitc_var(unsigned int)", True); args = [i]
        for kind, s2, r in ex.call(st, f, args):
            if weak:
                if kind != 'ret': ex.oblige(s2, "fails only for an index outside of the table", z3.UGE(i, L.N)); c.cover(ex, s2, "fails"); continue
                ok = z3.And(i != 0, gen == g)
                if isinstance(r, Ptr) and r.obj is None: ex.oblige(s2, "null exactly if the generation differs", z3.Not(ok)); c.cover(ex, s2, "expired")
                else: ex.oblige(s2, "the record of the index is returned exactly if the generation agrees", z3.And(ok, z3.ULT(i, L.N), z3.BoolVal(r.obj == base.obj), eq(r.off, z3.ZeroExt(32, i) * 64, 64))); c.cover(ex, s2, "resolved")
            else:
                if kind != 'ret': ex.oblige(s2, "fails exactly for indices of variables that do not exist", z3.Or(i == 0, z3.UGE(i, L.N), z3.Not(live))); c.cover(ex, s2, "fails"); continue
                ex.oblige(s2, "the record of the index is returned", z3.And(i != 0, z3.ULT(i, L.N), live, z3.BoolVal(r.obj == base.obj), eq(r.off, z3.ZeroExt(32, i) * 64, 64))); c.cover(ex, s2, "found")
def stash(c):
    ex = c.exec(full_ms=30000, quick_ms=500); C = ex.contracts; st = State(); L = Life(c, ex, st); i, p = L.mk(st, "a"); st.assume(z3.And(i != 0, V32("a.ref_count") != 0)); d0 = L.snap(st, p)
    st.assume(z3.ULE(d0["ref_count"], 0xffff))
    C["jitc_var(unsigned int)"] = lambda ex, st, a, k: L.rec(ex, st, a[0])
    arr = z3.And(d0["array_state"] != 0)
    for kind, s2, h in ex.call(st, fn(c, "jitc_var_stash_ref"), [i]):
        ex.oblige(s2, "never fails", kind == 'ret'); d1 = L.snap(s2, p); h = bv(h, 64)
        # 'array_length' and 'ref_count_stashed' share storage
        took = h != 0
        ex.oblige(s2, "a handle is returned exactly if nothing is stashed yet and the variable is no array", took == z3.And(d0["array_length"] == 0, z3.Not(L_is_array(L, s2, p))))
        ex.oblige(s2, "the handle names the variable and its generation", z3.Implies(took, h == z3.Concat(d0["counter"], i)))
        ex.oblige(s2, "the count is stashed", d1["array_length"] == z3.If(took, d0["ref_count"], d0["array_length"])); ex.oblige(s2, "nothing else changes", L.unchanged(s2, d0, d1, ("array_length",))); c.cover(ex, s2, "stash")
    for kind, s2, h in ex.call(State(), fn(c, "jitc_var_stash_ref"), [0]): ex.oblige(s2, "index 0 has nothing to stash", kind == 'ret' and eq(h, 0, 64))
    for case in ("same", "expired"):
        st = State(); L = Life(c, ex, st); i, p = L.mk(st, "a"); st.assume(i != 0); d0 = L.snap(st, p); h = z3.BitVec("handle", 64)
        def weak(ex, st, a, k):
            i2, g = z3.Extract(31, 0, bv(a[0], 64)), z3.Extract(63, 32, bv(a[0], 64)); ex.oblige(st, "the variable named by the handle is looked up", z3.And(i2 == z3.Extract(31, 0, h), g == z3.Extract(63, 32, h)))
            return p if case == "same" else NULL
        C["jitc_var(WeakRef)"] = weak
        for kind, s2, r in ex.call(st, fn(c, "jitc_var_unstash_ref"), [h]):
            d1 = L.snap(s2, p); ex.oblige(s2, "never fails", kind == 'ret')
            if case == "same": ex.oblige(s2, "unstashing clears the stashed count of the variable", z3.Or(h == 0, d1["array_length"] == 0)); ex.oblige(s2, "nothing else changes", z3.And(L.unchanged(s2, d0, d1, ("array_length",)), z3.Implies(h == 0, d1["array_length"] == d0["array_length"])))
            else: ex.oblige(s2, "an expired handle changes nothing", L.unchanged(s2, d0, d1))
            c.cover(ex, s2, "unstash " + case)
def L_is_array(L, st, p):
    f = [f.name for f in L.ex.mod.fns.values() if f.dname == "Variable::is_array() const"][0]; r = L.ex.call(st.copy(), f, [p]); assert len(r) == 1; return tobool(r[0][2])
# ------------------------------------------------------------------ release
def partitions():
    """aliasing patterns of four operands: 0 = none, otherwise equal numbers = the same variable"""
    out = []
    def go(p, m):
        if len(p) == 4: out.append(tuple(p)); return
        for x in range(m + 2): go(p + [x], max(m, x))
    go([], 0); return out
def release(pats, extra, canary=False):
    """one step of jitc_var_free, for an arbitrary released variable and arbitrary contents of the work list; the loop
    invariant is the precondition: the variable at hand has no references left and 'v' is its current record"""
    def t(c):
        for pat in pats: release1(c, pat, extra, canary)
    return t
def release1(c, pat, extra, canary=False):
    ex = c.exec(full_ms=30000, quick_ms=500); st = State(); L = Life(c, ex, st); C = ex.contracts; V = L.V
    KE = ex.call(State(), "w_kind_Evaluated", [])[0][2]
    ids = {0: 0}; P = {}
    for k in sorted(set(pat) - {0}):
        ids[k], P[k] = L.mk(st, f"dep{k}"); st.assume(ids[k] != 0)
        for j in range(1, k): st.assume(ids[j] != ids[k])
    xi = V32("a.extra") if extra else 0
    i, p = L.mk(st, "a", dep=[ids[x] for x in pat], ref_count=0, ref_count_se=0, extra=xi); st.assume(i != 0)
    for k in ids:
        if k: st.assume(ids[k] != i)
    d0 = L.snap(st, p); D0 = {k: L.snap(st, P[k]) for k in P}; wp = d0["write_ptr"] == 1
    # ownership invariant: the released variable still owns one reference per use of an operand
    uses = {k: pat.count(k) - (1 if canary else 0) for k in P}
    for k in P:
        st.assume(z3.Or(wp, z3.UGE(D0[k]["ref_count"], uses[k])))
        st.assume(z3.Or(z3.Not(wp), D0[k]["ref_count_se"] != 0 if pat[3] == k else z3.BoolVal(True)))
    # the next element of the work list: a variable without references (pushed by an earlier step)
    todo, tp = L.mk(st, "todo", ref_count=0, ref_count_se=0); L.todo = todo; st.assume(z3.And(todo != 0, todo != i)); st.ghost["todo_empty"] = z3.Bool("todo_empty")
    for k in P: st.assume(todo != ids[k])
    lab = ex.new_cells(st, 8, "label")
    if extra:
        st.assume(xi != 0); e = ex.new_cells(st, 32, "extra record"); r = ex.call(st, "w_mkextra", [e, lab, FPtr("w_callback") if extra != "label" else NULL, 1 if extra == "internal" else 0]); st.mem, st.pc = r[0][1].mem, r[0][1].pc
        st.ghost["extra"] = {simp(z3.ZeroExt(32, xi)).sexpr(): e}
        def cb(ex, st, a, k): L.log(st, ("callback", a[0], a[1])); move_all(L, st)
        C["w_callback"] = cb
    for n in fns(c, "jitc_lvn_drop"): C[n] = lambda ex, st, a, k: L.log(st, ("drop", a[0], L.snap(st, a[1]), a[1].obj))
    def split(st):
        pi = st.ghost["vars"][V.key(i)][1]; return pi
    def check(s2, nxt, nrec, ended):
        lg = s2.ghost["log"]; pi = s2.ghost["vars"][V.key(i)][1]; d1 = L.snap(s2, pi); ev = d0["kind"] == KE
        fr, alld = L.evs(s2, "free"), L.evs(s2, "drop"); isdep = lambda x, k: ex.pv.prove(s2.pc, eq(x[1], ids[k], 32), full=True)[0] == "proved"
        dd = {k: [x for x in alld if isdep(x, k)] for k in P}; dr = [x for x in alld if not any(x is y for k in P for y in dd[k])]
        ex.oblige(s2, "the memory of an evaluated variable is released exactly once unless it is borrowed", z3.BoolVal(len(fr) == 1) == z3.And(ev, d0["retain_data"] == 0) if len(fr) < 2 else False)
        for x in fr: ex.oblige(s2, "its own memory is released", eq(x[1], d0["literal"], 64) if not isinstance(x[1], Ptr) else False)
        ex.oblige(s2, "an unevaluated variable leaves the value numbering table", z3.BoolVal(len(dr) == 1) == z3.Not(ev) if len(dr) < 2 else False)
        for x in dr: ex.oblige(s2, "with the key under which it was entered", z3.And(eq(x[1], i, 32), L.unchanged(s2, x[2], d0, ("counter",))))
        ex.oblige(s2, "the generation of the slot advances", d1["counter"] == d0["counter"] + 1); ex.oblige(s2, "the slot keeps no references", z3.And(d1["ref_count"] == 0, d1["ref_count_se"] == 0))
        sp = L.evs(s2, "slot_push"); ex.oblige(s2, "the slot is handed back exactly once", z3.And(z3.BoolVal(len(sp) == 1), eq(sp[0][1], i, 32)) if sp else False)
        cr = L.evs(s2, "cache_remove"); ex.oblige(s2, "cached call buckets of the variable are dropped", z3.BoolVal(len(cr) == 1) == z3.Not(z3.Bool("call_reduce_cache_empty")) if len(cr) < 2 else False)
        for x in cr: ex.oblige(s2, "of this variable", eq(x[1], i, 32))
        names = [x[0] for x in lg]
        if extra:
            cbs = L.evs(s2, "callback"); fl = L.evs(s2, "free_label"); px = [x for x in L.evs(s2, "push") if "free_todo" not in x[1]]
            ex.oblige(s2, "the free callback is invoked exactly once, for this variable", (len(cbs) == (0 if extra == "label" else 1)) and z3.And(*[z3.And(eq(x[1], i, 32), eq(x[2], 1, 32)) for x in cbs]))
            ex.oblige(s2, "the callback runs with the lock released exactly if it is an external one", [n for n in names if n in ("unlock", "callback", "lock")] == ({"label": [], "internal": ["callback"], "external": ["unlock", "callback", "lock"]}[extra]))
            ex.oblige(s2, "the slot is handed back only after the callback", not cbs or names.index("slot_push") > names.index("callback"))
            ex.oblige(s2, "the label is released exactly once", len(fl) == 1 and isinstance(fl[0][1], Ptr) and fl[0][1].obj == lab.obj)
            ex.oblige(s2, "the extra slot is handed back exactly once", z3.And(z3.BoolVal(len(px) == 1), eq(px[0][2], xi, 32)) if px else False)
        else: ex.oblige(s2, "no other resources are released", not (L.evs(s2, "callback") or L.evs(s2, "free_label") or [x for x in L.evs(s2, "push") if "free_todo" not in x[1]]))
        pt = [x for x in L.evs(s2, "push") if "free_todo" in x[1]]; popped = len(L.evs(s2, "pop"))
        for k in P:
            D1 = L.snap(s2, s2.ghost["vars"][V.key(ids[k])][1]); se = 1 if pat[3] == k else 0
            ex.oblige(s2, "each operand loses one reference per use (a written-to pointer: the side effect reference)", z3.And(D1["ref_count"] == z3.If(wp, D0[k]["ref_count"], D0[k]["ref_count"] - uses[k]), D1["ref_count_se"] == z3.If(z3.And(wp, z3.BoolVal(se == 1)), D0[k]["ref_count_se"] - 1, D0[k]["ref_count_se"])))
            ntodo = sum([z3.If(eq(x[2], ids[k], 32), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)) for x in pt], z3.BitVecVal(0, 32)); gen1 = D1["counter"] != D0[k]["counter"]
            ex.oblige(s2, "nothing else about the operands changes", L.unchanged(s2, D0[k], D1, ("ref_count", "ref_count_se", "counter")))
            ex.oblige(s2, "a live operand keeps its generation", z3.Implies(z3.Or(D1["ref_count"] != 0, D1["ref_count_se"] != 0), z3.And(z3.Not(gen1), z3.BoolVal(not dd[k]))))
            ex.oblige(s2, "a variable on the work list can no longer be found: its generation expired and it left the value numbering table", z3.Implies(ntodo != 0, z3.And(gen1, z3.Or(D0[k]["kind"] == KE, z3.BoolVal(len(dd[k]) == 1)))))
            for x in dd[k]: ex.oblige(s2, "it leaves the table with the key under which it was entered", L.unchanged(s2, x[2], D0[k], ("counter", "ref_count", "ref_count_se")))
            touched = z3.Or(z3.Not(wp), z3.BoolVal(se == 1)); dead = z3.And(touched, D1["ref_count"] == 0, D1["ref_count_se"] == 0)
            sched = sum([z3.If(eq(x[2], ids[k], 32), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)) for x in pt], z3.BitVecVal(0, 32))
            if nxt is not None: sched = sched + z3.If(eq(nxt, ids[k], 32), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
            ex.oblige(s2, "an operand is scheduled for release exactly once, and exactly when its last reference disappeared", sched == z3.If(dead, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
        known = [ids[k] for k in P]
        for x in pt: ex.oblige(s2, "only operands are scheduled", z3.Or(False, *[eq(x[2], j, 32) for j in known]))
        if ended: ex.oblige(s2, "the release ends only when the work list is empty", z3.And(z3.Bool("todo_empty"), z3.BoolVal(not pt and not popped)))
        else:
            ex.oblige(s2, "the next variable is a released operand or the last element of the work list", z3.Or(eq(nxt, todo, 32) if popped else z3.BoolVal(False), *[eq(nxt, j, 32) for j in known]))
            ex.oblige(s2, "an element taken from the work list leaves it", (popped == 1 and len(L.evs(s2, "back")) == 1) if s2.ghost.get("x") else popped <= 1)
            ex.oblige(s2, "elements are taken from the work list one at a time and only if nothing was scheduled", popped == len(L.evs(s2, "back")) and (popped == 0 or not pt))
            q = L.rec(ex, s2, nxt); n1 = L.snap(s2, q)
            ex.oblige(s2, "the next variable has no references left", z3.And(n1["ref_count"] == 0, n1["ref_count_se"] == 0)); ex.oblige(s2, "the next record is that of the next variable", isinstance(nrec, Ptr) and nrec.obj == q.obj)
    def back(ex, pre, s2, ph):
        rec = [v for ty, v in ph.values() if isinstance(v, Ptr)]; ix = [v for ty, v in ph.values() if not isinstance(v, Ptr) and ty.k == 'int' and ty.w == 32]
        if len(rec) != 1 or len(ix) != 1: raise Unsupported("loop of jitc_var_free: the variable and its record are not identified")
        check(s2, ix[0], rec[0], False); c.cover(ex, s2, "next")
    def entry(ex, st, ph):
        rec = [v for ty, v in ph.values() if isinstance(v, Ptr)]; ix = [v for ty, v in ph.values() if not isinstance(v, Ptr) and ty.k == 'int' and ty.w == 32]
        if len(rec) != 1 or len(ix) != 1: raise Unsupported("loop of jitc_var_free: the variable and its record are not identified")
        ex.oblige(st, "the release starts with the given variable", z3.And(eq(ix[0], i, 32), z3.BoolVal(rec[0].obj == p.obj)))
    def spec(f, h):
        lp = ex.mod.loops(f); outer = max(lp, key=lambda k: len(lp[k]))
        return LoopSpec(mode="inv", entry=entry, back=back) if h.idx == outer else None
    ex.loopspecs.append(("jitc_var_free(", spec))
    for kind, s2, r in ex.call(st, fn(c, "jitc_var_free"), [i, p]):
        ex.oblige(s2, "never raises an error", kind == 'ret'); check(s2, None, None, True); c.cover(ex, s2, "done")
def move_all(L, st):
    """records move (the table may grow while the lock is released)"""
    L.V.move(st)
# ------------------------------------------------------------------ creation and value numbering
def size_of(c, k): return c.exec().call(State(), "w_sizes", [k])[0][2]
KEYF = [(4 * k, 'i32') for k in range(9)]
def keyspec(s):
    """the key fields of a record snapshot, as a list of 32 bit words in a fixed order (specification)"""
    arr = z3.If(z3.Or(s["array_state"] != 0, s["coop_vec"] == 1), s["array_length"], z3.BitVecVal(0, 32))
    return [s["scope"], *s["dep"], z3.Extract(31, 0, s["literal"]), z3.Extract(63, 32, s["literal"]), s["size"], s["kind"], s["backend"], s["type"], s["write_ptr"], s["written"], arr]
def agree(a, b): return z3.And(*[x == y for x, y in zip(keyspec(a), keyspec(b))])
def key_words(ex, st, p): return [bv(ex.load(st, Ptr(p.obj, add(p.off, o)), _T("int", 32)), 32) for o, _ in KEYF]
def key_of(L, st, p):
    t = st.copy(); k = L.ex.new_cells(t, 36, "key"); n = len(t.pc); rs = L.ex.call(t, "w_key", [k, p]); out = None
    for kind, s2, _ in rs:
        assert kind == 'ret'; w = key_words(L.ex, s2, k); cond = z3.And(*s2.pc[n:]) if len(s2.pc) > n else z3.BoolVal(True)
        out = w if out is None else [z3.If(cond, a, b) for a, b in zip(w, out)]
    return out
def keys(c, canary=False):
    """two records have equal keys exactly if they agree in everything that determines their value; equal keys have equal hashes"""
    ex = c.exec(full_ms=60000, quick_ms=500); st = State(); L = Life(c, ex, st)
    i, p = L.mk(st, "a", dep=[V32(f"a.d{k}") for k in range(4)]); j, q = L.mk(st, "b", dep=[V32(f"b.d{k}") for k in range(4)]); A, B = L.snap(st, p), L.snap(st, q)
    k1, k2 = ex.new_cells(st, 36, "key a"), ex.new_cells(st, 36, "key b")
    W1, W2 = key_of(L, st, p), key_of(L, st, q)
    for k, W in ((k1, W1), (k2, W2)):
        for (off, _), w in zip(KEYF, W): ex.store(st, Ptr(k.obj, off), w, _T("int", 32))
    same = z3.And(*[x == y for x, y in list(zip(W1, W2))[1 if canary else 0:]])
    ex.oblige(st, "keys of records that agree in scope, operands, literal, size, kind, backend, type, pointer access and array length are equal", z3.Implies(agree(A, B), same))
    ex.oblige(st, "records with equal keys agree in scope, operands, literal, size, kind, backend, type, pointer access and array length", z3.Implies(same, agree(A, B)))
    for kind, s2, r in ex.call(st, "w_key_eq", [k1, k2]): ex.oblige(s2, "operator== compares all of the key", z3.And(z3.BoolVal(kind == 'ret'), tobool(r) == same)); c.cover(ex, s2, "compared")
    # hash: a function of the key words only
    t = st.copy()
    for o, (off, _) in enumerate(KEYF): ex.store(t, Ptr(k2.obj, off), W1[o], _T("int", 32))
    h1 = ex.call(t, "w_key_hash", [k1]); h2 = ex.call(t, "w_key_hash", [k2]); assert len(h1) == 1 and len(h2) == 1
    ex.oblige(t, "equal keys have equal hashes", bv(h1[0][2], 64) == bv(h2[0][2], 64)); c.cover(ex, t, "hashed")
def lvn(which, canary=False):
    def t(c):
        ex = c.exec(full_ms=30000, quick_ms=500); st = State(); L = Life(c, ex, st); i, p = L.mk(st, "a", dep=[V32(f"a.d{k}") for k in range(4)]); d0 = L.snap(st, p); stored = V32("stored")
        def entry(ex, st, m, key, q): r = ex.call(st, "w_entry_set", [q, stored]); st.mem, st.pc = r[0][1].mem, r[0][1].pc
        M = AbsMap(ex, st, {36: KEYF}, entry); kw = key_of(L, st, p)
        for kind, s2, r in ex.call(st, fn(c, "jitc_lvn_" + which), [i, p]):
            lg = s2.ghost["maplog"]; ex.oblige(s2, "never fails", kind == 'ret'); ex.oblige(s2, "the record is not modified", L.unchanged(s2, d0, L.snap(s2, p)))
            for x in lg:
                if x[0] in ("find", "insert", "erase"): ex.oblige(s2, "the table is accessed under the key of the variable", z3.And(*[eq(u, v, 32) for u, v in zip(x[2], kw)]))
            ins, era = [x for x in lg if x[0] == "insert"], [x for x in lg if x[0] == "erase"]; m = [v for v in s2.ghost["map"].values()]; found = any(x[0] == "find" for x in lg) and not ins
            ent = [q for v in m for k, q in v]; present = bool(era) or (bool(ent) and ent[0] is not None and not ins)
            if which == "drop":
                ex.oblige(s2, "the entry is removed exactly if it refers to this variable", z3.And(stored == (i + 1 if canary else i)) if era else z3.Or(z3.BoolVal(not present), stored != i)); ex.oblige(s2, "nothing is inserted", not ins); c.cover(ex, s2, "removed" if era else "kept" if present else "absent")
            else:
                ex.oblige(s2, "an existing entry is kept, otherwise one is created", (len(ins) == 1) != present and not era)
                for x in ins: ex.oblige(s2, "the new entry refers to the variable", eq(ex.call(s2.copy(), "w_entry_get", [x[3]])[0][2], i, 32))
                if present: ex.oblige(s2, "the existing entry is not changed", eq(ex.call(s2.copy(), "w_entry_get", [ent[0]])[0][2], stored, 32))
                c.cover(ex, s2, "inserted" if ins else "kept")
    return t
def new_var(be, labels):
    def t(c):
        ex = c.exec(full_ms=30000, quick_ms=500); st = State(); L = Life(c, ex, st); C = ex.contracts; V = L.V
        KE = ex.call(State(), "w_kind_Evaluated", [])[0][2]; VOID = ex.call(State(), "w_type_void", [])[0][2]; SB = size_of(c, 5); FV, FR, FD = size_of(c, 2), size_of(c, 3), size_of(c, 4)
        i0, v = L.mk(st, "v", index=V32("unused handle"), dep=[V32(f"v.d{k}") for k in range(4)], backend=be, ref_count=0, ref_count_se=0, extra=0); st.ghost["vars"] = {}
        flags, dbe = V32("flags"), V32("default_backend"); st.assume(z3.Or(dbe == 1, dbe == 2)) if be == 0 else None
        if not labels: st.assume(flags & FD == 0)
        lsz = size_of(c, 1); pref = ex.new_array(st, 1, z3.BitVec("prefix_len", 64) + 1, "prefix") if labels else NULL; st.assume(z3.ULT(z3.BitVec("prefix_len", 64), 1 << 32))
        ts = {}
        for nm in ("llvm", "cuda"):
            ts[nm] = ex.new_cells(st, lsz, nm + " thread state"); r = ex.call(st, "w_setts", [ts[nm], V32(nm + ".scope"), pref if labels != "location" else NULL]); st.mem, st.pc = r[0][1].mem, r[0][1].pc
        tls = ex.new_cells(st, size_of(c, 0), "thread local"); have = z3.Bool("has_thread_state")
        for fl in ("init", "have"):
            s1 = st.copy(); r = ex.call(s1, "w_settls", [tls, NULL if fl == "init" else ts["llvm"], NULL if fl == "init" else ts["cuda"], flags, dbe]); s1.mem, s1.pc = r[0][1].mem, r[0][1].pc
            go(c, ex, s1, L, be, labels, v, ts, tls, flags, dbe, fl, KE, VOID, SB, FV, FR, FD, pref)
    def go(c, ex, st, L, be, labels, v, ts, tls, flags, dbe, fl, KE, VOID, SB, FV, FR, FD, pref):
        C = ex.contracts; V = L.V; st.assume(z3.ULT(L.N, 0xffffffff)); d0 = L.snap(st, v)
        C["strlen"] = lambda ex, st, a, i: z3.BitVec("prefix_len", 64) if isinstance(a[0], Ptr) and a[0].obj == pref.obj else loclen
        loclen = z3.BitVec("location_len", 64); st.assume(z3.ULT(loclen, 256)); locb = ex.new_array(st, 1, 256, "source location"); st.assume((ex.arr_read(st.mem[locb.obj], 0) == 0) == (loclen == 0))
        for g in ex.mod.globals:
            if "source_location_buf" in g:
                C["@" + g] = lambda h, st2, id, ty: st2.mem[locb.obj]
        def init_ts(st, a):
            L.log(st, ("init", a[0])); b = bv(a[0], 32)
            u = st.copy(); u.assume(b == 1); st.assume(b != 1); return Multi([(x, 'ret', q) for x, q in ((u, ts["cuda"]), (st, ts["llvm"])) if ex.pv.feasible(x.pc, z3.BoolVal(True))])
        def pop(ex, st, a, i):
            j, p = L.mk(st, "slot", index=V32("free_slot"), ref_count=0, ref_count_se=0); st.assume(j != 0); st.assume(z3.ULT(j, L.N)); ex.oblige(st, "a slot is taken only if there is one", z3.Not(z3.Bool("no_free_slot"))); L.log(st, ("pop", j, L.fld(st, p, "counter"))); return j
        def grow(ex, st, a, i):
            V.move(st); p = ex.new_cells(st, 64, "new record"); o = st.wobj(p.obj)
            for k in range(8): o.cells[8 * k] = (8, 0)
            r = ex.call(st, "w_newvar", [p]); st.mem, st.pc = r[0][1].mem, r[0][1].pc; st.ghost["vars"] = dict(st.ghost["vars"]); st.ghost["vars"][V.key(L.N)] = (L.N, p); L.log(st, ("grow", L.N, L.fld(st, p, "counter"))); return p
        def extra(ex, st, a, i):
            e = ex.new_cells(st, size_of(c, 6), "extra record"); st.ghost["xrec"] = (a[0], e); x = V32("extra slot"); st.assume(x != 0); L.set(st, a[0], "extra", x); L.log(st, ("xrec",)); return e
        for f in ex.mod.fns.values():
            d = f.dname
            if d.startswith("jitc_thread_local(") or "std::launder<ThreadLocal>" in d: C[f.name] = lambda ex, st, a, i: tls
            if d.startswith("jitc_log_active("): C[f.name] = lambda ex, st, a, i: False
            if d.startswith("jitc_init_thread_state("): C[f.name] = lambda ex, st, a, i: init_ts(st, a)
            if d.startswith("FreeSlots::empty("): C[f.name] = lambda ex, st, a, i: z3.Bool("no_free_slot")
            if d.startswith("FreeSlots::pop("): C[f.name] = pop
            if "std::vector<Variable," in d and "::emplace_back" in d: C[f.name] = grow
            if d.startswith("std::vector<Variable,") and "::pop_back()" in d: C[f.name] = lambda ex, st, a, i: L.log(st, ("shrink",))
            if d.startswith("jitc_var_dec_ref(unsigned int)"): C[f.name] = lambda ex, st, a, i: L.log(st, ("dec", a[0]))
            if d.startswith("jitc_var_dec_ref_se(unsigned int)"): C[f.name] = lambda ex, st, a, i: L.log(st, ("dec_se", a[0]))
            if d.startswith("jitc_var_extra("): C[f.name] = extra
            if d.startswith("malloc_check("): C[f.name] = lambda ex, st, a, i: ex.new_array(st, 1, a[0], "label")
        old = V32("existing")
        def entry(ex, st, m, key, q):
            # table invariant: an entry refers to a live variable whose key is the key of the entry
            r = ex.call(st, "w_entry_set", [q, old]); st.mem, st.pc = r[0][1].mem, r[0][1].pc
            j, p = L.mk(st, "old", index=old, dep=[V32(f"old.d{k}") for k in range(4)]); st.assume(j != 0)
            for k2, (j2, _) in st.ghost["vars"].items():
                if k2 != V.key(j): st.assume(j2 != j)
            for u, w in zip(key_of(L, st, p), key): st.assume(eq(u, w, 32))
            st.assume(z3.Or(V32("old.ref_count") != 0, V32("old.ref_count_se") & 0xffff != 0)); st.assume(V32("old.ref_count") != 0xffffffff); st.ghost["old"] = L.snap(st, p)
        M = AbsMap(ex, st, {36: KEYF}, entry); dis = z3.Bool("disable_lvn")
        for kind, s2, r in ex.call(st, fn(c, "jitc_var_new"), [v, dis]):
            lg = s2.ghost["log"]; E = lambda n: [x for x in lg if x[0] == n]; ex.oblige(s2, "never raises an error", kind == 'ret')
            backend = dbe if be == 0 else z3.BitVecVal(be, 32); scope_t = z3.If(backend == 2, V32("llvm.scope"), V32("cuda.scope")); ev = d0["kind"] == KE; isarr = d0["array_state"] != 0
            scope = z3.If(z3.And(ev, z3.Not(isarr)), z3.BitVecVal(SB, 32), scope_t); want = dict(d0, backend=backend, scope=scope)
            elig = z3.And(z3.Not(dis), d0["type"] != VOID, z3.Not(ev), flags & FV != 0)
            al = E("pop") + E("grow"); ex.oblige(s2, "one slot is allocated", len(al) == 1)
            ex.oblige(s2, "a missing thread state is initialized, for the backend of the variable", (len(E("init")) == 1) == (fl == "init") and z3.And(*[eq(x[1], backend, 32) for x in E("init")]))
            ex.oblige(s2, "free slots are reused exactly if that is enabled and there are any", z3.BoolVal(bool(E("pop"))) == z3.And(flags & FR != 0, z3.Not(z3.Bool("no_free_slot"))))
            mp = s2.ghost["maplog"]; ins = [x for x in mp if x[0] == "insert"]; fnd = [x for x in mp if x[0] == "find"]; hit = "old" in s2.ghost
            ex.oblige(s2, "value numbering applies exactly to enabled, unevaluated nodes with a value that do not opt out", z3.BoolVal(len(fnd) == 1) == elig)
            ex.oblige(s2, "nothing is removed from the table", len(ins) + len(fnd) == len(mp))
            if len(al) != 1: continue
            idx, gen = al[0][1], al[0][2]
            if hit:
                o0 = s2.ghost["old"]; p = L.rec(ex, s2, old); o1 = L.snap(s2, p)
                ex.oblige(s2, "the existing variable is returned", eq(r, old, 32)); ex.oblige(s2, "only a variable that agrees in everything that determines the value is shared", agree(o0, want))
                ex.oblige(s2, "it gains one reference and is otherwise unchanged", z3.And(L.unchanged(s2, o0, o1, ("ref_count",)), o1["ref_count"] == o0["ref_count"] + 1)); ex.oblige(s2, "no entry is added", not ins)
                ex.oblige(s2, "the allocated slot is handed back", [x[0] for x in lg if x[0] in ("slot_push", "shrink")] == (["slot_push"] if E("pop") else ["shrink"]) and z3.And(*[eq(x[1], idx, 32) for x in E("slot_push")]))
                if E("pop"): ex.oblige(s2, "the generation of the slot is preserved", L.fld(s2, L.rec(ex, s2, idx), "counter") == gen)
                dec, dse = [x[1] for x in E("dec")], [x[1] for x in E("dec_se")]
                ex.oblige(s2, "the references to the operands held by the discarded node are released", z3.Or(z3.And(d0["write_ptr"] == 0, z3.BoolVal(len(dec) == 4 and not dse), *[eq(x, y, 32) for x, y in zip(dec, d0["dep"])]), z3.And(d0["write_ptr"] == 1, z3.BoolVal(not dec and len(dse) == 1), *[eq(x, d0["dep"][3], 32) for x in dse])))
                ex.oblige(s2, "no label is created", not E("xrec")); c.cover(ex, s2, "shared")
            else:
                p = L.rec(ex, s2, idx); n1 = L.snap(s2, p); ex.oblige(s2, "the allocated slot is returned", eq(r, idx, 32)); ex.oblige(s2, "the slot is kept", not E("slot_push") and not E("shrink"))
                ex.oblige(s2, "the operand references move into the new variable", not E("dec") and not E("dec_se"))
                ex.oblige(s2, "the new variable is the given record", L.unchanged(s2, want, n1, ("counter", "ref_count", "extra"))); ex.oblige(s2, "the new variable has exactly one reference", z3.And(n1["ref_count"] == 1, n1["ref_count_se"] == 0)); ex.oblige(s2, "the generation of the slot is preserved", n1["counter"] == gen)
                ex.oblige(s2, "an eligible node is entered into the table, others are not", z3.BoolVal(len(ins) == 1) == elig)
                kw = key_of(L, s2, p)
                for x in ins: ex.oblige(s2, "under its own key, referring to itself", z3.And(eq(ex.call(s2.copy(), "w_entry_get", [x[3]])[0][2], idx, 32), *[eq(u, w, 32) for u, w in zip(x[2], kw)]))
                hasl = z3.Or(z3.BoolVal(bool(labels) and labels != "location"), z3.And(flags & FD != 0, loclen != 0)); ex.oblige(s2, "a label is attached exactly if there is a prefix or a source location", z3.BoolVal(bool(E("xrec"))) == hasl)
                if E("xrec"):
                    a0, e = s2.ghost["xrec"]; ex.oblige(s2, "the label belongs to the new variable", a0.obj == p.obj); lp = ex.call(s2.copy(), "w_label", [e])[0][2]; o = s2.mem[lp.obj]; x = z3.BitVec("x", 64); pl = z3.BitVec("prefix_len", 64) if labels != "location" else z3.BitVecVal(0, 64); ll = z3.If(flags & FD != 0, loclen, z3.BitVecVal(0, 64))
                    PR = (lambda y: ex.arr_read(s2.mem[pref.obj], y)) if pref.obj else (lambda y: z3.BitVecVal(0, 8))
                    ex.oblige(s2, "the label is the prefix followed by the source location", z3.Implies(z3.ULE(x, pl + ll), ex.arr_read(o, x) == z3.If(z3.ULT(x, pl), PR(x), z3.If(z3.ULT(x, pl + ll), ex.arr_read(s2.mem[locb.obj], x - pl), z3.BitVecVal(0, 8)))))
                else: ex.oblige(s2, "no extra record otherwise", n1["extra"] == 0)
                c.cover(ex, s2, "created, " + ("numbered" if ins else "not numbered"))
    return t
