"""slot allocator (src/free_slots.h) and instance registry (src/registry.cpp) -- property C05"""
from core import *
from run import _T, LoopSpec, RAISE, Multi
from absmap import *
def V32(n): return z3.BitVec(n, 32)
def V64(n): return z3.BitVec(n, 64)
def fn(c, d):
    r = [f.name for f in c.mod.fns.values() if f.dname.split("(")[0] == d]; assert len(r) == 1, (d, r); return r[0]
def run1(ex, st, f, args):
    r = ex.call(st, f, args); assert len(r) == 1 and r[0][0] == 'ret', f; st.mem, st.pc = r[0][1].mem, r[0][1].pc; return r[0][2]
def peek(ex, st, f, args):
    r = ex.call(st.copy(), f, args); assert len(r) == 1 and r[0][0] == 'ret', f; return r[0][2]
def size_of(c, k): return peek(c.exec(), State(), "w_sizes", [k])
# ------------------------------------------------------------------ FreeSlots
class Words:
    """std::vector<uint64_t> as an array with a symbolic number of elements"""
    def __init__(s, ex, st):
        s.ex = ex; st.ghost["words"] = (ex.new_array(st, 8, V64("n_words"), "words"), V64("n_words")); st.assume(z3.ULE(V64("n_words"), 1 << 26))
        for f in ex.mod.fns.values():
            d = f.dname
            if not d.startswith("std::vector<unsigned long,"): continue
            m = d.split("::")[-1].split("(")[0]
            if m == "operator[]" or m == "at": ex.contracts[f.name] = s.at
            elif m == "size": ex.contracts[f.name] = lambda ex, st, a, i: st.ghost["words"][1]
            elif m == "resize": ex.contracts[f.name] = s.resize
            elif m == "back": ex.contracts[f.name] = lambda ex, st, a, i: s.at(ex, st, [a[0], st.ghost["words"][1] - 1], i)
            elif m == "push_back": ex.contracts[f.name] = lambda ex, st, a, i: s.resize(ex, st, [a[0], st.ghost["words"][1] + 1, a[1]], i)
            elif m == "empty": ex.contracts[f.name] = lambda ex, st, a, i: st.ghost["words"][1] == 0
            elif m == "data": ex.contracts[f.name] = lambda ex, st, a, i: st.ghost["words"][0]
    def at(s, ex, st, a, i):
        p, n = st.ghost["words"]; k = bv(a[1], 64); ex.oblige(st, "an existing word is accessed", z3.ULT(k, n)); return Ptr(p.obj, simp(k * 8))
    def resize(s, ex, st, a, i):
        p, n = st.ghost["words"]; m = bv(a[1], 64); v = bv(ex.load(st, a[2], _T("int", 64)), 64) if isinstance(a[2], Ptr) else bv(a[2], 64); o = st.mem[p.obj]; ex.oblige(st, "the list of words never shrinks", z3.UGE(m, n))
        q = ex.new_array(st, 8, m, "words", content=lambda x, o=o, n=n, v=v: z3.If(z3.ULT(x, n), ex.arr_read(o, x), v)); st.ghost["words"] = (q, m); return None
def word(ex, st, x): p, n = st.ghost["words"]; return ex.arr_read(st.mem[p.obj], x)
def free(ex, st, i):
    """slot i (32 bit) is free"""
    p, n = st.ghost["words"]; i = z3.ZeroExt(32, i); return z3.And(z3.ULT(z3.LShR(i, 6), n), z3.Extract(0, 0, z3.LShR(word(ex, st, z3.LShR(i, 6)), i & 63)) == 1)
def cursor_ok(ex, st, s, x, cur=None):
    """no word in front of the cursor has a free slot (instance for word x)"""
    n = st.ghost["words"][1]; c = z3.ZeroExt(32, bv(peek(ex, st, "w_cursor", [s]) if cur is None else cur, 32)); return z3.Implies(z3.And(z3.ULT(x, c), z3.ULT(x, n)), word(ex, st, x) == 0)
def setup(c):
    ex = c.exec(full_ms=60000, quick_ms=1000); st = State(); W = Words(ex, st); s = ex.new_cells(st, size_of(c, 0), "slots"); run1(ex, st, "w_set", [s, V32("cursor"), V64("count")])
    return ex, st, s
def push(canary=False):
    def t(c):
        ex, st, s = setup(c); i, k, x = V32("i"), V32("k"), V64("x"); st.assume(cursor_ok(ex, st, s, x)); st.assume(z3.Not(free(ex, st, i))); s0 = st.copy()
        for kind, s2, r in ex.call(st, fn(c, "FreeSlots::push"), [s, i]):
            ex.oblige(s2, "never raises an error", kind == 'ret'); ex.oblige(s2, "exactly the given slot becomes free", free(ex, s2, k) == (free(ex, s0, k) if canary else z3.Or(k == i, free(ex, s0, k))))
            ex.oblige(s2, "the number of free slots grows by one", bv(peek(ex, s2, "w_count", [s]), 64) == V64("count") + 1); ex.oblige(s2, "no word in front of the cursor has a free slot", cursor_ok(ex, s2, s, x)); c.cover(ex, s2, "push")
    return t
def pop(canary=False):
    def t(c):
        ex, st, s = setup(c); k, e = V32("k"), V32("e"); x = z3.LShR(z3.ZeroExt(32, k), 6); we = z3.LShR(z3.ZeroExt(32, e), 6)
        # the allocator is not empty: some slot e is free
        for y in (x, we): st.assume(cursor_ok(ex, st, s, y))
        st.assume(free(ex, st, e)); st.assume(V64("count") != 0); s0 = st.copy()
        # the cursor is advanced in place or in a local variable
        def loc(ph): return [k for k, (ty, v) in ph.items() if ty.k == 'int' and ty.w == 32]
        def inv(ex, st, ph, tag):
            cur = bv(ph[loc(ph)[0]][1] if len(loc(ph)) == 1 else peek(ex, st, "w_cursor", [s]), 32); ex.oblige(st, tag + "skipped words have no free slots", z3.And(cursor_ok(ex, st, s, x, cur), cursor_ok(ex, st, s, we, cur))); ex.oblige(st, tag + "the search ends before the end of the list", z3.ULE(z3.ZeroExt(32, cur), we))
        def gen(ex, st, ph):
            cur = fresh("cursor", 32); l = loc(ph)
            if len(l) != 1: run1(ex, st, "w_set", [s, cur, bv(peek(ex, st, "w_count", [s]), 64)])
            st.assume(z3.And(cursor_ok(ex, st, s, x, cur), cursor_ok(ex, st, s, we, cur), z3.ULE(z3.ZeroExt(32, cur), we))); return {k: (cur if [k] == l else v) for k, (_, v) in ph.items()}
        ex.loopspecs.append(("FreeSlots::pop", lambda f, h: LoopSpec(mode="inv", entry=lambda ex, st, ph: inv(ex, st, ph, "before the search: "), gen=gen, back=lambda ex, pre, st, ph: inv(ex, st, ph, "during the search: "))))
        for kind, s2, r in ex.call(st, fn(c, "FreeSlots::pop"), [s]):
            r = bv(r, 32); ex.oblige(s2, "never raises an error", kind == 'ret'); x0 = [z3.substitute(z3.Implies(free(ex, s0, k), z3.UGE(k, r)), (k, q)) for q in (k,)]
            ex.oblige(s2, "the returned slot was free", free(ex, s0, r)); ex.oblige(s2, "no lower slot was free", x0[0] if not canary else z3.Implies(free(ex, s0, k), z3.UGT(k, r)))
            ex.oblige(s2, "exactly the returned slot is no longer free", free(ex, s2, k) == z3.And(k != r, free(ex, s0, k)))
            ex.oblige(s2, "the number of free slots shrinks by one", bv(peek(ex, s2, "w_count", [s]), 64) == V64("count") - 1); ex.oblige(s2, "no word in front of the cursor has a free slot", cursor_ok(ex, s2, s, x)); c.cover(ex, s2, "pop")
    return t
def small(c):
    ex, st, s = setup(c)
    for kind, s2, r in ex.call(st.copy(), fn(c, "FreeSlots::empty"), [s]): ex.oblige(s2, "empty exactly if there are no free slots", z3.And(kind == 'ret', tobool(r) == (V64("count") == 0))); c.cover(ex, s2, "empty")
    for kind, s2, r in ex.call(st.copy(), fn(c, "FreeSlots::size"), [s]): ex.oblige(s2, "size is the number of free slots", z3.And(kind == 'ret', bv(r, 64) == V64("count"))); c.cover(ex, s2, "size")
# ------------------------------------------------------------------ registry
class Reg:
    """the registry in an arbitrary state that satisfies its invariant; records of ids are materialized on access"""
    def __init__(s, c, dup=None):
        s.c = c; s.ex = ex = c.exec(full_ms=30000, quick_ms=500); s.st = st = State(); C = ex.contracts; s.offs = {k: size_of(c, k) for k in range(11)}
        st.ghost.update(doms=[], log=[], ndom=V64("n_domains"), fwd={}, free={}, entries=[]); st.assume(z3.ULE(V64("n_domains"), 1 << 20))
        s.reg = ex.new_cells(st, s.offs[3], "registry")
        for g in ex.mod.globals:
            if g == "registry" or g.endswith("8registry") or "registry" in g and "str" not in g: C["@" + g] = lambda h, st2, id, ty: st2.mem[s.reg.obj]
        def entry(ex, st, m, key, p):
            if m[1] == s.offs[7]:       # reverse map: pointer -> (domain, id)
                d, i = V32("rev.domain"), V32("rev.index"); run1(ex, st, "w_rev_set", [p, d, i]); s.log(st, ("rev", p, key, d, i)); st.ghost["entries"] = st.ghost["entries"] + [(p, key, d, i)]; st.assume(s.rev_ok(st, d, i))
            else: d = V32("dom.id"); run1(ex, st, "w_dom_set", [p, d]); st.assume(z3.ULT(z3.ZeroExt(32, d), V64("n_domains"))); s.log(st, ("dom", p, key, d))
        s.M = AbsMap(ex, st, {8: [(0, 'i64')], 16: [(0, 'i64'), (8, 'i64')]}, entry); s.M.esize = lambda m, ks: s.offs[9] if ks == 8 else s.offs[10]
        C["spec_map_begin"] = s.begin; C["spec_map_next"] = lambda ex, st, a, i: NULL; C["spec_map_clear"] = s.clear_map; C["spec_map_size"] = lambda ex, st, a, i: V64("map_size")
        C["spec_map_hash"] = s.hash
        for f in ex.mod.fns.values():
            d = f.dname; b = d.split("(")[0]
            if b in ("jitc_log", "jitc_trace"): C[f.name] = lambda ex, st, a, i: None
            elif b == "jitc_raise": C[f.name] = lambda ex, st, a, i: RAISE
            elif b == "jitc_fail": C[f.name] = s.fail
            elif b == "hash_str": C[f.name] = lambda ex, st, a, i: z3.Function("hash_str", z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))(bv(a[0], 64) if not isinstance(a[0], Ptr) else z3.BitVecVal(0, 64), bv(a[1], 64))
            elif b == "jit_leak_warnings": C[f.name] = lambda ex, st, a, i: z3.BitVec("leak_warnings", 32)
            elif "std::vector<Domain," in d:
                m = b.split(">::")[-1].split("<")[0]
                if m in ("operator[]", "at"): C[f.name] = s.dom_at
                elif m == "size": C[f.name] = lambda ex, st, a, i: st.ghost["ndom"]
                elif m == "emplace_back": C[f.name] = s.dom_new
                elif m == "back": C[f.name] = s.dom_back
                elif m == "begin": C[f.name] = s.dom_begin
                elif m == "end": C[f.name] = lambda ex, st, a, i: Ptr(st.ghost["each"].obj, s.offs[1])
                elif m == "clear": C[f.name] = lambda ex, st, a, i: s.log(st, ("domains cleared",))
                elif m == "empty": C[f.name] = lambda ex, st, a, i: st.ghost["ndom"] == 0
            elif "std::vector<Ptr," in d and "_Vector_base" not in d:
                m = b.split(">::")[-1].split("<")[0]
                if m in ("operator[]", "at"): C[f.name] = s.ptr_at
                elif m == "size": C[f.name] = lambda ex, st, a, i: z3.ZeroExt(32, st.ghost["fwd"][a[0].obj]["n"])
                elif m in ("emplace_back", "push_back"): C[f.name] = lambda ex, st, a, i, m=m: s.ptr_new(ex, st, a, m)
                elif m == "clear": C[f.name] = s.ptr_clear
                elif m == "empty": C[f.name] = lambda ex, st, a, i: st.ghost["fwd"][a[0].obj]["n"] == 0
            elif d.startswith("FreeSlots::empty") or d.startswith("FreeSlots::size"): C[f.name] = s.fs_empty if "empty" in d else s.fs_size
            elif d.startswith("FreeSlots::pop"): C[f.name] = s.fs_pop
            elif d.startswith("FreeSlots::push"): C[f.name] = s.fs_push
            elif d.startswith("FreeSlots::FreeSlots"): C[f.name] = lambda ex, st, a, i: s.log(st, ("fresh slots", a[0].obj))
            elif d.startswith("FreeSlots::operator="): C[f.name] = s.fs_assign
            elif d.startswith("FreeSlots::~"): C[f.name] = lambda ex, st, a, i: None
            elif d.startswith("std::vector<unsigned long,"):
                m = b.split(">::")[-1]
                if m == "vector": C[f.name] = lambda ex, st, a, i: s.lc_new(ex, st, a)
                elif m in ("at", "operator[]"): C[f.name] = s.lc_at
                elif m.startswith("~"): C[f.name] = lambda ex, st, a, i: None
        s.k = V32("k")      # an arbitrary id (zero based)
    def log(s, st, x): st.ghost["log"] = st.ghost["log"] + [x]
    def evs(s, st, n): return [x for x in st.ghost["log"] if x[0] == n]
    def hash(s, ex, st, a, i): ex.oblige(st, "a precomputed hash equals the hash of the key", eq(a[0], a[1], 64))
    def fail(s, ex, st, a, i):
        f = [x for x in st.ghost["maplog"] if x[0] == "find"]; ex.oblige(st, "no corruption is diagnosed", z3.BoolVal(not st.ghost["entries"])); st.ghost["failed"] = True; return RAISE
    # ---- domains
    def mkdom(s, st, idx, new=False):
        ex = s.ex; d = ex.new_cells(st, s.offs[1], "domain"); nm = len(st.ghost["doms"]); bound = z3.BitVecVal(0, 32) if new else V32(f"dom{nm}.id_bound")
        n = z3.BitVecVal(0, 32) if new else V32(f"dom{nm}.size"); A = z3.Function(f"dom{nm}.active", z3.BitVecSort(32), z3.BoolSort()); P = z3.Function(f"dom{nm}.ptr", z3.BitVecSort(32), z3.BitVecSort(64))
        act = (lambda k: z3.BoolVal(False)) if new else (lambda k: A(k)); ptr = (lambda k: z3.BitVecVal(0, 64)) if new else (lambda k: P(k)); o = st.wobj(d.obj)
        if new:
            for k in range(0, s.offs[1], 8): o.cells[k] = (8, 0)
        else: run1(ex, st, "w_bound_set", [d, bound])
        st.ghost["doms"] = st.ghost["doms"] + [(idx, d)]; st.ghost["fwd"] = dict(st.ghost["fwd"]); st.ghost["fwd"][d.obj] = dict(n=n, recs=[], act=act, ptr=ptr, n0=n, bound=bound, new=new)
        st.ghost["free"] = dict(st.ghost["free"]); st.ghost["free"][d.obj] = (lambda k: z3.BoolVal(False)) if new else (lambda k: z3.And(z3.ULT(k, n), z3.Not(A(k))))
        if not new: st.assume(z3.And(z3.ULE(bound, n), z3.ULT(n, 0xfffffffe))); s.inst(st, d.obj, bound - 1, z3.UGT(bound, 0)); st.assume(z3.Or(bound == 0, act(bound - 1))); s.inst(st, d.obj, s.k); s.inst(st, d.obj, V32("rev.index"))
        return d
    def inst(s, st, do, k, cond=True):
        """instance of the invariant: active ids are below the bound; exactly inactive ids have no pointer"""
        f = st.ghost["fwd"][do]
        if f["new"]: return
        a, p = f["act"](k), f["ptr"](k); st.assume(z3.Implies(z3.And(cond, z3.ULT(k, f["n0"])), a == (p != 0))); st.assume(z3.Implies(a, z3.ULT(k, f["bound"])))
    def rev_ok(s, st, d, i): return z3.Or(z3.And(i == 0xffffffff, z3.Or(d == 0xffffffff, z3.ULT(z3.ZeroExt(32, d), V64("n_domains")))), z3.And(i != 0xffffffff, z3.ULT(z3.ZeroExt(32, d), V64("n_domains"))))
    def dom_at(s, ex, st, a, i):
        x = bv(a[1], 64); ex.oblige(st, "an existing domain is accessed", z3.ULT(x, st.ghost["ndom"]))
        for j, d in st.ghost["doms"]:
            if ex.pv.prove(st.pc, eq(j, x, 64), full=True)[0] == "proved": return d
        out = []
        for j, d in st.ghost["doms"]:
            if ex.pv.feasible(st.pc, eq(j, x, 64)): t = st.copy(); t.assume(eq(j, x, 64)); out.append((t, 'ret', d)); st.assume(z3.Not(eq(j, x, 64)))
        if not ex.pv.feasible(st.pc, z3.BoolVal(True)): return Multi(out)
        d = s.mkdom(st, x)
        # an entry of the reverse map that refers to this domain names an active id with that pointer
        f = st.ghost["fwd"][d.obj]
        for p, key, dd, ii in st.ghost["entries"]: st.assume(z3.Implies(z3.And(z3.ZeroExt(32, dd) == x, ii != 0xffffffff), z3.And(f["act"](ii), f["ptr"](ii) == key[0], z3.ULT(ii, f["n0"]))))
        out.append((st, 'ret', d)); return Multi(out) if len(out) > 1 else d
    def dom_new(s, ex, st, a, i): n = st.ghost["ndom"]; d = s.mkdom(st, n, True); st.ghost["ndom"] = n + 1; s.log(st, ("domain", n, d.obj)); return d
    def dom_back(s, ex, st, a, i): return s.dom_at(ex, st, [a[0], st.ghost["ndom"] - 1], i)
    def dom_begin(s, ex, st, a, i):
        # for-each rule: the body is executed for an arbitrary element, and may only change that element
        d = s.mkdom(st, V64("each")); st.ghost["each"] = d; t = st.copy(); t.assume(st.ghost["ndom"] == 0); t.ghost["nodoms"] = True; st.assume(z3.ULT(V64("each"), st.ghost["ndom"])); return Multi([(st, 'ret', d), (t, 'ret', Ptr(d.obj, s.offs[1]))])
    # ---- forward map
    def ptr_at(s, ex, st, a, i):
        do = a[0].obj; f = st.ghost["fwd"][do]; x = simp(z3.Extract(31, 0, bv(a[1], 64))); x = bv(x, 32); ex.oblige(st, "an existing id is accessed", z3.ULT(bv(a[1], 64), z3.ZeroExt(32, f["n"])))
        for j, p in f["recs"]:
            if ex.pv.prove(st.pc, j == x, full=True)[0] == "proved": return p
        out = []
        for j, p in f["recs"]:
            if ex.pv.feasible(st.pc, j == x): t = st.copy(); t.assume(j == x); out.append((t, 'ret', p)); st.assume(j != x)
        p = ex.new_cells(st, s.offs[2], "registry slot"); run1(ex, st, "w_ptr_set", [p, f["ptr"](x), z3.If(f["act"](x), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))]); s.inst(st, do, x)
        for o in (9, 10, 11, 12, 13, 14, 15): st.wobj(p.obj).cells.setdefault(o, (1, 0))
        st.ghost["fwd"] = dict(st.ghost["fwd"]); st.ghost["fwd"][do] = dict(f, recs=f["recs"] + [(x, p)]); out.append((st, 'ret', p)); return Multi(out) if len(out) > 1 else p
    def ptr_new(s, ex, st, a, m):
        do = a[0].obj; f = st.ghost["fwd"][do]; p = ex.new_cells(st, s.offs[2], "registry slot")
        if m == "push_back": ex.mem_copy(st, p, a[1], s.offs[2])
        else: run1(ex, st, "w_ptr_set", [p, ex.load(st, a[1], _T("int", 64)), z3.Extract(0, 0, bv(ex.load(st, a[2], _T("int", 8)), 8))])
        st.ghost["fwd"] = dict(st.ghost["fwd"]); st.ghost["fwd"][do] = dict(f, recs=f["recs"] + [(f["n"], p)], n=f["n"] + 1); return p
    def ptr_clear(s, ex, st, a, i): st.ghost["fwd"] = dict(st.ghost["fwd"]); st.ghost["fwd"][a[0].obj] = dict(st.ghost["fwd"][a[0].obj], recs=[], n=z3.BitVecVal(0, 32), act=lambda k: z3.BoolVal(False), ptr=lambda k: z3.BitVecVal(0, 64)); return None
    def now(s, st, do, k):
        """(active, pointer) of id k"""
        f = st.ghost["fwd"][do]; A, P = z3.And(z3.ULT(k, f["n0"]), f["act"](k)), f["ptr"](k)
        for j, p in f["recs"]: A = z3.If(j == k, bv(peek(s.ex, st, "w_ptr_active", [p]), 32) != 0, A); P = z3.If(j == k, s.pv(peek(s.ex, st, "w_ptr_ptr", [p])), P)
        return A, P
    def pv(s, p):
        if isinstance(p, Ptr):
            if p.obj is None: return bv(p.off, 64)
            return z3.BitVec("addr." + p.obj, 64)
        return bv(p, 64)
    def bound(s, st, do): return bv(peek(s.ex, st, "w_bound", [Ptr(do, 0)]), 32)
    # ---- free slots (contracts proved for the real functions in the same check)
    def fs_empty(s, ex, st, a, i):
        F = st.ghost["free"][a[0].obj]; n = st.ghost["fwd"][a[0].obj]["n"]; t = st.copy()
        # empty: no id is free (instances: the arbitrary id k); otherwise some id e is free
        st.assume(z3.Not(F(s.k))); e = fresh("e", 32); t.assume(F(e)); t.assume(z3.ULT(e, n)); st.ghost["isempty"] = True
        return Multi([(x, 'ret', z3.BoolVal(v)) for x, v in ((st, True), (t, False)) if ex.pv.feasible(x.pc, z3.BoolVal(True))])
    def fs_size(s, ex, st, a, i):
        r = s.fs_empty(ex, st, a, i); out = []
        for t, k, v in r.outs if hasattr(r, "outs") else r.xs:
            z = fresh("n_free", 64); t.assume((z == 0) == v); out.append((t, k, z))
        return Multi(out)
    def fs_pop(s, ex, st, a, i):
        do = a[0].obj; F = st.ghost["free"][do]; r = fresh("popped", 32); ex.oblige(st, "an id is taken from the list of free ids only if there is one", z3.BoolVal(not st.ghost.get("isempty")))
        st.assume(F(r)); st.assume(z3.Implies(z3.ULT(s.k, r), z3.Not(F(s.k)))); s.inst(st, do, r); st.ghost["free"] = dict(st.ghost["free"]); st.ghost["free"][do] = lambda k: z3.And(k != r, F(k)); s.log(st, ("pop", do, r)); return r
    def fs_push(s, ex, st, a, i):
        do = a[0].obj; F = st.ghost["free"][do]; x = bv(a[1], 32); ex.oblige(st, "an id is handed back only once", z3.Not(F(x))); st.ghost["free"] = dict(st.ghost["free"]); st.ghost["free"][do] = lambda k: z3.Or(k == x, F(k)); s.log(st, ("push", do, x)); return None
    def fs_assign(s, ex, st, a, i):
        ex.oblige(st, "the list of free ids is replaced by an empty one", z3.BoolVal(any(x[1] == a[1].obj for x in s.evs(st, "fresh slots")))); st.ghost["free"] = dict(st.ghost["free"]); st.ghost["free"][a[0].obj] = lambda k: z3.BoolVal(False); return a[0]
    # ---- reverse map iteration (for-each rule) and leak statistics
    def begin(s, ex, st, a, i):
        p = st.ghost.get("eachrev")
        if p is None:
            p = ex.new_cells(st, s.offs[9], "reverse entry"); st.ghost["eachrev"] = p; ex.store(st, p, V64("each.ptr"), _T("int", 64)); d, ix = V32("each.domain"), V32("each.index"); run1(ex, st, "w_rev_set", [p, d, ix]); st.assume(s.rev_ok(st, d, ix))
        t = st.copy(); t.assume(V64("map_size") == 0); st.assume(V64("map_size") != 0); s.log(st, ("iterate",))
        return Multi([(x, 'ret', q) for x, q in ((st, p), (t, NULL)) if ex.pv.feasible(x.pc, z3.BoolVal(True))])
    def clear_map(s, ex, st, a, i): s.log(st, ("map cleared", a[0].off)); return None
    def lc_new(s, ex, st, a): st.ghost["lc"] = (ex.new_array(st, 8, bv(a[1], 64), "leak counts"), bv(a[1], 64)); return None
    def lc_at(s, ex, st, a, i): p, n = st.ghost["lc"]; x = bv(a[1], 64); ex.oblige(st, "leaked instances are counted for existing domains", z3.ULT(x, n)); return Ptr(p.obj, simp(x * 8))
    # ---- common obligations
    def invariant(s, st, do, what=""):
        ex = s.ex; b = s.bound(st, do); n = st.ghost["fwd"][do]["n"]; A, P = s.now(st, do, s.k); F = st.ghost["free"][do](s.k); AB, _ = s.now(st, do, b - 1)
        ex.oblige(st, "every live id lies below the reported bound", z3.And(z3.Implies(A, z3.ULT(s.k, b)), z3.ULE(b, n)))
        ex.oblige(st, "the reported bound is the lowest such bound", z3.Or(b == 0, AB)); ex.oblige(st, "exactly the ids that are not in use are free", z3.Implies(z3.ULT(s.k, n), F == z3.Not(A)) if True else None)
        ex.oblige(st, "no id beyond the map is free", z3.Implies(z3.UGE(s.k, n), z3.Not(z3.And(F, z3.ULT(s.k, n))))); ex.oblige(st, "exactly the ids in use have a pointer", z3.Implies(z3.ULT(s.k, n), A == (P != 0)))
    def frame(s, st, s0, do, idx):
        """all ids but idx keep their state"""
        f0 = st.ghost["fwd"][do]; A, P = s.now(st, do, s.k); A0, P0 = z3.And(z3.ULT(s.k, f0["n0"]), f0["act"](s.k)), f0["ptr"](s.k)
        s.ex.oblige(st, "other ids keep their pointers", z3.Implies(s.k != idx if idx is not None else z3.BoolVal(True), z3.And(A == A0, z3.Implies(A, P == P0))))
def put(canary=False):
    def t(c):
        G = Reg(c); ex, st = G.ex, G.st; ptr, var, dom = V64("ptr"), V64("variant"), V64("domain"); st.assume(ptr != 0)
        for kind, s2, r in ex.call(st, fn(c, "jitc_registry_put"), [var, dom, ptr]):
            ml = s2.ghost["maplog"]; dup = bool(s2.ghost["entries"]); ex.oblige(s2, "raises an error exactly if the pointer is registered already", (kind != 'ret') == dup)
            ins = [x for x in ml if x[0] == "insert"]; rins, dins = [x for x in ins if x[1][1] == G.offs[7]], [x for x in ins if x[1][1] == G.offs[6]]
            ex.oblige(s2, "the pointer is looked up", any(x[0] == "find" and x[1][1] == G.offs[7] and ex.pv.prove(s2.pc, eq(x[2][0], ptr, 64), full=True)[0] == "proved" for x in ml)); ex.oblige(s2, "no entry is removed", not [x for x in ml if x[0] == "erase"])
            if dup: ex.oblige(s2, "a rejected registration changes nothing", not ins and not G.evs(s2, "domain") and not G.evs(s2, "pop") and not G.evs(s2, "push")); c.cover(ex, s2, "duplicate"); continue
            ex.oblige(s2, "the pointer is entered into the reverse map once", len(rins) == 1); ex.oblige(s2, "a domain is created exactly if the name is new", len(dins) == len(G.evs(s2, "domain")) <= 1)
            if kind != 'ret' or len(rins) != 1: continue
            rd, ri = bv(peek(ex, s2, "w_rev_domain", [rins[0][3]]), 32), bv(peek(ex, s2, "w_rev_index", [rins[0][3]]), 32); ex.oblige(s2, "under its own address", eq(rins[0][2][0], ptr, 64))
            for x in dins: ex.oblige(s2, "the new domain is entered under the requested name", z3.And(eq(x[2][0], var, 64), eq(x[2][1], dom, 64), bv(peek(ex, s2, "w_dom_get", [x[3]]), 32) == rd, z3.ZeroExt(32, rd) == V64("n_domains")))
            for x in G.evs(s2, "dom"): ex.oblige(s2, "the domain of the requested name is used", z3.And(eq(x[2][0], var, 64), eq(x[2][1], dom, 64), x[3] == rd))
            ds = [d for j, d in s2.ghost["doms"] if ex.pv.prove(s2.pc, bv(j, 64) == z3.ZeroExt(32, rd), full=True)[0] == "proved"]; ex.oblige(s2, "the recorded domain exists", len(ds) == 1); ex.oblige(s2, "no other domain is touched", len(s2.ghost["doms"]) == 1)
            if len(ds) != 1: continue
            do = ds[0].obj; A, P = G.now(s2, do, ri); f = s2.ghost["fwd"][do]; ex.oblige(s2, "the returned id is the recorded id (counted from one)", bv(r, 32) == ri + (0 if canary else 1))
            ex.oblige(s2, "looking the id up yields the pointer", z3.And(A, P == ptr)); ex.oblige(s2, "the id was not in use", z3.Not(z3.And(z3.ULT(ri, f["n0"]), f["act"](ri))) if not f["new"] else ri == 0)
            ex.oblige(s2, "the lowest free id is used", z3.Implies(z3.ULT(G.k, ri), z3.And(z3.ULT(G.k, f["n0"]), f["act"](G.k)))); ex.oblige(s2, "ids are small", z3.ULT(ri, 0xffffffff)); G.frame(s2, st, do, ri); G.invariant(s2, do); c.cover(ex, s2, "new domain" if dins else "reused id" if G.evs(s2, "pop") else "next id")
    return t
def remove(canary=False):
    def t(c):
        G = Reg(c); ex, st = G.ex, G.st; ptr = V64("ptr"); st.assume(ptr != 0); C = ex.contracts
        # the bound is lowered in place or in a local variable
        def cur(st, ph):
            v = [bv(v, 32) for ty, v in ph.values() if ty.k == 'int' and ty.w == 32]; return v[0] if len(v) == 1 else G.bound(st, st.ghost["doms"][-1][1].obj)
        def inv(ex, st, ph, tag):
            do = st.ghost["doms"][-1][1].obj; b = cur(st, ph); A, P = G.now(st, do, G.k); ex.oblige(st, tag + "every live id lies below the bound", z3.And(z3.Implies(A, z3.ULT(G.k, b)), z3.ULE(b, st.ghost["fwd"][do]["n"])))
        def gen(ex, st, ph):
            do = st.ghost["doms"][-1][1].obj; b = fresh("bound", 32); n = st.ghost["fwd"][do]["n"]; loc = [k for k, (ty, v) in ph.items() if ty.k == 'int' and ty.w == 32]
            if len(loc) != 1: run1(ex, st, "w_bound_set", [Ptr(do, 0), b])
            A, P = G.now(st, do, G.k); st.assume(z3.And(z3.Implies(A, z3.ULT(G.k, b)), z3.ULE(b, n))); G.inst(st, do, b - 1, z3.UGT(b, 0)); return {k: (b if [k] == loc else v) for k, (_, v) in ph.items()}
        ex.loopspecs.append(("jitc_registry_remove", lambda f, h: LoopSpec(mode="inv", entry=lambda ex, st, ph: inv(ex, st, ph, "before shrinking: "), gen=gen, back=lambda ex, pre, st, ph: inv(ex, st, ph, "while shrinking: "))))
        for kind, s2, r in ex.call(st, fn(c, "jitc_registry_remove"), [ptr]):
            ml = s2.ghost["maplog"]; er = [x for x in ml if x[0] == "erase"]; ent = s2.ghost["entries"]
            if not ent: ex.oblige(s2, "an unknown pointer is rejected and nothing changes", s2.ghost.get("failed", False) and not er and not s2.ghost["doms"]); c.cover(ex, s2, "unknown"); continue
            ex.oblige(s2, "a registered pointer is accepted", kind == 'ret'); ex.oblige(s2, "exactly its own entry leaves the reverse map", len(er) == 1 and len([x for x in ml if x[0] == "insert"]) == 0 and z3.And(*[eq(x[2][0], ptr, 64) for x in er]))
            _, key, d, i = ent[0]
            if not s2.ghost["doms"]: ex.oblige(s2, "nothing else happens only if the registry was cleared in the meantime", i == 0xffffffff); c.cover(ex, s2, "cleared"); continue
            ex.oblige(s2, "ids are not handed back for entries cleared in the meantime", i != 0xffffffff); ex.oblige(s2, "only the domain of the pointer is touched", len(s2.ghost["doms"]) == 1 and z3.ZeroExt(32, d) == bv(s2.ghost["doms"][0][0], 64))
            do = s2.ghost["doms"][0][1].obj; ps = G.evs(s2, "push"); A, P = G.now(s2, do, i); ex.oblige(s2, "the id of the pointer is handed back, exactly once", len(ps) == 1 and not G.evs(s2, "pop") and z3.And(*[x[2] == (i if not canary else i + 1) for x in ps]))
            ex.oblige(s2, "the id is no longer in use", z3.And(z3.Not(A), P == 0)); G.frame(s2, st, do, i); G.invariant(s2, do); c.cover(ex, s2, "removed")
    return t
def lookup(c):
    def do(s2): return s2.ghost["doms"][0][1].obj
    def dommatch(G, s2, var, dom):
        fs = [x for x in s2.ghost["maplog"] if x[0] == "find"]; G.ex.oblige(s2, "the requested domain is looked up", len(fs) >= 1 and z3.And(*[z3.And(eq(x[2][0], var, 64), eq(x[2][1], dom, 64)) for x in fs]))
        for x in G.evs(s2, "dom"):
            for j, d in s2.ghost["doms"]: G.ex.oblige(s2, "only the requested domain is consulted", z3.ZeroExt(32, x[3]) == bv(j, 64))
    def pure(G, s2, n=()):
        G.ex.oblige(s2, "a query changes nothing", z3.BoolVal(not [x for x in s2.ghost["maplog"] if x[0] != "find"] and not G.evs(s2, "push") and not G.evs(s2, "pop") and not G.evs(s2, "domain")))
        for j, d in s2.ghost["doms"]: G.ex.oblige(s2, "a query does not change the bound", G.bound(s2, d.obj) == s2.ghost["fwd"][d.obj]["bound"]); G.frame(s2, None, d.obj, None)
    var, dom = V64("variant"), V64("domain")
    # pointer -> id
    G = Reg(c); ex, st = G.ex, G.st; ptr = V64("ptr")
    for kind, s2, r in ex.call(st, fn(c, "jitc_registry_id"), [ptr]):
        pure(G, s2); ent = s2.ghost["entries"]
        if kind != 'ret': ex.oblige(s2, "only unknown pointers are rejected", z3.And(ptr != 0, z3.BoolVal(not ent))); c.cover(ex, s2, "id: unknown"); continue
        if not ent: ex.oblige(s2, "the null pointer has id zero", z3.And(ptr == 0, bv(r, 32) == 0)); c.cover(ex, s2, "id: null"); continue
        _, key, d, i = ent[0]; ex.oblige(s2, "the id of the pointer is returned, zero if it was cleared", z3.And(eq(key[0], ptr, 64), z3.If(ptr == 0, bv(r, 32) == 0, bv(r, 32) == z3.If(i == 0xffffffff, z3.BitVecVal(0, 32), i + 1)))); c.cover(ex, s2, "id")
    # id -> pointer
    G = Reg(c); ex, st = G.ex, G.st; id = V32("id"); st.assume(z3.Implies(id != 0, G.k == id - 1))
    for kind, s2, r in ex.call(st, fn(c, "jitc_registry_ptr"), [var, dom, id]):
        pure(G, s2)
        if s2.ghost["doms"]:
            dommatch(G, s2, var, dom); f = s2.ghost["fwd"][do(s2)]
            if kind != 'ret': ex.oblige(s2, "only ids that were never handed out are rejected", z3.UGE(id - 1, f["n"])); c.cover(ex, s2, "ptr: bad id"); continue
            ex.oblige(s2, "exactly the pointer registered under the id is returned", G.pv(r) == z3.If(f["act"](id - 1), f["ptr"](id - 1), z3.BitVecVal(0, 64))); ex.oblige(s2, "the id exists", z3.And(id != 0, z3.ULT(id - 1, f["n"]))); c.cover(ex, s2, "ptr")
        else:
            ex.oblige(s2, "the null pointer is returned without a domain", z3.And(kind == 'ret', G.pv(r) == 0)); ex.oblige(s2, "id zero or unknown domain", z3.Or(id == 0, z3.BoolVal(bool([x for x in s2.ghost["maplog"] if x[0] == "find"])))); c.cover(ex, s2, "ptr: null")
            if [x for x in s2.ghost["maplog"] if x[0] == "find"]: dommatch(G, s2, var, dom)
    # bound
    G = Reg(c); ex, st = G.ex, G.st
    for kind, s2, r in ex.call(st, fn(c, "jitc_registry_id_bound"), [var, dom]):
        dommatch(G, s2, var, dom); pure(G, s2); ex.oblige(s2, "never raises an error", kind == 'ret')
        ex.oblige(s2, "the bound of the domain is returned, zero if there is none", bv(r, 32) == (s2.ghost["fwd"][do(s2)]["bound"] if s2.ghost["doms"] else 0)); c.cover(ex, s2, "bound")
    # some pointer
    G = Reg(c); ex, st = G.ex, G.st
    for kind, s2, r in ex.call(st, fn(c, "jitc_registry_peek"), [var, dom]):
        dommatch(G, s2, var, dom); pure(G, s2); ex.oblige(s2, "never raises an error", kind == 'ret'); f = s2.ghost["fwd"][do(s2)] if s2.ghost["doms"] else None
        ex.oblige(s2, "a registered pointer is returned, null only if there is none", G.pv(r) == 0 if f is None else z3.And((G.pv(r) == 0) == (f["bound"] == 0), z3.Implies(f["bound"] != 0, z3.And(f["act"](f["bound"] - 1), G.pv(r) == f["ptr"](f["bound"] - 1))))); c.cover(ex, s2, "peek")
def get_pointers(c):
    G = Reg(c); ex, st = G.ex, G.st; var, dom = V64("variant"), V64("domain"); K = G.k; ini = z3.Function("dest0", z3.BitVecSort(64), z3.BitVecSort(64))
    dest = ex.new_array(st, 8, V64("n_dest"), "dest", content=lambda x: ini(x)); H = {}
    def want(st, i, x):
        f = st.ghost["fwd"][st.ghost["doms"][0][1].obj]; y = z3.Extract(31, 0, x); return z3.If(z3.And(z3.ULT(x, z3.ZeroExt(32, i)), f["act"](y)), f["ptr"](y), ini(x))
    def idx(ph):
        v = [bv(v, ty.w) for ty, v in ph.values() if ty.k == 'int']
        if len(v) != 1: raise Unsupported("loop of jitc_registry_get_pointers: no index")
        return v[0] if v[0].size() == 32 else z3.Extract(31, 0, v[0])
    def entry(ex, st, ph):
        f = st.ghost["fwd"][st.ghost["doms"][0][1].obj]; st.assume(V64("n_dest") == z3.ZeroExt(32, f["bound"])); ex.oblige(st, "the loop starts with the first id", idx(ph) == 0)
    def gen(ex, st, ph):
        f = st.ghost["fwd"][st.ghost["doms"][0][1].obj]; i = fresh("i", 32); st.assume(z3.ULE(i, f["n"])); o = st.mem[dest.obj]; n = o.copy() if hasattr(o, "copy") else o; w = st.wobj(dest.obj); w.layers = (); s0 = st.copy(); w.base = lambda x: want(s0, i, x)
        G.inst(st, s0.ghost["doms"][0][1].obj, i); return {k: (i if ty.w == 32 else z3.ZeroExt(32, i)) if ty.k == 'int' else v for k, (ty, v) in ph.items()}
    def back(ex, pre, st, ph):
        i = idx(ph); x = z3.ZeroExt(32, K); f = st.ghost["fwd"][st.ghost["doms"][0][1].obj]; ex.oblige(st, "after each step, exactly the pointers of the ids seen so far are stored", ex.arr_read(st.mem[dest.obj], x) == want(st, i, x)); ex.oblige(st, "the index stays in range", z3.ULE(i, f["n"]))
    ex.loopspecs.append(("jitc_registry_get_pointers", lambda f, h: LoopSpec(mode="inv", entry=entry, gen=gen, back=back)))
    for kind, s2, r in ex.call(st, fn(c, "jitc_registry_get_pointers"), [var, dom, dest]):
        ex.oblige(s2, "never raises an error", kind == 'ret'); x = z3.ZeroExt(32, K); got = ex.arr_read(s2.mem[dest.obj], x)
        if s2.ghost["doms"]:
            f = s2.ghost["fwd"][s2.ghost["doms"][0][1].obj]; ex.oblige(s2, "the entry of every id in use is its pointer, others are left alone", got == z3.If(z3.And(z3.ULT(K, f["n"]), f["act"](K)), f["ptr"](K), ini(x)))
        else: ex.oblige(s2, "nothing is stored for an unknown domain", got == ini(x))
        c.cover(ex, s2, "get_pointers")
def clear(c):
    G = Reg(c); ex, st = G.ex, G.st
    for kind, s2, r in ex.call(st, fn(c, "jitc_registry_clear"), []):
        ex.oblige(s2, "never raises an error", kind == 'ret'); p = s2.ghost.get("eachrev"); ex.oblige(s2, "all entries of the reverse map are visited", p is not None)
        if p is not None: ex.oblige(s2, "afterwards no pointer has an id", z3.Or(V64("map_size") == 0, bv(peek(ex, s2, "w_rev_index", [p]), 32) == 0xffffffff)); ex.oblige(s2, "cleared entries still name an existing domain", z3.Implies(V64("map_size") != 0, bv(peek(ex, s2, "w_rev_domain", [p]), 32) == V32("each.domain")))
        ex.oblige(s2, "no entry is removed", not [x for x in s2.ghost["maplog"] if x[0] != "find"]); ex.oblige(s2, "all domains are visited", "each" in s2.ghost)
        if "each" in s2.ghost and not s2.ghost.get("nodoms"): do = s2.ghost["each"].obj; f = s2.ghost["fwd"][do]; ex.oblige(s2, "afterwards no id of any domain is in use or was handed out", z3.And(f["n"] == 0, G.bound(s2, do) == 0, z3.Not(s2.ghost["free"][do](G.k))))
        c.cover(ex, s2, "clear")
def shutdown(c):
    G = Reg(c); ex, st = G.ex, G.st
    def idx(ph): return [(k, ty, v) for k, (ty, v) in ph.items() if ty.k == 'int']
    def gen(ex, st, ph):
        r = {}
        for k, (ty, v) in ph.items(): r[k] = fresh("i", ty.w) if ty.k == 'int' else v
        return r
    ex.loopspecs.append(("jitc_registry_shutdown", lambda f, h: LoopSpec(mode="inv", entry=lambda ex, st, ph: None, gen=gen, back=lambda ex, pre, st, ph: None) if h.phis else None))
    for kind, s2, r in ex.call(st, fn(c, "jitc_registry_shutdown"), []):
        ex.oblige(s2, "never raises an error", kind == 'ret'); cl = [x[1] for x in G.evs(s2, "map cleared")]; p = s2.ghost.get("eachrev")
        ex.oblige(s2, "all domains are removed together with their names", len(G.evs(s2, "domains cleared")) == 1 and G.offs[6] in cl)
        if G.offs[7] not in cl: ex.oblige(s2, "no pointer keeps an id of a domain that was removed", z3.Or(V64("map_size") == 0, z3.And(bv(peek(ex, s2, "w_rev_index", [p]), 32) == 0xffffffff, bv(peek(ex, s2, "w_rev_domain", [p]), 32) == 0xffffffff)) if p is not None else z3.BoolVal(False))
        c.cover(ex, s2, "shutdown")
def names(c):
    """domains are identified by the contents of both strings"""
    ex = c.exec(full_ms=10000, quick_ms=300); st = State(); p = [ex.new_cells(st, 16, n) for n in "ab"]; v = [[V64(f"{n}{i}") for i in (0, 1)] for n in "ab"]; SC = z3.Function("strcmp", z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(32))
    for q, x in zip(p, v):
        for o in (0, 1): ex.store(st, Ptr(q.obj, 8 * o), x[o], _T("int", 64))
    ex.contracts["strcmp"] = lambda ex, st, a, i: SC(*[bv(x, 64) if not isinstance(x, Ptr) else z3.BitVecVal(0, 64) for x in a[:2]])
    for kind, s2, r in ex.call(st, "w_key_eq", p): ex.oblige(s2, "domains are equal exactly if both the variant and the name are", z3.And(kind == 'ret', tobool(r) == z3.And(SC(v[0][0], v[1][0]) == 0, SC(v[0][1], v[1][1]) == 0))); c.cover(ex, s2, "names")
