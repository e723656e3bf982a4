"""verification tasks for the variable-creating functions of src/var.cpp (literal, nodes, resize)"""
from core import *
from vars import *
from redspec import type_table
def V32(n): return z3.BitVec(n, 32)
def fn_of(c, d):
    return [f.name for f in c.mod.fns.values() if f.dname.split("(")[0] == d][0]
ALLF = "ref_count scope size counter scratch kind backend type write_ptr written retain_data symbolic unaligned optix side_effect coop_vec param_type consumed array_state param_offset reg_index ref_count_se array_length extra".split()
class VarFns:
    def __init__(s, c, ex, st):
        s.c, s.ex = c, ex; V_ = s.V = Vars(ex, st); C = ex.contracts
        by = lambda d: [f.name for f in ex.mod.fns.values() if f.dname.split("(")[0] == d]
        for d in ("jitc_raise_dirty_error", "jitc_raise_consumed_error", "jitc_fail"):
            for n in by(d): C[n] = lambda ex, st, a, i: RAISE
        for n in by("jitc_check_size"): C[n] = s.c_check
        for n in by("thread_state"): C[n] = lambda ex, st, a, i: s.ts(st)
        for n in by("jitc_eval"): C[n] = s.c_eval
        for n in by("jitc_var_new"): C[n] = s.c_new
        for n in by("jitc_lvn_drop"): C[n] = lambda ex, st, a, i: s.log(st, ("drop", a[0], s.fld_p(st, a[1], "size")))
        for n in by("jitc_lvn_put"): C[n] = lambda ex, st, a, i: s.log(st, ("put", a[0], s.fld_p(st, a[1], "size")))
        for n in by("jitc_var_inc_ref"): C[n] = s.c_inc
        type_table(ex, st); st.ghost["log"] = []
    def ts(s, st): return s.ex.new_cells(st, 8, "thread state")
    def log(s, st, x): st.ghost["log"] = st.ghost["log"] + [x]
    def c_check(s, ex, st, a, i):
        big = z3.UGE(bv(a[1], 64), 1 << 32); t = st.copy(); t.assume(big); st.assume(z3.Not(big))
        s.log(t, ("too large",)); return Multi([(st, 'ret', None), (t, 'unwind', None)])
    def c_inc(s, ex, st, a, i):
        s.V.ref(st, a[0], 1)
        if len(a) > 1:
            q = s.V.ptr(st, a[0]) if s.V.key(a[0]) in st.ghost["vars"] else None
            ex.oblige(st, "reference counts are changed through the current record", q is not None and a[1].obj == q.obj)
    def c_eval(s, ex, st, a, i):
        s.V.move(st); s.log(st, ("eval",))
        for k, (j, p) in st.ghost["vars"].items(): s.set_p(st, p, "ref_count_se", fresh("dirty", 32) & 0xffff)
    def fld_p(s, st, p, n, *x): r = s.ex.call(st.copy(), "w_field_" + n, [p, *x]); assert len(r) == 1; return bv(r[0][2], 64 if n == "literal" else 32)
    def fld(s, st, i, n, *x): return s.fld_p(st, s.V.ptr(st, i), n, *x)
    def set_p(s, st, p, n, v): r = s.ex.call(st, "w_set_" + n, [p, v]); assert len(r) == 1; st.mem = r[0][1].mem; st.pc = r[0][1].pc
    def set(s, st, i, n, v): s.set_p(st, s.V.ptr(st, i), n, v)
    def c_new(s, ex, st, a, i):
        """jitc_var_new: takes the record (captured), takes over its references to operands, returns an index with one reference"""
        rec = {n: s.fld_p(st, a[0], n) for n in ALLF}; rec["literal"] = s.fld_p(st, a[0], "literal"); rec["dep"] = [s.fld_p(st, a[0], "dep", k) for k in range(4)]; rec["disable_lvn"] = a[1]
        i = s.V.create(st, "new", kind=rec["kind"], type=rec["type"], backend=rec["backend"], size=rec["size"], literal=rec["literal"])
        s.log(st, ("new", i, rec)); return i
    def var(s, st, name, **f):
        i = s.V.mk(st, name, **f)
        se = V32(name + ".dirty"); st.assume(z3.ULE(se, 0xffff)); s.set(st, i, "ref_count_se", se); return i
    def expect(s, st, rec, want, what):
        """the record passed to jitc_var_new: given fields as stated, everything else zero"""
        for n in ALLF:
            w = want.get(n, 0); s.ex.oblige(st, f"{what}: field {n}", eq(rec[n], w, 32))
        s.ex.oblige(st, f"{what}: literal", eq(rec["literal"], want.get("literal", 0), 64))
        d = want.get("dep", []) + [0] * (4 - len(want.get("dep", [])))
        s.ex.oblige(st, f"{what}: operands in order", z3.And(*[eq(x, y, 32) for x, y in zip(rec["dep"], d)]))
def node(n, alias=False):
    def t(c):
        ex = c.exec(full_ms=30000, quick_ms=500); st = State(); F = VarFns(c, ex, st); V_ = F.V
        be, kind, vt, size, pay = V32("backend"), V32("kind"), V32("type"), V32("size"), z3.BitVec("payload", 64); sym = z3.Bool("symbolic")
        st.assume(z3.And(z3.ULT(be, 4), z3.ULT(kind, 128), z3.ULT(vt, 32)))
        ids = []
        for k in range(n): ids.append(ids[0] if alias and k else F.var(st, f"a{k}", kind=V32(f"a{k}.kind") & 0x7f, type=4, backend=be, size=V32(f"a{k}.size"), literal=z3.BitVec(f"a{k}.literal", 64)))
        dirty0 = z3.Or(False, *[V32(f"a{k}.dirty") != 0 for k in range(1 if alias else n)])
        args = [be, kind, vt, size, sym]
        for i in ids: args += [i, V_.ptr(st, i)]
        for knd, s2, r in ex.call(st, fn_of(c, f"jitc_var_new_node_{n}"), args + [pay]):
            lg = s2.ghost["log"]; ev = [x for x in lg if x[0] == "eval"]; nw = [x for x in lg if x[0] == "new"]
            dirty1 = z3.Or(False, *[F.fld(s2, i, "ref_count_se") != 0 for i in ids])
            ex.oblige(s2, "pending side effects of the operands are evaluated first (and only then)", z3.And(dirty0 == bool(ev), z3.BoolVal(len(ev) <= 1)))
            if knd != 'ret':
                ex.oblige(s2, "an error is raised only if an operand still has pending side effects", z3.And(dirty1, z3.BoolVal(not nw))); ex.oblige(s2, "references are balanced when an error is raised", V_.balanced(s2)); c.cover(ex, s2, "error"); continue
            ex.oblige(s2, "one node is created", len(nw) == 1 and lg[-1][0] == "new")
            if len(nw) != 1: continue
            ex.oblige(s2, "the operands have no pending side effects", z3.Not(dirty1))
            ex.oblige(s2, "the new node is returned", eq(r, nw[0][1], 32))
            F.expect(s2, nw[0][2], dict(kind=kind, type=vt, backend=be, size=size, symbolic=z3.If(sym, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)), literal=pay, dep=ids), "record")
            for i in dict((V_.key(i), i) for i in ids).values(): ex.oblige(s2, "the node holds one reference per use of an operand", V_.delta(s2, i) == len([j for j in ids if V_.key(j) == V_.key(i)]))
            c.cover(ex, s2, "created")
    return t
def resize(c):
    for vt in (1, 3, 8, 10, 11, 13, 15): resize1(c, vt)
def resize1(c, vt):
    ex = c.exec(full_ms=30000, quick_ms=500); st = State(); F = VarFns(c, ex, st); V_ = F.V
    KL, KE, KB = [ex.call(State(), "w_kind_" + k, [])[0][2] for k in ("Literal", "Evaluated", "Bitcast")]
    be, kind, sz, pay = V32("backend"), V32("kind"), V32("size0"), z3.BitVec("payload", 64); new = z3.BitVec("size", 64)
    st.assume(z3.And(z3.ULT(be, 4), z3.ULT(kind, 128), sz != 0, V32("cv") == V32("cv") & 1))
    i = F.var(st, "a", kind=kind, type=vt, backend=be, size=sz, literal=pay, symbolic=V32("sym") & 1)
    ref = V32("ref_count"); st.assume(ref != 0)
    for n, v in (("ref_count", ref), ("consumed", V32("consumed") & 1), ("coop_vec", V32("cv")), ("array_length", V32("alen") & 0xffff)): F.set(st, i, n, v)
    def lit(ex, st, a, ins):
        """jitc_var_literal"""
        x = ex.load(st, a[2], __import__("run")._T("int", 64)); j = V_.create(st, "literal", kind=KL, type=bv(a[1], 32), backend=bv(a[0], 32), size=z3.Extract(31, 0, bv(a[3], 64)), literal=x)
        ex.oblige(st, "literals are not evaluated right away", eq(a[4], 0, 32)); ex.oblige(st, "literal size", z3.ULE(bv(a[3], 64), 0xffffffff)); F.log(st, ("lit", j)); return j
    ex.contracts[fn_of(c, "jitc_var_literal")] = lit
    isl = kind == KL
    for knd, s2, r in ex.call(st, fn_of(c, "jitc_var_resize"), [i, new]):
        lg = s2.ghost["log"]; nm = [x[0] for x in lg]; sz2 = F.fld(s2, i, "size")
        bad = z3.Or(z3.UGE(new, 1 << 32), V32("consumed") & 1 == 1, z3.And(z3.Extract(31, 0, new) != sz, sz != 1, z3.Not(isl)))
        if knd != 'ret':
            ex.oblige(s2, "an error is raised only for consumed variables, sizes that are too large, arrays and pending side effects", z3.Or(bad, z3.BoolVal("eval" in nm), "too large" in nm) if "too large" not in nm else z3.UGE(new, 1 << 32)); ex.oblige(s2, "references are balanced when an error is raised", V_.balanced(s2)); c.cover(ex, s2, "error"); continue
        n32 = z3.Extract(31, 0, new); k = V_.key(r)
        ex.oblige(s2, "resizing an array, a consumed variable or to an impossible size raises an error", z3.Not(bad))
        ex.oblige(s2, "a live variable is returned", k in s2.ghost["vars"])
        if k not in s2.ghost["vars"]: continue
        ex.oblige(s2, "the result has the requested size", F.fld(s2, r, "size") == n32); ex.oblige(s2, "the result has the same type and backend", z3.And(F.fld(s2, r, "type") == vt, F.fld(s2, r, "backend") == be))
        same = k == V_.key(i); made = [x for x in lg if x[0] in ("new", "lit")]
        ex.oblige(s2, "the result carries one reference", V_.delta(s2, r) == 1)
        if same:
            ch = sz2 != sz
            ex.oblige(s2, "a variable is only resized in place if it is not evaluated and nobody else refers to it", z3.Implies(ch, z3.And(kind != KE, ref == 1)))
            ex.oblige(s2, "nothing else about the variable changes", z3.And(F.fld(s2, i, "kind") == kind, F.fld(s2, i, "literal") == pay, z3.BoolVal(not made)))
            dp = [x for x in lg if x[0] in ("drop", "put")]
            ex.oblige(s2, "the value numbering entry follows the change of size", z3.Or(z3.Not(ch), z3.And(dp[0][2] == sz, dp[1][2] == n32, eq(dp[0][1], i, 32), eq(dp[1][1], i, 32)) if [x[0] for x in dp] == ["drop", "put"] else z3.BoolVal(False))); c.cover(ex, s2, "in place" if dp else "unchanged")
        else:
            ex.oblige(s2, "the original keeps its size", sz2 == sz); ex.oblige(s2, "one variable is created", len(made) == 1)
            if made and made[0][0] == "lit":
                ex.oblige(s2, "a literal of the same value", z3.And(isl, F.fld(s2, r, "literal") == pay)); ex.oblige(s2, "the original keeps its references", V_.delta(s2, i) == 0); c.cover(ex, s2, "literal")
            elif made:
                rec = made[0][2]; ex.oblige(s2, "scalars are copied by a node that refers to the original", z3.And(z3.Not(isl), V_.delta(s2, i) == 1) if True else 0)
                F.expect(s2, rec, dict(kind=KB, type=vt, backend=be, size=n32, symbolic=V32("sym") & 1, dep=[i], coop_vec=V32("cv"), array_length=z3.If(V32("cv") == 1, V32("alen") & 0xffff, 0)), "copy"); ex.oblige(s2, "the copy has no pending side effects", F.fld(s2, i, "ref_count_se") == 0); c.cover(ex, s2, "copy")
def resize_empty(c):
    ex = c.exec(); st = State(); F = VarFns(c, ex, st)
    for knd, s2, r in ex.call(st, fn_of(c, "jitc_var_resize"), [0, 0]): ex.oblige(s2, "resizing an empty variable to zero elements is empty", knd == 'ret' and eq(r, 0, 32)); c.cover(ex, s2, "empty")
def literal(c):
    ex = c.exec(full_ms=30000, quick_ms=500); st = State(); F = VarFns(c, ex, st); V_ = F.V
    import struct
    KL = ex.call(State(), "w_kind_Literal", [])[0][2]; be = V32("backend"); st.assume(z3.ULT(be, 4)); size = z3.BitVec("size", 64); w = {1: 8, 3: 8, 4: 8, 5: 16, 6: 16, 7: 32, 8: 32, 9: 64, 10: 64, 11: 64, 13: 16, 14: 32, 15: 64}
    for vt, bits in w.items():
        t = st.copy(); x = z3.BitVec("value", bits); p = ex.new_cells(t, bits // 8, "value"); ex.store(t, p, x, __import__("run")._T("int", bits))
        for knd, s2, r in ex.call(t, fn_of(c, "jitc_var_literal"), [be, vt, p, size, 0]):
            nw = [y for y in s2.ghost["log"] if y[0] == "new"]
            if knd != 'ret': ex.oblige(s2, "an error is raised only for sizes that are too large", z3.UGE(size, 1 << 32)); continue
            if not nw: ex.oblige(s2, "literals without elements are empty", z3.And(size == 0, eq(r, 0, 32))); continue
            ex.oblige(s2, "one literal is created and returned", z3.And(size != 0, z3.ULT(size, 1 << 32), eq(r, nw[0][1], 32), z3.BoolVal(len(nw) == 1)))
            F.expect(s2, nw[0][2], dict(kind=KL, type=vt, backend=be, size=z3.Extract(31, 0, size), literal=z3.ZeroExt(64 - bits, x) if bits < 64 else x), "literal"); c.cover(ex, s2, f"literal {vt}")
def add_node_tasks(s):
    for n in (1, 2, 3, 4):
        s.task(f"jitc_var_new_node_{n}", node(n), "v")
        if n > 1: s.task(f"jitc_var_new_node_{n}, same operand", node(n, True), "v")
    s.task("jitc_var_resize", resize, "v"); s.task("jitc_var_resize, empty", resize_empty, "v")
