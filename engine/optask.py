"""verification tasks for the traced operations of src/op.cpp (shared by C01 and C02)"""
from ops import *
def V32(n): return z3.BitVec(n, 32)
def fmax(xs):
    r = xs[0]
    for x in xs[1:]: r = z3.If(z3.ULT(r, x), x, r)
    return r
def trace(op, ts, rt, fn, literal, alias=None, extra=(), canary=False, prep=None, qms=300, fms=60000):
    """one operation on operands of types ts. literal: all operands are literals and constants are folded (C02); otherwise every other case (C01)"""
    def t(c):
        ex = c.exec(full_ms=fms, quick_ms=qms, float_mode="ieee"); st = State(); O = Ops(c, ex, st); V_ = O.V
        be = V32("backend"); st.assume(z3.And(z3.UGE(be, 1), z3.ULE(be, 2)))
        ids, kinds, ds, sizes = [], [], [], []
        cons = []
        for k, ty in enumerate(ts):
            if alias and alias[k] < k: j = alias[k]; ids.append(ids[j]); kinds.append(kinds[j]); ds.append(ds[j]); sizes.append(sizes[j]); continue
            sz = V32(f"a{k}.size"); st.assume(sz != 0)
            i, kd, d = O.opaque(st, f"a{k}", ty, be, sz)
            cn = V32(f"a{k}.consumed"); st.assume(z3.ULE(cn, 1)); r = ex.call(st, "w_set_consumed", [V_.ptr(st, i), cn]); st = r[0][1]
            ids.append(i); kinds.append(kd); ds.append(d); sizes.append(sz); cons.append(cn == 1)
        LIT = O.knum["Literal"]; lits = [k == LIT for k in kinds]
        all_lit = z3.And(O.cp, *lits)
        st.assume(all_lit if literal else z3.Not(all_lit))
        st.assume(defined(op, rt, ts, ds))
        if prep: prep(c, ex, st, O, ids, kinds, ds, sizes, be)
        if op == "Fma" and K(rt) == "f":
            for x in fma_facts(*[val(d, y) for d, y in zip(ds, ts)]): st.assume(x)
        size = fmax(sizes); compat = z3.And(z3.Not(z3.Or(*cons)), *[z3.Or(x == 1, x == size) for x in sizes])
        goal = rel(op, rt, ts, ds, O.fm, [z3.And(O.cp, x) for x in lits], strict=literal) if op not in ("Bitcast", "Cast") else (lambda v: matches(v, exact(op, rt, ts, ds), rt))
        n0 = len(st.pc)
        for kind, s2, r in ex.call(st, fn, ids + list(extra)):
            if kind != 'ret':
                ex.oblige(s2, "operands with incompatible sizes or consumed operands are the only reason for an error", z3.Not(compat)); c.cover(ex, s2, "error for incompatible operands")
                ex.oblige(s2, "references are balanced when an error is raised", V_.balanced(s2)); continue
            ex.oblige(s2, "incompatible sizes and consumed operands raise an error", compat)
            key = V_.key(r)
            if key not in s2.ghost["vars"]: ex.oblige(s2, "the operation returns a live variable", False); continue
            O.live(s2, r, "result")
            ex.oblige(s2, "references are balanced and the result carries one", V_.balanced(s2, r))
            ex.oblige(s2, "result type", z3.BoolVal(O.ty(s2, r) == rt)); ex.oblige(s2, "result size is the broadcast size", O.fld(s2, r, "size") == size)
            ex.oblige(s2, "result backend", O.fld(s2, r, "backend") == be)
            v = O.den(s2, r); w = W(rt)
            if canary: v = v + 1 if not canary == "fp" else v ^ 1
            hint = ["uf", "default", "qffp", "cvc5"] if any(K(x) == "f" for x in list(ts) + [rt]) else ["uf", "int", "default"]
            what = "folded literal" if literal else "result"
            done = False
            if not literal and K(ts[0]) == "u" and op in ("Mul", "Div", "Mod"):
                for k in range(len(ts)):
                    l = ds[k]
                    p2 = z3.And(lits[k], l != 0, l & (l - 1) == 0)
                    if not (ids[k] is ids[0] and k) and ex.pv.prove(s2.pc, p2, full=False)[0] == "proved":
                        W0 = W(ts[0]); ex.oblige(s2, "powers of two are enumerated", z3.Or(*[l == (1 << b) for b in range(W0)]))
                        for b in range(W0):
                            u = s2.copy(); u.assume(l == (1 << b)); ex.oblige(u, f"{what}: power of two operand", z3.substitute(goal(v), (l, z3.BitVecVal(1 << b, W0))) if z3.is_const(l) else goal(v))
                        done = True; break
            if not done: ex.oblige(s2, f"{what} denotes the operation applied to the operands", goal(v), hint=hint)
            c.cover(ex, s2, "result")
            if literal:
                ex.oblige(s2, "constants are folded", O.fld(s2, r, "kind") == LIT)
                lit = O.fld(s2, r, "literal"); ex.oblige(s2, "bits above the type's width are zero", z3.LShR(lit, w) == 0 if w < 64 else z3.BoolVal(True))
            if not alias:
                for i2, sz in zip(ids, sizes): ex.oblige(s2, "operands keep their size", O.fld(s2, i2, "size") == sz)
    return t
