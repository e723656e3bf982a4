"""Sound translation of a bit-vector refutation problem into (non-linear) integer
arithmetic: every bit-vector term becomes its unsigned value, wrap-around is made
explicit by a quotient, division by quotient/remainder.  Operations without an
integer reading become unconstrained (over-approximation): only 'unsat' answers
are used."""
import z3

def has_nonlinear(fs):
    seen, stk = set(), list(fs)
    while stk:
        x = stk.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_BMUL and sum(not z3.is_bv_value(c) for c in x.children()) > 1: return True
            if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I, z3.Z3_OP_BSDIV, z3.Z3_OP_BSREM, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM_I) and not z3.is_bv_value(x.arg(1)): return True
            stk.extend(x.children())
    return False

class Blast:
    def __init__(s):
        s.side, s.memo, s.n, s.keep = [], {}, 0, []
        s.divs = []; s.muls = {}
    def fresh(s, p="i"):
        s.n += 1
        return z3.Int(f"{p}?{s.n}")
    def ranged(s, w, p="i"):
        v = s.fresh(p); s.side += [v >= 0, v < 2 ** w]; return v
    def mod(s, e, w, lo=None, hi=None):
        """value of integer e modulo 2^w"""
        if z3.is_int_value(e): return z3.IntVal(e.as_long() % 2 ** w)
        r = s.ranged(w, "m"); c = s.fresh("c")
        s.side.append(e == r + c * 2 ** w)
        if lo is not None: s.side.append(c >= lo)
        if hi is not None: s.side.append(c <= hi)
        return r
    def mulv(s, a, b):
        if z3.is_int_value(a) or z3.is_int_value(b): return a * b
        k = tuple(sorted((a.get_id(), b.get_id())))
        if k not in s.muls:
            s.muls[k] = (a, b)
        return a * b
    def divmod(s, a, b):
        k = ("dm", a.get_id(), b.get_id())
        if k in s.memo:
            q, r, sd = s.memo[k]; s.side.append(sd)
            return q, r
        q, r = s.fresh("q"), s.fresh("r")
        sd = z3.Implies(b > 0, z3.And(a == s.mulv(b, q) + r, r >= 0, r < b, q >= 0, q <= a))
        s.side.append(sd)
        s.memo[k] = (q, r, sd); s.keep.append((a, b))
        return q, r
    def t(s, x):
        i = x.get_id()
        r = s.memo.get(i)
        if r is None:
            r = s.tr(x); s.memo[i] = r; s.keep.append(x)
        return r
    def sg(s, x):
        w = x.size(); v = s.t(x)
        return z3.If(v >= 2 ** (w - 1), v - 2 ** w, v)
    def ufun(s, x):
        """application of an uninterpreted function: same function over the unsigned values (congruence is kept)"""
        ch = x.children()
        if not all(z3.is_bv(c) or z3.is_bool(c) for c in ch): return None
        so = [z3.IntSort() if z3.is_bv(c) else z3.BoolSort() for c in ch] + [z3.IntSort() if z3.is_bv(x) else z3.BoolSort()]
        return z3.Function("uf?" + x.decl().name(), *so)(*[s.t(c) for c in ch])
    def tr(s, x):
        k = x.decl().kind() if z3.is_app(x) else None
        if k is None: raise ValueError("quantifier")
        ch = x.children()
        if z3.is_bool(x):
            if k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE): return x
            if k == z3.Z3_OP_NOT: return z3.Not(s.t(ch[0]))
            if k == z3.Z3_OP_AND: return z3.And([s.t(c) for c in ch])
            if k == z3.Z3_OP_OR: return z3.Or([s.t(c) for c in ch])
            if k == z3.Z3_OP_IMPLIES: return z3.Implies(s.t(ch[0]), s.t(ch[1]))
            if k == z3.Z3_OP_XOR: return z3.Xor(s.t(ch[0]), s.t(ch[1]))
            if k == z3.Z3_OP_ITE: return z3.If(s.t(ch[0]), s.t(ch[1]), s.t(ch[2]))
            if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and (z3.is_bool(ch[0]) or z3.is_bv(ch[0])):
                e = s.t(ch[0]) == s.t(ch[1])
                return e if k == z3.Z3_OP_EQ else z3.Not(e)
            U = {z3.Z3_OP_ULEQ: lambda a, b: a <= b, z3.Z3_OP_ULT: lambda a, b: a < b, z3.Z3_OP_UGEQ: lambda a, b: a >= b, z3.Z3_OP_UGT: lambda a, b: a > b}
            S = {z3.Z3_OP_SLEQ: lambda a, b: a <= b, z3.Z3_OP_SLT: lambda a, b: a < b, z3.Z3_OP_SGEQ: lambda a, b: a >= b, z3.Z3_OP_SGT: lambda a, b: a > b}
            if k in U: return U[k](s.t(ch[0]), s.t(ch[1]))
            if k in S: return S[k](s.sg(ch[0]), s.sg(ch[1]))
            if k == z3.Z3_OP_UNINTERPRETED and ch:
                f = s.ufun(x)
                if f is not None: return f
            s.n += 1
            return z3.Bool(f"ab?{s.n}") if ch else x
        if not z3.is_bv(x): raise ValueError("sort")
        w = x.size()
        if z3.is_bv_value(x): return z3.IntVal(x.as_long())
        if k == z3.Z3_OP_UNINTERPRETED and not ch:
            v = z3.Int(f"v?{x.decl().name()}"); s.side += [v >= 0, v < 2 ** w]; return v
        if k == z3.Z3_OP_UNINTERPRETED:
            f = s.ufun(x)
            if f is not None:
                s.side += [f >= 0, f < 2 ** w]; return f
        if k == z3.Z3_OP_BADD:
            e = None; neg = 0
            for c in ch:
                if z3.is_bv_value(c) and c.as_long() >= 2 ** (w - 1): v = z3.IntVal(c.as_long() - 2 ** w); neg += 1
                elif z3.is_app(c) and c.decl().kind() == z3.Z3_OP_BMUL and z3.is_bv_value(c.arg(0)) and c.arg(0).as_long() >= 2 ** (w - 1):
                    cc = c.arg(0).as_long() - 2 ** w
                    p = None
                    for y in c.children()[1:]: p = s.t(y) if p is None else s.mulv(p, s.t(y))
                    v = cc * p; neg += 1 << 80
                else: v = s.t(c)
                e = v if e is None else e + v
            if neg >= 1 << 80: return s.mod(z3.simplify(e), w)
            return s.mod(z3.simplify(e), w, -neg, len(ch) - 1 - neg if len(ch) > neg else 0)
        if k == z3.Z3_OP_BMUL:
            e = None
            for c in ch: e = s.t(c) if e is None else s.mulv(e, s.t(c))
            return s.mod(e, w, 0)
        if k == z3.Z3_OP_BSUB: return s.mod(s.t(ch[0]) - s.t(ch[1]), w)
        if k == z3.Z3_OP_BNEG: return s.mod(-s.t(ch[0]), w)
        if k == z3.Z3_OP_BNOT: return 2 ** w - 1 - s.t(ch[0])
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I):
            a, b = s.t(ch[0]), s.t(ch[1]); q, r = s.divmod(a, b)
            return q if z3.is_int_value(b) and b.as_long() else z3.If(b == 0, z3.IntVal(2 ** w - 1), q)
        if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
            a, b = s.t(ch[0]), s.t(ch[1]); q, r = s.divmod(a, b)
            return r if z3.is_int_value(b) and b.as_long() else z3.If(b == 0, a, r)
        if k == z3.Z3_OP_ITE: return z3.If(s.t(ch[0]), s.t(ch[1]), s.t(ch[2]))
        if k == z3.Z3_OP_ZERO_EXT: return s.t(ch[0])
        if k == z3.Z3_OP_SIGN_EXT:
            v = s.t(ch[0]); w0 = ch[0].size()
            return z3.If(v >= 2 ** (w0 - 1), v + 2 ** w - 2 ** w0, v)
        if k == z3.Z3_OP_CONCAT:
            e = s.t(ch[0])
            for c in ch[1:]: e = e * 2 ** c.size() + s.t(c)
            return e
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = x.params(); v = s.t(ch[0]); w0 = ch[0].size()
            if hi == w0 - 1 and lo == 0: return v
            key = ("ex", v.get_id(), hi, lo)
            if key in s.memo:
                e, sd = s.memo[key]; s.side += sd
                return e
            n0 = len(s.side)
            e = s.ranged(hi - lo + 1, "e"); rhs = e * 2 ** lo
            if lo: rhs = rhs + s.ranged(lo, "l")
            if hi < w0 - 1: rhs = rhs + s.ranged(w0 - 1 - hi, "h") * 2 ** (hi + 1)
            s.side.append(v == rhs); s.memo[key] = (e, s.side[n0:]); s.keep.append(v)
            return e
        if k in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR) and z3.is_bv_value(ch[1]):
            n = ch[1].as_long()
            if n >= w: return z3.IntVal(0)
            if k == z3.Z3_OP_BSHL: return s.mod(s.t(ch[0]) * 2 ** n, w, 0)
            return s.divmod(s.t(ch[0]), z3.IntVal(2 ** n))[0]
        return s.ranged(w, "u")

def refute(pc, neg, ms, want="z3"):
    b = Blast()
    try: fs = [b.t(c) for c in pc] + [b.t(neg)]
    except ValueError: return "unknown"
    so = z3.SolverFor("QF_NIA") if want == "nia" else z3.Solver()
    so.set("timeout", ms)
    so.add(*b.side); so.add(*fs)
    # product lemmas: monotonicity / sign of products (valid facts over the integers)
    ms_ = list(b.muls.values())
    for x, y in ms_:
        so.add(z3.Implies(z3.And(x >= 1, y >= 0), x * y >= y), z3.Implies(z3.And(y >= 1, x >= 0), x * y >= x), z3.Implies(z3.And(x >= 0, y >= 0), x * y >= 0))
    # products sharing a factor: order of the other factor decides (with unit gap)
    cnt = 0
    for i in range(len(ms_)):
        for j in range(i + 1, len(ms_)):
            for (x, y) in (ms_[i], ms_[i][::-1]):
                for (u, v) in (ms_[j], ms_[j][::-1]):
                    if x.eq(u) and cnt < 60:
                        cnt += 1
                        so.add(z3.Implies(z3.And(x >= 0, y <= v), x * y <= x * v), z3.Implies(z3.And(x >= 0, y >= v), x * y >= x * v),
                               z3.Implies(z3.And(x >= 0, y < v), x * y + x <= x * v), z3.Implies(z3.And(x >= 0, y > v), x * y >= x * v + x))
    r = so.check()
    return str(r)

class Cache:
    """refute() with translations memoised per constraint (names are tied to terms, side conditions to the terms that need them)"""
    def __init__(s):
        s.b = Blast(); s.sides = {}; s.top = {}; s.keep = []
        b = s.b; orig = b.t
        def t(x):
            i = x.get_id()
            r = b.memo.get(i)
            if r is None:
                old = b.side; b.side = []
                r = b.tr(x)
                s.sides[i] = b.side; b.side = old
                b.memo[i] = r; b.keep.append(x)
            return r
        b.t = t
    def constraint(s, c):
        i = c.get_id()
        r = s.top.get(i)
        if r is None:
            try: e = s.b.t(c)
            except ValueError: e = None
            out, seen, stk = [], set(), [c]
            while stk:
                x = stk.pop()
                j = x.get_id()
                if j in seen: continue
                seen.add(j)
                for q in s.sides.get(j, ()): out.append((q.get_id(), q))
                stk.extend(x.children())
            r = s.top[i] = (e, out); s.keep.append(c)
        return r
    def refute(s, pc, neg, ms):
        so = z3.Solver(); so.set("timeout", ms)
        done = set()
        for c in list(pc) + [neg]:
            e, out = s.constraint(c)
            if e is None: return "unknown"
            so.add(e)
            for j, q in out:
                if j not in done: done.add(j); so.add(q)
        return str(so.check())
