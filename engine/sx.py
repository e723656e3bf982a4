"""Deductive verifier core: symbolic execution of LLVM IR generated from the
real sources.  Every branch, memory access, loop and call produces proof
obligations; loops are cut by (inferred or supplied) invariants that are
themselves discharged by induction; calls to contracted functions use the
contract.  Machine integers are bit-vectors (exact wrap-around semantics)."""
import time, os, sys, itertools, struct
import z3
import ir

sys.setrecursionlimit(20000)

class Unsupported(Exception): pass
class Budget(Exception): pass

# ----------------------------------------------------------------- values
class Ptr:
    __slots__ = ("obj", "off")
    def __init__(s, obj, off): s.obj, s.off = obj, off
    def __repr__(s): return f"&{s.obj}+{s.off}"
class FPtr:
    __slots__ = ("name",)
    def __init__(s, name): s.name = name
    def __repr__(s): return f"&fn:{s.name}"
NULL = Ptr(None, 0)

def is_sym(x): return isinstance(x, z3.ExprRef)
def mask(w): return (1 << w) - 1
def sgn(x, w): return x - (1 << w) if x >> (w - 1) & 1 else x
def bv(x, w):
    if isinstance(x, bool): x = int(x)
    if isinstance(x, int): return z3.BitVecVal(x & mask(w), w)
    if z3.is_fp(x): return z3.fpToIEEEBV(x)
    if z3.is_bool(x): return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return x
def tobool(x):
    if isinstance(x, (bool, int)): return z3.BoolVal(bool(x))
    if z3.is_bv(x): return x == z3.BitVecVal(1, x.size())
    return x
FS = {16: z3.Float16(), 32: z3.Float32(), 64: z3.Float64()}
def tofp(x, w):
    if isinstance(x, int): return z3.fpBVToFP(z3.BitVecVal(x, w), FS[w])
    if z3.is_fp(x): return x
    # fold fpToIEEEBV round trip
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_FPA_TO_IEEE_BV: return x.arg(0)
    return z3.fpBVToFP(x, FS[w])
def conc(x):
    """python int if the expression is a numeral"""
    if isinstance(x, (int, bool)): return int(x)
    if z3.is_bv_value(x): return x.as_long()
    if z3.is_true(x): return 1
    if z3.is_false(x): return 0
    return None
def simp(x):
    if isinstance(x, (int, bool)): return x
    if isinstance(x, Ptr): return Ptr(x.obj, simp(x.off))
    if not is_sym(x): return x
    x = z3.simplify(x)
    c = conc(x)
    if c is None: return x
    if z3.is_bool(x): return bool(c)
    return c
_fresh = itertools.count()
def fresh(name, w):
    n = f"{name}!{next(_fresh)}"
    return z3.Bool(n) if w == 1 else z3.BitVec(n, w)

def add64(a, b):
    if isinstance(a, int) and isinstance(b, int): return (a + b) & mask(64)
    return simp(bv(a, 64) + bv(b, 64))
def mul64(a, c):
    if isinstance(a, int): return (a * c) & mask(64)
    return simp(bv(a, 64) * z3.BitVecVal(c & mask(64), 64))
def eq(a, b, w=None):
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)): return z3.BoolVal(int(a) == int(b))
    if is_sym(a) and z3.is_fp(a) or is_sym(b) and z3.is_fp(b):
        w = w or (a.sort().ebits() + a.sort().sbits() if is_sym(a) and z3.is_fp(a) else b.sort().ebits() + b.sort().sbits())
        return tofp(a, w) == tofp(b, w)
    if (is_sym(a) and z3.is_bool(a)) or (is_sym(b) and z3.is_bool(b)): return tobool(a) == tobool(b)
    w = a.size() if is_sym(a) else b.size()
    return bv(a, w) == bv(b, w)
def width(x): return x.size() if z3.is_bv(x) else (1 if z3.is_bool(x) else x.sort().ebits() + x.sort().sbits())
def ite(c, a, b):
    if isinstance(c, (bool, int)): return a if c else b
    if a is b: return a
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            return Ptr(a.obj, ite64(c, a.off, b.off))
        raise Unsupported("pointer select over different objects")
    if isinstance(a, FPtr) or isinstance(b, FPtr):
        if isinstance(a, FPtr) and isinstance(b, FPtr) and a.name == b.name: return a
        raise Unsupported("function pointer select")
    if isinstance(a, (list, tuple)):
        return type(a)(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        if int(a) == int(b): return a
        return None  # caller must know width
    s = a if is_sym(a) else b
    if is_sym(a) and is_sym(b) and z3.is_fp(a) != z3.is_fp(b):
        w = width(a); return z3.If(c, bv(a, w), bv(b, w))
    if z3.is_fp(s):
        w = width(s)
        return z3.If(c, tofp(a, w), tofp(b, w))
    if z3.is_bool(s): return z3.If(c, tobool(a), tobool(b))
    w = s.size()
    x, y = bv(a, w), bv(b, w)
    return x if x.eq(y) else z3.If(c, x, y)
def ite64(c, a, b):
    r = ite(c, a, b)
    return z3.If(c, bv(a, 64), bv(b, 64)) if r is None else r

def subst(x, pairs):
    if isinstance(x, (int, bool)) or x is None: return x
    if isinstance(x, Ptr): return Ptr(x.obj, subst(x.off, pairs))
    if isinstance(x, (list, tuple)): return type(x)(subst(y, pairs) for y in x)
    if is_sym(x): return z3.substitute(x, *pairs)
    return x

def uses(e, syms):
    """does expression e mention any of the given constants?"""
    ids = {s.get_id() for s in syms}
    seen, stk = set(), [e] if is_sym(e) else []
    while stk:
        x = stk.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if i in ids: return True
        stk.extend(x.children())
    return False

def has_app(e):
    """contains an application of an uninterpreted function"""
    seen, stk = set(), [e]
    while stk:
        x = stk.pop()
        if x.get_id() in seen or not z3.is_app(x): continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args(): return True
        stk.extend(x.children())
    return False

# ----------------------------------------------------------------- memory
class Obj:
    """cells: fixed-size object, byte offset -> (size, value).
       array: element array; content is a base function plus a list of layers"""
    __slots__ = ("id", "kind", "size", "cells", "es", "base", "layers", "alive", "writable", "owner", "lazy", "name", "ptrs", "inb")
    def __init__(s, id, kind, size, es=1, base=None, writable=True, lazy=None, name=None):
        s.id, s.kind, s.size, s.es, s.base = id, kind, size, es, base
        s.cells, s.layers, s.alive, s.writable, s.owner, s.lazy, s.name = {}, (), True, writable, None, lazy, name or id
        s.ptrs = s.inb = None
    def clone(s, owner):
        o = Obj(s.id, s.kind, s.size, s.es, s.base, s.writable, s.lazy, s.name)
        o.cells, o.layers, o.alive, o.owner, o.ptrs, o.inb = dict(s.cells), s.layers, s.alive, owner, s.ptrs, s.inb
        return o

class Store1:      # single element store
    __slots__ = ("idx", "val", "cond")
    def __init__(s, idx, val, cond=True): s.idx, s.val, s.cond = idx, val, cond
class LayerFn:     # content(x, prev) closure; x: BV64 element index
    __slots__ = ("fn", "tag")
    def __init__(s, fn, tag=None): s.fn, s.tag = fn, tag

class Frame:
    __slots__ = ("fn", "regs", "args", "blk", "ip", "prev", "allocas", "inst", "va")
    def copy(s):
        f = Frame()
        f.fn, f.regs, f.args, f.blk, f.ip, f.prev, f.allocas, f.inst, f.va = \
            s.fn, dict(s.regs), s.args, s.blk, s.ip, s.prev, list(s.allocas), s.inst, s.va
        return f

class State:
    def __init__(s):
        s.frames, s.mem, s.pc, s.ghost, s.exc = [], {}, [], {}, None
        s.tok = object()    # ownership token for copy-on-write of memory objects
        s.reads = None      # optional read log
        s.writes = None     # optional write log
        s.hyps = []         # quantified facts: callables (list of index terms)->list of Bool
    def copy(s):
        t = State(); s.tok = object()
        t.frames = [f.copy() for f in s.frames]
        t.mem = dict(s.mem)
        t.pc = list(s.pc)
        t.ghost = {k: (v.copy() if hasattr(v, "copy") else v) for k, v in s.ghost.items()}
        t.exc = s.exc
        t.reads = None if s.reads is None else list(s.reads)
        t.writes = None if s.writes is None else list(s.writes)
        t.hyps = list(s.hyps)
        return t
    def wobj(s, id):
        o = s.mem[id]
        if o.owner is not s.tok:
            o = o.clone(s.tok); s.mem[id] = o
        return o
    def assume(s, c):
        if isinstance(c, bool):
            if not c: s.pc.append(z3.BoolVal(False))
            return
        s.pc.append(c)

# ----------------------------------------------------------------- solving
_ABS = {z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_SUB, z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_DIV, z3.Z3_OP_FPA_FMA, z3.Z3_OP_FPA_SQRT, z3.Z3_OP_FPA_ROUND_TO_INTEGRAL, z3.Z3_OP_FPA_REM,
        z3.Z3_OP_FPA_TO_UBV, z3.Z3_OP_FPA_TO_SBV, z3.Z3_OP_BMUL, z3.Z3_OP_BUDIV, z3.Z3_OP_BSDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BSREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BUREM_I, z3.Z3_OP_BSREM_I}
class Abstraction:
    """arithmetic operators replaced by uninterpreted functions: a formula valid after the replacement is valid (used to prove congruence-only goals)"""
    COMM = {z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_MUL, z3.Z3_OP_BMUL}
    def __init__(s): s.memo, s.ax = {}, []
    def __call__(s, e):
        k = e.get_id()
        if k in s.memo: return s.memo[k][1]
        if not z3.is_app(e) or e.num_args() == 0: r = e
        else:
            ch = [s(c) for c in e.children()]; d = e.decl(); kd = d.kind()
            if kd == z3.Z3_OP_FPA_SUB: ch, kd = [ch[0], ch[1], z3.fpNeg(ch[2])], z3.Z3_OP_FPA_ADD
            if kd in _ABS or kd == z3.Z3_OP_FPA_TO_FP and len(ch) == 2:
                if kd == z3.Z3_OP_BMUL and len(ch) > 2:
                    r = ch[0]
                    for c in ch[1:]: r = z3.Function(f"abs_{kd}_{r.sort()}", r.sort(), c.sort(), r.sort())(r, c)
                else:
                    f = z3.Function(f"abs_{kd}_{'_'.join(str(c.sort()) for c in ch)}_{e.sort()}", *[c.sort() for c in ch], e.sort()); r = f(*ch)
                    if kd in s.COMM: s.ax.append(r == f(*ch[:-2], ch[-1], ch[-2]))
            else: r = d(*ch) if kd not in (z3.Z3_OP_AND, z3.Z3_OP_OR) else (z3.And if kd == z3.Z3_OP_AND else z3.Or)(*ch)
        s.memo[k] = (e, r); return r
class Prover:
    """Discharges obligations.  First the incremental z3 instance, then fresh z3
    configurations, then cvc5; 'unknown' everywhere = undischarged."""
    def __init__(s, quick_ms=3000, full_ms=60000, use_cvc5=True):
        s.inc = z3.Solver(); s.stack = []
        s.quick_ms, s.full_ms, s.use_cvc5 = quick_ms, full_ms, use_cvc5
        s.time = {"z3": 0.0, "cvc5": 0.0}
        s.count = {"z3": 0, "cvc5": 0, "syntactic": 0}
        s.feas = 0; s.use_int = True; s.int_ms = 20000
    int_first = 0
    renew = False          # start over with a new incremental instance after a query that ran out of time (z3 is not robust afterwards when floating point terms are involved)
    def _renew(s, r):
        if r == z3.unknown and s.renew: s.inc = z3.Solver(); s.stack = []
        return r
    def _sync(s, pc):
        n = 0
        while n < len(s.stack) and n < len(pc) and s.stack[n].eq(pc[n]): n += 1
        if len(s.stack) > n:
            s.inc.pop(len(s.stack) - n); del s.stack[n:]
        for c in pc[n:]:
            s.inc.push(); s.inc.add(c); s.stack.append(c)
    def feasible(s, pc, extra=None, ms=1500):
        s.feas += 1
        t0 = time.time()
        s._sync(pc)
        s.inc.set("timeout", ms)
        r = s._renew(s.inc.check(*([extra] if extra is not None else [])))
        s.time["z3"] += time.time() - t0
        return r != z3.unsat
    def model(s, pc, extra=None, ms=5000):
        s._sync(pc)
        s.inc.set("timeout", ms)
        if s._renew(s.inc.check(*([extra] if extra is not None else []))) == z3.sat:
            return s.inc.model()
        return None
    def prove(s, pc, goal, hint=None, full=True):
        """returns (status, backend, model)  status in proved / failed / unknown"""
        g = z3.simplify(goal)
        if z3.is_true(g):
            s.count["syntactic"] += 1
            return "proved", "syntactic", None
        neg = z3.Not(g)
        t0 = time.time()
        s._sync(pc)
        s.inc.set("timeout", s.quick_ms)
        r = s.inc.check(neg)
        m = s.inc.model() if r == z3.sat else None
        s._renew(r)
        s.time["z3"] += time.time() - t0
        if r == z3.unsat:
            s.count["z3"] += 1; return "proved", "z3", None
        if r == z3.sat: return "failed", "z3", m
        if s.int_first:
            import intblast
            if not hasattr(s, "_ic"): s._ic = intblast.Cache()
            t0 = time.time()
            r = s._ic.refute(pc, neg, s.int_first)
            s.time["z3"] += time.time() - t0
            if r == "unsat":
                s.count["z3"] += 1; return "proved", "z3 (integer translation)", None
        if not full: return "unknown", "z3", None
        if hint and "uf" in hint:
            t0 = time.time()
            if not hasattr(s, "_abs"): s._abs = Abstraction()
            so = z3.Solver(); so.set("timeout", 10000)
            try: so.add(*[s._abs(c) for c in pc]); so.add(s._abs(neg)); so.add(*s._abs.ax); r = so.check()
            except z3.Z3Exception: r = z3.unknown
            s.time["z3"] += time.time() - t0
            if r == z3.unsat:
                s.count["z3"] += 1; return "proved", "z3 (uninterpreted arithmetic)", None
        if s.use_int and (hint is None or "int" in hint):
            from intblast import refute, has_nonlinear
            if has_nonlinear(pc + [neg]):
                for cfg in ("z3", "nia"):
                    t0 = time.time()
                    r = refute(pc, neg, s.int_ms, cfg)
                    s.time["z3"] += time.time() - t0
                    if r == "unsat":
                        s.count["z3"] += 1; return "proved", "z3 (integer translation)", None
        for tac in (hint or ["default"]):
            if tac == "int": continue
            t0 = time.time()
            if tac == "uf": continue
            if tac == "cvc5":
                r = s.cvc5(pc, neg) if s.use_cvc5 else "unknown"
                s.time["cvc5"] += time.time() - t0
                if r == "unsat":
                    s.count["cvc5"] += 1; return "proved", "cvc5", None
                continue
            so = z3.Solver() if tac == "default" else z3.Tactic(tac).solver() if isinstance(tac, str) else tac.solver()
            so.set("timeout", s.full_ms)
            so.add(*pc); so.add(neg)
            r = so.check()
            s.time["z3"] += time.time() - t0
            if r == z3.unsat:
                s.count["z3"] += 1; return "proved", "z3", None
            if r == z3.sat: return "failed", "z3", so.model()
        if s.use_cvc5 and not (hint and "cvc5" in hint):
            t0 = time.time()
            r = s.cvc5(pc, neg)
            s.time["cvc5"] += time.time() - t0
            if r == "unsat":
                s.count["cvc5"] += 1; return "proved", "cvc5", None
        return "unknown", "none", None
    def cvc5(s, pc, neg):
        try:
            import cvc5
            so = z3.Solver(); so.add(*pc); so.add(neg)
            txt = so.to_smt2()
            sv = cvc5.Solver()
            sv.setOption("tlimit-per", str(s.full_ms))
            sv.setLogic("ALL")
            p = cvc5.InputParser(sv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
            sm = p.getSymbolManager()
            while True:
                c = p.nextCommand()
                if c.isNull(): break
                out = c.invoke(sv, sm)
                if "unsat" in out: return "unsat"
                if out.startswith("sat"): return "sat"
            return "unknown"
        except Exception as e:
            return "error: %s" % e

class Obligation:
    __slots__ = ("name", "status", "backend", "secs", "detail", "model", "where")
    def asdict(s):
        return dict(name=s.name, status=s.status, backend=s.backend, secs=round(s.secs, 3), detail=s.detail, where=s.where)

# ----------------------------------------------------------------- executor
class Executor:
    raw_float = False         # loads and bit casts keep the bit pattern (NaN payloads and signs are tracked until the first arithmetic operation)
    def __init__(s, mod, prover=None, float_mode="uf", max_steps=400000, max_states=20000, time_limit=None):
        s.mod = mod
        s.pv = prover or Prover(); s.pv.renew = float_mode == 'ieee'
        s.contracts = {}      # demangled or symbol name -> handler(ex, st, args, inst)
        s.loopspecs = []      # (pattern, index) -> spec
        s.float_mode = float_mode
        s.obs = []
        s.steps = 0; s.max_steps = max_steps; s.max_states = max_states
        s.t_end = time.time() + time_limit if time_limit else None
        s.covers = {}
        s.called = set()      # real functions symbolically executed
        s.contracted = set()  # contracts used at calls
        s._ufs = {}
        s._glob = {}
        s.check_mem = True
        s.objctr = itertools.count()
        s.tables = {}
        s.unroll_max = 256
        s.merge_fns = []
        s.wrap_ok = True
        s.trace_calls = bool(os.environ.get("SX_TRACE"))
        s.fail_fast = False
        s.ref_facts = True
        s.on_fail = None

    # ------------------------------------------------------------ obligations
    def oblige(s, st, name, goal, hint=None, detail=None):
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        t0 = time.time()
        status, be, m = s.pv.prove(st.pc, goal, hint)
        o = Obligation(); o.name, o.status, o.backend, o.secs, o.model = name, status, be, time.time() - t0, None
        o.detail = detail
        o.where = None
        if status != "proved":
            o.model = m
            o.where = s.where(st)
            if status == "failed":
                o.detail = (detail or "") + " counterexample: " + s.fmt_model(m)
            else: o.detail = (detail or "") + " (no proof found: solver answered unknown)"
        s.obs.append(o)
        # continue under the assumption that it holds (one failure reported once)
        st.assume(goal)
        return status == "proved"
    def fmt_model(s, m, lim=40):
        if m is None: return "none"
        r = []
        for d in m.decls()[:lim]:
            try:
                if d.arity() == 0: r.append(f"{d.name()}={m[d]}")
            except Exception: pass
        return ", ".join(r)
    def where(s, st):
        return " < ".join(f.fn.dname.split("(")[0] for f in reversed(st.frames))[:300] if st.frames else ""

    # ------------------------------------------------------------ memory
    def new_cells(s, st, size, name="obj", lazy=None, writable=True):
        id = f"{name}#{next(s.objctr)}"
        o = Obj(id, "cells", size, lazy=lazy, writable=writable, name=name); o.owner = st.tok
        st.mem[id] = o
        return Ptr(id, 0)
    def new_array(s, st, es, count, name="arr", content=None, writable=True):
        """element array: 'es' bytes per element, 'count' elements (BV64 or int); content: fn(BV64)->BV(8*es)"""
        id = f"{name}#{next(s.objctr)}"
        if content is None:
            content = z3.Function(id, z3.BitVecSort(64), z3.BitVecSort(8 * es))
        size = count * es if isinstance(count, int) else mul64(count, es)
        o = Obj(id, "array", size, es=es, base=content, writable=writable, name=name); o.owner = st.tok
        st.mem[id] = o
        return Ptr(id, 0)
    def arr_read(s, o, x, upto=None):
        """content of array object at element index x (BV64 or int)"""
        x = simp(x)
        return s._arr_read(o, x, len(o.layers) if upto is None else upto)
    def _arr_read(s, o, x, n):
        xb = bv(x, 64)
        conds = []
        while n > 0:
            l = o.layers[n - 1]
            if isinstance(l, Store1):
                d = simp(xb - bv(l.idx, 64))
                if l.cond is True and isinstance(d, int):
                    if d == 0:
                        r = l.val
                        break
                    n -= 1; continue
                if isinstance(d, int) and d != 0: n -= 1; continue
                c = (xb == bv(l.idx, 64))
                if l.cond is not True: c = z3.And(l.cond, c)
                conds.append((c, l.val)); n -= 1
            else:
                m = n - 1
                r = l.fn(xb, lambda y, m=m: s._arr_read(o, simp(y), m))
                break
        else:
            r = o.base(xb)
        w = 8 * o.es
        for c, v in reversed(conds):
            r = ite(c, v, r)
            if r is None or not is_sym(r):
                pass
        if conds:
            # rebuild with explicit widths
            r2 = None
            base = None
        return r if is_sym(r) else bv(r, w)
    def obj(s, st, p, what):
        if isinstance(p, FPtr): raise Unsupported(f"{what} through function pointer")
        if not isinstance(p, Ptr):
            p = s.resolve_ptr(st, p)
        if p.obj is None:
            s.oblige(st, f"memory safety: {what} through null pointer", False)
            raise Abort()
        return p, st.mem[p.obj]
    def bounds(s, st, o, off, n, what):
        if not o.alive:
            s.oblige(st, f"memory safety: {what} of released object {o.name}", False); raise Abort()
        if isinstance(off, int) and isinstance(o.size, int):
            if off + n > o.size:
                s.oblige(st, f"memory safety: {what} out of bounds of {o.name} (offset {off}+{n} > {o.size})", False)
                raise Abort()
            return
        a, sz = bv(off, 64), bv(o.size, 64)
        if o.es > 1 and n == o.es and o.kind == "array":
            # compare in element units (easier)
            e = s.elem_index(st, off, o.es)
            if e is not None and o.inb is not None:
                s.oblige(st, f"memory safety: {what} within {o.name}", o.inb(bv(e, 64))); return
            if e is not None:
                cnt = s.elem_count(o)
                if cnt is not None:
                    s.oblige(st, f"memory safety: {what} within {o.name}", z3.ULT(bv(e, 64), bv(cnt, 64)))
                    return
        s.oblige(st, f"memory safety: {what} within {o.name}",
                 z3.And(z3.ULE(bv(n, 64), sz), z3.ULE(a, sz - bv(n, 64))))
    def elem_count(s, o):
        if isinstance(o.size, int): return o.size // o.es
        return s.div_exact(o.size, o.es)
    def div_exact(s, e, c):
        """e / c for a BV64 expression that is syntactically a multiple of c (no overflow assumed in objects)"""
        if c == 1: return e
        if isinstance(e, int): return e // c if e % c == 0 else None
        r = s._lin_div(e, c)
        return r
    def _lin_div(s, e, c):
        k = e.decl().kind()
        if z3.is_bv_value(e):
            v = sgn(e.as_long(), e.size())
            return v // c & mask(64) if v % c == 0 else None
        if k == z3.Z3_OP_BADD:
            out = 0
            for ch in e.children():
                d = s._lin_div(ch, c)
                if d is None: return None
                out = add64(out, d)
            return out
        if k == z3.Z3_OP_BMUL:
            chs = e.children()
            for i, ch in enumerate(chs):
                if z3.is_bv_value(ch):
                    v = sgn(ch.as_long(), 64)
                    if v % c: return None
                    q = v // c
                    rest = [x for j, x in enumerate(chs) if j != i]
                    r = rest[0]
                    for x in rest[1:]: r = r * x
                    return mul64(r, q)
            return None
        if k == z3.Z3_OP_ITE:
            a, b = s._lin_div(e.arg(1), c), s._lin_div(e.arg(2), c)
            if a is None or b is None: return None
            return z3.If(e.arg(0), bv(a, 64), bv(b, 64))
        if k == z3.Z3_OP_CONCAT:
            # x ++ 0..0
            last = e.children()[-1]
            lw = last.size()
            if z3.is_bv_value(last) and c & (c - 1) == 0:
                sh = c.bit_length() - 1
                if lw >= sh and last.as_long() % c == 0:
                    hi = e.children()[:-1]
                    h = hi[0] if len(hi) == 1 else z3.Concat(*hi)
                    low = z3.BitVecVal(last.as_long() >> sh, lw - sh) if lw > sh else None
                    x = h if low is None else z3.Concat(h, low)
                    return simp(z3.SignExt(64 - x.size(), x)) if x.size() < 64 else x
            return None
        return None
    def elem_index(s, st, off, es):
        if es == 1: return off
        if isinstance(off, int): return off // es if off % es == 0 else None
        return s._lin_div(off, es)
    def load(s, st, p, ty):
        k = ty.k
        if k in ('struct', 'array', 'vector'):
            if k == 'struct':
                return [s.load(st, s.gep(p, o), f) for f, o in zip(ty.fields, ty.offs)]
            return [s.load(st, s.gep(p, i * ty.el.size), ty.el) for i in range(ty.n)]
        n = ty.store
        w = ty.w
        p, o = s.obj(st, p, "load")
        s.bounds(st, o, p.off, n, "load")
        v = s.load_raw(st, o, p.off, n, k)
        return s.cast_loaded(v, ty, n)
    def cast_loaded(s, v, ty, n):
        k, w = ty.k, ty.w
        if k == 'ptr':
            return v
        if isinstance(v, (Ptr, FPtr)): return v      # pointer loaded as integer
        if k == 'int':
            if is_sym(v) and z3.is_fp(v): v = z3.fpToIEEEBV(v)
            if w == 8 * n: return simp(v) if is_sym(v) else v
            if w == 1:
                if isinstance(v, (int, bool)): return bool(v & 1)
                if z3.is_bool(v): return v
                v = simp(v)
                if isinstance(v, int): return bool(v & 1)
                # bool stored as zext/ite
                return simp(z3.Extract(0, 0, v) == 1)
            return simp(z3.Extract(w - 1, 0, bv(v, 8 * n)))
        if k == 'float':
            if s.float_mode == 'ieee':
                if isinstance(v, int) or s.raw_float: return v
                return tofp(v, w)
            return v
        return v
    def load_raw(s, st, o, off, n, k):
        if o.kind == "array":
            if k == 'ptr' and o.ptrs is not None:
                return o.ptrs(s, st, o, off)
            return s.array_load(st, o, off, n)
        if not isinstance(off, int):
            return s.cells_symload(st, o, off, n, k)
        c = o.cells.get(off)
        if c is not None and c[0] == n: return c[1]
        if c is None and not any(off - 16 < q < off + n and q + o.cells[q][0] > off for q in range(max(0, off - 15), off + n) if q in o.cells):
            return s.lazy_cell(st, o, off, n, k)
        # assemble from bytes
        bs = [s.byte_at(st, o, off + i) for i in range(n)]
        if all(isinstance(b, int) for b in bs):
            return sum(b << (8 * i) for i, b in enumerate(bs))
        return simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)]) if n > 1 else bs[0])
    def lazy_cell(s, st, o, off, n, k):
        o = st.wobj(o.id)
        if o.lazy is None:
            # uninitialised memory: unconstrained value
            if k == 'ptr': v = Ptr(None, 0) if False else s.undef_ptr(st)
            else: v = fresh(f"uninit_{o.name}_{off}", 8 * n)
        else:
            v = o.lazy(s, st, o, off, n, k)
        o.cells[off] = (n, v)
        return v
    def undef_ptr(s, st):
        return fresh("undefptr", 64)
    def byte_at(s, st, o, a):
        for q in range(a, max(-1, a - 32), -1):
            c = o.cells.get(q)
            if c is not None:
                if q + c[0] > a:
                    v = c[1]
                    if isinstance(v, (Ptr, FPtr)): v = s.ptr_bits(st, v)
                    if isinstance(v, int): return v >> (8 * (a - q)) & 255
                    v = bv(v, 8 * c[0])
                    return z3.Extract(8 * (a - q) + 7, 8 * (a - q), v)
                break
        return s.lazy_cell(st, o, a, 1, 'int')
    def array_load(s, st, o, off, n):
        es = o.es
        if n == es:
            e = s.elem_index(st, off, es)
            if e is not None:
                if st.reads is not None: st.reads.append((o.id, e, len(st.pc)))
                return simp(s.arr_read(o, e))
        elif n > es and n % es == 0:
            e = s.elem_index(st, off, es)
            if e is not None:
                parts = []
                for i in range(n // es):
                    if st.reads is not None: st.reads.append((o.id, add64(e, i), len(st.pc)))
                    parts.append(bv(s.arr_read(o, add64(e, i)), 8 * es))
                return simp(z3.Concat(*reversed(parts)))
        elif n < es and es % n == 0:
            for sh in range(0, es, n):
                e = s.elem_index(st, add64(off, -sh & mask(64)), es)
                if e is not None:
                    if st.reads is not None: st.reads.append((o.id, e, len(st.pc)))
                    v = bv(s.arr_read(o, e), 8 * es)
                    return simp(z3.Extract(8 * (sh + n) - 1, 8 * sh, v))
        # try semantic multiple-of-es
        if n == es:
            ob = bv(off, 64)
            if s.pv.prove(st.pc, z3.URem(ob, z3.BitVecVal(es, 64)) == 0, full=False)[0] == "proved":
                e = z3.UDiv(ob, z3.BitVecVal(es, 64))
                if st.reads is not None: st.reads.append((o.id, e, len(st.pc)))
                return simp(s.arr_read(o, e))
        raise Unsupported(f"array load of {n} bytes at offset {off} (element size {es})")
    def cells_symload(s, st, o, off, n, k):
        # constant tables and small objects with symbolic offset
        if not isinstance(o.size, int) or o.size > 8192: raise Unsupported("symbolic offset into large object")
        offb = bv(off, 64)
        if not o.writable and n <= 8:
            return s.table_load(st, o, offb, n)
        # candidate offsets: multiples of n (aligned access) or all
        st_ = n if s.elem_index(st, off, n) is not None else 1
        cand = [c for c in range(0, o.size - n + 1, st_)]
        if st_ == 1:
            cand = [c for c in cand]
        vals = []
        for c in cand:
            if s.pv.feasible(st.pc, offb == c, ms=300): vals.append(c)
            if len(vals) > 64: raise Unsupported("too many candidate offsets")
        if not vals: return fresh("deadload", 8 * n)
        r = None
        for c in reversed(vals):
            v = s.load_raw(st, st.mem[o.id], c, n, k)
            r = v if r is None else s.ite_w(offb == c, v, r, 8 * n)
        return r
    def ite_w(s, c, a, b, w):
        r = ite(c, a, b)
        if r is None: r = z3.If(c, bv(a, w), bv(b, w))
        return r
    def table_load(s, st, o, offb, n):
        """read-only table: balanced ite over the offset"""
        key = (o.id, n)
        tab = s.tables.get(key)
        if tab is None:
            tab = []
            for c in range(0, o.size - n + 1):
                bs = [s.byte_at(st, o, c + i) for i in range(n)]
                if not all(isinstance(b, int) for b in bs): raise Unsupported("non-constant table")
                tab.append(sum(b << (8 * i) for i, b in enumerate(bs)))
            s.tables[key] = tab
        # restrict to offsets aligned like the index expression
        step = 1
        for t in (16, 8, 4, 2):
            if s.elem_index(st, offb, t) is not None: step = t; break
        idx = list(range(0, len(tab), step))
        w = 8 * n
        def build(lo, hi):
            if hi - lo == 1: return z3.BitVecVal(tab[idx[lo]], w)
            mid = (lo + hi) // 2
            a, b = build(lo, mid), build(mid, hi)
            if a.eq(b): return a
            return z3.If(z3.ULT(offb, idx[mid]), a, b)
        return build(0, len(idx))
    def store(s, st, p, v, ty):
        k = ty.k
        if k in ('struct', 'array', 'vector'):
            offs = ty.offs if k == 'struct' else [i * ty.el.size for i in range(ty.n)]
            for i, o in enumerate(offs):
                s.store(st, s.gep(p, o), v[i], ty.fields[i] if k == 'struct' else ty.el)
            return
        n = ty.store
        p, o = s.obj(st, p, "store")
        s.bounds(st, o, p.off, n, "store")
        if not o.writable:
            s.oblige(st, f"frame: store into read-only object {o.name}", False)
        if ty.k == 'int' and ty.w == 1:
            v = int(v) if isinstance(v, (bool, int)) else (z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if z3.is_bool(v) else v)
        elif ty.k == 'int' and ty.w != 8 * n:
            v = v if isinstance(v, int) else z3.ZeroExt(8 * n - ty.w, v)
        s.store_raw(st, o, p.off, n, v)
    def store_raw(s, st, o, off, n, v):
        o = st.wobj(o.id)
        if o.kind == "array":
            if isinstance(v, (Ptr, FPtr)): v = s.ptr_bits(st, v)
            es = o.es
            if n == es:
                e = s.elem_index(st, off, es)
                if e is None:
                    ob = bv(off, 64)
                    if s.pv.prove(st.pc, z3.URem(ob, z3.BitVecVal(es, 64)) == 0, full=False)[0] != "proved":
                        raise Unsupported("unaligned array store")
                    e = z3.UDiv(ob, z3.BitVecVal(es, 64))
                if is_sym(v) and z3.is_fp(v): v = z3.fpToIEEEBV(v)
                o.layers = o.layers + (Store1(e, bv(v, 8 * es)),)
                if st.writes is not None: st.writes.append((o.id, e, bv(v, 8 * es), len(st.pc)))
                return
            if n > es and n % es == 0:
                e = s.elem_index(st, off, es)
                if e is not None:
                    vb = bv(v, 8 * n)
                    for i in range(n // es):
                        x = z3.simplify(z3.Extract(8 * es * (i + 1) - 1, 8 * es * i, vb))
                        o.layers = o.layers + (Store1(add64(e, i), x),)
                        if st.writes is not None: st.writes.append((o.id, add64(e, i), x, len(st.pc)))
                    return
            raise Unsupported(f"array store of {n} bytes (element size {es})")
        if not isinstance(off, int):
            offb = bv(off, 64)
            step = n if s.elem_index(st, off, n) is not None else 1
            cand = []
            for c in range(0, o.size - n + 1, step):
                if s.pv.feasible(st.pc, offb == c, ms=300): cand.append(c)
                if len(cand) > 128: raise Unsupported("symbolic store offset into cells")
            if len(cand) == 1: off = cand[0]
            else:
                for c in cand:
                    old = s.load_raw(st, st.mem[o.id], c, n, 'int')
                    s.store_raw(st, st.mem[o.id], c, n, s.ite_w(offb == c, v, old, 8 * n))
                return
        cells = o.cells
        c = cells.get(off)
        if c is None or c[0] != n:
            # split overlapping cells into bytes
            for q in list(range(max(0, off - 31), off + n)):
                cc = cells.get(q)
                if cc is not None and q + cc[0] > off:
                    vv = cc[1]
                    if isinstance(vv, (Ptr, FPtr)) :
                        if q >= off and q + cc[0] <= off + n:
                            del cells[q]; continue
                        vv = s.ptr_bits(st, vv)
                    del cells[q]
                    for i in range(cc[0]):
                        if not (off <= q + i < off + n):
                            cells[q + i] = (1, (vv >> (8 * i) & 255) if isinstance(vv, int) else simp(z3.Extract(8 * i + 7, 8 * i, bv(vv, 8 * cc[0]))))
        cells[off] = (n, v)
        if st.writes is not None: st.writes.append((o.id, ('cell', off), v, len(st.pc)))
    def addr_of(s, st, objid):
        key = ("addr", objid)
        a = s._ufs.get(key)
        if a is None:
            a = z3.BitVec(f"addr_{objid}", 64)
            s._ufs[key] = a
            s._ufs[("addrinv", a.get_id())] = objid
        return a
    def ptr_bits(s, st, p):
        if isinstance(p, FPtr):
            a = z3.BitVec(f"fnaddr_{p.name}", 64)
            s._ufs[("addrinv", a.get_id())] = ("fn", p.name)
            return a
        if p.obj is None: return p.off
        return simp(s.addr_of(st, p.obj) + bv(p.off, 64))
    def resolve_ptr(s, st, v):
        if isinstance(v, (Ptr, FPtr)): return v
        v = simp(v)
        if isinstance(v, int): return Ptr(None, v)
        k = ("addrinv", v.get_id())
        if k in s._ufs:
            o = s._ufs[k]
            return FPtr(o[1]) if isinstance(o, tuple) else Ptr(o, 0)
        if v.decl().kind() == z3.Z3_OP_BADD:
            for i, ch in enumerate(v.children()):
                k = ("addrinv", ch.get_id())
                if k in s._ufs and not isinstance(s._ufs[k], tuple):
                    rest = [c for j, c in enumerate(v.children()) if j != i]
                    r = rest[0]
                    for c in rest[1:]: r = r + c
                    return Ptr(s._ufs[k], simp(r))
        h = getattr(s, "ptr_hook", None)
        if h:
            r = h(s, st, v)
            if r is not None: return r
        raise Unsupported(f"cannot resolve pointer {v}")
    def gep(s, p, off):
        if isinstance(p, Ptr): return Ptr(p.obj, add64(p.off, off))
        if isinstance(p, FPtr): raise Unsupported("gep on function pointer")
        return add64(p, off)
    def glob(s, st, name):
        id = "@" + name
        if id not in st.mem:
            if name not in s.mod.globals: raise Unsupported(f"global {name}")
            ty, init, const = s.mod.ginit(name)
            h = s.contracts.get("@" + name)
            if h:
                o = h(s, st, id, ty)
            else:
                o = Obj(id, "cells", ty.size if ty.size else 1 << 20, writable=not const, name=name)
                if init is not None and (const or True):
                    s.init_cells(st, o, 0, init)
                    zero_fill = True
                    if init is not None:
                        o.lazy = lambda ex, st, ob, off, n, k: (NULL if k == 'ptr' else 0)
                else:
                    o.lazy = lambda ex, st, ob, off, n, k: (s.undef_ptr(st) if k == 'ptr' else fresh(f"g_{name}_{off}", 8 * n))
            st.mem[id] = o
        return Ptr(id, 0)
    def init_cells(s, st, o, off, c):
        ty = c.ty
        if c.k in ('zero', 'undef') or (c.k == 'null'): return
        if c.k == 'agg':
            if ty.k == 'struct':
                for i, e in enumerate(c.ops): s.init_cells(st, o, off + ty.offs[i], e)
            else:
                sz = ty.el.size
                for i, e in enumerate(c.ops): s.init_cells(st, o, off + i * sz, e)
            return
        v = s.const(st, c)
        if isinstance(v, (bool,)): v = int(v)
        if v == 0 and isinstance(v, int): return
        o.cells[off] = (ty.store, v)
    # ------------------------------------------------------------ constants
    def const(s, st, c):
        k = c.k
        if k == 'int':
            return bool(c.v) if c.ty.k == 'int' and c.ty.w == 1 else c.v
        if k == 'null': return NULL
        if k == 'func': return FPtr(c.v)
        if k == 'global': return s.glob(st, c.v)
        if k == 'undef':
            return s.undef(c.ty)
        if k == 'zero': return s.zero(c.ty)
        if k == 'agg': return [s.const(st, x) for x in c.ops]
        if k == 'ce':
            ops = [s.const(st, x) for x in c.ops]
            if c.v == 'getelementptr':
                return s.do_gep(ops[0], c.x, ops[1:], [x.ty for x in c.ops[1:]])
            if c.v in ('bitcast', 'addrspacecast'): return ops[0]
            if c.v == 'ptrtoint': return ops[0]
            if c.v == 'inttoptr': return Ptr(None, ops[0]) if isinstance(ops[0], int) else ops[0]
            return s.binop(c.v, ops[0], ops[1], c.ty, st)
        if k == 'meta' or k == 'asm': return None
        raise Unsupported(f"constant {k}")
    def undef(s, ty):
        if ty.k in ('struct',): return [s.undef(f) for f in ty.fields]
        if ty.k in ('array', 'vector'): return [s.undef(ty.el) for _ in range(ty.n)]
        if ty.k == 'ptr': return NULL
        if ty.k == 'int' and ty.w == 1: return False
        return 0
    zero = undef
    # ------------------------------------------------------------ operators
    def uf(s, name, *sorts):
        k = (name,) + tuple(str(x) for x in sorts)
        f = s._ufs.get(k)
        if f is None:
            f = z3.Function(name, *sorts); s._ufs[k] = f
        return f
    def do_gep(s, base, srcty, idx, tys):
        off = 0
        ty = srcty
        for n, (i, t) in enumerate(zip(idx, tys)):
            if n == 0:
                sz = ty.size
            elif ty.k == 'struct':
                off = add64(off, ty.offs[int(i)]); ty = ty.fields[int(i)]; continue
            else:
                ty = ty.el; sz = ty.size
            if isinstance(i, int):
                off = add64(off, sgn(i, t.w) * sz & mask(64))
            else:
                if isinstance(i, (Ptr, FPtr)): raise Unsupported("pointer as index")
                ib = bv(i, t.w)
                ib = z3.SignExt(64 - t.w, ib) if t.w < 64 else ib
                off = add64(off, mul64(ib, sz))
        return s.gep(base, off)
    def binop(s, op, a, b, ty, st=None):
        if ty.k == 'vector':
            return [s.binop(op, x, y, ty.el, st) for x, y in zip(a, b)]
        if op[0] == 'f' and op != 'freeze': return s.fbin(op, a, b, ty.w)
        w = ty.w
        if isinstance(a, (Ptr, FPtr)) or isinstance(b, (Ptr, FPtr)):
            return s.ptr_arith(op, a, b, w, st)
        if w == 1:
            if op in ('and', 'mul'):
                if isinstance(a, (bool, int)): return b if a else False
                if isinstance(b, (bool, int)): return a if b else False
                return z3.And(tobool(a), tobool(b))
            if op == 'or':
                if isinstance(a, (bool, int)): return True if a else b
                if isinstance(b, (bool, int)): return True if b else a
                return z3.Or(tobool(a), tobool(b))
            if op in ('xor', 'add', 'sub'):
                if isinstance(a, (bool, int)) and isinstance(b, (bool, int)): return bool(a) != bool(b)
                if isinstance(a, (bool, int)): return z3.Not(tobool(b)) if a else b
                if isinstance(b, (bool, int)): return z3.Not(tobool(a)) if b else a
                return z3.Xor(tobool(a), tobool(b))
            raise Unsupported(f"i1 {op}")
        M = mask(w)
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            a, b = int(a), int(b)
            if op == 'add': return (a + b) & M
            if op == 'sub': return (a - b) & M
            if op == 'mul': return (a * b) & M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & M if b < w else 0
            if op == 'lshr': return a >> b if b < w else 0
            if op == 'ashr': return (sgn(a, w) >> min(b, w - 1)) & M
            if op in ('udiv', 'urem', 'sdiv', 'srem') :
                if b == 0:
                    if st is not None: s.oblige(st, "no integer division by zero", False)
                    raise Abort()
                if op == 'udiv': return a // b
                if op == 'urem': return a % b
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                return (q if op == 'sdiv' else x - q * y) & M
        # identities
        if op == 'add':
            if isinstance(a, int) and a == 0: return b
            if isinstance(b, int) and b == 0: return a
        elif op in ('sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            if isinstance(b, int) and b == 0: return a
        elif op == 'mul':
            if isinstance(a, int) and a == 1: return b
            if isinstance(b, int) and b == 1: return a
            if (isinstance(a, int) and a == 0) or (isinstance(b, int) and b == 0): return 0
        elif op == 'and':
            if isinstance(b, int) and b == M: return a
            if isinstance(a, int) and a == M: return b
            if (isinstance(a, int) and a == 0) or (isinstance(b, int) and b == 0): return 0
        x, y = bv(a, w), bv(b, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if not (isinstance(b, int) and b != 0) and st is not None:
                s.oblige(st, "no integer division by zero", y != 0)
            if s.nl and op in ('udiv', 'urem') and not isinstance(b, int) and st is not None:
                q, r = s.nl_divmod(st, x, y, w)
                return q if op == 'udiv' else r
            if s.div_ghost and op in ('udiv', 'urem') and isinstance(b, int) and b & (b - 1) and st is not None:
                q, r = s.divmod_ghost(st, x, b, w)
                return q if op == 'udiv' else r
            r = {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda p, q: p / q, 'srem': z3.SRem}[op](x, y)
        elif s.nl and op == 'mul' and not isinstance(a, int) and not isinstance(b, int): r = s.nl_mul(st, x, y, w)
        else:
            r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y,
                 'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y}[op]()
        return simp(r)
    # nl: products of two unknowns and divisions by unknowns are named by fresh variables; only the stated, true facts
    # about them are available to the solver (exact 32x32->64 bit products; q, r with x = q*y + r, r < y)
    nl = False
    data_mul = False     # 32-bit products of array elements: uninterpreted function (congruence only)
    def nl_named(s, st, key, terms, mk):
        if not hasattr(s, "_nl"): s._nl = {}
        if key not in s._nl: s._nl[key] = mk() + (terms,)
        res, facts, _ = s._nl[key]
        if st is not None:
            done = st.ghost.setdefault("nlf", frozenset())
            if key not in done:
                st.ghost["nlf"] = done | {key}
                for f in facts: st.assume(f)
        return res
    def prod32(s, st, x, y):
        x, y = z3.simplify(bv(x, 32)), z3.simplify(bv(y, 32))
        if z3.is_bv_value(x) or z3.is_bv_value(y): return z3.simplify(z3.ZeroExt(32, x) * z3.ZeroExt(32, y))
        if x.get_id() > y.get_id(): x, y = y, x
        def mk():
            p = fresh("prod", 64)
            return p, [z3.Implies(x == 0, p == 0), z3.Implies(y == 0, p == 0), z3.Implies(x != 0, z3.UGE(p, z3.ZeroExt(32, y))), z3.Implies(y != 0, z3.UGE(p, z3.ZeroExt(32, x))),
                z3.Implies(x == 1, p == z3.ZeroExt(32, y)), z3.Implies(y == 1, p == z3.ZeroExt(32, x)), z3.ULE(p, ((1 << 32) - 1) ** 2)]
        return s.nl_named(st, ("p", x.get_id(), y.get_id()), (x, y), mk)
    def nl_congruence(s, st, consts=()):
        """named products of equal factors are equal (also: products with the given constants)"""
        P = [(v[2], v[0]) for k, v in getattr(s, "_nl", {}).items() if k[0] == "p"]
        for n, ((x, y), p) in enumerate(P):
            for cst in consts:
                for a, b in ((x, y), (y, x)): st.assume(z3.Implies(a == cst, p == z3.ZeroExt(32, b) * cst))
            for (a, b), q in P[:n]: st.assume(z3.Implies(z3.Or(z3.And(x == a, y == b), z3.And(x == b, y == a)), p == q))
    def low32(s, x):
        x = z3.simplify(x)
        if z3.is_bv_value(x): return z3.BitVecVal(x.as_long(), 32) if x.as_long() < 1 << 32 else None
        if not z3.is_app(x): return None
        k = x.decl().kind()
        if k == z3.Z3_OP_ZERO_EXT and x.arg(0).size() <= 32: return z3.simplify(z3.ZeroExt(32 - x.arg(0).size(), x.arg(0)))
        if k == z3.Z3_OP_CONCAT and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == 0 and x.arg(0).size() >= 32: return z3.simplify(z3.Extract(31, 0, x))
        return None
    def nl_mul(s, st, x, y, w):
        lx, ly = (x, y) if w == 32 else (s.low32(x), s.low32(y)) if w == 64 else (None, None)
        if lx is not None and ly is not None and not (s.data_mul and w == 32 and (has_app(x) or has_app(y))):
            p = s.prod32(st, lx, ly)
            return p if w == 64 else z3.Extract(31, 0, p)
        so = z3.BitVecSort(w)
        f = s.uf(f"mul{w}", so, so, so)
        return z3.If(z3.ULE(x, y), f(x, y), f(y, x))
    def nl_divmod(s, st, x, y, w):
        x, y = z3.simplify(bv(x, w)), z3.simplify(bv(y, w))
        if z3.is_bv_value(y) and y.as_long() == 1: return x, z3.BitVecVal(0, w)
        def mk():
            q, r = fresh("quot", w), fresh("rem", w)
            facts = [z3.ULT(r, y), z3.ULE(r, x), z3.ULE(q, x), z3.Implies(z3.ULT(x, y), z3.And(q == 0, r == x)), z3.Implies(y == 1, z3.And(q == x, r == 0))]
            return (q, r), facts
        q, r = s.nl_named(st, ("d", x.get_id(), y.get_id(), w), (x, y), mk)
        if w == 32:
            p = s.prod32(st, q, y)
            s.nl_named(st, ("dm", x.get_id(), y.get_id()), (x, y), lambda: (None, [z3.ZeroExt(32, x) == p + z3.ZeroExt(32, r)]))
        return q, r
    div_ghost = False
    def divmod_ghost(s, st, x, c, w):
        """quotient and remainder of an unsigned division by a constant, named by fresh variables with their defining facts
        (x = q*c + r without overflow, r < c; this determines q and r uniquely)"""
        if not hasattr(s, "_dg"): s._dg, s._dgub = {}, {}
        x = simp(x)
        if isinstance(x, int): return x // c, x % c
        key = (x.get_id(), c)
        if key not in s._dg:
            ub = s._dgub.get(x.get_id(), mask(w)) // c
            q, r = fresh("quot", w), fresh("rem", w)
            s._dgub[q.get_id()] = ub
            if ub == 0: q, r, facts = 0, x, [z3.ULT(x, c)]
            else: facts = [x == q * c + r, z3.ULT(r, c), z3.ULE(q, ub), z3.ULE(q * c, x)]
            s._dg[key] = (q, r, facts, x)
        q, r, facts, _ = s._dg[key]
        done = st.ghost.setdefault("divs", frozenset())
        if key not in done:
            st.ghost["divs"] = done | {key}
            for f in facts: st.assume(f)
        return q, r
    def ptr_arith(s, op, a, b, w, st):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == 'sub' and a.obj == b.obj and w == 64:
            return simp(bv(a.off, 64) - bv(b.off, 64))
        if isinstance(a, Ptr) and op in ('add', 'sub') and not isinstance(b, (Ptr, FPtr)) and w == 64:
            return Ptr(a.obj, add64(a.off, b if op == 'add' else (simp(-bv(b, 64)) if not isinstance(b, int) else -b & mask(64))))
        if isinstance(b, Ptr) and op == 'add' and w == 64 and not isinstance(a, (Ptr, FPtr)):
            return Ptr(b.obj, add64(b.off, a))
        x = s.ptr_bits(st, a) if isinstance(a, (Ptr, FPtr)) else a
        y = s.ptr_bits(st, b) if isinstance(b, (Ptr, FPtr)) else b
        class T: pass
        t = T(); t.k, t.w = 'int', w
        return s.binop(op, x, y, t, st)
    def fbin(s, op, a, b, w):
        if s.float_mode == 'ieee':
            if isinstance(a, int) and isinstance(b, int) and w in (32, 64):
                import numpy as np
                with np.errstate(all="ignore"):
                    dt, it = (np.float32, np.uint32) if w == 32 else (np.float64, np.uint64)
                    x, y = np.array([a], it).view(dt), np.array([b], it).view(dt)
                    r = {'fadd': x + y, 'fsub': x - y, 'fmul': x * y}.get(op)
                    if op == 'fdiv': r = x / y
                    if r is not None and not np.isnan(r[0]): return int(r.view(it)[0])
            x, y = tofp(a, w), tofp(b, w)
            rm = z3.RNE()
            if op == 'fadd': return z3.fpAdd(rm, x, y)
            if op == 'fsub': return z3.fpSub(rm, x, y)
            if op == 'fmul': return z3.fpMul(rm, x, y)
            if op == 'fdiv': return z3.fpDiv(rm, x, y)
            raise Unsupported(op)
        x, y = bv(a, w), bv(b, w)
        so = z3.BitVecSort(w)
        if op in ('fadd', 'fmul'):
            if getattr(s, "comm_ite", False):      # commutative by construction
                f = s.uf(f"{op}{w}", so, so, so)
                return z3.If(z3.ULE(x, y), f(x, y), f(y, x))
            if str(x) > str(y): x, y = y, x
        return s.uf(f"{op}{w}", so, so, so)(x, y)
    def icmp(s, st, pred, a, b, ty):
        if ty.k == 'vector':
            return [s.icmp(st, pred, x, y, ty.el) for x, y in zip(a, b)]
        if isinstance(a, (Ptr, FPtr)) or isinstance(b, (Ptr, FPtr)):
            return s.pcmp(st, pred, a, b)
        w = ty.w
        if w == 1:
            if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
                r = int(bool(a)), int(bool(b))
                a, b = r
                return {'eq': a == b, 'ne': a != b, 'ugt': a > b, 'ult': a < b, 'uge': a >= b, 'ule': a <= b}[pred]
            x, y = tobool(a), tobool(b)
            if pred == 'eq': return simp(x == y)
            if pred == 'ne': return simp(z3.Xor(x, y))
            a, b = bv(x, 1), bv(y, 1)
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            a, b = int(a), int(b)
            if pred[0] == 's': a, b = sgn(a, w), sgn(b, w)
            p = pred[-2:]
            return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p]
        x, y = bv(a, w), bv(b, w)
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
             'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'sgt': lambda: x > y, 'sge': lambda: x >= y,
             'slt': lambda: x < y, 'sle': lambda: x <= y}[pred]()
        return simp(r)
    def pcmp(s, st, pred, a, b):
        a = a if isinstance(a, (Ptr, FPtr)) else (Ptr(None, a) if isinstance(a, int) else a)
        b = b if isinstance(b, (Ptr, FPtr)) else (Ptr(None, b) if isinstance(b, int) else b)
        if isinstance(a, FPtr) or isinstance(b, FPtr):
            if isinstance(a, FPtr) and isinstance(b, FPtr): same = a.name == b.name
            elif is_sym(a) or is_sym(b): raise Unsupported("function pointer compare")
            else: same = False
            return same if pred == 'eq' else not same
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                class T: k, w = 'int', 64
                # pointers into one object: offsets order (objects do not wrap)
                return s.icmp(st, pred, a.off, b.off, T)
            if pred in ('eq', 'ne'):
                # distinct objects / null never compare equal.  One-past-the-end aliasing is excluded.
                for x, y in ((a, b), (b, a)):
                    if x.obj is None and isinstance(x.off, int) and x.off != 0:
                        r = s.addr_of(st, y.obj) + bv(y.off, 64) == x.off
                        return r if pred == 'eq' else z3.Not(r)
                return pred == 'ne'
            if a.obj is None and isinstance(a.off, int) and a.off == 0: 
                return pred in ('ult', 'ule', 'slt', 'sle')
            if b.obj is None and isinstance(b.off, int) and b.off == 0:
                return pred in ('ugt', 'uge', 'sgt', 'sge')
        x = s.ptr_bits(st, a) if isinstance(a, Ptr) else a
        y = s.ptr_bits(st, b) if isinstance(b, Ptr) else b
        class T: k, w = 'int', 64
        return s.icmp(st, pred, x, y, T)
    def fcmp(s, pred, a, b, ty):
        if ty.k == 'vector': return [s.fcmp(pred, x, y, ty.el) for x, y in zip(a, b)]
        w = ty.w
        if pred == 'false': return False
        if pred == 'true': return True
        if s.float_mode == 'ieee':
            x, y = tofp(a, w), tofp(b, w)
            un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
            core = {'eq': lambda: z3.fpEQ(x, y), 'gt': lambda: z3.fpGT(x, y), 'ge': lambda: z3.fpGEQ(x, y),
                    'lt': lambda: z3.fpLT(x, y), 'le': lambda: z3.fpLEQ(x, y), 'ne': lambda: z3.Not(z3.fpEQ(x, y))}
            if pred == 'ord': return simp(z3.Not(un))
            if pred == 'uno': return simp(un)
            c = core[pred[1:]]()
            if pred[0] == 'o': return simp(z3.And(z3.Not(un), c) if pred == 'one' else c)
            return simp(z3.Or(un, c) if pred != 'une' else c)
        # uninterpreted, normalised to olt / oeq / uno
        so = z3.BitVecSort(w)
        x, y = bv(a, w), bv(b, w)
        lt = lambda p, q: s.uf(f"flt{w}", so, so, z3.BoolSort())(p, q)
        def feq(p, q):
            if str(p) > str(q): p, q = q, p
            return s.uf(f"feq{w}", so, so, z3.BoolSort())(p, q)
        def uno(p, q):
            n = s.uf(f"fnan{w}", so, z3.BoolSort())
            return z3.Or(n(p), n(q))
        t = {'olt': lambda: lt(x, y), 'ogt': lambda: lt(y, x), 'oeq': lambda: feq(x, y), 'ole': lambda: z3.Or(lt(x, y), feq(x, y)),
             'oge': lambda: z3.Or(lt(y, x), feq(x, y)), 'one': lambda: z3.Or(lt(x, y), lt(y, x)), 'uno': lambda: uno(x, y),
             'ord': lambda: z3.Not(uno(x, y)), 'une': lambda: z3.Not(feq(x, y)),
             'ult': lambda: z3.Or(lt(x, y), uno(x, y)), 'ugt': lambda: z3.Or(lt(y, x), uno(x, y)),
             'ule': lambda: z3.Or(lt(x, y), feq(x, y), uno(x, y)), 'uge': lambda: z3.Or(lt(y, x), feq(x, y), uno(x, y)),
             'ueq': lambda: z3.Or(feq(x, y), uno(x, y))}
        return t[pred]()
    def cast(s, st, op, v, t0, t1):
        if op == 'bitcast' and (t0.k == 'vector' or t1.k == 'vector'):
            return s.vec_bitcast(v, t0, t1)
        if t1.k == 'vector': return [s.cast(st, op, x, t0.el, t1.el) for x in v]
        if op == 'bitcast':
            if t1.k == 'float' and s.float_mode == 'ieee' and is_sym(v) and not s.raw_float: return tofp(v, t1.w)
            if t0.k == 'float' and t1.k == 'int' and is_sym(v): return bv(v, t1.w)
            return v
        if op in ('ptrtoint',):
            if t1.w < 64:
                v = s.ptr_bits(st, v) if isinstance(v, (Ptr, FPtr)) else v
                return v & mask(t1.w) if isinstance(v, int) else simp(z3.Extract(t1.w - 1, 0, v))
            return v if not (isinstance(v, Ptr) and v.obj is None) else v.off
        if op == 'inttoptr':
            if isinstance(v, (Ptr, FPtr)): return v
            if isinstance(v, int): return Ptr(None, v)
            try: return s.resolve_ptr(st, v if t0.w == 64 else z3.ZeroExt(64 - t0.w, v))
            except Unsupported: return v
        w0, w1 = t0.w, t1.w
        if op in ('trunc', 'zext', 'sext'):
            if isinstance(v, (Ptr, FPtr)): v = s.ptr_bits(st, v)
            if isinstance(v, (int, bool)):
                v = int(v)
                if op == 'trunc':
                    v &= mask(w1)
                    return bool(v) if w1 == 1 else v
                if op == 'zext': return v
                return sgn(v, w0) & mask(w1)
            if op == 'trunc':
                if w1 == 1: return simp(z3.Extract(0, 0, v) == 1)
                return simp(z3.Extract(w1 - 1, 0, v))
            if z3.is_bool(v):
                return simp(z3.If(v, z3.BitVecVal(1 if op == 'zext' else mask(w1), w1), z3.BitVecVal(0, w1)))
            if op == 'zext': return simp(s.zext_split(st, v, w0, w1))
            return simp(s.sext_split(st, v, w0, w1))
        so0, so1 = z3.BitVecSort(w0), z3.BitVecSort(w1)
        if s.float_mode == 'ieee':
            rm = z3.RNE()
            if op in ('fptrunc', 'fpext'): return z3.fpFPToFP(rm, tofp(v, w0), FS[w1])
            if op == 'uitofp': return z3.fpUnsignedToFP(rm, bv(v, w0), FS[w1])
            if op == 'sitofp': return z3.fpSignedToFP(rm, bv(v, w0), FS[w1])
            if op == 'fptoui': return z3.fpToUBV(z3.RTZ(), tofp(v, w0), z3.BitVecSort(w1))
            if op == 'fptosi': return z3.fpToSBV(z3.RTZ(), tofp(v, w0), z3.BitVecSort(w1))
        else:
            if op in ('uitofp', 'sitofp') and isinstance(v, (int, bool)):
                x = sgn(int(v), w0) if op == 'sitofp' else int(v)
                if abs(x) < 1 << (24 if w1 == 32 else 53 if w1 == 64 else 11):      # exactly representable
                    import struct
                    return int.from_bytes(struct.pack({16: '<e', 32: '<f', 64: '<d'}[w1], float(x)), 'little')
            if op in ('fptrunc', 'fpext', 'uitofp', 'sitofp', 'fptoui', 'fptosi'):
                return s.uf(f"{op}_{w0}_{w1}", so0, so1)(bv(v, w0))
        raise Unsupported(op)
    def vec_bitcast(s, v, t0, t1):
        w0 = t0.el.w if t0.k == 'vector' else t0.w
        src = list(v) if t0.k == 'vector' else [v]
        w1 = t1.el.w if t1.k == 'vector' else t1.w
        n1 = t1.n if t1.k == 'vector' else 1
        ek = (t1.el if t1.k == 'vector' else t1)
        out = []
        if w0 == w1: out = src
        elif w0 < w1:
            r = w1 // w0
            for i in range(n1):
                ps = src[i * r:(i + 1) * r]
                if all(isinstance(p, int) for p in ps): out.append(sum((p & mask(w0)) << (w0 * j) for j, p in enumerate(ps)))
                else: out.append(simp(z3.Concat(*[bv(p, w0) for p in reversed(ps)])))
        else:
            r = w0 // w1
            for x in src:
                for j in range(r):
                    out.append((x >> (w1 * j)) & mask(w1) if isinstance(x, int) else simp(z3.Extract(w1 * (j + 1) - 1, w1 * j, bv(x, w0))))
        if ek.k == 'float' and s.float_mode == 'ieee': out = [tofp(x, w1) if is_sym(x) else x for x in out]
        elif ek.k == 'int': out = [bv(x, w1) if is_sym(x) else x for x in out]
        return out if t1.k == 'vector' else out[0]
    def zext_split(s, st, v, w0, w1):
        """zext(a+b) -> zext(a)+zext(b) where provably overflow free (keeps addresses linear)"""
        if z3.is_app(v) and v.decl().kind() in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL) and s.lin_zext and st is not None:
            chs = v.children()
            mulop = v.decl().kind() == z3.Z3_OP_BMUL
            # negative constants: x + (-c)
            parts = []
            for c in chs:
                if not mulop and z3.is_bv_value(c) and c.as_long() >> (w0 - 1):
                    parts.append(z3.BitVecVal(sgn(c.as_long(), w0) & mask(w1), w1))
                elif (not mulop and c.decl().kind() == z3.Z3_OP_BMUL and z3.is_bv_value(c.arg(0)) and c.arg(0).as_long() >> (w0 - 1) and c.num_args() == 2):
                    parts.append(z3.BitVecVal(sgn(c.arg(0).as_long(), w0) & mask(w1), w1) * z3.ZeroExt(w1 - w0, c.arg(1)))
                else: parts.append(z3.ZeroExt(w1 - w0, c))
            e = parts[0]
            for p in parts[1:]: e = e * p if mulop else e + p
            if s.pv.prove(st.pc, z3.ZeroExt(w1 - w0, v) == e, full=False)[0] == "proved":
                out = None
                for c, p in zip(chs, parts):
                    q = s.zext_split(st, c, w0, w1) if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_ZERO_EXT else p
                    out = q if out is None else (out * q if mulop else out + q)
                return out
        return z3.ZeroExt(w1 - w0, v)
    lin_zext = True
    def sext_split(s, st, v, w0, w1):
        if s.lin_zext and st is not None and z3.is_app(v) and v.decl().kind() in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_EXTRACT, z3.Z3_OP_ZERO_EXT):
            if s.pv.prove(st.pc, v >= 0, full=False)[0] == "proved":
                return s.zext_split(st, v, w0, w1)
            if v.decl().kind() == z3.Z3_OP_BADD:
                parts = [z3.SignExt(w1 - w0, c) for c in v.children()]
                e = parts[0]
                for p in parts[1:]: e = e + p
                if s.pv.prove(st.pc, z3.SignExt(w1 - w0, v) == e, full=False)[0] == "proved": return e
        return z3.SignExt(w1 - w0, v)
    def select(s, c, a, b, ty):
        if ty.k == 'vector':
            cs = c if isinstance(c, list) else [c] * ty.n
            return [s.select(x, y, z, ty.el) for x, y, z in zip(cs, a, b)]
        if isinstance(c, (bool, int)): return a if c else b
        c = tobool(c)
        if ty.k == 'struct': return [s.select(c, y, z, f) for y, z, f in zip(a, b, ty.fields)]
        r = ite(c, a, b)
        if r is None: r = z3.If(c, bv(a, ty.w), bv(b, ty.w)) if ty.w > 1 else simp(z3.If(c, tobool(a), tobool(b)))
        return simp(r)

class Abort(Exception):
    """path ends (program error already reported or noreturn call)"""
