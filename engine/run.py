"""Interpreter: control flow, calls, intrinsics, loops (see sx.py)."""
import time, re
import z3
from sx import *
import ir, sx

class Multi:
    """contract result with several outcomes: list of (state, kind, value), kind in ret/raise/stop"""
    def __init__(s, items): s.items = items
RAISE = object()

class Stop:
    def __init__(s, depth, fn, header, blocks): s.depth, s.fn, s.header, s.blocks = depth, fn, header, blocks

class LoopSpec:
    """mode: auto | unroll | cut ; cands: fn(ctx)->list of Eq/Pred/Content"""
    """defs: fn(ctx)->fn(k)->facts: instances (at iteration k) of the recursive definition of a fresh ghost function, assumed
       havoc: fn(ctx, pre, event): the loop is verified for an arbitrary iteration starting from unknown array contents;
              the hook states the obligations of one iteration (per-iteration contract); contents after the loop stay unknown
       havoc_pre: fn(ctx, pre): facts about the contents of this iteration's own part of memory (the caller of the
              contract justifies them by disjointness of the iterations)
       rename: 32-bit induction variables get a name of their own (ctx.names[target] == their value) in the loop body"""
    def __init__(s, mode="auto", cands=None, unroll=None, defs=None, havoc=None, havoc_pre=None, rename=False, entry=None, gen=None, back=None):
        s.entry, s.gen, s.back = entry, gen, back
        s.mode, s.cands, s.unroll, s.defs, s.havoc, s.havoc_pre, s.rename = mode, cands, unroll, defs, havoc, havoc_pre, rename
class Eq:
    def __init__(s, target, fn, name="eq"): s.target, s.fn, s.name = target, fn, name
class Pred:
    def __init__(s, fn, name="pred"): s.fn, s.name = fn, name
class Content:
    """content of array object at iteration k: fn(k) -> (x, prev) -> value"""
    def __init__(s, obj, fn, name="content"): s.obj, s.fn, s.name = obj, fn, name

class LoopCtx: pass

def locals_in(e, marker, allow):
    """does e mention fresh symbols created at or after 'marker' (other than 'allow')?"""
    if not is_sym(e): return False
    seen, stk = set(), [e]
    while stk:
        x = stk.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            m = re.search(r"!(\d+)$", n)
            if m and int(m.group(1)) >= marker and n not in allow: return True
        stk.extend(x.children())
    return False

class Exec(Executor):
    dry = False
    # ------------------------------------------------------------ obligations in dry runs are only assumed
    def oblige(s, st, name, goal, hint=None, detail=None):
        if s.dry:
            if isinstance(goal, bool):
                if not goal: pass
            else: st.assume(goal)
            return True
        return super().oblige(st, name, goal, hint, detail)

    # ------------------------------------------------------------ entry points
    def push_frame(s, st, fn, args, inst=None, va=None):
        f = Frame()
        f.fn, f.regs, f.args, f.allocas, f.inst, f.va = fn, {}, args, [], inst, va
        f.blk, f.ip, f.prev = s.mod.blocks(fn)[0], 0, None
        st.frames.append(f)
        s.called.add(fn.dname)
        for i, ty in fn.byval.items():      # byval aggregate: private copy
            p = s.new_cells(st, ty.size, "byval")
            s.mem_copy(st, p, args[i], ty.size)
            f.args = list(f.args); f.args[i] = p; f.allocas.append(p.obj)
        if len(st.frames) > 200: raise Unsupported("call depth")
    def call(s, st, fn, args, va=None):
        """run fn to completion from state st; returns [(kind, state, value)] with kind ret / unwind"""
        if isinstance(fn, str): fn = s.mod.fn(fn)
        base = len(st.frames)
        s.push_frame(st, fn, args, None, va)
        out = []
        for e in s.explore(st, base):
            if e[0] == 'ret': out.append(('ret', e[1], e[2]))
            elif e[0] == 'unwind': out.append(('unwind', e[1], None))
            elif e[0] == 'stop': out.append(('stop', e[1], None))
        return out
    def explore(s, st, base, stop=None, enter=None):
        work, ev = [], []
        if enter is not None:
            frm, to = enter
            if s.goto(st, frm, to, base, stop, work, ev, force=True): work.append(st)
        else: work.append(st)
        while work:
            t = work.pop()
            try: s.run_path(t, base, stop, work, ev)
            except Abort: pass
            if len(work) + len(ev) > s.max_states: raise Budget("too many paths")
        return ev

    # ------------------------------------------------------------ values
    def val(s, st, f, v):
        k = v.k
        if k == 'inst': return f.regs[v.v]
        if k == 'arg': return f.args[v.v]
        return s.const(st, v)

    # ------------------------------------------------------------ control flow
    def goto(s, st, frm, to, base, stop, work, ev, force=False):
        """transfer control along edge frm->to.  True: continue running st in 'to'"""
        f = st.frames[-1]
        if not force:
            if stop is not None and len(st.frames) == stop.depth and f.fn is stop.fn:
                if to.idx == stop.header: ev.append(('back', st, frm, to)); return False
                if to.idx not in stop.blocks: ev.append(('exit', st, frm, to)); return False
            loops = s.mod.loops(f.fn)
            L = loops.get(to.idx)
            if L is not None and (frm is None or frm.idx not in L):
                for e in s.do_loop(st, frm, to, L, base):
                    if e[0] == 'exit':
                        if s.goto(e[1], e[2], e[3], base, stop, work, ev): work.append(e[1])
                    elif e[0] == 'unwind':
                        s.unwind(e[1], base, stop, work, ev)
                    else: ev.append(e)
                return False
        s.enter(st, f, frm, to)
        return True
    def enter(s, st, f, frm, to):
        if to.phis:
            vals = []
            for p in to.phis:
                for b, v in p.x:
                    if b is frm: vals.append((p.id, s.val(st, f, v))); break
                else: raise Unsupported("phi edge")
            for i, v in vals: f.regs[i] = v
        f.blk, f.ip, f.prev = to, len(to.phis), frm
    def branch(s, st, cond):
        """feasible outcomes of a symbolic condition"""
        c = simp(cond)
        if isinstance(c, (bool, int)): return [(st, bool(c))]
        c = tobool(c)
        a = s.pv.feasible(st.pc, c)
        b = s.pv.feasible(st.pc, z3.Not(c)) if a else True
        if a and b:
            t = st.copy()
            st.pc.append(c); t.pc.append(z3.simplify(z3.Not(c)))
            return [(st, True), (t, False)]
        if a: st.pc.append(c); return [(st, True)]
        nc = z3.simplify(z3.Not(c))
        st.pc.append(nc)
        return [(st, False)]

    def run_path(s, st, base, stop, work, ev):
        while True:
            s.steps += 1
            if s.steps > s.max_steps: raise Budget("step limit")
            if s.t_end and (s.steps & 63) == 0 and time.time() > s.t_end: raise Budget("time limit")
            f = st.frames[-1]
            ins = f.blk.insts[f.ip]
            op = ins.op
            if op == 'br':
                if len(ins.x) == 1:
                    if not s.goto(st, f.blk, ins.x[0], base, stop, work, ev): return
                    continue
                c = s.val(st, f, ins.ops[0])
                outs = s.branch(st, c)
                blk = f.blk
                cont = None
                for t, b in outs[1:]:
                    if s.goto(t, blk, ins.x[0 if b else 1], base, stop, work, ev): work.append(t)
                t, b = outs[0]
                if not s.goto(t, blk, ins.x[0 if b else 1], base, stop, work, ev): return
                continue
            if op == 'switch':
                v = simp(s.val(st, f, ins.ops[0]))
                w = ins.ops[0].ty.w
                dflt, cases = ins.x
                blk = f.blk
                if isinstance(v, (int, bool)):
                    to = dflt
                    for c, b in cases:
                        if c == int(v): to = b
                    if not s.goto(st, blk, to, base, stop, work, ev): return
                    continue
                groups = {}
                for c, b in cases: groups.setdefault(b.idx, (b, []))[1].append(c)
                rest = []
                for b, cs in groups.values():
                    cond = z3.Or([bv(v, w) == c for c in cs])
                    rest.append(z3.Not(cond))
                    if b is dflt: continue
                    if s.pv.feasible(st.pc, cond):
                        t = st.copy(); t.pc.append(cond)
                        if s.goto(t, blk, b, base, stop, work, ev): work.append(t)
                dc = z3.And([z3.Not(z3.Or([bv(v, w) == c for c in cs])) for b, cs in groups.values() if b is not dflt] or [z3.BoolVal(True)])
                if s.pv.feasible(st.pc, dc):
                    st.pc.append(dc)
                    if s.goto(st, blk, dflt, base, stop, work, ev): work.append(st)
                return
            if op == 'ret':
                v = s.val(st, f, ins.ops[0]) if ins.ops else None
                s.pop_frame(st)
                if len(st.frames) == base:
                    ev.append(('ret', st, v)); return
                if not s.after_call(st, f.inst, v, base, stop, work, ev): return
                continue
            if op in ('call', 'invoke'):
                if not s.do_call(st, f, ins, base, stop, work, ev): return
                continue
            if op == 'unreachable':
                s.at_unreachable(st)
                return
            if op == 'resume':
                s.unwind_from(st, base, stop, work, ev)
                return
            try: s.simple(st, f, ins)
            except ForkSelect as e:
                t = st.copy()
                t.pc.append(z3.simplify(z3.Not(tobool(e.c)))); t.frames[-1].regs[ins.id] = e.b; t.frames[-1].ip += 1
                work.append(t)
                st.pc.append(tobool(e.c)); f.regs[ins.id] = e.a
            f.ip += 1
    def at_unreachable(s, st):
        pass
    def pop_frame(s, st):
        f = st.frames.pop()
        for a in f.allocas:
            st.mem.pop(a, None)
    def after_call(s, st, inst, v, base, stop, work, ev):
        f = st.frames[-1]
        if v is not None or inst.ty.k != 'void': f.regs[inst.id] = v
        if inst.op == 'invoke':
            return s.goto(st, f.blk, inst.x[1], base, stop, work, ev)
        f.ip += 1
        return True
    def unwind(s, st, base, stop, work, ev):
        """an exception propagates out of the frame that was just popped / out of a callee of the top frame"""
        s.unwind_at(st, base, stop, work, ev)
    def unwind_at(s, st, base, stop, work, ev):
        # st.frames[-1] is positioned at the call instruction that raised
        while True:
            if len(st.frames) <= base:
                ev.append(('unwind', st)); return
            if stop is not None and len(st.frames) < stop.depth:
                ev.append(('unwind', st)); return
            f = st.frames[-1]
            ins = f.blk.insts[f.ip]
            if ins.op == 'invoke':
                st.exc = True
                if s.goto(st, f.blk, ins.x[2], base, stop, work, ev): work.append(st)
                return
            s.pop_frame(st)
    def unwind_from(s, st, base, stop, work, ev):
        s.pop_frame(st)
        s.unwind_at(st, base, stop, work, ev)

    # ------------------------------------------------------------ simple instructions
    def simple(s, st, f, ins):
        op, ops = ins.op, ins.ops
        V = lambda i: s.val(st, f, ops[i])
        if op == 'alloca':
            n = V(0)
            ty = ins.x
            if not isinstance(n, int):
                r = s.alloca_array(st, ty, n)
            elif ty.k == 'array' and ty.el.k in ('int', 'float') and ty.n > 64 and ty.el.size * 8 == ty.el.w:
                r = s.new_array(st, ty.el.size, ty.n * n, "stk")
            else:
                r = s.new_cells(st, ty.size * n, "stk")
            f.allocas.append(r.obj)
        elif op == 'load': r = s.load(st, V(0), ins.ty)
        elif op == 'store':
            s.store(st, V(1), V(0), ops[0].ty); return
        elif op == 'getelementptr':
            b = V(0)
            if isinstance(b, list): raise Unsupported("vector gep")
            r = s.do_gep_st(st, b, ins.x, [V(i) for i in range(1, len(ops))], [o.ty for o in ops[1:]])
        elif op == 'icmp': r = s.icmp(st, ins.x, V(0), V(1), ops[0].ty)
        elif op == 'fcmp': r = s.fcmp(ins.x, V(0), V(1), ops[0].ty)
        elif op == 'select':
            c, a, b = V(0), V(1), V(2)
            try: r = s.select(c, a, b, ins.ty)
            except Unsupported:
                r = s.select_ptr(st, c, a, b)
        elif op in ('trunc', 'zext', 'sext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            r = s.cast(st, op, V(0), ops[0].ty, ins.ty) if op != 'addrspacecast' else V(0)
        elif op == 'fneg':
            r = s.fneg(V(0), ins.ty)
        elif op == 'extractvalue':
            r = V(0)
            for i in ins.x: r = r[i]
        elif op == 'insertvalue':
            r = s.insval(V(0), ins.x, V(1))
        elif op == 'extractelement':
            i = V(1)
            if not isinstance(i, int): raise Unsupported("extractelement")
            r = V(0)[i]
        elif op == 'insertelement':
            i = V(2)
            if not isinstance(i, int): raise Unsupported("insertelement")
            r = list(V(0)); r[i] = V(1)
        elif op == 'shufflevector':
            a = list(V(0)) + list(V(1))
            z = s.undef(ins.ty.el)
            r = [a[i] if i >= 0 else z for i in ins.x]
        elif op == 'freeze': r = V(0)
        elif op == 'landingpad': r = [NULL, 0]
        elif op == 'fence': return
        elif op == 'atomicrmw':
            p = V(0); v = V(1); t = ops[1].ty
            r = s.load(st, p, t)
            if ins.x == 'xchg': n = v
            elif ins.x in ('add', 'sub', 'and', 'or', 'xor'): n = s.binop(ins.x, r, v, t, st)
            else: raise Unsupported("atomicrmw " + str(ins.x))
            s.store(st, p, n, t)
        elif op == 'cmpxchg':
            p, c, n = V(0), V(1), V(2); t = ops[1].ty
            o = s.load(st, p, t)
            e = s.icmp(st, 'eq', o, c, t)
            s.store(st, p, s.select(e, n, o, t) if not isinstance(e, bool) else (n if e else o), t)
            r = [o, e]
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            r = s.binop(op, V(0), V(1), ins.ty, st)
        else: raise Unsupported("instruction " + op)
        f.regs[ins.id] = r
    def do_gep_st(s, st, b, sty, idx, tys):
        # widen narrow indices with overflow reasoning first
        idx2, tys2 = [], []
        for i, t in zip(idx, tys):
            idx2.append(i); tys2.append(t)
        return s.do_gep(b, sty, idx2, tys2)
    def select_ptr(s, st, c, a, b):
        # decide the condition if the path fixes it
        ca = s.pv.feasible(st.pc, tobool(c)); cb = s.pv.feasible(st.pc, z3.Not(tobool(c)))
        if ca and not cb: return a
        if cb and not ca: return b
        raise ForkSelect(c, a, b)
    def alloca_array(s, st, ty, n):
        if ty.k in ('int', 'float') and ty.w == 8 * ty.size:
            return s.new_array(st, ty.size, simp(bv(n, 64)), "stk")
        raise Unsupported("variable-size alloca")
    def fneg(s, v, ty):
        if ty.k == 'vector': return [s.fneg(x, ty.el) for x in v]
        w = ty.w
        if isinstance(v, int): return v ^ (1 << (w - 1))
        if s.float_mode == 'ieee' and not (s.raw_float and not z3.is_fp(v)): return z3.fpNeg(tofp(v, w))
        return simp(bv(v, w) ^ z3.BitVecVal(1 << (w - 1), w))
    def insval(s, a, idx, v):
        a = list(a)
        if len(idx) == 1: a[idx[0]] = v
        else: a[idx[0]] = s.insval(a[idx[0]], idx[1:], v)
        return a

    # ------------------------------------------------------------ calls
    def find_contract(s, name):
        c = s.contracts.get(name)
        if c: return c
        fn = s.mod.fns.get(name)
        if fn is None: return None
        c = s.contracts.get(fn.dname)
        if c: return c
        return s.contracts.get(fn.dname.split("(")[0])
    def do_call(s, st, f, ins, base, stop, work, ev):
        callee, nd, ud = ins.x
        if callee.k == 'asm':
            if ins.ty.k == 'void' and True:
                f.ip += 1; return True        # empty asm barrier
            raise Unsupported("inline asm")
        if callee.k == 'func': name = callee.v
        else:
            t = s.val(st, f, callee)
            if not isinstance(t, FPtr):
                t = s.resolve_ptr(st, t)
            if not isinstance(t, FPtr): 
                s.oblige(st, "memory safety: call through invalid function pointer", False); return False
            name = t.name
        if name.startswith("llvm."):
            if name.startswith("llvm.dbg") or name.startswith("llvm.lifetime") or name.startswith("llvm.assume") or name.startswith("llvm.experimental.noalias"):
                f.ip += 1; return True
            args = [s.val(st, f, o) if o.k != 'meta' else None for o in ins.ops]
            r = s.intrinsic(st, name, args, ins)
            return s.after_call(st, ins, r, base, stop, work, ev)
        args = [s.val(st, f, o) for o in ins.ops]
        if s.trace_calls and not s.dry:
            fn = s.mod.fns.get(name); print("  " * len(st.frames), fn.dname[:100] if fn else name, args)
        c = s.find_contract(name)
        if c is not None:
            s.contracted.add(s.mod.fns[name].dname if name in s.mod.fns else name)
            r = c(s, st, args, ins)
            if r is RAISE:
                st.exc = True
                s.unwind_at(st, base, stop, work, ev); return False
            if isinstance(r, Multi):
                for t, kind, v in r.items:
                    if kind == 'raise': 
                        t.exc = True
                        s.unwind_at(t, base, stop, work, ev)
                    elif kind == 'stop': ev.append(('stop', t))
                    elif kind == 'ret':
                        if s.after_call(t, ins, v, base, stop, work, ev): work.append(t)
                return False
            return s.after_call(st, ins, r, base, stop, work, ev)
        fn = s.mod.fns.get(name)
        if fn is None or fn.decl:
            r = s.external(st, name, fn, args, ins)
            if r is RAISE:
                s.unwind_at(st, base, stop, work, ev); return False
            return s.after_call(st, ins, r, base, stop, work, ev)
        np = fn.nparams
        if any(p in fn.dname for p in s.merge_fns):
            # run callee to completion and merge its outcomes
            outs = s.merged_call(st, fn, args[:np], args[np:])
            for e in outs:
                if e[0] == 'ret':
                    if s.after_call(e[1], ins, e[2], base, stop, work, ev): work.append(e[1])
                elif e[0] == 'unwind': s.unwind_at(e[1], base, stop, work, ev)
                else: ev.append(e)
            return False
        s.push_frame(st, fn, args[:np], ins, [(a, o.ty) for a, o in zip(args[np:], ins.ops[np:])])
        return True
    def merged_call(s, st, fn, args, va):
        n = len(st.pc)
        base = len(st.frames)
        s.push_frame(st, fn, args, None, va)
        evs = s.explore(st, base)
        rets = [(e[1], e[2]) for e in evs if e[0] == 'ret']
        other = [e for e in evs if e[0] != 'ret']
        m = s.merge_states([(t, n, [v]) for t, v in rets])
        return [('ret', t, vs[0]) for t, vs in m] + other

    def merge_states(s, items):
        """items: (state, pc length of the common prefix, values).  Merge what can be merged."""
        if len(items) <= 1: return [(t, vs) for t, n, vs in items]
        out = []
        for t, n, vs in items:
            for i, (u, m, ws) in enumerate(out):
                r = s.try_merge(u, m, ws, t, n, vs)
                if r is not None:
                    out[i] = r; break
            else: out.append((t, n, vs))
        return [(t, vs) for t, n, vs in out]
    def try_merge(s, a, n, va, b, m, vb):
        # a-side condition
        k = min(n, m)
        try:
            ca = z3.And(a.pc[k:]) if len(a.pc) > k else z3.BoolVal(True)
            cb = z3.And(b.pc[k:]) if len(b.pc) > k else z3.BoolVal(True)
            if a.exc != b.exc or a.ghost_key() != b.ghost_key(): return None
            if len(a.frames) != len(b.frames): return None
            r = a.copy()
            def mv(x, y, w=None):
                if x is y: return x
                if isinstance(x, Ptr) and isinstance(y, Ptr):
                    if x.obj != y.obj: raise Unsupported("merge ptr")
                    if not is_sym(x.off) and not is_sym(y.off):
                        return x if x.off == y.off else Ptr(x.obj, z3.If(ca, bv(x.off, 64), bv(y.off, 64)))
                    if is_sym(x.off) and is_sym(y.off) and x.off.eq(y.off): return x
                    return Ptr(x.obj, simp(z3.If(ca, bv(x.off, 64), bv(y.off, 64))))
                if isinstance(x, FPtr) and isinstance(y, FPtr) and x.name == y.name: return x
                if isinstance(x, list) and isinstance(y, list): return [mv(p, q, w) for p, q in zip(x, y)]
                if x is None or y is None: return None
                if isinstance(x, (Ptr, FPtr)) or isinstance(y, (Ptr, FPtr)): raise Unsupported("merge ptr")
                if not is_sym(x) and not is_sym(y):
                    if int(x) == int(y): return x
                    if isinstance(x, bool) or isinstance(y, bool): return z3.If(ca, z3.BoolVal(bool(x)), z3.BoolVal(bool(y)))
                    if w is None: raise Unsupported("merge width")
                    if w == 1: return z3.If(ca, z3.BoolVal(bool(x)), z3.BoolVal(bool(y)))
                    return z3.If(ca, z3.BitVecVal(x, w), z3.BitVecVal(y, w))
                if is_sym(x) and is_sym(y) and x.eq(y): return x
                q = ite(ca, x, y)
                return simp(q)
            for fr, fb in zip(r.frames, b.frames):
                if fr.fn is not fb.fn or fr.ip != fb.ip or fr.blk is not fb.blk: return None
                regs = {}
                B = s.reg_types(fr.fn)
                for i, x in fr.regs.items():
                    if i in fb.regs:
                        try: regs[i] = mv(x, fb.regs[i], B.get(i))
                        except Unsupported: 
                            if fr is r.frames[-1] and False: raise
                            regs[i] = None
                fr.regs = regs
            for id in set(a.mem) | set(b.mem):
                oa, ob = a.mem.get(id), b.mem.get(id)
                if oa is ob: continue
                if oa is None or ob is None:
                    o = oa or ob
                    r.mem[id] = o; continue
                if oa.alive != ob.alive: return None
                o = oa.clone(r.tok)
                if oa.kind == "cells":
                    if oa.size is not ob.size and (is_sym(oa.size) or is_sym(ob.size) or oa.size != ob.size): return None
                    for off in set(oa.cells) | set(ob.cells):
                        x, y = oa.cells.get(off), ob.cells.get(off)
                        if x is None or y is None:
                            sz = (x or y)[0]
                            src = a if x is None else b
                            v = s.load_raw(src, src.mem[id], off, sz, 'ptr' if isinstance((x or y)[1], (Ptr, FPtr)) else 'int')
                            if x is None: x = (sz, v)
                            else: y = (sz, v)
                        if x[0] != y[0]: return None
                        o.cells[off] = (x[0], mv(x[1], y[1], 8 * x[0]))
                else:
                    p = 0
                    la, lb = oa.layers, ob.layers
                    while p < len(la) and p < len(lb) and la[p] is lb[p]: p += 1
                    if p < len(la) or p < len(lb):
                        oa2, ob2 = oa.clone(None), ob.clone(None)
                        o.layers = la[:p] + (LayerFn(lambda x, prev, oa2=oa2, ob2=ob2, ca=ca: z3.If(ca, bv(s.arr_read(oa2, x), 8 * oa2.es), bv(s.arr_read(ob2, x), 8 * ob2.es))),)
                r.mem[id] = o
            vals = [mv(x, y) for x, y in zip(va, vb)]
            r.pc = a.pc[:k] + [z3.simplify(z3.Or(ca, cb))]
            # re-key: merged path condition keeps the distinguishing condition implicit
            return (r, k, vals)
        except Unsupported:
            return None
    def reg_types(s, fn):
        c = getattr(s, "_rt", None)
        if c is None: c = s._rt = {}
        if fn.name not in c:
            c[fn.name] = {i.id: i.ty.w for b in s.mod.blocks(fn) for i in b.insts if i.ty.k in ('int', 'float')}
        return c[fn.name]

    # ------------------------------------------------------------ intrinsics / libc
    def intrinsic(s, st, name, a, ins):
        ty = ins.ty
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            s.mem_copy(st, a[0], a[1], a[2]); return None
        if name.startswith("llvm.memset"):
            s.mem_set(st, a[0], a[1], a[2]); return None
        if name.startswith("llvm.expect") or name.startswith("llvm.threadlocal.address"): return a[0]
        if name.startswith("llvm.objectsize"): return mask(ty.w)
        if name.startswith("llvm.stacksave"): return NULL
        if name.startswith("llvm.stackrestore"): return None
        if name.startswith("llvm.va_start"): s.va_start(st, a[0]); return None
        if name.startswith("llvm.va_end"): return None
        if name.startswith("llvm.va_copy"): s.mem_copy(st, a[0], a[1], 24); return None
        if name.startswith("llvm.trap"): 
            s.oblige(st, "no trap reached", False); raise Abort()
        m = re.match(r"llvm\.(u|s)(min|max)\.", name)
        if m:
            c = s.icmp(st, m.group(1) + ('lt' if m.group(2) == 'min' else 'gt'), a[0], a[1], ty)
            return s.select(c, a[0], a[1], ty)
        if name.startswith("llvm.abs."):
            c = s.icmp(st, 'slt', a[0], 0, ty)
            return s.select(c, s.binop('sub', 0, a[0], ty, st), a[0], ty)
        m = re.match(r"llvm\.([us])(add|sub|mul)\.with\.overflow", name)
        if m:
            t = ty.fields[0]
            r = s.binop(m.group(2), a[0], a[1], t, st)
            w = t.w
            x, y = bv(a[0], w), bv(a[1], w)
            e = (lambda v: z3.ZeroExt(w, v)) if m.group(1) == 'u' else (lambda v: z3.SignExt(w, v))
            full = {'add': e(x) + e(y), 'sub': e(x) - e(y), 'mul': e(x) * e(y)}[m.group(2)]
            return [r, simp(full != e(bv(r, w)))]
        m = re.match(r"llvm\.(ctlz|cttz|ctpop|bswap|bitreverse|fshl|fshr)\.", name)
        if m: return s.bitop(m.group(1), a, ty)
        m = re.match(r"llvm\.(fabs|sqrt|floor|ceil|trunc|rint|round|roundeven|nearbyint|minnum|maxnum|copysign|fma|fmuladd|sin|cos|exp|exp2|log|log2|pow)\.", name)
        if m: return s.fintr(m.group(1), a, ty)
        if name.startswith("llvm.x86.vcvtps2ph"):
            imm = a[1]
            rm = {0: z3.RNE(), 1: z3.RTN(), 2: z3.RTP(), 3: z3.RTZ()}[0 if imm & 4 else imm & 3]   # 4: MXCSR, assumed to round to nearest even
            out = []
            for x in a[0]:
                if isinstance(x, int): x = tofp(x, 32)
                h = z3.fpFPToFP(rm, x, FS[16])
                out.append(simp(z3.If(z3.fpIsNaN(x), z3.BitVecVal(0x7e00, 16) | fresh("nanbits", 16) & 0x81ff, z3.fpToIEEEBV(h))))
            return out + [0] * (8 - len(out))
        if name.startswith("llvm.is.constant"): return False
        if name.startswith("llvm.eh.typeid"): return 1
        if name.startswith("llvm.ptrmask"): raise Unsupported(name)
        raise Unsupported("intrinsic " + name)
    def bitop(s, op, a, ty):
        w = ty.w
        x = a[0]
        if isinstance(x, int):
            if op == 'ctlz': return w - x.bit_length()
            if op == 'cttz': return (x & -x).bit_length() - 1 if x else w
            if op == 'ctpop': return bin(x).count("1")
            if op == 'bswap': return int.from_bytes(x.to_bytes(w // 8, 'little'), 'big')
        xb = bv(x, w)
        if op == 'ctpop':
            r = z3.BitVecVal(0, w)
            for i in range(w): r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, xb))
            return r
        if op == 'ctlz':
            r = z3.BitVecVal(w, w)
            for i in range(w): r = z3.If(z3.Extract(i, i, xb) == 1, z3.BitVecVal(w - 1 - i, w), r)
            return r
        if op == 'cttz':
            r = z3.BitVecVal(w, w)
            for i in reversed(range(w)): r = z3.If(z3.Extract(i, i, xb) == 1, z3.BitVecVal(i, w), r)
            return r
        if op == 'bswap':
            return simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, xb) for i in range(w // 8)]))
        if op == 'bitreverse':
            return simp(z3.Concat(*[z3.Extract(i, i, xb) for i in range(w)]))
        if op in ('fshl', 'fshr'):
            y, c = bv(a[1], w), bv(a[2], w)
            cc = z3.URem(c, w)
            cat = z3.Concat(xb, y)
            if op == 'fshl': return simp(z3.Extract(2 * w - 1, w, cat << z3.ZeroExt(w, cc)))
            return simp(z3.Extract(w - 1, 0, z3.LShR(cat, z3.ZeroExt(w, cc))))
    def fintr(s, op, a, ty):
        if ty.k == 'vector': return [s.fintr(op, list(x), ty.el) for x in zip(*a)]
        w = ty.w
        if s.float_mode == 'ieee':
            x = tofp(a[0], w)
            rm = z3.RNE()
            if op == 'fabs': return simp(a[0] & z3.BitVecVal(mask(w) >> 1, w)) if s.raw_float and z3.is_bv(a[0]) else z3.fpAbs(x)
            if op == 'sqrt': return z3.fpSqrt(rm, x)
            if op == 'floor': return z3.fpRoundToIntegral(z3.RTN(), x)
            if op == 'ceil': return z3.fpRoundToIntegral(z3.RTP(), x)
            if op == 'trunc': return z3.fpRoundToIntegral(z3.RTZ(), x)
            if op in ('rint', 'roundeven', 'nearbyint'): return z3.fpRoundToIntegral(rm, x)
            if op == 'round': return z3.fpRoundToIntegral(z3.RNA(), x)
            if op == 'minnum': return z3.fpMin(x, tofp(a[1], w))
            if op == 'maxnum': return z3.fpMax(x, tofp(a[1], w))
            if op == 'fma': return z3.fpFMA(rm, x, tofp(a[1], w), tofp(a[2], w))
            if op == 'fmuladd': return z3.fpAdd(rm, z3.fpMul(rm, x, tofp(a[1], w)), tofp(a[2], w))
        x = [bv(v, w) for v in a]
        if op == 'fabs': return simp(x[0] & z3.BitVecVal(mask(w) >> 1, w))
        if op == 'fmuladd': return s.fbin('fadd', s.fbin('fmul', a[0], a[1], w), a[2], w)
        so = z3.BitVecSort(w)
        if op == 'fma' and getattr(s, "comm_ite", False):      # commutative by construction
            f = s.uf(f"f.fma{w}", so, so, so, so)
            return z3.If(z3.ULE(x[0], x[1]), f(x[0], x[1], x[2]), f(x[1], x[0], x[2]))
        return s.uf(f"f.{op}{w}", *([so] * (len(x) + 1)))(*x)
    def libcall_f(s, name, a, ty):
        m = {'sqrtf': 'sqrt', 'sqrt': 'sqrt', 'fabsf': 'fabs', 'fabs': 'fabs', 'floorf': 'floor', 'floor': 'floor', 'ceilf': 'ceil', 'ceil': 'ceil',
             'truncf': 'trunc', 'trunc': 'trunc', 'rintf': 'rint', 'rint': 'rint', 'nearbyintf': 'rint', 'nearbyint': 'rint', 'roundf': 'round', 'round': 'round',
             'fmaf': 'fma', 'fma': 'fma', 'copysignf': 'copysign', 'copysign': 'copysign', 'fminf': 'minnum', 'fmin': 'minnum', 'fmaxf': 'maxnum', 'fmax': 'maxnum'}
        return m.get(name)
    def va_start(s, st, ap):
        f = st.frames[-1]
        nfix = f.fn.nparams
        reg = s.new_cells(st, 176, "va_regs"); over = s.new_cells(st, 8 * 64, "va_over")
        gp = 0; nf = 0; oo = 0
        # fixed params occupy gp registers first
        fixed_gp = sum(1 for p in f.fn.params if p.ty.k in ('int', 'ptr'))
        fixed_fp = sum(1 for p in f.fn.params if p.ty.k == 'float')
        gp, nf = fixed_gp, fixed_fp
        for v, ty in (f.va or []):
            if ty.k == 'float':
                if nf < 8: s.store(st, s.gep(reg, 48 + 16 * nf), v, ty); nf += 1; continue
            elif gp < 6:
                s.store_wide(st, s.gep(reg, 8 * gp), v, ty); gp += 1; continue
            s.store_wide(st, s.gep(over, oo), v, ty); oo += 8
        i32 = _T('int', 32); p64 = _T('ptr', 64)
        s.store(st, ap, min(fixed_gp, 6) * 8, i32)
        s.store(st, s.gep(ap, 4), 48 + 16 * min(fixed_fp, 8), i32)
        s.store(st, s.gep(ap, 8), over, p64)
        s.store(st, s.gep(ap, 16), reg, p64)
    def store_wide(s, st, p, v, ty):
        s.store(st, p, v, ty)
    def mem_copy(s, st, dst, src, n):
        n = simp(n)
        if isinstance(n, int) and n == 0: return
        if not isinstance(n, int):
            nz = s.pv.feasible(st.pc, n != 0)
            if not nz: return
        if not isinstance(n, int) and not (isinstance(dst, Ptr) and dst.obj is not None and isinstance(src, Ptr) and src.obj is not None):
            # null with possibly-zero size
            bad = dst if not (isinstance(dst, Ptr) and dst.obj is not None) else src
            s.oblige(st, "memory safety: memcpy with null pointer has size zero", n == 0)
            return
        dst, do = s.obj(st, dst, "memcpy destination"); src, so = s.obj(st, src, "memcpy source")
        if isinstance(n, int) and (do.kind == "cells" or so.kind == "cells") and n <= 4096:
            s.bounds(st, do, dst.off, n, "memcpy write"); s.bounds(st, so, src.off, n, "memcpy read")
            if do.kind == "cells" and so.kind == "cells" and isinstance(dst.off, int) and isinstance(src.off, int):
                cells = [(off - src.off, c) for off, c in st.mem[so.id].cells.items() if off >= src.off and off + c[0] <= src.off + n]
                cover = sorted(cells, key=lambda t: t[0])
                pos = 0
                moves = []
                for off, (sz, v) in cover:
                    if off < pos: continue
                    for b in range(pos, off): moves.append((b, 1, None))
                    moves.append((off, sz, v)); pos = off + sz
                # keep untouched gaps lazy: materialise in 8-byte units when lazily defined
                b = pos
                while b < n:
                    u = 1
                    moves.append((b, u, None)); b += u
                if not cover and n in (2, 4): moves = [(0, n, None)]
                if not cover and n % 8 == 0:
                    moves = [(b, 8, None) for b in range(0, n, 8)]
                elif so.lazy is not None:
                    # coalesce byte gaps
                    mv2, i = [], 0
                    while i < len(moves):
                        o_, z_, v_ = moves[i]
                        if v_ is None and z_ == 1:
                            j = i
                            while j < len(moves) and moves[j][2] is None and moves[j][1] == 1 and moves[j][0] == o_ + (j - i): j += 1
                            L = j - i
                            p = o_
                            while L > 0:
                                for u in (8, 4, 2, 1):
                                    if u <= L and (src.off + p) % u == 0: break
                                mv2.append((p, u, None)); p += u; L -= u
                            i = j
                        else: mv2.append(moves[i]); i += 1
                    moves = mv2
                for off, sz, v in moves:
                    if v is None:
                        def hits(o, a): return any(q in o.cells and q + o.cells[q][0] > a for q in range(max(0, a - 31), a + sz))
                        if so.lazy is None and not hits(st.mem[so.id], src.off + off):
                            # copy of uninitialised bytes: the destination becomes unconstrained
                            if not hits(st.mem[do.id], dst.off + off): continue
                            s.store_raw(st, st.mem[do.id], dst.off + off, sz, fresh("uninit_copy", 8 * sz)); continue
                        v = s.load_raw(st, st.mem[so.id], src.off + off, sz, 'int')
                    if not do.writable: s.oblige(st, f"frame: store into read-only object {do.name}", False)
                    s.store_raw(st, st.mem[do.id], dst.off + off, sz, v)
                return
            u = do.es if do.kind == "array" else so.es
            if n % u: u = 1
            for i in range(0, n, u):
                v = s.load_raw(st, st.mem[so.id], add64(src.off, i), u, 'int')
                if not do.writable: s.oblige(st, f"frame: store into read-only object {do.name}", False)
                s.store_raw(st, st.mem[do.id], add64(dst.off, i), u, v)
            return
        if do.kind != "array" or so.kind != "array":
            raise Unsupported("memcpy of symbolic size into/from non-array")
        es = do.es
        if so.es != es: raise Unsupported("memcpy between different element sizes")
        d0, s0, cnt = s.elem_index(st, dst.off, es), s.elem_index(st, src.off, es), s.elem_index(st, n, es)
        if d0 is None or s0 is None or cnt is None: raise Unsupported("memcpy alignment")
        s.range_ok(st, do, d0, cnt, "memcpy write"); s.range_ok(st, so, s0, cnt, "memcpy read")
        if not do.writable: s.oblige(st, f"frame: store into read-only object {do.name}", False)
        snap = st.mem[so.id].clone(None)
        if st.reads is not None: st.reads.append((so.id, ('range', s0, cnt), len(st.pc)))
        s.range_write(st, do.id, d0, cnt, lambda x: s.arr_read(snap, bv(x, 64) - bv(d0, 64) + bv(s0, 64)))
    def range_ok(s, st, o, e0, cnt, what):
        if not o.alive: s.oblige(st, f"memory safety: {what} of released object {o.name}", False); raise Abort()
        total = s.elem_count(o)
        if total is None: raise Unsupported("object size")
        s.oblige(st, f"memory safety: {what} range within {o.name}",
                 z3.And(z3.ULE(bv(cnt, 64), bv(total, 64)), z3.ULE(bv(e0, 64), bv(total, 64) - bv(cnt, 64))))
    def range_write(s, st, objid, e0, cnt, valfn):
        o = st.wobj(objid)
        e0b, cb = bv(e0, 64), bv(cnt, 64)
        o.layers = o.layers + (LayerFn(lambda x, prev: z3.If(z3.ULT(x - e0b, cb), bv(valfn(x), 8 * o.es), bv(prev(x), 8 * o.es)),
                                       ('range', e0, cnt, valfn)),)
        if st.writes is not None: st.writes.append((objid, ('range', e0, cnt, valfn), None, len(st.pc)))
    def mem_set(s, st, dst, v, n):
        n = simp(n)
        if isinstance(n, int) and n == 0: return
        dst, do = s.obj(st, dst, "memset")
        vb = bv(v, 8) if not isinstance(v, int) else v
        if do.kind == "cells":
            if not isinstance(n, int): raise Unsupported("symbolic memset of cells")
            s.bounds(st, do, dst.off, n, "memset")
            if isinstance(dst.off, int):
                b = 0
                while b < n:
                    for u in (8, 4, 2, 1):
                        if b + u <= n and (dst.off + b) % u == 0: break
                    val = sum((v & 255) << (8 * i) for i in range(u)) if isinstance(v, int) else simp(z3.Concat(*[vb] * u) if u > 1 else vb)
                    s.store_raw(st, st.mem[do.id], dst.off + b, u, val); b += u
                return
            for b in range(n): s.store_raw(st, st.mem[do.id], add64(dst.off, b), 1, v)
            return
        es = do.es
        d0, cnt = s.elem_index(st, dst.off, es), s.elem_index(st, n, es)
        if d0 is None or cnt is None: raise Unsupported("memset alignment")
        s.range_ok(st, do, d0, cnt, "memset")
        if not do.writable: s.oblige(st, f"frame: store into read-only object {do.name}", False)
        val = bv(v, 8)
        if es > 1: val = z3.simplify(z3.Concat(*[val] * es))
        s.range_write(st, do.id, d0, cnt, lambda x: val)
    def external(s, st, name, fn, args, ins):
        fl = s.libcall_f(name, args, ins.ty)
        if fl: return s.fintr(fl, args, ins.ty)
        if name in ("memcpy", "memmove", "__memcpy_chk"): s.mem_copy(st, args[0], args[1], args[2]); return args[0]
        if name == "memset": s.mem_set(st, args[0], args[1] if isinstance(args[1], int) else z3.Extract(7, 0, args[1]), args[2]); return args[0]
        if name in ("__cxa_begin_catch", "__cxa_get_exception_ptr"): return NULL
        if name == "__cxa_end_catch": return None
        if name == "__clang_call_terminate" or name in ("_ZSt9terminatev", "abort", "__assert_fail", "exit", "_exit"):
            s.oblige(st, f"program does not reach {name}", False); raise Abort()
        if name in ("_Znwm", "_Znam", "malloc", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"): return s.ext_new(st, args[0])
        if name in ("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvmSt11align_val_t"): s.ext_delete(st, args[0], args[1] if 'Pvm' in name else None); return None
        if name in ("fprintf", "printf", "puts", "fputs", "fflush", "fputc", "putchar", "vfprintf", "vprintf"): return 0     # diagnostics only
        if name == "strlen": return s.ext_strlen(st, args[0])
        if name in ("strncmp", "strcmp", "memcmp", "bcmp"): return s.ext_cmp(st, name, args)
        raise Unsupported("external function " + (fn.dname if fn else name))
    def ext_new(s, st, n):
        n = simp(n)
        if isinstance(n, int): return s.new_cells(st, n, "heap")
        es = s.heap_es if hasattr(s, "heap_es") else 1
        cnt = s.div_exact(n, es)
        if cnt is None: raise Unsupported("heap size")
        return s.new_array(st, es, cnt, "heap")
    def ext_delete(s, st, p, n=None):
        if not isinstance(p, Ptr): p = s.resolve_ptr(st, p)
        if p.obj is None: return
        o = st.mem[p.obj]
        s.oblige(st, f"memory safety: release of {o.name} is the start of a live allocation", z3.BoolVal(o.alive) if isinstance(p.off, int) and p.off == 0 and o.name.startswith("heap") else False)
        if n is not None:
            s.oblige(st, f"sized release passes the allocation size of {o.name}", eq(n, o.size, 64))
        o = st.wobj(p.obj); o.alive = False
    def ext_cmp(s, st, name, args):
        """byte-wise comparison; the length (or the terminator of one side) must be concrete"""
        n = simp(args[2]) if len(args) > 2 else 4096
        if not isinstance(n, int): raise Unsupported(name + " with symbolic length")
        if n == 0: return 0
        a, oa = s.obj(st, args[0], name); b, ob = s.obj(st, args[1], name)
        r = []; open_ = z3.BoolVal(True)
        for i in range(n):
            pa, pb = add64(a.off, i), add64(b.off, i)
            s.bounds(st, st.mem[oa.id], pa, 1, name); s.bounds(st, st.mem[ob.id], pb, 1, name)
            x = simp(s.load_raw(st, st.mem[oa.id], pa, 1, 'int')); y = simp(s.load_raw(st, st.mem[ob.id], pb, 1, 'int'))
            r.append((x, y))
            if name.startswith("str"):
                if (isinstance(x, int) and x == 0) or (isinstance(y, int) and y == 0): break
                if isinstance(x, int) and isinstance(y, int) and x != y: break
        res = z3.BitVecVal(0, 32)
        for x, y in reversed(r):
            xb, yb = bv(x, 8), bv(y, 8)
            d = z3.ZeroExt(24, xb) - z3.ZeroExt(24, yb)
            if name.startswith("str"): res = z3.If(xb != yb, d, z3.If(xb == 0, z3.BitVecVal(0, 32), res))
            else: res = z3.If(xb != yb, d, res)
        return simp(res)
    def ext_strlen(s, st, p):
        p, o = s.obj(st, p, "strlen")
        if o.kind == "cells" and isinstance(p.off, int):
            n = 0
            while True:
                b = s.byte_at(st, st.mem[o.id], p.off + n)
                b = simp(b)
                if not isinstance(b, int): raise Unsupported("strlen of symbolic text")
                if b == 0: return n
                n += 1
        raise Unsupported("strlen")

    # ------------------------------------------------------------ loops
    def loop_spec(s, st, fn, header):
        for pat, fnc in s.loopspecs:
            if pat in fn.dname:
                r = fnc(fn, header)
                if r is not None: return r
        return LoopSpec()
    def do_loop(s, st, frm, header, blocks, base):
        fn = st.frames[-1].fn
        spec = s.loop_spec(st, fn, header)
        stop = Stop(len(st.frames), fn, header.idx, blocks)
        if spec.mode == "inv": return s.inv_loop(st, frm, header, stop, base, spec)
        if spec.mode != "cut":
            r = s.unroll(st.copy(), frm, header, stop, base, spec)
            if r is not None: return r
        return s.summarise(st, frm, header, blocks, stop, base, spec)
    def unroll(s, st, frm, header, stop, base, spec):
        nobs = len(s.obs)
        outs, cur = [], [(st, frm)]
        limit = spec.unroll or (s.unroll_max if spec.mode == "unroll" else 4096)
        n = 0
        while cur:
            n += 1
            if n > limit:
                if spec.mode == "unroll":
                    for t, _ in cur: s.oblige(t, f"loop in {stop.fn.dname.split('(')[0]} ends within {limit} iterations", False)
                    return outs
                del s.obs[nobs:]
                raise Unsupported("unroll limit")
            nxt = []
            for t, fr in cur:
                k = len(t.pc)
                snap = None
                evs = s.explore(t, base, stop, enter=(fr, header))
                backs = [e for e in evs if e[0] == 'back']; rest = [e for e in evs if e[0] != 'back']
                exits = [e for e in rest if e[0] == 'exit']
                if backs and exits and spec.mode != "unroll":
                    del s.obs[nobs:]
                    return None
                outs += rest
                if len(backs) > 1:
                    for e in backs: e[1].frames[-1].ip = 0
                    # all backs come from (possibly different) latches: merge those with the same source block
                    by = {}
                    for e in backs: by.setdefault(e[2].idx, []).append(e)
                    for es in by.values():
                        for e in es: e[1].frames[-1].blk = es[0][2]
                        for t2, _ in s.merge_states([(e[1], k, []) for e in es]): nxt.append((t2, es[0][2]))
                else: nxt += [(e[1], e[2]) for e in backs]
            cur = nxt
            if len(cur) > 256: raise Budget("too many loop states")
        return outs

    def inv_loop(s, st, frm, header, stop, base, spec):
        """classical loop rule with a user supplied invariant: spec.entry(ex, st, phis) states that it holds on entry,
        spec.gen(ex, st, phis) turns st into an arbitrary state that satisfies it (returning the values of the phis),
        spec.back(ex, pre, st, phis) states that one iteration preserves it; phis: {id: (type, value)}"""
        f = st.frames[-1]; f.blk = frm if frm is not None else f.blk
        def at(t, b):
            fr = t.frames[-1]; r = {}
            for p in header.phis:
                for q, v in p.x:
                    if q is b: r[p.id] = (p.ty, s.val(t, fr, v))
            return r
        ph = at(st, frm); lname = stop.fn.dname.split("(")[0] + " loop"
        if spec.entry: spec.entry(s, st, ph)
        t = st.copy(); vals = spec.gen(s, t, ph) if spec.gen else {k: v for k, (_, v) in ph.items()}
        fr = t.frames[-1]
        for p in header.phis: fr.regs[p.id] = vals[p.id]
        fr.prev = frm; fr.blk = header; fr.ip = len(header.phis)
        pre = t.copy(); outs = []; evs = s.explore(t, base, stop)
        for e in evs:
            if e[0] == 'back': spec.back(s, pre, e[1], at(e[1], e[2]))
            else: outs.append(e)
        s.covers[f"{lname}: body reachable"] = s.covers.get(f"{lname}: body reachable", False) or any(e[0] == 'back' for e in evs)
        return outs

    # -- value <-> "generic iteration" representation
    def summarise(s, st0, frm, header, blocks, stop, base, spec):
        fn = stop.fn
        lname = f"{fn.dname.split('(')[0]} loop@{sorted(s.mod.loops(fn)).index(header.idx)}"
        marker = next(sx._fresh)
        f0 = st0.frames[-1]
        f0.blk = frm if frm is not None else f0.blk
        phis = header.phis
        init = {}
        for p in phis:
            for b, v in p.x:
                if b is frm: init[('phi', p.id)] = s.val(st0, f0, v)
        pty = {('phi', p.id): p.ty for p in phis}
        k = z3.BitVec(f"k!{next(sx._fresh)}", 64)
        kname = k.decl().name()
        step = {}           # target -> constant step (induction) ; absent: accumulator
        accfn = {}          # target -> UF
        targets = list(init)
        arrays = {}         # objid -> mid function (unknown content)
        contents = {}       # objid -> fn(k)->(x,prev)
        eqs = {}            # target -> fn(k)
        allow = {kname}
        ctx = LoopCtx()
        ctx.ex, ctx.st0, ctx.init, ctx.fn, ctx.header, ctx.k = s, st0, init, fn, header, k
        ctx.phis, ctx.blocks, ctx.step, ctx.accs, ctx.tname = phis, blocks, step, [], {}
        ctx.names, ctx.subst = {}, {}
        def unname(e): return z3.substitute(e, *ctx.subst.values()) if ctx.subst and is_sym(e) else Ptr(e.obj, unname(e.off)) if isinstance(e, Ptr) and is_sym(e.off) else e
        def tw(t):
            if t[0] == 'phi': return pty[t].w
            return 8 * t[3]
        def value_at(t, kk):
            v0 = init[t]
            if t in eqs: return eqs[t](kk)
            if t in step:
                c = step[t]
                if isinstance(v0, Ptr): return Ptr(v0.obj, simp(bv(v0.off, 64) + kk * z3.BitVecVal(c & mask(64), 64)) if c else v0.off)
                if c == 0: return v0
                w = tw(t)
                if w == 1: raise Unsupported("bool induction")
                if w == 64: return simp(bv(v0, 64) + kk * z3.BitVecVal(c & mask(64), 64))
                return z3.Extract(w - 1, 0, z3.ZeroExt(64 - w, bv(v0, w)) + kk * z3.BitVecVal(sgn(c, w) & mask(64), 64))
            g = accfn.get(t)
            if g is None:
                nm = f"acc!{next(sx._fresh)}"
                allow.add(nm)
                if isinstance(v0, Ptr): g = z3.Function(nm, z3.BitVecSort(64), z3.BitVecSort(64))
                elif isinstance(v0, FPtr): raise Unsupported("function pointer accumulator")
                elif isinstance(v0, list): raise Unsupported("aggregate accumulator")
                else:
                    w = tw(t)
                    if is_sym(v0) and z3.is_fp(v0): g = z3.Function(nm, z3.BitVecSort(64), v0.sort())
                    else: g = z3.Function(nm, z3.BitVecSort(64), z3.BoolSort() if w == 1 and t[0] == 'phi' else z3.BitVecSort(w))
                accfn[t] = g
            r = g(kk)
            return Ptr(v0.obj, r) if isinstance(v0, Ptr) else r
        preds = []          # alive Pred invariants
        ctx.value_at = value_at
        defs = None
        if spec.defs is not None:
            defs = spec.defs(ctx)
            st0.pc.extend(defs(z3.BitVecVal(0, 64)))
        def make(kk, extra_pc):
            t = st0.copy()
            fr = t.frames[-1]
            t.pc.append(z3.ULT(kk, z3.BitVecVal(1 << 62, 64)))
            for tg in targets:
                v = value_at(tg, kk)
                if tg[0] == 'phi':
                    if spec.rename and tg not in eqs and (step.get(tg) or spec.rename == "all" and tg not in step) and not isinstance(v, (Ptr, FPtr)) and tw(tg) == 32:
                        if tg not in ctx.names: ctx.names[tg] = z3.BitVec(f"it!{next(sx._fresh)}", 32)
                        nm = ctx.names[tg]; t.pc.append(nm == v); ctx.subst[tg] = (nm, v); v = nm
                    fr.regs[tg[1]] = v
                else:
                    o = t.wobj(tg[1]); o.cells[tg[2]] = (tg[3], v)
            for oid, mid in arrays.items():
                o = t.wobj(oid)
                if oid in contents:
                    cf = contents[oid](kk)
                    o.layers = o.layers + (LayerFn(cf),)
                else:
                    o.layers = o.layers + (LayerFn(lambda x, prev, mid=mid: mid(x)),)
            fr.prev = frm; fr.blk = header; fr.ip = len(phis)
            env = LoopCtx(); env.k = kk; env.val = lambda tg: value_at(tg, kk); env.st = t; env.ex = s; env.init = init
            env.read = lambda oid, x, t=t: s.arr_read(t.mem[oid], x)
            for c in preds: t.pc.append(c.fn(env))
            for c in extra_pc: t.pc.append(c)
            if defs is not None: t.pc.extend(defs(kk))
            if spec.havoc_pre is not None: spec.havoc_pre(ctx, t)
            return t
        def next_val(e, tg):
            t = e[1]
            fr = t.frames[-1]
            if tg[0] == 'phi':
                p = next(q for q in phis if q.id == tg[1])
                for b, v in p.x:
                    if b is e[2]: return unname(s.val(t, fr, v))
                raise Unsupported("latch")
            o = t.mem.get(tg[1])
            if o is None: raise Unsupported("object vanished in loop")
            c = o.cells.get(tg[2])
            if c is None or c[0] != tg[3]: raise Unsupported("cell layout changes in loop")
            return c[1]
        def body(kk, extra=()):
            t = make(kk, list(extra))
            n = len(t.pc)
            if spec.havoc is not None: ctx.pre = t.copy()
            evs = s.explore(t, base, stop)
            return evs, n
        old_dry = s.dry
        s.dry = True
        try:
            # ---- discover what the loop modifies and classify
            for rnd in range(12):
                mark = {oid: len(st0.mem[oid].layers) + (1 if oid in arrays else 0) for oid in st0.mem if st0.mem[oid].kind == "array"}
                hist = s._hist(st0, k, None, None) if False else []
                evs, n = body(k)
                changed = False
                backs = [e for e in evs if e[0] == 'back']
                newt = []
                for e in backs:
                    t = e[1]
                    for oid, o in t.mem.items():
                        o0 = st0.mem.get(oid)
                        if o0 is None or o is o0: continue
                        if not o.alive == o0.alive: raise Unsupported("loop releases memory")
                        if o.kind == "cells":
                            for off, (sz, v) in o.cells.items():
                                key = ('cell', oid, off, sz)
                                if key in init: continue
                                c0 = o0.cells.get(off)
                                if c0 is None or c0[0] != sz:
                                    if c0 is None and o0.lazy is not None:
                                        # materialise the initial value in the pre-state
                                        s.load_raw(st0, st0.mem[oid], off, sz, 'ptr' if isinstance(v, Ptr) else 'int')
                                        c0 = st0.mem[oid].cells.get(off); changed = True
                                    elif c0 is None:
                                        st0.wobj(oid).cells[off] = (sz, fresh(f"uninit_{o.name}_{off}", 8 * sz) if not isinstance(v, (Ptr,FPtr)) else NULL)
                                        c0 = st0.mem[oid].cells.get(off); changed = True
                                        if isinstance(v, (Ptr, FPtr)): raise Unsupported("uninit ptr in loop")
                                    else: raise Unsupported("cell layout changes in loop")
                                if c0[0] == sz and not same(c0[1], v):
                                    newt.append((key, c0[1]))
                        else:
                            if len(o.layers) > mark.get(oid, 0) and oid not in arrays:
                                arrays[oid] = z3.Function(f"mid!{next(sx._fresh)}", z3.BitVecSort(64), z3.BitVecSort(8 * o.es))
                                changed = True
                for key, v in newt:
                    if key not in init:
                        init[key] = v; targets.append(key); changed = True
                # classification of scalars
                for tg in targets:
                    if tg in step or any(tg == x[0] for x in newt): continue
                    if tg in eqs: continue
                    cs = set()
                    for e in backs:
                        try: nv = next_val(e, tg)
                        except Unsupported: cs.add(None); break
                        cv = value_at(tg, k)
                        cs.add(const_diff(s, e[1], nv, cv, tw(tg)))
                    if len(cs) == 1 and None not in cs:
                        c = cs.pop()
                        w = tw(tg)
                        if w == 1 and c != 0: continue
                        if isinstance(init[tg], Ptr) and False: pass
                        step[tg] = c; changed = True
                if not changed: break
            else: raise Unsupported("loop does not stabilise")
            if not backs:
                # the body never loops back: run once
                s.dry = old_dry
                return s.explore(st0, base, stop, enter=(frm, header))
            ctx.accs = [t for t in targets if t not in step]
            ctx.arrays = arrays
            ctx.targets = targets
            ctx.value_at = value_at
            # ---- candidates
            cands = list(s.auto_cands(ctx))
            if spec.cands: cands += spec.cands(ctx)
            for h in getattr(s, "cand_hooks", []): cands += h(ctx)
            s.dry = True
            # base checks
            k0 = z3.BitVecVal(0, 64)
            env0 = LoopCtx(); env0.k = k0; env0.val = lambda tg: init[tg]; env0.st = st0; env0.ex = s; env0.init = init
            env0.read = lambda oid, x: s.arr_read(st0.mem[oid], x)
            eqc = {}
            for c in cands:
                if isinstance(c, Eq):
                    try: g = s.eqv(init[c.target], c.fn(k0))
                    except Unsupported: continue
                    if s.pv.prove(st0.pc, g, full=False)[0] == "proved": eqc.setdefault(c.target, []).append(c)
                elif isinstance(c, Pred):
                    if s.pv.prove(st0.pc, c.fn(env0), full=False)[0] == "proved": preds.append(c)
                elif isinstance(c, Content): contents[c.obj] = c.fn; arrays.setdefault(c.obj, None)
            for tg, cl in eqc.items(): eqs[tg] = cl[0].fn
            # ---- Houdini
            guess_arrays = {oid for oid in arrays if oid not in contents} if spec.havoc is None else set()
            hist_fn = None
            for rnd in range(40):
                extra = [hist_fn(k)] if hist_fn is not None else []
                evs, n = body(k, extra)
                backs = [e for e in evs if e[0] == 'back']
                drop = False
                k1 = simp(k + 1)
                for tg in list(eqs):
                    ok = True
                    for e in backs:
                        try: g = s.eqv(next_val(e, tg), eqs[tg](k1))
                        except Unsupported: ok = False; break
                        if s.pv.prove(e[1].pc, g, full=spec.mode == "cut")[0] != "proved": ok = False; break
                    if not ok:
                        cl = eqc[tg]; cl.pop(0)
                        if cl: eqs[tg] = cl[0].fn
                        else: del eqs[tg]
                        drop = True
                if drop: hist_fn = None; continue
                for c in list(preds):
                    for e in backs:
                        env = LoopCtx(); env.k = k1; env.st = e[1]; env.ex = s; env.init = init
                        env.val = lambda tg, e=e: next_val(e, tg)
                        env.read = lambda oid, x, e=e: s.arr_read(e[1].mem[oid], x)
                        try: g = c.fn(env); r = s.pv.prove(e[1].pc, g, full=False)[0]
                        except Unsupported: r = "no"
                        if r != "proved":
                            preds.remove(c); drop = True; break
                if drop: hist_fn = None; continue
                if hist_fn is None:
                    conds = []
                    for e in backs:
                        cs = [c for c in map(unname, e[1].pc[n:]) if not locals_in(c, marker, allow)]
                        conds.append(z3.And(cs) if cs else z3.BoolVal(True))
                    B = z3.simplify(z3.Or(conds))
                    hist_fn = lambda kk, B=B: z3.Or(kk == 0, z3.substitute(B, (k, kk - 1)))
                    hist_raw = lambda j, B=B: z3.substitute(B, (k, j))
                    if not z3.is_true(B): continue
                if guess_arrays:
                    for oid in list(guess_arrays):
                        contents[oid] = s.guess_content(st0, oid, arrays, backs, n, k, marker, allow, lname)
                        guess_arrays.discard(oid)
                    continue
                break
            else: raise Unsupported("invariant inference does not stabilise")
        finally:
            s.dry = old_dry
        # ---- final, recorded obligations
        for tg, fnc in eqs.items():
            s.oblige(st0, f"{lname}: invariant established ({eqc[tg][0].name})", s.eqv(init[tg], fnc(k0)))
        for c in preds: s.oblige(st0, f"{lname}: invariant established ({c.name})", c.fn(env0))
        for oid, cf in contents.items():
            x = z3.BitVec(f"x!{next(sx._fresh)}", 64)
            o0 = st0.mem[oid]
            s.oblige(st0, f"{lname}: content of {o0.name} established", eq(cf(k0)(x, lambda y: s.arr_read(o0, y)), s.arr_read(o0, x), 8 * o0.es))
        evs, n = body(k, [hist_fn(k)])
        k1 = simp(k + 1)
        if spec.havoc is not None:
            ctx.hist = hist_raw
            for e in evs: spec.havoc(ctx, ctx.pre, e)
        for e in evs:
            if e[0] != 'back': continue
            for tg, fnc in eqs.items():
                s.oblige(e[1], f"{lname}: invariant preserved ({eqc[tg][0].name})", s.eqv(next_val(e, tg), fnc(k1)))
            for tg, c in step.items():
                if tg in eqs: continue
                s.oblige(e[1], f"{lname}: induction step", s.eqv(next_val(e, tg), value_at(tg, k1)))
            for c in preds:
                env = LoopCtx(); env.k = k1; env.st = e[1]; env.ex = s; env.init = init
                env.val = lambda tg, e=e: next_val(e, tg)
                env.read = lambda oid, x, e=e: s.arr_read(e[1].mem[oid], x)
                s.oblige(e[1], f"{lname}: invariant preserved ({c.name})", c.fn(env))
            for oid, cf in contents.items():
                x = z3.BitVec(f"x!{next(sx._fresh)}", 64)
                o0 = st0.mem[oid]
                t = e[1]
                s.oblige(t, f"{lname}: content of {o0.name} preserved", eq(s.arr_read(t.mem[oid], x), cf(k1)(x, lambda y: s.arr_read(o0, y)), 8 * o0.es))
            # frame: nothing else changed
            for oid, o in e[1].mem.items():
                o0 = st0.mem.get(oid)
                if o0 is None or o is o0: continue
                if o.kind == "cells":
                    for off, (sz, v) in o.cells.items():
                        if ('cell', oid, off, sz) in init: continue
                        c0 = o0.cells.get(off)
                        if c0 is not None and c0[0] == sz and same(c0[1], v): continue
                        if c0 is None and o0.lazy is not None and sz:
                            continue      # lazily materialised read
                        raise Unsupported("unexpected loop modification")
                elif oid not in arrays and len(o.layers) != len(o0.layers): raise Unsupported("unexpected array modification")
        outs = []
        for e in evs:
            if e[0] == 'back': continue
            t = e[1]
            t.hyps.append((lname, k, hist_raw))
            outs.append(e)
        if not outs and not [e for e in evs if e[0] == 'back']: pass
        s.covers[f"{lname}: body reachable"] = s.covers.get(f"{lname}: body reachable", False) or any(e[0] == 'back' for e in evs)
        return outs
    def eqv(s, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj): raise Unsupported("pointer equality")
            return eq(a.off, b.off, 64)
        if isinstance(a, list): return z3.And([s.eqv(x, y) for x, y in zip(a, b)])
        if not is_sym(a) and not is_sym(b): return z3.BoolVal(int(a) == int(b))
        return eq(a, b)
    def auto_cands(s, ctx):
        """generic invariant templates (checked by induction before use)"""
        out = []
        f = ctx.st0.frames[-1]
        inv = []
        # loop-invariant values the loop compares against
        for bi in ctx.blocks:
            for ins in s.mod.blocks(ctx.fn)[bi].insts:
                if ins.op == 'icmp' and ins.ops[0].ty.k in ('int', 'ptr'):
                    for o in ins.ops:
                        v = None
                        if o.k == 'inst' and o.x.blk.idx not in ctx.blocks: v = f.regs.get(o.v)
                        elif o.k == 'arg': v = f.args[o.v]
                        elif o.k == 'int': v = o.v
                        if v is not None and not isinstance(v, (FPtr, list)): inv.append((o.ty.w, v, ins.x))
        for tg in ctx.targets:
            if tg not in ctx.step or ctx.step[tg] == 0: continue
            v0 = ctx.init[tg]
            c = ctx.step[tg]
            w = 64 if isinstance(v0, Ptr) else (next(p.ty.w for p in ctx.phis if p.id == tg[1]) if tg[0] == 'phi' else 8 * tg[3])
            if w < 64:
                cs = sgn(c, w)
                z = z3.ZeroExt(64 - w, bv(v0, w))
                if cs > 0:
                    out.append(Pred(lambda env, z=z, cs=cs, w=w: z3.And(z3.ULE(env.k, z3.BitVecVal(mask(w), 64)), z3.ULE(z + env.k * cs, z3.BitVecVal(mask(w), 64))), f"no wrap of {tg}"))
                    out.append(Pred(lambda env, z=z, cs=cs, w=w: z3.And(z3.ULE(env.k, z3.BitVecVal(mask(w - 1), 64)), z3.ULE(z + env.k * cs, z3.BitVecVal(mask(w - 1), 64))), f"no signed wrap of {tg}"))
                else:
                    out.append(Pred(lambda env, z=z, cs=cs: z3.And(z3.ULE(env.k, z), z3.ULE(env.k * (-cs), z)), f"no wrap below zero of {tg}"))
            for (bw, b, pred) in inv:
                if isinstance(v0, Ptr) != isinstance(b, Ptr): continue
                if isinstance(v0, Ptr):
                    if b.obj != v0.obj: continue
                    out.append(Pred(lambda env, tg=tg, b=b: z3.ULE(bv(env.val(tg).off, 64), bv(b.off, 64)), f"{tg} <= bound"))
                    out.append(Pred(lambda env, tg=tg, b=b: z3.UGE(bv(env.val(tg).off, 64), bv(b.off, 64)), f"{tg} >= bound"))
                    continue
                if bw != w: continue
                out.append(Pred(lambda env, tg=tg, b=b, w=w: z3.ULE(bv(env.val(tg), w), bv(b, w)), f"{tg} <=u bound"))
                out.append(Pred(lambda env, tg=tg, b=b, w=w: z3.UGE(bv(env.val(tg), w), bv(b, w)), f"{tg} >=u bound"))
                out.append(Pred(lambda env, tg=tg, b=b, w=w: bv(env.val(tg), w) <= bv(b, w), f"{tg} <=s bound"))
                out.append(Pred(lambda env, tg=tg, b=b, w=w: bv(env.val(tg), w) >= bv(b, w), f"{tg} >=s bound"))
            if isinstance(v0, Ptr) or w == 64:
                # no wrap of 64-bit induction variables
                z = bv(v0.off if isinstance(v0, Ptr) else v0, 64)
                cs = sgn(c, 64) if c >= 0 else c
                if 0 < cs < (1 << 20):
                    out.append(Pred(lambda env, z=z, cs=cs: z3.ULE(env.k * cs, ~z), f"no wrap of {tg}"))
        return out
    def guess_content(s, st0, oid, mids, backs, n, k, marker, allow, lname):
        """content of an array after k iterations, guessed from the writes of a generic iteration
        (affine addresses); the guess is subsequently verified by induction"""
        o0 = st0.mem[oid]
        w = 8 * o0.es
        writes = []      # (cond or True, kind, base index at k=0, stride, count(k) or None, val(k[,x]))
        for e in backs:
            o = e[1].mem[oid]
            cs = [c for c in e[1].pc[n:]]
            cond = z3.And(cs) if cs and len(backs) > 1 else True
            if cond is not True and locals_in(cond, marker, allow): raise Unsupported(f"{lname}: write condition is not a function of the iteration")
            for l in o.layers[len(o0.layers) + 1:]:
                if isinstance(l, Store1):
                    if locals_in(bv(l.idx, 64), marker, allow): raise Unsupported(f"{lname}: store address is not a function of the iteration")
                    c = s.affine(e[1], l.idx, k)
                    if c is None: raise Unsupported(f"{lname}: store address is not affine in the iteration: {l.idx}")
                    val = s.unmid(l.val, mids, st0)
                    if locals_in(val, marker, allow): raise Unsupported(f"{lname}: stored value is not a function of the iteration")
                    cd = cond if l.cond is True else (l.cond if cond is True else z3.And(cond, l.cond))
                    i0 = simp(z3.substitute(bv(l.idx, 64), (k, z3.BitVecVal(0, 64))))
                    writes.append((cd, i0, c, val))
                else:
                    raise Unsupported(f"{lname}: nested range writes need a content contract")
        ks = k
        def content(kk):
            def rd(x, prev):
                r = bv(prev(x), w)
                for cd, i0, c, val in writes:
                    if c == 0:
                        j = kk - 1
                        hit = z3.And(kk != 0, x == bv(i0, 64))
                    elif c in (1, -1):
                        j = z3.simplify((x - bv(i0, 64)) * c)
                        hit = z3.ULT(j, kk)
                    else:
                        d = x - bv(i0, 64) if c > 0 else bv(i0, 64) - x
                        j = z3.UDiv(d, z3.BitVecVal(abs(c), 64))
                        hit = z3.And(z3.URem(d, z3.BitVecVal(abs(c), 64)) == 0, z3.ULT(j, kk))
                    if cd is not True: hit = z3.And(hit, z3.substitute(cd, (ks, j)))
                    r = z3.If(hit, z3.substitute(bv(val, w), (ks, j)), r)
                return r
            return rd
        return content
    def unmid(s, val, mids, st0):
        """replace reads of the unknown mid-loop contents by reads of the contents at loop entry (guess only)"""
        if not is_sym(val): return val
        if z3.is_fp(val): val = z3.fpToIEEEBV(val)
        v = z3.Var(0, z3.BitVecSort(64))
        for oid, mid in mids.items():
            if mid is None: continue
            o0 = st0.mem[oid]
            try: val = z3.substitute_funs(val, (mid, bv(s.arr_read(o0, v), 8 * o0.es)))
            except Exception: pass
        return val
    def affine(s, st, idx, k):
        if isinstance(idx, int): return 0
        i0 = z3.simplify(z3.substitute(idx, (k, z3.BitVecVal(0, 64))))
        i1 = z3.simplify(z3.substitute(idx, (k, z3.BitVecVal(1, 64))))
        d = z3.simplify(i1 - i0)
        cand = []
        if z3.is_bv_value(d): cand.append(sgn(d.as_long(), 64))
        else:
            # syntactic failure: try small constants
            cand += [1, 2, 4, 0, -1]
        for c in cand:
            if s.pv.prove(st.pc, idx == i0 + k * z3.BitVecVal(c & mask(64), 64), full=False)[0] == "proved": return c
        return None

class ForkSelect(Exception):
    def __init__(s, c, a, b): s.c, s.a, s.b = c, a, b

def same(a, b):
    if a is b: return True
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.obj == b.obj and same(a.off, b.off)
    if isinstance(a, FPtr) and isinstance(b, FPtr): return a.name == b.name
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)): return int(a) == int(b)
    if is_sym(a) and is_sym(b): return a.eq(b)
    return False
def const_diff(ex, st, nv, cv, w):
    if isinstance(nv, Ptr) or isinstance(cv, Ptr):
        if not (isinstance(nv, Ptr) and isinstance(cv, Ptr) and nv.obj == cv.obj): return None
        d = simp(bv(nv.off, 64) - bv(cv.off, 64))
        return sgn(d, 64) if isinstance(d, int) else None
    if same(nv, cv): return 0
    if isinstance(nv, (FPtr, list)) or w == 1: return None
    if is_sym(nv) and z3.is_fp(nv) or is_sym(cv) and z3.is_fp(cv): return None
    try: d = simp(bv(nv, w) - bv(cv, w))
    except Exception: return None
    return sgn(d, w) if isinstance(d, int) else None

class _T:
    def __init__(s, k, w):
        s.k, s.w, s.size, s.store, s.el, s.fields, s.n = k, w, max(1, (w + 7) // 8), (w + 7) // 8, None, None, 0
I8, I16, I32, I64, I1, PTR = _T('int', 8), _T('int', 16), _T('int', 32), _T('int', 64), _T('int', 1), _T('ptr', 64)
F32, F64 = _T('float', 32), _T('float', 64)

def _ghost_key(s): return tuple(sorted((k, repr(v)) for k, v in s.ghost.items()))
State.ghost_key = _ghost_key
