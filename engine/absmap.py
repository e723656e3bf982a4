"""Contracts on the primitives of the specification of tsl::robin_map (stubs/tsl_spec): an abstract finite map with
arbitrary initial contents. A lookup of a key that has not been looked up before finds either nothing or an entry with
arbitrary value (hook 'entry'); later lookups of an equal key agree with it, inserts and erasures are tracked."""
from core import *
from run import _T
class AbsMap:
    def __init__(s, ex, st, readers=None, entry=None):
        """readers: {key size: [(offset, 'i32'|'i64'|'ptr')]}; entry(ex, st, mapid, key values, ptr): facts about a found entry"""
        s.ex, s.entry, s.readers = ex, entry, readers or {}
        st.ghost.setdefault("map", {}); st.ghost.setdefault("maplog", [])
        C = ex.contracts
        C["spec_map_find"] = s.c_find; C["spec_map_insert"] = s.c_insert; C["spec_map_erase"] = s.c_erase; C["spec_map_clear"] = s.c_clear; C["spec_map_hash"] = s.c_hash
        C["spec_map_size"] = lambda ex, st, a, i: fresh("map_size", 64)
    def mid(s, p): return (p.obj, simp(p.off) if is_sym(p.off) else p.off)
    def key(s, st, p, ks):
        out = []
        for off, k in s.readers.get(ks) or [(o, 'i32') for o in range(0, ks, 4)]:
            q = Ptr(p.obj, add(p.off, off)); out.append(s.ex.load(st, q, _T("ptr", 64) if k == 'ptr' else _T("int", 32 if k == 'i32' else 64)))
        return out
    def same(s, a, b):
        r = []
        for x, y in zip(a, b):
            if isinstance(x, Ptr) or isinstance(y, Ptr):
                e = s.ex.eqv(x, y); r.append(e)
            else: r.append(eq(x, y, z3.BitVecRef.size(x) if is_sym(x) else z3.BitVecRef.size(y) if is_sym(y) else 64))
        return simp(z3.And(*[z3.BoolVal(x) if isinstance(x, bool) else x for x in r]))
    def log(s, st, x): st.ghost["maplog"] = st.ghost["maplog"] + [x]
    def put(s, st, m, key, p):
        d = dict(st.ghost["map"]); l = [x for x in d.get(m, []) if not all(same_v(u, v) for u, v in zip(x[0], key))] + [(key, p)]; d[m] = l; st.ghost["map"] = d
    def c_find(s, ex, st, a, ins):
        m, ks = s.mid(a[0]), simp(a[2]); key = s.key(st, a[1], ks); s.log(st, ("find", m, key)); out = []
        for k2, p in st.ghost["map"].get(m, []):
            if all(same_v(u, v) for u, v in zip(k2, key)): return p if p is not None else NULL
            e = s.same(k2, key)
            if ex.pv.prove(st.pc, z3.Not(e), full=True)[0] == "proved": continue
            t = st.copy(); t.assume(e); st.assume(z3.Not(e)); out.append((t, 'ret', p if p is not None else NULL))
        # absent
        t = st.copy(); s.put(t, m, key, None); out.append((t, 'ret', NULL))
        # present
        n = ks; es = s.esize(m, ks); p = ex.new_cells(st, es, "map entry")
        for off, k in s.readers.get(ks) or [(o, 'i32') for o in range(0, ks, 4)]:
            q = Ptr(a[1].obj, add(a[1].off, off)); ty = _T("ptr", 64) if k == 'ptr' else _T("int", 32 if k == 'i32' else 64); ex.store(st, Ptr(p.obj, off), ex.load(st, q, ty), ty)
        if s.entry: s.entry(ex, st, m, key, p)
        s.put(st, m, key, p); out.append((st, 'ret', p)); return Multi(out)
    def esize(s, m, ks): return 512
    def c_insert(s, ex, st, a, ins):
        m, ks, es = s.mid(a[0]), simp(a[2]), simp(a[3]); key = s.key(st, a[1], ks); p = ex.new_cells(st, es, "new map entry")
        for off, k in s.readers.get(ks) or [(o, 'i32') for o in range(0, ks, 4)]:
            q = Ptr(a[1].obj, add(a[1].off, off)); ty = _T("ptr", 64) if k == 'ptr' else _T("int", 32 if k == 'i32' else 64); ex.store(st, Ptr(p.obj, off), ex.load(st, q, ty), ty)
        s.put(st, m, key, p); s.log(st, ("insert", m, key, p)); return p
    def c_erase(s, ex, st, a, ins):
        m = s.mid(a[0]); p = a[1]
        for key, q in st.ghost["map"].get(m, []):
            if isinstance(q, Ptr) and isinstance(p, Ptr) and q.obj == p.obj:
                s.put(st, m, key, None); s.log(st, ("erase", m, key, q)); return None
        ex.oblige(st, "only entries that exist are erased", False); raise Abort()
    def c_clear(s, ex, st, a, ins): s.log(st, ("clear", s.mid(a[0])))
    def c_hash(s, ex, st, a, ins): ex.oblige(st, "a precomputed hash equals the hash of the key", eq(a[0], a[1], 64))
def add(o, n): return o + n if isinstance(o, int) else simp(o + n)
def same_v(a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.obj == b.obj and same_v(a.off, b.off)
    if isinstance(a, Ptr) or isinstance(b, Ptr): return False
    if is_sym(a) and is_sym(b): return a.eq(b)
    if is_sym(a) or is_sym(b): return False
    return a == b
