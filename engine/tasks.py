"""Assumed contract of the nanothread thread pool: task_submit_dep(pool, parents, np, n, func, payload, psize,
deleter, ...) runs func(i, copy of payload[0:psize]) exactly once for every i in [0, n), in unspecified order and
concurrently, after the parents; with a deleter the payload pointer itself is passed."""
from core import *
class Sub:
    def __init__(s, n, fn, payload, psize, deleter): s.n, s.fn, s.payload, s.psize, s.deleter = n, fn, payload, psize, deleter
    def copy(s): return s
def install(ex, width=64, tid=None):
    C = ex.contracts
    def submit(ex, st, a, i):
        st.ghost.setdefault("subs", [])
        n, fn, pay, ps, dl = a[3], a[4], a[5], a[6], a[7]
        if isinstance(fn, FPtr):
            if not (isinstance(dl, Ptr) and dl.obj is None and dl.off == 0) and dl != 0: p = pay
            else:
                assert isinstance(ps, int)
                p = ex.new_cells(st, ps, "payload")
                if ps: ex.mem_copy(st, p, pay, ps)
            st.ghost["subs"] = st.ghost["subs"] + [Sub(n, fn, p, ps, dl)]
        return ex.new_cells(st, 8, "task")
    C["task_submit_dep"] = submit
    for n in ("task_wait", "task_release", "task_retain", "task_wait_and_release"): C[n] = lambda ex, st, a, i: None
    C["pool_size"] = lambda ex, st, a, i: st.ghost["cores"]
    C["pool_thread_id"] = lambda ex, st, a, i: st.ghost.get("tid", 0)
    C["jit_flag"] = lambda ex, st, a, i: 0
    for f in ex.mod.fns.values():
        d = f.dname.split("(")[0]
        if d in ("jitc_log", "jitc_var_log"): C[f.name] = lambda ex, st, a, i: None
        if d in ("jitc_raise", "jitc_fail"): C[f.name] = lambda ex, st, a, i: RAISE
def item(ex, st, sub, i):
    """outcomes of executing work item i of a submission from state st (st is consumed)"""
    return ex.call(st, ex.mod.fns[sub.fn.name], [i, sub.payload])
