property='C21'
full=True
edits=[('src/var.cpp', '    for (ThreadState *ts : state.tss)\n        collect(ts->scope);\n    for (ThreadState *ts : state.record_tss)\n        collect(ts->scope);\n\n    std::sort', '    for (ThreadState *ts : state.record_tss)\n        collect(ts->scope);\n\n    std::sort')]
needs='the scope counter wraps around while a thread is in a scope without live nodes above all scopes of live nodes'
breaks='the scope of the thread is renumbered to a number that the next new scope receives as well'
demo=r'''
#include "full.h"
static uint32_t sc(uint32_t i) { lock_guard g(state.lock); return state.variables[i].scope; }
static void wrap() { lock_guard g(state.lock); state.scope_ctr = 0xffffffffu; }
int main() { full_init(); jit_set_flag(JitFlag::ValueNumbering, 1); Var a = arr<uint32_t>({ 1, 2 }), b = arr<uint32_t>({ 3, 4 });
    Var x(jit_var_add(a, b)); jit_new_scope(LL); jit_new_scope(LL); wrap(); uint32_t n; { lock_guard g(state.lock); n = jitc_scope_next(); } uint32_t t; { lock_guard g(state.lock); t = thread_state(LL)->scope; }
    printf("thread %u, new scope %u\n", t, n); return n > t ? 0 : 1; }
'''
