property='C21'
full=True
edits=[('src/var.cpp', '        Variable &v = state.variables[i];\n        if (v.ref_count || v.ref_count_se)\n            v.scope = remap(v.scope);', '        Variable &v = state.variables[i];\n        if (v.ref_count)\n            v.scope = remap(v.scope);')]
needs='the scope counter wraps around while a node is only kept alive by a pending side effect'
breaks='the node keeps its old, huge scope: it is ordered after everything that is traced later'
demo=r'''
#include "full.h"
static uint32_t sc(uint32_t i) { lock_guard g(state.lock); return state.variables[i].scope; }
static void wrap() { lock_guard g(state.lock); state.scope_ctr = 0xffffffffu; }
int main() { full_init(); jit_set_flag(JitFlag::ValueNumbering, 1); Var a = arr<uint32_t>({ 1, 2 }), b = arr<uint32_t>({ 3, 4 });
    { lock_guard g(state.lock); state.scope_ctr = 0xfffffff0u; } jit_new_scope(LL); Var x(jit_var_add(a, b)); uint32_t i = x.i; { lock_guard g(state.lock); jitc_var_inc_ref_se(i); } x = Var(); jit_new_scope(LL); wrap(); jit_new_scope(LL); Var y(jit_var_mul(a, b));
    printf("%u %u\n", sc(i), sc(y)); return sc(i) < sc(y) ? 0 : 1; }
'''
