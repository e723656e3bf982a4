property="C03"
full=True
edits=[("src/var.cpp","""            for (int i = 0; i < 4; ++i) {
                // Manually inlined version of jitc_var_dec_ref
                uint32_t index2 = dep[i];
                if (!index2)
                    continue;
""","""            for (int i = 0; i < 4; ++i) {
                // Manually inlined version of jitc_var_dec_ref
                uint32_t index2 = dep[i];
                if (!index2 || (i == 3 && index2 == dep[0]))
                    continue;
""")]
needs="an operation with four operands of which the first and the last are the same variable (for example a conditional or cooperative vector node)"
breaks="one of the two references is never released: the operand and its memory leak"
demo=r'''
#include "full.h"
int main() { full_init(); Var a = arr<uint32_t>({ 1, 2, 3 }), b = arr<uint32_t>({ 4, 5, 6 }), c = arr<uint32_t>({ 7, 8, 9 }); uint32_t i = a;
    { lock_guard g(state.lock); uint32_t n = jitc_var_new_node_4(LL, VarKind::Select, VarType::UInt32, 3, false, a, jitc_var(a), b, jitc_var(b), c, jitc_var(c), a, jitc_var(a), 0); jitc_var_dec_ref(n); }
    printf("%u\n", jit_var_ref(a)); if (jit_var_ref(a) != 1) { printf("the operand keeps a reference of a released node\n"); return 1; }
    a = Var(); if (state.variables[i].ref_count) return 1; return 0; }
'''
