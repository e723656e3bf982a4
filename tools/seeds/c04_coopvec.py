property="C04"
full=True
edits=[("src/internal.h","""            (v.is_array() || v.coop_vec) ? (uint32_t) v.array_length : 0u;""","""            v.is_array() ? (uint32_t) v.array_length : 0u;""")]
needs="two cooperative vector literals of the same type, size and value, but of different length"
breaks="cooperative vectors of different length share one variable"
demo=r'''
#include "full.h"
int main() { full_init(); float x = 1.5f; Var a(jit_coop_vec_literal(LL, VarType::Float32, &x, 1, 3)), b(jit_coop_vec_literal(LL, VarType::Float32, &x, 1, 5)), c(jit_coop_vec_literal(LL, VarType::Float32, &x, 1, 3));
    printf("r%u r%u r%u: %u %u\n", a.i, b.i, c.i, jit_coop_vec_length(a), jit_coop_vec_length(b)); return a.i != b.i && a.i == c.i && jit_coop_vec_length(a) == 3 && jit_coop_vec_length(b) == 5 ? 0 : 1; }
'''
