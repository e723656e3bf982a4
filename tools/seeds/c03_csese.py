property="C03"
full=True
edits=[("src/var.cpp","""            } else {
                jitc_var_dec_ref_se(v.dep[3]);
            }

            index = it.value();""","""            } else {
                jitc_var_dec_ref(v.dep[3]);
            }

            index = it.value();""")]
needs="two scatters into the same array that are pending at the same time (the second one finds the existing write pointer in the value numbering table)"
breaks="discarding the duplicate write pointer releases an ordinary reference of the target instead of the side effect reference it holds"
demo=r'''
#include "full.h"
int main() { full_init(); Var t = arr<uint32_t>({ 1, 2, 3, 4 }), k = t; k = Var(); uint32_t i = t;
    for (int n = 0; n < 2; ++n) { Var r(jit_var_scatter(t, lit<uint32_t>(10 + n), lit<uint32_t>(n), lit<bool>(true), ReduceOp::Identity, ReduceMode::Permute)); t = r; if (t.i != i) return 0; }
    printf("%u + %u\n", state.variables[i].ref_count, state.variables[i].ref_count_se);
    if (state.variables[i].ref_count != 1 || state.variables[i].ref_count_se != 1) { printf("the target has one handle and one pending write pointer\n"); return 1; }
    auto g = get<uint32_t>(t); for (auto x : g) printf("%u ", x); printf("\n"); return g == std::vector<uint32_t>{ 10, 11, 3, 4 } ? 0 : 1; }
'''
