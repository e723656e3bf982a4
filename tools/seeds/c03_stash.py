property="C03"
full=True
edits=[("src/var.cpp","""    v->ref_count_stashed = (uint16_t) v->ref_count;
    jitc_trace""","""    v->ref_count_stashed = (uint8_t) v->ref_count;
    jitc_trace""")]
needs="a variable with 257 references whose count is stashed, followed by a scatter before it is unstashed"
breaks="the stashed count wraps to one: the scatter believes that nobody else refers to the array and modifies it in place"
demo=r'''
#include "full.h"
int main() { full_init(); Var t = arr<uint32_t>({ 1, 2, 3, 4 }); std::vector<Var> h; for (int i = 0; i < 256; ++i) h.push_back(t);
    uint64_t s = jit_var_stash_ref(t); Var r(jit_var_scatter(t, lit<uint32_t>(99), lit<uint32_t>(0), lit<bool>(true))); jit_var_unstash_ref(s); jit_eval();
    auto g = get<uint32_t>(h[5]); printf("%u %u\n", g[0], get<uint32_t>(r)[0]); if (g[0] != 1) { printf("the write is visible through another reference\n"); return 1; } return 0; }
'''
