property="C01"
full=True
edits=[("src/op.cpp","""    } else if (jitc_is_uint(info.type) && v1->is_literal() && jitc_is_pow2(v1->literal)) {
        uint64_t value = v1->literal - 1;""","""    } else if (jitc_is_int(info.type) && v1->is_literal() && jitc_is_pow2(v1->literal)) {
        uint64_t value = v1->literal - 1;""")]
needs="a remainder of a negative signed value by a literal power of two"
breaks="the remainder of a signed division by a power of two is computed with a mask: negative values give a positive remainder"
demo=r'''
#include "full.h"
int main() { full_init(); std::vector<int32_t> v = { 5, 8, -5, -8, 13, -1, INT32_MIN, INT32_MAX };
    for (int32_t m : { 1, 2, 3, 8, 10, 1 << 20, -4 }) { auto g = get<int32_t>(Var(jit_var_mod(arr(v), lit(m)))); for (size_t i = 0; i < v.size(); ++i) if (g[i] != v[i] % m) { printf("%d %% %d = %d\n", v[i], m, g[i]); return 1; } }
    return 0; }
'''
