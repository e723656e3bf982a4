property="C01"
full=True
edits=[("src/op.cpp","""        } else if (a0 == a1 && !jitc_is_float(v0)) {
            uint64_t value = 1;""","""        } else if (a0 == a1) {
            // x / x == 1
            uint64_t value = info.type == VarType::Float16 ? 0x3c00 :
                             info.type == VarType::Float32 ? 0x3f800000 :
                             info.type == VarType::Float64 ? 0x3ff0000000000000ull : 1;""")]
needs="a variable divided by itself whose entries include zero, an infinity or NaN"
breaks="x / x is replaced by one, also for entries (0, inf, NaN) for which the quotient is NaN"
demo=r'''
#include "full.h"
int main() { full_init(); std::vector<double> v = { 5, 0.0, INFINITY, -3.25, -0.0, NAN }; Var x = arr(v); auto g = get<double>(Var(jit_var_div(x, x)));
    for (size_t i = 0; i < v.size(); ++i) { double w = v[i] / v[i]; if (g[i] != w && !(std::isnan(g[i]) && std::isnan(w))) { printf("%g / %g = %g\n", v[i], v[i], g[i]); return 1; } }
    return 0; }
'''
