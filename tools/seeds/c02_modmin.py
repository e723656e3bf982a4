property="C02"
full=True
edits=[("src/op.cpp","""        if (v0 == min_v && v1 == T(-1))
            return T(0);""","""        if (v0 == min_v && v1 == T(-1))
            return min_v;""")]
needs="the remainder of the smallest signed literal by the literal -1"
breaks="folding MIN % -1 gives MIN instead of 0"
demo=r'''
#include "full.h"
template <typename T> bool t() { T m = std::numeric_limits<T>::min(), r; Var v(jit_var_mod(lit<T>(m), lit<T>((T) -1))); jit_var_read(v, 0, &r); if (r != 0) printf("MIN %% -1 = %lld\n", (long long) r); return r == 0; }
int main() { full_init(); return !(t<int8_t>() && t<int16_t>() && t<int32_t>() && t<int64_t>()); }
'''
