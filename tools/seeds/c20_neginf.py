property="C20"
edits=[("src/var.cpp","    0, 0xfc00, 0xff800000, 0xfff0000000000000","    0, 0xfbff, 0xff800000, 0xfff0000000000000")]
needs="a max-reduction over half precision values that are all negative infinity (or an empty / masked reduction over Float16)"
breaks="the Float16 minimum is the largest finite negative number instead of negative infinity, so it is not neutral for Max"
demo=r'''
#include "jit_stubs.h"
#include "src/var.cpp"
#include "src/strbuf.cpp"
int main() {
    uint64_t id = jitc_reduce_identity(VarType::Float16, ReduceOp::Max);
    drjit::half a, b; uint16_t ninf = 0xfc00, v = (uint16_t) id;
    memcpy(&a, &v, 2); memcpy(&b, &ninf, 2);
    float r = std::max((float) a, (float) b);
    return r == (float) b ? 0 : 1;
}
'''
