property="C20"
edits=[("src/var.cpp","    0, 0, 0, 0x80, 0, 0x8000, 0, 0x80000000, 0,\n    0x8000000000000000ull, 0, 0,","    0, 0, 0, 0x80, 0, 0x8000, 0, 0xffffffff80000000ull, 0,\n    0x8000000000000000ull, 0, 0,")]
needs="the minimum literal of type int32 (min/max simplification or the identity of a Max reduction)"
breaks="the int32 minimum is sign-extended to 64 bits and no longer matches the zero-extended literal encoding of that value"
demo=r'''
#include "jit_stubs.h"
#include "src/var.cpp"
#include "src/strbuf.cpp"
int main() {
    Variable v; v.type = (uint32_t) VarType::Int32; v.kind = (uint32_t) VarKind::Literal; v.literal = 0x80000000u;
    if (!jitc_is_min(&v)) return 1;
    return (jitc_reduce_identity(VarType::Int32, ReduceOp::Max) >> 32) ? 1 : 0;
}
'''
