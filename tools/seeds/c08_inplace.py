property="C08"
edits=[("src/llvm_red.h","""                    uint64_t k = j - 1;
                    Value value = (Value) in[k],
                          prev  = accum;

                    accum = Red::reduce(accum, value);
                    out[k] = exclusive ? prev : accum;""","""                    uint64_t k = j - 1;

                    if (exclusive)
                        out[k] = accum;
                    accum = Red::reduce(accum, (Value) in[k]);
                    if (!exclusive)
                        out[k] = accum;""")]
needs="an exclusive reverse scan whose output is its input (as in the second level of a large reverse scan)"
breaks="the element is overwritten before it is read"
demo=r'''
#include "red_common.h"
int main() {
    jitc_llvm_block_size = 64; g_pool_size = 4;
    for (uint32_t size = 2; size < 1000; ++size) for (int rv = 0; rv < 2; ++rv) {
        std::vector<uint32_t> in(size); for (uint32_t i = 0; i < size; ++i) in[i] = i * i + 1;
        std::vector<uint32_t> out = in; uint32_t bs = size < 7 ? size : 7;
        ts()->LLVMThreadState::block_prefix_reduce(VarType::UInt32, ReduceOp::Add, size, bs, true, rv != 0, out.data(), out.data()); settle();
        for (uint32_t b = 0; b < size; b += bs) { uint32_t e = b + bs < size ? b + bs : size, s = 0; for (uint32_t q = 0; q < e - b; ++q) { uint32_t j = rv ? e - 1 - q : b + q; if (out[j] != s) { printf("size %u reverse %i element %u: %u instead of %u\n", size, rv, j, out[j], s); return 1; } s += in[j]; } }
    }
    return 0;
}
'''
