property="C08"
edits=[("src/llvm_ts.cpp","""        block_prefix_reduce(vt, op, chunk_count, chunks_per_block, true,
                            reverse, scratch, scratch);""","""        block_prefix_reduce(vt, op, chunk_count, chunks_per_block, true,
                            false, scratch, scratch);""")]
needs="a multi-threaded reverse scan of few long blocks (split into chunks)"
breaks="the partial results of the chunks are scanned forward instead of backward, so all chunks but the last start from wrong values"
demo=r'''
#include "red_common.h"
int main() {
    jitc_llvm_block_size = 64; g_pool_size = 4;
    for (uint32_t size = 2; size < 1500; ++size) for (int rv = 0; rv < 2; ++rv) {
        std::vector<uint32_t> in(size), out(size, 0u); for (uint32_t i = 0; i < size; ++i) in[i] = i * i + 1;
        ts()->LLVMThreadState::block_prefix_reduce(VarType::UInt32, ReduceOp::Add, size, size, false, rv != 0, in.data(), out.data()); settle();
        uint32_t s = 0; for (uint32_t q = 0; q < size; ++q) { uint32_t j = rv ? size - 1 - q : q; s += in[j]; if (out[j] != s) { printf("size %u reverse %i element %u: %u instead of %u\n", size, rv, j, out[j], s); return 1; } }
    }
    return 0;
}
'''
