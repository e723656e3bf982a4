property="C09"
edits=[("src/llvm_ts.cpp","""        block_prefix_reduce(VarType::UInt32, ReduceOp::Add, blocks,
                            blocks, true, false, scratch, scratch);""","""        // The partial counts are scanned in cache-sized pieces
        block_prefix_reduce(VarType::UInt32, ReduceOp::Add, blocks,
                            std::min(blocks, 4096u), true, false, scratch, scratch);""")]
needs="a compression that is split into more than 4096 work units"
breaks="the output position restarts at zero after 4096 work units: earlier entries are overwritten and the count is wrong"
demo=r'''
#include "red_common.h"
void jitc_sync_thread(ThreadState *) { nt_flush(); settle(); }
int main() {
    jitc_llvm_block_size = 16; g_pool_size = 4;
    for (uint32_t n : { 1u, 100u, 4095u, 70000u, 131072u, 150001u }) {
        std::vector<uint8_t> m(n); std::vector<uint32_t> w; for (uint32_t i = 0; i < n; ++i) if ((m[i] = (i * 2654435761u) >> 30 == 1)) w.push_back(i);
        std::vector<uint32_t> o(n + 1, 0xdeadbeefu); uint32_t c = ts()->LLVMThreadState::compress(m.data(), n, o.data()); nt_flush(); settle();
        if (c != w.size()) { printf("size %u: count %u instead of %zu\n", n, c, w.size()); return 1; }
        for (uint32_t i = 0; i < c; ++i) if (o[i] != w[i]) { printf("size %u: position %u is %u instead of %u\n", n, i, o[i], w[i]); return 1; }
    }
    return 0;
}
'''
