property="C09"
edits=[("src/llvm_ts.cpp","""        [bucket_count, n_blocks, tasks_per_group, block_size, buckets,
         offsets, &unique_count](uint32_t) {""","""        [bucket_count, n_blocks, tasks_per_group, task_size, buckets,
         offsets, &unique_count](uint32_t) {"""),
("src/llvm_ts.cpp","uint32_t group_start = g * block_size;","uint32_t group_start = g * tasks_per_group * task_size;")]
needs="several sorting groups whose size is not a multiple of the size of the work units they are split into"
breaks="the permutation entries of every group after the first are written to the wrong (partly out of range) positions"
demo=r'''
#include "red_common.h"
void jitc_sync_thread(ThreadState *) { nt_flush(); settle(); }
int main() {
    for (uint32_t unit : { 16u, 64u }) for (uint32_t bs : { 64u, 100u, 128u, 130u, 500u }) {
        jitc_llvm_block_size = unit; g_pool_size = 4; uint32_t n = 5 * bs, bc = 7;
        std::vector<uint32_t> v(n), p(4 * n, 0xdeadbeefu), w; for (uint32_t i = 0; i < n; ++i) v[i] = (i * 2654435761u >> 16) % bc;
        for (uint32_t g = 0; g < n; g += bs) for (uint32_t b = 0; b < bc; ++b) for (uint32_t i = g; i < g + bs; ++i) if (v[i] == b) w.push_back(i);
        ts()->LLVMThreadState::block_mkperm(v.data(), n, bs, bc, p.data(), nullptr); nt_flush(); settle();
        for (uint32_t i = 0; i < n; ++i) if (p[i] != w[i]) { printf("unit %u, block size %u: perm[%u] is %u instead of %u\n", unit, bs, i, p[i], w[i]); return 1; }
    }
    return 0;
}
'''
