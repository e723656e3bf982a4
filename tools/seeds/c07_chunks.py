property="C07"
edits=[("src/llvm_ts.cpp","""    // How many chunks in total need to be processed?
    uint32_t chunks_per_block = ceil_div(block_size, chunk_size),
             chunk_count = block_count * chunks_per_block;

    // Split chunks into work units for the parallelization layer
    uint32_t work_units, work_unit_size;
    if (workers > 1) {
        // Do multiple chunks per work unit if they are smaller than 'ideal_size'
        work_unit_size = std::min(ceil_div(ideal_size, chunk_size), chunk_count);
        work_units     = ceil_div(chunk_count, work_unit_size);
    } else {
        work_unit_size = chunk_count;
        work_units = 1;
    }

    BlockReduction red = create_block_reduction(vt, op);

    void *buf = out;""","""    // How many chunks in total need to be processed?
    uint32_t chunks_per_block = block_size / chunk_size,
             chunk_count = block_count * chunks_per_block;

    // Split chunks into work units for the parallelization layer
    uint32_t work_units, work_unit_size;
    if (workers > 1) {
        // Do multiple chunks per work unit if they are smaller than 'ideal_size'
        work_unit_size = std::min(ceil_div(ideal_size, chunk_size), chunk_count);
        work_units     = ceil_div(chunk_count, work_unit_size);
    } else {
        work_unit_size = chunk_count;
        work_units = 1;
    }

    BlockReduction red = create_block_reduction(vt, op);

    void *buf = out;""")]
needs="a multi-threaded reduction of few long blocks (more than two work units long, so that blocks are split into chunks) whose length is no multiple of the work unit size"
breaks="the last, partial chunk of every split block is never reduced"
demo=r'''
#include "red_common.h"
int main() {
    jitc_llvm_block_size = 64; g_pool_size = 4;
    for (uint32_t size = 1; size < 1500; ++size) {
        std::vector<uint32_t> in(size); uint32_t sum = 0, out = 0; for (uint32_t i = 0; i < size; ++i) sum += in[i] = i * i + 1;
        ts()->LLVMThreadState::block_reduce(VarType::UInt32, ReduceOp::Add, size, size, in.data(), &out); settle();
        if (out != sum) { printf("sum of %u values: %u instead of %u\n", size, out, sum); return 1; }
    }
    return 0;
}
'''
