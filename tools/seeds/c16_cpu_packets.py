property="C16"
edits=[("src/llvm_ts.cpp","block_size = (packets + blocks - 1) / blocks * packet_size;","block_size = (size + blocks - 1) / blocks;")]
needs="a medium-sized launch on several cores (more packets than cores, fewer than 2*cores full blocks) whose even share is no multiple of the packet size"
breaks="work items of LLVMThreadState::launch no longer start at packet boundaries, so the vectorized kernel processes elements of the neighbouring item"
demo=r'''
#include "nanothread_impl.h"
#include "jit_stubs.h"
#include "src/llvm_ts.cpp"
uint32_t jitc_llvm_vector_width = 8, jitc_llvm_block_size = 16384;
static std::vector<std::pair<uint64_t, uint64_t>> R;
static void kern(uint64_t s, uint64_t e, uint32_t, void **) { R.push_back({ s, e }); }
int main() {
    alignas(LLVMThreadState) static unsigned char mem[sizeof(LLVMThreadState)]; alignas(16) static unsigned char kk[sizeof(KernelKey)];
    g_pool_size = 4;
    for (uint32_t size = 1; size < 3000; ++size) {
        R.clear(); Kernel k{}; void *rl[1] = { (void *) kern }; k.llvm.reloc = rl;
        std::vector<void *> params(4); std::vector<uint32_t> ids; XXH128_hash_t h{};
        ((LLVMThreadState *) mem)->LLVMThreadState::launch(k, *(KernelKey *) kk, h, size, params, ids, nullptr);
        std::sort(R.begin(), R.end()); uint64_t pos = 0;
        for (auto &r : R) { if (r.first != pos || r.first % 8) { printf("size %u: range starts at %u\n", size, (unsigned) r.first); return 1; } pos = r.second; }
        if (pos != size) return 1;
    }
    return 0;
}
'''
