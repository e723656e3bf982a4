// LLVMThreadState::launch (src/llvm_ts.cpp): verbatim include
#include "/repo/src/llvm_ts.cpp"
uint32_t jitc_llvm_vector_width, jitc_llvm_block_size;
extern "C" void ghost_kernel(uint64_t start, uint64_t end, uint32_t thread_id, void **params);
extern "C" void w_launch(uint32_t vec, uint32_t block, uint32_t size, void **extra) {
    jitc_llvm_vector_width = vec; jitc_llvm_block_size = block;
    alignas(LLVMThreadState) static unsigned char mem[sizeof(LLVMThreadState)];
    Kernel k; void *reloc[1] = { (void *) ghost_kernel };
    k.llvm.reloc = reloc;
    KernelKey *key = nullptr; XXH128_hash_t h{};
    std::vector<void *> params(4); std::vector<uint32_t> ids;
    params[3] = extra;
    ((LLVMThreadState *) mem)->LLVMThreadState::launch(k, *key, h, size, params, ids, nullptr);
}
