// CPU reductions (src/llvm_red.h, src/llvm_ts.cpp): verbatim include
#include "/repo/src/llvm_ts.cpp"
uint32_t jitc_llvm_vector_width, jitc_llvm_block_size;
extern "C" void w_red_kernel(int vt, int op, uint32_t index, uint32_t work_unit_size, uint32_t size, uint32_t block_size, uint32_t chunk_size,
                             uint32_t chunk_count, uint32_t chunks_per_block, const void *in, void *out) {
    create_block_reduction((VarType) vt, (ReduceOp) op)(index, work_unit_size, size, block_size, chunk_size, chunk_count, chunks_per_block, in, out);
}
extern "C" void w_prefix_kernel(int vt, int op, uint32_t index, uint32_t work_unit_size, uint32_t size, uint32_t block_size, uint32_t chunk_size,
                             uint32_t chunk_count, uint32_t chunks_per_block, bool exclusive, bool reverse, const void *in, const void *scratch, void *out) {
    create_block_prefix_reduction((VarType) vt, (ReduceOp) op)(index, work_unit_size, size, block_size, chunk_size, chunk_count, chunks_per_block, exclusive, reverse, in, scratch, out);
}
extern "C" void w_block_reduce(int vt, int op, uint32_t ideal, uint32_t size, uint32_t block_size, const void *in, void *out) {
    jitc_llvm_block_size = ideal;
    alignas(LLVMThreadState) static unsigned char mem[sizeof(LLVMThreadState)];
    ((LLVMThreadState *) mem)->LLVMThreadState::block_reduce((VarType) vt, (ReduceOp) op, size, block_size, in, out);
}
extern "C" void w_block_prefix_reduce(int vt, int op, uint32_t ideal, uint32_t size, uint32_t block_size, bool exclusive, bool reverse, const void *in, void *out) {
    jitc_llvm_block_size = ideal;
    alignas(LLVMThreadState) static unsigned char mem[sizeof(LLVMThreadState)];
    ((LLVMThreadState *) mem)->LLVMThreadState::block_prefix_reduce((VarType) vt, (ReduceOp) op, size, block_size, exclusive, reverse, in, out);
}
extern "C" void w_reduce_dot(int vt, uint32_t ideal, const void *a, const void *b, uint32_t size, void *out) {
    jitc_llvm_block_size = ideal;
    alignas(LLVMThreadState) static unsigned char mem[sizeof(LLVMThreadState)];
    ((LLVMThreadState *) mem)->LLVMThreadState::reduce_dot((VarType) vt, a, b, size, out);
}
extern "C" void w_reduce_expanded(int vt, int op, uint32_t ideal, void *ptr, uint32_t exp, uint32_t size) {
    jitc_llvm_block_size = ideal;
    alignas(LLVMThreadState) static unsigned char mem[sizeof(LLVMThreadState)];
    ((LLVMThreadState *) mem)->LLVMThreadState::reduce_expanded((VarType) vt, (ReduceOp) op, ptr, exp, size);
}
extern "C" void w_expand_kernel(int vt, int op, void *ptr, uint32_t start, uint32_t end, uint32_t exp, uint32_t size) {
    reduce_expanded_create((VarType) vt, (ReduceOp) op)(ptr, start, end, exp, size);
}
extern "C" void w_dot_kernel(int vt, const void *a, const void *b, uint32_t start, uint32_t end, void *out) {
    jitc_reduce_dot_create((VarType) vt)(a, b, start, end, out);
}
static LLVMThreadState *w_ts(uint32_t ideal) { jitc_llvm_block_size = ideal; alignas(LLVMThreadState) static unsigned char mem[sizeof(LLVMThreadState)]; return (LLVMThreadState *) mem; }
extern "C" void w_memset(void *ptr, uint32_t size, uint32_t isize, const void *src) { w_ts(1)->LLVMThreadState::memset_async(ptr, size, isize, src); }
extern "C" void w_poke(void *dst, const void *src, uint32_t size) { w_ts(1)->LLVMThreadState::poke(dst, src, size); }
extern "C" void w_memcpy_async(void *dst, const void *src, size_t size) { w_ts(1)->LLVMThreadState::memcpy_async(dst, src, size); }
extern "C" void w_memcpy(void *dst, const void *src, size_t size) { w_ts(1)->LLVMThreadState::memcpy(dst, src, size); }
extern "C" void w_aggregate(uint32_t ideal, void *dst, AggregationEntry *agg, uint32_t size) { w_ts(ideal)->LLVMThreadState::aggregate(dst, agg, size); }
extern "C" uint32_t w_compress(uint32_t ideal, const uint8_t *in, uint32_t size, uint32_t *out) { return w_ts(ideal)->LLVMThreadState::compress(in, size, out); }
extern "C" uint32_t w_mkperm(uint32_t ideal, const uint32_t *ptr, uint32_t size, uint32_t bs, uint32_t buckets, uint32_t *perm, uint32_t *offsets) { return w_ts(ideal)->LLVMThreadState::block_mkperm(ptr, size, bs, buckets, perm, offsets); }
