// literal reductions (src/var.cpp): verbatim include
#include "/repo/src/var.cpp"
#include "varhelp.h"
extern "C" void w_scalar_add(int vt, uint32_t size, void *p) { jitc_reduce_scalar_add((VarType) vt, size, p); }
extern "C" void w_scalar_mul(int vt, uint32_t size, void *p) { jitc_reduce_scalar_mul((VarType) vt, size, p); }
extern "C" uint32_t w_var_reduce(int b, int vt, int op, uint32_t index) { return jitc_var_reduce((JitBackend) b, (VarType) vt, (ReduceOp) op, index); }
extern "C" uint32_t w_var_block_reduce(int op, uint32_t index, uint32_t bs, int symbolic) { return jitc_var_block_reduce((ReduceOp) op, index, bs, symbolic); }
extern "C" uint32_t w_var_reduce_dot(uint32_t i, uint32_t j) { return jitc_var_reduce_dot(i, j); }
extern "C" bool w_any(uint32_t i) { return jitc_var_any(i); }
extern "C" bool w_all(uint32_t i) { return jitc_var_all(i); }
extern "C" uint32_t w_any_async(int b, uint32_t i) { return jitc_var_any_async((JitBackend) b, i); }
extern "C" uint32_t w_all_async(int b, uint32_t i) { return jitc_var_all_async((JitBackend) b, i); }
extern "C" uint32_t w_kind_default_mask() { return (uint32_t) VarKind::DefaultMask; }
extern "C" uint32_t w_var_block_prefix_reduce(int op, uint32_t index, uint32_t bs, bool exclusive, bool reverse) { return jitc_var_block_prefix_reduce((ReduceOp) op, index, bs, exclusive, reverse); }
