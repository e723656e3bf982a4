// C18: the real code generator memory manager
#include <drjit-core/jit.h>
#include "/repo/src/llvm_memmgr.cpp"
extern "C" {
void w_prepare(size_t n) { jitc_llvm_memmgr_prepare(n); }
uint8_t *w_alloc(uintptr_t size, unsigned align, unsigned id, const char *name) { return jitc_llvm_memmgr_allocate(nullptr, size, align, id, name); }
uint8_t *w_alloc_data(uintptr_t size, unsigned align, unsigned id, const char *name, int ro) { return jitc_llvm_memmgr_allocate_data(nullptr, size, align, id, name, ro); }
void w_shutdown() { jitc_llvm_memmgr_shutdown(); }
uint8_t *w_data() { return jitc_llvm_memmgr_data; }
size_t w_offset() { return jitc_llvm_memmgr_offset; }
void w_set_offset(size_t o) { jitc_llvm_memmgr_offset = o; }
bool w_got() { return jitc_llvm_memmgr_got; }
void w_set_got(bool g) { jitc_llvm_memmgr_got = g; }
}
