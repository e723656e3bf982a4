property="C18"
edits=[("src/llvm_memmgr.cpp","if (jitc_llvm_memmgr_size <= target_size) {","if (jitc_llvm_memmgr_size < size) {")]
needs="prepare() with a small IR, then prepare() with an IR between the old IR size and ten times the old one, then sections filling the second budget"
breaks="the buffer is not grown to ten times the IR size although the documentation of the allocation relies on it: code sections are refused"
flags=""
demo=r'''
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include "src/llvm_memmgr.cpp"
void jitc_raise(const char *, ...) { abort(); }
void jitc_log(LogLevel, const char *, ...) { }
int main() {
    jitc_llvm_memmgr_prepare(1000);
    if (!jitc_llvm_memmgr_allocate(nullptr, 9000, 16, 0, ".text")) return 1;
    jitc_llvm_memmgr_prepare(5000);
    uint8_t *p = jitc_llvm_memmgr_allocate(nullptr, 40000, 64, 0, ".text");
    if (!p) { printf("refused\n"); return 1; }
    memset(p, 1, 40000);
    return 0;
}
'''
