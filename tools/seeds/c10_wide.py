property="C10"
edits=[("src/llvm_ts.cpp","""    size_t size = size_;

    // Try to convert into ordinary memset if possible""","""    uint32_t size = size_;

    // Try to convert into ordinary memset if possible""")]
needs="a zero fill of at least 4 GiB (for example 2^29 + 8 elements of 8 bytes)"
breaks="the number of bytes is computed in 32 bits: most of the region is not cleared"
demo=r'''
#include "red_common.h"
#include <sys/mman.h>
#include <unistd.h>
int main() {
    // 4 GiB + 64 bytes of address space, backed by one 2 MiB file mapped repeatedly; the last page is separate memory
    size_t C = 1 << 21, n = (1ull << 32) / C; int fd = memfd_create("x", 0); if (fd < 0 || ftruncate(fd, C)) return 0;
    uint8_t *p = (uint8_t *) mmap(nullptr, (n + 1) * C, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return 0;
    for (size_t i = 0; i < n; ++i) if (mmap(p + i * C, C, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) return 0;
    for (size_t s : { (size_t) 8, (size_t) 4 }) {
        memset(p, 0xab, C); memset(p + n * C, 0xab, C); uint64_t zero = 0; uint32_t cnt = (uint32_t) ((n * C + 64) / s);
        ts()->LLVMThreadState::memset_async(p, cnt, (uint32_t) s, &zero); nt_flush(); settle();
        for (size_t i = 0; i < C; ++i) if (p[i] != 0) { printf("byte %zu was not cleared\n", i); return 1; }
        for (size_t i = 0; i < 128; ++i) if (p[n * C + i] != (i < 64 ? 0 : 0xab)) { printf("byte 4 GiB + %zu is %x\n", i, p[n * C + i]); return 1; }
    }
    return 0;
}
'''
