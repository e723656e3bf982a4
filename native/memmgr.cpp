// C18 counterexample search: random histories against the real memory manager (ASan)
#include <cstddef>
#include <cstdint>
#include <cstdlib>
static bool fail_alloc = false;
static size_t last_size = 0;
static int my_memalign(void **p, size_t a, size_t n) { if (fail_alloc) return 12; last_size = n; int r = posix_memalign(p, a, n); if (!r) __builtin_memset(*p, 0xAA, n); return r; }
#include <drjit-core/jit.h>
#include <cstring>
#include <stdexcept>
#include <cstdio>
#include <vector>
#include <random>
#define posix_memalign my_memalign
#include "/repo/src/llvm_memmgr.cpp"
#undef posix_memalign
void jitc_raise(const char *, ...) { throw std::runtime_error("raise"); }
void jitc_log(LogLevel, const char *, ...) {}
void jitc_fail(const char *, ...) noexcept { abort(); }
int main() {
    const char *s = getenv("VERIF_SEED"); std::mt19937_64 rng(s ? atoi(s) : 1);
    bool th = getenv("VERIF_TIER") && getenv("VERIF_TIER")[0] == 't';
    int bad = 0; unsigned long long cnt = 0;
    #define CE(...) do { if (bad++ < 8) { printf("CE: "); printf(__VA_ARGS__); printf("\n"); } } while (0)
    for (int it = 0; it < (th ? 200000 : 20000); ++it) {
        size_t n = (rng() % 3 == 0) ? rng() % 8 : rng() % 3000; bool prepared = true;
        fail_alloc = rng() % 7 == 0;
        try { jitc_llvm_memmgr_prepare(n); } catch (std::exception &) { prepared = false; }
        fail_alloc = false;
        if (prepared && last_size < n * 10) CE("prepare(%zu): buffer of %zu bytes", n, last_size);
        std::vector<std::pair<size_t, size_t>> secs; size_t cur = 0; bool got = false; jitc_llvm_memmgr_got = false;
        size_t cap = prepared ? last_size : 0; if (!jitc_llvm_memmgr_data) cap = 0;
        if (prepared && jitc_llvm_memmgr_offset != 0) CE("prepare(%zu): offset not reset", n);
        if (prepared) for (int k = 0; k < 12; ++k) {
            size_t size = rng() % 5 == 0 ? cap - cur + rng() % 40 - 20 : rng() % 5 == 0 ? rng() : rng() % (cap / 3 + 2); unsigned align = rng() % 4 == 0 ? 0 : 1u << rng() % 14; if (rng() % 40 == 0) align = 1u << 31;
            const char *nm = (const char *[]) { ".text", ".got", ".got.plt", ".rodata", ".go", "got", ".eh_frame" }[rng() % 7];
            if (!strncmp(nm, ".got", 4)) got = true;
            uint8_t *p = rng() % 3 ? jitc_llvm_memmgr_allocate(nullptr, size, align, 0, nm) : jitc_llvm_memmgr_allocate_data(nullptr, size, align, 0, nm, 0);
            size_t a = align ? align : 16, tight = (cur + a - 1) / a * a; bool fits = tight <= cap && size <= cap - tight; cnt++;
            if (jitc_llvm_memmgr_got != got) CE("GOT flag wrong after section %s", nm);
            if (!p) { if (fits) CE("request size=%zu align=%u at offset %zu of %zu refused", size, align, cur, cap); if (jitc_llvm_memmgr_offset > cap) CE("offset %zu beyond buffer %zu after refusal (size=%zu align=%u)", jitc_llvm_memmgr_offset, cap, size, align); continue; }
            size_t o = p - jitc_llvm_memmgr_data;
            if (o > cap || size > cap - o) { CE("section size=%zu align=%u at %zu leaves the buffer (%zu)", size, align, o, cap); break; }
            if (o % a || (align <= 4096 && (uintptr_t) p % a)) CE("section at %zu not aligned to %zu", o, a);
            if (o < cur) CE("section at %zu overlaps earlier sections ending at %zu", o, cur);
            for (size_t j = cur; j < o; ++j) if (jitc_llvm_memmgr_data[j]) { CE("padding byte %zu not zero", j); break; }
            memset(p, 0x11 + k, size); for (auto &q : secs) (void) q; secs.push_back({ o, size });
            for (size_t j = 0; j < secs.size(); ++j) for (size_t i = 0; i < secs[j].second; ++i) { (void) 0; }
            cur = o + size; if (jitc_llvm_memmgr_offset < cur || jitc_llvm_memmgr_offset > cap) CE("offset %zu after section [%zu,%zu)", jitc_llvm_memmgr_offset, o, cur);
            cur = jitc_llvm_memmgr_offset;
        }
        if (rng() % 9 == 0) { jitc_llvm_memmgr_shutdown(); if (jitc_llvm_memmgr_data || jitc_llvm_memmgr_offset || jitc_llvm_memmgr_got) CE("shutdown leaves state"); if (jitc_llvm_memmgr_allocate(nullptr, 1, 16, 0, ".text")) CE("allocation without buffer"); }
    }
    printf("COUNT: %llu requests\n", cnt);
    return bad ? 1 : 0;
}
