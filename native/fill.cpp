// C10 counterexample search: memset_async, poke, memcpy(_async) and aggregate against byte-wise references
#include <sys/mman.h>
#include <unistd.h>
#include "red_common.h"
static uint32_t CORES[] = { 0, 1, 2, 3, 4, 8 }, BLOCKS[] = { 2, 3, 4, 8, 16, 64, 256 };
typedef std::vector<uint8_t> Bytes;
static Bytes noise(size_t n) { Bytes b(n); for (auto &x : b) x = (uint8_t) rng(); return b; }
static void same(const Bytes &a, const Bytes &b, const char *fmt, ...) {
    if (a == b) return; size_t i = 0; while (a[i] == b[i]) ++i; char w[256]; va_list v; va_start(v, fmt); vsnprintf(w, sizeof w, fmt, v); va_end(v);
    report("%s: byte %zu is %02x instead of %02x", w, i, a[i], b[i]);
}
static void setup() { g_defer = rng() % 2; g_pool_size = CORES[rng() % 6]; jitc_llvm_block_size = BLOCKS[rng() % 7]; }
static void finish() { nt_flush(); settle(); g_defer = false; }
static void fill(uint32_t n) {
    for (uint32_t r = 0; r < n; ++r) {
        setup(); uint32_t isz = 1u << (rng() % 4), size = rng() % 3 ? rng() % 70 : rng() % 3000, off = (rng() % 9) * 8; size_t cap = (size_t) size * isz + off + 40; ncase++;
        Bytes d = noise(cap), w = d; uint8_t val[8]; for (auto &x : val) x = (uint8_t) rng(); int k = rng() % 7;
        if (k == 0) memset(val, 0, 8); else if (k == 1) { memset(val, 0, 8); val[rng() % isz] = 1; } else if (k == 2) memset(val, 0xff, 8); else if (k == 3) val[0] = 0; else if (k == 4) memset(val, 0x80, 8); else if (k == 5) for (uint32_t i = 0, per = 1u << (rng() % 3); i + per < 8; ++i) val[i + per] = val[i];
        for (uint32_t i = 0; i < size; ++i) memcpy(&w[off + (size_t) i * isz], val, isz);
        uint8_t v2[8]; memcpy(v2, val, 8); memset(v2 + isz, 0xA5, 8 - isz); ts()->LLVMThreadState::memset_async(&d[off], size, isz, v2); memset(v2, 0x77, 8); finish();
        same(d, w, "memset_async(size=%u, isize=%u, value=%02x%02x%02x%02x%02x%02x%02x%02x)", size, isz, val[7], val[6], val[5], val[4], val[3], val[2], val[1], val[0]);
    }
    { // 4 GiB + 64 bytes of address space backed by one 2 MiB file mapped repeatedly, the last piece is separate memory
        size_t C = 1 << 21, n = (1ull << 32) / C; int fd = memfd_create("fill", 0);
        uint8_t *p = fd < 0 || ftruncate(fd, C) ? (uint8_t *) MAP_FAILED : (uint8_t *) mmap(nullptr, (n + 1) * C, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); bool ok = p != MAP_FAILED;
        for (size_t i = 0; ok && i < n; ++i) ok = mmap(p + i * C, C, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) != MAP_FAILED;
        for (uint32_t s : { 8u, 4u, 2u }) for (int z = 0; ok && z < 2; ++z) { memset(p, 0xab, C); memset(p + n * C, 0xab, C); uint64_t v = z ? 0x1111111111111111ull : 0; uint32_t cnt = (uint32_t) ((n * C + 64) / s); ncase++;
            ts()->LLVMThreadState::memset_async(p, cnt, s, &v); finish(); bool good = true; uint8_t w = (uint8_t) v; for (size_t i = 0; i < C; ++i) good &= p[i] == w; for (size_t i = 0; i < 128; ++i) good &= p[n * C + i] == (i < 64 ? w : 0xab);
            if (!good) report("memset_async(size=%u, isize=%u, value=%llx): region of 4 GiB + 64 bytes is not filled exactly", cnt, s, (unsigned long long) v); if (s != 8) break; }
        if (p != MAP_FAILED) munmap(p, (n + 1) * C); if (fd >= 0) close(fd); }
    for (uint32_t isz : { 0u, 3u, 5u, 16u, 0x80000000u, 256u }) { Bytes d = noise(64), w = d; uint64_t z = 0; bool threw = false; ncase++; try { ts()->LLVMThreadState::memset_async(d.data(), 2, isz, &z); } catch (const std::exception &) { threw = true; } finish(); if (!threw || d != w) report("memset_async accepts elements of %u bytes", isz); }
}
static void poke(uint32_t n) {
    for (uint32_t r = 0; r < n; ++r) {
        setup(); uint32_t isz = 1u << (rng() % 4), off = rng() % 32; Bytes d = noise(64), w = d, v = noise(8); ncase++; memcpy(&w[off], v.data(), isz);
        ts()->LLVMThreadState::poke(&d[off], v.data(), isz); v = noise(8); finish(); same(d, w, "poke(size=%u)", isz);
    }
}
static void copy(uint32_t n) {
    for (uint32_t r = 0; r < n; ++r) {
        setup(); uint32_t size = rng() % 3 ? rng() % 70 : rng() % 5000, off = rng() % 32; Bytes d = noise(size + 64), w = d, v = noise(size + 1); bool sync = rng() % 2; ncase++; if (size) memcpy(&w[off], v.data(), size);
        if (sync) ts()->LLVMThreadState::memcpy(&d[off], v.data(), size); else { ts()->LLVMThreadState::memcpy_async(&d[off], v.data(), size); nt_flush(); }
        same(d, w, "%s(size=%u)", sync ? "memcpy" : "memcpy_async", size); finish();
    }
}
static void aggregate(uint32_t n) {
    static const int SZ[] = { 1, 2, 4, 8, -1, -2, -4, -8 };
    for (uint32_t r = 0; r < n; ++r) {
        setup(); uint32_t cnt = 1 + (rng() % 3 ? rng() % 20 : rng() % 400); std::vector<AggregationEntry> e(cnt); std::vector<uint64_t> pool(cnt); uint32_t off = 0; ncase++;
        std::vector<uint32_t> order(cnt); std::iota(order.begin(), order.end(), 0u); for (uint32_t i = cnt; i > 1; --i) std::swap(order[i - 1], order[rng() % i]);
        for (uint32_t j : order) { int s = SZ[rng() % 8], a = std::abs(s); off = (off + a - 1) / a * a; memset(&e[j], 0, sizeof(AggregationEntry)); e[j].size = (int16_t) s; e[j].offset = off; pool[j] = rng(); e[j].src = s > 0 ? (const void *) (uintptr_t) rng() : (const void *) &pool[j]; off += a + (rng() % 4 ? 0 : rng() % 16); }
        Bytes d = noise(off + 64), w = d; for (auto &x : e) { uint64_t lit = (uint64_t) (uintptr_t) x.src; if (x.size > 0) memcpy(&w[x.offset], &lit, x.size); else memcpy(&w[x.offset], x.src, -x.size); }
        uint64_t *al = (uint64_t *) malloc(d.size() + 8); memcpy(al, d.data(), d.size());
        ts()->LLVMThreadState::aggregate(al, e.data(), cnt); nt_flush(); settle(); memcpy(d.data(), al, d.size()); free(al); g_defer = false;
        same(d, w, "aggregate of %u entries [cores %u, unit %u]", cnt, g_pool_size, jitc_llvm_block_size);
    }
}


int main() { uint32_t f = init_seed() ? 20 : 1; fill(20000 * f); poke(2000 * f); copy(3000 * f); aggregate(6000 * f); return done("fills, pokes, copies and aggregations"); }
