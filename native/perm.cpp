// C09 counterexample search: compress and block_mkperm against straightforward references
#include "red_common.h"
void jitc_sync_thread(ThreadState *) { nt_flush(); settle(); }
static uint32_t CORES[] = { 0, 1, 2, 3, 4, 8, 17 }, BLOCKS[] = { 2, 3, 4, 8, 16, 64, 256 };
static void setup() { g_defer = rng() % 2; g_pool_size = CORES[rng() % 7]; jitc_llvm_block_size = BLOCKS[rng() % 7]; g_allocs = 0; }
static void finish(const char *what) { nt_flush(); settle(); g_defer = false; if (g_allocs) report("%s leaks %lld buffers", what, (long long) g_allocs); }
static void compress(uint32_t n) {
    for (uint32_t r = 0; r < n; ++r) {
        setup(); uint32_t size = rng() % 50 == 0 ? 0 : r % 400 == 7 ? 8000 + rng() % 120000 : pick_size(r, jitc_llvm_block_size), dens = rng() % 5; std::vector<uint8_t> m(size), k; ncase++;
        for (auto &x : m) x = dens == 0 ? 0 : dens == 1 ? 1 : dens == 2 ? rng() % 2 : rng() % 20 == 0; if (size && dens < 2 && rng() % 2) m[rng() % size] ^= 1; if (size && rng() % 3 == 0) m[size - 1] = 1;
        k = m; std::vector<uint32_t> out(size + 4, 0xdeadbeef), want = out; uint32_t cnt = 0; for (uint32_t i = 0; i < size; ++i) if (m[i]) want[cnt++] = i;
        uint32_t got = ts()->LLVMThreadState::compress(m.data(), size, out.data()); char w[128]; snprintf(w, sizeof w, "compress(size=%u) [cores %u, unit %u]", size, g_pool_size, jitc_llvm_block_size); finish(w);
        if (got != cnt) report("%s: %u set positions instead of %u", w, got, cnt); if (out != want) report("%s: wrong list of positions", w); if (m != k) report("%s modifies the mask", w);
    }
}
static void perm(uint32_t n) {
    for (uint32_t r = 0; r < n; ++r) {
        setup(); uint32_t size = rng() % 60 == 0 ? 0 : pick_size(r, jitc_llvm_block_size), bs = size ? pick_bs(size, jitc_llvm_block_size) : 1, bc = rng() % 3 == 0 ? 1 + rng() % 300 : 1 + rng() % 6; if (r % 600 == 8) { size = 8000 + rng() % 60000; bs = rng() % 2 ? size : 1 + rng() % size; } bool off = rng() % 4; if (rng() % 3 == 0) bs = std::max(size, 1u); ncase++;
        std::vector<uint32_t> v(size), k; for (auto &x : v) x = rng() % bc; if (rng() % 4 == 0 && bc > 1) for (auto &x : v) if (x == 0) x = 1; k = v;
        std::vector<uint32_t> p(size + 4, 0xdeadbeef), pw = p, o(bc * 4 + 1, 0xcafecafe), ow = o; uint32_t uq = 0;
        for (uint64_t g = 0; g < size; g += bs) { uint64_t e = std::min<uint64_t>(g + bs, size), at = g; for (uint32_t b = 0; b < bc; ++b) { uint64_t first = at; for (uint64_t i = g; i < e; ++i) if (v[i] == b) pw[at++] = (uint32_t) i;
            if (off && bs >= size && at > first) { uint32_t q[4] = { b, (uint32_t) first, (uint32_t) (at - first), 0 }; memcpy(&ow[4 * uq], q, 16); uq++; } } }
        uint32_t got = ts()->LLVMThreadState::block_mkperm(v.data(), size, bs, bc, p.data(), off ? o.data() : nullptr); char w[160]; snprintf(w, sizeof w, "block_mkperm(size=%u, block=%u, buckets=%u, offsets=%d) [cores %u, unit %u]", size, bs, bc, off, g_pool_size, jitc_llvm_block_size); finish(w);
        if (got != uq) report("%s: %u unique values instead of %u", w, got, uq); if (p != pw) report("%s: wrong permutation", w); if (o != ow) report("%s: wrong bucket table", w); if (v != k) report("%s modifies its input", w);
    }
}
int main() { uint32_t f = init_seed() ? 20 : 1; compress(20000 * f); perm(12000 * f); return done("compressions and permutations"); }
