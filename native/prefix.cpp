// C08 counterexample search: block_prefix_reduce against a straightforward running fold
#include "red_common.h"
static uint32_t CORES[] = { 1, 2, 3, 4, 8, 17 }, BLOCKS[] = { 2, 4, 8, 16, 64, 256 };
struct PR { template <typename T> void operator()(VarType vt) {
    using A = typename Acc<T>::type; constexpr bool fl = !std::is_integral_v<T>;
    for (uint32_t rep = 0; rep < n; ++rep) {
        int op = OPSOF(fl, (int) (rng() % 60)); jitc_llvm_block_size = BLOCKS[rng() % 6]; g_pool_size = CORES[rng() % 6];
        uint32_t size = pick_size(rep, jitc_llvm_block_size), bs = pick_bs(size, jitc_llvm_block_size); bool ex = rng() & 1, rv = rng() & 2, ip = rng() & 4; ncase++;
        std::vector<T> in(size), out(size + 2); for (auto &v : in) v = sample<T>(op); std::vector<T> keep = in; memset(out.data(), 0x5a, (size + 2) * sizeof(T)); if (ip) memcpy(out.data(), in.data(), size * sizeof(T)); auto o2 = out;
        g_allocs = 0; ts()->LLVMThreadState::block_prefix_reduce(vt, (ReduceOp) op, size, bs, ex, rv, ip ? out.data() : in.data(), out.data()); settle();
        char what[256]; snprintf(what, sizeof what, "block_prefix_reduce(%s, %s, size=%u, block=%u, exclusive=%d, reverse=%d%s) [cores %u, unit %u]", type_name[(int) vt], ON[op], size, bs, ex, rv, ip ? ", in place" : "", g_pool_size, jitc_llvm_block_size);
        if (g_allocs) report("%s leaks %lld buffers", what, (long long) g_allocs);
        if (memcmp(in.data(), keep.data(), size * sizeof(T)) || memcmp(&out[size], &o2[size], 2 * sizeof(T))) report("%s modifies the input or writes past the output", what);
        for (uint64_t b = 0, bad = 0; b < size && !bad; b += bs) {
            uint64_t e = std::min<uint64_t>(b + bs, size); A acc = ident<A>(op);
            for (uint64_t q = 0; q < e - b; ++q) { uint64_t j = rv ? e - 1 - q : b + q; A nx = fold1<A>(op, acc, (A) keep[j]); T want = ex ? (T) acc : (T) nx; if (bs == 1 && !ex) want = keep[j]; acc = nx;
                if (!same<T>(out[j], want)) { report("%s: element %u is wrong", what, (uint32_t) j); bad = 1; break; } }
        }
    } } uint32_t n; };
int main() { bool th = init_seed(); uint32_t f = th ? 20 : 1; PR p; p.n = 6000 * f; for_types(p); return done("prefix reductions"); }
