// C07 counterexample search: block_reduce, reduce_dot, reduce_expanded and literal reductions against a straightforward fold
#include "red_common.h"
static uint32_t CORES[] = { 0, 1, 2, 3, 4, 8, 17 }, BLOCKS[] = { 2, 4, 8, 16, 64, 256 };
struct BR { template <typename T> void operator()(VarType vt) {
    using A = typename Acc<T>::type; constexpr bool fl = !std::is_integral_v<T>;
    for (uint32_t rep = 0; rep < n; ++rep) {
        int op = OPSOF(fl, (int) (rng() % 60)); jitc_llvm_block_size = BLOCKS[rng() % 6]; g_pool_size = CORES[1 + rng() % 6];
        uint32_t size = pick_size(rep, jitc_llvm_block_size), bs = pick_bs(size, jitc_llvm_block_size), nb = (size + bs - 1) / bs;
        std::vector<T> in(size), out(nb + 2); for (auto &v : in) v = sample<T>(op); std::vector<T> keep = in; memset(out.data(), 0x5a, (nb + 2) * sizeof(T)); std::vector<T> o2 = out; ncase++;
        g_allocs = 0; ts()->LLVMThreadState::block_reduce(vt, (ReduceOp) op, size, bs, in.data(), out.data()); settle();
        if (g_allocs) report("block_reduce leaks %lld buffers", (long long) g_allocs);
        if (memcmp(in.data(), keep.data(), size * sizeof(T)) || memcmp(&out[nb], &o2[nb], 2 * sizeof(T))) report("block_reduce(%s, %s, size=%u, block=%u) [cores %u, unit %u] modifies the input or writes past the output", type_name[(int) vt], ON[op], size, bs, g_pool_size, jitc_llvm_block_size);
        for (uint32_t b = 0; b < nb; ++b) {
            A acc = ident<A>(op); for (uint64_t j = (uint64_t) b * bs; j < std::min<uint64_t>((uint64_t) (b + 1) * bs, size); ++j) acc = fold1<A>(op, acc, (A) in[j]);
            if (bs == 1) acc = (A) in[b];
            if (!same<T>(out[b], (T) acc)) { report("block_reduce(%s, %s, size=%u, block=%u) [cores %u, unit %u]: block %u is wrong", type_name[(int) vt], ON[op], size, bs, g_pool_size, jitc_llvm_block_size, b); break; }
        }
    } } uint32_t n; };
struct RE { template <typename T> void operator()(VarType vt) {
    constexpr bool fl = !std::is_integral_v<T>; using A = typename Acc<T>::type; if (sizeof(T) == 1) return;
    for (uint32_t rep = 0; rep < n; ++rep) {
        int op = OPSOF(fl, (int) (rng() % 60)); jitc_llvm_block_size = BLOCKS[rng() % 6]; g_pool_size = CORES[1 + rng() % 6];
        uint32_t size = pick_size(rep, jitc_llvm_block_size), exp = 1 + rng() % 9; if (rep % 5 == 0) size = 128 * (1 + rng() % 4) + rng() % 3 - 1;
        std::vector<T> p((size_t) size * exp); for (auto &v : p) v = sample<T>(op); auto k = p; ncase++;
        ts()->LLVMThreadState::reduce_expanded(vt, (ReduceOp) op, p.data(), exp, size); settle();
        for (uint32_t i = 0; i < size; ++i) { T acc = k[i]; for (uint32_t j = 1; j < exp; ++j) acc = (T) fold1<A>(op, (A) acc, (A) k[i + (size_t) j * size]);
            if (!same<T>(p[i], acc)) { report("reduce_expanded(%s, %s, size=%u, exp=%u) [cores %u, unit %u]: element %u is wrong", type_name[(int) vt], ON[op], size, exp, g_pool_size, jitc_llvm_block_size, i); break; } }
        if (memcmp(p.data() + size, k.data() + size, (p.size() - size) * sizeof(T))) report("reduce_expanded writes past the first %u elements", size);
    } } uint32_t n; };
template <typename T> static void dot(VarType vt, uint32_t n) {
    using A = typename Acc<T>::type;
    for (uint32_t rep = 0; rep < n; ++rep) {
        jitc_llvm_block_size = BLOCKS[rng() % 6]; g_pool_size = CORES[rng() % 7]; uint32_t size = pick_size(rep, jitc_llvm_block_size); ncase++;
        std::vector<T> a(size), b(size); for (auto &v : a) v = (T) (A) ((int) (rng() % 3) - 1); for (auto &v : b) v = (T) (A) ((int) (rng() % 3) - 1);
        T out[2]; out[1] = (T) (A) 7; ts()->LLVMThreadState::reduce_dot(vt, a.data(), b.data(), size, out); settle();
        double ref = 0; for (uint32_t i = 0; i < size; ++i) ref += (double) (A) a[i] * (double) (A) b[i];
        if ((double) (A) out[0] != ref || (double) (A) out[1] != 7) report("reduce_dot(%s, size=%u) [cores %u, unit %u]: %g instead of %g", type_name[(int) vt], size, g_pool_size, jitc_llvm_block_size, (double) (A) out[0], ref);
    }
}
template <typename T> static void scalar(VarType vt, uint32_t n) {
    for (uint32_t rep = 0; rep < n; ++rep) {
        uint64_t r = rng(); if (rep % 4 == 0) r &= 7; T v = (T) r; if (rep % 9 == 0) v = std::numeric_limits<T>::max(); if (rep % 11 == 0) v = (T) -1;
        uint32_t size = rep % 3 == 0 ? (uint32_t) rng() : rep % 3 == 1 ? (uint32_t) (rng() % 100) : 0xffffffffu - (uint32_t) (rng() % 3); uint64_t x = 0; ncase += 2;
        memcpy(&x, &v, sizeof(T)); jitc_reduce_scalar_add(vt, size, &x); unsigned __int128 s = (unsigned __int128) (uint64_t) v * size; T e = (T) (uint64_t) s, g; memcpy(&g, &x, sizeof(T));
        if (g != e) report("sum of %u literals %llx of type %s: %llx instead of %llx", size, (long long) v, type_name[(int) vt], (long long) g, (long long) e);
        if (x >> 1 >> (sizeof(T) * 8 - 1)) report("literal sum of type %s touches bytes outside of the value", type_name[(int) vt]);
        x = 0; memcpy(&x, &v, sizeof(T)); jitc_reduce_scalar_mul(vt, size, &x); memcpy(&g, &x, sizeof(T));
        uint64_t p = 1, b = (uint64_t) v; if (size < 300) for (uint32_t i = 0; i < size; ++i) p *= b; else for (uint32_t i = size; i; i >>= 1, b *= b) if (i & 1) p *= b;
        if (g != (T) p) report("product of %u literals %llx of type %s: %llx instead of %llx", size, (long long) v, type_name[(int) vt], (long long) g, (long long) (T) p);
    }
}
template <typename T> static void scalarf(VarType vt, uint32_t n) {
    using A = typename Acc<T>::type;
    for (uint32_t rep = 0; rep < n; ++rep) {
        int i = (int) (rng() % 9) - 4; uint32_t size = 1 + rng() % 400; T v = (T) (A) i, g; ncase += 2;
        uint64_t x = 0; memcpy(&x, &v, sizeof(T)); jitc_reduce_scalar_add(vt, size, &x); memcpy(&g, &x, sizeof(T));
        if ((double) (A) g != (double) i * size) report("sum of %u literals %d of type %s: %g", size, i, type_name[(int) vt], (double) (A) g);
        size = 1 + rng() % 7; x = 0; memcpy(&x, &v, sizeof(T)); jitc_reduce_scalar_mul(vt, size, &x); memcpy(&g, &x, sizeof(T));
        double p = 1; for (uint32_t k = 0; k < size; ++k) p *= i; if (sizeof(T) == 2 && std::fabs(p) > 2048) continue;
        if ((double) (A) g != p) report("product of %u literals %d of type %s: %g", size, i, type_name[(int) vt], (double) (A) g);
    }
}
int main() {
    bool th = init_seed(); uint32_t f = th ? 20 : 1;
    BR br; br.n = 4000 * f; for_types(br); RE re; re.n = 1500 * f; for_types(re);
    dot<drjit::half>(VarType::Float16, 2000 * f); dot<float>(VarType::Float32, 2000 * f); dot<double>(VarType::Float64, 2000 * f);
    scalar<int8_t>(VarType::Int8, 20000 * f); scalar<uint8_t>(VarType::UInt8, 20000 * f); scalar<int16_t>(VarType::Int16, 20000 * f); scalar<uint16_t>(VarType::UInt16, 20000 * f);
    scalar<int32_t>(VarType::Int32, 20000 * f); scalar<uint32_t>(VarType::UInt32, 20000 * f); scalar<int64_t>(VarType::Int64, 20000 * f); scalar<uint64_t>(VarType::UInt64, 20000 * f);
    scalarf<drjit::half>(VarType::Float16, 5000 * f); scalarf<float>(VarType::Float32, 5000 * f); scalarf<double>(VarType::Float64, 5000 * f);
    return done("reductions");
}
