// counterexample search: launch configurations of the compiled real code
#include "nanothread_impl.h"
#include "jit_stubs.h"
#include "/repo/src/llvm_ts.cpp"
#include <cstdio>
uint32_t jitc_llvm_vector_width, jitc_llvm_block_size;
struct Range { uint64_t s, e; };
static std::vector<Range> ranges;
static int marker; static bool bad_param;
static void kern(uint64_t s, uint64_t e, uint32_t tid, void **p) {
    ranges.push_back({ s, e });
    if (p[3] != &marker || tid != g_thread) bad_param = true;
}
static void launch(uint32_t vec, uint32_t block, uint32_t cores, uint32_t size) {
    ncase++;
    jitc_llvm_vector_width = vec; jitc_llvm_block_size = block; g_pool_size = cores;
    ranges.clear(); bad_param = false;
    alignas(LLVMThreadState) static unsigned char mem[sizeof(LLVMThreadState)];
    Kernel k{}; void *reloc[1] = { (void *) kern }; k.llvm.reloc = reloc;
    alignas(16) static unsigned char kk[sizeof(KernelKey)]; KernelKey *key = (KernelKey *) kk; XXH128_hash_t h{};
    std::vector<void *> params(4); std::vector<uint32_t> ids;
    params[3] = &marker;
    Task *t = ((LLVMThreadState *) mem)->LLVMThreadState::launch(k, *key, h, size, params, ids, nullptr);
    task_release(t); scheduled_tasks.clear();
    std::sort(ranges.begin(), ranges.end(), [](const Range &a, const Range &b) { return a.s < b.s; });
    uint64_t pos = 0; bool ok = true;
    for (auto &r : ranges) { if (r.s != pos || r.e <= r.s || r.s % vec) ok = false; pos = r.e; }
    if (pos != size) ok = false;
    if (!ok) report("LLVM launch does not partition the array [%u %u %u %u]", vec, block, cores, size);
    if (bad_param) report("LLVM launch passes wrong parameters/thread id [%u %u %u %u]", vec, block, cores, size);
}
static void config(uint32_t sm, uint32_t size, uint32_t maxt, uint32_t maxb) {
    ncase++;
    alignas(CUDADevice) static unsigned char mem[sizeof(CUDADevice)];
    CUDADevice *d = (CUDADevice *) mem; d->sm_count = sm;
    uint32_t b = 0, t = 0;
    d->get_launch_config(&b, &t, size, maxt, maxb);
    if (!maxb && (uint64_t) b * t < size) report("get_launch_config does not cover the array [%u %u %u %u] [%u %u %u %u]", sm, size, maxt, maxb);
    if (!b || !t || t % 32) report("get_launch_config: empty or ragged blocks [%u %u %u %u] [%u %u %u %u]", sm, size, maxt, maxb);
    if (t > (maxt + 31) / 32 * 32) report("get_launch_config: too many threads per block [%u %u %u %u] [%u %u %u %u]", sm, size, maxt, maxb);
    if (maxb && (uint64_t) b > (uint64_t) maxb * sm) report("get_launch_config: block limit ignored [%u %u %u %u] [%u %u %u %u]", sm, size, maxt, maxb);
}
int main() {
    bool thorough = init_seed();
    uint32_t vecs[] = { 1, 2, 4, 8, 16, 32 }, coress[] = { 0, 1, 2, 3, 4, 6, 8, 16, 64, 300 };
    for (uint32_t v : vecs) for (uint32_t c : coress) {
        for (uint32_t blk : { v, std::max(v, 64u), 16384u }) {
            for (uint32_t sz = 1; sz <= 300; ++sz) launch(v, blk, c, sz);
            for (int i = 0; i < 60; ++i) { uint32_t base = blk * std::max(c, 1u) * 2; uint64_t sz = (uint64_t) base + (int) (rng() % 9) - 4; if (sz && sz < (1u << 24)) launch(v, blk, c, (uint32_t) sz);
                sz = (uint64_t) v * std::max(c, 1u) + (int) (rng() % 5) - 2; if (sz) launch(v, blk, c, (uint32_t) sz);
                launch(v, blk, c, 1 + (uint32_t) (rng() % (40 * (uint64_t) blk))); }
        }
        for (uint32_t sz : { 0xffffffffu, 0xfffffffeu, 0xffffc001u, 0xffffc000u, 0xffffbfffu, 0x80000001u, 0xfffffff0u }) launch(v, 1u << 20, c, sz), launch(v, v == 8 ? 16384 : 1u << 17, c, sz);
    }
    uint32_t sms[] = { 1, 2, 3, 5, 16, 17, 30, 46, 68, 82, 108, 128, 132 }, maxts[] = { 1, 31, 32, 33, 64, 96, 128, 256, 384, 512, 640, 768, 896, 1000, 1024 };
    for (uint32_t sm : sms) for (uint32_t mt : maxts) for (uint32_t mb : { 0u, 1u, 2u, 4u, 16u }) {
        for (uint32_t sz = 1; sz <= 400; ++sz) config(sm, sz, mt, mb);
        for (uint64_t w = 0; w <= 5ull * sm * ((mt + 31) / 32) + 40; w += 1 + (w > 3000 ? rng() % 37 : 0)) for (int d = -1; d <= 1; ++d) { int64_t sz = (int64_t) w * 32 + d; if (sz >= 1) config(sm, (uint32_t) sz, mt, mb); }
        for (int i = 0; i < 200; ++i) config(sm, (uint32_t) (rng() >> (32 + rng() % 32)) | 1u, mt, mb);
        for (uint32_t i = 0; i < 70; ++i) config(sm, 0xffffffffu - i, mt, mb);
    }
    for (int i = 0; i < (thorough ? 20000000 : 2000000); ++i) { uint32_t sz = (uint32_t) (rng() >> (32 + rng() % 31)); if (sz) config(1 + rng() % 200, sz, 1 + rng() % 1024, rng() % 3 ? 0 : rng() % 20); }
    return done("configurations");
}
