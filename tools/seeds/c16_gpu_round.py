property="C16"
edits=[("src/internal.h","block_count = (block_count + sm_count - 1) / sm_count * sm_count;","block_count = std::max(block_count / sm_count, 1u) * sm_count;")]
needs="a workload whose block count is between 1x and 4x the number of SMs and not a multiple of it, with the maximum number of warps per block reached"
breaks="get_launch_config rounds the block count down: the number of threads per block then exceeds the limit of the kernel"
demo=r'''
#include "nanothread_impl.h"
#include "jit_stubs.h"
int main() {
    alignas(CUDADevice) static unsigned char mem[sizeof(CUDADevice)];
    CUDADevice *d = (CUDADevice *) mem;
    for (uint32_t sm : { 3u, 16u, 46u, 82u }) for (uint32_t mt : { 256u, 512u, 1024u })
        for (uint32_t w = 1; w < sm * 4 * (mt / 32) + 50; ++w) {
            d->sm_count = sm; uint32_t b, t, size = w * 32 - 5;
            d->get_launch_config(&b, &t, size, mt, 0);
            if (t > mt || (uint64_t) b * t < size) { printf("sm=%u max=%u size=%u: %u x %u\n", sm, mt, size, b, t); return 1; }
        }
    return 0;
}
'''
