#include <cstdio>
#include <cstdlib>
#include "/repo/src/internal.h"
extern "C" void w_config(uint32_t sm, uint32_t size, uint32_t maxt, uint32_t maxb, uint32_t *b, uint32_t *t) {
    // CUDADevice contains only the fields read by the method under contract; it is never constructed here
    alignas(CUDADevice) static unsigned char mem[sizeof(CUDADevice)];
    CUDADevice *d = (CUDADevice *) mem;
    d->sm_count = sm;
    d->get_launch_config(b, t, size, maxt, maxb);
}
extern "C" void w_config_null(uint32_t sm, uint32_t size, uint32_t *b, uint32_t *t) {
    alignas(CUDADevice) static unsigned char mem[sizeof(CUDADevice)];
    CUDADevice *d = (CUDADevice *) mem;
    d->sm_count = sm;
    d->get_launch_config(b, nullptr, size);
    d->get_launch_config(nullptr, t, size);
}
