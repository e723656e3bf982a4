property='C05'
edits=[('src/registry.cpp', '        while (domain.id_bound > 0 && !domain.fwd_map[domain.id_bound - 1].ptr)\n            domain.id_bound--;', '        do {\n            domain.id_bound--;\n        } while (domain.id_bound > domain.free_slots.size() && !domain.fwd_map[domain.id_bound - 1].ptr);')]
needs='the instance with the highest id is removed while at least as many ids are free as lie below it'
breaks='the reported bound no longer shrinks to the highest live id: peek returns no instance although one is registered'
demo=r'''
#include "jit_stubs.h"
#include "src/registry.cpp"
#include <cstdio>
int main() { static char m[64]; const char *v = "llvm", *d = "A"; auto put = [&](int i) { return jitc_registry_put(v, d, m + i); };
    for (int i = 0; i < 6; ++i) put(i); for (int i : { 1, 2, 3, 4 }) jitc_registry_remove(m + i); jitc_registry_remove(m + 5);
    uint32_t b = jitc_registry_id_bound(v, d); void *p = jitc_registry_peek(v, d); printf("%u %p\n", b, p); return b == 1 && p == m ? 0 : 1; }
'''
