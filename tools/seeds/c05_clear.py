property='C05'
edits=[('src/registry.cpp', '    // Mark all reverse map entries as cleared before clearing forward maps\n    for (auto it = r.rev_map.begin(); it != r.rev_map.end(); ++it)\n        it.value().index = UINT32_MAX;\n\n', ''), ('src/registry.cpp', '    if (it->second.index == UINT32_MAX) // cleared pointer\n        return 0;', '    if (it->second.index >= r.domains[it->second.domain_id].fwd_map.size()) // cleared pointer\n        return 0;'), ('src/registry.cpp', '    if (rk.index == UINT32_MAX) {', '    if (rk.index >= r.domains[rk.domain_id].fwd_map.size()) {')]
needs='the registry is cleared, other instances are registered afterwards, then a pointer from before the clearing is looked up'
breaks='cleared pointers are recognized by an index beyond the map, which stops working once the map grows again: two pointers share one id'
demo=r'''
#include "jit_stubs.h"
#include "src/registry.cpp"
#include <cstdio>
int main() { static char m[64]; const char *v = "llvm", *d = "A"; auto put = [&](int i) { return jitc_registry_put(v, d, m + i); };
    put(0); put(1); put(2); jitc_registry_clear(); put(10); put(11); uint32_t a = jitc_registry_id(m + 1), b = jitc_registry_id(m + 11); printf("%u %u\n", a, b); return a == 0 && b == 2 ? 0 : 1; }
'''
