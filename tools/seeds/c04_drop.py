property="C04"
full=True
edits=[("src/var.cpp","""    if (it != cache.end() && it->second == index)
        cache.erase_fast(it);""","""    if (it != cache.end() && it->second <= index)
        cache.erase_fast(it);""")]
needs="an unregistered duplicate (created with value numbering disabled) that is released while the registered variable has a lower index, followed by creating the same expression twice"
breaks="releasing the duplicate removes the entry of the registered variable: the expression is not found again"
demo=r'''
#include "full.h"
int main() { full_init(); Var a = arr<uint32_t>({ 1, 2 }), b = arr<uint32_t>({ 3, 4 }), s(jit_var_add(a, b)); jit_set_flag(JitFlag::ReuseIndices, 0);
    { jit_set_flag(JitFlag::ValueNumbering, 0); Var d(jit_var_add(a, b)); jit_set_flag(JitFlag::ValueNumbering, 1); if (d.i == s.i) return 1; }
    Var e(jit_var_add(a, b)); printf("r%u r%u\n", s.i, e.i); return e.i == s.i ? 0 : 1; }
'''
