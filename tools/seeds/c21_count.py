property='C21'
full=True
edits=[('src/var.cpp', '    std::sort(scopes.begin(), scopes.end());\n    scopes.erase(std::unique(scopes.begin(), scopes.end()), scopes.end());\n', '    std::sort(scopes.begin(), scopes.end());\n    std::unique(scopes.begin(), scopes.end());\n')]
needs='the scope counter wraps around while several nodes share a scope'
breaks='the list of scopes keeps a garbage tail after removing duplicates: it is no longer sorted, so that the binary search assigns wrong positions'
demo=r'''
#include "full.h"
static uint32_t sc(uint32_t i) { lock_guard g(state.lock); return state.variables[i].scope; }
static void wrap() { lock_guard g(state.lock); state.scope_ctr = 0xffffffffu; }
int main() { full_init(); jit_set_flag(JitFlag::ValueNumbering, 1); Var a = arr<uint32_t>({ 1, 2 }), b = arr<uint32_t>({ 3, 4 });
    std::vector<Var> v; for (int s = 0; s < 6; ++s) { jit_new_scope(LL); for (int k = 0; k < (s == 0 ? 6 : 2); ++k) { Var c = lit<uint32_t>(100 + s * 8 + k); v.push_back(Var(jit_var_add(a, c))); } }
    std::vector<uint32_t> o; for (auto &x : v) o.push_back(sc(x)); wrap(); jit_new_scope(LL); for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) if ((o[i] < o[j]) != (sc(v[i]) < sc(v[j]))) { printf("%u %u -> %u %u\n", o[i], o[j], sc(v[i]), sc(v[j])); return 1; }
    uint32_t c; { lock_guard g(state.lock); c = state.scope_ctr; } printf("%u\n", c); return c < 20 ? 0 : 1; }
'''
