// C21 counterexample search: programs that create nodes in many scopes, with the scope counter moved close to its limit
#include "full.h"
#define TEST(c, ...) do { ncase++; if (!(c)) report(__VA_ARGS__); } while (0)
struct N { Var v; uint32_t scope, op, a, b; };
static uint32_t scope_of(uint32_t i) { lock_guard g(state.lock); return state.variables[i].scope; }
static uint32_t build(uint32_t op, uint32_t a, uint32_t b) { return op == 0 ? jit_var_add(a, b) : op == 1 ? jit_var_mul(a, b) : jit_var_xor(a, b); }
int main() { full_init(); full_target(); int nr = g_thorough ? 4000 : 500; jit_set_flag(JitFlag::ValueNumbering, 1);
    std::vector<Var> in; for (uint32_t k = 0; k < 4; ++k) in.push_back(arr<uint32_t>({ k + 1, 7 * k + 2, 3 }));
    for (int it = 0; it < nr; ++it) { std::vector<N> ns; std::vector<uint32_t> se; jit_new_scope(LL); uint32_t steps = 10 + rng() % 60;
        { lock_guard g(state.lock); if (rng() % 4) state.scope_ctr = std::max(state.scope_ctr, 0xffffffffu - (uint32_t) (rng() % 8)); }
        if (rng() % 2) jit_new_scope(LL);
        for (uint32_t s = 0; s < steps; ++s) { std::vector<uint32_t> before; for (auto &n : ns) before.push_back(scope_of(n.v)); for (uint32_t i : se) before.push_back(scope_of(i)); uint32_t tsb, op = rng() % 8; { lock_guard g(state.lock); tsb = thread_state(LL)->scope; } bool moved = false; uint32_t now = 0;
            if (op < 3) { now = jit_new_scope(LL); moved = true; uint32_t t; { lock_guard g(state.lock); t = thread_state(LL)->scope; } TEST(t == now, "jit_new_scope() returns %u but the thread is in scope %u", now, t); }
            else if (op == 3 && rng() % 2) { uint32_t n = rng() % 3 ? (uint32_t) (rng() % 5) : 0xfffffff0u, c0, c1; { lock_guard g(state.lock); c0 = state.scope_ctr; now = jitc_advance_scope(LL, n); c1 = state.scope_ctr; } TEST(c1 >= c0 && now == c1 && (n > 0xffffffffu - c0 ? c1 == 0xffffffffu : c1 == c0 + n), "advancing the scope by %u changes the counter from %u to %u", n, c0, c1); }
            else { uint32_t o = rng() % 3, a = rng() % 4, b = rng() % 4; Var v(build(o, in[a], in[b])); uint32_t sc = scope_of(v), t; { lock_guard g(state.lock); t = thread_state(LL)->scope; } TEST(sc == t, "a node created in scope %u has scope %u", t, sc);
                for (auto &n : ns) if (n.op == o && ((n.a == a && n.b == b) || (n.a == b && n.b == a)) && scope_of(n.v) == t && n.a == a) TEST(n.v.i == v.i, "equal nodes r%u and r%u of one scope are not shared (after a renumbering)", n.v.i, v.i);
                ns.push_back({ v, sc, o, a, b }); if (ns.size() > 12) { size_t k = rng() % ns.size(); if (rng() % 3 == 0 && se.size() < 4) { lock_guard g(state.lock); uint32_t i = ns[k].v; if (std::find(se.begin(), se.end(), i) == se.end()) { jitc_var_inc_ref_se(i); se.push_back(i); } } ns.erase(ns.begin() + k); } before.push_back(sc); continue; }
            // renumbering preserves order and equality; the new scope follows everything
            std::vector<uint32_t> after; for (auto &n : ns) after.push_back(scope_of(n.v)); for (uint32_t i : se) after.push_back(scope_of(i));
            for (size_t i = 0; i < after.size(); ++i) for (size_t j = 0; j < after.size(); ++j) TEST((before[i] < before[j]) == (after[i] < after[j]) && (before[i] == before[j]) == (after[i] == after[j]), "scopes %u and %u become %u and %u", before[i], before[j], after[i], after[j]);
            for (size_t i = 0; i < after.size(); ++i) { TEST(after[i] >= SCOPE_DYNAMIC, "a dynamic scope becomes the reserved scope %u", after[i]); if (moved) TEST(now > after[i], "the new scope %u does not follow scope %u that is in use", now, after[i]); }
            { lock_guard g(state.lock); TEST(state.scope_ctr >= SCOPE_DYNAMIC, "the scope counter is %u", state.scope_ctr); for (uint32_t k = 0; k < 4; ++k) TEST(state.variables[in[k].i].scope < SCOPE_DYNAMIC, "an evaluated variable moved to scope %u", state.variables[in[k].i].scope);
                // the value numbering table agrees with the variables
                for (auto &kv : state.lvn_map) { TEST(state.variables[kv.second].ref_count || state.variables[kv.second].ref_count_se, "the value numbering table refers to the unused variable r%u", kv.second); TEST(VariableKey(state.variables[kv.second]) == kv.first, "the entry of r%u does not match its variable", kv.second); auto f = state.lvn_map.find(VariableKey(state.variables[kv.second])); TEST(f != state.lvn_map.end() && f->second == kv.second, "r%u is not found in the value numbering table", kv.second); } }
            for (auto &n : ns) { TEST(jit_var_ref(n.v) >= 1, "a live variable lost its references"); }
        }
        for (uint32_t i : se) { lock_guard g(state.lock); jitc_var_dec_ref_se(i); } se.clear();
        size_t m; { lock_guard g(state.lock); m = state.lvn_map.size(); } size_t exp = ns.size(); (void) exp; ns.clear(); { lock_guard g(state.lock); TEST(state.lvn_map.size() <= m, "entries of released variables remain"); if (it % 50 == 0) TEST(state.lvn_map.size() == 0, "%zu entries of released variables remain", state.lvn_map.size()); }
        if (it % 25 == 0) { Var a(jit_var_add(in[0], in[1])); jit_new_scope(LL); Var b(jit_var_add(a, in[2])); { lock_guard g(state.lock); state.scope_ctr = 0xffffffffu; } jit_new_scope(LL); Var c(jit_var_mul(b, a)); TEST(get<uint32_t>(c)[1] == (2 + 9) * (2 + 9 + 16), "wrong result after a renumbering"); }
    }
    return full_done("scopes"); }
