// C03 counterexample search: random histories of operations; after every step the reference counts of all variables are recomputed from
// the handles held by this program and the operands recorded in the variable table, and values are compared with a reference
#include "full.h"
#include <map>
#include <set>
struct H { Var v; std::vector<uint32_t> m; std::set<uint32_t> w; int wop = -1; }; // w: elements written since the last evaluation (overlapping writes require one)
static std::vector<H> pool; static std::vector<Var> other, masks; static std::map<uint64_t, int> cbs; static uint64_t ncb = 0; static std::string hist; static bool in_cb_op = false;
static H ka, kb; static std::vector<H> made; // operands of expressions that callbacks create again
static H expr(int k) { std::vector<uint32_t> m(ka.m); for (size_t i = 0; i < m.size(); ++i) m[i] = k == 0 ? ka.m[i] + kb.m[i] : k == 1 ? ka.m[i] * kb.m[i] : ka.m[i] ^ kb.m[i]; return { Var(k == 0 ? jit_var_add(ka.v, kb.v) : k == 1 ? jit_var_mul(ka.v, kb.v) : jit_var_xor(ka.v, kb.v)), m, {}, -1 }; }
struct CB { uint64_t id; uint32_t index, counter; }; static std::vector<CB> cbl;
static void callback(uint32_t, int free, void *d) { if (free) { cbs[(uint64_t) (uintptr_t) d]++; if (in_cb_op) { Var t = lit<uint32_t>((uint32_t) rng(), 1 + rng() % 3), u = lit<uint32_t>(7); Var w(jit_var_add(t, u)); if (ka.v && made.size() < 4) made.push_back(expr((int) (rng() % 3))); } } }
static bool bad = false;
static void audit(const char *what) {
    if (bad) return; size_t n = state.variables.size(); std::vector<uint64_t> rc(n), se(n); auto own = [&](uint32_t i) { if (i) { if (i >= n) { report("a handle refers to variable %u outside of the table after: %s", i, hist.c_str()); bad = true; return; } rc[i]++; } };
    for (auto &h : pool) own(h.v); for (auto &v : other) own(v); own(ka.v); own(kb.v); for (auto &h : made) own(h.v);
    ThreadState *ts = thread_state(LL); for (uint32_t i : ts->side_effects) own(i); for (uint32_t i : ts->side_effects_symbolic) own(i); for (uint32_t i : ts->mask_stack) own(i); size_t live = 0;
    for (size_t i = 1; i < n && !bad; ++i) { const Variable &v = state.variables[i]; if (!v.ref_count && !v.ref_count_se) continue; live++; if (v.write_ptr) { if (v.dep[3]) se[v.dep[3]]++; } else for (int k = 0; k < 4; ++k) if (v.dep[k]) rc[v.dep[k]]++; }
    for (size_t i = 1; i < n && !bad; ++i) { const Variable &v = state.variables[i]; ncase++; if (v.ref_count != rc[i] || v.ref_count_se != se[i]) { report("variable r%zu has %u + %u references, but %llu + %llu owners after: %s", i, v.ref_count, v.ref_count_se, (unsigned long long) rc[i], (unsigned long long) se[i], hist.c_str()); bad = true; } }
    for (auto &c : cbl) { const Variable &v = state.variables[c.index]; bool alive = v.counter == c.counter && (v.ref_count || v.ref_count_se); int k = cbs.count(c.id) ? cbs[c.id] : 0; ncase++; if (k != (alive ? 0 : 1) && !bad) { report("the callback of a %s variable was invoked %d times after: %s", alive ? "live" : "released", k, hist.c_str()); bad = true; } }
    // slots: the free list holds exactly the dead slots
    if (!bad && state.unused_variables.size() != n - 1 - live) { report("%zu slots are unused, but the free list holds %zu entries after: %s", n - 1 - live, (size_t) state.unused_variables.size(), hist.c_str()); bad = true; }
    // entries of the value numbering table refer to live variables with that key
    for (auto &kv : state.lvn_map) { uint32_t i = kv.second; ncase++; if (bad) break; if (i >= n || (!state.variables[i].ref_count && !state.variables[i].ref_count_se) || !(VariableKey(state.variables[i]) == kv.first)) { report("the value numbering table refers to a released or different variable r%u after: %s", i, hist.c_str()); bad = true; } }
}
static void value(size_t k) { if (bad) return; H &h = pool[k]; auto g = get<uint32_t>(h.v); ncase++; if (g != h.m) { std::string a, b; for (auto x : g) a += std::to_string(x) + " "; for (auto x : h.m) b += std::to_string(x) + " "; report("value of r%u: [ %s], expected [ %s] after: %s", h.v.i, a.c_str(), b.c_str(), hist.c_str()); bad = true; } }
static std::vector<uint32_t> bc(const std::vector<uint32_t> &m, size_t n) { return m.size() == n ? m : std::vector<uint32_t>(n, m[0]); }
static void run(int steps, int N) {
    hist.clear(); if (getenv("DBG")) fprintf(stderr, "\n== "); cbl.clear(); cbs.clear(); in_cb_op = rng() & 1; uint32_t fl = 0;
    auto push = [&](Var v, std::vector<uint32_t> m) { pool.push_back({ std::move(v), std::move(m) }); };
    auto S = [&](const char *f, ...) { char b[256]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); hist += b; hist += "; "; if (getenv("DBG")) fprintf(stderr, "%s; ", b); };
    { std::vector<uint32_t> x(N), y(N); for (auto &z : x) z = (uint32_t) (rng() % 100); for (auto &z : y) z = (uint32_t) (rng() % 100); ka = { arr<uint32_t>(x), x, {}, -1 }; kb = { arr<uint32_t>(y), y, {}, -1 }; } jit_set_flag(JitFlag::ReuseIndices, rng() & 1); jit_set_flag(JitFlag::ValueNumbering, rng() % 4 != 0);
    for (int s = 0; s < steps && !bad; ++s) {
        if (rng() % 12 == 0) { H p = expr(0), q = expr(1); S("r%u = add, r%u = mul", p.v.i, q.v.i); if (!state.variables[p.v.i].is_evaluated() && !state.variables[p.v.i].extra) { uint64_t id = ++ncb; S("callback on r%u", p.v.i); jit_var_set_callback(p.v, callback, (void *) (uintptr_t) id); cbl.push_back({ id, p.v, state.variables[p.v.i].counter }); } bool sch = rng() & 1; if (sch) jit_var_schedule(q.v); std::vector<uint32_t> m(N); for (int t = 0; t < N; ++t) m[t] = p.m[t] - q.m[t]; { Var r(jit_var_sub(p.v, q.v)); S("r%u = sub", r.i); pool.push_back({ r, m, {}, -1 }); } p = H(); q = H(); audit("sub"); if (rng() & 1) { S("drop"); pool.pop_back(); audit("drop"); } }
        if (made.size() && rng() % 4 == 0) { S("take r%u", made.back().v.i); pool.push_back(made.back()); made.pop_back(); value(pool.size() - 1); }
        if (pool.empty() || rng() % 6 == 0) { uint32_t x = rng() % 4; int k = rng() % 3; if (k == 0) { S("literal %u", x); push(lit<uint32_t>(x), { x }); } else if (k == 1) { S("literal %u x%d", x, N); push(lit<uint32_t>(x, N), std::vector<uint32_t>(N, x)); }
            else { std::vector<uint32_t> v(N); for (auto &y : v) y = (uint32_t) (rng() % 100); S("array"); push(arr<uint32_t>(v), v); } audit("new"); continue; }
        size_t i = rng() % pool.size(), j = rng() % pool.size(); H a = pool[i], b = pool[j]; size_t n = std::max(a.m.size(), b.m.size()); int op = rng() % 25; { const char *dis = getenv("DIS"); if (dis) { std::string d = std::string(",") + dis + ",", o = "," + std::to_string(op) + ","; if (d.find(o) != std::string::npos) continue; } } auto A = bc(a.m, n), B = bc(b.m, n), R = A; 
        auto bin = [&](auto f) { for (size_t q = 0; q < n; ++q) R[q] = f(A[q], B[q]); };
        switch (op) {
            case 0: S("r%u+r%u", a.v.i, b.v.i); bin([](uint32_t x, uint32_t y) { return x + y; }); push(Var(jit_var_add(a.v, b.v)), R); break;
            case 1: S("r%u*r%u", a.v.i, b.v.i); bin([](uint32_t x, uint32_t y) { return x * y; }); push(Var(jit_var_mul(a.v, b.v)), R); break;
            case 2: S("r%u^r%u", a.v.i, b.v.i); bin([](uint32_t x, uint32_t y) { return x ^ y; }); push(Var(jit_var_xor(a.v, b.v)), R); break;
            case 3: { S("select(r%u<r%u)", a.v.i, b.v.i); bin([](uint32_t x, uint32_t y) { return x < y ? x : y; }); Var m(jit_var_lt(a.v, b.v)); push(Var(jit_var_select(m, a.v, b.v)), R); break; }
            case 4: S("max(r%u,r%u)", a.v.i, b.v.i); bin([](uint32_t x, uint32_t y) { return x > y ? x : y; }); push(Var(jit_var_max(a.v, b.v)), R); break;
            case 5: S("copy of handle r%u", a.v.i); push(a.v, a.m); pool.back().w = a.w; pool.back().wop = a.wop; break;
            case 6: case 7: case 8: S("drop r%u", a.v.i); pool.erase(pool.begin() + i); break;
            case 9: S("eval r%u", a.v.i); jit_var_eval(a.v); break;
            case 10: S("schedule r%u", a.v.i); jit_var_schedule(a.v); break;
            case 11: { S("schedule_force r%u", a.v.i); int rv; push(Var(jit_var_schedule_force(a.v, &rv)), a.m); break; }
            case 12: S("jit_eval"); jit_eval(); break;
            case 13: S("jit_var_copy r%u", a.v.i); push(Var(jit_var_copy(a.v)), a.m); break;
            case 14: case 15: { // scatter into a vector: the handle is replaced by the result
                if (a.m.size() == 1) break; bool acc = op == 15, one = b.m.size() == 1 && rng() % 2; Var bv = b.v; uint32_t bm = b.m[0]; a = H(); b = H();
                for (int rep = 1 + (int) (rng() % 3); rep > 0; --rep) { H &t = pool[i]; uint32_t at = (uint32_t) (rng() % N), val = (uint32_t) (rng() % 9), src = t.v; bool act = rng() % 4 != 0; if (i == j) one = false;
                    Var idx = rng() & 1 ? arr<uint32_t>({ at }) : lit<uint32_t>(at), vv = rng() & 1 ? lit<uint32_t>(val) : arr<uint32_t>({ val }); if (one) { vv = bv; val = bm; } else bv = Var();
                    if (t.w.count(at) && !(acc && t.wop == 1)) { jit_var_eval(src); t.w.clear(); } if (t.wop != acc) t.wop = t.w.empty() ? acc : 2; t.w.insert(at); ReduceMode md = rng() & 1 ? ReduceMode::Auto : acc ? ReduceMode::Direct : t.wop == 0 ? ReduceMode::Permute : ReduceMode::Auto; S("r%u[%u] %s %u (mode %d, mask %d)", src, at, acc ? "+=" : "=", val, (int) md, act);
                    { Var r(jit_var_scatter(src, vv, idx, lit<bool>(act), acc ? ReduceOp::Add : ReduceOp::Identity, md)); t.v = r; } if (act) { if (acc) t.m[at] += val; else t.m[at] = val; } } break; }
            case 16: { if (a.m.size() == 1) break; std::vector<uint32_t> ix(b.m.size()); std::vector<uint32_t> r(b.m.size()); Var m = lit<uint32_t>(N), q(jit_var_mod(b.v, m)); for (size_t t = 0; t < r.size(); ++t) r[t] = a.m[b.m[t] % N]; S("gather r%u[r%u %% %d]", a.v.i, b.v.i, N); Var g(jit_var_gather(a.v, q, lit<bool>(true))); push(g, r); break; }
            case 17: { S("label r%u", a.v.i); uint32_t src = pool[i].v; a = H(); if (i == j) b = H(); Var r(jit_var_set_label(src, 1, "label")); pool[i].v = r; break; }
            case 18: { S("callback on %u", (uint32_t) ncb); Var t(jit_var_copy(a.v)); a = H(); if (jit_var_ref(t) == 1) { uint64_t id = ++ncb; jit_var_set_callback(t, callback, (void *) (uintptr_t) id); cbl.push_back({ id, t, state.variables[t].counter }); } push(t, pool[i].m); break; }
            case 19: { S("resize r%u", a.v.i); if (a.m.size() == 1) push(Var(jit_var_resize(a.v, N)), bc(a.m, N)); else push(Var(jit_var_resize(a.v, N)), a.m); break; }
            case 20: { S("stash r%u", a.v.i); uint64_t h = jit_var_stash_ref(a.v); Var t = a.v; if (jit_var_ref(t) > 60000) break; Var q(jit_var_add(t, b.v)); bin([](uint32_t x, uint32_t y) { return x + y; }); push(q, R); jit_var_unstash_ref(h); break; }
            case 21: { if (masks.size() < 3 && rng() & 1) { std::vector<bool> m(1, true); Var t = arr<bool>(m); masks.push_back(t); S("push mask r%u", t.i); jit_var_mask_push(LL, t); masks.back() = Var(); } else if (!masks.empty()) { S("pop mask"); masks.pop_back(); jit_var_mask_pop(LL); } break; }
            case 22: { S("write r%u", a.v.i); size_t at = rng() % a.m.size(); uint32_t val = (uint32_t) rng(), src = pool[i].v; a = H(); if (i == j) b = H(); Var r(jit_var_write(src, at, &val)); pool[i].v = r; pool[i].m[at] = val; break; }
            case 24: { // a node with four operands (never evaluated)
                if (other.size() > 3) { S("drop node r%u", other[0].i); other.erase(other.begin()); break; } uint32_t d[4]; for (auto &x : d) { H &h = pool[rng() % pool.size()]; x = jit_var_ref(h.v) ? h.v.i : 0; jit_var_eval(x); } if (rng() & 1) d[3] = d[rng() % 3]; S("node of r%u, r%u, r%u, r%u", d[0], d[1], d[2], d[3]);
                { lock_guard g(state.lock); other.push_back(Var(jitc_var_new_node_4(LL, VarKind::Select, VarType::UInt32, N, false, d[0], jitc_var(d[0]), d[1], jitc_var(d[1]), d[2], jitc_var(d[2]), d[3], jitc_var(d[3]), 0))); } break; }
            case 23: { int k = rng() % 4; S("%s", k == 0 ? "prefix push" : k == 1 ? "prefix pop" : k == 2 ? "new scope" : "toggle index reuse"); if (k == 0) { jit_prefix_push(LL, "p"); fl++; } else if (k == 1 && fl) { jit_prefix_pop(LL); fl--; } else if (k == 2) jit_new_scope(LL); else if (k == 3) jit_set_flag(JitFlag::ReuseIndices, rng() & 1); break; }
        }
        a = H(); b = H(); audit("step"); if (rng() % 5 == 0 && !pool.empty()) { size_t k = rng() % pool.size(); S("read r%u", pool[k].v.i); value(k); audit("read"); }
        if (pool.size() > 14) { S("drop r%u", pool[0].v.i); pool.erase(pool.begin()); audit("drop"); }
    }
    while (fl--) jit_prefix_pop(LL); while (!masks.empty()) { masks.pop_back(); jit_var_mask_pop(LL); }
    if (rng() & 1) for (size_t k = 0; k < pool.size(); ++k) value(k); S("end"); pool.clear(); other.clear(); ka.v = Var(); made.clear(); ka = H(); kb = H(); audit("end"); jit_eval(); audit("final eval"); if (bad) { _exit(full_done("histories")); }
    size_t live = 0; for (size_t i = 1; i < state.variables.size(); ++i) live += state.variables[i].ref_count || state.variables[i].ref_count_se; if (live) { report("%zu variables are never released after: %s", live, hist.c_str()); _exit(full_done("histories")); }
    jit_sync_thread(); size_t use = state.alloc_usage[0] + state.alloc_usage[(int) LL]; if (use) { report("%zu bytes of variable storage are never released after: %s", use, hist.c_str()); _exit(full_done("histories")); }
}
// stashed reference counts decide whether a write may happen in place: only if there was exactly one reference when the count was stashed
static void stashing() { for (uint32_t n : { 1u, 2u, 3u, 15u, 16u, 17u, 127u, 128u, 129u, 255u, 256u, 257u, 4096u, 4097u, 32768u, 32769u, 65535u }) { Var t = arr<uint32_t>({ 1, 2, 3, 4 }); std::vector<Var> h; while (h.size() + 1 < n) h.push_back(t); uint64_t s = jit_var_stash_ref(t); ncase++; if (!s) report("nothing was stashed (%u references)", n); Var x; if (n == 1) x = t; uint32_t at = 2, val = 99; Var r(jit_var_scatter(t, lit<uint32_t>(val), lit<uint32_t>(at), lit<bool>(true))); if (n == 1 && r.i != t.i) report("a variable with one stashed reference is copied"); jit_var_unstash_ref(s); if (state.variables[t.i].ref_count_stashed) report("a stashed count remains"); jit_eval(); if (n > 1 && get<uint32_t>(t)[2] != 3) report("a write to a variable with %u stashed references is visible through the others", n);
        Var r2(jit_var_scatter(r, lit<uint32_t>(5), lit<uint32_t>(0), lit<bool>(true))); if (n == 1 && r2.i == r.i) report("a write to a shared variable happens in place after its count was restored"); } }
int main() { full_init(); full_target(); stashing(); int nh = g_thorough ? 6000 : 400; for (int h = 0; h < nh; ++h) { try { run(h % 2 ? 12 : 40, 1 + (h % 3) * 5 + (h % 3 == 0)); } catch (std::exception &e) { report("exception %s after: %s", e.what(), hist.c_str()); return full_done("histories"); } } return full_done("histories"); }
