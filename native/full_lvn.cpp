// C04 counterexample search: records passed to jitc_var_new that differ in exactly one respect must yield different variables, equal ones the same variable
#include "full.h"
#include <functional>
struct R { uint32_t kind, type, size, scope_steps; uint64_t literal; int nd; bool wp, wr; int arr; };
static std::vector<Var> D; static uint32_t np = 0;
static uint32_t mk(const R &r, const uint32_t *d, bool dis = false) {
    Variable v; v.backend = (uint32_t) LL; v.kind = r.kind; v.type = r.type; v.size = r.size; if (r.kind == (uint32_t) VarKind::Literal || !r.nd) v.literal = r.literal;
    lock_guard g(state.lock); for (int k = 0; k < r.nd; ++k) { v.dep[k] = d[k]; jitc_var_inc_ref(d[k]); }
    if (r.arr) { v.array_state = (uint32_t) ArrayState::Clean; v.array_length = (uint16_t) r.arr; } return jitc_var_new(v, dis); }
#define TEST(c, ...) do { ncase++; if (!(c)) report(__VA_ARGS__); } while (0)
int main() { full_init(); full_target(); int nr = g_thorough ? 200000 : 20000;
    for (int i = 0; i < 6; ++i) D.push_back(arr<uint32_t>({ (uint32_t) i, 1, 2 }));
    uint32_t kinds[] = { (uint32_t) VarKind::Add, (uint32_t) VarKind::Mul, (uint32_t) VarKind::Sub, (uint32_t) VarKind::Fma, (uint32_t) VarKind::Select, (uint32_t) VarKind::Gather, (uint32_t) VarKind::Literal, (uint32_t) VarKind::Counter, (uint32_t) VarKind::DefaultMask, (uint32_t) VarKind::Cast, (uint32_t) VarKind::Bitcast };
    uint32_t types_[] = { (uint32_t) VarType::UInt32, (uint32_t) VarType::Int32, (uint32_t) VarType::Float32, (uint32_t) VarType::Float16, (uint32_t) VarType::UInt64, (uint32_t) VarType::Float64, (uint32_t) VarType::Bool, (uint32_t) VarType::UInt8 };
    jit_set_flag(JitFlag::ValueNumbering, 1);
    for (int it = 0; it < nr; ++it) { jit_set_flag(JitFlag::ReuseIndices, rng() & 1);
        R r { kinds[rng() % 11], types_[rng() % 8], (uint32_t) (1 + rng() % 3), 0, rng() % 3 ? rng() % 4 : rng(), 0, false, false, 0 }; uint32_t d[4]; r.nd = (int) (rng() % 5); if (r.kind == (uint32_t) VarKind::Literal) r.nd = 0; for (auto &x : d) x = D[rng() % D.size()]; if (r.nd && rng() % 8 == 0) r.arr = 1 + (int) (rng() % 3);
        Var a(mk(r, d)); TEST(jit_var_ref(a) == 1 , "a new variable has %u references", jit_var_ref(a));
        uint32_t rd[4]; for (int k = 0; k < 4; ++k) rd[k] = jit_var_ref(d[k]);
        { Var b(mk(r, d)); TEST(a.i == b.i && jit_var_ref(a) == 2, "a record created twice (kind %u, %d operands) yields r%u and r%u with %u references", r.kind, r.nd, a.i, b.i, jit_var_ref(a)); for (int k = 0; k < 4; ++k) TEST(jit_var_ref(d[k]) == rd[k], "operand %d of a shared variable has %u instead of %u references", k, jit_var_ref(d[k]), rd[k]); }
        TEST(jit_var_ref(a) == 1, "releasing the second handle leaves %u references", jit_var_ref(a));
        auto differs = [&](const R &q, const uint32_t *e, const char *what) { Var b(mk(q, e)); TEST(b.i != a.i, "records that differ in the %s (kind %u/%u, type %u/%u, size %u/%u, literal %llx/%llx) share variable r%u", what, r.kind, q.kind, r.type, q.type, r.size, q.size, (unsigned long long) r.literal, (unsigned long long) q.literal, a.i); };
        { R q = r; do q.kind = kinds[rng() % 11]; while (q.kind == r.kind); if (r.nd || q.kind != (uint32_t) VarKind::Literal) if (!(r.nd && q.kind == (uint32_t) VarKind::Literal)) differs(q, d, "operation"); }
        { R q = r; do q.type = types_[rng() % 8]; while (q.type == r.type); differs(q, d, "type"); }
        { R q = r; q.size = r.size + 1 + (uint32_t) (rng() % 5); differs(q, d, "size"); }
        if (!r.nd) { R q = r; q.literal ^= 1ull << (rng() % 64); differs(q, d, "literal"); }
        for (int k = 0; k < r.nd; ++k) { uint32_t e[4]; memcpy(e, d, sizeof e); do e[k] = D[rng() % D.size()]; while (e[k] == d[k]); differs(r, e, "operands"); }
        if (r.nd >= 2 && d[0] != d[1]) { uint32_t e[4]; memcpy(e, d, sizeof e); std::swap(e[0], e[1]); differs(r, e, "order of the operands"); }
        if (r.nd && r.nd < 4) { R q = r; q.nd++; differs(q, d, "number of operands"); }
        if (r.arr) { R q = r; q.arr++; differs(q, d, "array length"); }
        { // opting out
            Var b(mk(r, d, true)); TEST(b.i != a.i, "a variable that opts out of value numbering is shared (r%u)", a.i); { Var t(b); b = Var(); } Var c(mk(r, d)); TEST(c.i == a.i, "releasing an unregistered duplicate removed the entry of r%u", a.i); }
        { jit_set_flag(JitFlag::ValueNumbering, 0); Var b(mk(r, d)); TEST(b.i != a.i, "variables are shared although value numbering is disabled (r%u)", a.i); jit_set_flag(JitFlag::ValueNumbering, 1); b = Var(); Var c(mk(r, d)); TEST(c.i == a.i, "releasing an unregistered duplicate removed the entry of r%u", a.i); }
        if (it % 3 == 0) { jit_new_scope(LL); Var b(mk(r, d)); TEST(b.i != a.i, "variables of different scopes are shared (r%u)", a.i); Var c(mk(r, d)); TEST(c.i == b.i, "equal records of one scope yield r%u and r%u", b.i, c.i); if (rng() & 1) { uint32_t o = a.i; Var t(b); a = Var(); Var e(mk(r, d)); TEST(e.i == b.i, "releasing r%u of another scope removed the entry of r%u", o, b.i); } }
        // after release, no stale entry remains
        uint32_t old = a.i; if (a && jit_var_ref(a) == 1) { a = Var(); Var b(mk(r, d)); TEST(jit_var_ref(b) == 1, "a released variable is found again (r%u)", old); }
    }
    // public interface: literals are compared bit by bit, evaluated variables are never shared
    { float z[2] = { 0.f, -0.f }; Var a = lit<float>(z[0]), b = lit<float>(z[1]); TEST(a.i != b.i, "0.0 and -0.0 share one literal"); Var c = lit<float>(0.f); TEST(c.i == a.i, "equal literals are not shared"); Var d = lit<uint32_t>(0); TEST(d.i != a.i, "literals of different type are shared"); Var e = lit<float>(0.f, 2); TEST(e.i != a.i, "literals of different size are shared"); }
    { Var a = arr<uint32_t>({ 1, 2 }), b = arr<uint32_t>({ 1, 2 }); TEST(a.i != b.i, "evaluated variables are shared"); Var c(jit_var_add(a, b)), d(jit_var_add(a, b)); TEST(c.i == d.i, "equal sums are not shared"); jit_var_eval(c); Var e(jit_var_add(a, b)); TEST(e.i != c.i || !state.variables[e.i].is_evaluated() || c.i == d.i, "?"); TEST(get<uint32_t>(e) == (std::vector<uint32_t>{ 2, 4 }), "wrong sum"); }
    for (int it = 0; it < nr / 10; ++it) { // pointers: read and write access, and their owner, differ
        Var o = D[rng() % D.size()]; void *p = state.variables[o.i].data; lock_guard g(state.lock); uint32_t a = jitc_var_pointer(LL, p, o, 0), b = jitc_var_pointer(LL, p, o, 1), c = jitc_var_pointer(LL, p, o, 0), e = jitc_var_pointer(LL, p, D[0], 0), f = jitc_var_pointer(LL, (uint8_t *) p + 4, o, 0); TEST(a != b, "pointers for reading and writing share r%u", a); TEST(a == c, "equal pointers are not shared"); TEST(o.i == D[0].i || e != a, "pointers with different owners share r%u", a); TEST(f != a, "pointers to different addresses share r%u", a); for (uint32_t x : { a, b, c, e, f }) jitc_var_dec_ref(x); }
    for (int it = 0; it < 200; ++it) { float x = (float) (rng() % 3); uint32_t n = 1 + (uint32_t) (rng() % 5), m = 1 + (uint32_t) (rng() % 5); Var a(jit_coop_vec_literal(LL, VarType::Float32, &x, 1, n)), b(jit_coop_vec_literal(LL, VarType::Float32, &x, 1, m)); TEST((a.i == b.i) == (n == m), "cooperative vectors of length %u and %u: r%u and r%u", n, m, a.i, b.i); TEST(jit_coop_vec_length(a) == n && jit_coop_vec_length(b) == m, "cooperative vectors of length %u and %u have length %u and %u", n, m, jit_coop_vec_length(a), jit_coop_vec_length(b)); }
    { lock_guard g(state.lock); for (auto &kv : state.lvn_map) for (auto &kv2 : state.lvn_map) if (kv.first == kv2.first) TEST(VariableKeyHasher()(kv.first) == VariableKeyHasher()(kv2.first), "equal keys have different hashes"); }
    return full_done("value numbering checks"); }
