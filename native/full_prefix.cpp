// C08 counterexample search at the level of variables and the public API (real code generation)
#include "full.h"
static const char *ON[] = { "identity", "add", "mul", "min", "max", "and", "or" };
template <typename T> static T f1(int op, T a, T b) {
    if constexpr (std::is_integral_v<T>) { if (op == 1) return (T) ((uint64_t) a + (uint64_t) b); if (op == 2) return (T) ((uint64_t) a * (uint64_t) b); }
    else { if (op == 1) return (T) (a + b); if (op == 2) return (T) (a * b); }
    return op == 3 ? (b < a ? b : a) : (a < b ? b : a);
}
template <typename T> static T id(int op) { constexpr bool fl = !std::is_integral_v<T>; switch (op) { case 1: return (T) 0; case 2: return (T) 1;
    case 3: return fl ? (T) std::numeric_limits<float>::infinity() : std::numeric_limits<T>::max(); default: return fl ? (T) -std::numeric_limits<float>::infinity() : std::numeric_limits<T>::lowest(); } }
template <typename T> static T smp(int op) { if constexpr (std::is_integral_v<T>) { T v = (T) rng(); if (rng() % 4 == 0) v = (T) -1; return v; } else return op == 2 ? (T) (float) ((int) (rng() % 3) - 1) : (T) (float) ((int) (rng() % 5) - 2); }
template <typename T> static void run(uint32_t n) {
    for (uint32_t r = 0; r < n; ++r) {
        bool isl = rng() % 2, ex = rng() & 1, rv = rng() & 2, api = !isl && rng() % 2; uint32_t size = 1 + rng() % (rng() % 3 ? 40 : 1500), bs = 1 + rng() % size; if (rng() % 3 == 0) bs = 1 + rng() % std::min(size, 9u); if (rng() % 5 == 0) bs = size;
        int op = 1 + rng() % 4; if (isl && !std::is_integral_v<T> && op == 2) op = 1; T v0 = smp<T>(op); bool inf = isl && !std::is_integral_v<T> && rng() % 20 == 0; if (inf) v0 = (T) std::numeric_limits<float>::infinity();
        std::vector<T> in(size, v0); if (!isl) for (auto &v : in) v = smp<T>(op);
        Var v = isl ? lit<T>(v0, size) : arr<T>(in); ncase++; std::vector<T> g;
        try {
            if (api) { Var o = arr<T>(std::vector<T>(size, (T) 0)); void *pi, *po; Var d1(jit_var_data(v, &pi)), d2(jit_var_data(o, &po)); jit_block_prefix_reduce(LL, VT<T>::v, (ReduceOp) op, bs, size, ex, rv, pi, po); g = get<T>(d2); }
            else g = get<T>(Var(jit_var_block_prefix_reduce((ReduceOp) op, v, bs, ex, rv)));
        } catch (std::exception &e) { report("prefix %s of %u %s values (%s%s) in blocks of %u fails: %s", ON[op], size, type_name[(int) VT<T>::v], isl ? "literal" : "array", api ? ", jit_block_prefix_reduce" : "", bs, e.what()); continue; }
        char what[256]; snprintf(what, sizeof what, "%s%s prefix %s of %u %s values (%s %g%s) in blocks of %u", ex ? "exclusive" : "inclusive", rv ? " reverse" : "", ON[op], size, type_name[(int) VT<T>::v], isl ? "literal" : "array", (double) v0, api ? ", jit_block_prefix_reduce" : "", bs);
        if (g.size() != size) { report("%s: size %zu", what, g.size()); continue; }
        for (uint32_t b = 0, bad = 0; b < size && !bad; b += bs) {
            uint32_t e = std::min(b + bs, size); T acc = id<T>(op);
            for (uint32_t q = 0; q < e - b; ++q) { uint32_t j = rv ? e - 1 - q : b + q; T nx = f1<T>(op, acc, in[j]), want = ex ? acc : nx; acc = nx; if (!(g[j] == want)) { report("%s: element %u is %g instead of %g", what, j, (double) g[j], (double) want); bad = 1; break; } }
        }
    }
}
static void undef() { for (int op = 1; op < 5; ++op) for (int m = 0; m < 4; ++m) { uint32_t size = 1 + rng() % 200; Var u(jit_var_undefined(LL, VarType::UInt32, size)); ncase++; try { auto g = get<uint32_t>(Var(jit_var_block_prefix_reduce((ReduceOp) op, u, 1 + rng() % size, m & 1, m >> 1))); if (g.size() != size) report("prefix reduction of an undefined variable has the wrong size"); } catch (std::exception &e) { report("prefix reduction of an undefined variable fails: %s", e.what()); }
    for (int isl = 0; isl < 2; ++isl) { bool ok = false; try { Var v = isl ? lit<uint32_t>(3, size) : arr<uint32_t>(std::vector<uint32_t>(size, 3)); Var o(jit_var_block_prefix_reduce((ReduceOp) op, v, 0, m & 1, m >> 1)); } catch (std::exception &) { ok = true; } if (!ok) report("prefix reduction in blocks of size zero is accepted"); } } }
int main() { full_init(); undef(); uint32_t f = g_thorough ? 40 : 3;
    run<int32_t>(300 * f); run<uint32_t>(300 * f); run<int64_t>(200 * f); run<uint64_t>(200 * f); run<drjit::half>(150 * f); run<float>(200 * f); run<double>(200 * f);
    return full_done("variable prefix reductions"); }
