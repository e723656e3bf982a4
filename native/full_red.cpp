// C07 counterexample search at the level of variables: jit_var_reduce, jit_var_block_reduce, jit_var_reduce_dot
#include "full.h"
static const char *ON[] = { "identity", "add", "mul", "min", "max", "and", "or" };
template <typename T> static T f1(int op, T a, T b) {
    if constexpr (std::is_integral_v<T>) { if (op == 1) return (T) ((uint64_t) a + (uint64_t) b); if (op == 2) return (T) ((uint64_t) a * (uint64_t) b); }
    else { if (op == 1) return (T) (a + b); if (op == 2) return (T) (a * b); }
    return op == 3 ? (b < a ? b : a) : (a < b ? b : a);
}
template <typename T> static T smp(int op) { using A = T; if constexpr (std::is_integral_v<T>) { T v = (T) rng(); if (rng() % 4 == 0) v = (T) -1; return v; } else return op == 2 ? (T) (float) ((int) (rng() % 3) - 1) : (T) (float) ((int) (rng() % 5) - 2); }
template <typename T> static void run(uint32_t n) {
    const char *tn = type_name[(int) VT<T>::v];
    for (uint32_t r = 0; r < n; ++r) {
        bool isl = rng() % 2; uint32_t size = 1 + rng() % (rng() % 3 ? 40 : 3000), bs = 1 + rng() % size; if (rng() % 3 == 0) bs = 1 + rng() % std::min(size, 9u);
        if (isl && !std::is_integral_v<T>) { size = 1 + rng() % 9; bs = 1 + rng() % size; }
        int op = 1 + rng() % 4; T v0 = smp<T>(op); std::vector<T> in(size, v0); if (!isl) for (auto &v : in) v = smp<T>(op);
        Var v = isl ? lit<T>(v0, size) : arr<T>(in); ncase++;
        bool whole = rng() % 3 == 0; if (whole) bs = size; int mode = -1; bool lazy = !isl && rng() % 2; if (lazy) v = Var(jit_var_gather(v, Var(jit_var_counter(LL, size)), lit<bool>(true)));
        Var o = whole ? Var(jit_var_reduce(LL, VT<T>::v, (ReduceOp) op, v)) : Var(jit_var_block_reduce((ReduceOp) op, v, bs, 0));
        std::vector<T> g = get<T>(o); uint32_t nb = (size + bs - 1) / bs;
        if (g.size() != nb) { report("%s reduction of %u %s values (%s) in blocks of %u has %zu results", ON[op], size, tn, isl ? "literal" : "array", bs, g.size()); continue; }
        for (uint32_t b = 0; b < nb; ++b) { T acc = in[b * bs]; for (uint32_t j = b * bs + 1; j < std::min(size, (b + 1) * bs); ++j) acc = f1<T>(op, acc, in[j]);
            if (!(g[b] == acc)) { report("%s reduction of %u %s values (%s) in blocks of %u: block %u is wrong", ON[op], size, tn, isl ? "literal" : "array", bs, b); break; } }
    }
}
static void mask(uint32_t n) { for (uint32_t r = 0; r < n; ++r) { uint32_t size = 1 + rng() % 70; std::vector<bool> b(size); int k = rng() % 3; uint32_t cnt = 0; for (uint32_t i = 0; i < size; ++i) { b[i] = k == 0 ? true : k == 1 ? false : rng() % 2; } if (rng() % 3 == 0) b[rng() % size] = !b[0]; for (bool x : b) cnt += x; Var v = arr<bool>(b); ncase += 2;
    if (jit_var_all(v) != (cnt == size)) report("all() of %u masks with %u set", size, cnt); if (jit_var_any(v) != (cnt != 0)) report("any() of %u masks with %u set", size, cnt); } }
template <typename T> static void dot(uint32_t n) { for (uint32_t r = 0; r < n; ++r) { uint32_t size = 1 + rng() % 500; std::vector<T> a(size), b(size); double s = 0; for (uint32_t i = 0; i < size; ++i) { a[i] = (T) (float) ((int) (rng() % 3) - 1); b[i] = (T) (float) ((int) (rng() % 3) - 1); s += (double) (float) a[i] * (double) (float) b[i]; }
    Var o(jit_var_reduce_dot(arr<T>(a), arr<T>(b))); ncase++; auto g = get<T>(o); if (g.size() != 1 || (double) (float) g[0] != s) report("dot product of %u %s values", size, type_name[(int) VT<T>::v]); } }
template <typename T> static void dotlit(uint32_t n) { for (uint32_t r = 0; r < n; ++r) { uint32_t size = 1 + rng() % 500; int w = rng() % 3; std::vector<T> a(size), b(size); T la = (T) (float) ((int) (rng() % 3) - 1), lb = (T) (float) ((int) (rng() % 3) - 1); double s = 0; for (uint32_t i = 0; i < size; ++i) { a[i] = w & 1 ? (T) (float) ((int) (rng() % 3) - 1) : la; b[i] = w & 2 ? (T) (float) ((int) (rng() % 3) - 1) : lb; s += (double) (float) a[i] * (double) (float) b[i]; }
    Var va = w & 1 ? arr<T>(a) : lit<T>(la, size), vb = w & 2 ? arr<T>(b) : lit<T>(lb, size); Var o(jit_var_reduce_dot(va, vb)); ncase++; auto g = get<T>(o); if (g.size() != 1 || (double) (float) g[0] != s) report("dot product of %u %s values (%s, %s): %g instead of %g", size, type_name[(int) VT<T>::v], w & 1 ? "array" : "literal", w & 2 ? "array" : "literal", (double) (float) g[0], s); } }
static void undef() { for (int op = 1; op < 5; ++op) for (uint32_t size : { 1u, 7u, 100u, 5000u }) { Var u(jit_var_undefined(LL, VarType::UInt32, size)); ncase++;
    auto g = get<uint32_t>(Var(jit_var_reduce(LL, VarType::UInt32, (ReduceOp) op, u))); if (g.size() != 1) report("reduction of an undefined variable has %zu entries", g.size());
    auto h = get<uint32_t>(Var(jit_var_block_reduce((ReduceOp) op, u, std::min(size, 2u), 0))); if (size > 1 && h.size() != (size + 1) / 2) report("block reduction of an undefined variable has %zu entries", h.size());
    Var f(jit_var_undefined(LL, VarType::Float32, size)), a = arr<float>(std::vector<float>(size, 0.f)); get<float>(Var(jit_var_reduce_dot(f, a))); Var b(jit_var_undefined(LL, VarType::Bool, size)); (void) jit_var_all(b); (void) jit_var_any(b); get<bool>(Var(jit_var_all_async(LL, b))); get<bool>(Var(jit_var_any_async(LL, b))); } }
template <typename T> static void api(uint32_t n) { for (uint32_t r = 0; r < n; ++r) { uint32_t size = 1 + rng() % 3000; std::vector<T> in(size); int op = 1 + rng() % 4; for (auto &v : in) v = smp<T>(op); T acc = in[0]; for (uint32_t i = 1; i < size; ++i) acc = f1<T>(op, acc, in[i]); Var v = arr<T>(in), o = arr<T>(std::vector<T>(1)); void *pi, *po; Var d1(jit_var_data(v, &pi)), d2(jit_var_data(o, &po)); jit_reduce(LL, VT<T>::v, (ReduceOp) op, pi, size, po); ncase++; auto g = get<T>(d2); if (!(g[0] == acc)) report("jit_reduce: %s reduction of %u %s values", ON[op], size, type_name[(int) VT<T>::v]); } }
int main() { full_init(); if (1) { dotlit<float>(40); dotlit<double>(40); dotlit<drjit::half>(40); undef(); api<uint32_t>(60); api<float>(60); } uint32_t f = g_thorough ? 60 : 4;
    run<int32_t>(250 * f); run<uint32_t>(250 * f); run<int64_t>(150 * f); run<uint64_t>(150 * f); run<drjit::half>(100 * f); run<float>(150 * f); run<double>(150 * f);
    mask(200 * f); dot<float>(100 * f); dot<double>(100 * f); dot<drjit::half>(100 * f);
    return full_done("variable reductions"); }
