// shared by the CPU operation drivers: the real src/llvm_ts.cpp over a synchronous thread pool stand-in
#pragma once
#define STUB_NO_TASK
#include "nanothread_impl.h"
#include "jit_stubs.h"
#include "/repo/src/var.cpp"
#include "/repo/src/strbuf.cpp"
#include "/repo/src/llvm_ts.cpp"
#include <cmath>
Task *jitc_task = nullptr;
uint32_t jitc_llvm_vector_width, jitc_llvm_block_size;
static int64_t g_allocs = 0;
void *jitc_malloc(JitBackend, size_t n, bool) { g_allocs++; return malloc(n ? n : 1); }
void jitc_free(void *p) { if (!p) return; g_allocs--; if (g_defer) { NtPending e; e.size = 1; e.del = nullptr; e.payload = p; e.func = [](uint32_t, void *q) { free(q); }; g_pending.push_back(e); } else free(p); }
static LLVMThreadState *ts() { alignas(LLVMThreadState) static unsigned char mem[sizeof(LLVMThreadState)]; return (LLVMThreadState *) mem; }
static void settle() { if (jitc_task) { task_release(jitc_task); jitc_task = nullptr; } }
static const char *ON[] = { "identity", "add", "mul", "min", "max", "and", "or" };
template <typename T> struct Acc { using type = T; }; template <> struct Acc<drjit::half> { using type = float; };
template <typename T> static T fold1(int op, T a, T b) {
    if constexpr (std::is_integral_v<T>) { if (op == 1) return (T) ((uint64_t) a + (uint64_t) b); if (op == 2) return (T) ((uint64_t) a * (uint64_t) b); if (op == 5) return a & b; if (op == 6) return a | b; }
    else { if (op == 1) return a + b; if (op == 2) return a * b; }
    return op == 3 ? (b < a ? b : a) : (a < b ? b : a);
}
template <typename T> static T ident(int op) {
    bool fl = !std::is_integral_v<T>;
    switch (op) { case 2: return (T) 1; case 3: return fl ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max(); case 4: return fl ? (T) -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::lowest(); case 5: return (T) -1; default: return (T) 0; }
}
// values for which every order of evaluation is exact (floating point sums/products), arbitrary ones otherwise
template <typename T> static T sample(int op) {
    using A = typename Acc<T>::type;
    if constexpr (std::is_integral_v<T>) { uint64_t r = rng(); if (op == 2) r |= 1; if (op == 5 && rng() % 4) r = ~(1ull << (rng() % 64)); if (op == 6 && rng() % 4) r = 1ull << (rng() % 64); return (T) (rng() % 8 ? r : rng() % 2 ? (uint64_t) std::numeric_limits<T>::max() : (uint64_t) std::numeric_limits<T>::min()); }
    else { if (op == 1) return (T) (A) ((int) (rng() % 5) - 2); if (op == 2) return (T) (A) (rng() % 2 ? 1.f : -1.f);
        uint64_t r = rng() % 50; return (T) (r == 0 ? (A) INFINITY : r == 1 ? (A) -INFINITY : (A) ((int) (rng() % 2001) - 1000)); }
}
template <typename T> static bool same(T a, T b) { return memcmp(&a, &b, sizeof(T)) == 0 || (!std::is_integral_v<T> && (double) (typename Acc<T>::type) a == (double) (typename Acc<T>::type) b); }
template <typename F> static void for_types(F f) {
    f.template operator()<uint8_t>(VarType::UInt8); f.template operator()<int32_t>(VarType::Int32); f.template operator()<uint32_t>(VarType::UInt32); f.template operator()<int64_t>(VarType::Int64);
    f.template operator()<uint64_t>(VarType::UInt64); f.template operator()<drjit::half>(VarType::Float16); f.template operator()<float>(VarType::Float32); f.template operator()<double>(VarType::Float64);
}
static int OPSOF(bool fl, int k) { int n = fl ? 4 : 6; return 1 + k % n; }
static uint32_t pick_size(uint32_t i, uint32_t block) {
    switch (i % 5) { case 0: return 1 + rng() % 40; case 1: return 1 + rng() % 700; case 2: return (uint32_t) std::max<int64_t>(1, (int64_t) (1 + rng() % 12) * block + (int) (rng() % 5) - 2); case 3: return 1u << (rng() % 12); default: return 1 + rng() % 3000; }
}
static uint32_t pick_bs(uint32_t size, uint32_t block) {
    uint64_t b; switch (rng() % 6) { case 0: b = size; break; case 1: b = 1 + rng() % 5; break; case 2: b = 2 * (uint64_t) block + rng() % 4; break; case 3: b = (1 + rng() % 9) * (uint64_t) block + (int) (rng() % 3) - 1; break; case 4: b = (size + 1) / 2 + rng() % 3; break; default: b = 1 + rng() % size; }
    return (uint32_t) std::min<uint64_t>(std::max<uint64_t>(b, 1), size);
}
