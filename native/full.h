// whole-library driver: every src/*.cpp of /repo linked against the system's LLVM (real code generation), with a
// synchronous stand-in for the nanothread thread pool
#pragma once
#include "nanothread_impl.h"
#include <cstdarg>
#include <cstdio>
#include <cmath>
#include <limits>
#include <stdexcept>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include "/repo/src/internal.h"
#include "/repo/src/var.h"
#include "/repo/src/op.h"
#include "/repo/src/log.h"
#include "/repo/src/llvm.h"
#include <drjit-core/jit.h>
__asm__(".section .rodata\n.global kernels_dict\nkernels_dict:\n.incbin \"/repo/resources/kernels_dict.lz4\"\n.global kernels_75\nkernels_75:\n.byte 0\n.text\n");
static uint64_t seed = 1, ncase = 0, nbad = 0;
static uint64_t rng() { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed * 0x2545F4914F6CDD1Dull; }
static bool g_thorough = false;
static void report(const char *fmt, ...) { if (nbad++ < 10) { va_list a; va_start(a, fmt); printf("CE: "); vprintf(fmt, a); printf("\n"); va_end(a); fflush(stdout); } }
static const JitBackend LL = JitBackend::LLVM;
static void full_init() {
    seed = 0x9E3779B97F4A7C15ull * (uint64_t) (atoi(getenv("VERIF_SEED") ? getenv("VERIF_SEED") : "1") + 1);
    g_thorough = !strcmp(getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick", "thorough");
    setenv("DRJIT_LIBLLVM_PATH", "/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1", 1);
    char cwd[4096]; getcwd(cwd, sizeof cwd); setenv("HOME", cwd, 1);       // kernel cache: scratch directory of this run
    jit_set_log_level_stderr(LogLevel::Disable);
    jit_init(1u << (uint32_t) JitBackend::LLVM);
    if (!jit_has_backend(LL)) { printf("LLVM backend unavailable\n"); exit(3); }
}
// a fixed vector instruction set: code generation does not depend on the machine (LLVM 18 crashes on some half precision code for AVX512-FP16 machines)
extern bool jitc_llvm_orcv2_init(); extern void jitc_llvm_orcv2_shutdown();
static void full_target() { jit_llvm_set_target("x86-64", "+sse3,+ssse3,+sse4.1,+sse4.2,+popcnt,+avx,+avx2,+fma,+f16c,+bmi,+bmi2,+lzcnt", 8); jitc_llvm_orcv2_shutdown(); if (!jitc_llvm_orcv2_init()) { printf("LLVM target unavailable\n"); exit(3); } }
static int full_done(const char *what) { printf("COUNT: %llu %s\n", (unsigned long long) ncase, what); fflush(stdout); _exit(nbad ? 1 : 0); }
// ---- small RAII handle
struct Var { uint32_t i = 0; Var() {} explicit Var(uint32_t x) : i(x) {} Var(const Var &o) : i(o.i) { jit_var_inc_ref(i); } Var(Var &&o) : i(o.i) { o.i = 0; }
    Var &operator=(Var o) { std::swap(i, o.i); return *this; } ~Var() { if (i) jit_var_dec_ref(i); } operator uint32_t() const { return i; } };
template <typename T> struct VT; 
#define VTD(T, N) template <> struct VT<T> { static constexpr VarType v = VarType::N; };
VTD(bool, Bool) VTD(int8_t, Int8) VTD(uint8_t, UInt8) VTD(int16_t, Int16) VTD(uint16_t, UInt16) VTD(int32_t, Int32) VTD(uint32_t, UInt32) VTD(int64_t, Int64) VTD(uint64_t, UInt64) VTD(drjit::half, Float16) VTD(float, Float32) VTD(double, Float64)
template <typename T> static Var lit(T v, size_t n = 1) { return Var(jit_var_literal(LL, VT<T>::v, &v, n)); }
template <typename T> static Var arr(const std::vector<T> &v) { std::unique_ptr<T[]> p(new T[v.size()]); for (size_t i = 0; i < v.size(); ++i) p[i] = v[i]; return Var(jit_var_mem_copy(LL, VT<T>::v, p.get(), v.size(), 1)); }
template <typename T> static std::vector<T> get(const Var &v) {
    void *p = nullptr; Var d(jit_var_data(v, &p)); jit_sync_thread(); size_t n = jit_var_size(d); std::vector<T> r(n);
    for (size_t i = 0; i < n; ++i) r[i] = ((T *) p)[i]; return r; }
