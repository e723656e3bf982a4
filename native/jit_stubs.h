// stand-ins for the parts of drjit-core that surround the code under test in native drivers
#pragma once
#include <cstdarg>
#include <cstdio>
#include <stdexcept>
#include "/repo/src/internal.h"
#include "/repo/src/log.h"
bool jitc_profile_active = false;
void *jitc_profile_register_string(const char *m) { return (void *) m; }
void jitc_profile_mark(const char *) {} void jitc_profile_mark_handle(const void *) {} void jitc_profile_range_push(const char *) {}
void jitc_profile_range_push_handle(const void *) {} void jitc_profile_range_pop() {}
void jitc_log(LogLevel, const char *, ...) {}
#ifndef STUB_NO_RAISE
void jitc_raise(const char *fmt, ...) { char b[1024]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); throw std::runtime_error(b); }
void jitc_fail(const char *fmt, ...) noexcept { va_list a; va_start(a, fmt); fprintf(stderr, "jitc_fail: "); vfprintf(stderr, fmt, a); va_end(a); abort(); }
#endif
static uint32_t g_flags = 0;
int jit_flag(JitFlag f) { return (g_flags & (uint32_t) f) != 0; }
alignas(64) unsigned char state_storage[sizeof(State)] asm("state");   // zero-initialised; drivers construct the members they need
#ifndef STUB_NO_TASK
Task *jitc_task = nullptr;
#endif
static uint64_t seed = 1, ncase = 0, nbad = 0;
static uint64_t rng() { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed * 0x2545F4914F6CDD1Dull; }
static bool init_seed() {
    seed = 0x9E3779B97F4A7C15ull * (uint64_t) (atoi(getenv("VERIF_SEED") ? getenv("VERIF_SEED") : "1") + 1);
    return !strcmp(getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick", "thorough");
}
static void report(const char *fmt, ...) { if (nbad++ < 10) { va_list a; va_start(a, fmt); printf("CE: "); vprintf(fmt, a); printf("\n"); va_end(a); fflush(stdout); } }
static int done(const char *what) { printf("COUNT: %llu %s\n", (unsigned long long) ncase, what); return nbad ? 1 : 0; }
