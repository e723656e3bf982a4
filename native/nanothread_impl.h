// synchronous stand-in for nanothread (native drivers): runs every work item once, in a scrambled order
#pragma once
#include <nanothread/nanothread.h>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <numeric>
#include <algorithm>
struct Task { int ref = 1; };
static uint32_t g_pool_size = 4; static uint32_t g_thread = 0; static uint64_t g_scramble = 1; static uint64_t g_tasks = 0;
static uint64_t nt_rng() { g_scramble ^= g_scramble << 13; g_scramble ^= g_scramble >> 7; g_scramble ^= g_scramble << 17; return g_scramble; }
// g_defer: items are queued (in submission order) and run at the next wait, like an asynchronous pool would
struct NtPending { uint32_t size; void (*func)(uint32_t, void *); void (*del)(void *); void *payload; std::vector<uint64_t> copy;
    void run() {
        void *p = copy.empty() ? payload : copy.data();
        if (func) {
            if (size <= 100000) { std::vector<uint32_t> order(size); std::iota(order.begin(), order.end(), 0u);
                if (g_pool_size > 1) for (uint32_t i = size; i > 1; --i) std::swap(order[i - 1], order[nt_rng() % i]);
                for (uint32_t i : order) { g_thread = g_pool_size > 1 ? (uint32_t) (nt_rng() % g_pool_size) : 0; func(i, p); } }
            else for (uint32_t i = 0; i < size; ++i) func(i, p);
        }
        if (del) del(payload);
    } };
static bool g_defer = false; static std::vector<NtPending> g_pending;
static void nt_flush() { std::vector<NtPending> q; q.swap(g_pending); for (auto &e : q) e.run(); }
extern "C" {
Pool *pool_create(uint32_t, int) { return nullptr; }
void pool_destroy(Pool *) {}
uint32_t pool_size(Pool *) { return g_pool_size; }
void pool_set_size(Pool *, uint32_t n) { g_pool_size = n; }
void pool_set_profile(int) {} int pool_profile() { return 0; }
uint32_t pool_thread_id() { return g_thread; }
Task *task_submit_dep(Pool *, const Task *const *, uint32_t, uint32_t size, void (*func)(uint32_t, void *), void *payload, uint32_t payload_size, void (*del)(void *), int, int) {
    g_tasks++;
    NtPending e; e.size = size; e.func = func; e.del = del; e.payload = payload;
    if (payload && !del && payload_size) { e.copy.resize((payload_size + 7) / 8); memcpy(e.copy.data(), payload, payload_size); }
    if (g_defer) g_pending.push_back(std::move(e)); else e.run();
    return new Task();
}
void task_release(Task *t) { if (t && --t->ref == 0) delete t; }
void task_retain(Task *t) { if (t) t->ref++; }
void task_wait(Task *) { nt_flush(); } int task_query(Task *) { return 1; }
void task_wait_and_release(Task *t) { nt_flush(); task_release(t); }
double task_time(Task *) { return 0; } double task_time_rel(Task *, Task *) { return 0; }
}
