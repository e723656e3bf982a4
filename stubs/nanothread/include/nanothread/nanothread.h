// Declarations of the nanothread API used by drjit-core (the submodule
// ext/nanothread is empty in this tree).  Implementations are supplied by the
// harness (assumed contracts) or the native drivers.
#pragma once
#include <cstdint>
#include <cstddef>
struct Pool;
struct Task;
#define NANOTHREAD_EXPORT
extern "C" {
Pool *pool_create(uint32_t size = (uint32_t) -1, int ftz = 1);
void pool_destroy(Pool *pool = nullptr);
uint32_t pool_size(Pool *pool = nullptr);
void pool_set_size(Pool *pool, uint32_t size);
void pool_set_profile(int value);
int pool_profile();
uint32_t pool_thread_id();
Task *task_submit_dep(Pool *pool, const Task *const *parent, uint32_t parent_count, uint32_t size = 1,
                      void (*func)(uint32_t, void *) = nullptr, void *payload = nullptr, uint32_t payload_size = 0,
                      void (*payload_deleter)(void *) = nullptr, int always_async = 0, int profile = 0);
void task_release(Task *task);
void task_retain(Task *task);
void task_wait(Task *task);
int task_query(Task *task);
void task_wait_and_release(Task *task);
double task_time(Task *task);
double task_time_rel(Task *t1, Task *t2);
}
namespace drjit {
template <typename Int> struct blocked_range {
    blocked_range(Int b, Int e, Int s = 1) : m_begin(b), m_end(e), m_block_size(s) {}
    Int begin() const { return m_begin; }
    Int end() const { return m_end; }
    Int block_size() const { return m_block_size; }
    Int m_begin, m_end, m_block_size;
};
template <typename Int, typename Func> void parallel_for(const blocked_range<Int> &r, Func &&f) { f(r); }
template <typename Int, typename Func> Task *parallel_for_async(const blocked_range<Int> &r, Func &&f) { f(r); return nullptr; }
}
