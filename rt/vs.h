// Harness interface.  The same harness runs (a) under the symbolic executor, where vs_u32() & co. introduce
// solver variables, and (b) natively, where the values come from a replay file.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void vs_make_symbolic(void* p, size_t n, const char* name);
uint8_t vs_u8(const char* name);
uint16_t vs_u16(const char* name);
uint32_t vs_u32(const char* name);
uint64_t vs_u64(const char* name);
uint64_t vs_range(uint64_t lo, uint64_t hi, const char* name); // lo <= x <= hi, stays symbolic
uint32_t vs_choose(uint32_t n, const char* name);              // 0..n-1, one path per value
uint64_t vs_concretize(uint64_t x);                            // one path per feasible value
void vs_assume(bool c);
void vs_check(bool c, const char* msg);                        // the property
void vs_fail(const char* msg) __attribute__((noreturn));
void vs_cover(const char* label);                              // reachability witness
void vs_obs_u64(const char* label, uint64_t v);                // compared between engine and native run
void vs_obs_bytes(const char* label, const void* p, size_t n);
int64_t vs_param(int i);                                       // case split parameter, concrete
void vs_stop() __attribute__((noreturn));
void vs_log(const char*, uint64_t);
void vs_main();
}
// environment stubs (rt/common.cpp)
extern uint64_t vs_clock_s;          // value of the steady clock, in seconds
extern void (*vs_clock_hook)();      // called on every clock read, may advance vs_clock_s
extern int64_t vs_realloc_budget;     // likewise for realloc only
extern int64_t vs_alloc_budget;      // -1: allocations always succeed; n: the n-th (0-based) next allocation fails
extern uint64_t vs_alloc_calls;
extern void* vs_arena;               // last result of aligned_alloc
extern uint64_t vs_arena_size;
