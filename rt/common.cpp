// Environment stubs shared by the symbolic and the native build.
#include "vs.h"
#include <chrono>
#include <cstdlib>
#include <new>
uint64_t vs_clock_s = 1000;
void (*vs_clock_hook)() = nullptr;
int64_t vs_alloc_budget = -1;
uint64_t vs_alloc_calls = 0;
int64_t vs_realloc_budget = -1; // the realloc call with this number fails
static bool vs_alloc_fails() {
    vs_alloc_calls++;
    if (vs_alloc_budget < 0) return false;
    return vs_alloc_budget-- == 0;
}
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
    if (vs_clock_hook) vs_clock_hook();
    return time_point(duration((int64_t)(vs_clock_s * 1000000000ull)));
}
}}}
extern "C" void* __real_malloc(size_t n);
extern "C" void* __real_realloc(void* p, size_t n);
extern "C" void* __real_aligned_alloc(size_t a, size_t n);
int vs_fill = -1; // native replay: pattern for fresh memory
static void* filled(void* p, size_t n) { if (vs_fill >= 0 && p && n < (1u << 24)) for (size_t i = 0; i < n; ++i) static_cast<volatile char*>(p)[i] = (char)vs_fill; return p; }
extern "C" void* __wrap_malloc(size_t n) { return vs_alloc_fails() ? nullptr : filled(__real_malloc(n), n); }
extern "C" void* __wrap_realloc(void* p, size_t n) { if (vs_realloc_budget >= 0 && vs_realloc_budget-- == 0) return nullptr; return vs_alloc_fails() ? nullptr : __real_realloc(p, n); }
void* vs_arena = nullptr; uint64_t vs_arena_size = 0;
extern "C" void* __wrap_aligned_alloc(size_t a, size_t n) { if (vs_alloc_fails()) return nullptr; void* p = filled(__real_aligned_alloc(a, n), n); vs_arena = p; vs_arena_size = n; return p; }
void* operator new(size_t n) { if (vs_alloc_fails()) throw std::bad_alloc(); void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return filled(p, n); }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return vs_alloc_fails() ? nullptr : __real_malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
