// Allocator: live blocks are disjoint, aligned, inside the arena and keep their content; evictions are reported; memory comes back.
// params: 0 op mask, 1 number of ops, 2 page size, 3 pages, 4 size set, 5 pinned first op (-1 free), 6 first N allocations have a symbolic size, 7 final checks, 8/9 number and size of blocks allocated before
#include "vs.h"
#include <cachelot/common.h>
#include <cachelot/memalloc.h>
#include <cachelot/stats.h>
#include <cstring>
using namespace cachelot;
enum { ALLOC, EVICT, FREE, REALLOC, TOUCH, NOPS };
struct Blk { unsigned char* p; size_t n; unsigned char pat; bool live; };
static Blk B[40]; static unsigned nb = 0; static size_t page, arena;
static const unsigned SETS[6][6] = {{56, 120, 248, 0}, {1, 57, 64, 184, 185, 192}, {240, 241, 249, 255, 256, 257}, {56, 300, 504, 512, 1016, 0}, {31, 255, 256, 511, 1000, 2040}, {1, 1 << 20, (1u << 31) - 8, 0}};
static void fill(Blk& b) { size_t n = b.n; if (n > 4096) { memset(b.p, b.pat, 64); memset(b.p + n - 64, b.pat, 64); } else memset(b.p, b.pat, n); }
static bool intact(const unsigned char* p, size_t n, unsigned char pat) { unsigned char d = 0; if (n > 4096) { for (size_t i = 0; i < 64; ++i) d |= (unsigned char)((p[i] ^ pat) | (p[n - 1 - i] ^ pat)); } else for (size_t i = 0; i < n; ++i) d |= (unsigned char)(p[i] ^ pat); return d == 0; }
static void check_block(memalloc& m, Blk& b) {
    size_t o = (size_t)(b.p - (unsigned char*)vs_arena);
    vs_check(o < arena && b.n <= arena - o, "block outside of the arena");
    vs_check(((uintptr_t)b.p & 7) == 0, "block is not aligned to 8 bytes");
    vs_check(o / page == (o + b.n - 1) / page, "block crosses a page boundary");
    vs_check(m.reveal_actual_size(b.p) >= b.n, "reported size is smaller than the requested one");
    for (unsigned i = 0; i < nb; ++i) if (B[i].live && B[i].p != b.p) vs_check(B[i].p + B[i].n <= b.p || b.p + b.n <= B[i].p, "two live blocks overlap");
}
static void check_all(memalloc& m) {
    uint64_t used = 0;
    for (unsigned i = 0; i < nb; ++i) if (B[i].live) { vs_check(intact(B[i].p, B[i].n, B[i].pat), "content of a live block was changed"); used += m.reveal_actual_size(B[i].p); }
    vs_check(STAT_GET(mem, used_memory) == used, "used_memory is not the size of the live blocks");
}
static unsigned pick_live(const char* nm) { unsigned l[40], n = 0; for (unsigned i = 0; i < nb; ++i) if (B[i].live) l[n++] = i; if (!n) vs_stop(); return l[vs_choose(n, nm)]; }
void vs_main() {
    unsigned mask = (unsigned)vs_param(0), nops = (unsigned)vs_param(1); page = (size_t)vs_param(2); arena = page * (size_t)vs_param(3);
    const unsigned* set = SETS[vs_param(4)]; unsigned ns = 0; while (ns < 6 && set[ns]) ns++;
    int pin = (int)vs_param(5); unsigned nsym = (unsigned)vs_param(6);
    memalloc m(arena, (uint32)page);
    vs_check(vs_arena != nullptr && vs_arena_size >= arena, "arena is smaller than the memory limit");
    unsigned ops[NOPS], no = 0; for (unsigned i = 0; i < NOPS; ++i) if (mask & (1u << i)) ops[no++] = i;
    auto size = [&]() -> size_t { if (nsym) { nsym--; return (size_t)vs_range(1, page - memalloc::header_size(), "size"); } size_t s = set[vs_choose(ns, "size")]; if (s > page - memalloc::header_size()) vs_stop(); return s; };
    auto evicted = [&](void* p) { bool hit = false; for (unsigned i = 0; i < nb; ++i) if (B[i].live && B[i].p == p) { vs_check(intact(B[i].p, B[i].n, B[i].pat), "evicted block was changed before its owner was told"); B[i].live = false; hit = true; } vs_check(hit, "eviction reported for something that is not a live block"); };
    for (unsigned i = 0; i < (unsigned)vs_param(8); ++i) { void* p = m.alloc((size_t)vs_param(9)); vs_check(p != nullptr, "fresh memory can not be allocated"); Blk b = {(unsigned char*)p, (size_t)vs_param(9), (unsigned char)(0x11 * (nb + 1)), true}; check_block(m, b); B[nb++] = b; fill(B[nb - 1]); }
    for (unsigned s = 0; s < nops; ++s) {
        unsigned op = s == 0 && pin >= 0 ? (unsigned)pin : ops[vs_choose(no, "op")];
        if (op == ALLOC || op == EVICT) {
            size_t n = size(); unsigned before = 0; for (unsigned i = 0; i < nb; ++i) before += B[i].live;
            void* p = op == ALLOC ? m.alloc(n) : m.alloc_or_evict(n, true, evicted);
            if (op == EVICT) vs_check(p != nullptr, "allocation with eviction fails although the size is within the limit");
            if (op == ALLOC && before == 0) vs_check(p != nullptr, "allocation fails in an empty arena");
            if (p) { n = (size_t)vs_concretize(n); Blk b = {(unsigned char*)p, n, (unsigned char)(0x11 * (nb + 1)), true}; check_block(m, b); B[nb++] = b; fill(B[nb - 1]); vs_obs_u64("at", (uint64_t)(b.p - (unsigned char*)vs_arena)); }
        } else if (op == FREE) { unsigned i = pick_live("which"); B[i].live = false; m.free(B[i].p); }
        else if (op == TOUCH) { unsigned i = pick_live("which"); m.touch(B[i].p); }
        else { // realloc
            unsigned i = pick_live("which"); size_t n = size(), old = B[i].n; void* p = m.realloc_inplace(B[i].p, n);
            if (p) { n = (size_t)vs_concretize(n); vs_check(p == B[i].p, "in-place reallocation moved the block"); B[i].n = n < old ? n : old; vs_check(intact(B[i].p, old > 4096 && B[i].n > 64 ? 64 : B[i].n, B[i].pat), "in-place reallocation changed the content"); B[i].n = n; check_block(m, B[i]); fill(B[i]); }
            else vs_check(m.reveal_actual_size(B[i].p) >= old, "failed reallocation shrank the block");
        }
        check_all(m);
    }
    if (vs_param(7)) { // give everything back: the whole arena is available again
        for (unsigned i = 0; i < nb; ++i) if (B[i].live) { B[i].live = false; m.free(B[i].p); check_all(m); }
        unsigned base = nb;
        for (size_t i = 0; i < arena / page; ++i) { void* p = m.alloc(page - memalloc::header_size()); vs_check(p != nullptr, "a page is lost after everything was freed"); Blk b = {(unsigned char*)p, page - memalloc::header_size(), (unsigned char)i, true}; check_block(m, b); B[nb++] = b; fill(B[nb - 1]); }
        check_all(m);
        vs_check(m.alloc(1) == nullptr, "more memory than the arena holds");
        (void)base;
    }
    vs_cover("end");
}
