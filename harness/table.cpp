// Fixed capacity hash table against a map, every hash symbolic.
// params: 0 capacity, 1 number of ops, 2 number of keys, 3 op mask, 4 first op pinned (-1 free), 5 number of entries put before, 6: 1 = keys share one symbolic hash, 7: n > 0 = clustered hashes: the last n are symbolic in {base, base + 1}, the others base, 8 base
#include "vs.h"
#include <cachelot/common.h>
#include <cachelot/hash_table.h>
using namespace cachelot;
struct Opts { typedef uint32 size_type; typedef uint32 hash_type; static constexpr size_type max_load_factor_percent = 93; };
typedef hash_table<uint32, uint32, std::equal_to<uint32>, internal::hash_table_entry<uint32, uint32>, Opts> Table;
static const unsigned MAXK = 16;
struct Ref { bool in = false; uint32_t v = 0; };
enum { PUT, DEL, GET, INS, RMPOS, RMIF, CLEAR, NOPS };
static void limits() { // allocation fails, so that huge capacities cost nothing
    for (unsigned i = 2; i < 32; ++i) { vs_alloc_budget = 0; Table t(1u << i); vs_check(t.max_size() >= (1u << i) / 2 && t.max_size() < (1u << i), "max_size is out of proportion to the capacity"); }
    vs_alloc_budget = -1; vs_cover("end");
}
void vs_main() {
    if (vs_param(0) == 0) { limits(); return; }
    unsigned cap = (unsigned)vs_param(0), nops = (unsigned)vs_param(1), nk = (unsigned)vs_param(2), mask = (unsigned)vs_param(3); int pin = (int)vs_param(4); unsigned pre = (unsigned)vs_param(5);
    uint32_t h[MAXK]; Ref ref[MAXK];
    for (unsigned i = 0; i < nk; ++i) { if (vs_param(7)) { h[i] = (uint32_t)vs_param(8) + (i + vs_param(7) < nk ? 0 : (uint32_t)vs_choose(2, "hash")); continue; } h[i] = (vs_param(6) && i) ? h[0] : vs_u32("hash"); vs_assume(h[i] != 0); }
    Table t(cap);
    vs_check(t.ok() && t.empty() && t.size() == 0 && t.capacity() == cap, "new table is not empty");
    vs_check(t.max_size() < cap || cap == 1, "max_size must leave an empty slot");
    unsigned list[NOPS], nl = 0; for (unsigned i = 0; i < NOPS; ++i) if (mask & (1u << i)) list[nl++] = i;
    for (unsigned i = 0; i < pre; ++i) { ref[i].in = true; ref[i].v = vs_u32("value"); vs_check(t.put(i, h[i], ref[i].v), "put of a new key reports an update"); }
    for (unsigned s = 0; s < nops; ++s) {
        unsigned op = list[s == 0 && pin >= 0 ? (unsigned)pin : vs_choose(nl, "op")];
        if (op == CLEAR) { t.clear(); for (unsigned i = 0; i < nk; ++i) ref[i].in = false; continue; }
        if (op == RMIF) {
            uint32_t x = vs_u32("limit"); t.remove_if([=](uint32 v) { return v < x; });
            for (unsigned i = 0; i < nk; ++i) if (ref[i].in && ref[i].v < x) ref[i].in = false; continue;
        }
        unsigned k = vs_choose(nk, "key"); Ref& r = ref[k];
        switch (op) {
        case PUT: { if (!r.in && t.threshold_reached()) break; uint32_t v = vs_u32("value"); vs_check(t.put(k, h[k], v) == !r.in, "put reports the wrong outcome"); r.in = true; r.v = v; break; }
        case DEL: vs_check(t.del(k, h[k]) == r.in, "del reports the wrong outcome"); r.in = false; break;
        case GET: { auto g = t.get(k, h[k]); vs_check(std::get<0>(g) == r.in, "get: presence differs from the map"); if (r.in) vs_check(std::get<1>(g) == r.v, "get: value differs from the map"); break; }
        case INS: case RMPOS: {
            bool f; uint32 pos; tie(f, pos) = t.entry_for(k, h[k]); vs_check(f == r.in, "entry_for: presence differs from the map"); vs_check(pos < cap, "entry_for: position out of range");
            if (f) { vs_check(t.entry_at(pos).key() == k && t.entry_at(pos).value() == r.v && t.hash_at(pos) == h[k], "entry_for: position of another entry"); if (op == RMPOS) { t.remove(pos); r.in = false; } }
            else if (op == INS && !t.threshold_reached()) {
                uint32_t v = vs_u32("value"); pos = t.insert(pos, k, h[k], v); r.in = true; r.v = v;
                vs_check(pos < cap && t.hash_at(pos) == h[k] && t.entry_at(pos).key() == k && t.entry_at(pos).value() == v, "insert returns the position of another entry");
            }
            break; }
        }
    }
    unsigned n = 0, slots = 0;
    for (unsigned i = 0; i < nk; ++i) {
        auto g = t.get(i, h[i]); vs_check(std::get<0>(g) == ref[i].in, "final get: presence differs from the map"); if (ref[i].in) vs_check(std::get<1>(g) == ref[i].v, "final get: value differs from the map");
        vs_check(t.contains(i, h[i]) == ref[i].in, "contains differs from the map"); n += ref[i].in;
    }
    for (unsigned i = 0; i < cap; ++i) slots += !t.empty_at(i);
    vs_check(t.size() == n && t.empty() == (n == 0), "size is not the number of entries"); vs_check(slots == n, "number of occupied slots is not the number of entries");
    vs_obs_u64("size", n); vs_cover("end");
}
