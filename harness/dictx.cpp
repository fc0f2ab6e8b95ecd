// Growing dictionary against a map: growth must be invisible.
// params: 0 initial size, 1 number of ops, 2 number of keys with symbolic hashes, 3 op mask, 4 first op pinned (-1 free), 5 number of concrete entries put before, 6 number of the symbolic keys put before, 7 biggest hash (0: any), 8 pattern of the concrete hashes, 9: after the concrete entries the dictionary is cleared and that many are put again, 10 number of lookups of an absent key after the history, which only drive the expansion
#include "vs.h"
#include <cachelot/common.h>
#include <cachelot/dict.h>
#include <vector>
using namespace cachelot;
struct Opts { typedef uint32 size_type; typedef uint32 hash_type; static constexpr size_type max_load_factor_percent = 93; };
typedef dict<uint32, uint32, std::equal_to<uint32>, internal::hash_table_entry<uint32, uint32>, Opts> Dict;
static const unsigned MAXK = 8;
struct Ref { bool in = false; uint32_t v = 0; };
enum { PUT, DEL, LOOK, RMPOS, RMIF, CLEAR, MOVE, NOPS };
static void put(Dict& t, uint32 k, uint32 h, Ref& r) {
    bool f; Dict::iterator at; tie(f, at) = t.entry_for(k, h); vs_check(f == r.in, "entry_for: presence differs from the map");
    uint32_t v = k < MAXK ? vs_u32("value") : k + 100 + (r.in ? 50 : 0);
    if (f) { vs_check(at.key() == k && at.value() == r.v, "entry_for: another entry"); at.unsafe_replace_kv(k, h, v); }
    else at = t.insert(at, k, h, v);
    r.in = true; r.v = v; vs_check((bool)at && at.key() == k && at.value() == v, "insert returns another entry");
}
static uint32 phash(unsigned i) { switch (vs_param(8)) { case 1: return 1 + (i & 1); case 2: return 3 + 4 * (i & 1); case 3: return 1 + i * 2; case 4: return 7 + 8 * (i & 3) + (i >> 2); case 5: return i == 6 ? 8 : 1 + (i & 1); default: return 7 + i * 2654435761u; } }
void vs_main() {
    unsigned nops = (unsigned)vs_param(1), nk = (unsigned)vs_param(2), mask = (unsigned)vs_param(3); int pin = (int)vs_param(4); unsigned pre = (unsigned)vs_param(5), again = (unsigned)vs_param(9);
    unsigned np = pre > again ? pre : again; std::vector<uint32> h(nk + np), id(nk + np); std::vector<Ref> ref(nk + np); // first the keys with symbolic hashes, then the concrete ones
    for (unsigned i = 0; i < nk; ++i) { h[i] = vs_u32("hash"); id[i] = i; vs_assume(h[i] != 0); if (vs_param(7)) vs_assume(h[i] <= (uint32_t)vs_param(7)); }
    for (unsigned i = 0; i < np; ++i) { h[nk + i] = phash(i); id[nk + i] = 1000 + i; }
    Dict* d = new Dict((uint32)vs_param(0));
    unsigned list[NOPS], nl = 0; for (unsigned i = 0; i < NOPS; ++i) if (mask & (1u << i)) list[nl++] = i;
    for (unsigned i = 0; i < pre; ++i) put(*d, id[nk + i], h[nk + i], ref[nk + i]);
    if (again) { d->clear(); for (auto& r : ref) r.in = false; vs_check(d->size() == 0 && d->empty(), "cleared dictionary is not empty"); for (unsigned i = 0; i < again; ++i) put(*d, id[nk + i], h[nk + i], ref[nk + i]); }
    for (unsigned i = 0; i < (unsigned)vs_param(6); ++i) put(*d, i, h[i], ref[i]);
    if (d->is_expanding()) vs_cover("expanding");
    unsigned sel = nk + (np < 9 ? np : 2);
    for (unsigned s = 0; s < nops; ++s) {
        unsigned op = list[s == 0 && pin >= 0 ? (unsigned)pin : vs_choose(nl, "op")];
        if (op == MOVE) { Dict* m = new Dict(std::move(*d)); delete d; d = m; continue; }
        Dict& t = *d;
        if (op == CLEAR) { t.clear(); for (auto& r : ref) r.in = false; continue; }
        if (op == RMIF) {
            uint32_t x = np ? 1100 + (np < 9 ? vs_choose(np + 1, "limit") : np * vs_choose(4, "limit") / 3) : vs_u32("limit"); t.remove_if([=](uint32 v) { return v < x; });
            for (auto& r : ref) if (r.in && r.v < x) r.in = false; continue;
        }
        unsigned k = vs_choose(sel, "key"); if (np >= 9 && k == nk + 1) k = nk + np - 1; Ref& r = ref[k];
        switch (op) {
        case PUT: put(t, id[k], h[k], r); break;
        case DEL: vs_check(t.del(id[k], h[k]) == r.in, "del reports the wrong outcome"); r.in = false; break;
        case LOOK: case RMPOS: { bool f; Dict::iterator at; tie(f, at) = t.entry_for(id[k], h[k], true); vs_check(f == r.in, "entry_for: presence differs from the map"); if (f) { vs_check(at.key() == id[k] && at.value() == r.v, "entry_for: another entry"); if (op == RMPOS) { t.remove(at); r.in = false; } } break; }
        }
        if (t.is_expanding()) vs_cover("expanding");
    }
    Dict& t = *d; unsigned n = 0, all = nk + np;
    for (unsigned i = 0; i < (unsigned)vs_param(10); ++i) { auto f = t.entry_for(999999, 77, true); vs_check(!std::get<0>(f), "entry_for finds an absent key"); }
    for (unsigned i = 0; i < all; ++i) {
        vs_check(t.contains(id[i], h[i]) == ref[i].in, "contains differs from the map");
        auto g = t.get(id[i], h[i]); vs_check(std::get<0>(g) == ref[i].in, "get: presence differs from the map"); if (ref[i].in) vs_check(std::get<1>(g) == ref[i].v, "get: value differs from the map"); n += ref[i].in;
    }
    vs_check(t.size() == n && t.empty() == (n == 0), "size is not the number of entries");
    // drain: growth must come to an end and leave nothing behind
    for (unsigned i = 0; i < all; ++i) { bool f; Dict::iterator at; tie(f, at) = t.entry_for(id[i], h[i], true); vs_check(f == ref[i].in && (!f || at.value() == ref[i].v), "lookup after the history differs from the map"); }
    for (unsigned i = 0; i < all; ++i) vs_check(t.del(id[i], h[i]) == ref[i].in, "del after the history differs from the map");
    for (unsigned i = 0; i < all; ++i) vs_check(!t.contains(id[i], h[i]), "deleted key is still there");
    vs_obs_u64("size", n); delete d; vs_cover("end");
}
