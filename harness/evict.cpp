// Cache under memory pressure against a map with evictions.
// params: 0 page size, 1 evictions enabled, 2 number of items stored before, 3 their value length, 4 number of ops, 5 op mask, 6 first op pinned (-1 free), 7 size set, 8: 1 = hashes of the op keys symbolic, 9 pages, 10 number of stores with every possible length, 11: 1 = items have a symbolic time to live and symbolic flags, 12: 1 = key yy holds a number
#include "model.h"
static const unsigned MAXI = 48;
struct Slot { bool present = false; char kb[4]; unsigned kn; uint32_t h; unsigned len; unsigned char seed; uint16_t flags; bool num = false; uint64_t val = 0; char v[1024]; };
static Slot slots[MAXI]; static unsigned nslots; static Cache* cachep; static unsigned evicted; static int protectedSlot = -1; static bool evictOn;
static bool expectEvict = false;
static bool intact(ConstItemPtr it, const Slot& s) {
    if (it->key().length() != s.kn || it->value().length() != s.len) return false;
    unsigned char d = 0; for (unsigned i = 0; i < s.kn; ++i) d |= (unsigned char)(it->key()[i] ^ s.kb[i]);
    const char* v = it->value().begin(); for (unsigned i = 0; i < s.len; ++i) d |= (unsigned char)(v[i] ^ s.v[i]);
    return d == 0 && it->opaque_flags() == s.flags;
}
static int slot_of(slice k) { for (unsigned i = 0; i < nslots; ++i) if (k.length() == slots[i].kn && eq_bytes(k.begin(), slots[i].kb, slots[i].kn)) return (int)i; return -1; }
static void on_evict(ConstItemPtr it) {
    ++evicted; vs_check(evictOn, "eviction although evictions are disabled"); vs_check(expectEvict, "eviction outside of a store");
    int i = slot_of(it->key()); vs_check(i >= 0, "evicted item was never stored"); if (i < 0) return;
    vs_check(slots[i].present, "item reported as evicted is not in the cache (or was reported already)");
    vs_check(intact(it, slots[i]), "evicted item is reported with damaged content");
    vs_check(i != protectedSlot, "item used just before is evicted although other pages are older");
    slots[i].present = false;
}
static void add_slot(const char* k, unsigned n) { Slot& s = slots[nslots]; memcpy(s.kb, k, n); s.kn = n; s.h = 1 + nslots * 40503u; s.seed = (unsigned char)(nslots + 1); s.flags = (uint16_t)nslots; ++nslots; }
// an item for slot i, nullptr when refused for lack of memory
static ItemPtr create(unsigned i, unsigned len, uint16_t flags, uint32_t ttl) {
    Slot& s = slots[i]; ItemPtr it = nullptr; bool oom = false; expectEvict = true; unsigned before = evicted;
    try { it = cachep->create_item(slice(s.kb, s.kn), s.h, len, flags, seconds(ttl)); }
    catch (const system_error& e) { vs_check(e.code() == error::out_of_memory, "store fails with an unexpected error"); oom = true; }
    expectEvict = false;
    if (oom) { vs_check(!evictOn, "store fails although evictions are enabled"); vs_check(evicted == before, "failed store evicts items"); vs_cover("refused"); }
    return it;
}
static bool store(unsigned i, unsigned len, bool symbolic, int how, bool num = false) {
    Slot& s = slots[i]; Cache& c = *cachep; static Slot n; n = s; n.len = len; n.seed = (unsigned char)(s.seed + 50); n.flags = (uint16_t)(s.flags + 256); n.num = num;
    for (unsigned j = 0; j < len; ++j) n.v[j] = j < 3 ? (symbolic ? (char)vs_u8("byte") : (char)(j * 3 + i)) : (char)(n.seed * 31 + j);
    if (num) { n.v[0] = '9'; n.val = 9; n.len = len = 1; }
    uint32_t ttl = 0; if (vs_param(11)) { ttl = (uint32_t)vs_range(1, 100000, "ttl"); n.flags = vs_u16("flags"); }
    ItemPtr it = create(i, len, n.flags, ttl); if (!it) return false;
    it->assign_value(slice(n.v, len));
    bool was = s.present, stored = true;
    if (how == 0) c.do_set(it); else if (how == 1) { stored = c.do_add(it); vs_check(stored == !was, "add stores exactly when the key is absent"); } else { stored = c.do_replace(it); vs_check(stored == was, "replace stores exactly when the key is present"); }
    if (stored) { s = n; s.present = true; }
    return true;
}
static void extend(unsigned i, unsigned len, bool front) {
    Slot& s = slots[i]; Cache& c = *cachep; char piece[256]; for (unsigned j = 0; j < len; ++j) piece[j] = j < 3 ? (char)vs_u8("byte") : (char)(j + 77);
    ItemPtr it = create(i, len, 999, 0); if (!it) return;
    it->assign_value(slice(piece, len)); bool found = false, failed = false;
    try { found = front ? c.do_prepend(it) : c.do_append(it); } catch (const system_error& e) { vs_check(e.code() == error::out_of_memory || e.code() == error::item_too_big, "append/prepend fails with an unexpected error"); failed = true; }
    if (failed) { vs_check(s.present, "append/prepend to an absent item fails instead of reporting it"); vs_cover("extension refused"); return; }
    vs_check(found == s.present, "append/prepend reports the wrong outcome"); if (!found) return;
    if (front) { memmove(s.v + len, s.v, s.len); memcpy(s.v, piece, len); } else memcpy(s.v + s.len, piece, len);
    s.len += len; s.num = false; vs_cover("extended");
}
static void arith(unsigned i, bool up) {
    Slot& s = slots[i]; Cache& c = *cachep; bool found = false, oom = false, bad = false; uint64_t nv = 0, delta = up ? 91 : 1; bool was = s.present, num = s.num; uint64_t val = s.val; unsigned before = evicted; expectEvict = true;
    try { auto r = up ? c.do_incr(slice(s.kb, s.kn), s.h, delta) : c.do_decr(slice(s.kb, s.kn), s.h, delta); found = std::get<0>(r); nv = std::get<1>(r); }
    catch (const system_error& e) { oom = e.code() == error::out_of_memory; bad = !oom; }
    expectEvict = false;
    if (oom) { vs_check(!evictOn && was && num, "incr/decr reports lack of memory"); vs_check(evicted == before, "failed incr/decr evicts items"); vs_cover("counter refused"); return; }
    if (bad) { vs_check(was && !num, "incr/decr of a number fails"); vs_check(evicted == before, "failed incr/decr evicts items"); return; }
    vs_check(found == was, "incr/decr reports the wrong outcome"); if (!found) return; vs_check(num, "incr/decr accepts a value that is not a number");
    uint64_t want = up ? val + delta : val - delta; vs_check(nv == want, "incr/decr returns a wrong number"); s.present = true; s.val = want; char t[8]; unsigned n = 0; do { t[n++] = (char)('0' + want % 10); want /= 10; } while (want); s.len = n; for (unsigned j = 0; j < n; ++j) s.v[j] = t[n - 1 - j]; vs_cover("counted");
}
static void verify(bool obs) {
    Cache& c = *cachep; unsigned np = 0;
    for (unsigned i = 0; i < nslots; ++i) {
        ConstItemPtr it = c.do_get(slice(slots[i].kb, slots[i].kn), slots[i].h);
        vs_check((it != nullptr) == slots[i].present, slots[i].present ? "item is lost without an eviction report" : "item that was deleted or evicted is still there");
        if (it) { vs_check(intact(it, slots[i]), "content of an item was damaged"); ++np; }
    }
    c.publish_stats(); vs_check(STAT_GET(cache, curr_items) == np, "curr_items is not the number of stored items");
    if (obs) { vs_obs_u64("present", np); vs_obs_u64("evicted", evicted); }
}
enum { SET, ADD, REPL, DEL, GET, APP, PRE, INCR, DECR, TOUCH, FLUSH, NOPS };
void vs_main() {
    static const unsigned sets[5][4] = {{1, 100, 200, 60}, {215, 216, 90, 3}, {30, 60, 90, 120}, {500, 5, 900, 250}, {0, 24, 217, 8}};
    unsigned page = (unsigned)vs_param(0); evictOn = vs_param(1) != 0; unsigned pre = (unsigned)vs_param(2), nops = (unsigned)vs_param(4), mask = (unsigned)vs_param(5); int pin = (int)vs_param(6); const unsigned* sizes = sets[vs_param(7)];
    unsigned pages = vs_param(9) ? (unsigned)vs_param(9) : 4;
    Cache cache = Cache::Create(page * pages, page, 64, evictOn); cachep = &cache; cache.on_eviction = on_evict;
    add_slot("x", 1); add_slot("yy", 2); // keys of the operations
    if (vs_param(8)) { slots[0].h = vs_u32("hash"); slots[1].h = vs_u32("hash"); }
    if (vs_param(12)) store(1, 1, false, 0, true); // yy is a counter
    for (unsigned i = 0; i < pre; ++i) { char k[3] = {'p', (char)('a' + i % 26), (char)('a' + i / 26)}; add_slot(k, 3); store(nslots - 1, (unsigned)vs_param(3), false, 0); }
    unsigned list[NOPS], nl = 0; for (unsigned i = 0; i < NOPS; ++i) if (mask & (1u << i)) list[nl++] = i;
    unsigned anylen = (unsigned)vs_param(10);
    for (unsigned s = 0; s < nops; ++s) {
        unsigned op = list[s == 0 && pin >= 0 ? (unsigned)pin : vs_choose(nl, "op")];
        unsigned nsel = 2 + (pre > 2 ? 2 : pre); unsigned sel = vs_choose(nsel, "key"); unsigned ki = sel < 2 ? sel : (sel == 2 ? 2 : nslots - 1);
        Slot& k = slots[ki];
        switch (op) {
        case SET: case ADD: case REPL: store(ki, anylen ? (--anylen, (unsigned)vs_concretize(vs_range(0, page - 8 - sizeof(cache::Item) - k.kn, "len"))) : sizes[vs_choose(4, "size")], true, op == SET ? 0 : op == ADD ? 1 : 2); protectedSlot = -1; break;
        case DEL: { bool d = cache.do_delete(slice(k.kb, k.kn), k.h); vs_check(d == k.present, "delete reports the wrong outcome"); k.present = false; protectedSlot = -1; break; }
        case APP: case PRE: extend(ki, sizes[vs_choose(3, "size")], op == PRE); protectedSlot = -1; break;
        case INCR: case DECR: arith(ki, op == INCR); protectedSlot = -1; break;
        case TOUCH: { bool t = cache.do_touch(slice(k.kb, k.kn), k.h, seconds(vs_param(11) ? (uint32_t)vs_range(1, 100000, "ttl") : 0)); vs_check(t == k.present, "touch reports the wrong outcome"); protectedSlot = -1; break; }
        case FLUSH: cache.do_flush_all(); protectedSlot = -1; break;
        case GET: { ConstItemPtr it = cache.do_get(slice(k.kb, k.kn), k.h); vs_check((it != nullptr) == k.present, "get: presence differs from the model"); if (it) vs_check(intact(it, k), "get returns damaged content"); protectedSlot = it ? (int)ki : -1; break; }
        }
    }
    if (evicted) vs_cover("evicted");
    verify(true); vs_cover("end");
}
