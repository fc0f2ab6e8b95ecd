// append / prepend: composition, flags and expiration kept, failures leave everything as it was.
// params: 0 page size, 1 evictions enabled, 2 number of filler items, 3 filler value length, 4 old length (-1 symbolic), 5 piece length (-1 symbolic), 6 success required, 7 number of extensions, 8: 1 the clock ticks during the extension
#include "model.h"
static char oldv[80000], nv[80000], piece[4096];
static unsigned tick_at, tick_n; static void tick() { if (tick_n++ == tick_at) vs_clock_s = 1002; }
void vs_main() {
    size_t page = (size_t)vs_param(0); bool evict = vs_param(1); unsigned nf = (unsigned)vs_param(2);
    Cache c = Cache::Create(page * 4, page, 4, evict);
    unsigned evicted = 0; c.on_eviction = [&](ConstItemPtr) { evicted++; };
    KeyDef k = {"key", 3, vs_u32("hash")}; size_t limit = page - 8, head = cache::Item::CalcSizeRequired(k.s(), 0);
    vs_clock_s = 1000;
    uint32_t ttl = vs_u32("ttl"); vs_assume(ttl != 1 && ttl != 2); uint16_t fl = vs_u16("flags");
    size_t n = vs_param(4) >= 0 ? (size_t)vs_param(4) : (size_t)vs_concretize(vs_range(0, limit - head, "oldlen"));
    vs_make_symbolic(oldv, n < 40 ? n : 40, "old"); for (size_t i = 40; i < n; ++i) oldv[i] = (char)(i * 7 + 1);
    { ItemPtr i = c.create_item(k.s(), k.h, n, fl, seconds(ttl)); i->assign_value(slice(oldv, n)); c.do_set(i); }
    char fk[2] = {'f', 0}; char fv[512]; memset(fv, 'F', sizeof fv); unsigned stored = 0;
    for (unsigned i = 0; i < nf; ++i) {
        fk[1] = (char)('a' + i); slice s(fk, 2);
        try { ItemPtr it = c.create_item(s, 100 + i, (size_t)vs_param(3), 9, seconds(0)); it->assign_value(slice(fv, (size_t)vs_param(3))); c.do_set(it); stored++; } catch (const system_error& e) { vs_check(!evict && e.code() == error::out_of_memory, "store within the limits fails"); break; }
    }
    unsigned times = vs_param(7) ? (unsigned)vs_param(7) : 1;
    for (unsigned t = 0; t < times; ++t) {
        size_t pl = vs_param(5) >= 0 ? (size_t)vs_param(5) : (size_t)vs_concretize(vs_range(0, limit - head, "piecelen"));
        vs_make_symbolic(piece, pl < 40 ? pl : 40, "piece"); for (size_t i = 40; i < pl; ++i) piece[i] = (char)(i * 5 + 3);
        ItemPtr p = nullptr;
        try { p = c.create_item(k.s(), k.h, pl, 0xabcd, seconds(7)); } catch (const system_error& e) { vs_check(e.code() == error::out_of_memory && !evict, "piece within the limits is rejected"); vs_cover("nopiece"); vs_stop(); }
        p->assign_value(slice(piece, pl));
        ConstItemPtr o = c.do_get(k.s(), k.h);
        if (!o) { vs_check(evicted > 0, "item lost without eviction"); vs_cover("gone"); bool r = vs_choose(2, "op") ? c.do_prepend(p) : c.do_append(p); vs_check(!r, "append/prepend to an absent key"); vs_check(c.do_get(k.s(), k.h) == nullptr, "append/prepend creates an item"); vs_stop(); }
        uint64_t cas = o->timestamp(); unsigned ev0 = evicted;
        vs_clock_s = 1001;
        bool pre = vs_choose(2, "op");
        if (vs_param(8)) { tick_at = vs_choose(4, "tick_at"); tick_n = 0; vs_clock_hook = tick; }
        Outcome out = guarded([&] { return pre ? c.do_prepend(p) : c.do_append(p); });
        vs_clock_hook = nullptr;
        vs_check(out == OK_TRUE || out == ERR_BIG || out == ERR_OOM, "append/prepend to an existing item reports a miss");
        vs_check((out == ERR_BIG) == (head + n + pl > limit), "append/prepend fails with item_too_big exactly when the result is bigger than the limit");
        if (vs_param(6) && out != ERR_BIG) vs_check(out == OK_TRUE, "append/prepend fails although there is memory");
        vs_check(evicted == ev0, "append/prepend evicts items");
        if (out == OK_TRUE) {
            if (pre) { memcpy(nv, piece, pl); memcpy(nv + pl, oldv, n); } else { memcpy(nv, oldv, n); memcpy(nv + n, piece, pl); }
            n += pl; memcpy(oldv, nv, n); vs_cover("extended");
        } else vs_cover(out == ERR_BIG ? "too big" : "no memory");
        o = c.do_get(k.s(), k.h);
        vs_check(o != nullptr, "item is lost by append/prepend");
        vs_check(o->value().length() == n && eq_bytes(o->value().begin(), oldv, n), out == OK_TRUE ? "append/prepend stores a wrong value" : "failed append/prepend changes the item");
        vs_check(o->opaque_flags() == fl, "append/prepend changes the flags");
        vs_check((o->timestamp() != cas) == (out == OK_TRUE), "cas token must change exactly when the item is modified");
        vs_obs_u64("len", o->value().length()); vs_obs_bytes("v", o->value().begin(), n < 90 ? n : 90);
    }
    // fillers are untouched unless evicted
    unsigned alive = 0;
    for (unsigned i = 0; i < stored; ++i) { fk[1] = (char)('a' + i); ConstItemPtr g = c.do_get(slice(fk, 2), 100 + i); if (g) { alive++; vs_check(g->value().length() == (size_t)vs_param(3) && eq_bytes(g->value().begin(), fv, (size_t)vs_param(3)), "another item was changed"); } }
    vs_check(alive + evicted == stored, "another item is lost");
    // expiration is the one of the original item
    if (ttl == 0 || 1000ull + ttl >= 0xffffffffull) { vs_clock_s = 0xfffffffeull; vs_check(c.do_get(k.s(), k.h) != nullptr, "item without expiration expires after append/prepend"); }
    else { vs_clock_s = 999ull + ttl; vs_check(c.do_get(k.s(), k.h) != nullptr, "item expires too early after append/prepend"); vs_clock_s = 1000ull + ttl; vs_check(c.do_get(k.s(), k.h) == nullptr, "item expires too late after append/prepend"); }
    vs_cover("end");
}
