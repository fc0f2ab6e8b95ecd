// Expiration against the reference model: symbolic clock, symbolic time to live.
// params (4: the key lives in a dictionary that is growing, among that many other keys): 0 number of operations after the first store, 1 pinned first of them (-1: free), 2 hash symbolic, 3: 1 the clock ticks in the middle of one operation (param 1)
#include "model.h"
enum { GET, TOUCH, SET, ADD, REPL, CAS, APP, PRE, INCR, DECR, DEL, FLUSH, NOPS };
static const uint64_t FOREVER = 0xffffffffull; // the last representable second never comes
static void advance() { uint64_t t = vs_range(0, FOREVER - 1, "now"); vs_assume(t >= vs_clock_s); vs_clock_s = t; }
struct Ref { bool stored = false; bool forever = true; uint64_t at = 0; char v[64]; unsigned n = 0; uint16_t fl = 0; uint64_t cas = 0; bool num = false; bool live() const { return stored & (forever | (vs_clock_s < at)); } };
static void ttl_of(Ref& r, uint64_t ttl) { r.forever = (ttl == 0) | (vs_clock_s + ttl >= FOREVER); r.at = vs_clock_s + ttl; }
// one operation during which the clock ticks: its outcome is the one before or after the tick, and the expiration it leaves is that of the item
static unsigned tick_at, tick_n; static uint64_t tick_to;
static void tick() { if (tick_n++ == tick_at) vs_clock_s = tick_to; }
static void ticking() {
    Cache c = Cache::Create(1024, 256, 4, true); KeyDef k = {"key", 3, vs_u32("hash")}; unsigned op = (unsigned)vs_param(1); auto u16 = [](const char* nm) { return (uint64_t)vs_u16(nm); };
    uint64_t t0 = u16("start"), ttl = 1 + u16("ttl"), dl = u16("advance"); vs_clock_s = t0; { ItemPtr i = c.create_item(k.s(), k.h, 1, 3, seconds((uint32_t)ttl)); i->assign_value(slice("5", 1)); c.do_set(i); }
    uint64_t exp = t0 + ttl, t1 = t0 + dl; vs_clock_s = t1; ItemPtr piece = op <= 1 || op >= 4 ? c.create_item(k.s(), k.h, 1, 9, seconds(0)) : nullptr; uint64_t nttl = 0; if (piece) piece->assign_value(slice("7", 1));
    tick_to = t1 + 1 + u16("tick"); tick_at = vs_choose(4, "tick_at"); tick_n = 0; vs_clock_hook = tick; bool done = false; const char* want = "";
    switch (op) { case 0: done = c.do_append(piece); want = "57"; break; case 1: done = c.do_prepend(piece); want = "75"; break; case 2: done = std::get<0>(c.do_incr(k.s(), k.h, 2)); want = "7"; break; case 3: done = std::get<0>(c.do_decr(k.s(), k.h, 4)); want = "1"; break; case 4: done = c.do_replace(piece); want = "7"; break; case 5: done = c.do_add(piece); want = "7"; break; }
    vs_clock_hook = nullptr; uint64_t t2 = vs_clock_s; bool absent0 = t1 >= exp, absent1 = t2 >= exp; (void)nttl;
    if (op == 5) { if (done) vs_check(absent1, "add of a live item succeeds"); else vs_check(!absent0, "add of an expired item fails"); } else { if (done) vs_check(!absent0, "operation on an expired item succeeds"); else vs_check(absent1, "operation on a live item fails"); }
    uint64_t t3 = t2 + u16("later"); vs_clock_s = t3; ConstItemPtr g = c.do_get(k.s(), k.h);
    if (done && op >= 4) { vs_check(g && g->value().length() == 1 && g->value()[0] == '7', "item without a time to live is gone"); }
    else { vs_check((g != nullptr) == (t3 < exp), "modification changes the expiration of the item"); if (g) { unsigned n = done ? (unsigned)strlen(want) : 1; vs_check(g->value().length() == n && eq_bytes(g->value().begin(), done ? want : "5", n), "content after the operation"); } }
    vs_cover(done ? "done" : "absent"); vs_cover("live"); vs_cover("gone");
}
void vs_main() {
    if (vs_param(3)) { ticking(); return; }
    unsigned n = (unsigned)vs_param(0); int pin = (int)vs_param(1);
    unsigned others = (unsigned)vs_param(4); static const char* const on[] = {"o0", "o1", "o2", "o3", "o4", "o5", "o6", "o7"};
    Cache c = Cache::Create(1024, 256, others ? 8 : 4, true);
    KeyDef k = {"key", 3, others ? (uint32_t)(3 + 8 * vs_choose(2, "hash")) : vs_u32("hash")};
    unsigned where = others ? vs_choose(2, "where") * others : 0; auto other = [&](unsigned j) { ItemPtr i = c.create_item(slice(on[j], 2), 1 + j * 5, 1, 0, seconds(0)); i->assign_value(slice("o", 1)); c.do_set(i); };
    for (unsigned j = 0; j < where; ++j) other(j);
    vs_clock_s = vs_range(0, FOREVER - 1, "start");
    Ref r; Val v; uint32_t ttl;
    auto item = [&](const char* val, unsigned len, uint16_t fl, uint32_t t) { ItemPtr i = c.create_item(k.s(), k.h, len, fl, seconds(t)); i->assign_value(slice(val, len)); return i; };
    auto store = [&](ItemPtr i, const char* val, unsigned len, uint16_t fl, uint32_t t) { (void)i; r.stored = true; memcpy(r.v, val, len); r.n = len; r.fl = fl; ttl_of(r, t); };
    ttl = vs_u32("ttl"); uint16_t fl = vs_u16("flags");
    { ItemPtr i = item("5", 1, fl, ttl); c.do_set(i); store(i, "5", 1, fl, ttl); r.num = true; }
    for (unsigned j = where; j < others; ++j) other(j);
    for (unsigned s = 0; s < n; ++s) {
        advance();
        unsigned op = s == 0 && pin >= 0 ? (unsigned)pin : vs_choose(NOPS, "op");
        switch (op) {
        case GET: { ConstItemPtr g = c.do_get(k.s(), k.h); vs_check((g != nullptr) == r.live(), "get: an item is visible exactly until its expiration second"); if (g) vs_check((g->value().length() == r.n) && eq_bytes(g->value().begin(), r.v, r.n) && g->opaque_flags() == r.fl, "get: wrong content"); break; }
        case TOUCH: { ttl = vs_u32("ttl"); bool t = c.do_touch(k.s(), k.h, seconds(ttl)); vs_check(t == r.live(), "touch: an expired item is absent"); if (t) ttl_of(r, ttl); break; }
        case SET: { ttl = vs_u32("ttl"); fl = vs_u16("flags"); ItemPtr i = item("7", 1, fl, ttl); c.do_set(i); store(i, "7", 1, fl, ttl); r.num = true; break; }
        case ADD: { ttl = vs_u32("ttl"); fl = vs_u16("flags"); ItemPtr i = item("8", 1, fl, ttl); bool t = c.do_add(i); vs_check(t == !r.live(), "add: an expired item is absent"); if (t) { store(i, "8", 1, fl, ttl); r.num = true; } break; }
        case REPL: { ttl = vs_u32("ttl"); fl = vs_u16("flags"); ItemPtr i = item("9", 1, fl, ttl); bool t = c.do_replace(i); vs_check(t == r.live(), "replace: an expired item is absent"); if (t) { store(i, "9", 1, fl, ttl); r.num = true; } break; }
        case CAS: { ttl = vs_u32("ttl"); fl = vs_u16("flags"); ItemPtr i = item("1", 1, fl, ttl); uint64_t tok = vs_u64("token"); auto t = c.do_cas(i, tok); vs_check(std::get<0>(t) == r.live(), "cas: an expired item is absent"); if (std::get<1>(t)) { vs_check(std::get<0>(t), "cas stored without finding the item"); store(i, "1", 1, fl, ttl); r.num = true; } break; }
        case APP: case PRE: {
            ItemPtr i = item("+", 1, 77, vs_u32("ttl")); bool t = op == APP ? c.do_append(i) : c.do_prepend(i); vs_check(t == r.live(), "append/prepend: an expired item is absent");
            if (t) { if (op == PRE) { memmove(r.v + 1, r.v, r.n); r.v[0] = '+'; } else r.v[r.n] = '+'; r.n++; r.num = false; }
            break; }
        case INCR: case DECR: {
            bool t = false, err = false; uint64_t nv = 0;
            try { auto q = op == INCR ? c.do_incr(k.s(), k.h, 1) : c.do_decr(k.s(), k.h, 1); t = std::get<0>(q); nv = std::get<1>(q); } catch (const system_error&) { err = true; }
            if (err) { vs_check(r.live() && !r.num, "incr/decr fails on an absent or numeric item"); break; }
            vs_check(t == r.live(), "incr/decr: an expired item is absent");
            if (t) { vs_check(r.num, "incr/decr accepts a non-numeric value"); if (nv < 10) { r.n = 1; r.v[0] = (char)('0' + nv); } else { r.n = 2; r.v[0] = '1'; r.v[1] = (char)('0' + nv - 10); } }
            break; }
        case DEL: { bool t = c.do_delete(k.s(), k.h); vs_check(t == r.live(), "delete: an expired item is absent"); r.stored = false; break; }
        case FLUSH: c.do_flush_all(); break;
        }
    }
    advance();
    ConstItemPtr g = c.do_get(k.s(), k.h);
    vs_check((g != nullptr) == r.live(), "final get: an item is visible exactly until its expiration second");
    if (g) { vs_check((g->value().length() == r.n) && eq_bytes(g->value().begin(), r.v, r.n) && g->opaque_flags() == r.fl, "final get: wrong content"); vs_cover("live"); vs_obs_bytes("v", g->value().begin(), g->value().length()); } else vs_cover("gone");
    vs_obs_u64("found", g != nullptr);
    for (unsigned j = 0; j < others; ++j) { ConstItemPtr o = c.do_get(slice(on[j], 2), 1 + j * 5); vs_check(o && o->value().length() == 1 && o->value()[0] == 'o', "another item expired"); }
}
