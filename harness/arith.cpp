// incr / decr: exact saturating arithmetic on the stored decimal text, item properties kept, failures change nothing.
// params: 0 mode (0 digits, 1 arbitrary bytes, 2 memory pressure), 1 length of the stored text, 2 prefix shared with 2^64-1 (-1 free), 3 op (0 incr 1 decr), 4 case (0 the result has param 5 digits and shares a prefix of length param 6 with 2^64-1, 1 saturates, 2 delta below 1000)
#include "model.h"
#include <cachelot/string_conv.h>
static const char* MAXS = "18446744073709551615";
static char rd[32];
static uint64_t number(char* t, unsigned n, int prefix, const char* name) {
    uint64_t v = 0;
    for (unsigned i = 0; i < n; ++i) {
        uint64_t d;
        if (prefix == -2) d = 0;
        else if (prefix < 0) d = vs_range(i == 0 ? 1 : 0, 9, name);
        else if ((int)i < prefix) d = (uint64_t)(MAXS[i] - '0');
        else if ((int)i == prefix) d = vs_range(0, (uint64_t)(MAXS[i] - '0' - 1), name);
        else d = vs_range(0, 9, name);
        t[i] = (char)('0' + d); v = v * 10 + d;
    }
    return v;
}
void vs_main() {
    int mode = (int)vs_param(0); unsigned n = (unsigned)vs_param(1); int prefix = (int)vs_param(2); bool decr = vs_param(3);
    Cache c = Cache::Create(1024, 256, 4, true);
    vs_clock_s = 1000;
    KeyDef k = {"n", 1, mode == 2 ? 77u : vs_u32("hash")}; uint32_t ttl = vs_u32("ttl"); vs_assume(ttl != 1); uint16_t fl = vs_u16("flags");
    char txt[32]; uint64_t val = 0; bool numeric = true;
    if (mode == 1) { vs_make_symbolic(txt, n, "text"); unsigned nd = 0; for (unsigned i = 0; i < n; ++i) { unsigned char d = (unsigned char)(txt[i] - '0'); nd += d <= 9; val = val * 10 + d; } numeric = n > 0 && nd == n; }
    else val = number(txt, n, prefix, "digit");
    { ItemPtr i = c.create_item(k.s(), k.h, n, fl, seconds(ttl)); i->assign_value(slice(txt, n)); c.do_set(i); }
    unsigned evicted = 0, fillers = 0; c.on_eviction = [&](ConstItemPtr) { evicted++; };
    if (mode == 2) { // full arena; the counter is somewhere in the eviction order
        char fv[200]; memset(fv, 'f', sizeof fv); unsigned touched = vs_choose(4, "touch"), len = vs_choose(2, "filler") ? 70 : 20;
        for (fillers = 0; fillers < 30 && evicted == 0; ++fillers) { char fk[2] = {'f', (char)('A' + fillers)}; ItemPtr i = c.create_item(slice(fk, 2), 1000 + fillers, len, 1, seconds(0)); i->assign_value(slice(fv, len)); c.do_set(i); if (fillers % 4 == touched) c.do_get(k.s(), k.h); }
        if (!c.do_get(k.s(), k.h)) { vs_check(evicted > 0, "item is lost"); vs_cover("evicted"); vs_stop(); }
    }
    uint64_t cas; { ConstItemPtr o = c.do_get(k.s(), k.h); vs_check(o != nullptr, "stored item is missing"); cas = o->timestamp(); }
    uint64_t delta, expect = 0; unsigned rn = (unsigned)vs_param(5);
    if (vs_param(4) == 0 && mode != 1) { expect = number(rd, rn, (int)vs_param(6), "result"); if (decr) { vs_assume(expect <= val); delta = val - expect; } else { vs_assume(expect >= val); delta = expect - val; } }
    else if (vs_param(4) == 1) { delta = vs_u64("delta"); if (decr) vs_assume(delta >= val); else { vs_assume(delta > ~0ull - val); expect = ~0ull; } }
    else { delta = vs_range(0, 9, "delta"); expect = decr ? (val < delta ? 0 : val - delta) : val + delta; }
    vs_clock_s = 1001;
    bool found = false, err = false; uint64_t res = 0;
    try { auto t = decr ? c.do_decr(k.s(), k.h, delta) : c.do_incr(k.s(), k.h, delta); found = std::get<0>(t); res = std::get<1>(t); }
    catch (const system_error& e) { err = true; vs_check(e.code() == error::numeric_convert || e.code() == error::numeric_overflow, "incr/decr fails with an unexpected error"); }
    vs_check(err == !numeric, "incr/decr succeeds exactly on decimal numbers");
    char want[32]; size_t wn;
    if (!err) {
        vs_check(found, "incr/decr does not find the item");
        vs_check(res == expect, decr ? "decr result is not max(0, value - delta)" : "incr result is not min(2^64-1, value + delta)");
        vs_cover("done");
        if (vs_param(4) == 0 && mode != 1) { memcpy(want, rd, rn); wn = rn; } else wn = int_to_str(res, want);
    } else { memcpy(want, txt, n); wn = n; vs_cover("error"); }
    ConstItemPtr g = c.do_get(k.s(), k.h);
    vs_check(g != nullptr, "item is lost by incr/decr");
    vs_check(g->value().length() == wn && eq_bytes(g->value().begin(), want, wn), err ? "failed incr/decr changes the item" : "stored text is not the returned value");
    vs_check(g->opaque_flags() == fl, "incr/decr changes the flags");
    vs_check((g->timestamp() != cas) == !err, "cas token must change exactly when the item is modified");
    vs_obs_bytes("v", g->value().begin(), wn); vs_obs_u64("res", res);
    if (mode == 2) { unsigned alive = 0; for (unsigned i = 0; i < fillers; ++i) { char fk[2] = {'f', (char)('A' + i)}; alive += c.do_get(slice(fk, 2), 1000 + i) != nullptr; } vs_check(alive + evicted >= fillers, "an item is lost without eviction"); vs_check(alive + evicted <= fillers + 1, "an evicted item is still there"); }
    if (ttl == 0 || 1000ull + ttl >= 0xffffffffull) { vs_clock_s = 0xfffffffeull; vs_check(c.do_get(k.s(), k.h) != nullptr, "item without expiration expires after incr/decr"); }
    else { vs_clock_s = 999ull + ttl; vs_check(c.do_get(k.s(), k.h) != nullptr, "item expires too early after incr/decr"); vs_clock_s = 1000ull + ttl; vs_check(c.do_get(k.s(), k.h) == nullptr, "item expires too late after incr/decr"); }
    bool nf = std::get<0>(c.do_incr(slice("zz", 2), 5, 1)); vs_check(!nf, "incr of an absent key reports success"); vs_check(c.do_get(slice("zz", 2), 5) == nullptr, "incr of an absent key creates it");
    vs_cover("end");
}
