// Every command counts exactly itself and its outcome.  params: 0 number of ops, 1 keys, 2 first op pinned (-1), 3: 1 = items may expire, 4: 1 = values may be empty or text
#include "model.h"
enum { GET, SET, ADD, REPL, CAS, DEL, TOUCH, INCR, DECR, APP, PRE, FLUSH, NOPS };
#define ENUM(t, n, d) S_##n,
enum { CACHE_STATS(ENUM) NSTAT };
static void snap(uint64_t* a) {
#define TAKE(t, n, d) a[S_##n] = (uint64_t)STAT_GET(cache, n);
    CACHE_STATS(TAKE)
}
#define NAME(t, n, d) "counter " #n " does not match the history",
static const char* names[] = {CACHE_STATS(NAME)};
void vs_main() {
    unsigned nops = (unsigned)vs_param(0), nk = (unsigned)vs_param(1); int pin = (int)vs_param(2); bool exp = vs_param(3) != 0;
    KeyDef keys[2] = {{"k", 1, vs_u32("hash")}, {"kk", 2, vs_u32("hash")}}; RefItem ref[2]; bool isnum[2] = {false, false};
    Cache c = Cache::Create(1024, 256, 4, true); vs_clock_s = 1000;
    uint64_t e[NSTAT]; snap(e);
    auto gone = [&](unsigned i) { if (ref[i].present && !ref[i].forever && ref[i].exp <= vs_clock_s) ref[i].present = false; };
    for (unsigned s = 0; s < nops; ++s) {
        unsigned op = s == 0 && pin >= 0 ? (unsigned)pin : vs_choose(NOPS, "op");
        if (exp) vs_clock_s += vs_choose(2, "tick") * 10;
        if (op == FLUSH) { c.do_flush_all(); e[S_cmd_flush]++; for (unsigned i = 0; i < nk; ++i) gone(i); }
        else {
            unsigned ki = vs_choose(nk, "key"); KeyDef& k = keys[ki]; RefItem& r = ref[ki]; uint32_t ttl = exp && op != DEL && op != GET ? 10 * vs_choose(2, "ttl") : 0;
            ItemPtr it = nullptr; Val v; v.n = 1; v.b[0] = '7'; if (vs_param(4) && ((op >= SET && op <= CAS) || op == APP || op == PRE)) { unsigned w = vs_choose(3, "value"); if (w == 1) v.b[0] = 'x'; if (w == 2) v.n = 0; }
            if ((op >= SET && op <= CAS) || op == APP || op == PRE) it = make_item(c, k, v, 0, ttl);
            gone(ki); bool had = r.present; auto stored = [&] { r.present = true; r.forever = ttl == 0; r.exp = vs_clock_s + ttl; r.v = v; };
            switch (op) {
            case GET: vs_check((c.do_get(k.s(), k.h) != nullptr) == had, "get outcome"); e[S_cmd_get]++; e[had ? S_get_hits : S_get_misses]++; break;
            case SET: c.do_set(it); e[S_cmd_set]++; e[had ? S_set_existing : S_set_new]++; stored(); break;
            case ADD: c.do_add(it); e[S_cmd_add]++; e[had ? S_add_not_stored : S_add_stored]++; if (!had) stored(); break;
            case REPL: c.do_replace(it); e[S_cmd_replace]++; e[had ? S_replace_stored : S_replace_not_stored]++; if (had) stored(); break;
            case CAS: { uint64_t tok = vs_u64("token"); auto t = c.do_cas(it, tok); bool st = std::get<1>(t); e[S_cmd_cas]++; e[!had ? S_cas_misses : st ? S_cas_stored : S_cas_badval]++; vs_check(had || !st, "cas outcome"); if (st) stored(); break; }
            case DEL: c.do_delete(k.s(), k.h); e[S_cmd_delete]++; e[had ? S_delete_hits : S_delete_misses]++; r.present = false; break;
            case TOUCH: c.do_touch(k.s(), k.h, seconds(ttl)); e[S_cmd_touch]++; e[had ? S_touch_hits : S_touch_misses]++; if (had) { r.forever = ttl == 0; r.exp = vs_clock_s + ttl; } break;
            case INCR: case DECR: { bool num = had && r.v.n > 0; if (had) for (unsigned j = 0; j < r.v.n; ++j) num = num & (r.v.b[j] >= '0') & (r.v.b[j] <= '9'); e[op == INCR ? S_cmd_incr : S_cmd_decr]++; bool bad = false; // what is not a number is neither hit nor miss
                try { auto t = op == INCR ? c.do_incr(k.s(), k.h, 1) : c.do_decr(k.s(), k.h, 1); vs_check(std::get<0>(t) == had, "incr/decr outcome"); if (had) { ConstItemPtr g = c.do_get(k.s(), k.h); e[S_cmd_get]++; e[S_get_hits]++; vs_check(g != nullptr, "counter lost"); if (g) { r.v.n = (unsigned)g->value().length(); memcpy(r.v.b, g->value().begin(), r.v.n); } } } catch (const system_error&) { bad = true; }
                vs_check(bad == (had && !num), "incr/decr outcome"); if (!had) e[op == INCR ? S_incr_misses : S_decr_misses]++; else if (num) e[op == INCR ? S_incr_hits : S_decr_hits]++; break; }
            case APP: case PRE: { bool ap = op == APP; if (ap) c.do_append(it); else c.do_prepend(it); e[ap ? S_cmd_append : S_cmd_prepend]++; e[had ? (ap ? S_append_stored : S_prepend_stored) : (ap ? S_append_misses : S_prepend_misses)]++; if (had) { Val x; const Val& l = ap ? r.v : v; const Val& q = ap ? v : r.v; x.n = l.n + q.n; memcpy(x.b, l.b, l.n); memcpy(x.b + l.n, q.b, q.n); r.v = x; } break; }
            }
        }
        uint64_t now[NSTAT]; snap(now);
        for (unsigned i = 0; i < NSTAT; ++i) if (i != S_hash_capacity && i != S_curr_items && i != S_hash_is_expanding) vs_check(now[i] == e[i], names[i]);
    }
    for (unsigned i = 0; i < nk; ++i) { gone(i); vs_check((c.do_get(keys[i].s(), keys[i].h) != nullptr) == ref[i].present, "presence differs from the model"); }
    c.publish_stats(); vs_check(STAT_GET(cache, curr_items) == (uint64_t)ref[0].present + ref[1].present, "curr_items is not the number of items");
    vs_check(STAT_GET(cache, hash_capacity) >= 4, "hash_capacity"); vs_check(STAT_GET(mem, limit_maxbytes) == 1024 && STAT_GET(mem, page_size) == 256, "memory limits are not reported");
    ResetStats(); snap(e); bool z = true; for (unsigned i = 0; i < NSTAT; ++i) z &= e[i] == 0; vs_check(z && STAT_GET(mem, num_malloc) == 0, "ResetStats leaves counters behind");
    vs_cover("end");
}
