// Histories of cache operations against the reference map.
// params: 0 op mask, 1 number of ops, 2 number of keys, 3 initial dict size, 4 first op pinned (-1: free), 5 number of value lengths, 6 number of keys stored before the history, 7 their hashes: 0 distinct, 1 clustered with all others (hash = 5 or 6)
#include "model.h"
enum { SET, GET, DEL, ADD, REPL, CAS, APP, PRE, TOUCH, FLUSH, MOVE, NOPS };
static const unsigned lens[] = {1, 3, 0};
void vs_main() {
    unsigned mask = (unsigned)vs_param(0), nops = (unsigned)vs_param(1), nk = (unsigned)vs_param(2);
    int pin = (int)vs_param(4); unsigned nlens = (unsigned)vs_param(5);
    KeyDef keys[10] = {{"k", 1, 0}, {"kk", 2, 0}, {"kl", 2, 0}, {"p1", 2, 0}, {"p2", 2, 0}, {"p3", 2, 0}, {"p4", 2, 0}, {"p5", 2, 0}, {"p6", 2, 0}, {"p7", 2, 0}};
    unsigned pre = (unsigned)vs_param(6), total = pre ? 3 + pre : nk; bool cluster = vs_param(7) != 0; // with prefilled keys, the keys operated on are the first nk of k, kk, kl and then the prefilled
    for (unsigned i = 0; i < nk; ++i) keys[i].h = cluster ? 5 + (uint32_t)vs_choose(2, "hash") : i < 3 ? vs_u32("hash") : i;
    std::unique_ptr<Cache> holder(new Cache(Cache::Create(1024, 256, (size_t)vs_param(3), true)));
    RefItem ref[10]; uint64_t lastcas = 0;
    for (unsigned i = 3; i < total; ++i) {
        if (i >= nk) keys[i].h = cluster ? 5 : i; RefItem& r = ref[i]; sym_val(r.v, 1, "val"); r.flags = vs_u16("flags"); r.present = true;
        ItemPtr it = make_item(*holder, keys[i], r.v, r.flags, 0); r.cas = lastcas = it->timestamp(); holder->do_set(it);
    }
    unsigned list[NOPS], nl = 0; for (unsigned i = 0; i < NOPS; ++i) if (mask & (1u << i)) list[nl++] = i;
    for (unsigned step = 0; step < nops; ++step) {
        unsigned op = list[step == 0 && pin >= 0 ? (unsigned)pin : vs_choose(nl, "op")];
        if (op == MOVE) { std::unique_ptr<Cache> moved(new Cache(std::move(*holder))); holder = std::move(moved); continue; }
        Cache& c = *holder;
        if (op == FLUSH) { c.do_flush_all(); continue; }
        unsigned ki = vs_choose(nk, "key"); KeyDef& k = keys[ki]; RefItem& r = ref[ki];
        if (op == GET) { expect_get(c, k, r, "get: hit or miss differs from the model"); continue; }
        if (op == DEL) { bool d = c.do_delete(k.s(), k.h); vs_check(d == r.present, "delete reports the wrong outcome"); r.present = false; continue; }
        if (op == TOUCH) { bool d = c.do_touch(k.s(), k.h, seconds(0)); vs_check(d == r.present, "touch reports the wrong outcome"); continue; }
        Val v; choose_val(v, lens, op == SET ? nlens : (nlens < 2 ? nlens : 2), "val"); uint16_t fl = vs_u16("flags");
        ItemPtr it = make_item(c, k, v, fl, 0);
        uint64_t ts = it->timestamp();
        vs_check(ts > lastcas, "cas token is not fresh"); lastcas = ts;
        switch (op) {
        case SET: c.do_set(it); r.present = true; r.v = v; r.flags = fl; r.cas = ts; break;
        case ADD: { bool s = c.do_add(it); vs_check(s == !r.present, "add stores exactly when the key is absent"); if (!r.present) { r.present = true; r.v = v; r.flags = fl; r.cas = ts; } break; }
        case REPL: { bool s = c.do_replace(it); vs_check(s == r.present, "replace stores exactly when the key is present"); if (r.present) { r.v = v; r.flags = fl; r.cas = ts; } break; }
        case CAS: {
            uint64_t tok = vs_u64("token"); auto t = c.do_cas(it, tok); bool found = std::get<0>(t), stored = std::get<1>(t);
            vs_check(found == r.present, "cas: found differs from the model");
            vs_check(stored == (r.present && tok == r.cas), "cas stores exactly when the token is the current one");
            if (stored) { r.v = v; r.flags = fl; r.cas = ts; } break; }
        case APP: case PRE: {
            bool s = op == APP ? c.do_append(it) : c.do_prepend(it);
            vs_check(s == r.present, "append/prepend stores exactly when the key is present");
            if (r.present) {
                Val n; n.n = r.v.n + v.n;
                if (op == APP) { memcpy(n.b, r.v.b, r.v.n); memcpy(n.b + r.v.n, v.b, v.n); } else { memcpy(n.b, v.b, v.n); memcpy(n.b + v.n, r.v.b, r.v.n); }
                r.v = n;
                ConstItemPtr g = c.do_get(k.s(), k.h); vs_check(g != nullptr, "item lost by append/prepend"); 
                vs_check(g->timestamp() != r.cas && g->timestamp() >= ts, "append/prepend must change the cas token"); r.cas = lastcas = g->timestamp();
            }
            break; }
        }
    }
    Cache& c = *holder;
    for (unsigned i = 0; i < total; ++i) {
        expect_get(c, keys[i], ref[i], "final lookup: presence differs from the model");
        ConstItemPtr g = c.do_get(keys[i].s(), keys[i].h);
        vs_obs_u64("present", g != nullptr);
        if (g) { vs_check(g->timestamp() == ref[i].cas, "cas token of the stored item is not the one it was stored with"); vs_obs_bytes("val", g->value().begin(), g->value().length()); vs_obs_u64("cas", g->timestamp()); }
    }
    c.publish_stats();
    unsigned np = 0; for (unsigned i = 0; i < total; ++i) np += ref[i].present;
    vs_check(STAT_GET(cache, curr_items) == np, "curr_items is not the number of stored items");
    vs_cover("end");
}
