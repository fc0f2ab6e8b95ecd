// C API: results and error reports.  params: 0 mode (0 histories, 1 failures, 2 construction, 3 evictions, 4 TTL, 5 keys), 1 number of ops, 2 first op pinned (-1), 3: 1 = pass no error structure
#include "vs.h"
#include <cachelot/common.h>
#include <cachelot/c_api.h>
#include <cachelot/error.h>
#include <cstring>
using namespace cachelot;
static CachelotError err; static CachelotError* ep;
static void arm() { err.code = 99; err.category = "stale"; memset(err.desription, 'x', sizeof err.desription); }
static void expect_ok(const char* what) { if (ep) vs_check(err.code == 0 && err.category == nullptr && err.desription[0] == 0, what); }
static void expect_err(error::cachelot_error_code code, const char* what) {
    if (!ep) return;
    bool term = false; for (unsigned i = 0; i < sizeof err.desription; ++i) term |= err.desription[i] == 0;
    vs_check(err.code == (int)code && err.category != nullptr && err.category[0] != 0 && strcmp(err.category, "stale") != 0, what);
    vs_check(term && err.desription[0] != 0 && err.desription[0] != 'x', "description of an error is missing");
}
struct Ref { bool in = false; unsigned n = 0; char b[64]; };
static bool same(CachelotConstItemPtr i, const char* k, unsigned kn, const Ref& r) {
    if (cachelot_item_get_keylen(i) != kn || cachelot_item_get_valuelen(i) != r.n) return false;
    unsigned char d = 0; for (unsigned j = 0; j < kn; ++j) d |= (unsigned char)(cachelot_item_get_key(i)[j] ^ k[j]); for (unsigned j = 0; j < r.n; ++j) d |= (unsigned char)(cachelot_item_get_value(i)[j] ^ r.b[j]); return d == 0;
}
enum { SET, GET, ADD, REPL, APP, PRE, DEL, TOUCH, INCR, DECR, FLUSH, DROP, NOPS };
static CachelotOptions opts(bool ev) { CachelotOptions o; o.memory_limit = 1024; o.mem_page_size = 256; o.initial_dict_size = 4; o.enable_evictions = ev; return o; }
static void histories() {
    static const char* kb[2] = {"k", "kk"}; CachelotItemKey keys[2]; Ref ref[2]; bool ttlset[2] = {false, false}; vs_clock_s = 500;
    for (unsigned i = 0; i < 2; ++i) { keys[i].key = kb[i]; keys[i].keylen = i + 1; keys[i].hash = vs_u32("hash"); }
    arm(); CachelotPtr c = cachelot_init(opts(true), ep); vs_check(c != nullptr, "init"); expect_ok("init reports an error");
    for (unsigned s = 0; s < (unsigned)vs_param(1); ++s) {
        unsigned op = s == 0 && vs_param(2) >= 0 ? (unsigned)vs_param(2) : vs_choose(NOPS, "op"); unsigned ki = op == FLUSH ? 0 : vs_choose(2, "key"); CachelotItemKey k = keys[ki]; Ref& r = ref[ki];
        CachelotItemPtr it = nullptr; Ref v; v.in = true;
        if (op == SET || (op >= ADD && op <= PRE) || op == DROP) {
            v.n = 1 + vs_choose(2, "len"); vs_make_symbolic(v.b, v.n, "val"); if (op == SET) { v.n = 2; vs_assume(v.b[0] >= '1' && v.b[0] <= '9'); v.b[1] = '5'; } else if (v.n == 2) v.b[1] = 'x';
            arm(); it = cachelot_create_item_raw(c, k, v.b, v.n, ep); vs_check(it != nullptr, "create_item_raw fails"); expect_ok("create_item_raw succeeds but reports an error");
            vs_check(same(it, kb[ki], ki + 1, v), "created item differs from what was given"); vs_check(cachelot_item_get_ttl_seconds(it) == cachelot_infinite_TTL, "created item must not expire");
        }
        arm();
        switch (op) {
        case SET: vs_check(cachelot_set(c, it, ep), "set returns false"); expect_ok("set succeeds but reports an error"); r = v; ttlset[ki] = false; break;
        case GET: { auto g = cachelot_get_unsafe(c, k, ep); expect_ok("get reports an error"); vs_check((g != nullptr) == r.in, "get: hit or miss"); if (g) vs_check(same(g, kb[ki], ki + 1, r), "get: wrong content"); break; }
        case ADD: vs_check(cachelot_add(c, it, ep) == !r.in, "add: outcome"); expect_ok("add reports an error"); if (!r.in) { r = v; ttlset[ki] = false; } break;
        case REPL: vs_check(cachelot_replace(c, it, ep) == r.in, "replace: outcome"); expect_ok("replace reports an error"); if (r.in) { r = v; ttlset[ki] = false; } break;
        case APP: case PRE: { bool was = r.in; vs_check((op == APP ? cachelot_append(c, it, ep) : cachelot_prepend(c, it, ep)) == was, "append/prepend: outcome"); expect_ok("append/prepend reports an error");
            if (was) { Ref n; n.in = true; n.n = r.n + v.n; const Ref& a = op == APP ? r : v; const Ref& b = op == APP ? v : r; memcpy(n.b, a.b, a.n); memcpy(n.b + a.n, b.b, b.n); r = n; } break; }
        case DEL: vs_check(cachelot_delete(c, k, ep) == r.in, "delete: outcome"); expect_ok("delete reports an error"); r.in = false; break;
        case TOUCH: vs_check(cachelot_touch(c, k, 77, ep) == r.in, "touch: outcome"); expect_ok("touch reports an error"); if (r.in) { ttlset[ki] = true; } break;
        case INCR: case DECR: {
            bool num = r.in && r.n <= 2; uint64_t val = 0; if (r.in) for (unsigned j = 0; j < r.n; ++j) { num = num & (r.b[j] >= '0') & (r.b[j] <= '9'); val = val * 10 + (uint64_t)(r.b[j] - '0'); }
            if (r.in && r.n > 2) break; // longer texts are C04's business
            uint64_t res = 4242; bool nores = vs_choose(2, "noresult"); bool f = op == INCR ? cachelot_incr(c, k, 1, nores ? nullptr : &res, ep) : cachelot_decr(c, k, 1, nores ? nullptr : &res, ep);
            if (!r.in) { vs_check(!f, "incr/decr of an absent key"); expect_ok("incr/decr of an absent key reports an error"); }
            else if (!num) { vs_check(!f, "incr/decr of a text succeeds"); expect_err(error::numeric_convert, "incr/decr of a text must report numeric_convert"); }
            else { uint64_t e = op == INCR ? val + 1 : val ? val - 1 : 0; vs_check(f, "incr/decr of a number fails"); expect_ok("incr/decr succeeds but reports an error"); vs_check(nores || res == e, "incr/decr: result");
                auto g = cachelot_get_unsafe(c, k, ep); vs_check(g != nullptr, "counter lost"); r.n = (unsigned)cachelot_item_get_valuelen(g); vs_check(r.n >= 1 && r.n <= 3, "counter text"); uint64_t x = 0; for (unsigned j = 0; j < r.n; ++j) { r.b[j] = cachelot_item_get_value(g)[j]; x = x * 10 + (uint64_t)(r.b[j] - '0'); } vs_check(x == e, "counter text"); }
            break; }
        case FLUSH: cachelot_flush_all(c, ep); expect_ok("flush_all reports an error"); break;
        case DROP: cachelot_destroy_item(c, it); cachelot_destroy_item(c, nullptr); break;
        }
    }
    for (unsigned i = 0; i < 2; ++i) { auto g = cachelot_get_unsafe(c, keys[i], ep); vs_check((g != nullptr) == ref[i].in, "final get: hit or miss"); if (g) { vs_check(same(g, kb[i], i + 1, ref[i]), "final get: wrong content"); vs_check(cachelot_item_get_ttl_seconds(g) == (ttlset[i] ? 77 : cachelot_infinite_TTL), "TTL of the item");
        cachelot_item_set_ttl_seconds((CachelotItemPtr)g, 9); vs_check(cachelot_item_get_ttl_seconds(g) == 9, "TTL is not the one assigned"); } }
    cachelot_destroy(c); cachelot_destroy(nullptr); vs_cover("end");
}
static void failures() {
    arm(); CachelotPtr c = cachelot_init(opts(false), ep); vs_check(c != nullptr, "init");
    char buf[400]; memset(buf, 'q', sizeof buf); CachelotItemKey k = {buf, 1, vs_u32("hash")}; char small[3]; vs_make_symbolic(small, 3, "val");
    switch (vs_choose(5, "case")) {
    case 0: { k.keylen = 251 + vs_choose(10, "extra"); arm(); vs_check(cachelot_create_item_raw(c, k, small, 3, ep) == nullptr, "item with a long key"); expect_err(error::key_too_long, "long key must be reported as key_too_long"); break; }
    case 1: { arm(); vs_check(cachelot_create_item_raw(c, k, buf, 240 + vs_choose(60, "extra"), ep) == nullptr, "item that is too big"); expect_err(error::item_too_big, "big item must be reported as item_too_big"); break; }
    case 2: { unsigned n = 0; for (;; ++n) { k.hash += 7; buf[0] = (char)('a' + n); arm(); auto it = cachelot_create_item_raw(c, k, small, 3, ep); if (!it) break; expect_ok("create_item_raw succeeds but reports an error"); vs_check(n < 30, "memory never runs out"); if (n >= 30) break; arm(); vs_check(cachelot_set(c, it, ep), "set"); }
        expect_err(error::out_of_memory, "full memory must be reported as out_of_memory"); for (unsigned i = 0; i < n; ++i) { k.hash = k.hash; } break; }
    case 3: { arm(); auto it = cachelot_create_item_raw(c, k, buf, 150, ep); vs_check(it && cachelot_set(c, it, ep), "set"); auto p = cachelot_create_item_raw(c, k, buf, 100, ep); vs_check(p != nullptr, "piece"); arm(); bool r = vs_choose(2, "prepend") ? cachelot_prepend(c, p, ep) : cachelot_append(c, p, ep); vs_check(!r, "result is too big"); expect_err(error::item_too_big, "result that is too big must be reported as item_too_big");
        auto g = cachelot_get_unsafe(c, k, ep); vs_check(g && cachelot_item_get_valuelen(g) == 150, "item was changed by a failed append"); break; }
    case 4: { arm(); auto it = cachelot_create_item_raw(c, k, "18446744073709551616", 20, ep); vs_check(it && cachelot_set(c, it, ep), "set"); uint64_t res; arm(); bool r = vs_choose(2, "decr") ? cachelot_decr(c, k, 1, &res, ep) : cachelot_incr(c, k, 1, nullptr, ep); vs_check(!r, "number that does not fit"); expect_err(error::numeric_overflow, "number that does not fit must be reported as numeric_overflow"); break; }
    }
    cachelot_destroy(c); vs_cover("end");
}
static void construction() {
    CachelotOptions o = opts(true); switch (vs_choose(5, "case")) { case 0: o.memory_limit = vs_u64("mem"); vs_assume((o.memory_limit & (o.memory_limit - 1)) != 0); break; case 1: o.mem_page_size = 300; break; case 2: o.mem_page_size = 512; break; case 3: o.initial_dict_size = 0; break; case 4: o.mem_page_size = 128; break; }
    arm(); CachelotPtr c = cachelot_init(o, ep); vs_check(c == nullptr, "impossible options are accepted");
    if (ep) vs_check(err.category != nullptr && strcmp(err.category, "stale") != 0 && err.desription[0] != 0 && err.desription[0] != 'x', "refused options are not explained");
    vs_check(cachelot_hash("", 0) == 2166136261u, "hash of the empty key"); char b[3]; vs_make_symbolic(b, 3, "key"); uint32_t h = 2166136261u; for (unsigned i = 0; i < 3; ++i) h = (h ^ (unsigned char)b[i]) * 16777619u; vs_check(cachelot_hash(b, 3) == h, "hash is not FNV-1a"); vs_cover("end");
}
static void ttls() { // any TTL, given to an item or by touch, is the one reported; the item is gone exactly when it is over
    vs_clock_s = 1000; CachelotPtr c = cachelot_init(opts(true), ep); vs_check(c != nullptr, "init"); CachelotItemKey k = {"k", 1, vs_u32("hash")}; uint32_t t = vs_u32("ttl"); vs_assume(t < 0xffffffffu - 1000 - 10); bool touch = vs_choose(2, "touch"); arm(); auto it = cachelot_create_item_raw(c, k, "v", 1, ep); vs_check(it != nullptr, "create_item_raw fails");
    if (!touch) { cachelot_item_set_ttl_seconds(it, t); vs_check(cachelot_item_get_ttl_seconds(it) == t, "TTL is not the one assigned"); } vs_check(cachelot_set(c, it, ep), "set"); if (touch) { arm(); vs_check(cachelot_touch(c, k, t, ep), "touch: outcome"); expect_ok("touch reports an error"); }
    auto g = cachelot_get_unsafe(c, k, ep); vs_check(g != nullptr && cachelot_item_get_ttl_seconds(g) == t, "TTL of the item"); if (t != cachelot_infinite_TTL) { vs_clock_s = 1000 + t - 1; vs_check(cachelot_get_unsafe(c, k, ep) != nullptr, "item is gone before its time"); vs_clock_s = 1000 + (uint64_t)t + 1; vs_check(cachelot_get_unsafe(c, k, ep) == nullptr, "item outlives its time"); arm(); vs_check(!cachelot_touch(c, k, 5, ep) && !cachelot_delete(c, k, ep), "expired item is acted on"); expect_ok("expired item reports an error"); }
    cachelot_destroy(c); vs_cover("end");
}
static void keysx() { // keys are bytes: any byte, any length.  param 1 length
    CachelotOptions o = opts(true); o.memory_limit = 4096; o.mem_page_size = 1024; CachelotPtr c = cachelot_init(o, ep); unsigned n = (unsigned)vs_param(1); char a[400], b[400]; for (unsigned i = 0; i < n; ++i) a[i] = b[i] = (char)(i * 11); vs_make_symbolic(a, n < 3 ? n : 3, "key"); vs_make_symbolic(b, n < 3 ? n : 3, "other"); if (n > 3) { vs_make_symbolic(a + n - 1, 1, "key_end"); }
    uint32_t h = 2166136261u; for (unsigned i = 0; i < n; ++i) h = (h ^ (unsigned char)a[i]) * 16777619u; vs_check(cachelot_hash(a, n) == h, "hash is not FNV-1a"); if (n > 250) { vs_cover("end"); return; }
    uint32_t hh = vs_u32("hash"); CachelotItemKey ka = {a, n, hh}, kb = {b, n, hh}; bool eq = true; for (unsigned i = 0; i < n; ++i) eq = eq & (a[i] == b[i]);
    arm(); auto i = cachelot_create_item_raw(c, ka, "AA", 2, ep); vs_check(i && cachelot_set(c, i, ep), "set"); i = cachelot_create_item_raw(c, kb, "B", 1, ep); vs_check(i && cachelot_add(c, i, ep) == !eq, "add: outcome");
    auto g = cachelot_get_unsafe(c, ka, ep); Ref r; r.n = 2; r.b[0] = r.b[1] = 'A'; vs_check(g && same(g, a, n, r), "item of a key with any bytes"); g = cachelot_get_unsafe(c, kb, ep); if (!eq) { r.n = 1; r.b[0] = 'B'; } vs_check(g && same(g, b, n, r), "item of a key with any bytes");
    if (n > 1) { CachelotItemKey kc = {a, n - 1, hh}; vs_check(cachelot_get_unsafe(c, kc, ep) == nullptr && !cachelot_delete(c, kc, ep), "prefix of a key is found"); } vs_check(cachelot_delete(c, ka, ep), "delete: outcome"); vs_check((cachelot_get_unsafe(c, kb, ep) != nullptr) == !eq, "delete takes another item"); cachelot_destroy(c); vs_cover("end");
}
static unsigned nev; static bool live[32];
static void evcb(CachelotConstItemPtr i) { ++nev; vs_check(cachelot_item_get_keylen(i) == 2 && cachelot_item_get_valuelen(i) == 60, "evicted item is damaged"); unsigned n = (unsigned)(cachelot_item_get_key(i)[1] - 'A'); vs_check(n < 32 && live[n], "evicted item was not in the cache"); if (n < 32) live[n] = false; }
static void evictions() {
    CachelotPtr c = cachelot_init(opts(true), ep); bool cb = vs_choose(2, "callback"); cachelot_on_eviction_callback(c, evcb); if (!cb) cachelot_on_eviction_callback(c, nullptr);
    char val[60]; memset(val, 'v', 60); uint32_t h0 = vs_u32("hash"); unsigned total = 20;
    for (unsigned i = 0; i < total; ++i) { char kb[2] = {'K', (char)('A' + i)}; CachelotItemKey k = {kb, 2, h0 ^ (i * 77)}; arm(); auto it = cachelot_create_item_raw(c, k, val, 60, ep); vs_check(it != nullptr, "store fails although evictions are enabled"); arm(); vs_check(cachelot_set(c, it, ep), "set"); expect_ok("set reports an error"); live[i] = true; }
    vs_check((nev > 0) == cb, "eviction callback"); unsigned found = 0;
    for (unsigned i = 0; i < total; ++i) { char kb[2] = {'K', (char)('A' + i)}; CachelotItemKey k = {kb, 2, h0 ^ (i * 77)}; auto g = cachelot_get_unsafe(c, k, ep); if (cb) vs_check((g != nullptr) == live[i], "presence does not match the eviction reports"); found += g != nullptr; }
    vs_check(found > 0 && found < total, "some items must survive, some must not"); cachelot_destroy(c); vs_cover("end");
}
void vs_main() { ep = vs_param(3) ? nullptr : &err; switch (vs_param(0)) { case 0: histories(); break; case 1: failures(); break; case 2: construction(); break; case 3: evictions(); break; case 4: ttls(); break; case 5: keysx(); break; } }
