// An allocation of the process fails.  params: 0 mode (0 cache, 1 io_buffer, 2 server connection, 3 construction, 4 memory is short for many operations), 1 number of items, 2 dictionary size
#include "wire.h"
#include <stdexcept>
static void cachef() { // the n-th allocation from some operation on fails: the operation is refused or done, nothing else changes, and the cache works on
    unsigned n = (unsigned)vs_param(1); Cache c = Cache::Create(1 << 14, 1 << 12, (size_t)vs_param(2), true); static const char* nm[] = {"k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8", "k9"}; KeyDef k[10]; Val v[10]; bool there[10] = {}; unsigned at = vs_choose(n, "at"); bool failed = false;
    for (unsigned i = 0; i < n; ++i) {
        k[i].p = nm[i]; k[i].n = 2; k[i].h = i < 2 ? vs_u32("hash") : 0x9e3779b9u * (i + 1); sym_val(v[i], 1 + i % 3, "value"); if (i == at) vs_alloc_budget = (int64_t)vs_choose(4, "budget"); bool bad = false;
        try { ItemPtr it = make_item(c, k[i], v[i], (uint16_t)i, 0); c.do_set(it); } catch (const std::bad_alloc&) { bad = true; } catch (const system_error&) { bad = true; }
        if (bad) { vs_check(!failed && i >= at, "operation is refused although memory is available"); failed = true; vs_alloc_budget = -1; vs_cover("failed"); } else there[i] = true;
        if (bad) { RefItem none; ConstItemPtr g = c.do_get(k[i].s(), k[i].h); vs_check(g == nullptr, "refused item is stored"); ItemPtr it = make_item(c, k[i], v[i], (uint16_t)i, 0); bool again = true; try { c.do_set(it); } catch (const std::exception&) { again = false; } vs_check(again, "cache does not work after an allocation failed"); there[i] = again; }
        for (unsigned j = 0; j <= i; ++j) { RefItem r; r.present = there[j]; r.v = v[j]; r.flags = (uint16_t)j; expect_get(c, k[j], r, "item is lost after an allocation failed"); }
    }
    vs_alloc_budget = -1; unsigned d = vs_choose(n, "delete"); vs_check(c.do_delete(k[d].s(), k[d].h), "item cannot be deleted after an allocation failed"); vs_check(c.do_get(k[d].s(), k[d].h) == nullptr, "deleted item is found"); vs_cover("end");
}
static void bufferf() {
    io_buffer b((size_t)(vs_choose(2, "initial") * 500), 65536); char m[5000]; unsigned n = 0, rd = 0; unsigned at = vs_choose(3, "at"); static const unsigned sz[] = {10, 400, 600, 1500};
    for (unsigned s = 0; s < 3; ++s) {
        unsigned w = sz[vs_choose(4, "size")]; if (s == at) vs_alloc_budget = 0; char* p = nullptr; bool bad = false; try { p = b.begin_write(w); } catch (const std::bad_alloc&) { bad = true; } vs_alloc_budget = -1;
        if (bad) { vs_check(s == at, "buffer refuses to grow although memory is available"); vs_cover("failed"); } else { vs_check(b.available() >= w, "less than requested was granted"); for (unsigned i = 0; i < w; ++i) { char x = i < 2 ? (char)vs_u8("byte") : (char)(i + n); p[i] = x; m[n + i] = x; } b.confirm_write(w); n += w; }
        vs_check(b.non_read() == n - rd && b.size() <= b.capacity(), "amount of buffered data is wrong"); vs_check(n == rd || eq_bytes(b.begin_read(), m + rd, n - rd), "buffered bytes are lost when the buffer cannot grow"); if (s == 0 && n > 5) { b.confirm_read(5); rd = 5; }
    }
    vs_cover("end");
}
static void serverf() { // a connection that meets the failure is answered an error or closed, or served; others go on
    Cache c = new_cache(); net::io_service ios; Peer p(c, ios, 65536, 65536); Wire w(3000); unsigned kind = vs_choose(3, "request"); 
    if (kind == 0) { w.put("set a 1 0 900\r\n"); for (unsigned i = 0; i < 900; ++i) w.in[w.in_n++] = 'q'; w.put("\r\n"); w.out.lit("STORED\r\n"); } else if (kind == 1) { w.put("set n 6 0 2\r\n"); unsigned o = w.in_n; w.put("??\r\n"); vs_make_symbolic(w.in + o, 2, "data"); w.out.lit("STORED\r\n"); } else { for (unsigned i = 0; i < 60; ++i) w.put(i ? " n" : "get n"); w.put("\r\n"); for (unsigned i = 0; i < 60; ++i) w.out.lit("VALUE n 6 1\r\n5\r\n"); w.out.lit("END\r\n"); }
    unsigned at = 0; vs_realloc_budget = (int64_t)vs_choose(4, "budget");
    for (unsigned g = 0; g < 60; ++g) { if (p.writing()) { p.send_done(); continue; } if (!p.reading() || at == w.in_n) break; unsigned m = w.in_n - at; if (m > p.st->rbuf.n) m = (unsigned)p.st->rbuf.n; memcpy(p.st->rbuf.p, w.in + at, m); at += m; boost::asio::io_handler h; h.swap(p.st->rh); p.st->reading = false; h(boost::system::error_code(), m); p.note(); }
    vs_realloc_budget = -1; p.settle(); if (!same_bytes(p.got, w.out) && p.got.n) { vs_check(ends_crlf(p.got) && starts(p.got, 0, "SERVER_ERROR "), "failure of an allocation is not reported"); vs_cover("refused"); } else vs_cover("served");
    Peer q(c, ios, 65536, 65536); q.deliver("set z 1 0 1\r\nZ\r\nget z\r\n", 23); q.settle(); Bytes e; e.lit("STORED\r\nVALUE z 1 1\r\nZ\r\nEND\r\n"); vs_check(same_bytes(q.got, e), "other connections suffer from a failed allocation"); vs_cover("end");
}
static void createf() { vs_alloc_budget = (int64_t)vs_choose(6, "budget"); bool ok = false; try { Cache c = Cache::Create(1 << 14, 1 << 12, 16, true); ok = true; vs_alloc_budget = -1; KeyDef k = {"key", 3, vs_u32("hash")}; Val v; sym_val(v, 2, "value"); c.do_set(make_item(c, k, v, 1, 0)); RefItem r; r.present = true; r.v = v; r.flags = 1; expect_get(c, k, r, "item stored in a new cache is lost"); } catch (const std::bad_alloc&) { vs_check(!ok, "operation fails"); vs_cover("failed"); } vs_alloc_budget = -1; vs_cover("end"); }
static void longf() { // memory stays short for a long time: nothing is lost meanwhile, and then everything works again
    unsigned n = (unsigned)vs_param(1); Cache c = Cache::Create(1 << 14, 1 << 12, (size_t)vs_param(2), true); KeyDef k[64]; Val v[64]; bool there[64] = {}; static char nm[64][2]; unsigned refused = 0;
    for (unsigned i = 0; i < n; ++i) { nm[i][0] = 'k'; nm[i][1] = (char)('0' + i); k[i].p = nm[i]; k[i].n = 2; k[i].h = i < 1 ? vs_u32("hash") : 0x9e3779b9u * (i + 1); sym_val(v[i], 1, "value"); }
    for (unsigned i = 0; i < n; ++i) { vs_alloc_budget = 0; bool bad = false; try { ItemPtr it = make_item(c, k[i], v[i], (uint16_t)i, 0); c.do_set(it); } catch (const std::bad_alloc&) { bad = true; } catch (const system_error&) { bad = true; } vs_alloc_budget = -1; there[i] = !bad; refused += bad; }
    for (unsigned i = 0; i < n; ++i) { RefItem r; r.present = there[i]; r.v = v[i]; r.flags = (uint16_t)i; expect_get(c, k[i], r, "item is lost while memory is short"); }
    if (refused) vs_cover("failed");
    for (unsigned i = 0; i < n; ++i) if (!there[i]) { bool ok = true; try { ItemPtr it = make_item(c, k[i], v[i], (uint16_t)i, 0); c.do_set(it); } catch (const std::exception&) { ok = false; } vs_check(ok, "cache does not work after allocations failed"); there[i] = ok; }
    for (unsigned i = 0; i < n; ++i) { RefItem r; r.present = there[i]; r.v = v[i]; r.flags = (uint16_t)i; expect_get(c, k[i], r, "item is lost after allocations failed"); }
    vs_cover("end");
}
void vs_main() { switch (vs_param(0)) { case 0: cachef(); break; case 1: bufferf(); break; case 2: serverf(); break; case 3: createf(); break; case 4: longf(); break; } }
