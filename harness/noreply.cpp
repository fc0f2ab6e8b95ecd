// noreply suppresses the response and nothing else.  params: 0 command, 1 state of the key (0 absent, 1 text, 2 number), 2 delivery (0 whole, 1 cut anywhere)
#include "wire.h"
static const char* CMD[] = { // # digit, % data byte
    "set k # 0 2", "add k # # 2", "replace k # 0 2", "append k # 0 2", "prepend k 0 # 2", "cas k # 0 2 #", "delete k", "incr k #", "decr k #", "touch k #", "flush_all" };
struct Twin { Cache c; net::io_service ios; Twin() : c(new_cache()) { } };
static void prepare(Cache& c, unsigned st) { { slice e("e", 1); ItemPtr i = c.create_item(e, key_hash(e), 1, 0, seconds(1)); i->assign_value(slice("E", 1)); c.do_set(i); } if (!st) return; slice k("k", 1); ItemPtr i = c.create_item(k, key_hash(k), 2, 4, seconds(30)); i->assign_value(slice(st == 1 ? "tx" : "17", 2)); c.do_set(i); }
void vs_main() {
    unsigned cmd = (unsigned)vs_param(0), st = (unsigned)vs_param(1); Cache c1 = new_cache(); Cache c2 = new_cache(); net::io_service ios; prepare(c1, st); prepare(c2, st); vs_clock_s += 5; // by now e has expired, and only flush_all can tell
    char line[64]; unsigned n = 0; for (const char* t = CMD[cmd]; *t; ++t) { if (*t == '#') { char x; vs_make_symbolic(&x, 1, "digit"); vs_assume(x >= '0' && x <= '9'); line[n++] = x; } else line[n++] = *t; }
    char data[4]; bool storage = cmd <= 5; vs_make_symbolic(data, 2, "data"); data[2] = '\r'; data[3] = '\n';
    const char* probe = "gets k n\r\n"; unsigned pn = 10;
    char q[128], s[128]; unsigned qn = 0, sn = 0; memcpy(q, line, n); qn = n; memcpy(q + qn, " noreply\r\n", 10); qn += 10; memcpy(s, line, n); sn = n; memcpy(s + sn, "\r\n", 2); sn += 2;
    if (storage) { memcpy(q + qn, data, 4); qn += 4; memcpy(s + sn, data, 4); sn += 4; }
    unsigned q0 = qn; memcpy(q + qn, probe, pn); qn += pn;
    Peer quiet(c1, ios, 65536, 65536), loud(c2, ios, 65536, 65536);
    bool ok2 = loud.deliver(s, sn); loud.settle(); Bytes reply = loud.got; loud.got.n = 0; vs_check(ok2 && reply.n > 2, "request without noreply is not answered"); if (is_error(reply)) { vs_cover("error"); return; }
    bool ok; if (vs_param(2)) { unsigned x = vs_choose(qn, "cut"); ok = quiet.deliver(q, x); quiet.settle(); if (x <= q0) vs_check(quiet.got.n == 0, "noreply request is answered"); ok = ok && quiet.deliver(q + x, qn - x); } else { ok = quiet.deliver(q, q0); quiet.settle(); vs_check(quiet.got.n == 0, "noreply request is answered"); vs_check(ok && quiet.reading(), "connection does not go on after noreply"); ok = quiet.deliver(q + q0, pn); }
    quiet.settle(); loud.deliver(probe, pn); loud.settle();
    vs_check(ok && quiet.reading(), "connection does not go on after noreply"); vs_check(same_bytes(quiet.got, loud.got), "noreply changes the effect of the request");
    if (!vs_param(2)) { c1.publish_stats(); auto n1 = STAT_GET(cache, curr_items); c2.publish_stats(); vs_check(n1 == STAT_GET(cache, curr_items), "noreply changes the number of items"); }
    ConstItemPtr a = look(c1, "k", 1), b = look(c2, "k", 1); vs_check((a != nullptr) == (b != nullptr), "noreply changes the effect of the request"); if (a && b) vs_check(a->expiration_time() == b->expiration_time(), "noreply changes the expiration time");
    vs_cover("end");
}
