// Life of stream connections.  params: 0 mode (0 an operation fails, 1 two connections, 2 too long requests, 3 accepting, 4 too long replies, 5 limits from the settings), 1.. request kinds (100 any)
#include "wire.h"
static unsigned kind(unsigned i, const char* nm) { int k = (int)vs_param(i); return k == 100 ? vs_choose(NREQ, nm) : (unsigned)k - 1; }
static boost::system::error_code some_error() { int c = (int)vs_u32("code"); vs_assume(c != 0 && c != EMSGSIZE); return boost::system::error_code(c, boost::system::system_category()); } // any but "message truncated"
static void usable(Cache& c, net::io_service& ios) { Peer q(c, ios, 65536, 65536); q.deliver("set z 1 0 1\r\nZ\r\nget z\r\n", 23); q.settle(); Bytes e; e.lit("STORED\r\nVALUE z 1 1\r\nZ\r\nEND\r\n"); vs_check(same_bytes(q.got, e), "other connections suffer"); vs_check(q.reading(), "other connections suffer"); }
static void fails() {
    Cache c = new_cache(); net::io_service ios; Wire w(600); w.req(kind(1, "first")); w.req(kind(2, "second")); if (w.closed) return; Peer p(c, ios, 65536, 65536); unsigned x = vs_choose(w.in_n, "cut"), fail_at = vs_choose(5, "fail_at"), step = 0, at = 0; bool failed = false;
    for (unsigned g = 0; g < 40 && !failed; ++g) {
        if (step == fail_at) { failed = true; if (p.writing()) { unsigned part = vs_choose(2, "part") ? p.sent_n / 2 : 0; p.write_fails(some_error(), part); vs_cover("write fails"); } else if (p.reading()) { p.read_fails(some_error()); vs_cover("read fails"); } else vs_fail("connection without operation"); break; }
        ++step; if (p.writing()) p.send_done(); else { unsigned end = at < x ? x : w.in_n; if (at == w.in_n) break; at += p.receive(w.in + at, end - at); }
    }
    if (!failed) return;
    vs_check(!p.reading() && !p.writing(), "connection goes on after an error"); p.conv.reset(); vs_check(p.watch.expired(), "connection is kept after an error");
    vs_check(p.got.n <= w.out.n && eq_bytes(p.got.b, w.out.b, p.got.n), "replies before the error"); usable(c, ios); vs_cover("end");
}
static void pair() { // a request of one connection arrives in the middle of a request of the other
    Cache c = new_cache(); net::io_service ios; Wire w(600); w.req(kind(1, "inner")); unsigned n1 = w.in_n, o1 = w.out.n; bool inner_quit = w.closed; w.closed = false; w.req(kind(2, "outer")); bool outer_quit = w.closed; unsigned n2 = w.in_n - n1; Peer a(c, ios, 65536, 65536), b(c, ios, 65536, 65536);
    unsigned x = vs_choose(n2, "cut"); a.deliver(w.in + n1, x); vs_check(a.got.n == 0 && !a.writing(), "incomplete request is answered"); b.deliver(w.in, n1); b.settle(); vs_check(b.got.n == o1 && eq_bytes(b.got.b, w.out.b, o1), "reply of the connection"); vs_check(b.reading() == !inner_quit, "connection state"); vs_check(a.got.n == 0 && !a.writing(), "reply goes to another connection"); a.deliver(w.in + n1 + x, n2 - x);
    bool late = vs_choose(2, "late"); if (late && !inner_quit && a.writing()) { unsigned s = b.got.n; b.deliver("get nosuch\r\n", 12); b.settle(); vs_check(b.got.n == s + 5, "reply of the connection"); } a.settle();
    vs_check(a.got.n == w.out.n - o1 && eq_bytes(a.got.b, w.out.b + o1, a.got.n), "reply of the connection"); vs_check(a.reading() == !outer_quit, "connection state"); w.same_state(c); vs_cover("end");
}
static void too_long() { // no limit of the server is crossed; the others go on
    Cache c = new_cache(); net::io_service ios; unsigned lim = 600 + 100 * vs_choose(3, "limit"); Peer p(c, ios, lim, 65536); char junk[3000]; unsigned what = vs_choose(3, "what"); for (unsigned i = 0; i < 3000; ++i) junk[i] = 'x'; if (what == 1) memcpy(junk, "set k 0 0 2000\r\n", 16); if (what == 2) memcpy(junk, "get k k k ", 10); char sym[2]; vs_make_symbolic(sym, 2, "bytes"); vs_assume(sym[0] != '\r' && sym[0] != '\n' && sym[1] != '\n'); junk[100] = sym[0]; junk[101] = sym[1];
    unsigned at = 0; for (unsigned g = 0; g < 60 && at < 3000; ++g) { if (p.writing()) { p.send_done(); continue; } if (!p.reading()) break; vs_check(p.st->rbuf.n <= lim, "receive buffer beyond its limit"); unsigned m = 3000 - at; if (m > 400) m = 400; at += p.receive(junk + at, m); }
    p.settle(); if (p.got.n) vs_check(ends_crlf(p.got) && (starts(p.got, 0, "ERROR\r\n") || starts(p.got, 0, "CLIENT_ERROR ") || starts(p.got, 0, "SERVER_ERROR ")), "too long request is not refused"); vs_check(look(c, "k", 1) == nullptr, "too long request is executed"); if (!p.reading()) { p.conv.reset(); vs_check(p.watch.expired(), "connection is kept"); vs_cover("closed"); } usable(c, ios); vs_cover("end");
}
static void accepting() {
    Cache c = new_cache(); net::io_service ios; memcached::TcpServer s(c, ios); s.start(net::tcp::endpoint()); Bytes e; e.lit("STORED\r\n"); boost::asio::io_state* live[4]; unsigned n = 0;
    for (unsigned i = 0; i < 3; ++i) { boost::asio::io_state* st = boost::asio::last_io(); vs_check(st != nullptr && st->accepting, "server does not accept"); if (!st) return; bool bad = vs_choose(2, "fails"); auto h = st->ah; st->accepting = false; st->ah = nullptr; if (bad) h(boost::system::error_code(ECONNABORTED, boost::system::system_category())); else { h(boost::system::error_code()); vs_check(st->reading && !st->writing, "accepted connection is not served"); live[n++] = st; } h = nullptr; }
    vs_check(boost::asio::last_io() && boost::asio::last_io()->accepting, "server does not accept any more");
    for (unsigned i = 0; i < n; ++i) { boost::asio::io_state* st = live[i]; char r[16]; memcpy(r, "set k 1 0 1\r\n?\r\n", 16); vs_make_symbolic(r + 13, 1, "data"); vs_check(st->rbuf.n >= 16, "no room"); memcpy(st->rbuf.p, r, 16); auto h = st->rh; st->reading = false; h(boost::system::error_code(), 16); vs_check(st->writing && st->wbuf.n == 8 && eq_bytes((const char*)st->wbuf.p, "STORED\r\n", 8), "accepted connection is not served"); h = st->wh; st->writing = false; if (h) h(boost::system::error_code(), 8); vs_check(st->reading, "accepted connection is not served"); ConstItemPtr p = look(c, "k", 1); vs_check(p && p->value()[0] == r[13], "item stored over an accepted connection"); vs_cover("served"); }
    vs_cover("end");
}
static void long_reply() {
    Cache c = new_cache(); net::io_service ios; slice k("k", 1); unsigned vn = 300 + 50 * vs_choose(8, "len"); ItemPtr i = c.create_item(k, key_hash(k), vn, 1, seconds(0)); char v[1000]; for (unsigned j = 0; j < 1000; ++j) v[j] = (char)('a' + j % 26); vs_make_symbolic(v, 2, "data"); i->assign_value(slice(v, vn)); c.do_set(i); Peer p(c, ios, 65536, 600); unsigned rep = 1 + vs_choose(3, "keys");
    Bytes e, q; q.lit("get"); for (unsigned j = 0; j < rep; ++j) { q.lit(" k"); e.lit("VALUE k 1 "); e.num(vn); e.lit("\r\n"); e.add(v, vn); e.lit("\r\n"); } q.lit("\r\n"); e.lit("END\r\n"); bool alive = p.deliver(q.b, q.n); p.settle();
    bool full = same_bytes(p.got, e); if (!full) { vs_check(is_error(p.got), "reply is neither complete nor an error"); vs_cover("refused"); } else vs_cover("complete"); vs_check(e.n > 400 || full, "reply within the limit is refused");
    if (alive && p.reading()) { p.got.n = 0; p.deliver("delete k\r\n", 10); p.settle(); Bytes d; d.lit("DELETED\r\n"); vs_check(same_bytes(p.got, d), "next request after a too long reply"); } usable(c, ios); vs_cover("end");
}
static void configured() { // accepted connections obey the configured limits, each for its direction.  params: 1 limit of the receive buffer, 2 limit of the send buffer, 3 length of the value
    Cache c = new_cache(); net::io_service ios; settings.net.max_rcv_buffer_size = (size_t)vs_param(1); settings.net.max_snd_buffer_size = (size_t)vs_param(2); unsigned vn = (unsigned)vs_param(3), rmax = (unsigned)vs_param(1), smax = (unsigned)vs_param(2); memcached::TcpServer s(c, ios); s.start(net::tcp::endpoint());
    boost::asio::io_state* st = boost::asio::last_io(); vs_check(st && st->accepting, "server does not accept"); if (!st) return; { auto h = st->ah; st->accepting = false; st->ah = nullptr; h(boost::system::error_code()); }
    auto input = [&](const char* p, unsigned n) { if (n > st->rbuf.n) n = (unsigned)st->rbuf.n; memcpy(st->rbuf.p, p, n); auto h = st->rh; st->reading = false; st->rh = nullptr; h(boost::system::error_code(), n); return n; };
    Wire w(12000); w.put("set k 1 0 "); w.num(vn); w.put("\r\n"); unsigned d = w.in_n; for (unsigned i = 0; i < vn; ++i) w.in[w.in_n++] = (char)('a' + i % 26); vs_make_symbolic(w.in + d, 1, "data"); w.put("\r\n");
    unsigned at = 0; while (at < w.in_n && at <= rmax && st->reading && !st->writing) { vs_check(st->rbuf.n <= rmax, "receive buffer beyond its limit"); bool over = at + st->rbuf.n >= rmax && w.in_n > rmax; unsigned m = w.in_n - at; at += input(w.in + at, m); if (over) break; } // beyond the limit the connection may be gone
    if (w.in_n > rmax) { vs_check(look(c, "k", 1) == nullptr, "request beyond the limit is executed"); vs_cover("refused"); vs_cover("end"); return; }
    bool stored = st->writing && st->wbuf.n == 8 && eq_bytes((const char*)st->wbuf.p, "STORED\r\n", 8); if (w.in_n <= rmax / 2) vs_check(stored, "request within the limits is refused"); if (!stored) { vs_cover("end"); return; }
    { auto h = st->wh; st->writing = false; st->wh = nullptr; h(boost::system::error_code(), 8); } vs_check(st->reading, "connection does not go on");
    unsigned reply = 12 + 4 + 2 + vn + 7; 
    input("get k\r\n", 7); if (reply <= smax / 2) { vs_check(st->writing && st->wbuf.n > vn && eq_bytes((const char*)st->wbuf.p, "VALUE k 1 ", 10), "reply within the limits is refused"); vs_cover("complete"); } else if (st->writing) vs_check(st->wbuf.n <= smax, "reply beyond the limit");
    vs_cover("end");
}
void vs_main() { switch (vs_param(0)) { case 0: fails(); break; case 1: pair(); break; case 2: too_long(); break; case 3: accepting(); break; case 4: long_reply(); break; case 5: configured(); break; } }
