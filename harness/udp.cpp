// UDP frames.  params: 0 mode (0 any header, 1 short datagrams, 2 two datagrams, 3 errors of the socket, 4 big datagrams, 5 a datagram arrives while a reply is being sent), 1 request kind, 2 second request kind
#include "wire.h"
struct Udp : memcached::UdpServer { explicit Udp(Cache& c, net::io_service& s) : memcached::UdpServer(c, s) {} };
struct Net { Cache c; net::io_service ios; memcached::UdpServer* s; boost::asio::io_state* st; char sent[4096]; unsigned sent_n = 0; unsigned replies = 0;
    Net() : c(new_cache()) { s = new memcached::UdpServer(c, ios); st = boost::asio::last_io(); s->start(net::udp::endpoint()); }
    bool listening() { return st->reading && !st->writing; }
    void datagram(const char* p, unsigned n, int from) { vs_check(st->reading, "server does not listen"); vs_check(st->rbuf.n >= n, "datagram does not fit the receive buffer"); memcpy(st->rbuf.p, p, n); if (st->fromp) *st->fromp = from; auto h = st->rh; st->reading = false; h(boost::system::error_code(), n); vs_check(st->violations == 0, "two operations under way"); }
    // the reply under way, if any, completes with error e
    bool reply(boost::system::error_code e = boost::system::error_code()) { if (!st->writing) return false; vs_check(!st->reading || true, ""); sent_n = (unsigned)st->wbuf.n; vs_check(sent_n <= 4096, "reply too long"); memcpy(sent, st->wbuf.p, sent_n); ++replies; auto h = st->wh; st->writing = false; h(e, e ? 0 : sent_n); return true; }
};
static unsigned frame(char* d, const char* hdr, const char* req, unsigned n) { memcpy(d, hdr, 8); memcpy(d + 8, req, n); return 8 + n; }
static void expect(Net& n, const char* hdr, const Bytes& out, int from) {
    int to = n.st->to; bool r = n.reply();
    if (out.n == 0) { vs_check(!r, "request without response is answered"); vs_cover("silent"); }
    else { vs_check(r, "request is not answered"); if (r) { vs_check(to == from, "reply goes to somebody else"); vs_check(n.sent_n == 8 + out.n, "length of the reply"); if (n.sent_n == 8 + out.n) { vs_check(eq_bytes(n.sent, hdr, 8), "frame header of the reply"); vs_check(eq_bytes(n.sent + 8, out.b, out.n), "reply"); } vs_cover("reply"); } }
    vs_check(n.listening(), "server does not listen for the next datagram");
}
static const char OKH[8] = {1, 2, 0, 0, 0, 1, 0, 0};
static void header() {
    Net n; Wire w(400); char h[8]; vs_make_symbolic(h, 8, "header"); unsigned k = (unsigned)vs_param(1); if (k == 100) k = vs_choose(NREQ, "request") + 1; w.req(k - 1); bool closed = w.closed;
    bool fine = (h[2] == 0) & (h[3] == 0) & (h[4] == 0) & ((unsigned char)h[5] <= 1) & (h[6] == 0) & (h[7] == 0); char d[512]; int from = 3 + (int)vs_choose(2, "from");
    unsigned m = frame(d, h, w.in, w.in_n); n.datagram(d, m, from);
    if (fine) { if (!closed) { expect(n, h, w.out, from); w.same_state(n.c); } else vs_check(!n.reply() && n.listening(), "quit stops the UDP server"); vs_cover("accepted"); }
    else { vs_check(!n.reply(), "unsupported frame is answered"); vs_check(n.listening(), "server does not listen for the next datagram"); Wire v(10); v.same_state(n.c); vs_cover("refused"); }
    Wire g(100); g.put("get n\r\n"); unsigned z = frame(d, OKH, g.in, g.in_n); n.datagram(d, z, 9); bool r = n.reply(); vs_check(r && n.sent_n >= 13 && eq_bytes(n.sent, OKH, 8) && eq_bytes(n.sent + n.sent_n - 5, "END\r\n", 5), "next datagram is not answered properly"); vs_cover("end");
}
static void shortd() { // cut anywhere: nothing is answered or executed, the next one is not affected
    Net n; Wire w(400); unsigned k = (unsigned)vs_param(1); if (k == 100) k = vs_choose(NREQ, "request") + 1; w.req(k - 1); char d[512]; unsigned m = frame(d, OKH, w.in, w.in_n); unsigned x = vs_choose(m, "length"); char b[3]; vs_make_symbolic(b, 3, "head"); d[0] = b[0]; d[1] = b[1];
    n.datagram(d, x, 3); vs_check(!n.reply(), "truncated datagram is answered"); vs_check(n.listening(), "server does not listen for the next datagram"); { Wire v(10); v.same_state(n.c); }
    Wire v(400); v.req(0); v.req(2); Wire v1(400); v1.req(0); Bytes e; e.lit("STORED\r\n"); unsigned z = frame(d, OKH, v1.in, v1.in_n); n.datagram(d, z, 4); expect(n, OKH, e, 4); v1.same_state(n.c); vs_cover("end");
}
static void two() {
    Net n; Wire w(600); char d[512]; int k2 = (int)vs_param(2); unsigned a = (unsigned)vs_param(1), b = k2 == 100 ? vs_choose(NREQ, "second") + 1 : (unsigned)k2; if (a == 16 || b == 16) return; char id[2]; vs_make_symbolic(id, 2, "id"); char h[8]; memcpy(h, OKH, 8); h[0] = id[0]; h[1] = id[1];
    w.req(a - 1); unsigned m = frame(d, h, w.in, w.in_n); n.datagram(d, m, 3); expect(n, h, w.out, 3); w.out.n = 0; unsigned at = w.in_n; w.req(b - 1); h[1] = (char)(h[1] + 1); m = frame(d, h, w.in + at, w.in_n - at); n.datagram(d, m, 4); expect(n, h, w.out, 4); w.same_state(n.c); vs_cover("end");
}
static void errors() {
    Net n; char d[512]; Wire w(400); w.req(0); unsigned kind = vs_choose(4, "error"); unsigned m = frame(d, OKH, w.in, w.in_n);
    if (kind == 0) { n.datagram(d, m, 3); boost::system::error_code e(vs_choose(2, "code") ? EMSGSIZE : ECONNREFUSED, boost::system::system_category()); vs_check(n.reply(e), "request is not answered"); vs_check(n.listening(), "failed send stops the UDP server"); }
    else if (kind == 1 || kind == 2) { auto h = n.st->rh; n.st->reading = false; unsigned got = kind == 2 ? 5 : 0; memcpy(n.st->rbuf.p, d, got); h(boost::system::error_code(ECONNREFUSED, boost::system::system_category()), got); vs_check(n.listening(), "failed receive stops the UDP server"); }
    else { auto h = n.st->rh; n.st->reading = false; h(boost::asio::error::operation_aborted, 0); vs_check(!n.st->reading && !n.st->writing, "server goes on after it was closed"); vs_cover("closed"); return; }
    Wire v(400); v.req(1); v.req(3); char e[512]; Wire s(100); s.req(kind == 0 ? 2 : 18); m = frame(e, OKH, s.in, s.in_n); if (kind == 0) { s.a = w.a; Bytes x; s.out.n = 0; s.req(2); } n.datagram(e, m, 5); expect(n, OKH, s.out, 5); vs_cover("end");
}
static void bigd() {
    Net n; static const unsigned L[] = {100, 450, 470, 490, 500, 520, 1000, 1390, 2048, 4096, 9000, 16000}; unsigned vn = L[vs_choose(12, "len")]; char* d = new char[20000]; Wire w(20000); w.put("set big 3 0 "); w.num(vn); w.put("\r\n"); unsigned o = w.in_n; for (unsigned i = 0; i < vn; ++i) w.in[w.in_n++] = (char)(i * 11 + i / 256); vs_make_symbolic(w.in + o, 2, "head"); vs_make_symbolic(w.in + o + vn - 2, 2, "tail"); w.put("\r\n");
    unsigned m = frame(d, OKH, w.in, w.in_n); n.datagram(d, m, 3); Bytes e; e.lit("STORED\r\n"); expect(n, OKH, e, 3); ConstItemPtr i = look(n.c, "big", 3); vs_check(i && i->value().length() == vn && eq_bytes(i->value().begin(), w.in + o, vn), "value stored by a big datagram"); vs_cover("end");
}
static void overlap() { // if the server listens while it sends, the reply under way must not change
    Net n; Wire w(600); char d[512], h[8]; memcpy(h, OKH, 8); vs_make_symbolic(h, 2, "id"); w.req(0); unsigned m = frame(d, h, w.in, w.in_n); n.datagram(d, m, 3);
    if (n.st->writing && n.st->reading) { unsigned k = (unsigned)vs_choose(NREQ, "second"); Wire v(400); v.req(k); char snap[600]; unsigned sn = (unsigned)n.st->wbuf.n; const void* p = n.st->wbuf.p; vs_check(sn <= 600, "reply too long"); memcpy(snap, p, sn); char h2[8]; memcpy(h2, OKH, 8); h2[0] = (char)(h[0] + 1); m = frame(d, h2, v.in, v.in_n); n.datagram(d, m, 4); vs_check(eq_bytes((const char*)p, snap, sn), "reply was changed while it was being sent"); vs_cover("overlap"); }
    else { vs_check(n.st->writing, "request is not answered"); vs_cover("sequential"); } vs_cover("end");
}
void vs_main() { switch (vs_param(0)) { case 0: header(); break; case 1: shortd(); break; case 2: two(); break; case 3: errors(); break; case 4: bigd(); break; case 5: overlap(); break; } }
