// A stream of well-formed requests together with the response the protocol prescribes for it (independent interpreter).
#pragma once
#include "srv.h"
#include <server/memcached/conversation.h>
#include <vector>
static const unsigned NREQ = 24;
struct Wire { // the model of the cache: keys a, b and the counter n
    RefItem a, b; uint64_t n = 5; bool nthere = true; char* in; unsigned in_n = 0, cap; Bytes out; bool closed = false; unsigned start[8], nstart = 0;
    explicit Wire(unsigned c) : in(new char[c]), cap(c) {}
    void put(const char* s) { while (*s) in[in_n++] = *s++; }
    void num(unsigned v) { char t[12]; unsigned k = 0; do { t[k++] = (char)('0' + v % 10); v /= 10; } while (v); while (k) in[in_n++] = t[--k]; }
    void block(Val& v, unsigned len) { v.n = len; vs_make_symbolic(v.b, len, "data"); for (unsigned i = 0; i < len; ++i) in[in_n++] = v.b[i]; put("\r\n"); }
    void value(const char* k, const RefItem& r) { if (!r.present) return; out.lit("VALUE "); out.lit(k); out.lit(" "); out.num(r.flags); out.lit(" "); out.num(r.v.n); out.lit("\r\n"); out.add(r.v.b, r.v.n); out.lit("\r\n"); }
    void store(RefItem& r, const Val& v, unsigned fl) { r.present = true; r.v = v; r.flags = (uint16_t)fl; }
    void join(RefItem& r, const Val& v, bool after) { Val x; x.n = r.v.n + v.n; memcpy(x.b, after ? r.v.b : v.b, after ? r.v.n : v.n); memcpy(x.b + (after ? r.v.n : v.n), after ? v.b : r.v.b, after ? v.n : r.v.n); r.v = x; }
    unsigned digit(const char* nm) { char x; vs_make_symbolic(&x, 1, nm); vs_assume(x >= '0' && x <= '9'); in[in_n++] = x; return (unsigned)(x - '0'); }
    void req(unsigned kind) {
        unsigned fl;
        if (nstart < 8) start[nstart++] = in_n; if (closed) { RefItem sa = a, sb = b; uint64_t sn = n; bool st = nthere; unsigned so = out.n; closed = false; req(kind); a = sa; b = sb; n = sn; nthere = st; out.n = so; closed = true; return; } Val v;
        switch (kind) {
        case 0: put("set a "); fl = digit("flags"); put(" 0 2\r\n"); block(v, 2); store(a, v, fl); out.lit("STORED\r\n"); break;
        case 1: put("set b 2"); fl = 20 + digit("flags"); put(" 0 3 noreply\r\n"); block(v, 3); store(b, v, fl); break;
        case 2: put("get a\r\n"); value("a", a); out.lit("END\r\n"); break;
        case 3: put("get b a\r\n"); value("b", b); value("a", a); out.lit("END\r\n"); break;
        case 4: put("delete a\r\n"); out.lit(a.present ? "DELETED\r\n" : "NOT_FOUND\r\n"); a.present = false; break;
        case 5: put("add a "); fl = digit("flags"); put(" 0 1\r\n"); block(v, 1); if (a.present) out.lit("NOT_STORED\r\n"); else { out.lit("STORED\r\n"); store(a, v, fl); } break;
        case 6: put("append a 9 0 1 noreply\r\n"); block(v, 1); if (a.present) join(a, v, true); break;
        case 7: put("incr n "); fl = digit("delta"); put("\r\n"); if (nthere) { n += fl; out.num(n); out.lit("\r\n"); } else out.lit("NOT_FOUND\r\n"); break;
        case 8: put("decr n "); fl = digit("delta"); put(" noreply\r\n"); if (nthere) n = n > fl ? n - fl : 0; break;
        case 9: put("touch b 100\r\n"); out.lit(b.present ? "TOUCHED\r\n" : "NOT_FOUND\r\n"); break;
        case 10: put("set a 65535 0 0\r\n"); block(v, 0); store(a, v, 65535); out.lit("STORED\r\n"); break;
        case 11: put("replace b 4 0 2\r\n"); block(v, 2); if (b.present) { store(b, v, 4); out.lit("STORED\r\n"); } else out.lit("NOT_STORED\r\n"); break;
        case 12: put("prepend a 0 0 2\r\n"); block(v, 2); if (a.present) { join(a, v, false); out.lit("STORED\r\n"); } else out.lit("NOT_STORED\r\n"); break;
        case 13: put("flush_all\r\n"); out.lit("OK\r\n"); break;
        case 14: put("delete b noreply\r\n"); b.present = false; break;
        case 15: put("quit\r\n"); closed = true; break;
        case 16: put("touch a 0 noreply\r\n"); break;
        case 17: put("flush_all noreply\r\n"); break;
        case 18: put("cas a 1 0 1 18446744073709551615\r\n"); block(v, 1); out.lit(a.present ? "EXISTS\r\n" : "NOT_FOUND\r\n"); break;
        case 19: put("get nosuchkey\r\n"); out.lit("END\r\n"); break;
        case 20: put("delete n\r\n"); out.lit(nthere ? "DELETED\r\n" : "NOT_FOUND\r\n"); nthere = false; break;
        case 21: put("get n\r\n"); if (nthere) { Bytes t; t.num(n); out.lit("VALUE n 6 "); out.num(t.n); out.lit("\r\n"); out.add(t.b, t.n); out.lit("\r\n"); } out.lit("END\r\n"); break;
        case 22: put("add b 5 0 1 noreply\r\n"); block(v, 1); if (!b.present) store(b, v, 5); break;
        case 23: put("cas b 1 0 1 7 noreply\r\n"); block(v, 1); break;
        case 24: put("x\r\n"); out.lit("ERROR\r\n"); break; // only as the last request: what is received with a malformed line is dropped
        case 25: put("get"); for (unsigned i = 0; i < 20; ++i) { in[in_n++] = ' '; for (unsigned j = 0; j < 250; ++j) in[in_n++] = (char)('a' + (i + j) % 26); } put(" a\r\n"); value("a", a); out.lit("END\r\n"); break; // a long line
        }
    }
    void same_state(Cache& c) {
        static const char* nm[] = {"a", "b"}; for (unsigned i = 0; i < 2; ++i) { ConstItemPtr p = look(c, nm[i], 1); RefItem& r = i ? b : a; vs_check((p != nullptr) == r.present, "presence of a key after the requests"); if (p) vs_check(eq_val(p->value(), r.v) && p->opaque_flags() == r.flags, "item after the requests"); }
        ConstItemPtr p = look(c, "n", 1); vs_check((p != nullptr) == nthere, "presence of the counter after the requests"); if (p) { Bytes t; t.num(n); vs_check(p->value().length() == t.n && eq_bytes(p->value().begin(), t.b, t.n), "counter after the requests"); }
    }
};
static inline Cache new_cache() { vs_clock_s = 100; settings.cache.page_size = 1 << 14; Cache c = Cache::Create(1 << 16, 1 << 14, 4, true); ItemPtr i = c.create_item(slice("n", 1), key_hash(slice("n", 1)), 1, 6, seconds(0)); i->assign_value(slice("5", 1)); c.do_set(i); return c; }
typedef memcached::StreamSocketConversation<net::tcp::socket> Conv;
struct Peer { // drives one connection
    std::shared_ptr<Conv> conv; boost::asio::io_state* st; Bytes got; char* sent; unsigned sent_n = 0; bool was_writing = false;
    std::weak_ptr<Conv> watch;
    Peer(Cache& c, net::io_service& ios, unsigned rmax, unsigned smax) : sent(new char[140000]) { conv = std::shared_ptr<Conv>(new Conv(c, ios, rmax, smax)); st = &conv->socket().st; watch = conv; conv->start(); note(); }
    void note() { if (st->writing && !was_writing) { was_writing = true; sent_n = (unsigned)st->wbuf.n; vs_check(sent_n > 0, "empty reply is sent"); if (sent_n <= 140000) memcpy(sent, st->wbuf.p, sent_n); } vs_check(st->violations == 0, "two operations of a kind under way on a connection"); }
    bool reading() const { return st->reading; } bool writing() const { return st->writing; }
    unsigned receive(const char* p, unsigned n) { unsigned m = n; if (m > st->rbuf.n) m = (unsigned)st->rbuf.n; vs_check(st->rbuf.n > 0, "read into nothing"); memcpy(st->rbuf.p, p, m); auto h = st->rh; st->reading = false; st->rh = nullptr; h(boost::system::error_code(), m); note(); return m; }
    void send_done() { vs_check(st->wbuf.n == sent_n && eq_bytes((const char*)st->wbuf.p, sent, sent_n), "reply was changed while it was being sent"); got.add(sent, sent_n); auto h = st->wh; st->writing = false; st->wh = nullptr; was_writing = false; h(boost::system::error_code(), sent_n); note(); }
    void read_fails(boost::system::error_code e, unsigned n = 0) { auto h = st->rh; st->reading = false; st->rh = nullptr; h(e, n); }
    void write_fails(boost::system::error_code e, unsigned n) { auto h = st->wh; st->writing = false; st->wh = nullptr; was_writing = false; h(e, n); }
    // deliver n bytes, completing sends as they come; false when the connection stops reading
    bool deliver(const char* p, unsigned n) { unsigned at = 0; for (unsigned g = 0; g < 4 * n + 16; ++g) { if (writing()) { send_done(); continue; } if (at == n) return true; if (!reading()) return false; at += receive(p + at, n - at); } vs_fail("the connection makes no progress"); return false; }
    void settle() { for (unsigned g = 0; g < 64 && writing(); ++g) send_done(); }
};
