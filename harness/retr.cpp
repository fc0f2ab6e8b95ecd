// Retrieval and compare-and-swap over the wire.  params: 0 mode, 1 value length, 2 key length (mode 2: 2 and 3 range of the flags)
#include "wire.h"
static bool valid_key_char(unsigned char x) { return x > 32 && x != 127; }
static void text_key(char* k, unsigned n) { if (n <= 4) { vs_make_symbolic(k, n, "key"); for (unsigned i = 0; i < n; ++i) vs_assume(valid_key_char((unsigned char)k[i])); } else { for (unsigned i = 0; i < n; ++i) k[i] = (char)('!' + i % 90); vs_make_symbolic(k + n - 1, 1, "key"); vs_assume(valid_key_char((unsigned char)k[n - 1])); } }
static unsigned rd(const Bytes& b, unsigned at, uint64_t& v) { v = 0; unsigned i = at; while (i < b.n && b.b[i] >= '0' && b.b[i] <= '9') { v = v * 10 + (uint64_t)(b.b[i] - '0'); ++i; } return i; }
static void roundtrip(bool cutting) { // set over one connection, get over another
    Cache c = new_cache(); net::io_service ios; Peer p(c, ios, 65536, 65536), q(c, ios, 65536, 65536); unsigned vn = (unsigned)vs_param(1), kn = (unsigned)vs_param(2);
    char key[256]; text_key(key, kn); char fl = (char)vs_u8("flag"); vs_assume(fl >= '0' && fl <= '9'); Val v; sym_val(v, vn, "value");
    Wire w(2000); w.put("set "); for (unsigned i = 0; i < kn; ++i) w.in[w.in_n++] = key[i]; w.put(" "); w.in[w.in_n++] = fl; w.put(" 0 "); w.num(vn); w.put("\r\n"); for (unsigned i = 0; i < vn; ++i) w.in[w.in_n++] = v.b[i]; w.put("\r\n");
    bool ok; if (cutting) { unsigned x = vs_choose(w.in_n, "cut"); ok = p.deliver(w.in, x) && p.deliver(w.in + x, w.in_n - x); } else ok = p.deliver(w.in, w.in_n);
    p.settle(); Bytes e; e.lit("STORED\r\n"); vs_check(ok && same_bytes(p.got, e), "valid set is not stored");
    Wire g(700); g.put("get "); for (unsigned i = 0; i < kn; ++i) g.in[g.in_n++] = key[i]; g.put("\r\n"); q.deliver(g.in, g.in_n); q.settle();
    Bytes x; x.lit("VALUE "); x.add(key, kn); x.lit(" "); x.add(&fl, 1); x.lit(" "); x.num(vn); x.lit("\r\n"); x.add(v.b, vn); x.lit("\r\nEND\r\n"); vs_check(same_bytes(q.got, x), "get does not return what was set"); vs_cover("end");
}
static void flagsx() { // any flags, length and token are printed exactly
    Cache c = new_cache(); net::io_service ios; Peer q(c, ios, 65536, 65536); uint16_t f = (uint16_t)vs_u16("flags"); if (vs_param(3)) vs_assume(f >= vs_param(2) && f <= vs_param(3)); slice k("key", 3); unsigned vn = (unsigned)vs_param(1);
    ItemPtr i = c.create_item(k, key_hash(k), vn, f, seconds(0)); Val v; v.n = vn; for (unsigned j = 0; j < vn && j < MAXV; ++j) v.b[j] = 'z'; i->assign_value(slice(v.b, vn)); c.do_set(i);
    q.deliver("gets key\r\n", 10); q.settle(); const Bytes& b = q.got; vs_check(starts(b, 0, "VALUE key "), "wrong response"); uint64_t x; unsigned at = 10, e = rd(b, at, x); vs_check(x == f && e > at && (b.b[at] != '0' || e == at + 1), "flags are printed wrong"); vs_check(b.b[e] == ' ', "wrong response"); at = e + 1; e = rd(b, at, x); vs_check(x == vn && (b.b[at] != '0' || e == at + 1), "length is printed wrong"); vs_check(b.b[e] == ' ', "no token"); at = e + 1; e = rd(b, at, x); vs_check(e > at && x == look(c, "key", 3)->timestamp(), "token is printed wrong"); vs_check(starts(b, e, "\r\n") && b.n == e + 2 + vn + 7 && starts(b, e + 2 + vn, "\r\nEND\r\n"), "wrong response"); vs_cover("end");
}
static void casx() { // gets, possibly another client's write, cas with the token
    Cache c = new_cache(); net::io_service ios; Peer p(c, ios, 65536, 65536), o(c, ios, 65536, 65536); Wire w(400); char d[1];
    unsigned warm = vs_choose(3, "warm"); for (unsigned i = 0; i < warm * 5; ++i) p.deliver("set k 0 0 1\r\nx\r\n", 16); p.deliver("set k 0 0 1\r\n", 13); vs_make_symbolic(d, 1, "data"); p.deliver(d, 1); p.deliver("\r\n", 2); p.settle(); p.got.n = 0;
    p.deliver("gets k\r\n", 8); p.settle(); uint64_t tok; unsigned e = rd(p.got, 12, tok); vs_check(starts(p.got, 0, "VALUE k 0 1 ") && e > 12, "wrong response"); char token[24]; unsigned tn = e - 12; memcpy(token, p.got.b + 12, tn); p.got.n = 0;
    static const char* other[] = {"", "set k 0 0 1\r\ny\r\n", "get k\r\n", "delete k\r\n", "touch k 50\r\n", "append k 0 0 1\r\nz\r\n", "set j 0 0 1\r\ny\r\n", "replace k 0 0 1\r\n7\r\n", "add k 0 0 1\r\ny\r\n", "incr k 1\r\n"}; unsigned act = vs_choose(9, "other"); bool changed = act == 1 || act == 5 || act == 7, gone = act == 3;
    if (act) { o.deliver(other[act], (unsigned)strlen(other[act])); o.settle(); } bool again = vs_choose(2, "other_token");
    if (again) { char x; vs_make_symbolic(&x, 1, "digit"); vs_assume(x >= '0' && x <= '9' && x != token[tn - 1]); token[tn - 1] = x; }
    w.put("cas k 9 0 2 "); for (unsigned i = 0; i < tn; ++i) w.in[w.in_n++] = token[i]; w.put("\r\nAB\r\n"); uint64_t cur = look(c, "k", 1) ? look(c, "k", 1)->timestamp() : 0, mine = 0; for (unsigned i = 0; i < tn; ++i) mine = mine * 10 + (uint64_t)(token[i] - '0');
    p.deliver(w.in, w.in_n); p.settle(); const char* want;
    if (gone) want = "NOT_FOUND\r\n"; else if (!again) want = changed ? "EXISTS\r\n" : "STORED\r\n"; else if (mine == cur) want = "STORED\r\n"; else want = "EXISTS\r\n";
    if (again && !gone && mine == cur) vs_assume(changed);
    Bytes x; x.lit(want); vs_check(same_bytes(p.got, x), "compare-and-swap with the token of gets"); bool st = want[0] == 'S'; ConstItemPtr i = look(c, "k", 1); if (st) vs_check(i && i->value().length() == 2 && eq_bytes(i->value().begin(), "AB", 2) && i->opaque_flags() == 9 && i->timestamp() != mine, "compare-and-swap did not store"); else if (i) vs_check(i->value().length() != 2 || !eq_bytes(i->value().begin(), "AB", 2), "failed compare-and-swap stored"); vs_cover("end");
}
static void multi() { // any list of keys: one VALUE per hit, in request order
    Cache c = new_cache(); net::io_service ios; Peer p(c, ios, 65536, 65536); Val va, vb; sym_val(va, 2, "va"); sym_val(vb, 1, "vb"); RefItem a, b; a.present = b.present = true; a.v = va; b.v = vb; a.flags = 1; b.flags = 22;
    { slice k("a", 1); ItemPtr i = c.create_item(k, key_hash(k), 2, 1, seconds(0)); i->assign_value(slice(va.b, 2)); c.do_set(i); } { slice k("bb", 2); ItemPtr i = c.create_item(k, key_hash(k), 1, 22, seconds(0)); i->assign_value(slice(vb.b, 1)); c.do_set(i); }
    Wire w(400); unsigned nk = 1 + vs_choose(4, "keys"); w.put("get"); for (unsigned i = 0; i < nk; ++i) { unsigned x = vs_choose(4, "which"); static const char* nm[] = {" a", " bb", " b", " aa"}; w.put(nm[x]); if (x == 0) w.value("a", a); if (x == 1) w.value("bb", b); } w.put("\r\n"); w.out.lit("END\r\n");
    p.deliver(w.in, w.in_n); p.settle(); vs_check(same_bytes(p.got, w.out), "get of several keys"); vs_cover("end");
}
static void big() { // a value bigger than the initial buffers
    Cache c = new_cache(); net::io_service ios; Peer p(c, ios, 65536, 65536), q(c, ios, 65536, 65536); static const unsigned L[] = {480, 500, 1000, 2030, 2048, 4096, 5000}; unsigned vn = L[vs_choose(7, "len")], piece = vs_choose(2, "piece") ? 700 : 100000; Wire w(8000); w.put("set big 3 0 "); w.num(vn); w.put("\r\n"); unsigned d = w.in_n; for (unsigned i = 0; i < vn; ++i) w.in[w.in_n++] = (char)(i * 13 + i / 256); vs_make_symbolic(w.in + d, 2, "head"); vs_make_symbolic(w.in + d + vn - 2, 2, "tail"); vs_make_symbolic(w.in + d + 250, 2, "middle"); w.put("\r\n");
    bool ok = true; for (unsigned i = 0; i < w.in_n && ok; i += piece) ok = p.deliver(w.in + i, w.in_n - i < piece ? w.in_n - i : piece); p.settle(); Bytes e; e.lit("STORED\r\n"); vs_check(ok && same_bytes(p.got, e), "valid set is not stored");
    q.deliver("get big\r\n", 9); q.settle(); e.n = 0; e.lit("VALUE big 3 "); e.num(vn); e.lit("\r\n"); e.add(w.in + d, vn + 2); e.lit("END\r\n"); vs_check(same_bytes(q.got, e), "get does not return what was set"); vs_cover("end");
}
static void huge() { // lengths beyond 16 bits.  params: 1 length, 2 piece size (0 whole)
    vs_clock_s = 100; settings.cache.page_size = 1 << 17; Cache c = Cache::Create(1 << 19, 1 << 17, 4, true); net::io_service ios; Peer p(c, ios, 1 << 18, 1 << 18), q(c, ios, 1 << 18, 1 << 18); unsigned vn = (unsigned)vs_param(1), piece = vs_param(2) ? (unsigned)vs_param(2) : 1u << 20; Wire w(150000); w.put("set big 3 0 "); w.num(vn); w.put("\r\n"); unsigned d = w.in_n; for (unsigned i = 0; i < vn; ++i) w.in[w.in_n++] = (char)(i * 13 + i / 256); vs_make_symbolic(w.in + d, 2, "head"); vs_make_symbolic(w.in + d + vn - 2, 2, "tail"); vs_make_symbolic(w.in + d + 65534, 2, "middle"); w.put("\r\n");
    bool ok = true; for (unsigned i = 0; i < w.in_n && ok; i += piece) ok = p.deliver(w.in + i, w.in_n - i < piece ? w.in_n - i : piece); p.settle(); Bytes e; e.lit("STORED\r\n"); vs_check(ok && same_bytes(p.got, e), "valid set is not stored");
    unsigned got = q.receive("get big\r\n", 9); vs_check(got == 9 && q.writing(), "get is not answered"); e.n = 0; e.lit("VALUE big 3 "); e.num(vn); e.lit("\r\n"); vs_check(q.sent_n == e.n + vn + 2 + 5, "length of the response to get"); vs_check(eq_bytes(q.sent, e.b, e.n) && eq_bytes(q.sent + e.n, w.in + d, vn + 2) && eq_bytes(q.sent + e.n + vn + 2, "END\r\n", 5), "get does not return what was set"); vs_cover("end");
}
void vs_main() { switch (vs_param(0)) { case 0: roundtrip(false); break; case 1: roundtrip(true); break; case 2: flagsx(); break; case 3: casx(); break; case 4: multi(); break; case 5: big(); break; case 6: huge(); break; } }
