// One request line (with data block) against an independent reading of the protocol.
// params: 0 template (1000 + n: the n-th full line with one byte, at any position, symbolic), 1 "k" stored before (0 no, 1 "5", 2 text, 3 long number), 2 maximal number of data bytes offered
#include "srv.h"
static const char* T[] = { // # any byte but CR, @ digit, ~ key of 250 bytes, ! key of 251 bytes; the line ends before \r\n.  % in the data: any byte
    /* 0*/ "####", "###", "#####", "get ####", "gets k##",
    /* 5*/ "get k #", "delete ##", "delete k ##", "delete k noreply", "delete k #oreply",
    /*10*/ "delete k noreply#", "incr k ##", "decr k ##", "incr # 1", "incr k 1 noreply",
    /*15*/ "decr k 1 ###", "touch k ##", "touch # 9", "touch k 9 noreply", "touch k 42949672##",
    /*20*/ "incr k 1844674407370955161#", "version", "version#", "flush_all", "flush_all noreply",
    /*25*/ "flush_all ##", "quit", "qui#", "stats#", "#lush_all",
    /*30*/ "set k 1 2 #", "set k # 2 2", "set k 1 # 2", "set # 1 2 2", "set k 1 2 2 noreply",
    /*35*/ "set k 6553# 2 2", "set k 1 42949672## 2", "add k 1 2 #", "replace k 1 2 #", "append k 1 2 #",
    /*40*/ "prepend k 1 2 #", "cas k 1 2 2 #", "cas k 1 2 2", "cas k 1 2 2 # noreply", "add k 1 2 2 noreply",
    /*45*/ "replace k 1 2 2 noreply", "append k 1 2 2 noreply", "prepend k 1 2 2 noreply", "set k 1 2 ##", "set k 1 2 2 ###",
    /*50*/ "set k 1 2", "set k", "get", "get kk k", "gets k k",
    /*55*/ "set ## 1 2 2", "se# k 1 2 2", "#dd k 1 2 2", "re#lace k 1 2 2", "ca# k 1 2 2 1",
    /*60*/ "incr k", "incr", "touch k", "delete", "decr k 2 noreply",
    /*65*/ "set k 1 2 3 #", "cas k 1 2 2 1844674407370955161#", "set k 1 -1 2", "incr k -#", "append # 1 2 2",
    /*70*/ "incr k #", "decr k #", "get k ###", "gets ## k", "version #",
    /*75*/ "version noreply", "stats #", "get ~", "get !", "get k !",
    /*80*/ "get ~ k", "delete !", "incr ! 1", "touch ! 1", "set ! 1 2 2",
    /*85*/ "add ~ 1 2 2", "gets ! noreply", "delete ~ noreply", "decr ~ ## ", "get k  k" , "get k  " };
static const char* F[] = { "get k o", "gets k", "set k 1 2 2", "add k 1 2 2 noreply", "replace k 1 2 2", "append k 1 2 2", "prepend k 1 2 2 noreply", "cas k 1 2 2 7",
    "delete k", "delete k noreply", "incr k 10", "decr k 3 noreply", "touch k 60", "touch k 60 noreply", "version", "stats", "quit", "flush_all", "flush_all noreply" };
static bool tokdigits(const char* p, unsigned n) { bool ok = n > 0; for (unsigned i = 0; i < n; ++i) ok = ok & (p[i] >= '0') & (p[i] <= '9'); return ok; }
static bool toknum(const char* p, unsigned n, uint64_t mx, uint64_t& v) { // decimal number not above mx
    if (!tokdigits(p, n) || n > 20) return false; v = 0; bool over = false;
    for (unsigned i = 0; i < n; ++i) { uint64_t d = (uint64_t)(p[i] - '0'); if (i == 19) over = (v > 1844674407370955161ull) | ((v == 1844674407370955161ull) & (d > 5)); v = v * 10 + d; }
    return !over && v <= mx;
}
struct Tok { const char* p; unsigned n; };
static bool is(const Tok& t, const char* s) { unsigned m = (unsigned)strlen(s); return t.n == m && eq_bytes(t.p, s, m); }
void vs_main() {
    vs_clock_s = 100; Cache c = Cache::Create(1 << 16, 1 << 14, 4, true); settings.cache.page_size = 1 << 14;
    // state before: k and o
    static const char* pre[] = {"", "5", "hi", "18446744073709551615"}; unsigned pv = (unsigned)vs_param(1); RefItem k; uint64_t token0 = 0;
    { ItemPtr i = c.create_item(slice("o", 1), key_hash(slice("o", 1)), 1, 7, seconds(0)); i->assign_value(slice("O", 1)); c.do_set(i); }
    if (pv) { unsigned n = (unsigned)strlen(pre[pv]); ItemPtr i = c.create_item(slice("k", 1), key_hash(slice("k", 1)), n, 3, seconds(50)); i->assign_value(slice(pre[pv], n)); c.do_set(i); k.present = true; k.flags = 3; k.v.n = n; memcpy(k.v.b, pre[pv], n); k.forever = false; k.exp = 150; token0 = i->timestamp(); }
    bool had = k.present;
    // the request
    bool any = vs_param(0) >= 1000; const char* t = any ? F[vs_param(0) - 1000] : T[vs_param(0)]; unsigned tn = (unsigned)strlen(t); static char line[600]; unsigned ln = 0;
    unsigned at = any ? vs_choose(tn, "position") : tn;
    for (unsigned j = 0; j < tn; ++j) {
        if (t[j] == '~' || t[j] == '!') { for (unsigned m = 0; m < (t[j] == '~' ? 250u : 251u); ++m) line[ln++] = (char)('a' + m % 26); continue; }
        unsigned i = ln++; char tc = j == at ? '#' : t[j]; line[i] = tc; if (tc == '#' || tc == '@') { char x; vs_make_symbolic(&x, 1, "byte"); if (tc == '#') vs_assume(x != '\r'); else vs_assume(x >= '0' && x <= '9'); line[i] = x; } }
    vs_assume((unsigned char)line[0] != 0x80);
    static io_buffer r(4096, 8192), s(4096, 65536);
    unsigned dn = 4; char data[4]; vs_make_symbolic(data, 2, "data"); data[2] = '\r'; data[3] = '\n'; // offered after the line
    // an independent reading of the line
    Tok tok[12]; unsigned nt = 0; bool odd = ln == 0; { unsigned b = 0; for (unsigned i = 0; i <= ln; ++i) if (i == ln || line[i] == ' ') { if (i == b) odd = true; if (nt < 12) { tok[nt].p = line + b; tok[nt].n = i - b; ++nt; } b = i + 1; } }
    enum { ANY, ERRS, EXACT, SILENT, MORE, CLOSE, LISTING } want = ERRS; Bytes e; RefItem k2 = k; bool newcas = false; bool otherkey = false, oremoved = false; (void)newcas; RefItem o2; o2.present = true;
    bool storage = false; unsigned used = 0;
    bool longkey = false; for (unsigned i = 1; i < nt; ++i) longkey |= tok[i].n > 250;
    if (odd) want = ANY;
    else if (longkey && !is(tok[0], "quit")) want = ERRS;
    else if (is(tok[0], "get") || is(tok[0], "gets")) {
        if (nt >= 2) { want = EXACT; for (unsigned i = 1; i < nt; ++i) { bool isk = is(tok[i], "k"), iso = !isk && is(tok[i], "o"); if ((isk && k.present) || iso) {
                e.lit("VALUE "); e.add(tok[i].p, tok[i].n); e.lit(" "); e.num(isk ? 3 : 7); e.lit(" "); e.num(isk ? k.v.n : 1); if (tok[0].n == 4) { e.lit(" "); e.num(isk ? token0 : c.do_get(slice("o", 1), key_hash(slice("o", 1)))->timestamp()); } e.lit("\r\n"); if (isk) e.add(k.v.b, k.v.n); else e.lit("O"); e.lit("\r\n"); } } e.lit("END\r\n"); }
    } else if (is(tok[0], "delete")) {
        bool nr = nt == 3 && is(tok[2], "noreply"); if (nt == 2 || nr) { bool isk = is(tok[1], "k"), iso = !isk && is(tok[1], "o"); bool f = (isk && k.present) || iso; if (isk) k2.present = false; if (iso) o2.present = false; want = nr ? SILENT : EXACT; e.lit(f ? "DELETED\r\n" : "NOT_FOUND\r\n"); }
    } else if (is(tok[0], "incr") || is(tok[0], "decr")) {
        bool nr = nt == 4 && is(tok[3], "noreply"); uint64_t d = 0; if ((nt == 3 || nr) && toknum(tok[2].p, tok[2].n, ~0ull, d)) {
            if (is(tok[1], "k") && k.present) { uint64_t v; if (toknum(k.v.b, k.v.n, ~0ull, v)) { uint64_t x; if (tok[0].p[0] == 'i') x = v + d < v ? ~0ull : v + d; else x = v > d ? v - d : 0; Bytes nb; 
                    // the result: its text is read back below
                    want = nr ? SILENT : EXACT; nb.num(x); e.add(nb.b, nb.n); e.lit("\r\n"); k2.v.n = nb.n; memcpy(k2.v.b, nb.b, nb.n); newcas = true; } }
            else if (is(tok[1], "o")) want = ERRS; else { want = nr ? SILENT : EXACT; e.lit("NOT_FOUND\r\n"); } }
    } else if (is(tok[0], "touch")) {
        bool nr = nt == 4 && is(tok[3], "noreply"); uint64_t d = 0; if ((nt == 3 || nr) && toknum(tok[2].p, tok[2].n, 0xffffffffu, d)) { bool isk = is(tok[1], "k"), iso = !isk && is(tok[1], "o"); want = nr ? SILENT : EXACT; e.lit((isk && k.present) || iso ? "TOUCHED\r\n" : "NOT_FOUND\r\n"); if (isk && k.present) { k2.forever = d == 0; k2.exp = 100 + d; } }
    } else if (is(tok[0], "version")) { want = nt == 1 ? LISTING : ERRS; e.lit("VERSION ");
    } else if (is(tok[0], "stats")) { want = nt == 1 ? LISTING : ERRS; e.lit("STAT ");
    } else if (is(tok[0], "quit")) { want = nt == 1 ? CLOSE : ANY;
    } else if (is(tok[0], "flush_all")) { bool nr = nt == 2 && is(tok[1], "noreply"); if (nt == 1 || nr) { want = nr ? SILENT : EXACT; e.lit("OK\r\n"); } 
    } else {
        bool SET = is(tok[0], "set"), ADD = !SET && is(tok[0], "add"), REP = !SET && !ADD && is(tok[0], "replace"), APP = !SET && !ADD && !REP && is(tok[0], "append"), PRE = !SET && !ADD && !REP && !APP && is(tok[0], "prepend"), CAS = !SET && !ADD && !REP && !APP && !PRE && is(tok[0], "cas");
        storage = SET || ADD || REP || APP || PRE || CAS; unsigned need = CAS ? 6 : 5; uint64_t fl = 0, ex = 0, dl = 0, cu = 0;
        if (storage) {
            bool nr = nt == need + 1 && is(tok[need], "noreply");
            if ((nt == need || nr) && toknum(tok[2].p, tok[2].n, 65535, fl) && toknum(tok[3].p, tok[3].n, 0xffffffffu, ex) && toknum(tok[4].p, tok[4].n, 0xffffffffu, dl) && (!CAS || toknum(tok[5].p, tok[5].n, ~0ull, cu))) {
                if (dl > (1 << 14)) want = ERRS;
                else if (dl + 2 > dn) { want = MORE; }
                else if (data[dl] == '\r' && data[dl + 1] == '\n') {
                    used = (unsigned)dl + 2; bool isk = is(tok[1], "k"), iso = !isk && is(tok[1], "o"); bool f = (isk && k.present) || iso; RefItem n; n.present = true; n.flags = (uint16_t)fl; n.v.n = (unsigned)dl; memcpy(n.v.b, data, n.v.n); n.forever = ex == 0; n.exp = 100 + ex; bool st = false; want = nr ? SILENT : EXACT;
                    if (SET) { st = true; e.lit("STORED\r\n"); } else if (ADD) { st = !f; e.lit(st ? "STORED\r\n" : "NOT_STORED\r\n"); } else if (REP) { st = f; e.lit(st ? "STORED\r\n" : "NOT_STORED\r\n"); }
                    else if (CAS) { uint64_t cur = isk ? token0 : iso ? c.do_get(slice("o", 1), key_hash(slice("o", 1)))->timestamp() : 0; st = f && cu == cur; e.lit(!f ? "NOT_FOUND\r\n" : st ? "STORED\r\n" : "EXISTS\r\n"); }
                    else { e.lit(f ? "STORED\r\n" : "NOT_STORED\r\n"); if (isk && f) { RefItem m = k; m.v.n = k.v.n + n.v.n; const RefItem& a = APP ? k : n; const RefItem& b = APP ? n : k; memcpy(m.v.b, a.v.b, a.v.n); memcpy(m.v.b + a.v.n, b.v.b, b.v.n); k2 = m; } if (iso) otherkey = true; }
                    if (st && isk) k2 = n; if (st && iso) otherkey = true;
                } else want = ERRS;
            }
        }
    }
    // the server
    bool offer = storage && (want != ERRS || !longkey); feed(r, line, ln); feed(r, "\r\n", 2); if (offer) feed(r, data, dn);
    unsigned before = (unsigned)r.non_read();
    net::ConversationReply rep = memcached::handle_received_data(r, s, c);
    Bytes out; drain(s, out); vs_obs_bytes("reply", out.b, out.n < 200 ? out.n : 200);
    switch (want) {
    case ANY: vs_check((rep == net::SEND_REPLY_AND_READ && ends_crlf(out)) || (rep != net::SEND_REPLY_AND_READ && out.n == 0), "reply is not a complete response");
        if (!is_error(out)) for (unsigned i = 0; i + 5 <= out.n; ++i) vs_check(!eq_bytes(out.b + i, "ERROR", 5), "error in the middle of a response"); break;
    case ERRS: vs_check(rep == net::SEND_REPLY_AND_READ && is_error(out), "malformed or failing request is not answered with an error"); vs_cover("error"); break;
    case EXACT: vs_check(rep == net::SEND_REPLY_AND_READ && same_bytes(out, e), "wrong response"); vs_cover("response"); break;
    case SILENT: vs_check(rep == net::READ_MORE && out.n == 0, "noreply request is answered"); vs_cover("silent"); break;
    case MORE: vs_check(rep == net::READ_MORE && out.n == 0, "incomplete request is answered"); vs_check(r.non_read() == before, "incomplete request is consumed"); vs_cover("incomplete"); break;
    case CLOSE: vs_check(rep == net::CLOSE_IMMEDIATELY && out.n == 0, "quit does not close the connection"); break;
    case LISTING: vs_check(rep == net::SEND_REPLY_AND_READ && starts(out, 0, e.b[0] == 'V' ? "VERSION " : "STAT ") && ends_crlf(out), "wrong response"); if (e.b[0] == 'S') vs_check(out.n > 5 && eq_bytes(out.b + out.n - 5, "END\r\n", 5), "stats without END"); break;
    }
    if (want == EXACT || want == SILENT) vs_check(r.non_read() == (storage ? dn - used : 0), "wrong number of request bytes consumed");
    if (want != ANY) { // effect
        ConstItemPtr i = look(c, "k", 1); vs_check((i != nullptr) == k2.present, "presence of the key after the request");
        if (i) { vs_check(eq_val(i->value(), k2.v), "value after the request"); vs_check(i->opaque_flags() == k2.flags, "flags after the request"); vs_check(k2.forever ? i->expiration_time() == cache::clock::time_point::max() : i->expiration_time().time_since_epoch().count() == k2.exp || (k2.exp > 0xfffffff0ull), "expiration after the request"); }
        ConstItemPtr o = look(c, "o", 1); if (!otherkey) vs_check((o != nullptr) == o2.present && (!o || (o->value().length() == 1 && o->value()[0] == 'O' && o->opaque_flags() == 7)), "another item was changed");
        if (!had && !k2.present) vs_check(c.do_get(slice("kk", 2), key_hash(slice("kk", 2))) == nullptr || otherkey || storage, "unrelated item appeared");
    }
    r.reset(); vs_cover("end");
}
