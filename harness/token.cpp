// Tokens of any size over the wire: the item's token is planted, as if that many modifications had been made before.  params: 0 first token, 1 number of tokens from there on, 2: 1 = the first token is ten times that
#include "wire.h"
#include <new>
void vs_main() {
    Cache c = new_cache(); net::io_service ios; Peer p(c, ios, 65536, 65536); slice k("k", 1); uint64_t ts = (uint64_t)vs_param(0) * (vs_param(2) ? 10 : 1) + vs_choose((unsigned)vs_param(1), "token");
    ItemPtr i = c.create_item(k, key_hash(k), 1, 3, seconds(0)); new (i) cache::Item(k, key_hash(k), 1, 3, seconds(0), ts); i->assign_value(slice("v", 1)); c.do_set(i);
    vs_check(look(c, "k", 1) && look(c, "k", 1)->timestamp() == ts, "token of the item");
    Wire w(300); w.out.lit("VALUE k 3 1 "); w.out.num(ts); w.out.lit("\r\nv\r\nEND\r\n"); p.deliver("gets k\r\n", 8); p.settle(); vs_check(same_bytes(p.got, w.out), "gets prints another token"); p.got.n = 0;
    char t[24]; unsigned tn = w.out.n - 12 - 10; memcpy(t, w.out.b + 12, tn); bool other = vs_choose(2, "other"); if (other) { unsigned at = vs_choose(tn, "digit"); char x; vs_make_symbolic(&x, 1, "digit"); vs_assume(x >= '0' && x <= '9' && x != t[at]); if (tn == 20) vs_assume(at > 0 && (x < t[at])); t[at] = x; }
    w.put("cas k 4 0 1 "); for (unsigned j = 0; j < tn; ++j) w.in[w.in_n++] = t[j]; w.put("\r\nw\r\n"); p.deliver(w.in, w.in_n); p.settle(); Bytes e; e.lit(other ? "EXISTS\r\n" : "STORED\r\n"); vs_check(same_bytes(p.got, e), "compare-and-swap with the token of gets");
    ConstItemPtr j = look(c, "k", 1); vs_check(j && j->value().length() == 1 && j->value()[0] == (other ? 'v' : 'w') && j->opaque_flags() == (other ? 3 : 4), "effect of compare-and-swap"); vs_obs_u64("token", ts); vs_cover("end");
}
