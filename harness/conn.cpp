// A stream of requests over one connection. params: 0 mode (0 whole, 1 one cut, 2 two cuts, 3 byte by byte, 4 size n pieces), 1.. request kinds + 1 (0 ends the list, 100 any)
#include "wire.h"
void vs_main() {
    Cache c = new_cache(); net::io_service ios; Wire w(12000); for (unsigned i = 1; i < 8 && vs_param(i); ++i) w.req(vs_param(i) == 100 ? vs_choose(NREQ, "request") : (unsigned)vs_param(i) - 1);
    Peer p(c, ios, 65536, 65536); unsigned n = w.in_n; bool alive = true;
    switch (vs_param(0)) {
    case 0: alive = p.deliver(w.in, n); break;
    case 1: { unsigned x = vs_choose(n, "cut"); alive = p.deliver(w.in, x) && p.deliver(w.in + x, n - x); break; }
    case 2: { unsigned x = vs_choose(n, "cut"), y = vs_choose(6, "gap"); if (x + y > n) y = n - x; alive = p.deliver(w.in, x) && p.deliver(w.in + x, y) && p.deliver(w.in + x + y, n - x - y); break; }
    case 3: for (unsigned i = 0; i < n && alive; ++i) alive = p.deliver(w.in + i, 1); break;
    case 4: { unsigned k = n > 2000 ? 300 + 500 * vs_choose(8, "piece") : 2 + vs_choose(20, "piece"); for (unsigned i = 0; i < n && alive; i += k) alive = p.deliver(w.in + i, n - i < k ? n - i : k); break; }
    }
    p.settle(); vs_obs_bytes("got", p.got.b, p.got.n < 100 ? p.got.n : 100);
    vs_check(same_bytes(p.got, w.out), "responses differ from those the protocol prescribes for the requests");
    if (w.closed) { vs_check(!p.reading() && !p.writing(), "connection goes on after quit"); p.conv.reset(); vs_check(p.watch.expired(), "connection is kept after quit"); vs_cover("quit"); }
    else vs_check(alive && p.reading() && !p.writing(), "connection does not wait for the next request");
    w.same_state(c); vs_cover("end");
}
