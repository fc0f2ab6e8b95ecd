// Bit utilities for every argument.  params: 0 which
#include "vs.h"
#include <cachelot/common.h>
#include <cachelot/bits.h>
using namespace cachelot;
template <class T> static void bits() {
    const unsigned W = sizeof(T) * 8; T v = W == 64 ? (T)vs_u64("value") : (T)vs_u32("value"); unsigned n = (unsigned)vs_range(0, W - 1, "bit");
    bool b = ((v >> n) & 1) != 0; T keep = ~((T)1 << n);
    vs_check(bit::is_set(v, n) == b && bit::is_unset(v, n) == !b, "is_set");
    T s = bit::set(v, n), u = bit::unset(v, n), f = bit::flip(v, n);
    vs_check((s & keep) == (v & keep) && ((s >> n) & 1), "set"); vs_check((u & keep) == (v & keep) && !((u >> n) & 1), "unset"); vs_check((f & keep) == (v & keep) && (((f >> n) & 1) != 0) == !b, "flip");
}
template <class T> static void logs() {
    const unsigned W = sizeof(T) * 8; T v = W == 64 ? (T)vs_u64("value") : (T)vs_u32("value"); vs_assume(v != 0);
    unsigned n = W - 1; while (n > 0 && !((v >> n) & 1)) --n; // forks once per position
    vs_check(bit::most_significant(v) == n, "most_significant"); vs_check(log2u(v) == n, "log2u");
    bool p = v == (T)1 << n; vs_check(ispow2(v) == p, "ispow2"); vs_check(pow2<T>(n) == (T)1 << n, "pow2");
    if (p || n + 1 < W) vs_check(roundup_pow2(v) == (p ? v : (T)1 << (n + 1)), "roundup_pow2");
    unsigned l = 0; while (!((v >> l) & 1)) ++l; vs_check(bit::least_significant(v) == l, "least_significant");
}
void vs_main() {
    switch (vs_param(0)) {
    case 0: bits<uint32>(); break; case 1: bits<uint64>(); break; case 2: logs<uint32>(); break; case 3: logs<uint64>(); break;
    case 4: { uint64_t s = vs_u64("size"); unsigned a = 1u << vs_choose(13, "alignment"); vs_assume(s <= ~0ull - a); size_t u = unaligned_bytes((size_t)s, a); vs_check(u < a && ((s + u) & (a - 1)) == 0, "unaligned_bytes");
        size_t q = unaligned_bytes((const void*)s, a); vs_check(q == u, "unaligned_bytes of an address"); break; }
    }
    vs_cover("end");
}
