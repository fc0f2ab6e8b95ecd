// Text to integer conversion against an independent reference.
// params: 0 type (0 u64, 1 i64, 2 u32, 3 i32, 4 u16, 5 i16, 6 u8, 7 i8), 1 number of bytes, 2 mode (0 arbitrary bytes, 1 digits only, 2 '-' then digits), 3 throwing overload, 4 length+1 of the common prefix with 2^63 (0: free)
#include "vs.h"
#include <cachelot/common.h>
#include <cachelot/error.h>
#include <cachelot/string_conv.h>
#include <cstring>
using namespace cachelot;
// does the number written with n digits exceed the bound?  Exact: 19 digits always fit 64 bits, 20 and more are compared to 2^64-1 as text first.
static bool greater(const char* s, unsigned n, uint64_t bound) {
    static const char mx[] = "18446744073709551615"; bool big = false;
    if (n > 20) { for (unsigned i = 0; i < n - 20; ++i) big |= s[i] != '0'; s += n - 20; n = 20; }
    if (n == 20) { bool eq = true; for (unsigned i = 0; i < n; ++i) { big |= eq & (s[i] > mx[i]); eq &= s[i] == mx[i]; } }
    if (big) return true;
    uint64_t v = 0; for (unsigned i = 0; i < n; ++i) v = v * 10 + (uint64_t)(s[i] - '0');
    return v > bound;
}
template <class T> static void run(const char* b, unsigned n, bool sgn, uint64_t maxpos, uint64_t maxneg, bool throwing) {
    const char* d = b; unsigned m = n; bool neg = false;
    if (sgn && n > 0 && b[0] == '-') { neg = true; ++d; --m; }
    bool digits = m > 0; for (unsigned i = 0; i < m; ++i) digits = digits & (d[i] >= '0') & (d[i] <= '9');
    bool conv = false, over = false, other = false; T r = 0;
    if (throwing) {
        try { r = str_to_int<T>(b, b + n); }
        catch (const system_error& e) { conv = e.code() == error::numeric_convert; over = e.code() == error::numeric_overflow; other = !conv && !over; }
    } else {
        error_code ec; r = str_to_int<T>(b, b + n, ec);
        if (ec) { conv = ec == error::numeric_convert; over = ec == error::numeric_overflow; other = !conv && !over; }
    }
    vs_check(!other, "conversion fails with an unexpected error");
    if (!digits) { vs_check(conv, "text that is not a number must be refused as such"); vs_cover("not a number"); return; }
    if (m > 20) { vs_check(!conv, "digits refused as not a number"); if (over) { vs_cover("too long"); return; } }
    if (greater(d, m, neg ? maxneg : maxpos)) { vs_check(over, "number that does not fit must be refused as overflow"); vs_cover("overflow"); return; }
    vs_check(!conv && !over, "number that fits is refused");
    uint64_t v = 0; for (unsigned i = 0; i < m; ++i) v = v * 10 + (uint64_t)(d[i] - '0');
    vs_check((uint64_t)(int64_t)r == (neg ? 0 - v : v), "text is converted to a different number");
    vs_obs_u64("value", (uint64_t)(int64_t)r); vs_cover("number");
}
void vs_main() {
    unsigned n = (unsigned)vs_param(1); int mode = (int)vs_param(2); bool thr = vs_param(3) != 0;
    char* b = new char[n + 2]; vs_make_symbolic(b, n, "text"); vs_make_symbolic(b + n, 2, "behind"); // whatever follows the text is no part of it
    if (mode == 2) vs_assume(b[0] == '-');
    for (unsigned i = mode == 2; i < n && mode; ++i) vs_assume((b[i] >= '0') & (b[i] <= '9'));
    if (int pre = (int)vs_param(4)) {
        const char* bound = "09223372036854775808"; unsigned at = mode == 2, m = n - at; bound += 20 - m; --pre;
        for (int i = 0; i < pre; ++i) vs_assume(b[at + i] == bound[i]);
        if ((unsigned)pre < m) vs_assume(b[at + pre] != bound[pre]);
    }
    switch (vs_param(0)) {
    case 0: run<uint64>(b, n, false, 18446744073709551615ull, 0ull, thr); break;
    case 1: run<int64>(b, n, true, 9223372036854775807ull, 9223372036854775808ull, thr); break;
    case 2: run<uint32>(b, n, false, 4294967295ull, 0ull, thr); break;
    case 3: run<int32>(b, n, true, 2147483647ull, 2147483648ull, thr); break;
    case 4: run<uint16>(b, n, false, 65535ull, 0ull, thr); break;
    case 5: run<int16>(b, n, true, 32767ull, 32768ull, thr); break;
    case 6: run<uint8>(b, n, false, 255ull, 0ull, thr); break;
    case 7: run<int8>(b, n, true, 127ull, 128ull, thr); break;
    }
    vs_cover("end");
}
