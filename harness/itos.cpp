// int_to_str: the output is the canonical decimal representation, for every value of the type.
// params: 0 type (0 u64, 1 i64, 2 u32, 3 i32, 4 u16, 5 i16), 1 number of digits, 2 prefix: the value shares this many
// leading digits with the biggest value of the type and is smaller in the next one (only for the longest numbers; -1: free)
#include "vs.h"
#include <cachelot/common.h>
#include <cachelot/error.h>
#include <cachelot/string_conv.h>
using namespace cachelot;
static unsigned digits[20];
// returns the magnitude; digits[] most significant first
static uint64_t build(unsigned n, int prefix, const char* maxs) {
    static const uint64_t p10[] = {1ull, 10ull, 100ull, 1000ull, 10000ull, 100000ull, 1000000ull, 10000000ull, 100000000ull, 1000000000ull, 10000000000ull, 100000000000ull, 1000000000000ull, 10000000000000ull,
        100000000000000ull, 1000000000000000ull, 10000000000000000ull, 100000000000000000ull, 1000000000000000000ull, 10000000000000000000ull};
    uint64_t v = 0;
    for (unsigned i = 0; i < n; ++i) {
        uint64_t d;
        if (prefix >= 0 && (int)i < prefix) d = (uint64_t)(maxs[i] - '0');
        else if (prefix >= 0 && (int)i == prefix) { uint64_t m = (uint64_t)(maxs[i] - '0'); if (m == 0 || (i == 0 && m == 1)) vs_stop(); d = vs_range(i == 0 ? 1 : 0, m - 1, "digit"); }
        else d = vs_range(i == 0 && n > 1 ? 1 : 0, 9, "digit");
        digits[i] = (unsigned)d; v += d * p10[n - 1 - i];
    }
    return v;
}
template <class T> static void run(unsigned n, int prefix, const char* maxs, bool neg) {
    uint64_t m = build(n, prefix, maxs);
    if (neg && n == 1) vs_assume(digits[0] != 0);
    T x = neg ? (T)(0 - m) : (T)m;
    char buf[32]; for (char& c : buf) c = '#';
    size_t len = int_to_str(x, buf + 4);
    vs_check(len == n + neg, "int_to_str returns the wrong length");
    if (neg) vs_check(buf[4] == '-', "sign is missing");
    for (unsigned i = 0; i < n; ++i) vs_check(buf[4 + neg + i] == (char)('0' + digits[i]), "int_to_str writes a digit that is not the one of the value");
    bool in = true; for (unsigned i = 0; i < 4; ++i) in &= buf[i] == '#'; for (unsigned i = 4 + n + neg; i < 32; ++i) in &= buf[i] == '#';
    vs_check(in, "int_to_str writes outside of the number");
    vs_obs_u64("len", len); vs_obs_bytes("out", buf + 4, len);
    vs_cover("end");
}
void vs_main() {
    unsigned t = (unsigned)vs_param(0), n = (unsigned)vs_param(1); int prefix = (int)vs_param(2); bool neg = vs_param(3);
    switch (t) {
    case 0: run<uint64>(n, prefix, "18446744073709551615", false); break;
    case 1: run<int64>(n, prefix, neg ? "9223372036854775808" : "9223372036854775807", neg); break;
    case 2: run<uint32>(n, prefix, "4294967295", false); break;
    case 3: run<int32>(n, prefix, neg ? "2147483648" : "2147483647", neg); break;
    case 4: run<uint16>(n, prefix, "65535", false); break;
    case 5: run<int16>(n, prefix, neg ? "32768" : "32767", neg); break;
    case 6: run<uint8_t>(n, prefix, "255", false); break;
    case 7: run<int8_t>(n, prefix, neg ? "128" : "127", neg); break;
    }
}
