// io_buffer against an ideal byte queue.  params: 0 max size, 1 initial size, 2 number of ops, 3 first op pinned (-1), 4 bytes written before, 5 bytes of those read before, 6: 1 = one size is symbolic, 7: n > 0 = searching for a terminator in n bytes
#include "vs.h"
#include <cachelot/common.h>
#include <server/io_buffer.h>
#include <stdexcept>
#include <cstring>
using namespace cachelot;
enum { WRITE, READ, COMPACT, RDROLL, WRROLL, UNTIL, RESET, READALL, NOPS };
static const unsigned CAP = 4096;
static char model[CAP]; static unsigned mr, mw; // read and write position since the last compact/reset
static size_t maxsz;
static void content(io_buffer& b) {
    vs_check(b.size() == mw && b.non_read() == mw - mr, "amount of buffered data is wrong"); vs_check(b.capacity() <= maxsz && b.capacity() >= b.size(), "capacity out of range"); vs_check(b.available() == b.capacity() - b.size(), "available");
    if (mw > mr) { const char* p = b.begin_read(); unsigned char d = 0; for (unsigned i = mr; i < mw; ++i) d |= (unsigned char)(p[i - mr] ^ model[i]); vs_check(d == 0, "buffered bytes are lost or changed"); }
}
static void write(io_buffer& b, size_t want, unsigned n) { // reserves `want`, writes n <= want bytes
    bool fits = want <= maxsz - mw; char* p = nullptr;
    try { p = b.begin_write(want); } catch (const std::length_error&) { vs_check(!fits, "length_error although the data fits"); vs_cover("refused"); return; }
    vs_check(fits, "more than the maximum was granted");
    vs_check(b.available() >= want, "less than requested was granted");
    if (n > want) n = 0;
    for (unsigned i = 0; i < n; ++i) { char c = (char)(i < 4 ? vs_u8("byte") : (unsigned char)(i * 7 + mw)); p[i] = c; model[mw + i] = c; }
    b.confirm_write(n); mw += n;
}
static void longuntil() { // the terminator is found wherever it is, however much is buffered
    unsigned n = (unsigned)vs_param(7), skip = (unsigned)vs_param(5), piece = (unsigned)vs_param(4); maxsz = (size_t)vs_param(0); io_buffer b((size_t)vs_param(1), maxsz); char* m = new char[n + skip]; for (unsigned i = 0; i < n + skip; ++i) m[i] = (char)('a' + i % 23); 
    unsigned where = vs_choose(9, "where"), at = where == 0 ? 0 : where == 8 ? n - 2 : where == 7 ? n - 1 : where * (n / 7) + (where & 1); char x; vs_make_symbolic(&x, 1, "byte"); m[skip + at] = '\r'; if (at + 1 < n) m[skip + at + 1] = x; bool there = (at + 1 < n) & (x == '\n');
    for (unsigned i = 0; i < n + skip; i += piece) { unsigned k = n + skip - i < piece ? n + skip - i : piece; char* p = b.begin_write(k); memcpy(p, m + i, k); b.confirm_write(k); }
    if (skip) b.confirm_read(skip); slice r = b.try_read_until(slice("\r\n", 2)); if (!there) vs_check(r.empty() && b.non_read() == n, "terminator found that is not there"); else { vs_check(r.length() == at + 2, "data up to the first terminator"); bool same = true; for (unsigned i = 0; i < at + 2; ++i) same = same & (r.begin()[i] == m[skip + i]); vs_check(same, "bytes read are not the bytes written"); vs_check(b.non_read() == n - at - 2, "amount of buffered data is wrong"); } vs_cover("end");
}
void vs_main() {
    if (vs_param(7)) { longuntil(); return; }
    maxsz = (size_t)vs_param(0); io_buffer b((size_t)vs_param(1), maxsz);
    unsigned nops = (unsigned)vs_param(2); int pin = (int)vs_param(3); unsigned sym = (unsigned)vs_param(6);
    if (vs_param(4)) { write(b, (size_t)vs_param(4), (unsigned)vs_param(4)); b.confirm_read((size_t)vs_param(5)); mr = (unsigned)vs_param(5); }
    static const unsigned sizes[] = {1, 3, 125, 500, 700};
    for (unsigned s = 0; s < nops; ++s) {
        unsigned op = s == 0 && pin >= 0 ? (unsigned)pin : vs_choose(NOPS, "op");
        switch (op) {
        case WRITE: if (sym) { --sym; write(b, vs_range(1, 0xffffffffu, "want"), 1); } else { unsigned w = sizes[vs_choose(5, "size")]; write(b, w, vs_choose(2, "all") ? w : 1); } break;
        case READ: { if (mw == mr) break; unsigned n = vs_choose(2, "part") ? mw - mr : (mw - mr + 1) / 2; slice r = b.confirm_read(n); vs_check(r.length() == n && !memcmp(r.begin(), model + mr, 0), "read"); unsigned char d = 0; for (unsigned i = 0; i < n; ++i) d |= (unsigned char)(r.begin()[i] ^ model[mr + i]); vs_check(d == 0, "bytes read are not the bytes written"); mr += n; break; }
        case READALL: { slice r = b.read_all(); vs_check(r.length() == mw - mr, "read_all"); mr = mw; break; }
        case COMPACT: b.compact(); memmove(model, model + mr, mw - mr); mw -= mr; mr = 0; break;
        case RESET: b.reset(); mr = mw = 0; break;
        case RDROLL: { if (mw == mr) break; auto sp = b.read_savepoint(); b.confirm_read(mw - mr); b.rollback_read_transaction(sp); break; }
        case WRROLL: { auto sp = b.write_savepoint(); unsigned keep = mw; write(b, 3, 3); mw = keep; b.rollback_write_transaction(sp); break; }
        case UNTIL: { if (mw - mr > 12) break; char t[2]; vs_make_symbolic(t, 2, "term"); slice r = b.try_read_until(slice(t, 2));
            int at = -1; for (int i = (int)mw - 2; i >= (int)mr; --i) if ((model[i] == t[0]) & (model[i + 1] == t[1])) at = i;
            if (at < 0) vs_check(r.empty(), "terminator found that is not there"); else { vs_check(r.length() == (unsigned)at + 2 - mr, "data up to the first terminator"); mr = (unsigned)at + 2; } break; }
        }
        content(b);
    }
    vs_obs_u64("size", b.size()); vs_obs_u64("capacity", b.capacity()); vs_cover("end");
}
