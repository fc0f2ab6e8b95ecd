// Slice operations against naive definitions (arguments in separate memory).  params: 0 op, 1 length, 2 length of the argument
#include "vs.h"
#include <cachelot/common.h>
#include <cachelot/slice.h>
#include <cstring>
using namespace cachelot;
static bool same(const char* a, const char* b, unsigned n) { bool e = true; for (unsigned i = 0; i < n; ++i) e = e & (a[i] == b[i]); return e; }
// long slices: equal except (possibly) for one byte, which is symbolic in both and lies at every position in turn.  params: 0 = 6, 1 length, 2 length of the prefix in front of the second copy
static void longer() {
    unsigned n = (unsigned)vs_param(1), m = (unsigned)vs_param(2); char* a = new char[n]; char* b = new char[n + m];
    for (unsigned i = 0; i < n; ++i) a[i] = b[m + i] = (char)(i * 7 + i / 31); for (unsigned i = 0; i < m; ++i) b[i] = (char)(i * 7 + i / 31);
    unsigned p = vs_choose(n, "position"); vs_make_symbolic(a + p, 1, "text"); vs_make_symbolic(b + m + p, 1, "other");
    slice s(a, n), w(b + m, n), whole(b, m + n); bool e = a[p] == b[m + p];
    vs_check((s == w) == e, "operator=="); vs_check((s != w) == !e, "operator!="); vs_check(!(s == slice(b + m, n - 1)) && !(slice(a, n - 1) == w), "slices of different length are equal");
    vs_check(w.startswith(s) == e && whole.endswith(s) == e, "startswith/endswith of a long slice"); vs_check(whole.startswith(slice(a, n - 1)) == same(a, b, n - 1), "startswith of a long slice");
    int first = -1; for (int i = (int)m; i >= 0; --i) if (same(a, b + i, n)) first = i;
    slice f = whole.search(s); if (first < 0) vs_check(f.empty(), "search finds what is not there"); else vs_check(f.begin() == b + first && f.length() == n, "search does not return the first occurrence");
    vs_cover("end");
}
void vs_main() {
    if (vs_param(0) == 6) { longer(); return; }
    unsigned n = (unsigned)vs_param(1), m = (unsigned)vs_param(2);
    char* a = new char[n ? n : 1]; char* b = new char[m ? m : 1]; vs_make_symbolic(a, n, "text"); vs_make_symbolic(b, m, "arg");
    slice s(a, n), w(b, m);
    int first = -1; if (m <= n) for (int i = (int)(n - m); i >= 0; --i) if (same(a + i, b, m)) first = i; // leftmost occurrence
    switch (vs_param(0)) {
    case 0: { bool e = n == m && same(a, b, n); vs_check((s == w) == e, "operator=="); vs_check((s != w) == !e, "operator!="); vs_check(s == s && slice(a, a + n) == s, "a slice equals itself"); vs_check(s.empty() == (n == 0) && (bool)s == (n != 0) && s.length() == n, "length"); break; }
    case 1: { slice f = s.search(w); if (m > 0) { if (first < 0) vs_check(f.empty(), "search finds what is not there"); else vs_check(f.begin() == a + first && f.length() == m, "search does not return the first occurrence"); vs_check(s.contains(w) == (first >= 0), "contains"); } break; }
    case 2: { slice l, r; tie(l, r) = s.split(w); if (m > 0) { if (first < 0) vs_check(l.begin() == a && l.length() == n && r.empty(), "split without separator"); else vs_check(l.begin() == a && l.length() == (unsigned)first && r.length() == n - first - m && (r.empty() || r.begin() == a + first + m), "split"); } break; }
    case 3: { bool st = m <= n && same(a, b, m), en = m <= n && same(a + (n - m), b, m); vs_check(s.startswith(w) == st, "startswith"); if (m) vs_check(s.endswith(w) == en, "endswith"); break; }
    case 4: { slice l, r; tie(l, r) = s.split(b[0]); vs_check(first < 0 ? (l.begin() == a && l.length() == n && r.empty()) : (l.begin() == a && l.length() == (unsigned)first && r.length() == n - first - 1), "split by a char"); break; }
    case 5: { unsigned i = vs_choose(n, "index"), k = vs_choose(n - i + 1, "len"); slice u = s.subslice(i, k); vs_check(u.begin() == a + i && u.length() == k, "subslice"); slice t = s.rtrim_n(k); vs_check(t.begin() == a && t.length() == n - k, "rtrim_n"); vs_check(s[i] == a[i] && s.nth(i) == a + i, "index");
        slice l, r; tie(l, r) = s.split_at((size_t)i); vs_check(l.begin() == a && l.length() == i && r.begin() == a + i && r.length() == n - i, "split_at"); vs_check(s.contains(a + i) && !s.contains(a + n), "contains address");
        std::string str = s.str(); vs_check(str.size() == n && same(str.data(), a, n), "str"); break; }
    }
    vs_cover("end");
}
