// Reference model of the cache and helpers shared by the cache harnesses.
#pragma once
#include "vs.h"
#include <cachelot/common.h>
#include <cachelot/cache.h>
#include <cstring>
using namespace cachelot;
using cache::Cache; using cache::ItemPtr; using cache::ConstItemPtr; using cache::seconds;

static const unsigned MAXV = 260;
struct Val { unsigned n; char b[MAXV]; };
struct RefItem {
    bool present = false; Val v; uint16_t flags = 0; uint64_t cas = 0;
    bool forever = true; uint64_t exp = 0; // absolute second at which it expires
};
struct KeyDef { const char* p; unsigned n; uint32_t h; slice s() const { return slice(p, n); } };

static inline bool eq_bytes(const char* a, const char* b, size_t n) { // fork free
    unsigned char d = 0; for (size_t i = 0; i < n; ++i) d |= (unsigned char)(a[i] ^ b[i]); return d == 0;
}
static inline bool eq_val(slice s, const Val& v) { return s.length() == v.n && eq_bytes(s.begin(), v.b, v.n); }

static inline void sym_val(Val& v, unsigned n, const char* name) { v.n = n; vs_make_symbolic(v.b, n, name); }
// value with length chosen among a few interesting ones
static inline void choose_val(Val& v, const unsigned* lens, unsigned nl, const char* name) { sym_val(v, lens[vs_choose(nl, "len")], name); }

// result of an operation that may fail with an error code
enum Outcome { OK_TRUE, OK_FALSE, ERR_OOM, ERR_BIG, ERR_KEY, ERR_NUM, ERR_OTHER };
template <class F> static Outcome guarded(F f) {
    try { return f() ? OK_TRUE : OK_FALSE; }
    catch (const system_error& e) {
        if (e.code() == error::out_of_memory) return ERR_OOM;
        if (e.code() == error::item_too_big) return ERR_BIG;
        if (e.code() == error::key_too_long) return ERR_KEY;
        if (e.code() == error::numeric_convert || e.code() == error::numeric_overflow) return ERR_NUM;
        return ERR_OTHER;
    }
}
static inline ItemPtr make_item(Cache& c, const KeyDef& k, const Val& v, uint16_t flags, uint32_t ttl) {
    ItemPtr i = c.create_item(k.s(), k.h, v.n, flags, seconds(ttl));
    i->assign_value(slice(v.b, v.n));
    return i;
}
// lookup must agree with the model exactly (assumes nothing was evicted)
static inline void expect_get(Cache& c, const KeyDef& k, const RefItem& r, const char* what) {
    ConstItemPtr i = c.do_get(k.s(), k.h);
    vs_check((i != nullptr) == r.present, what);
    if (!i) return;
    vs_check(i->key() == k.s(), "get returns the item of another key");
    vs_check(eq_val(i->value(), r.v), "get returns a value that was not the last one stored");
    vs_check(i->opaque_flags() == r.flags, "get returns flags that were not the last ones stored");
}
