// Server harness helpers: the memcached text protocol over the real handlers, Boost.Asio replaced by fakeasio.
#pragma once
#include "model.h"
#include <server/memcached/memcached.h>
using namespace cachelot;
static const unsigned OUTMAX = 6000;
struct Bytes { unsigned n = 0; char b[OUTMAX]; void add(const char* p, unsigned m) { for (unsigned i = 0; i < m && n < OUTMAX; ++i) b[n++] = p[i]; } void lit(const char* s) { add(s, (unsigned)strlen(s)); } void num(uint64_t v) { char t[24]; unsigned k = 0; do { t[k++] = (char)('0' + v % 10); v /= 10; } while (v); while (k) b[n++] = t[--k]; } };
static inline bool same_bytes(const Bytes& a, const Bytes& b) { if (a.n != b.n) return false; return eq_bytes(a.b, b.b, a.n); }
static inline bool starts(const Bytes& a, unsigned at, const char* s) { unsigned m = (unsigned)strlen(s); return a.n >= at + m && eq_bytes(a.b + at, s, m); }
static inline bool ends_crlf(const Bytes& a) { return a.n >= 2 && a.b[a.n - 2] == '\r' && a.b[a.n - 1] == '\n'; }
static inline bool is_error(const Bytes& a) { return (a.n == 7 && starts(a, 0, "ERROR\r\n")) || ((starts(a, 0, "CLIENT_ERROR ") || starts(a, 0, "SERVER_ERROR ")) && ends_crlf(a)); }
static inline void feed(io_buffer& r, const char* p, unsigned n) { if (!n) return; char* d = r.begin_write(n); memcpy(d, p, n); r.confirm_write(n); }
static inline void drain(io_buffer& s, Bytes& out) { out.add(s.begin_read(), (unsigned)s.non_read()); s.read_all(); s.compact(); }
static inline uint32_t key_hash(slice k) { cache::HashFunction f; return f(k); }
static inline ConstItemPtr look(Cache& c, const char* k, unsigned n) { return c.do_get(slice(k, n), key_hash(slice(k, n))); }
