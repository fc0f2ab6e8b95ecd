#include "expr.h"
#include <algorithm>
#include <deque>
#include <unordered_set>

std::vector<VarInfo> g_vars;
std::vector<Expr*> g_varExprs;
size_t g_numExprs = 0;

static inline bool isPow2m(u128 v) { return (v & (v + 1)) == 0; }
static inline u128 fillBits(u128 v) { for (unsigned s = 1; s < 128; s <<= 1) v |= v >> s; return v; }
static inline unsigned bitlen(u128 v) { unsigned n = 0; while (v) { n++; v >>= 1; } return n; }
static void setRange(Expr* e) {
    unsigned w = e->width; u128 m = maskw(w); u128 lo = 0, hi = m; Expr *a = e->a, *b = e->b;
    switch (e->k) {
    case K::Const: lo = hi = e->val; break;
    case K::ZExt: lo = a->lo; hi = a->hi; break;
    case K::Concat: lo = (a->lo << b->width) | b->lo; hi = (a->hi << b->width) | b->hi; break;
    case K::Extract: if (e->aux == 0) { if (a->hi <= m) { lo = a->lo; hi = a->hi; } } else { u128 h = a->hi >> e->aux; if (h <= m) { lo = a->lo >> e->aux; hi = h; } } break;
    case K::Add: if (a->hi <= m - b->hi) { lo = a->lo + b->lo; hi = a->hi + b->hi; } else if (w < 128 && isC(a) && a->val > m / 2) { u128 n = (m - a->val) + 1; if (b->lo >= n) { lo = b->lo - n; hi = b->hi - n; } } break;
    case K::Sub: if (a->lo >= b->hi) { lo = a->lo - b->hi; hi = a->hi - b->lo; } else if (w < 128 && a->hi < b->lo) { lo = (m - b->hi) + 1 + a->lo; hi = (m - b->lo) + 1 + a->hi; } break;
    case K::Mul: if (a->hi == 0 || b->hi <= m / a->hi) { lo = a->lo * b->lo; hi = a->hi * b->hi; } break;
    case K::UDiv: if (b->lo) { lo = a->lo / b->hi; hi = a->hi / b->lo; } break;
    case K::URem: if (b->lo) { hi = std::min(a->hi, b->hi - 1); } break;
    case K::And: hi = std::min(a->hi, b->hi); break;
    case K::Or: lo = std::max(a->lo, b->lo); hi = std::min(m, fillBits(a->hi | b->hi)); break;
    case K::Xor: hi = std::min(m, fillBits(a->hi | b->hi)); break;
    case K::Ite: lo = std::min(e->b->lo, e->c->lo); hi = std::max(e->b->hi, e->c->hi); break;
    default: break;
    }
    e->lo = lo; e->hi = hi;
}

namespace {
inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h;
}
struct Table {
    std::vector<Expr*> slots; size_t n = 0;
    Table() : slots(1 << 16, nullptr) {}
    static bool same(const Expr* x, const Expr* y) {
        return x->hash == y->hash && x->k == y->k && x->width == y->width && x->aux == y->aux &&
               x->a == y->a && x->b == y->b && x->c == y->c && x->val == y->val;
    }
    Expr* intern(Expr& proto) {
        size_t m = slots.size() - 1, i = proto.hash & m;
        while (slots[i]) { if (same(slots[i], &proto)) return slots[i]; i = (i + 1) & m; }
        Expr* e = alloc(); *e = proto; e->id = (uint32_t)++g_numExprs; e->vs = nullptr; e->stamp = 0; e->z3bv = e->z3bool = nullptr;
        uint32_t d = 0;
        if (e->a) d = std::max(d, e->a->depth + 1);
        if (e->b) d = std::max(d, e->b->depth + 1);
        if (e->c) d = std::max(d, e->c->depth + 1);
        e->depth = d; setRange(e);
        slots[i] = e; n++;
        if (n * 2 > slots.size()) grow();
        return e;
    }
    void grow() {
        std::vector<Expr*> o(slots.size() * 2, nullptr); o.swap(slots);
        size_t m = slots.size() - 1;
        for (Expr* e : o) if (e) { size_t i = e->hash & m; while (slots[i]) i = (i + 1) & m; slots[i] = e; }
    }
    Expr* pool = nullptr; size_t left = 0;
    Expr* alloc() {
        if (!left) { left = 4096; pool = (Expr*)aligned_alloc(64, sizeof(Expr) * left); }
        left--; return pool++;
    }
} T;

Expr* mk(K k, unsigned w, Expr* a, Expr* b = nullptr, Expr* c = nullptr, uint32_t aux = 0, u128 val = 0) {
    Expr p; p.k = k; p.width = (uint16_t)w; p.aux = aux; p.a = a; p.b = b; p.c = c; p.val = val;
    uint64_t h = mix((uint64_t)k * 131 + w, aux);
    h = mix(h, a ? a->id : 0); h = mix(h, b ? b->id : 0); h = mix(h, c ? c->id : 0);
    h = mix(h, (uint64_t)val); h = mix(h, (uint64_t)(val >> 64));
    p.hash = h;
    return T.intern(p);
}
inline __int128 sx(u128 v, unsigned w) {
    if (w >= 128) return (__int128)v;
    if ((v >> (w - 1)) & 1) v |= ~maskw(w);
    return (__int128)v;
}
inline bool iteCC(Expr* e) { return e->k == K::Ite && (isC(e->b) || isC(e->c)) ; }
inline bool isCmp(K k) { return k >= K::Eq && k <= K::Sle; }
inline bool commut(K k) { return k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor || k == K::Eq; }
} // namespace

Expr* mkConst(u128 v, unsigned w) { return mk(K::Const, w, nullptr, nullptr, nullptr, 0, v & maskw(w)); }

Expr* mkVar(const std::string& name, unsigned w) {
    g_vars.push_back({name, w});
    Expr* e = mk(K::Var, w, nullptr, nullptr, nullptr, (uint32_t)(g_vars.size() - 1));
    g_varExprs.push_back(e);
    return e;
}

void setVarRange(Expr* v, u128 lo, u128 hi) { v->lo = lo; v->hi = hi; }

u128 foldBin(K k, u128 a, u128 b, unsigned w) {
    u128 m = maskw(w);
    switch (k) {
    case K::Add: return (a + b) & m;
    case K::Sub: return (a - b) & m;
    case K::Mul: return (a * b) & m;
    case K::UDiv: return b == 0 ? m : a / b;
    case K::URem: return b == 0 ? a : a % b;
    case K::SDiv: { __int128 x = sx(a, w), y = sx(b, w); if (y == 0) return (x < 0 ? (u128)1 : m) & m; return (u128)(x / y) & m; }
    case K::SRem: { __int128 x = sx(a, w), y = sx(b, w); if (y == 0) return a; return (u128)(x % y) & m; }
    case K::And: return a & b;
    case K::Or: return a | b;
    case K::Xor: return a ^ b;
    case K::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case K::LShr: return b >= w ? 0 : a >> (unsigned)b;
    case K::AShr: { __int128 x = sx(a, w); return (u128)(b >= w ? (x < 0 ? -1 : 0) : (x >> (unsigned)b)) & m; }
    case K::Eq: return a == b;
    case K::Ult: return a < b;
    case K::Ule: return a <= b;
    case K::Slt: return sx(a, w) < sx(b, w);
    case K::Sle: return sx(a, w) <= sx(b, w);
    default: abort();
    }
}

Expr* mkNot(Expr* e) {
    if (e->width == 1 && e->k == K::Ite) {} // fallthrough to xor handling
    return mkBin(K::Xor, mkConst(maskw(e->width), e->width), e);
}

// number of leading zero bits known
static unsigned knownLZ(Expr* e, int = 4) { return e->width - bitlen(e->hi); }

Expr* mkExtract(Expr* e, unsigned off, unsigned w) {
    if (off == 0 && w == e->width) return e;
    if (off + w == e->width && (e->lo >> off) == (e->hi >> off)) return mkConst(e->lo >> off, w);
    switch (e->k) {
    case K::Const: return mkConst(e->val >> off, w);
    case K::Extract: return mkExtract(e->a, off + e->aux, w);
    case K::Concat: {
        unsigned lw = e->b->width;
        if (off >= lw) return mkExtract(e->a, off - lw, w);
        if (off + w <= lw) return mkExtract(e->b, off, w);
        return mkConcat(mkExtract(e->a, 0, off + w - lw), mkExtract(e->b, off, lw - off));
    }
    case K::ZExt: {
        unsigned iw = e->a->width;
        if (off >= iw) return mkConst(0, w);
        if (off + w <= iw) return mkExtract(e->a, off, w);
        return mkZExt(mkExtract(e->a, off, iw - off), w);
    }
    case K::SExt: {
        unsigned iw = e->a->width;
        if (off + w <= iw) return mkExtract(e->a, off, w);
        if (off == 0) return mkSExt(e->a, w);
        if (off < iw) return mkSExt(mkExtract(e->a, off, iw - off), w);
        return mkSExt(mkExtract(e->a, iw - 1, 1), w);
    }
    case K::Ite:
        return mkIte(e->a, mkExtract(e->b, off, w), mkExtract(e->c, off, w));
    case K::And: case K::Or: case K::Xor:
        return mkBin(e->k, mkExtract(e->a, off, w), mkExtract(e->b, off, w));
    case K::Add: case K::Sub: case K::Mul:
        if (off == 0 && (e->depth <= 4 || e->hi <= maskw(w))) return mkBin(e->k, mkExtract(e->a, 0, w), mkExtract(e->b, 0, w));
        break;
    case K::Shl: break;
    default: break;
    }
    if (off >= e->width - std::min<unsigned>(e->width, knownLZ(e))) return mkConst(0, w);
    return mk(K::Extract, w, e, nullptr, nullptr, off);
}

Expr* mkConcat(Expr* hi, Expr* lo) {
    unsigned w = hi->width + lo->width;
    if (isC(hi) && isC(lo)) return mkConst((hi->val << lo->width) | lo->val, w);
    if (isC(hi) && lo->k == K::Extract && lo->aux == 0 && lo->a->width == w && (lo->a->lo >> lo->width) == hi->val && (lo->a->hi >> lo->width) == hi->val) return lo->a;
    if (isC(hi) && hi->val == 0) return mkZExt(lo, w);
    // adjacent extracts
    auto ext = [](Expr* e, Expr*& base, unsigned& off) { if (e->k == K::Extract) { base = e->a; off = e->aux; } else { base = e; off = 0; } };
    Expr *hb, *lb; unsigned ho, lof; ext(hi, hb, ho); ext(lo, lb, lof);
    if (hi->k == K::Extract && hb == lb && ho == lof + lo->width) return mkExtract(hb, lof, w);
    if (hi->k == K::Extract && ho >= lo->width && !isC(lo) && mkExtract(hb, ho - lo->width, lo->width) == lo) return mkExtract(hb, ho - lo->width, w); // low part was narrowed
    if (hi->k == K::Concat) return mkConcat(hi->a, mkConcat(hi->b, lo));
    if (hi->k == K::ZExt) return mkZExt(mkConcat(hi->a, lo), w);
    if (lo->k == K::Concat) {
        // try merge hi with lo's high part
        Expr* h2 = lo->a; Expr* b2; unsigned o2; ext(h2, b2, o2);
        if ((hi->k == K::Extract && hb == b2 && ho == o2 + h2->width) || (isC(hi) && isC(h2)))
            return mkConcat(mkConcat(hi, h2), lo->b);
    }
    if (hi->k == K::Ite && lo->k == K::Ite && hi->a == lo->a)
        return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
    if (isC(lo) && hi->k == K::Ite && isC(hi->b) && isC(hi->c))
        return mkIte(hi->a, mkConcat(hi->b, lo), mkConcat(hi->c, lo));
    return mk(K::Concat, w, hi, lo);
}

Expr* mkZExt(Expr* e, unsigned w) {
    if (e->width == w) return e;
    if (isC(e)) return mkConst(e->val, w);
    if (e->k == K::ZExt) return mkZExt(e->a, w);
    if (e->k == K::Extract && e->aux == 0 && e->a->hi <= maskw(e->width)) { if (e->a->width <= w) return mkZExt(e->a, w); return mkExtract(e->a, 0, w); }
    if (e->k == K::Ite && isC(e->b) && isC(e->c)) return mkIte(e->a, mkZExt(e->b, w), mkZExt(e->c, w));
    if (e->k == K::Add && w <= 64 && e->width >= 8 && e->depth < 64 && e->a->hi <= maskw(e->width) - e->b->hi) return mkBin(K::Add, mkZExt(e->a, w), mkZExt(e->b, w));
    if (e->k == K::Mul && isC(e->a) && e->a->val && e->b->hi <= maskw(e->width) / e->a->val) return mkBin(K::Mul, mkZExt(e->a, w), mkZExt(e->b, w));
    return mk(K::ZExt, w, e);
}
Expr* mkSExt(Expr* e, unsigned w) {
    if (e->width == w) return e;
    if (isC(e)) return mkConst((u128)sx(e->val, e->width), w);
    if (e->k == K::SExt) return mkSExt(e->a, w);
    if (e->k == K::ZExt) return mkZExt(e->a, w);
    if (e->width == 1) return mkIte(e, mkConst(maskw(w), w), mkConst(0, w));
    if (e->k == K::Ite && isC(e->b) && isC(e->c)) return mkIte(e->a, mkSExt(e->b, w), mkSExt(e->c, w));
    if (knownLZ(e) > 0) return mkZExt(e, w);
    return mk(K::SExt, w, e);
}

Expr* mkIte(Expr* c, Expr* t, Expr* f) {
    if (isC(c)) return c->val ? t : f;
    if (t == f) return t;
    if (c->k == K::Xor && c->width == 1 && isC(c->a)) return mkIte(c->b, f, t); // ite(not c)
    if (t->width == 1) {
        if (isC(t) && isC(f)) return t->val ? c : mkNot(c);
        if (isTrue(t)) return mkBin(K::Or, c, f);
        if (isFalse(t)) return mkBin(K::And, mkNot(c), f);
        if (isTrue(f)) return mkBin(K::Or, mkNot(c), t);
        if (isFalse(f)) return mkBin(K::And, c, t);
    }
    if (t->k == K::Ite && t->a == c) return mkIte(c, t->b, f);
    if (f->k == K::Ite && f->a == c) return mkIte(c, t, f->c);
    return mk(K::Ite, t->width, c, t, f);
}

static Expr* mkEq(Expr* a, Expr* b) {
    if (a == b) return mkConst(1, 1);
    if (a->hi < b->lo || b->hi < a->lo) return mkConst(0, 1);
    if (isC(b)) std::swap(a, b);
    unsigned w = a->width;
    if (isC(a)) {
        u128 v = a->val;
        if (w == 1) return v ? b : mkNot(b);
        switch (b->k) {
        case K::ZExt: if (v >> b->a->width) return mkConst(0, 1); return mkEq(mkConst(v, b->a->width), b->a);
        case K::SExt: { u128 t = v & maskw(b->a->width); if (((u128)sx(t, b->a->width) & maskw(w)) != v) return mkConst(0, 1); return mkEq(mkConst(t, b->a->width), b->a); }
        case K::Concat: return mkBin(K::And, mkEq(mkConst(v >> b->b->width, b->a->width), b->a), mkEq(mkConst(v, b->b->width), b->b));
        case K::Add: if (isC(b->a)) return mkEq(mkConst(v - b->a->val, w), b->b); break;
        case K::Xor: if (isC(b->a)) return mkEq(mkConst(v ^ b->a->val, w), b->b); break;
        case K::Sub: if (isC(b->a)) return mkEq(mkConst(b->a->val - v, w), b->b);
                     if (v == 0) return mkEq(b->a, b->b); break;
        case K::Ite:
            if (isC(b->b) && isC(b->c)) {
                bool t = b->b->val == v, f = b->c->val == v;
                if (t && f) return mkConst(1, 1);
                if (t) return b->a; if (f) return mkNot(b->a); return mkConst(0, 1);
            }
            if (isC(b->b)) return b->b->val == v ? mkBin(K::Or, b->a, mkEq(a, b->c)) : mkBin(K::And, mkNot(b->a), mkEq(a, b->c));
            if (isC(b->c)) return b->c->val == v ? mkBin(K::Or, mkNot(b->a), mkEq(a, b->b)) : mkBin(K::And, b->a, mkEq(a, b->b));
            break;
        case K::And: if (isC(b->a)) { if (v & ~b->a->val) return mkConst(0, 1); } break;
        case K::Or: if (v == 0) return mkBin(K::And, mkEq(a, b->a), mkEq(a, b->b)); break;
        default: break;
        }
    } else {
        if (a->k == K::ZExt && b->k == K::ZExt) {
            unsigned m = std::max(a->a->width, b->a->width);
            return mkEq(mkZExt(a->a, m), mkZExt(b->a, m));
        }
        if (a->k == K::Concat && b->k == K::Concat && a->b->width == b->b->width)
            return mkBin(K::And, mkEq(a->a, b->a), mkEq(a->b, b->b));
        if (a->k == K::ZExt && b->k == K::Concat) std::swap(a, b);
        if (a->k == K::Concat && b->k == K::ZExt)
            return mkBin(K::And, mkEq(a->a, mkExtract(b, a->b->width, a->a->width)), mkEq(a->b, mkExtract(b, 0, a->b->width)));
        if (w == 1) { // xor-not
            return mkNot(mkBin(K::Xor, a, b));
        }
        if (a->k == K::Add && b->k == K::Add && a->a == b->a) return mkEq(a->b, b->b);
        if (a->k == K::Add && (a->b == b) && isC(a->a)) return mkConst(a->a->val == 0, 1);
        if (b->k == K::Add && (b->b == a) && isC(b->a)) return mkConst(b->a->val == 0, 1);
    }
    if (!isC(a) && a->id > b->id) std::swap(a, b);
    return mk(K::Eq, 1, a, b);
}

static Expr* mkUlt(Expr* a, Expr* b) {
    if (a == b) return mkConst(0, 1);
    if (a->hi < b->lo) return mkConst(1, 1);
    if (a->lo >= b->hi) return mkConst(0, 1);
    unsigned w = a->width;
    if (w == 1) return mkBin(K::And, mkNot(a), b);
    if (isC(b)) {
        if (b->val == 0) return mkConst(0, 1);
        if (b->val == 1) return mkEq(mkConst(0, w), a);
        if (b->val == maskw(w)) return mkNot(mkEq(b, a));
        unsigned lz = knownLZ(a);
        if (lz && (b->val >> (w - lz))) return mkConst(1, 1);
        if (a->k == K::ZExt) return mkUlt(a->a, mkConst(b->val, a->a->width));
        if (a->k == K::Ite && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(a->b->val < b->val, 1), mkConst(a->c->val < b->val, 1));
    }
    if (isC(a)) {
        if (a->val == maskw(w)) return mkConst(0, 1);
        if (a->val == 0) return mkNot(mkEq(a, b));
        unsigned lz = knownLZ(b);
        if (lz && (a->val >> (w - lz))) return mkConst(0, 1);
        if (b->k == K::ZExt) { if (a->val >= maskw(b->a->width)) return mkConst(0, 1); return mkUlt(mkConst(a->val, b->a->width), b->a); }
        if (b->k == K::Ite && isC(b->b) && isC(b->c)) return mkIte(b->a, mkConst(a->val < b->b->val, 1), mkConst(a->val < b->c->val, 1));
    }
    if (a->k == K::ZExt && b->k == K::ZExt) { unsigned m = std::max(a->a->width, b->a->width); return mkUlt(mkZExt(a->a, m), mkZExt(b->a, m)); }
    return mk(K::Ult, 1, a, b);
}

// a sum without overflow, split into the part divisible by c and the rest: a = c*q + r
struct Term { Expr* e; u128 c; }; // c*e, or the constant c when e is null
static bool sumTerms(Expr* e, u128 mul, std::vector<Term>& t, int d) { // every node of the sum must be exact (no wrap-around)
    u128 m = maskw(e->width);
    if (isC(e)) { t.push_back({nullptr, e->val * mul}); return true; }
    if (d > 0) {
        if (e->k == K::Add && e->a->hi <= m - e->b->hi) return sumTerms(e->a, mul, t, d - 1) && sumTerms(e->b, mul, t, d - 1);
        if (e->k == K::Mul && isC(e->a) && e->a->val && e->b->hi <= m / e->a->val) return sumTerms(e->b, mul * e->a->val, t, d - 1);
        if (e->k == K::Concat && isC(e->b) && e->b->val == 0 && e->b->width < 60) return sumTerms(mkZExt(e->a, e->width), mul << e->b->width, t, d - 1);
        if (e->k == K::ZExt && (e->a->k == K::Add || e->a->k == K::Mul || e->a->k == K::Concat)) { std::vector<Term> u; if (!sumTerms(e->a, mul, u, d - 1)) return false; for (auto& x : u) t.push_back({x.e ? mkZExt(x.e, e->width) : nullptr, x.c}); return true; }
    }
    if (t.size() > 64) return false;
    t.push_back({e, mul}); return true;
}
static Expr* sumOf(const std::vector<Term>& t, unsigned w) {
    Expr* r = nullptr; u128 k = 0;
    for (auto& x : t) { if (!x.e) { k += x.c; continue; } Expr* e = mkBin(K::Mul, mkConst(x.c, w), x.e); r = r ? mkBin(K::Add, r, e) : e; }
    if (!r) return mkConst(k, w);
    return k ? mkBin(K::Add, mkConst(k, w), r) : r;
}
static Expr* divSum(bool rem, Expr* a, u128 c, unsigned w) {
    if (w > 64 || (a->k != K::Add && a->k != K::Mul && a->k != K::ZExt)) return nullptr;
    std::vector<Term> t; if (!sumTerms(a, 1, t, 40)) return nullptr;
    std::vector<Term> q, r; u128 k = 0;
    for (auto& x : t) { if (!x.e) k += x.c; else if (x.c % c == 0) q.push_back({x.e, x.c / c}); else r.push_back(x); }
    if (q.empty() && k < c) return nullptr;
    if (k / c) q.push_back({nullptr, k / c});
    if (k % c) r.push_back({nullptr, k % c});
    Expr* re = sumOf(r, w); Expr* ce = mkConst(c, w);
    if (rem) return re->hi < c ? re : mkBin(K::URem, re, ce);
    Expr* qe = sumOf(q, w);
    return re->hi < c ? qe : mkBin(K::Add, qe, mkBin(K::UDiv, re, ce));
}

// a + mb*b as a linear combination modulo 2^w; null unless terms cancel or merge
static void linTerms(Expr* e, u128 mul, std::vector<Term>& t, int d) {
    unsigned w = e->width;
    if (isC(e)) { t.push_back({nullptr, e->val * mul}); return; }
    if (d > 0 && t.size() < 64) {
        if (e->k == K::Add) { linTerms(e->a, mul, t, d - 1); linTerms(e->b, mul, t, d - 1); return; }
        if (e->k == K::Sub) { linTerms(e->a, mul, t, d - 1); linTerms(e->b, mul * maskw(w), t, d - 1); return; }
        if (e->k == K::Mul && isC(e->a)) { linTerms(e->b, mul * e->a->val, t, d - 1); return; }
        if (e->k == K::ZExt && (e->a->k == K::Add || e->a->k == K::Mul)) { std::vector<Term> u; if (sumTerms(e, mul, u, d - 1)) { t.insert(t.end(), u.begin(), u.end()); return; } }
        if (e->k == K::Concat && isC(e->b) && e->b->val == 0) { Expr* x = e->a; if (x->k == K::Extract && x->aux == 0 && x->a->width == w) x = x->a; else x = mkZExt(x, w); linTerms(x, mul << e->b->width, t, d - 1); return; }
    }
    t.push_back({e, mul});
}
static Expr* linear(Expr* a, Expr* b, u128 mb) {
    unsigned w = a->width; u128 m = maskw(w);
    std::vector<Term> t, r; linTerms(a, 1, t, 40); linTerms(b, mb, t, 40);
    size_t n = t.size(); bool merged = false;
    for (auto& x : t) { x.c &= m; bool f = false; for (auto& y : r) if (y.e == x.e) { y.c = (y.c + x.c) & m; f = true; if (x.e) merged = true; break; } if (!f) r.push_back(x); }
    r.erase(std::remove_if(r.begin(), r.end(), [](Term& x) { return x.c == 0; }), r.end());
    if (!merged || r.size() + 1 >= n) return nullptr;
    for (auto& x : r) if (x.e && x.c > m / 2) return nullptr; // keep subtractions as they are
    return sumOf(r, w);
}

Expr* mkBin(K k, Expr* a, Expr* b) {
    unsigned w = a->width;
    if (isC(a) && isC(b)) return mkConst(foldBin(k, a->val, b->val, w), isCmp(k) ? 1 : w);
    switch (k) {
    case K::Eq: return mkEq(a, b);
    case K::Ult: return mkUlt(a, b);
    case K::Ule: return mkNot(mkUlt(b, a));
    case K::Slt:
        if (a == b) return mkConst(0, 1);
        if (w > 1 && knownLZ(a) > 0 && knownLZ(b) > 0) return mkUlt(a, b);
        if (isC(b) && b->val == 0 && a->k != K::Ite) return mkExtract(a, w - 1, 1);
        if (isC(a) && a->val == maskw(w)) return mkNot(mkExtract(b, w - 1, 1)); // -1 < b
        if (a->k == K::SExt && b->k == K::SExt && a->a->width == b->a->width) return mkBin(K::Slt, a->a, b->a);
        if (a->k == K::SExt && isC(b)) { unsigned iw = a->a->width; __int128 v = sx(b->val, w), lo = -((__int128)1 << (iw - 1)), hi = ((__int128)1 << (iw - 1)) - 1; if (v > hi) return mkConst(1, 1); if (v <= lo) return mkConst(0, 1); return mkBin(K::Slt, a->a, mkConst((u128)v, iw)); }
        if (b->k == K::SExt && isC(a)) { unsigned iw = b->a->width; __int128 v = sx(a->val, w), lo = -((__int128)1 << (iw - 1)), hi = ((__int128)1 << (iw - 1)) - 1; if (v >= hi) return mkConst(0, 1); if (v < lo) return mkConst(1, 1); return mkBin(K::Slt, mkConst((u128)v, iw), b->a); }
        if (a->k == K::Ite && isC(b) && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
        if (b->k == K::Ite && isC(a) && isC(b->b) && isC(b->c)) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
        return mk(K::Slt, 1, a, b);
    case K::Sle: return mkNot(mkBin(K::Slt, b, a));
    default: break;
    }
    if (commut(k)) { if (isC(b)) std::swap(a, b); else if (!isC(a) && a->id > b->id) std::swap(a, b); }
    if (k == K::Sub && isC(b)) return mkBin(K::Add, mkConst(-b->val, w), a);
    // constants through ite
    if (a->k == K::Ite && isC(b) && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    if (b->k == K::Ite && isC(a) && isC(b->b) && isC(b->c)) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
    switch (k) {
    case K::Add:
        if (w <= 64 && ((a->k == K::Mul && isC(a->a) && a->a->val > maskw(w) / 2) || (b->k == K::Mul && isC(b->a) && b->a->val > maskw(w) / 2))) if (Expr* r = linear(a, b, 1)) return r;
        if (isC(a)) {
            if (a->val == 0) return b;
            if (b->k == K::Add && isC(b->a)) return mkBin(K::Add, mkConst(a->val + b->a->val, w), b->b);
            if (b->k == K::Sub && isC(b->a)) return mkBin(K::Sub, mkConst(a->val + b->a->val, w), b->b);
        } else {
            if (a->k == K::Add && isC(a->a)) return mkBin(K::Add, a->a, mkBin(K::Add, a->b, b));
            if (b->k == K::Add && isC(b->a)) return mkBin(K::Add, b->a, mkBin(K::Add, a, b->b));
            if (b->k == K::Sub && b->b == a) return b->a;
            if (a->k == K::Sub && a->b == b) return a->a;
            if (w <= 64 && (a->k == K::Sub || b->k == K::Sub)) if (Expr* r = linear(a, b, 1)) return r;
        }
        if (w == 1) return mkBin(K::Xor, a, b);
        break;
    case K::Sub:
        if (a == b) return mkConst(0, w);
        if (a->k == K::Add && a->a == b) return a->b;
        if (a->k == K::Add && a->b == b) return a->a;
        if (isC(a) && b->k == K::Sub && isC(b->a)) return mkBin(K::Add, mkConst(a->val - b->a->val, w), b->b);
        if (b->k == K::Add && isC(b->a)) return mkBin(K::Add, mkConst(-b->a->val, w), mkBin(K::Sub, a, b->b));
        if (a->k == K::Add && isC(a->a)) return mkBin(K::Add, a->a, mkBin(K::Sub, a->b, b));
        if (w == 1) return mkBin(K::Xor, a, b);
        if (w <= 64 && (a->k == K::Add || a->k == K::Mul || b->k == K::Sub) && (b->k == K::Mul || b->k == K::Add || b->k == K::Concat || b->k == K::Sub)) if (Expr* r = linear(a, b, maskw(w))) return r;
        break;
    case K::Mul:
        if (isC(a)) {
            if (a->val == 0) return a;
            if (a->val == 1) return b;
            if (b->k == K::Mul && isC(b->a)) return mkBin(K::Mul, mkConst(a->val * b->a->val, w), b->b);
            if (w <= 64 && b->k == K::Add && isC(b->a)) return mkBin(K::Add, mkConst(a->val * b->a->val, w), mkBin(K::Mul, a, b->b));
            if (w <= 64 && b->k == K::Add && b->hi <= maskw(w) / a->val && b->a->hi <= maskw(w) - b->b->hi) return mkBin(K::Add, mkBin(K::Mul, a, b->a), mkBin(K::Mul, a, b->b));
            if ((a->val & (a->val - 1)) == 0) { unsigned s = 0; while (!((a->val >> s) & 1)) s++; return mkBin(K::Shl, b, mkConst(s, w)); }
        }
        if (w == 1) return mkBin(K::And, a, b);
        break;
    case K::And:
        if (a == b) return a;
        if (isC(a)) {
            if (a->val == 0) return a;
            if (a->val == maskw(w)) return b;
            if (b->k == K::And && isC(b->a)) return mkBin(K::And, mkConst(a->val & b->a->val, w), b->b);
            // contiguous low mask
            if ((a->val & (a->val + 1)) == 0) { unsigned n = 0; while ((a->val >> n) & 1) n++; return mkZExt(mkExtract(b, 0, n), w); }
            // contiguous mask (shifted)
            { unsigned s = 0; while (!((a->val >> s) & 1)) s++; u128 t = a->val >> s; if ((t & (t + 1)) == 0) { unsigned n = 0; while (n < 128 && ((t >> n) & 1)) n++;
                return mkZExt(mkConcat(mkExtract(b, s, n), mkConst(0, s)), w); } }
            if (b->k == K::ZExt) return mkZExt(mkBin(K::And, mkConst(a->val, b->a->width), b->a), w);
        }
        if (w == 1) {
            if (a == mkNot(b)) return mkConst(0, 1);
            if (a->k == K::And && (a->a == b || a->b == b)) return a;
            if (b->k == K::And && (b->a == a || b->b == a)) return b;
        }
        if (a->k == K::ZExt && b->k == K::ZExt && a->a->width == b->a->width) return mkZExt(mkBin(k, a->a, b->a), w);
        break;
    case K::Or:
        if (a == b) return a;
        if (isC(a)) {
            if (a->val == 0) return b;
            if (a->val == maskw(w)) return a;
            if (b->k == K::Or && isC(b->a)) return mkBin(K::Or, mkConst(a->val | b->a->val, w), b->b);
            // disjoint const: split b by known zero ranges when b is ZExt / Concat
            if (b->k == K::ZExt) {
                unsigned iw = b->a->width;
                u128 hi = a->val >> iw, lo = a->val & maskw(iw);
                if (hi) return mkConcat(mkConst(hi, w - iw), mkBin(K::Or, mkConst(lo, iw), b->a));
                return mkZExt(mkBin(K::Or, mkConst(lo, iw), b->a), w);
            }
            if (b->k == K::Concat) {
                unsigned lw = b->b->width;
                return mkConcat(mkBin(K::Or, mkConst(a->val >> lw, w - lw), b->a), mkBin(K::Or, mkConst(a->val, lw), b->b));
            }
        }
        if (w == 1) {
            if (a == mkNot(b)) return mkConst(1, 1);
            if (a->k == K::Or && (a->a == b || a->b == b)) return a;
            if (b->k == K::Or && (b->a == a || b->b == a)) return b;
        } else {
            // byte assembly: or(zext(lo), concat(hi, 0..)) etc.
            Expr *x = a, *y = b;
            for (int t = 0; t < 2; ++t, std::swap(x, y)) {
                Expr* core = y; unsigned cw = w;
                if (y->k == K::ZExt) { core = y->a; cw = core->width; }
                if (core->k == K::Concat && isC(core->b) && core->b->val == 0) {
                    unsigned lw = core->b->width;
                    unsigned lz = knownLZ(x);
                    if (w - lz <= lw) return mkZExt(mkConcat(core->a, mkExtract(x, 0, lw)), w);
                    if (x->k == K::ZExt || x->k == K::Concat) {
                        // split at lw: high parts or'ed, low = x's low
                        return mkConcat(mkBin(K::Or, mkExtract(x, lw, w - lw), mkZExt(core->a, w - lw)), mkExtract(x, 0, lw));
                    }
                }
                (void)cw;
            }
        }
        if (a->k == K::ZExt && b->k == K::ZExt && a->a->width == b->a->width) return mkZExt(mkBin(k, a->a, b->a), w);
        break;
    case K::Xor:
        if (a == b) return mkConst(0, w);
        if (isC(a)) {
            if (a->val == 0) return b;
            if (b->k == K::Xor && isC(b->a)) return mkBin(K::Xor, mkConst(a->val ^ b->a->val, w), b->b);
            if (b->k == K::ZExt && !(a->val >> b->a->width)) return mkZExt(mkBin(K::Xor, mkConst(a->val, b->a->width), b->a), w);
        } else if (w == 1) {
            if (a->k == K::Xor && isC(a->a)) return mkNot(mkBin(K::Xor, a->b, b));
            if (b->k == K::Xor && isC(b->a)) return mkNot(mkBin(K::Xor, a, b->b));
        }
        break;
    case K::Shl:
        if (isC(b)) {
            if (b->val == 0) return a;
            if (b->val >= w) return mkConst(0, w);
            unsigned s = (unsigned)b->val;
            return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
        }
        break;
    case K::LShr:
        if (isC(b)) {
            if (b->val == 0) return a;
            if (b->val >= w) return mkConst(0, w);
            unsigned s = (unsigned)b->val;
            return mkZExt(mkExtract(a, s, w - s), w);
        }
        break;
    case K::AShr:
        if (isC(b)) {
            if (b->val == 0) return a;
            unsigned s = b->val >= w ? w - 1 : (unsigned)b->val;
            return mkSExt(mkExtract(a, s, w - s), w);
        }
        break;
    case K::SDiv: case K::SRem:
        if (w > 1 && knownLZ(a, 6) > 0 && knownLZ(b, 6) > 0) return mkBin(k == K::SDiv ? K::UDiv : K::URem, a, b);
        if (k == K::SDiv && w > 1 && isC(b) && sx(b->val, w) < -1 && sx(b->val, w) != -((__int128)1 << (w - 1))) return mkBin(K::Sub, mkConst(0, w), mkBin(K::SDiv, a, mkConst((u128)(-sx(b->val, w)), w))); // truncated division: a / -c == -(a / c)
        break;
    case K::UDiv:
        if (isC(b)) {
            if (b->val == 1) return a;
            if (b->val && a->hi < b->val) return mkConst(0, w);
            if (b->val) if (Expr* q = divSum(false, a, b->val, w)) return q;
            if (a->k == K::Mul && a->a == b && knownLZ(a->b, 6) + knownLZ(b) >= w) return a->b; // (c*x)/c without overflow
            if (b->val && (b->val & (b->val - 1)) == 0) { unsigned s = 0; while (!((b->val >> s) & 1)) s++; return mkBin(K::LShr, a, mkConst(s, w)); }
            unsigned lz = knownLZ(a);
            if (lz && (b->val >> (w - lz))) return mkConst(0, w);
            if (b->val && lz && lz < w) { unsigned n = w - lz; unsigned blz = knownLZ(b); if (w - blz <= n) return mkZExt(mk(K::UDiv, n, mkExtract(a, 0, n), mkConst(b->val, n)), w); }
        }
        break;
    case K::URem:
        if (isC(b)) {
            if (b->val == 1) return mkConst(0, w);
            if (a->hi < b->val) return a;
            if (b->val) if (Expr* q = divSum(true, a, b->val, w)) return q;
            if (a->k == K::Mul && a->a == b && knownLZ(a->b, 6) + knownLZ(b) >= w) return mkConst(0, w);
            if (b->val && (b->val & (b->val - 1)) == 0) return mkBin(K::And, mkConst(b->val - 1, w), a);
            unsigned lz = knownLZ(a);
            if (lz && (b->val >> (w - lz))) return a;
            if (b->val && lz && lz < w) { unsigned n = w - lz; unsigned blz = knownLZ(b); if (w - blz <= n) return mkZExt(mk(K::URem, n, mkExtract(a, 0, n), mkConst(b->val, n)), w); }
        }
        break;
    default: break;
    }
    if (commut(k)) { if (isC(b)) std::swap(a, b); else if (!isC(a) && a->id > b->id) std::swap(a, b); }
    return mk(k, w, a, b);
}

// ---------------------------------------------------------------- evaluation
static uint32_t g_stamp = 0;
void evalBegin() { ++g_stamp; }
u128 evalIn(Expr* e, const Model& m) {
    if (e->k == K::Const) return e->val;
    if (e->stamp == g_stamp) return e->ev;
    u128 r = 0;
    switch (e->k) {
    case K::Var: r = e->aux < m.size() ? (u128)m[e->aux] & maskw(e->width) : 0; break;
    case K::Extract: r = (evalIn(e->a, m) >> e->aux) & maskw(e->width); break;
    case K::Concat: r = (evalIn(e->a, m) << e->b->width) | evalIn(e->b, m); break;
    case K::ZExt: r = evalIn(e->a, m); break;
    case K::SExt: r = (u128)sx(evalIn(e->a, m), e->a->width) & maskw(e->width); break;
    case K::Ite: r = evalIn(e->a, m) ? evalIn(e->b, m) : evalIn(e->c, m); break;
    default: r = foldBin(e->k, evalIn(e->a, m), evalIn(e->b, m), e->a->width);
    }
    e->stamp = g_stamp; e->ev = r;
    return r;
}
u128 evalExpr(Expr* e, const Model& m) { evalBegin(); return evalIn(e, m); }

// ---------------------------------------------------------------- var sets
static VarSet g_emptyVS;
const VarSet* varsOf(Expr* e) {
    if (e->vs) return e->vs;
    if (e->k == K::Const) return e->vs = &g_emptyVS;
    if (e->k == K::Var) {
        auto* v = new VarSet; v->w.assign(e->aux / 64 + 1, 0); v->w[e->aux / 64] |= 1ull << (e->aux % 64);
        return e->vs = v;
    }
    const VarSet* s[3]; int n = 0;
    for (Expr* c : {e->a, e->b, e->c}) if (c) { const VarSet* x = varsOf(c); if (!x->w.empty()) s[n++] = x; }
    if (n == 0) return e->vs = &g_emptyVS;
    // reuse if one is a superset
    for (int i = 0; i < n; ++i) {
        bool sup = true;
        for (int j = 0; j < n && sup; ++j) if (j != i) {
            for (size_t q = 0; q < s[j]->w.size() && sup; ++q) { uint64_t x = q < s[i]->w.size() ? s[i]->w[q] : 0; if (s[j]->w[q] & ~x) sup = false; }
        }
        if (sup) return e->vs = s[i];
    }
    auto* v = new VarSet;
    for (int i = 0; i < n; ++i) { if (v->w.size() < s[i]->w.size()) v->w.resize(s[i]->w.size(), 0); for (size_t q = 0; q < s[i]->w.size(); ++q) v->w[q] |= s[i]->w[q]; }
    return e->vs = v;
}

std::string exprStr(Expr* e, int d) {
    static const char* nm[] = {"c","v","+","-","*","u/","s/","u%","s%","&","|","^","<<",">>u",">>s","==","u<","u<=","s<","s<=","cat","ext","zx","sx","ite"};
    char buf[64];
    if (e->k == K::Const) { snprintf(buf, sizeof buf, "%llu:%u", (unsigned long long)e->val, e->width); return buf; }
    if (e->k == K::Var) return g_vars[e->aux].name;
    if (d == 0) return "...";
    std::string s = "(" + std::string(nm[(int)e->k]);
    if (e->k == K::Extract) { snprintf(buf, sizeof buf, "[%u+%u]", e->aux, e->width); s += buf; }
    for (Expr* c : {e->a, e->b, e->c}) if (c) s += " " + exprStr(c, d - 1);
    return s + ")";
}
