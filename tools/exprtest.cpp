// Differential test of the expression simplifier: every operation is also computed on concrete values.
// g++ -O1 -std=c++17 -I../engine exprtest.cpp ../engine/expr.cpp -o /tmp/exprtest && /tmp/exprtest
#include "expr.h"
#include <random>
int main() {
    std::mt19937_64 R(7); const int M = 12; size_t n = 0, bad = 0;
    for (int round = 0; round < 60000; ++round) {
        static std::vector<Expr*> vars; static std::vector<Model> models;
        if (round % 2000 == 0) {
            vars.clear(); for (int i = 0; i < 10; ++i) { unsigned ws[] = {8, 16, 32, 64, 64, 1, 32, 8, 64, 64}; Expr* v = mkVar("v", ws[i]); if (i >= 6 || i == 4) { u128 lo = R() % 10, hi = lo + R() % 20; setVarRange(v, lo, hi); } vars.push_back(v); }
            models.assign(M, Model(g_vars.size(), 0)); for (auto& m : models) for (auto* v : vars) { uint64_t x = R() % 3 ? R() : R() % 4; if (v->hi != maskw(v->width)) x = (uint64_t)v->lo + x % (uint64_t)(v->hi - v->lo + 1); if (R() % 7 == 0 && v->hi == maskw(v->width)) x = ~0ull; m[v->aux] = x & mask64(v->width); }
        }
        struct N { Expr* e; std::vector<u128> v; }; std::vector<N> p;
        for (auto* v : vars) { N x{v, {}}; for (auto& m : models) x.v.push_back(m[v->aux]); p.push_back(x); }
        for (int s = 0; s < 25; ++s) {
            N& a = p[R() % p.size()]; unsigned w = a.e->width; N r; int op = R() % 20;
            auto pick = [&](unsigned w) { N q; for (int t = 0; t < 30; ++t) { N& z = p[R() % p.size()]; if (z.e->width == w) return z; }
                static const uint64_t cs[] = {0, 1, 2, 3, 4, 7, 8, 10, 100, 1000, 255, 256, 65535, ~0ull, 1ull << 63, 0x0f0, 12345}; u128 c = cs[R() % 17] & maskw(w); q.e = mkConst(c, w); q.v.assign(M, c); return q; };
            if (op < 14 || op == 19) { N b = R() % 2 ? pick(w) : ({ N q; static const uint64_t cs[] = {0, 1, 2, 3, 4, 7, 8, 10, 100, 1000, 255, 256, 65535, ~0ull, 1ull << 63, 0x0f0, 12345}; u128 c = cs[R() % 17] & maskw(w); q.e = mkConst(c, w); q.v.assign(M, c); q; });
                K k = (K)(2 + R() % 18); if (R() % 4 == 0) k = R() % 2 ? K::Add : K::UDiv; bool sw = R() % 2; N &x = sw ? b : a, &y = sw ? a : b;
                r.e = mkBin(k, x.e, y.e); for (int i = 0; i < M; ++i) r.v.push_back(foldBin(k, x.v[i], y.v[i], w)); }
            else if (op == 14) { if (w < 2) continue; unsigned o = R() % w, l = 1 + R() % (w - o); if (R() % 2) { unsigned z[] = {8, 16, 32}; l = z[R() % 3]; o = R() % 2 ? 0 : 8; if (o + l > w) continue; } r.e = mkExtract(a.e, o, l); for (auto v : a.v) r.v.push_back((v >> o) & maskw(l)); }
            else if (op == 15) { unsigned nw = w < 64 ? 64 : w; r.e = mkZExt(a.e, nw); r.v = a.v; }
            else if (op == 16) { unsigned nw = 64; if (w >= 64) continue; r.e = mkSExt(a.e, nw); for (auto v : a.v) { u128 x = v; if ((x >> (w - 1)) & 1) x |= ~maskw(w); r.v.push_back(x & maskw(nw)); } }
            else if (op == 17) { N b = p[R() % p.size()]; if (w + b.e->width > 64) continue; r.e = mkConcat(a.e, b.e); for (int i = 0; i < M; ++i) r.v.push_back((a.v[i] << b.e->width) | b.v[i]); }
            else { N c = pick(1), b = pick(w); r.e = mkIte(c.e, a.e, b.e); for (int i = 0; i < M; ++i) r.v.push_back(c.v[i] ? a.v[i] : b.v[i]); }
            for (int i = 0; i < M; ++i) { n++; u128 g = evalExpr(r.e, models[i]); if (g != r.v[i] || g < r.e->lo || g > r.e->hi) { if (bad++ < 5) printf("BAD op %d got %llx want %llx lo %llx hi %llx %s\n", op, (unsigned long long)g, (unsigned long long)r.v[i], (unsigned long long)r.e->lo, (unsigned long long)r.e->hi, exprStr(r.e, 8).c_str()); } }
            p.push_back(r); if (p.size() > 40) p.erase(p.begin() + 10);
        }
    }
    printf("%zu comparisons, %zu bad\n", n, bad); return bad != 0;
}
