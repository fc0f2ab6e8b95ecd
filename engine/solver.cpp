#include "solver.h"
#include <algorithm>
#include <chrono>
#include <cstring>
#include <map>
#include <mutex>
#include <thread>
#include <z3.h>

SolverStats g_ss;
static Z3_context C;
static Z3_solver S;
static unsigned g_uses = 0;
static unsigned g_to = 60000;

static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error %d: %s\n", e, Z3_get_error_msg(c, e)); abort(); }

static void setTimeout(unsigned) {
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), g_to);
    Z3_solver_set_params(C, S, p);
    Z3_params_dec_ref(C, p);
}
static void mkSolver() {
    S = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
    Z3_solver_inc_ref(C, S);
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), g_to);
    Z3_solver_set_params(C, S, p);
    Z3_params_dec_ref(C, p);
}
// z3's own timeout is not honoured in every phase: a second thread interrupts
static std::mutex g_wm; static double g_deadline = 0;
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void watchArm(double s) { std::lock_guard<std::mutex> l(g_wm); g_deadline = s > 0 ? nowS() + s : 0; }
static void watcher() { for (;;) { std::this_thread::sleep_for(std::chrono::milliseconds(500)); std::lock_guard<std::mutex> l(g_wm); if (g_deadline > 0 && nowS() > g_deadline) Z3_interrupt(C); } }
void solverInit(unsigned to) {
    g_to = to;
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    C = Z3_mk_context_rc(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(C, errh);
    mkSolver();
    std::thread(watcher).detach();
}
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(C, a); return a; }
static Z3_ast num(u128 v, unsigned w) {
    char buf[48]; char* p = buf + 47; *p = 0; if (!v) *--p = '0'; while (v) { *--p = '0' + (int)(v % 10); v /= 10; }
    return keep(Z3_mk_numeral(C, p, Z3_mk_bv_sort(C, w))); // kept: operands of the next constructor
}
static Z3_ast bv(Expr* e);
static Z3_ast bl(Expr* e);
static std::vector<Z3_ast> varAst; // by var idx

static Z3_ast bv(Expr* e) {
    if (e->z3bv) return (Z3_ast)e->z3bv;
    Z3_ast r;
    switch (e->k) {
    case K::Const: r = num(e->val, e->width); break;
    case K::Var: { char n[32]; snprintf(n, sizeof n, "v%u", e->aux); r = Z3_mk_const(C, Z3_mk_string_symbol(C, n), Z3_mk_bv_sort(C, e->width)); break; }
    case K::Add: r = Z3_mk_bvadd(C, bv(e->a), bv(e->b)); break;
    case K::Sub: r = Z3_mk_bvsub(C, bv(e->a), bv(e->b)); break;
    case K::Mul: r = Z3_mk_bvmul(C, bv(e->a), bv(e->b)); break;
    case K::UDiv: r = Z3_mk_bvudiv(C, bv(e->a), bv(e->b)); break;
    case K::SDiv: r = Z3_mk_bvsdiv(C, bv(e->a), bv(e->b)); break;
    case K::URem: r = Z3_mk_bvurem(C, bv(e->a), bv(e->b)); break;
    case K::SRem: r = Z3_mk_bvsrem(C, bv(e->a), bv(e->b)); break;
    case K::And: if (e->width == 1) goto viabool; r = Z3_mk_bvand(C, bv(e->a), bv(e->b)); break;
    case K::Or: if (e->width == 1) goto viabool; r = Z3_mk_bvor(C, bv(e->a), bv(e->b)); break;
    case K::Xor: if (e->width == 1) goto viabool; r = Z3_mk_bvxor(C, bv(e->a), bv(e->b)); break;
    case K::Shl: r = Z3_mk_bvshl(C, bv(e->a), bv(e->b)); break;
    case K::LShr: r = Z3_mk_bvlshr(C, bv(e->a), bv(e->b)); break;
    case K::AShr: r = Z3_mk_bvashr(C, bv(e->a), bv(e->b)); break;
    case K::Concat: r = Z3_mk_concat(C, bv(e->a), bv(e->b)); break;
    case K::Extract: r = Z3_mk_extract(C, e->aux + e->width - 1, e->aux, bv(e->a)); break;
    case K::ZExt: if (e->a->width == 1) { r = Z3_mk_ite(C, bl(e->a), num(1, e->width), num(0, e->width)); break; }
                  r = Z3_mk_zero_ext(C, e->width - e->a->width, bv(e->a)); break;
    case K::SExt: r = Z3_mk_sign_ext(C, e->width - e->a->width, bv(e->a)); break;
    case K::Ite: r = Z3_mk_ite(C, bl(e->a), bv(e->b), bv(e->c)); break;
    default:
    viabool:
        r = Z3_mk_ite(C, bl(e), num(1, 1), num(0, 1)); break;
    }
    e->z3bv = keep(r);
    return r;
}
static Z3_ast bl(Expr* e) {
    if (e->z3bool) return (Z3_ast)e->z3bool;
    Z3_ast r;
    switch (e->k) {
    case K::Const: r = e->val ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case K::Eq:
        if (e->a->width == 1) r = Z3_mk_iff(C, bl(e->a), bl(e->b));
        else r = Z3_mk_eq(C, bv(e->a), bv(e->b));
        break;
    case K::Ult: r = Z3_mk_bvult(C, bv(e->a), bv(e->b)); break;
    case K::Ule: r = Z3_mk_bvule(C, bv(e->a), bv(e->b)); break;
    case K::Slt: r = Z3_mk_bvslt(C, bv(e->a), bv(e->b)); break;
    case K::Sle: r = Z3_mk_bvsle(C, bv(e->a), bv(e->b)); break;
    case K::And: { Z3_ast t[2] = {bl(e->a), bl(e->b)}; r = Z3_mk_and(C, 2, t); break; }
    case K::Or: { Z3_ast t[2] = {bl(e->a), bl(e->b)}; r = Z3_mk_or(C, 2, t); break; }
    case K::Xor: if (isC(e->a)) { r = e->a->val ? Z3_mk_not(C, bl(e->b)) : bl(e->b); } else r = Z3_mk_xor(C, bl(e->a), bl(e->b)); break;
    case K::Ite: r = Z3_mk_ite(C, bl(e->a), bl(e->b), bl(e->c)); break;
    default: r = Z3_mk_eq(C, bv(e), num(1, 1)); break;
    }
    e->z3bool = keep(r);
    return r;
}

struct VecHash { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h = 1469598103934665603ull; for (auto x : v) { h ^= x; h *= 1099511628211ull; } return h; } };
struct CacheEnt { Sat r; std::vector<std::pair<uint32_t, uint64_t>> m; };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VecHash> g_cache;

std::string solverDump(const std::vector<Expr*>& cs) {
    Z3_solver_push(C, S);
    for (Expr* e : cs) Z3_solver_assert(C, S, bl(e));
    std::string s = Z3_solver_to_string(C, S);
    Z3_solver_pop(C, S, 1);
    return s;
}

// Over-approximation: every maximal exact sum of several terms becomes one fresh variable with the range of the sum.  Unsat of the result implies unsat of the original.
static bool isExactSum(Expr* e, int& n, int d) {
    if (d > 60) return false;
    u128 m = ~(u128)0 >> (128 - e->width);
    if (e->k == K::Add && e->a->hi <= m - e->b->hi) return isExactSum(e->a, n, d + 1) && isExactSum(e->b, n, d + 1);
    n++;
    return isC(e) || e->hi < m;
}
static std::unordered_map<Expr*, Expr*> g_absVar;
static Expr* abstracted(Expr* e, std::unordered_map<Expr*, Expr*>& memo, std::vector<Expr*>& extra) {
    if (isC(e) || e->k == K::Var) return e;
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    Expr* r = nullptr; int n = 0;
    if (e->k == K::Add && e->width == 64 && !isC(e->a) && isExactSum(e, n, 0) && n >= 2) {
        Expr*& v = g_absVar[e];
        if (!v) { v = mkVar("sum" + std::to_string(e->id), 64); }
        r = v; extra.push_back(mkNot(mkBin(K::Ult, v, mkConst(e->lo, 64)))); extra.push_back(mkNot(mkBin(K::Ult, mkConst(e->hi, 64), v)));
    } else {
        Expr* a = e->a ? abstracted(e->a, memo, extra) : nullptr; Expr* b = e->b ? abstracted(e->b, memo, extra) : nullptr; Expr* c = e->c ? abstracted(e->c, memo, extra) : nullptr;
        if (a == e->a && b == e->b && c == e->c) r = e;
        else switch (e->k) {
            case K::Extract: r = mkExtract(a, e->aux, e->width); break;
            case K::Concat: r = mkConcat(a, b); break;
            case K::ZExt: r = mkZExt(a, e->width); break;
            case K::SExt: r = mkSExt(a, e->width); break;
            case K::Ite: r = mkIte(a, b, c); break;
            default: r = mkBin(e->k, a, b);
        }
    }
    return memo[e] = r;
}
Sat solverCheck(const std::vector<Expr*>& cs0, Model& m) {
    std::vector<Expr*> cs(cs0);
    std::sort(cs.begin(), cs.end(), [](Expr* x, Expr* y) { return x->id < y->id; });
    cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    std::vector<uint32_t> key; key.reserve(cs.size());
    for (Expr* e : cs) { if (isFalse(e)) return Sat::No; key.push_back(e->id); }
    auto it = g_cache.find(key);
    if (it != g_cache.end()) {
        g_ss.cacheHits++;
        if (it->second.r == Sat::Yes) for (auto& p : it->second.m) { if (m.size() <= p.first) m.resize(p.first + 1, 0); m[p.first] = p.second; }
        return it->second.r;
    }
    {
        std::unordered_map<Expr*, Expr*> memo; std::vector<Expr*> extra, ab;
        for (Expr* e : cs) ab.push_back(abstracted(e, memo, extra));
        if (!extra.empty()) {
            ab.insert(ab.end(), extra.begin(), extra.end()); ab.erase(std::remove_if(ab.begin(), ab.end(), [](Expr* e) { return isTrue(e); }), ab.end());
            Model scratch(m); unsigned to = g_to; g_to = std::min(g_to, 2000u); setTimeout(g_to);
            Sat r = solverCheck(ab, scratch);
            g_to = to; setTimeout(g_to);
            if (r == Sat::No) { CacheEnt ent; ent.r = Sat::No; g_cache.emplace(std::move(key), std::move(ent)); return Sat::No; }
        }
    }
    auto t0 = std::chrono::steady_clock::now();
    if (++g_uses > 20000) { Z3_solver_dec_ref(C, S); mkSolver(); g_uses = 0; }
    Z3_solver_push(C, S);
    for (Expr* e : cs) Z3_solver_assert(C, S, bl(e));
    watchArm(g_to / 1000.0 + 2);
    Z3_lbool r = Z3_solver_check(C, S);
    watchArm(0);
    CacheEnt ent; ent.r = Sat::Unknown;
    if (r == Z3_L_TRUE) {
        ent.r = Sat::Yes;
        Z3_model zm = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, zm);
        std::vector<uint64_t> seen;
        for (Expr* e : cs) { const VarSet* vs = varsOf(e); if (seen.size() < vs->w.size()) seen.resize(vs->w.size(), 0); for (size_t i = 0; i < vs->w.size(); ++i) seen[i] |= vs->w[i]; }
        for (size_t i = 0; i < seen.size(); ++i) for (uint64_t b = seen[i]; b; b &= b - 1) {
            uint32_t vi = (uint32_t)(i * 64 + __builtin_ctzll(b));
            Z3_ast out; uint64_t v = 0;
            if (Z3_model_eval(C, zm, bv(g_varExprs[vi]), true, &out)) { Z3_inc_ref(C, out); Z3_get_numeral_uint64(C, out, &v); Z3_dec_ref(C, out); }
            ent.m.push_back({vi, v});
        }
        Z3_model_dec_ref(C, zm);
        g_ss.z3sat++;
    } else if (r == Z3_L_FALSE) { ent.r = Sat::No; g_ss.z3unsat++; }
    else g_ss.z3unknown++;
    Z3_solver_pop(C, S, 1);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_ss.z3calls++; g_ss.z3time += dt; g_ss.maxTime = std::max(g_ss.maxTime, dt);
    if (dt > 5 && getenv("VS_SLOWQ")) { fprintf(stderr, "slow query %.1fs\n%s\n", dt, solverDump(cs).c_str()); }
    if (ent.r == Sat::Yes) for (auto& p : ent.m) { if (m.size() <= p.first) m.resize(p.first + 1, 0); m[p.first] = p.second; }
    if (ent.r != Sat::Unknown) { if (g_cache.size() > 2000000) g_cache.clear(); Sat rr = ent.r; g_cache.emplace(std::move(key), std::move(ent)); return rr; }
    return Sat::Unknown;
}
