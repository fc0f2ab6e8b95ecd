// Hash-consed bit-vector expression DAG with aggressive local simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unordered_map>
#include <vector>

typedef unsigned __int128 u128;

enum class K : uint8_t {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Concat,   // a = high part, b = low part
    Extract,  // off in aux
    ZExt, SExt, Ite
};

struct VarSet { // immutable, interned per expr
    std::vector<uint64_t> w;
};

struct Expr {
    K k; uint16_t width; uint32_t aux; // aux: Extract offset, Var index
    uint32_t id;
    Expr *a, *b, *c;
    u128 val;          // Const
    uint64_t hash;
    const VarSet* vs;  // lazily computed
    uint32_t stamp; u128 ev; // evaluation memo
    uint32_t depth;
    u128 lo, hi;       // unsigned interval containing every value
    void *z3bv, *z3bool;
};

struct VarInfo { std::string name; unsigned width; };

extern std::vector<VarInfo> g_vars;
extern std::vector<Expr*> g_varExprs;
extern size_t g_numExprs;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline uint64_t mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

Expr* mkConst(u128 v, unsigned w);
Expr* mkVar(const std::string& name, unsigned w);
void setVarRange(Expr* v, u128 lo, u128 hi); // caller keeps lo <= v <= hi among the path constraints
Expr* mkBin(K k, Expr* a, Expr* b);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkExtract(Expr* e, unsigned off, unsigned w);
Expr* mkZExt(Expr* e, unsigned w);
Expr* mkSExt(Expr* e, unsigned w);
Expr* mkIte(Expr* c, Expr* t, Expr* f);
Expr* mkNot(Expr* e); // bitwise not
static inline bool isC(Expr* e) { return e->k == K::Const; }
static inline bool isTrue(Expr* e) { return e->k == K::Const && e->width == 1 && e->val == 1; }
static inline bool isFalse(Expr* e) { return e->k == K::Const && e->width == 1 && e->val == 0; }

typedef std::vector<uint64_t> Model; // by var index; missing => 0
u128 evalExpr(Expr* e, const Model& m); // bumps stamp each call
void evalBegin();
u128 evalIn(Expr* e, const Model& m);   // within one evalBegin() session
const VarSet* varsOf(Expr* e);
std::string exprStr(Expr* e, int depth = 6);
u128 foldBin(K k, u128 a, u128 b, unsigned w);
