// symex: symbolic execution of LLVM IR (LLVM 18) with z3, for C++ code compiled by clang.
#include "expr.h"
#include "memory.h"
#include "solver.h"

#include <llvm/ADT/StringExtras.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>

#include <chrono>
#include <fstream>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <sys/resource.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

using namespace llvm;
typedef uint64_t u64;

// ------------------------------------------------------------------ options
static std::string optBc, optEntry = "vs_main", optOut, optName = "h";
static double optMaxTime = 600;
static u64 optMaxSteps = 20000000, optMaxPaths = ~0ull, optMaxMem = 0;
static unsigned optSamples = 20, optSeed = 1, optMaxViol = 3, optConc = 4096, optQTimeout = 60000;
static std::vector<int64_t> optParams;
static bool optTrace = false;
static std::string optSrcPrefix = "/repo/";

// ------------------------------------------------------------------ values
struct Agg;
struct Val { uint8_t tag; union { u64 c; Expr* e; Agg* a; }; Val() : tag(0), c(0) {} };
struct Agg { std::vector<Val> v; };
static inline Val VC(u64 c) { Val v; v.tag = 0; v.c = c; return v; }
static inline Val VE(Expr* e) { Val v; if (e->k == K::Const && e->width <= 64) { v.tag = 0; v.c = (u64)e->val; } else { v.tag = 1; v.e = e; } return v; }
static inline Val VA(Agg* a) { Val v; v.tag = 2; v.a = a; return v; }
static inline Expr* X(const Val& v, unsigned w) { return v.tag == 0 ? mkConst(v.c, w) : v.e; }

// ------------------------------------------------------------------ decoded program
struct KFunc; struct KBlock;
struct Opd { int32_t reg = -1; Val c; };
struct GepIdx { Opd o; int64_t scale; unsigned w; };
struct KInst {
    unsigned op = 0;         // llvm opcode
    unsigned w = 0;          // result width
    int dst = -1;
    std::vector<Opd> ops;
    Instruction* I = nullptr;
    Type* ty = nullptr;
    bool done = false;       // ever executed
    // specific
    int64_t off = 0; std::vector<GepIdx> gi;
    KBlock *t = nullptr, *f = nullptr;
    std::vector<std::pair<u64, KBlock*>> cases;
    int handler = -1; KFunc* callee = nullptr; unsigned intr = 0;
    unsigned pred = 0; unsigned ow = 0;
    std::vector<unsigned> idx;
};
struct PhiIn { KBlock* from; Opd o; };
struct KPhi { int dst; std::vector<PhiIn> in; };
struct KBlock { KFunc* fn; std::vector<KPhi> phis; std::vector<KInst> ins; BasicBlock* bb; };
struct KFunc { Function* F; bool decoded = false; unsigned nregs = 0; std::vector<std::unique_ptr<KBlock>> blocks; std::string name; u64 addr = 0; std::vector<unsigned> argw; };

static LLVMContext Ctx;
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::unordered_map<const Function*, KFunc*> g_funcs;
static std::unordered_map<u64, KFunc*> g_funcByAddr;
static std::unordered_map<const GlobalValue*, u64> g_gaddr;
static std::unordered_map<std::string, int> g_handlerIds;

// ------------------------------------------------------------------ state
struct Frame {
    KFunc* fn; KBlock* bb; unsigned pc; std::vector<Val> regs; std::vector<u64> allocas; int retDst = -1;
    KInst* callsite = nullptr; // in the caller
    bool ignoreRet = false;
    std::vector<Val> varargs;
};
struct Input { std::string name; unsigned bytes; std::vector<Expr*> e; }; // e: per value (width 8*bytes) or per byte
struct Obs { std::string label; std::vector<Val> bytes; };
struct Exn { u64 obj, ti, dtor; int adj = 0; int handlers = 0; };
struct Known { // open addressing, memcpy-able
    std::vector<std::pair<Expr*, u64>> t; size_t n = 0;
    const u64* get(Expr* e) const { if (t.empty()) return nullptr; size_t m = t.size() - 1, i = e->hash & m; while (t[i].first) { if (t[i].first == e) return &t[i].second; i = (i + 1) & m; } return nullptr; }
    void put(Expr* e, u64 v) {
        if ((n + 1) * 2 > t.size()) { auto o = t; t.assign(std::max<size_t>(32, o.size() * 2), {nullptr, 0}); n = 0; for (auto& p : o) if (p.first) put(p.first, p.second); }
        size_t m = t.size() - 1, i = e->hash & m; while (t[i].first) { if (t[i].first == e) { t[i].second = v; return; } i = (i + 1) & m; } t[i] = {e, v}; n++;
    }
};
struct State {
    std::vector<Frame> st;
    Memory mem;
    u64 heapTop, stackTop;
    std::vector<Expr*> pc;
    Known known; std::vector<u64> fixed;
    std::shared_ptr<Model> model;
    std::vector<Input> inputs;
    std::vector<Obs> obs;
    std::vector<Exn> exns;    // live exceptions
    std::vector<u64> caught;  // caught exception stack (object addrs)
    std::vector<u64> after;   // heap objects to free after end_catch dtor (unused)
    u64 steps = 0; unsigned conc = 0; unsigned depth = 0;
    u64 nsym = 0;
    int64_t allocFailAt = -1; u64 allocCount = 0;
    std::string errInfo;
};

static std::vector<State*> g_work;
static Memory g_globalMem; static u64 g_globalTop = 0x10000;

// ------------------------------------------------------------------ results
struct Violation { std::string kind, msg, loc, replay, stack; std::vector<std::string> lines; };
static std::vector<Violation> g_viol; static std::set<std::string> g_violKeys;
static std::map<std::string, u64> g_cover; static std::map<std::string, u64> g_unsup, g_incomplete;
static u64 g_paths = 0, g_pathsAssumed = 0, g_forks = 0, g_instrs = 0, g_maxDepth = 0, g_asserts = 0, g_assertsSym = 0, g_killed = 0, g_concs = 0;
static std::vector<std::vector<std::string>> g_samples; static std::mt19937_64 g_rng;
static std::chrono::steady_clock::time_point g_t0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count(); }
static std::map<std::string, u64> g_forkSites;

struct PathEnd { int why; }; // thrown to end the current state

[[noreturn]] static void unsupported(State& S, const std::string& what);

// ------------------------------------------------------------------ helpers: source location
static std::string locOf(const Instruction* I) {
    if (!I) return "?";
    const DebugLoc& d = I->getDebugLoc();
    std::string s;
    if (d) {
        auto* sc = d->getScope();
        s = (sc ? sc->getFilename().str() : std::string("?")) + ":" + std::to_string(d.getLine());
        if (sc && sc->getSubprogram()) s += " (" + sc->getSubprogram()->getName().str() + ")";
    } else s = I->getFunction()->getName().str();
    return s;
}
static std::string stackOf(State& S) {
    std::string r; int n = 0;
    for (auto it = S.st.rbegin(); it != S.st.rend() && n < 12; ++it, ++n) {
        Instruction* I = it->pc < it->bb->ins.size() ? it->bb->ins[it->pc].I : nullptr;
        if (n) r += " <- ";
        r += locOf(I);
        if (I && I->getDebugLoc()) { auto* ia = I->getDebugLoc()->getInlinedAt(); int k = 0; while (ia && k++ < 8) { r += " <- " + ia->getFilename().str() + ":" + std::to_string(ia->getLine()) + (ia->getScope() && ia->getScope()->getSubprogram() ? " (" + ia->getScope()->getSubprogram()->getName().str() + ")" : ""); ia = ia->getInlinedAt(); } }
    }
    return r;
}

// ------------------------------------------------------------------ constraints & solver
// e has been fixed to one value: when e is an injective function of one variable, so is that variable
static void fixVars(State& S, Expr* e) {
    for (;;) {
        if (e->k == K::ZExt || e->k == K::SExt) { e = e->a; continue; }
        if ((e->k == K::Add || e->k == K::Xor || e->k == K::Sub) && isC(e->a)) { e = e->b; continue; }
        if ((e->k == K::Add || e->k == K::Xor || e->k == K::Sub) && isC(e->b)) { e = e->a; continue; }
        if (e->k == K::Concat) { fixVars(S, e->a); e = e->b; continue; }
        break;
    }
    if (e->k != K::Var) return;
    const auto& w = varsOf(e)->w;
    if (S.fixed.size() < w.size()) S.fixed.resize(w.size(), 0);
    for (size_t i = 0; i < w.size(); ++i) S.fixed[i] |= w[i];
}
static inline bool allFixed(const State& S, Expr* e) {
    if (S.fixed.empty()) return false;
    const auto& w = varsOf(e)->w;
    for (size_t i = 0; i < w.size(); ++i) if (w[i] & ~(i < S.fixed.size() ? S.fixed[i] : 0)) return false;
    return true;
}
static void addConstraint(State& S, Expr* c) {
    if (isTrue(c)) return;
    if (c->k == K::And && c->width == 1) { addConstraint(S, c->a); addConstraint(S, c->b); return; }
    if (c->k == K::Xor && c->width == 1 && isC(c->a) && c->b->k == K::Or) { addConstraint(S, mkNot(c->b->a)); addConstraint(S, mkNot(c->b->b)); return; }
    if (auto k = S.known.get(c)) { if (*k == 1) return; }
    S.pc.push_back(c);
    S.known.put(c, 1); S.known.put(mkNot(c), 0);
    if (c->k == K::Eq && isC(c->a) && c->b->width <= 64) { S.known.put(c->b, (u64)c->a->val); fixVars(S, c->b); }
}
static inline bool vsIntersect(const std::vector<u64>& a, const std::vector<u64>& b) { size_t n = std::min(a.size(), b.size()); for (size_t i = 0; i < n; ++i) if (a[i] & b[i]) return true; return false; }
static std::vector<Expr*> slice(State& S, Expr* q) {
    std::vector<Expr*> out; std::vector<u64> vs = varsOf(q)->w;
    std::vector<char> used(S.pc.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < S.pc.size(); ++i) if (!used[i]) {
            const auto& w = varsOf(S.pc[i])->w;
            if (vsIntersect(w, vs)) { used[i] = 1; out.push_back(S.pc[i]); bool grew = false; if (vs.size() < w.size()) vs.resize(w.size(), 0); for (size_t k = 0; k < w.size(); ++k) { if (w[k] & ~vs[k]) grew = true; vs[k] |= w[k]; } if (grew) ch = true; }
        }
    }
    out.push_back(q);
    return out;
}
// can q (width 1) be true in S?  On Yes, m = complete model of pc && q
static Sat mayBeTrue(State& S, Expr* q, std::shared_ptr<Model>* m) {
    if (getenv("VS_DUMPQ")) fprintf(stderr, "QUERY %s\n", exprStr(q, 14).substr(0, 2500).c_str());
    if (isTrue(q)) { if (m) *m = S.model; return Sat::Yes; }
    if (isFalse(q)) return Sat::No;
    if (auto k = S.known.get(q)) { if (*k == 0) return Sat::No; if (m) *m = S.model; return Sat::Yes; }
    if (allFixed(S, q)) { if (!evalExpr(q, *S.model)) return Sat::No; if (m) *m = S.model; return Sat::Yes; }
    g_ss.queries++;
    if (evalExpr(q, *S.model)) { g_ss.modelHits++; if (m) *m = S.model; return Sat::Yes; }
    auto cs = slice(S, q);
    auto nm = std::make_shared<Model>(*S.model);
    Sat r = solverCheck(cs, *nm);
    if (r == Sat::Yes && m) *m = nm;
    return r;
}

static State* forkState(State& S) {
    State* n = new State(S);
    g_forks++; n->depth = S.depth + 1;
    if (n->depth > g_maxDepth) g_maxDepth = n->depth;
    if (optTrace) { Frame& f = S.st.back(); g_forkSites[locOf(f.bb->ins[f.pc].I)]++; }
    return n;
}
static void push(State* n) { g_work.push_back(n); }
static void noteUnknown(State& S, const char* what) { g_incomplete[std::string("solver gave no answer: ") + what]++; }

// substitute known facts (shallow)
static inline Expr* applyKnown(State& S, Expr* e) {
    if (e->width > 64 || isC(e)) return e;
    if (auto k = S.known.get(e)) return mkConst(*k, e->width);
    if (allFixed(S, e)) return mkConst((u64)evalExpr(e, *S.model), e->width);
    return e;
}

// decide a condition, forking.  Returns the truth value for the current state; onOther(state) prepares the forked one.
static bool decide(State& S, Expr* c, const std::function<void(State&)>& onOther) {
    c = applyKnown(S, c);
    if (isC(c)) return c->val != 0;
    bool cur = evalExpr(c, *S.model) != 0;
    Expr* mine = cur ? c : mkNot(c); Expr* other = cur ? mkNot(c) : c;
    std::shared_ptr<Model> m2;
    Sat r = mayBeTrue(S, other, &m2);
    if (r == Sat::Yes) {
        State* n = forkState(S);
        n->model = m2; addConstraint(*n, other);
        onOther(*n);
        push(n);
        addConstraint(S, mine);
    } else if (r == Sat::Unknown) {
        noteUnknown(S, "branch");
        addConstraint(S, mine);
    } else {
        S.known.put(mine, 1); S.known.put(other, 0);
    }
    return cur;
}
// if-then-else without forking; the condition is resolved when the path already decides it (wide results only: the others are cheap for the solver)
static Expr* chooseIte(State& S, Expr* c, Expr* a, Expr* b) {
    c = applyKnown(S, c);
    if (!isC(c) && a != b && a->width == 64) {
        bool cur = evalExpr(c, *S.model) != 0; Expr* other = cur ? mkNot(c) : c;
        if (mayBeTrue(S, other, nullptr) == Sat::No) { S.known.put(other, 0); S.known.put(mkNot(other), 1); return cur ? a : b; }
    }
    return mkIte(c, a, b);
}
// make e concrete, forking over every feasible value.  The forked state re-executes the current instruction.
static u64 concretize(State& S, const Val& v, unsigned w) {
    if (v.tag == 0) return v.c;
    Expr* e = applyKnown(S, v.e);
    if (isC(e)) return (u64)e->val;
    u64 val = (u64)evalExpr(e, *S.model);
    Expr* eq = mkBin(K::Eq, mkConst(val, w), e);
    std::shared_ptr<Model> m2;
    Sat r = mayBeTrue(S, mkNot(eq), &m2);
    if (r == Sat::Yes) {
        if (S.conc >= optConc) { g_incomplete["concretisation limit at " + locOf(S.st.back().bb->ins[S.st.back().pc].I)]++; }
        else {
            State* n = forkState(S); g_concs++;
            n->model = m2; n->conc++;
            addConstraint(*n, mkNot(eq));
            push(n);
        }
    } else if (r == Sat::Unknown) noteUnknown(S, "concretisation");
    addConstraint(S, eq);
    S.known.put(e, val);
    return val;
}

// ------------------------------------------------------------------ replay records
static std::string hexBytes(const std::vector<uint8_t>& b) { static const char* d = "0123456789abcdef"; std::string s; for (auto x : b) { s += d[x >> 4]; s += d[x & 15]; } return s; }
static std::vector<std::string> recordOf(State& S, const Model& m, bool withObs) {
    std::vector<std::string> L;
    evalBegin();
    for (size_t i = 0; i < optParams.size(); ++i) L.push_back("P " + std::to_string(i) + " " + std::to_string(optParams[i]));
    for (auto& in : S.inputs) {
        std::vector<uint8_t> b;
        if (in.e.size() == 1 && in.e[0]->width != 8) { u64 v = (u64)evalIn(in.e[0], m); for (unsigned i = 0; i < in.bytes; ++i) b.push_back((uint8_t)(v >> (8 * i))); }
        else for (auto* e : in.e) b.push_back((uint8_t)evalIn(e, m));
        L.push_back("I " + in.name + " " + std::to_string(in.bytes) + " " + (b.empty() ? "-" : hexBytes(b)));
    }
    if (withObs) for (auto& o : S.obs) {
        std::vector<uint8_t> b;
        for (auto& v : o.bytes) b.push_back(v.tag == 0 ? (uint8_t)v.c : (uint8_t)evalIn(v.e, m));
        L.push_back("O " + o.label + " " + (b.empty() ? "-" : hexBytes(b)));
    }
    return L;
}
static bool completeModel(State& S, Model& m) { // S.model satisfies pc by construction
    m = *S.model; return true;
}
static void violation(State& S, const std::string& kind, const std::string& msg, const Model& m) {
    Frame* f = S.st.empty() ? nullptr : &S.st.back();
    std::string loc = f && f->pc < f->bb->ins.size() ? locOf(f->bb->ins[f->pc].I) : "?";
    std::string key = kind + "|" + msg + "|" + loc;
    if (!g_violKeys.insert(key).second) return;
    Violation v; v.kind = kind; v.msg = msg; v.loc = loc; v.stack = S.st.empty() ? "" : stackOf(S); v.lines = recordOf(S, m, false);
    g_viol.push_back(v);
    fprintf(stderr, "[%s] VIOL %s: %s at %s\n   stack: %s\n", optName.c_str(), kind.c_str(), msg.c_str(), loc.c_str(), v.stack.c_str());
}
[[noreturn]] static void fail(State& S, const std::string& kind, const std::string& msg) { violation(S, kind, msg, *S.model); throw PathEnd{2}; }
[[noreturn]] static void unsupported(State& S, const std::string& what) { if (g_unsup[what]++ == 0) fprintf(stderr, "[%s] UNSUPPORTED %s\n  stack: %s\n", optName.c_str(), what.c_str(), S.st.empty() ? "" : stackOf(S).c_str()); throw PathEnd{3}; }

// ------------------------------------------------------------------ memory access
static u64 g_objid = 0;
static u64 allocObj(State& S, u64 size, u64 align, ObjKind k, bool zero, const char* name) {
    u64& top = (k == OK_STACK) ? S.stackTop : S.heapTop;
    if (align < 16) align = 16;
    top = (top + align - 1) & ~(align - 1);
    u64 base = top;
    top += size + 48;
    Obj* o = new Obj(base, size, k, zero); o->name = name; o->id = (uint32_t)++g_objid;
    S.mem.add(o);
    return base;
}
static std::string hex(u64 v) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)v); return b; }
static Obj* resolve(State& S, u64 addr, u64 n, const char* what) {
    Obj* o = S.mem.find(addr);
    if (!o || addr + n > o->base + o->size || addr + n < addr) {
        std::string d;
        if (addr < 4096) d = "null pointer";
        else if (o) d = "past the end of " + std::string(o->kind == OK_HEAP ? "heap" : o->kind == OK_STACK ? "stack" : "global") + " object of " + std::to_string(o->size) + " bytes";
        else d = "outside every live object";
        fail(S, "memory", std::string("invalid ") + what + " of " + std::to_string(n) + " bytes: " + d);
    }
    return o;
}
static Expr* byteExpr(State& S, Obj*& o, u64 off) {
    const Chunk* c = o->rd(off);
    if (!c) { if (o->zero) return mkConst(0, 8); }
    else { unsigned i = off % CH; if (c->st[i] == B_CONC) return mkConst(c->data[i], 8); if (c->st[i] == B_SYM) return c->sym[i]; }
    // uninitialised: arbitrary but stable value
    Expr* v = mkVar("uninit", 8);
    Obj* w = S.mem.writable(o); o = w;
    Chunk* k = w->wr(off); unsigned i = off % CH;
    if (!k->sym) k->sym = new Expr*[CH]();
    k->sym[i] = v; k->st[i] = B_SYM;
    return v;
}
static Expr* loadBytes(State& S, Obj* o, u64 off, unsigned n) {
    Expr* e = byteExpr(S, o, off);
    for (unsigned i = 1; i < n; ++i) e = mkConcat(byteExpr(S, o, off + i), e);
    return e;
}
static Val loadInt(State& S, u64 addr, unsigned w) {
    unsigned n = (w + 7) / 8;
    Obj* o = resolve(S, addr, n, "read");
    if (o->kind == OK_FUNC) fail(S, "memory", "read from code");
    u64 off = addr - o->base;
    if (n <= 8 && off % CH + n <= CH) {
        const Chunk* c = o->rd(off);
        if (c) {
            unsigned i = off % CH; u64 st = 0, d = 0;
            memcpy(&st, c->st + i, n); memcpy(&d, c->data + i, n);
            if (st == (0x0101010101010101ull & mask64(8 * n))) return VC(d & mask64(w));
        } else if (o->zero) return VC(0);
    }
    Expr* e = loadBytes(S, o, off, n);
    if (w % 8) e = mkExtract(e, 0, w);
    if (w <= 64) e = applyKnown(S, e);
    return VE(e);
}
static void storeInt(State& S, u64 addr, const Val& v, unsigned w) {
    unsigned n = (w + 7) / 8;
    Obj* o = resolve(S, addr, n, "write");
    if (o->readonly || o->kind == OK_FUNC) fail(S, "memory", "write to read-only memory");
    o = S.mem.writable(o);
    u64 off = addr - o->base;
    if (v.tag == 0 && n <= 8) {
        u64 d = v.c & mask64(w);
        for (unsigned i = 0; i < n;) {
            Chunk* c = o->wr(off + i); unsigned p = (off + i) % CH, k = std::min<unsigned>(n - i, CH - p);
            u64 t = d >> (8 * i);
            memcpy(c->data + p, &t, k); memset(c->st + p, B_CONC, k);
            i += k;
        }
        return;
    }
    Expr* e = v.tag == 0 ? mkConst(v.c, w) : v.e;
    if (w % 8) e = mkZExt(e, n * 8);
    for (unsigned i = 0; i < n; ++i) {
        Expr* b = mkExtract(e, 8 * i, 8);
        Chunk* c = o->wr(off + i); unsigned p = (off + i) % CH;
        if (isC(b)) { c->data[p] = (uint8_t)b->val; c->st[p] = B_CONC; }
        else { if (!c->sym) c->sym = new Expr*[CH](); c->sym[p] = b; c->st[p] = B_SYM; }
    }
}
static unsigned widthOf(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    return 0;
}
static bool isAggTy(Type* t) { return t->isStructTy() || t->isArrayTy() || isa<FixedVectorType>(t); }
static unsigned aggN(Type* t) { if (auto* s = dyn_cast<StructType>(t)) return s->getNumElements(); if (auto* a = dyn_cast<ArrayType>(t)) return (unsigned)a->getNumElements(); return cast<FixedVectorType>(t)->getNumElements(); }
static Type* aggT(Type* t, unsigned i) { if (auto* s = dyn_cast<StructType>(t)) return s->getElementType(i); if (auto* a = dyn_cast<ArrayType>(t)) return a->getElementType(); return cast<FixedVectorType>(t)->getElementType(); }
static u64 aggOff(Type* t, unsigned i) {
    if (auto* s = dyn_cast<StructType>(t)) return DL->getStructLayout(s)->getElementOffset(i);
    return (u64)i * DL->getTypeAllocSize(aggT(t, i));
}
static Val loadTy(State& S, u64 addr, Type* t) {
    if (isAggTy(t)) { auto* a = new Agg; unsigned n = aggN(t); for (unsigned i = 0; i < n; ++i) a->v.push_back(loadTy(S, addr + aggOff(t, i), aggT(t, i))); return VA(a); }
    unsigned w = widthOf(t); if (!w) unsupported(S, "load type");
    return loadInt(S, addr, w);
}
static void storeTy(State& S, u64 addr, const Val& v, Type* t) {
    if (isAggTy(t)) { unsigned n = aggN(t); for (unsigned i = 0; i < n; ++i) storeTy(S, addr + aggOff(t, i), v.tag == 2 ? v.a->v[i] : VC(0), aggT(t, i)); return; }
    unsigned w = widthOf(t); if (!w) unsupported(S, "store type");
    storeInt(S, addr, v, w);
}
static void copyBytes(State& S, u64 d, u64 s, u64 n) {
    if (!n) return;
    if (n > (1u << 26)) { if (n > (1ull << 40)) { resolve(S, s, n, "read (memcpy)"); } unsupported(S, "huge memcpy"); }
    Obj* so = resolve(S, s, n, "read (memcpy)");
    Obj* dop = resolve(S, d, n, "write (memcpy)");
    if (dop->readonly) fail(S, "memory", "write to read-only memory");
    // snapshot the source first (handles overlap)
    std::vector<uint8_t> data(n), st(n); std::vector<Expr*> sym; bool anySym = false;
    for (u64 i = 0; i < n;) {
        u64 off = s - so->base + i; unsigned p = off % CH; unsigned k = (unsigned)std::min<u64>(n - i, CH - p);
        const Chunk* c = so->rd(off);
        if (!c) { memset(&data[i], 0, k); memset(&st[i], so->zero ? B_CONC : B_UNINIT, k); }
        else {
            memcpy(&data[i], c->data + p, k); memcpy(&st[i], c->st + p, k);
            if (c->sym) for (unsigned q = 0; q < k; ++q) if (c->st[p + q] == B_SYM) { if (!anySym) { sym.assign(n, nullptr); anySym = true; } sym[i + q] = c->sym[p + q]; }
        }
        i += k;
    }
    Obj* o = S.mem.writable(S.mem.find(d));
    for (u64 i = 0; i < n;) {
        u64 off = d - o->base + i; unsigned p = off % CH; unsigned k = (unsigned)std::min<u64>(n - i, CH - p);
        Chunk* c = o->wr(off);
        memcpy(c->data + p, &data[i], k); memcpy(c->st + p, &st[i], k);
        if (anySym) for (unsigned q = 0; q < k; ++q) if (st[i + q] == B_SYM) { if (!c->sym) c->sym = new Expr*[CH](); c->sym[p + q] = sym[i + q]; }
        i += k;
    }
}
static void setBytes(State& S, u64 d, const Val& v, u64 n) {
    if (!n) return;
    if (n > (1u << 26)) { resolve(S, d, n, "write (memset)"); unsupported(S, "huge memset"); }
    Obj* o = resolve(S, d, n, "write (memset)");
    if (o->readonly) fail(S, "memory", "write to read-only memory");
    o = S.mem.writable(o);
    Expr* e = v.tag ? mkExtract(v.e, 0, 8) : nullptr; if (e && isC(e)) e = nullptr;
    for (u64 i = 0; i < n; ++i) {
        u64 off = d - o->base + i; Chunk* c = o->wr(off); unsigned p = off % CH;
        if (!e) { c->data[p] = (uint8_t)(v.tag ? (u64)mkExtract(v.e, 0, 8)->val : v.c); c->st[p] = B_CONC; }
        else { if (!c->sym) c->sym = new Expr*[CH](); c->sym[p] = e; c->st[p] = B_SYM; }
    }
}
// resolve a possibly symbolic address; the result is concrete, other feasible values are forked
static u64 concAddr(State& S, const Val& v, u64 n, const char* what) {
    if (v.tag == 0) return v.c;
    Expr* e = applyKnown(S, v.e);
    if (isC(e)) return (u64)e->val;
    u64 a = (u64)evalExpr(e, *S.model);
    Obj* o = S.mem.find(a);
    if (!o || a + n > o->base + o->size) { resolve(S, a, n, what); } // fails with the model as witness
    // can it leave the object?
    Expr* in = mkBin(K::Ule, mkBin(K::Sub, e, mkConst(o->base, 64)), mkConst(o->size - n, 64));
    std::shared_ptr<Model> m2;
    Sat r = mayBeTrue(S, mkNot(in), &m2);
    if (r == Sat::Yes) {
        State* k = forkState(S); k->model = m2; addConstraint(*k, mkNot(in)); push(k);
        addConstraint(S, in);
    }
    else if (r == Sat::Unknown) noteUnknown(S, "address");
    return concretize(S, v, 64);
}
// read of a constant table at an offset that depends on few variables of small range: a decision diagram over those variables
static Expr* tableByVars(State& S, Expr* offE, Obj* o, u64 n, unsigned w) {
    std::vector<Expr*> vs; u64 dom = 1;
    const VarSet* st = varsOf(offE);
    for (size_t q = 0; q < st->w.size(); ++q) for (u64 b = st->w[q]; b; b &= b - 1) { Expr* v = g_varExprs[q * 64 + __builtin_ctzll(b)]; vs.push_back(v); u128 r = v->hi - v->lo; if (r >= 8192 || vs.size() > 6) return nullptr; dom *= (u64)r + 1; if (dom > 8192) return nullptr; }
    Model m(g_vars.size(), 0);
    std::function<Expr*(size_t)> go = [&](size_t i) -> Expr* {
        if (i == vs.size()) { u64 off = (u64)evalExpr(offE, m); if (off + n > o->size || off + n < off) return mkConst(0, w); return X(loadInt(S, o->base + off, w), w); } // out of bounds was excluded before
        Expr* r = nullptr; Expr* v = vs[i];
        for (u64 x = (u64)v->lo;; ++x) { m[v->aux] = x; Expr* t = go(i + 1); r = r ? mkIte(mkBin(K::Eq, mkConst(x, v->width), v), t, r) : t; if (x == (u64)v->hi) break; }
        return r;
    };
    return go(0);
}
static const char* cstr(State& S, u64 a, std::string& buf) {
    buf.clear();
    for (int i = 0; i < 4000; ++i) { Val v = loadInt(S, a + i, 8); if (v.tag) { buf += '?'; continue; } if (!v.c) break; buf += (char)v.c; }
    return buf.c_str();
}

// ------------------------------------------------------------------ constants
static u64 gaddr(const GlobalValue* g);
static Val constVal(const Constant* c);
static u64 constInt(const Constant* c) { Val v = constVal(c); if (v.tag == 1 && isC(v.e)) return (u64)v.e->val; if (v.tag) { errs() << *c << "\n"; report_fatal_error("non-integer constant"); } return v.c; }
static Val constVal(const Constant* c) {
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() <= 64) return VC(ci->getZExtValue());
        u128 v = ((u128)ci->getValue().getRawData()[1] << 64) | ci->getValue().getRawData()[0];
        Val r; r.tag = 1; r.e = mkConst(v, ci->getBitWidth()); return r;
    }
    if (isa<ConstantPointerNull>(c)) return VC(0);
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        if (isAggTy(t)) { auto* a = new Agg; for (unsigned i = 0; i < aggN(t); ++i) a->v.push_back(constVal(Constant::getNullValue(aggT(t, i)))); return VA(a); }
        unsigned w = widthOf(t); if (w > 64) { Val r; r.tag = 1; r.e = mkConst(0, w); return r; }
        return VC(0);
    }
    if (auto* g = dyn_cast<GlobalValue>(c)) return VC(gaddr(g));
    if (auto* f = dyn_cast<ConstantFP>(c)) return VC(f->getValueAPF().bitcastToAPInt().getZExtValue());
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) { auto* a = new Agg; for (unsigned i = 0; i < ca->getNumOperands(); ++i) a->v.push_back(constVal(ca->getOperand(i))); return VA(a); }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { auto* a = new Agg; for (unsigned i = 0; i < cd->getNumElements(); ++i) a->v.push_back(constVal(cd->getElementAsConstant(i))); return VA(a); }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        unsigned w = widthOf(t);
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) report_fatal_error("const gep"); return VC(constInt(ce->getOperand(0)) + off.getSExtValue()); }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Trunc: return VC(constInt(ce->getOperand(0)) & mask64(w));
        case Instruction::Add: return VC((constInt(ce->getOperand(0)) + constInt(ce->getOperand(1))) & mask64(w));
        case Instruction::Sub: return VC((constInt(ce->getOperand(0)) - constInt(ce->getOperand(1))) & mask64(w));
        case Instruction::And: return VC(constInt(ce->getOperand(0)) & constInt(ce->getOperand(1)));
        case Instruction::Xor: return VC(constInt(ce->getOperand(0)) ^ constInt(ce->getOperand(1)));
        case Instruction::Shl: return VC((constInt(ce->getOperand(0)) << constInt(ce->getOperand(1))) & mask64(w));
        case Instruction::ICmp: { u64 a = constInt(ce->getOperand(0)), b = constInt(ce->getOperand(1)); switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return VC(a == b); case CmpInst::ICMP_NE: return VC(a != b); case CmpInst::ICMP_ULT: return VC(a < b); case CmpInst::ICMP_UGT: return VC(a > b); default: break; } break; }
        default: break;
        }
        errs() << *ce << "\n"; report_fatal_error("unsupported constant expression");
    }
    if (auto* na = dyn_cast<NoCFIValue>(c)) return VC(gaddr(na->getGlobalValue()));
    errs() << *c << "\n"; report_fatal_error("unsupported constant");
}

static u64 newGlobal(u64 size, u64 align, ObjKind k, const char* name, Obj** out) {
    if (align < 16) align = 16;
    g_globalTop = (g_globalTop + align - 1) & ~(align - 1);
    u64 b = g_globalTop; g_globalTop += size + 64;
    Obj* o = new Obj(b, size, k, true); o->name = name;
    g_globalMem.add(o); if (out) *out = o;
    return b;
}
static u64 gaddr(const GlobalValue* g) {
    auto it = g_gaddr.find(g);
    if (it != g_gaddr.end()) return it->second;
    if (auto* a = dyn_cast<GlobalAlias>(g)) { u64 v = constInt(a->getAliasee()); g_gaddr[g] = v; return v; }
    if (auto* f = dyn_cast<Function>(g)) {
        u64 a = newGlobal(16, 16, OK_FUNC, "fn", nullptr);
        g_gaddr[g] = a;
        auto* kf = new KFunc; kf->F = const_cast<Function*>(f); kf->name = f->getName().str(); kf->addr = a;
        g_funcs[f] = kf; g_funcByAddr[a] = kf;
        return a;
    }
    auto* v = cast<GlobalVariable>(g);
    u64 sz = v->getValueType()->isSized() ? (u64)DL->getTypeAllocSize(v->getValueType()) : 0;
    if (v->isDeclaration() && sz < 512) sz = 512; // external data (libstdc++ vtables, streams): opaque zeroes
    u64 a = newGlobal(sz, v->getAlign() ? v->getAlign()->value() : 16, OK_GLOBAL, v->getName().str().c_str(), nullptr);
    g_gaddr[g] = a;
    return a;
}
static void initGlobalMem(State& S, u64 addr, const Constant* c) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        unsigned es = cd->getElementByteSize();
        for (unsigned i = 0; i < cd->getNumElements(); ++i) storeInt(S, addr + (u64)i * es, constVal(cd->getElementAsConstant(i)), es * 8);
        return;
    }
    if (isAggTy(t)) { for (unsigned i = 0; i < c->getNumOperands(); ++i) initGlobalMem(S, addr + aggOff(t, i), cast<Constant>(c->getOperand(i))); return; }
    storeInt(S, addr, constVal(c), widthOf(t));
}

// ------------------------------------------------------------------ decoding
static int handlerFor(const std::string& n);
static KFunc* kfuncOf(Function* F) { gaddr(F); return g_funcs[F]; }

static void decode(KFunc* kf) {
    kf->decoded = true;
    Function* F = kf->F;
    std::unordered_map<const Value*, int> reg; std::unordered_map<const BasicBlock*, KBlock*> bm;
    int n = 0;
    for (auto& a : F->args()) reg[&a] = n++;
    for (auto& bb : *F) { auto kb = std::make_unique<KBlock>(); kb->fn = kf; kb->bb = &bb; bm[&bb] = kb.get(); kf->blocks.push_back(std::move(kb)); for (auto& I : bb) if (!I.getType()->isVoidTy()) reg[&I] = n++; }
    kf->nregs = n;
    auto opd = [&](Value* v) -> Opd { Opd o; if (auto* c = dyn_cast<Constant>(v)) { o.c = constVal(c); return o; } if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return o; auto it = reg.find(v); if (it == reg.end()) report_fatal_error("operand"); o.reg = it->second; return o; };
    for (auto& bb : *F) {
        KBlock* kb = bm[&bb];
        for (auto& I : bb) {
            if (auto* phi = dyn_cast<PHINode>(&I)) { KPhi p; p.dst = reg[&I]; for (unsigned i = 0; i < phi->getNumIncomingValues(); ++i) p.in.push_back({bm[phi->getIncomingBlock(i)], opd(phi->getIncomingValue(i))}); kb->phis.push_back(p); continue; }
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            KInst k; k.I = &I; k.op = I.getOpcode(); k.ty = I.getType(); k.w = I.getType()->isVoidTy() ? 0 : widthOf(I.getType());
            if (!I.getType()->isVoidTy()) k.dst = reg[&I];
            switch (I.getOpcode()) {
            case Instruction::GetElementPtr: {
                auto* g = cast<GetElementPtrInst>(&I);
                k.ops.push_back(opd(g->getPointerOperand()));
                for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                    Value* ix = it.getOperand();
                    if (auto* st = it.getStructTypeOrNull()) k.off += DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(ix)->getZExtValue());
                    else { int64_t sc = (int64_t)DL->getTypeAllocSize(it.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(ix)) k.off += ci->getSExtValue() * sc; else k.gi.push_back({opd(ix), sc, widthOf(ix->getType())}); }
                }
                break;
            }
            case Instruction::Br: { auto* b = cast<BranchInst>(&I); k.t = bm[b->getSuccessor(0)]; if (b->isConditional()) { k.ops.push_back(opd(b->getCondition())); k.f = bm[b->getSuccessor(1)]; } break; }
            case Instruction::Switch: { auto* s = cast<SwitchInst>(&I); k.ops.push_back(opd(s->getCondition())); k.ow = widthOf(s->getCondition()->getType()); k.f = bm[s->getDefaultDest()]; for (auto& c : s->cases()) k.cases.push_back({c.getCaseValue()->getZExtValue(), bm[c.getCaseSuccessor()]}); break; }
            case Instruction::Invoke: case Instruction::Call: {
                auto* cb = cast<CallBase>(&I);
                for (auto& a : cb->args()) k.ops.push_back(opd(a));
                Value* cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
                if (auto* cf = dyn_cast<Function>(cv)) {
                    if (cf->isIntrinsic()) k.intr = cf->getIntrinsicID();
                    else {
                        // link-time wrapping (-Wl,--wrap=X): X -> __wrap_X, __real_X -> X
                        std::string nm = cf->getName().str();
                        if (nm.compare(0, 7, "__real_") == 0) nm = nm.substr(7);
                        else if (Function* wf = M->getFunction("__wrap_" + nm)) if (!wf->isDeclaration()) { cf = wf; nm = "__wrap_" + nm; }
                        k.handler = handlerFor(nm); k.callee = kfuncOf(cf);
                    }
                } else if (isa<InlineAsm>(cv)) { k.handler = -3; }
                else { k.handler = -2; k.ops.push_back(opd(cv)); }
                if (auto* iv = dyn_cast<InvokeInst>(&I)) { k.t = bm[iv->getNormalDest()]; k.f = bm[iv->getUnwindDest()]; }
                break;
            }
            case Instruction::ICmp: case Instruction::FCmp: k.pred = cast<CmpInst>(&I)->getPredicate(); k.ow = widthOf(I.getOperand(0)->getType()); k.ops = {opd(I.getOperand(0)), opd(I.getOperand(1))}; break;
            case Instruction::ExtractValue: for (auto i : cast<ExtractValueInst>(&I)->indices()) k.idx.push_back(i); k.ops = {opd(I.getOperand(0))}; break;
            case Instruction::InsertValue: for (auto i : cast<InsertValueInst>(&I)->indices()) k.idx.push_back(i); k.ops = {opd(I.getOperand(0)), opd(I.getOperand(1))}; break;
            case Instruction::LandingPad: break;
            default: for (auto& o : I.operands()) k.ops.push_back(opd(o)); if (I.getNumOperands()) k.ow = widthOf(I.getOperand(0)->getType()); break;
            }
            kb->ins.push_back(std::move(k));
        }
    }
}

// ------------------------------------------------------------------ execution
static inline Val rd(State& S, const Opd& o) { return o.reg >= 0 ? S.st.back().regs[o.reg] : o.c; }
static inline void setReg(State& S, const KInst& k, const Val& v) { if (k.dst >= 0) S.st.back().regs[k.dst] = v; }

static void jump(State& S, KBlock* to) {
    Frame& f = S.st.back(); KBlock* from = f.bb;
    if (!to->phis.empty()) {
        static std::vector<Val> tmp; tmp.clear();
        for (auto& p : to->phis) { bool ok = false; for (auto& in : p.in) if (in.from == from) { tmp.push_back(in.o.reg >= 0 ? f.regs[in.o.reg] : in.o.c); ok = true; break; } if (!ok) report_fatal_error("phi"); }
        for (size_t i = 0; i < to->phis.size(); ++i) f.regs[to->phis[i].dst] = tmp[i];
    }
    f.bb = to; f.pc = 0;
}
static void pushCall(State& S, KFunc* kf, const std::vector<Val>& args, KInst* cs) {
    if (!kf->decoded) decode(kf);
    if (S.st.size() > 2000) fail(S, "hang", "call stack depth exceeds 2000");
    Frame f; f.fn = kf; f.bb = kf->blocks[0].get(); f.pc = 0; f.regs.resize(kf->nregs); f.callsite = cs;
    unsigned i = 0; unsigned na = (unsigned)kf->F->arg_size();
    for (; i < args.size() && i < na; ++i) {
        f.regs[i] = args[i];
        if (kf->F->hasParamAttribute(i, Attribute::ByVal)) { // caller-side copy
            Type* t = kf->F->getParamByValType(i); u64 sz = DL->getTypeAllocSize(t);
            u64 a = allocObj(S, sz, 16, OK_STACK, false, "byval"); copyBytes(S, a, args[i].c, sz); f.regs[i] = VC(a); f.allocas.push_back(a);
        }
    }
    for (; i < args.size(); ++i) f.varargs.push_back(args[i]);
    S.st.push_back(std::move(f));
}
static void advance(State& S) { S.st.back().pc++; S.conc = 0; }
// after a call-like instruction completed with a value
static void finishCall(State& S, KInst& k, const Val& v) {
    setReg(S, k, v);
    if (k.op == Instruction::Invoke) { jump(S, k.t); S.conc = 0; } else advance(S);
}
static void popFrame(State& S) { for (u64 a : S.st.back().allocas) S.mem.del(a); S.st.pop_back(); }

// --- exceptions
static std::unordered_map<u64, int> g_typeIds;
static int typeId(u64 ti) { auto it = g_typeIds.find(ti); if (it != g_typeIds.end()) return it->second; int n = (int)g_typeIds.size() + 1; g_typeIds[ti] = n; return n; }
static u64 symAddr(const char* n) { auto* g = M->getNamedValue(n); return g ? gaddr(g) : 0; }
static bool subtype(State& S, u64 ti, u64 want, int& adj, int depth = 0) {
    if (ti == want) return true;
    if (depth > 16) return false;
    static u64 vsi = symAddr("_ZTVN10__cxxabiv120__si_class_type_infoE"), vvmi = symAddr("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
    u64 vt = loadInt(S, ti, 64).c;
    if (vsi && vt == vsi + 16) return subtype(S, loadInt(S, ti + 16, 64).c, want, adj, depth + 1);
    if (vvmi && vt == vvmi + 16) {
        u64 n = loadInt(S, ti + 20, 32).c;
        for (u64 i = 0; i < n; ++i) {
            u64 b = loadInt(S, ti + 24 + 16 * i, 64).c; int64_t fl = (int64_t)loadInt(S, ti + 32 + 16 * i, 64).c;
            int a2 = 0; if (subtype(S, b, want, a2, depth + 1)) { adj += a2 + (int)(fl >> 8); return true; }
        }
    }
    return false;
}
static void unwind(State& S, u64 obj) {
    Exn* ex = nullptr; for (auto& e : S.exns) if (e.obj == obj) ex = &e;
    if (!ex) unsupported(S, "foreign exception");
    std::string origin = stackOf(S);
    while (true) {
        KInst* cs = S.st.back().callsite;
        bool nounwind = S.st.back().fn->F->doesNotThrow();
        if (nounwind) fail(S, "exception", "exception leaves a noexcept function (std::terminate)");
        popFrame(S);
        if (S.st.empty()) {
            State* s = &S; (void)s; violation(S, "exception", "uncaught C++ exception [" + origin + "]", *S.model); throw PathEnd{2};
        }
        if (!cs || cs->op != Instruction::Invoke) continue;
        KBlock* lpb = cs->f;
        KInst* lpi = nullptr; for (auto& k : lpb->ins) if (k.op == Instruction::LandingPad) { lpi = &k; break; }
        if (!lpi) unsupported(S, "no landingpad");
        auto* lp = cast<LandingPadInst>(lpi->I);
        int sel = 0; bool take = lp->isCleanup();
        for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
            if (lp->isCatch(i)) {
                u64 ti = constInt(lp->getClause(i)); int adj = 0;
                if (ti == 0 || subtype(S, ex->ti, ti, adj)) { sel = typeId(ti); ex->adj = adj; take = true; break; }
            } else { // filter: treat every non-listed type as matching
                auto* arr = lp->getClause(i); bool listed = false;
                if (auto* ca = dyn_cast<ConstantArray>(arr)) for (unsigned q = 0; q < ca->getNumOperands(); ++q) { int adj = 0; u64 ti = constInt(cast<Constant>(ca->getOperand(q))); if (ti == 0 || subtype(S, ex->ti, ti, adj)) listed = true; }
                if (!listed) { sel = -1; take = true; break; }
            }
        }
        if (!take) continue;
        jump(S, lpb);
        auto* a = new Agg; a->v.push_back(VC(obj)); a->v.push_back(VC((u64)(uint32_t)sel));
        // execute up to the landingpad
        Frame& f = S.st.back();
        while (f.bb->ins[f.pc].op != Instruction::LandingPad) f.pc++;
        setReg(S, f.bb->ins[f.pc], VA(a));
        f.bb->ins[f.pc].done = true;
        f.pc++; S.conc = 0;
        return;
    }
}

// --- handlers
typedef void (*Handler)(State&, KInst&, std::vector<Val>&);
static std::vector<Handler> g_handlers; static std::vector<std::string> g_handlerNames;
static std::unordered_map<std::string, Handler> g_handlerMap;
static int handlerFor(const std::string& n) {
    auto it = g_handlerIds.find(n); if (it != g_handlerIds.end()) return it->second;
    auto h = g_handlerMap.find(n); int id = -1;
    if (h != g_handlerMap.end()) { id = (int)g_handlers.size(); g_handlers.push_back(h->second); g_handlerNames.push_back(n); }
    g_handlerIds[n] = id; return id;
}
static unsigned g_uid = 0;
static Expr* newInput(State& S, const std::string& name, unsigned bytes) {
    Expr* e = mkVar(name, bytes * 8);
    S.inputs.push_back({name, bytes, {e}});
    return e;
}
// variables are shared between sibling states when created at the same position: cache by (ordinal,name,width)
static std::map<std::tuple<u64, std::string, unsigned>, Expr*> g_inputVars;
static Expr* inputVar(State& S, const std::string& name, unsigned bits) {
    auto key = std::make_tuple(S.nsym++, name, bits);
    auto it = g_inputVars.find(key);
    if (it != g_inputVars.end()) return it->second;
    return g_inputVars[key] = mkVar(name, bits);
}
static void hMakeSym(State& S, KInst& k, std::vector<Val>& a) {
    u64 n = concretize(S, a[1], 64); u64 p = concAddr(S, a[0], n ? n : 1, "write"); std::string nm; cstr(S, a[2].c, nm);
    Input in; in.name = nm; in.bytes = (unsigned)n;
    for (u64 i = 0; i < n; ++i) { Expr* v = inputVar(S, nm + "[" + std::to_string(i) + "]", 8); in.e.push_back(v); storeInt(S, p + i, VE(v), 8); }
    S.inputs.push_back(in);
    finishCall(S, k, VC(0));
}
template <unsigned B> static void hSym(State& S, KInst& k, std::vector<Val>& a) {
    std::string nm; cstr(S, a[0].c, nm);
    Expr* v = inputVar(S, nm, B); S.inputs.push_back({nm, B / 8, {v}});
    finishCall(S, k, VE(v));
}
static void hRange(State& S, KInst& k, std::vector<Val>& a) { // vs_range(lo,hi,name): lo <= x <= hi
    std::string nm; cstr(S, a[2].c, nm);
    u64 lo = concretize(S, a[0], 64), hi = concretize(S, a[1], 64);
    Expr* v = inputVar(S, nm + "{" + std::to_string(lo) + ".." + std::to_string(hi) + "}", 64); S.inputs.push_back({nm, 8, {v}});
    static std::map<Expr*, Expr*> ranges; Expr*& c = ranges[v];
    if (!c) { c = mkBin(K::And, mkBin(K::Ule, mkConst(lo, 64), v), mkBin(K::Ule, v, mkConst(hi, 64))); setVarRange(v, lo, hi); }
    addConstraint(S, c);
    auto m = std::make_shared<Model>(*S.model); if (m->size() <= v->aux) m->resize(v->aux + 1, 0); (*m)[v->aux] = lo; S.model = m;
    finishCall(S, k, VE(v));
}
static void hChoose(State& S, KInst& k, std::vector<Val>& a) {
    std::string nm; cstr(S, a[1].c, nm);
    u64 n = concretize(S, a[0], 32);
    if (n == 0) fail(S, "exception", "vs_choose(0)");
    Expr* v = inputVar(S, nm, 32); S.inputs.push_back({nm, 4, {v}});
    auto set = [&](State& T, u64 i) {
        auto m = std::make_shared<Model>(*T.model); if (m->size() <= v->aux) m->resize(v->aux + 1, 0); (*m)[v->aux] = i; T.model = m;
        addConstraint(T, mkBin(K::Eq, mkConst(i, 32), v));
        finishCall(T, k, VC(i));
    };
    for (u64 i = n; i-- > 1;) { State* t = forkState(S); set(*t, i); push(t); }
    set(S, 0);
}
static void hAssume(State& S, KInst& k, std::vector<Val>& a) {
    if (a[0].tag == 0) { if (!(a[0].c & 1)) throw PathEnd{1}; finishCall(S, k, VC(0)); return; }
    Expr* c = applyKnown(S, mkExtract(a[0].e, 0, 1));
    if (isFalse(c)) throw PathEnd{1};
    if (!isC(c)) {
        std::shared_ptr<Model> m; Sat r = mayBeTrue(S, c, &m);
        if (r == Sat::No) throw PathEnd{1};
        if (r == Sat::Unknown) { noteUnknown(S, "assume"); throw PathEnd{4}; }
        S.model = m; addConstraint(S, c);
    }
    finishCall(S, k, VC(0));
}
static void hAssert(State& S, KInst& k, std::vector<Val>& a) {
    if (getenv("VS_DUMP") && a[0].tag == 1) fprintf(stderr, "ASSERT %s\n", exprStr(a[0].e, 14).substr(0, 3000).c_str());
    g_asserts++;
    if (a[0].tag == 0) { if (!(a[0].c & 1)) { std::string nm; cstr(S, a[1].c, nm); fail(S, "assert", nm); } finishCall(S, k, VC(0)); return; }
    Expr* c = mkExtract(a[0].e, 0, 1);
    if (!isC(c)) {
        g_assertsSym++;
        std::shared_ptr<Model> m; Sat r = mayBeTrue(S, mkNot(c), &m);
        if (r == Sat::Yes) {
            std::string nm; cstr(S, a[1].c, nm); violation(S, "assert", nm, *m);
            r = mayBeTrue(S, c, &m); if (r != Sat::Yes) throw PathEnd{2};
            S.model = m; addConstraint(S, c);
        } else if (r == Sat::Unknown) { std::string nm; cstr(S, a[1].c, nm); noteUnknown(S, ("assertion: " + nm).c_str()); }
    } else if (!c->val) { std::string nm; cstr(S, a[1].c, nm); fail(S, "assert", nm); }
    finishCall(S, k, VC(0));
}
static void hCover(State& S, KInst& k, std::vector<Val>& a) { std::string nm; cstr(S, a[0].c, nm); g_cover[nm]++; finishCall(S, k, VC(0)); }
static void hConc(State& S, KInst& k, std::vector<Val>& a) { u64 v = concretize(S, a[0], 64); finishCall(S, k, VC(v)); }
static void hObsU(State& S, KInst& k, std::vector<Val>& a) {
    std::string nm; cstr(S, a[0].c, nm); Obs o; o.label = nm; Expr* e = X(a[1], 64);
    for (int i = 0; i < 8; ++i) o.bytes.push_back(VE(mkExtract(e, 8 * i, 8)));
    S.obs.push_back(o); finishCall(S, k, VC(0));
}
static void hObsB(State& S, KInst& k, std::vector<Val>& a) {
    std::string nm; cstr(S, a[0].c, nm); u64 n = concretize(S, a[2], 64); u64 p = concAddr(S, a[1], n ? n : 1, "read");
    Obs o; o.label = nm; for (u64 i = 0; i < n; ++i) o.bytes.push_back(loadInt(S, p + i, 8));
    S.obs.push_back(o); finishCall(S, k, VC(0));
}
static void hParam(State& S, KInst& k, std::vector<Val>& a) { u64 i = a[0].c; finishCall(S, k, VC(i < optParams.size() ? (u64)optParams[i] & mask64(k.w) : 0)); }
static void hFailMsg(State& S, KInst& k, std::vector<Val>& a) { std::string nm; cstr(S, a[0].c, nm); fail(S, "assert", nm); }
static void hStop(State& S, KInst&, std::vector<Val>&) { throw PathEnd{0}; }
static void hLog(State& S, KInst& k, std::vector<Val>& a) { std::string nm; cstr(S, a[0].c, nm); std::string v = a[1].tag ? exprStr(a[1].e) : std::to_string((int64_t)a[1].c); fprintf(stderr, "LOG %s %s\n", nm.c_str(), v.c_str()); finishCall(S, k, VC(0)); }

static void hMalloc(State& S, KInst& k, std::vector<Val>& a) {
    u64 n = concretize(S, a[0], 64);
    if (n > (1ull << 46)) { finishCall(S, k, VC(0)); return; }
    finishCall(S, k, VC(allocObj(S, n, 16, OK_HEAP, false, "malloc")));
}
static void hCalloc(State& S, KInst& k, std::vector<Val>& a) {
    u64 n = concretize(S, a[0], 64), m = concretize(S, a[1], 64);
    finishCall(S, k, VC(allocObj(S, n * m, 16, OK_HEAP, true, "calloc")));
}
static void hAligned(State& S, KInst& k, std::vector<Val>& a) {
    u64 al = concretize(S, a[0], 64), n = concretize(S, a[1], 64);
    if (n > (1ull << 46) || al == 0 || (al & (al - 1))) { finishCall(S, k, VC(0)); return; }
    finishCall(S, k, VC(allocObj(S, n, al, OK_HEAP, false, "aligned_alloc")));
}
static void hPosixMemalign(State& S, KInst& k, std::vector<Val>& a) {
    u64 p = concAddr(S, a[0], 8, "write"); u64 al = concretize(S, a[1], 64), n = concretize(S, a[2], 64);
    u64 r = allocObj(S, n, al, OK_HEAP, false, "posix_memalign"); storeInt(S, p, VC(r), 64); finishCall(S, k, VC(0));
}
static void doFree(State& S, u64 p) {
    if (!p) return;
    Obj* o = S.mem.exact(p);
    if (!o || o->kind != OK_HEAP) fail(S, "memory", "free of a pointer that is not a live heap block");
    S.mem.del(p);
}
static void hFree(State& S, KInst& k, std::vector<Val>& a) { doFree(S, concretize(S, a[0], 64)); finishCall(S, k, VC(0)); }
static void hRealloc(State& S, KInst& k, std::vector<Val>& a) {
    u64 p = concretize(S, a[0], 64), n = concretize(S, a[1], 64);
    u64 q = allocObj(S, n, 16, OK_HEAP, false, "realloc");
    if (p) { Obj* o = S.mem.exact(p); if (!o || o->kind != OK_HEAP) fail(S, "memory", "realloc of a pointer that is not a live heap block"); copyBytes(S, q, p, std::min(n, o->size)); S.mem.del(p); }
    finishCall(S, k, VC(q));
}
static void hUsable(State& S, KInst& k, std::vector<Val>& a) { u64 p = concretize(S, a[0], 64); Obj* o = S.mem.exact(p); finishCall(S, k, VC(o ? o->size : 0)); }
static void hMemcpy(State& S, KInst& k, std::vector<Val>& a) {
    u64 n = concretize(S, a[2], 64); if (!n) { finishCall(S, k, a[0]); return; }
    u64 d = concAddr(S, a[0], n, "write (memcpy)"), s = concAddr(S, a[1], n, "read (memcpy)");
    copyBytes(S, d, s, n); finishCall(S, k, VC(d));
}
static void hMemset(State& S, KInst& k, std::vector<Val>& a) {
    u64 n = concretize(S, a[2], 64); if (!n) { finishCall(S, k, a[0]); return; }
    u64 d = concAddr(S, a[0], n, "write (memset)"); setBytes(S, d, a[1], n); finishCall(S, k, VC(d));
}
static Expr* cmpBytes(State& S, u64 p, u64 q, u64 n, bool eqOnly) {
    // build from the end
    Expr* r = mkConst(0, 32);
    std::vector<std::pair<Expr*, Expr*>> bs;
    for (u64 i = 0; i < n; ++i) {
        Expr* x = X(loadInt(S, p + i, 8), 8); Expr* y = X(loadInt(S, q + i, 8), 8);
        if (x == y) continue;
        bs.push_back({x, y});
        if (isC(x) && isC(y)) break; // definitely differs here
    }
    for (size_t i = bs.size(); i-- > 0;) {
        Expr *x = bs[i].first, *y = bs[i].second;
        if (eqOnly) r = mkIte(mkBin(K::Eq, x, y), r, mkConst(1, 32));
        else r = mkIte(mkBin(K::Eq, x, y), r, mkIte(mkBin(K::Ult, x, y), mkConst(0xffffffffu, 32), mkConst(1, 32)));
    }
    return r;
}
static void hMemcmp(State& S, KInst& k, std::vector<Val>& a) {
    u64 n = concretize(S, a[2], 64); if (!n) { finishCall(S, k, VC(0)); return; }
    u64 p = concAddr(S, a[0], n, "read (memcmp)"), q = concAddr(S, a[1], n, "read (memcmp)");
    resolve(S, p, n, "read (memcmp)"); resolve(S, q, n, "read (memcmp)");
    finishCall(S, k, VE(cmpBytes(S, p, q, n, g_handlerNames[k.handler] == "bcmp")));
}
static void hNop0(State& S, KInst& k, std::vector<Val>&) { finishCall(S, k, VC(0)); }
static void hAbort(State& S, KInst& k, std::vector<Val>&) { fail(S, "exception", "call to " + g_handlerNames[k.handler]); }
static void hAssertFail(State& S, KInst& k, std::vector<Val>& a) { std::string e; cstr(S, a[0].c, e); fail(S, "exception", "debug assertion failed: " + e); }
static void hExit(State& S, KInst& k, std::vector<Val>&) { fail(S, "exception", "call to exit"); }
// exceptions ABI
static void hCxaAlloc(State& S, KInst& k, std::vector<Val>& a) { u64 n = concretize(S, a[0], 64); finishCall(S, k, VC(allocObj(S, n, 16, OK_HEAP, true, "exception"))); }
static void hCxaFreeExc(State& S, KInst& k, std::vector<Val>& a) { doFree(S, a[0].c); finishCall(S, k, VC(0)); }
static void hCxaThrow(State& S, KInst& k, std::vector<Val>& a) {
    Exn e; e.obj = a[0].c; e.ti = a[1].c; e.dtor = a[2].c; S.exns.push_back(e);
    // the throwing call itself may be an invoke: emulate by a pseudo frame
    Frame f; f.fn = k.callee; f.callsite = &k; f.bb = S.st.back().bb; f.pc = S.st.back().pc; S.st.push_back(f);
    unwind(S, e.obj);
}
static void hCxaRethrow(State& S, KInst& k, std::vector<Val>&) {
    if (S.caught.empty()) fail(S, "exception", "rethrow without exception");
    u64 o = S.caught.back(); S.caught.pop_back();
    Frame f; f.fn = k.callee; f.callsite = &k; f.bb = S.st.back().bb; f.pc = S.st.back().pc; S.st.push_back(f);
    unwind(S, o);
}
static void hCxaBegin(State& S, KInst& k, std::vector<Val>& a) {
    u64 o = a[0].c; int adj = 0; for (auto& e : S.exns) if (e.obj == o) adj = e.adj;
    S.caught.push_back(o);
    finishCall(S, k, VC(o + adj));
}
static void hCxaGetPtr(State& S, KInst& k, std::vector<Val>& a) { u64 o = a[0].c; int adj = 0; for (auto& e : S.exns) if (e.obj == o) adj = e.adj; finishCall(S, k, VC(o + adj)); }
static void hCxaEnd(State& S, KInst& k, std::vector<Val>&) {
    if (S.caught.empty()) { finishCall(S, k, VC(0)); return; } // rethrown
    u64 o = S.caught.back(); S.caught.pop_back();
    u64 dtor = 0; size_t n = S.exns.size(); 
    for (size_t i = 0; i < n; ++i) if (S.exns[i].obj == o) { dtor = S.exns[i].dtor; S.exns.erase(S.exns.begin() + i); break; }
    if (dtor && g_funcByAddr.count(dtor) && !g_funcByAddr[dtor]->F->isDeclaration()) {
        if (k.op != Instruction::Invoke) { // return to the next instruction
            KFunc* kf = g_funcByAddr[dtor]; pushCall(S, kf, {VC(o)}, &k); S.st.back().ignoreRet = true; S.conc = 0; return;
        }
    }
    finishCall(S, k, VC(0));
}
static void hUncaught(State& S, KInst& k, std::vector<Val>&) { finishCall(S, k, VC(0)); }

static void initHandlers() {
    auto& H = g_handlerMap;
    H["vs_make_symbolic"] = hMakeSym; H["vs_u8"] = hSym<8>; H["vs_u16"] = hSym<16>; H["vs_u32"] = hSym<32>; H["vs_u64"] = hSym<64>;
    H["vs_range"] = hRange; H["vs_choose"] = hChoose; H["vs_assume"] = hAssume; H["vs_check"] = hAssert; H["vs_cover"] = hCover; H["vs_concretize"] = hConc;
    H["vs_obs_u64"] = hObsU; H["vs_obs_bytes"] = hObsB; H["vs_param"] = hParam; H["vs_fail"] = hFailMsg; H["vs_stop"] = hStop; H["vs_log"] = hLog;
    H["malloc"] = hMalloc; H["calloc"] = hCalloc; H["free"] = hFree; H["realloc"] = hRealloc; H["aligned_alloc"] = hAligned; H["memalign"] = hAligned; H["posix_memalign"] = hPosixMemalign; H["malloc_usable_size"] = hUsable;
    H["memcpy"] = hMemcpy; H["memmove"] = hMemcpy; H["memset"] = hMemset; H["memcmp"] = hMemcmp; H["bcmp"] = hMemcmp;
    H["abort"] = hAbort; H["_ZSt9terminatev"] = hAbort; H["__cxa_pure_virtual"] = hAbort; H["_ZSt10unexpectedv"] = hAbort; H["__assert_fail"] = hAssertFail; H["exit"] = hExit; H["_exit"] = hExit;
    H["__cxa_call_unexpected"] = hAbort;
    H["__cxa_allocate_exception"] = hCxaAlloc; H["__cxa_free_exception"] = hCxaFreeExc; H["__cxa_throw"] = hCxaThrow; H["__cxa_rethrow"] = hCxaRethrow; H["__cxa_begin_catch"] = hCxaBegin; H["__cxa_end_catch"] = hCxaEnd; H["__cxa_get_exception_ptr"] = hCxaGetPtr;
    H["_ZSt18uncaught_exceptionv"] = hUncaught; H["_ZSt19uncaught_exceptionsv"] = hUncaught;
    for (const char* n : {"__cxa_atexit", "atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "puts", "putchar", "printf", "fprintf", "fputs", "fflush", "fwrite", "perror", "pthread_mutex_lock", "pthread_mutex_unlock", "__cxa_thread_atexit", "sched_yield"}) H[n] = hNop0;
}

static Expr* countZeros(Expr* e, bool lead) {
    unsigned w = e->width; Expr* r = mkConst(w, w);
    if (lead) { for (unsigned i = 0; i < w; ++i) r = mkIte(mkExtract(e, i, 1), mkConst(w - 1 - i, w), r); }
    else { for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(e, i, 1), mkConst(i, w), r); }
    return r;
}
static Val mkAgg2(Val a, Val b) { auto* g = new Agg; g->v = {a, b}; return VA(g); }

static Val binop(State& S, unsigned op, const Val& a, const Val& b, unsigned w) {
    if (a.tag == 0 && b.tag == 0 && w <= 64) {
        u64 x = a.c, y = b.c, m = mask64(w);
        switch (op) {
        case Instruction::Add: return VC((x + y) & m);
        case Instruction::Sub: return VC((x - y) & m);
        case Instruction::Mul: return VC((x * y) & m);
        case Instruction::And: return VC(x & y);
        case Instruction::Or: return VC(x | y);
        case Instruction::Xor: return VC(x ^ y);
        case Instruction::Shl: return VC(y >= w ? 0 : (x << y) & m);
        case Instruction::LShr: return VC(y >= w ? 0 : x >> y);
        default: break;
        }
    }
    K k;
    switch (op) {
    case Instruction::Add: k = K::Add; break; case Instruction::Sub: k = K::Sub; break; case Instruction::Mul: k = K::Mul; break;
    case Instruction::UDiv: k = K::UDiv; break; case Instruction::SDiv: k = K::SDiv; break; case Instruction::URem: k = K::URem; break; case Instruction::SRem: k = K::SRem; break;
    case Instruction::And: k = K::And; break; case Instruction::Or: k = K::Or; break; case Instruction::Xor: k = K::Xor; break;
    case Instruction::Shl: k = K::Shl; break; case Instruction::LShr: k = K::LShr; break; case Instruction::AShr: k = K::AShr; break;
    default: unsupported(S, std::string("binary op ") + Instruction::getOpcodeName(op));
    }
    Expr *x = X(a, w), *y = X(b, w);
    if (k == K::UDiv || k == K::SDiv || k == K::URem || k == K::SRem) {
        Expr* z = mkBin(K::Eq, y, mkConst(0, w));
        if (isTrue(z)) fail(S, "exception", "division by zero");
        if (!isC(z)) { std::shared_ptr<Model> m; if (mayBeTrue(S, z, &m) == Sat::Yes) { violation(S, "exception", "division by zero", *m); Sat r = mayBeTrue(S, mkNot(z), &m); if (r != Sat::Yes) throw PathEnd{2}; S.model = m; addConstraint(S, mkNot(z)); } }
    }
    return VE(mkBin(k, x, y));
}
static Val icmp(unsigned pred, const Val& a, const Val& b, unsigned w) {
    if (a.tag == 0 && b.tag == 0) {
        u64 x = a.c, y = b.c; int64_t sx = w < 64 ? (int64_t)(x << (64 - w)) >> (64 - w) : (int64_t)x, sy = w < 64 ? (int64_t)(y << (64 - w)) >> (64 - w) : (int64_t)y;
        switch (pred) {
        case CmpInst::ICMP_EQ: return VC(x == y); case CmpInst::ICMP_NE: return VC(x != y);
        case CmpInst::ICMP_UGT: return VC(x > y); case CmpInst::ICMP_UGE: return VC(x >= y); case CmpInst::ICMP_ULT: return VC(x < y); case CmpInst::ICMP_ULE: return VC(x <= y);
        case CmpInst::ICMP_SGT: return VC(sx > sy); case CmpInst::ICMP_SGE: return VC(sx >= sy); case CmpInst::ICMP_SLT: return VC(sx < sy); case CmpInst::ICMP_SLE: return VC(sx <= sy);
        }
    }
    Expr *x = X(a, w), *y = X(b, w), *r = nullptr;
    switch (pred) {
    case CmpInst::ICMP_EQ: r = mkBin(K::Eq, x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkBin(K::Eq, x, y)); break;
    case CmpInst::ICMP_UGT: r = mkBin(K::Ult, y, x); break; case CmpInst::ICMP_UGE: r = mkBin(K::Ule, y, x); break; case CmpInst::ICMP_ULT: r = mkBin(K::Ult, x, y); break; case CmpInst::ICMP_ULE: r = mkBin(K::Ule, x, y); break;
    case CmpInst::ICMP_SGT: r = mkBin(K::Slt, y, x); break; case CmpInst::ICMP_SGE: r = mkBin(K::Sle, y, x); break; case CmpInst::ICMP_SLT: r = mkBin(K::Slt, x, y); break; case CmpInst::ICMP_SLE: r = mkBin(K::Sle, x, y); break;
    }
    return VE(r);
}
static inline double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static inline u64 dBits(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static double fpOf(State& S, const Val& v, Type* t) { if (v.tag) unsupported(S, "symbolic floating point"); if (t->isFloatTy()) { uint32_t x = (uint32_t)v.c; float f; memcpy(&f, &x, 4); return f; } return asD(v.c); }
static Val fpVal(double d, Type* t) { if (t->isFloatTy()) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return VC(x); } return VC(dBits(d)); }

static void execIntrinsic(State& S, KInst& k, std::vector<Val>& a) {
    unsigned w = k.w;
    Type* t0 = cast<CallBase>(k.I)->arg_size() ? cast<CallBase>(k.I)->getArgOperand(0)->getType() : nullptr;
    unsigned aw = t0 ? widthOf(t0) : 0;
    Val r = VC(0);
    switch (k.intr) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: hMemcpy(S, k, a); return;
    case Intrinsic::memset: case Intrinsic::memset_inline: hMemset(S, k, a); return;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: case Intrinsic::var_annotation: case Intrinsic::invariant_end: case Intrinsic::sideeffect: break;
    case Intrinsic::invariant_start: case Intrinsic::stacksave: break;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::annotation: case Intrinsic::ptr_annotation: r = a[0]; break;
    case Intrinsic::vastart: { // x86-64 va_list with every variadic argument in the overflow area
        u64 vl = concAddr(S, a[0], 24, "write"); Frame& fr = S.st.back(); u64 n = fr.varargs.size();
        u64 area = allocObj(S, 8 * n + 8, 16, OK_STACK, true, "varargs"); S.st.back().allocas.push_back(area);
        for (u64 i = 0; i < n; ++i) { Val v = S.st.back().varargs[i]; if (v.tag == 1) v = VE(mkZExt(v.e, 64)); storeInt(S, area + 8 * i, v, 64); }
        storeInt(S, vl, VC(48), 32); storeInt(S, vl + 4, VC(304), 32); storeInt(S, vl + 8, VC(area), 64); storeInt(S, vl + 16, VC(0), 64);
        break;
    }
    case Intrinsic::vaend: break;
    case Intrinsic::vacopy: { u64 d = concAddr(S, a[0], 24, "write"), s = concAddr(S, a[1], 24, "read"); copyBytes(S, d, s, 24); break; }
    case Intrinsic::objectsize: r = VC(mask64(w)); break;
    case Intrinsic::is_constant: r = VC(0); break;
    case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: fail(S, "exception", "trap");
    case Intrinsic::eh_typeid_for: r = VC((u64)typeId(a[0].c)); break;
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
        unsigned p = k.intr == Intrinsic::umin ? CmpInst::ICMP_ULT : k.intr == Intrinsic::umax ? CmpInst::ICMP_UGT : k.intr == Intrinsic::smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
        Val c = icmp(p, a[0], a[1], w);
        if (c.tag == 0) r = c.c ? a[0] : a[1]; else r = VE(mkIte(c.e, X(a[0], w), X(a[1], w)));
        break;
    }
    case Intrinsic::abs: { Expr* e = X(a[0], w); r = VE(mkIte(mkExtract(e, w - 1, 1), mkBin(K::Sub, mkConst(0, w), e), e)); break; }
    case Intrinsic::ctlz: case Intrinsic::cttz: {
        if (a[0].tag == 0) { u64 v = a[0].c; unsigned n = 0; if (k.intr == Intrinsic::ctlz) { for (int i = (int)w - 1; i >= 0 && !((v >> i) & 1); --i) n++; } else { for (unsigned i = 0; i < w && !((v >> i) & 1); ++i) n++; } r = VC(n); }
        else r = VE(countZeros(a[0].e, k.intr == Intrinsic::ctlz));
        break;
    }
    case Intrinsic::ctpop: { if (a[0].tag == 0) r = VC((u64)__builtin_popcountll(a[0].c)); else { Expr* s = mkConst(0, w); for (unsigned i = 0; i < w; ++i) s = mkBin(K::Add, s, mkZExt(mkExtract(a[0].e, i, 1), w)); r = VE(s); } break; }
    case Intrinsic::bswap: { Expr* e = X(a[0], w); Expr* s = mkExtract(e, 0, 8); for (unsigned i = 1; i < w / 8; ++i) s = mkConcat(s, mkExtract(e, 8 * i, 8)); r = VE(s); break; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        u64 s = concretize(S, a[2], w) % w; Expr* cc = mkConcat(X(a[0], w), X(a[1], w));
        if (2 * w > 128) unsupported(S, "fsh width");
        if (k.intr == Intrinsic::fshl) r = VE(mkExtract(cc, (unsigned)(w - s), w)); else r = VE(mkExtract(cc, (unsigned)s, w));
        break;
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        Expr *x = X(a[0], aw), *y = X(a[1], aw); 
        bool sg = k.intr == Intrinsic::sadd_with_overflow || k.intr == Intrinsic::ssub_with_overflow || k.intr == Intrinsic::smul_with_overflow;
        bool mul = k.intr == Intrinsic::umul_with_overflow || k.intr == Intrinsic::smul_with_overflow, add = k.intr == Intrinsic::uadd_with_overflow || k.intr == Intrinsic::sadd_with_overflow;
        unsigned ww = mul ? 2 * aw : aw + 1; if (ww > 128) unsupported(S, "wide overflow op");
        Expr *X2 = sg ? mkSExt(x, ww) : mkZExt(x, ww), *Y2 = sg ? mkSExt(y, ww) : mkZExt(y, ww);
        Expr* full = mkBin(mul ? K::Mul : add ? K::Add : K::Sub, X2, Y2);
        Expr* lo = mkExtract(full, 0, aw);
        Expr* ov = mkNot(mkBin(K::Eq, full, sg ? mkSExt(lo, ww) : mkZExt(lo, ww)));
        if (!mul && !sg) ov = add ? mkBin(K::Ult, lo, x) : mkBin(K::Ult, x, y);
        r = mkAgg2(VE(lo), VE(ov)); break;
    }
    case Intrinsic::uadd_sat: { Expr *x = X(a[0], w), *y = X(a[1], w), *s = mkBin(K::Add, x, y); r = VE(chooseIte(S, mkBin(K::Ult, s, x), mkConst(maskw(w), w), s)); break; }
    case Intrinsic::usub_sat: { Expr *x = X(a[0], w), *y = X(a[1], w); r = VE(chooseIte(S, mkBin(K::Ult, x, y), mkConst(0, w), mkBin(K::Sub, x, y))); break; }
    case Intrinsic::ptrmask: r = binop(S, Instruction::And, a[0], a[1], 64); break;
    case Intrinsic::floor: r = fpVal(__builtin_floor(fpOf(S, a[0], t0)), t0); break;
    case Intrinsic::ceil: r = fpVal(__builtin_ceil(fpOf(S, a[0], t0)), t0); break;
    case Intrinsic::fabs: r = fpVal(__builtin_fabs(fpOf(S, a[0], t0)), t0); break;
    case Intrinsic::log10: r = fpVal(__builtin_log10(fpOf(S, a[0], t0)), t0); break;
    case Intrinsic::fmuladd: r = fpVal(fpOf(S, a[0], t0) * fpOf(S, a[1], t0) + fpOf(S, a[2], t0), t0); break;
    default: unsupported(S, "intrinsic " + Intrinsic::getBaseName(k.intr).str());
    }
    finishCall(S, k, r);
}

static void retTo(State& S, Val v, bool has) {
    KInst* cs = S.st.back().callsite; bool ign = S.st.back().ignoreRet;
    popFrame(S);
    if (S.st.empty()) throw PathEnd{0};
    if (!cs) throw PathEnd{0};
    if (ign) { if (cs->op == Instruction::Invoke) { jump(S, cs->t); } else S.st.back().pc++; S.conc = 0; return; }
    finishCall(S, *cs, has ? v : VC(0));
}

static void step(State& S) {
    Frame& f = S.st.back();
    KInst& k = f.bb->ins[f.pc];
    k.done = true; ++g_instrs;
    if (++S.steps > optMaxSteps) fail(S, "hang", "path exceeds " + std::to_string(optMaxSteps) + " instructions");
    switch (k.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
    case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        Val a = rd(S, k.ops[0]), b = rd(S, k.ops[1]);
        if (k.w == 0) { // vector
            unsigned n = aggN(k.ty), w = widthOf(aggT(k.ty, 0)); auto* g = new Agg; for (unsigned i = 0; i < n; ++i) g->v.push_back(binop(S, k.op, a.a->v[i], b.a->v[i], w)); setReg(S, k, VA(g));
        } else setReg(S, k, binop(S, k.op, a, b, k.w));
        advance(S); break;
    }
    case Instruction::ICmp: {
        Val a = rd(S, k.ops[0]), b = rd(S, k.ops[1]);
        if (k.ow == 0) { Type* vt = k.I->getOperand(0)->getType(); unsigned n = aggN(vt), w = widthOf(aggT(vt, 0)); auto* g = new Agg; for (unsigned i = 0; i < n; ++i) g->v.push_back(icmp(k.pred, a.a->v[i], b.a->v[i], w)); setReg(S, k, VA(g)); }
        else setReg(S, k, icmp(k.pred, a, b, k.ow));
        advance(S); break;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
        double a = fpOf(S, rd(S, k.ops[0]), k.ty), b = fpOf(S, rd(S, k.ops[1]), k.ty);
        setReg(S, k, fpVal(k.op == Instruction::FAdd ? a + b : k.op == Instruction::FSub ? a - b : k.op == Instruction::FMul ? a * b : a / b, k.ty)); advance(S); break;
    }
    case Instruction::FCmp: {
        Type* t = k.I->getOperand(0)->getType(); double a = fpOf(S, rd(S, k.ops[0]), t), b = fpOf(S, rd(S, k.ops[1]), t); bool un = a != a || b != b, r;
        switch (k.pred) { case CmpInst::FCMP_OEQ: r = a == b; break; case CmpInst::FCMP_OGT: r = a > b; break; case CmpInst::FCMP_OGE: r = a >= b; break; case CmpInst::FCMP_OLT: r = a < b; break; case CmpInst::FCMP_OLE: r = a <= b; break; case CmpInst::FCMP_ONE: r = !un && a != b; break; case CmpInst::FCMP_UEQ: r = un || a == b; break; case CmpInst::FCMP_UGT: r = un || a > b; break; case CmpInst::FCMP_UGE: r = un || a >= b; break; case CmpInst::FCMP_ULT: r = un || a < b; break; case CmpInst::FCMP_ULE: r = un || a <= b; break; case CmpInst::FCMP_UNE: r = un || a != b; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; default: r = false; }
        setReg(S, k, VC(r)); advance(S); break;
    }
    case Instruction::UIToFP: { Val a = rd(S, k.ops[0]); if (a.tag) unsupported(S, "symbolic int to float"); setReg(S, k, fpVal((double)a.c, k.ty)); advance(S); break; }
    case Instruction::SIToFP: { Val a = rd(S, k.ops[0]); if (a.tag) unsupported(S, "symbolic int to float"); setReg(S, k, fpVal((double)((int64_t)(a.c << (64 - k.ow)) >> (64 - k.ow)), k.ty)); advance(S); break; }
    case Instruction::FPToUI: { double d = fpOf(S, rd(S, k.ops[0]), k.I->getOperand(0)->getType()); setReg(S, k, VC((u64)d & mask64(k.w))); advance(S); break; }
    case Instruction::FPToSI: { double d = fpOf(S, rd(S, k.ops[0]), k.I->getOperand(0)->getType()); setReg(S, k, VC((u64)(int64_t)d & mask64(k.w))); advance(S); break; }
    case Instruction::FPExt: case Instruction::FPTrunc: { double d = fpOf(S, rd(S, k.ops[0]), k.I->getOperand(0)->getType()); setReg(S, k, fpVal(d, k.ty)); advance(S); break; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: {
        Val a = rd(S, k.ops[0]);
        auto one = [&](const Val& a, unsigned ow, unsigned w) -> Val {
            if (a.tag == 0 && w <= 64) { if (k.op == Instruction::SExt) { u64 v = ow < 64 ? (u64)((int64_t)(a.c << (64 - ow)) >> (64 - ow)) : a.c; return VC(v & mask64(w)); } return VC(a.c & mask64(w)); }
            Expr* e = X(a, ow); return VE(k.op == Instruction::Trunc ? mkExtract(e, 0, w) : k.op == Instruction::ZExt ? mkZExt(e, w) : mkSExt(e, w));
        };
        if (k.w == 0) { Type* ot = k.I->getOperand(0)->getType(); auto* g = new Agg; for (unsigned i = 0; i < aggN(k.ty); ++i) g->v.push_back(one(a.a->v[i], widthOf(aggT(ot, 0)), widthOf(aggT(k.ty, 0)))); setReg(S, k, VA(g)); }
        else setReg(S, k, one(a, k.ow, k.w));
        advance(S); break;
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: {
        Val a = rd(S, k.ops[0]);
        if (a.tag == 0) setReg(S, k, VC(a.c & mask64(k.w))); else setReg(S, k, VE(k.w < k.ow ? mkExtract(a.e, 0, k.w) : mkZExt(a.e, k.w)));
        advance(S); break;
    }
    case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: {
        Val a = rd(S, k.ops[0]);
        bool va = isAggTy(k.ty), vb = isAggTy(k.I->getOperand(0)->getType());
        if (va != vb || (va && aggN(k.ty) != aggN(k.I->getOperand(0)->getType()))) {
            // vector <-> scalar: go through bytes
            u64 n = DL->getTypeAllocSize(k.ty); u64 t = allocObj(S, n, 16, OK_STACK, true, "bitcast"); storeTy(S, t, a, k.I->getOperand(0)->getType()); a = loadTy(S, t, k.ty); S.mem.del(t);
        }
        setReg(S, k, a); advance(S); break;
    }
    case Instruction::Select: {
        Val c = rd(S, k.ops[0]), a = rd(S, k.ops[1]), b = rd(S, k.ops[2]);
        if (c.tag == 2) { auto* g = new Agg; unsigned w = widthOf(aggT(k.ty, 0)); for (size_t i = 0; i < c.a->v.size(); ++i) { Val ci = c.a->v[i]; g->v.push_back(ci.tag == 0 ? (ci.c ? a.a->v[i] : b.a->v[i]) : VE(mkIte(ci.e, X(a.a->v[i], w), X(b.a->v[i], w)))); } setReg(S, k, VA(g)); advance(S); break; }
        if (c.tag == 1) { Expr* e = applyKnown(S, c.e); if (isC(e)) c = VC((u64)e->val); }
        if (c.tag == 0) { setReg(S, k, c.c ? a : b); advance(S); break; }
        if (k.w == 0 || a.tag == 2 || b.tag == 2) {
            Expr* ce = c.e; bool r = decide(S, ce, [&](State&) {}); setReg(S, k, r ? a : b); advance(S); break;
        }
        setReg(S, k, VE(chooseIte(S, c.e, X(a, k.w), X(b, k.w)))); advance(S); break;
    }
    case Instruction::GetElementPtr: {
        Val b = rd(S, k.ops[0]);
        bool conc = b.tag == 0; u64 v = b.tag == 0 ? b.c + (u64)k.off : 0; Expr* e = nullptr;
        if (!conc) e = mkBin(K::Add, b.e, mkConst((u64)k.off, 64));
        for (auto& g : k.gi) {
            Val i = rd(S, g.o);
            if (i.tag == 0) { int64_t x = g.w < 64 ? (int64_t)(i.c << (64 - g.w)) >> (64 - g.w) : (int64_t)i.c; u64 d = (u64)(x * g.scale); if (conc) v += d; else e = mkBin(K::Add, e, mkConst(d, 64)); }
            else { Expr* x = mkSExt(i.e, 64); Expr* d = mkBin(K::Mul, mkConst((u64)g.scale, 64), x); if (conc) { e = mkBin(K::Add, mkConst(v, 64), d); conc = false; } else e = mkBin(K::Add, e, d); }
        }
        setReg(S, k, conc ? VC(v) : VE(e)); advance(S); break;
    }
    case Instruction::Alloca: {
        auto* ai = cast<AllocaInst>(k.I); u64 n = DL->getTypeAllocSize(ai->getAllocatedType());
        if (ai->isArrayAllocation()) n *= concretize(S, rd(S, k.ops[0]), 64);
        u64 a = allocObj(S, n, ai->getAlign().value(), OK_STACK, false, "alloca"); S.st.back().allocas.push_back(a);
        setReg(S, k, VC(a)); advance(S); break;
    }
    case Instruction::Load: {
        Val p = rd(S, k.ops[0]); u64 n = DL->getTypeStoreSize(k.ty);
        if (p.tag == 1) {
            Expr* e = applyKnown(S, p.e);
            if (!isC(e) && k.w) { // table lookup in a constant object: build an ite chain instead of forking
                u64 a = (u64)evalExpr(e, *S.model); Obj* o = S.mem.find(a);
                if (o && o->readonly && o->size <= 8192 && a + n <= o->base + o->size) {
                    Expr* offE = mkBin(K::Sub, e, mkConst(o->base, 64));
                    std::shared_ptr<Model> m2; Expr* out = mkNot(mkBin(K::Ule, offE, mkConst(o->size - n, 64)));
                    Sat r = mayBeTrue(S, out, &m2);
                    if (r == Sat::Yes) { State* q = forkState(S); q->model = m2; addConstraint(*q, out); push(q); addConstraint(S, mkNot(out)); }
                    u64 stride = 1; if (n > 1) { Expr* mis = mkNot(mkBin(K::Eq, mkBin(K::And, offE, mkConst(n - 1, 64)), mkConst((a - o->base) & (n - 1), 64))); if (mayBeTrue(S, mis, nullptr) == Sat::No) stride = n; }
                    Expr* res = tableByVars(S, offE, o, n, k.w);
                    if (res) { setReg(S, k, VE(res)); advance(S); break; }
                    std::map<Expr*, Expr*> byVal; std::vector<Expr*> order;
                    for (u64 i = stride == 1 ? 0 : (a - o->base) & (n - 1); i + n <= o->size; i += stride) {
                        Expr* v = X(loadInt(S, o->base + i, k.w), k.w); Expr* c = mkBin(K::Eq, offE, mkConst(i, 64));
                        if (isFalse(c)) continue;
                        auto it = byVal.find(v); if (it == byVal.end()) { byVal[v] = c; order.push_back(v); } else it->second = mkBin(K::Or, it->second, c);
                    }
                    for (auto* v : order) res = res ? mkIte(byVal[v], v, res) : v;
                    setReg(S, k, VE(res)); advance(S); break;
                }
            }
        }
        u64 a = concAddr(S, p, n, "read");
        setReg(S, k, k.w && k.w <= 64 ? loadInt(S, a, k.w) : loadTy(S, a, k.ty)); advance(S); break;
    }
    case Instruction::Store: {
        Type* t = k.I->getOperand(0)->getType(); u64 n = DL->getTypeStoreSize(t);
        u64 a = concAddr(S, rd(S, k.ops[1]), n, "write");
        Val v = rd(S, k.ops[0]);
        if (k.ow) storeInt(S, a, v, k.ow); else storeTy(S, a, v, t);
        advance(S); break;
    }
    case Instruction::AtomicRMW: {
        auto* rm = cast<AtomicRMWInst>(k.I); u64 a = concAddr(S, rd(S, k.ops[0]), k.w / 8, "write"); Val old = loadInt(S, a, k.w), v = rd(S, k.ops[1]), nv;
        switch (rm->getOperation()) { case AtomicRMWInst::Add: nv = binop(S, Instruction::Add, old, v, k.w); break; case AtomicRMWInst::Sub: nv = binop(S, Instruction::Sub, old, v, k.w); break; case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::And: nv = binop(S, Instruction::And, old, v, k.w); break; case AtomicRMWInst::Or: nv = binop(S, Instruction::Or, old, v, k.w); break; default: unsupported(S, "atomicrmw"); }
        storeInt(S, a, nv, k.w); setReg(S, k, old); advance(S); break;
    }
    case Instruction::AtomicCmpXchg: {
        Type* t = k.I->getOperand(1)->getType(); unsigned w = widthOf(t); u64 a = concAddr(S, rd(S, k.ops[0]), w / 8, "write"); Val old = loadInt(S, a, w), e = rd(S, k.ops[1]), nv = rd(S, k.ops[2]);
        Val c = icmp(CmpInst::ICMP_EQ, old, e, w); if (c.tag) unsupported(S, "symbolic cmpxchg"); if (c.c) storeInt(S, a, nv, w); setReg(S, k, mkAgg2(old, c)); advance(S); break;
    }
    case Instruction::Fence: advance(S); break;
    case Instruction::Br: {
        if (!k.f) { jump(S, k.t); S.conc = 0; break; }
        Val c = rd(S, k.ops[0]);
        if (c.tag == 0) { jump(S, c.c ? k.t : k.f); S.conc = 0; break; }
        if (k.t == k.f) { jump(S, k.t); break; }
        Expr* e = c.e; KBlock *t = k.t, *fl = k.f;
        bool cur = applyKnown(S, e), dummy = false; (void)cur; (void)dummy;
        bool cm; { Expr* x = applyKnown(S, e); cm = isC(x) ? x->val != 0 : evalExpr(x, *S.model) != 0; }
        bool r = decide(S, e, [&](State& o) { jump(o, cm ? fl : t); o.conc = 0; });
        jump(S, r ? t : fl); S.conc = 0; break;
    }
    case Instruction::Switch: {
        Val c = rd(S, k.ops[0]);
        if (c.tag == 1) { Expr* x = applyKnown(S, c.e); if (isC(x)) c = VC((u64)x->val); }
        if (c.tag == 0) { KBlock* to = k.f; for (auto& p : k.cases) if (p.first == c.c) { to = p.second; break; } jump(S, to); S.conc = 0; break; }
        // group by destination
        std::vector<std::pair<KBlock*, Expr*>> g; Expr* def = mkConst(1, 1);
        for (auto& p : k.cases) {
            Expr* q = mkBin(K::Eq, c.e, mkConst(p.first, k.ow)); def = mkBin(K::And, def, mkNot(q));
            if (p.second == k.f) continue;
            bool ok = false; for (auto& x : g) if (x.first == p.second) { x.second = mkBin(K::Or, x.second, q); ok = true; } if (!ok) g.push_back({p.second, q});
        }
        Expr* dcond = mkConst(0, 1); for (auto& x : g) dcond = mkBin(K::Or, dcond, x.second); dcond = mkNot(dcond);
        g.push_back({k.f, dcond});
        std::vector<std::tuple<KBlock*, Expr*, std::shared_ptr<Model>>> feas;
        for (auto& x : g) { std::shared_ptr<Model> m; Sat r = mayBeTrue(S, x.second, &m); if (r == Sat::Yes) feas.push_back({x.first, x.second, m}); else if (r == Sat::Unknown) noteUnknown(S, "switch"); }
        if (feas.empty()) throw PathEnd{4};
        for (size_t i = feas.size(); i-- > 1;) { State* n = forkState(S); n->model = std::get<2>(feas[i]); addConstraint(*n, std::get<1>(feas[i])); jump(*n, std::get<0>(feas[i])); n->conc = 0; push(n); }
        S.model = std::get<2>(feas[0]); addConstraint(S, std::get<1>(feas[0])); jump(S, std::get<0>(feas[0])); S.conc = 0; break;
    }
    case Instruction::Ret: { bool has = !k.ops.empty(); Val v = has ? rd(S, k.ops[0]) : VC(0); retTo(S, v, has); break; }
    case Instruction::Unreachable: fail(S, "exception", "unreachable code reached");
    case Instruction::Resume: { Val v = rd(S, k.ops[0]); unwind(S, v.a->v[0].c); break; }
    case Instruction::ExtractValue: { Val v = rd(S, k.ops[0]); for (unsigned i : k.idx) { if (v.tag != 2) unsupported(S, "extractvalue"); v = v.a->v[i]; } setReg(S, k, v); advance(S); break; }
    case Instruction::InsertValue: {
        Val v = rd(S, k.ops[0]), x = rd(S, k.ops[1]);
        std::function<Val(const Val&, size_t)> ins = [&](const Val& b, size_t d) -> Val { auto* g = new Agg(*b.a); if (d + 1 == k.idx.size()) g->v[k.idx[d]] = x; else g->v[k.idx[d]] = ins(b.a->v[k.idx[d]], d + 1); return VA(g); };
        if (v.tag != 2) unsupported(S, "insertvalue"); setReg(S, k, ins(v, 0)); advance(S); break;
    }
    case Instruction::ExtractElement: { Val v = rd(S, k.ops[0]); u64 i = concretize(S, rd(S, k.ops[1]), widthOf(k.I->getOperand(1)->getType())); setReg(S, k, v.a->v[i]); advance(S); break; }
    case Instruction::InsertElement: { Val v = rd(S, k.ops[0]); u64 i = concretize(S, rd(S, k.ops[2]), widthOf(k.I->getOperand(2)->getType())); auto* g = new Agg(*v.a); g->v[i] = rd(S, k.ops[1]); setReg(S, k, VA(g)); advance(S); break; }
    case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(k.I); Val a = rd(S, k.ops[0]), b = rd(S, k.ops[1]); auto* g = new Agg; int n = (int)a.a->v.size(); for (int m : sv->getShuffleMask()) g->v.push_back(m < 0 ? VC(0) : m < n ? a.a->v[m] : b.a->v[m - n]); setReg(S, k, VA(g)); advance(S); break; }
    case Instruction::Call: case Instruction::Invoke: {
        std::vector<Val> args; args.reserve(k.ops.size());
        for (auto& o : k.ops) args.push_back(rd(S, o));
        if (k.intr) { execIntrinsic(S, k, args); break; }
        if (k.handler >= 0) { g_handlers[k.handler](S, k, args); break; }
        if (k.handler == -3) { // inline asm: only empty barriers
            auto* ia = cast<InlineAsm>(cast<CallBase>(k.I)->getCalledOperand()); if (ia->getAsmString().empty()) { finishCall(S, k, args.empty() ? VC(0) : args[0]); break; } unsupported(S, "inline asm " + ia->getAsmString()); }
        KFunc* kf = k.callee;
        if (k.handler == -2) {
            u64 a = concretize(S, args.back(), 64); args.pop_back();
            auto it = g_funcByAddr.find(a);
            if (it == g_funcByAddr.end()) fail(S, "memory", a < 4096 ? "call through a null function pointer" : "call through an invalid function pointer");
            kf = it->second;
            int h = handlerFor(kf->name); if (h >= 0) { KInst kk = k; k.handler = h; KFunc* sv = k.callee; k.callee = kf; try { g_handlers[h](S, k, args); } catch (...) { k.handler = -2; k.callee = sv; throw; } k.handler = -2; k.callee = sv; break; }
        }
        if (kf->F->isDeclaration()) unsupported(S, "external function " + demangle(kf->name) + " [" + kf->name + "]");
        pushCall(S, kf, args, &k);
        S.conc = 0;
        break;
    }
    default: unsupported(S, std::string("instruction ") + k.I->getOpcodeName());
    }
}

static std::string jesc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o; }

static bool g_oom = false;
static void checkMem() {
    if (!optMaxMem) return;
    FILE* f = fopen("/proc/self/statm", "r"); if (!f) return;
    unsigned long a = 0, b = 0; if (fscanf(f, "%lu %lu", &a, &b) == 2 && b * 4096ull > optMaxMem * 1048576ull) g_oom = true; fclose(f);
}
static void runState(State* S) {
    try { while (true) { step(*S); if ((g_instrs & 0xfff) == 0 && elapsed() > optMaxTime) throw PathEnd{5}; if ((g_instrs & 0x3ffff) == 0) checkMem(); } }
    catch (PathEnd& e) {
        switch (e.why) {
        case 0: {
            g_paths++;
            std::vector<std::string>* slot = nullptr;
            if (g_samples.size() < optSamples) { g_samples.emplace_back(); slot = &g_samples.back(); }
            else if (optSamples) { u64 r = g_rng() % g_paths; if (r < optSamples) slot = &g_samples[r]; }
            if (slot) { Model m; completeModel(*S, m); *slot = recordOf(*S, m, true); }
            break;
        }
        case 1: g_pathsAssumed++; break;
        case 5: g_incomplete["time budget of " + std::to_string((int)optMaxTime) + "s exhausted"]++; break;
        default: g_killed++; break;
        }
    }
}

int main(int argc, char** argv) {
    struct rlimit rl; rl.rlim_cur = rl.rlim_max = 1024ull << 20; setrlimit(RLIMIT_STACK, &rl);
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--bc") optBc = nx(); else if (a == "--entry") optEntry = nx(); else if (a == "--out") optOut = nx(); else if (a == "--name") optName = nx();
        else if (a == "--max-time") optMaxTime = std::stod(nx()); else if (a == "--max-steps") optMaxSteps = std::stoull(nx()); else if (a == "--max-paths") optMaxPaths = std::stoull(nx());
        else if (a == "--samples") optSamples = (unsigned)std::stoul(nx()); else if (a == "--seed") optSeed = (unsigned)std::stoul(nx()); else if (a == "--param") optParams.push_back(std::stoll(nx()));
        else if (a == "--max-viol") optMaxViol = (unsigned)std::stoul(nx()); else if (a == "--qtimeout") optQTimeout = (unsigned)std::stoul(nx()); else if (a == "--trace-forks") optTrace = true; else if (a == "--src") optSrcPrefix = nx(); else if (a == "--max-mem") optMaxMem = std::stoull(nx());
        else { fprintf(stderr, "bad option %s\n", a.c_str()); return 2; }
    }
    g_t0 = std::chrono::steady_clock::now(); g_rng.seed(optSeed);
    solverInit(optQTimeout);
    SMDiagnostic err; M = parseIRFile(optBc, err, Ctx);
    if (!M) { err.print("symex", errs()); return 2; }
    DL = &M->getDataLayout();
    initHandlers();
    // globals
    for (auto& g : M->globals()) gaddr(&g);
    for (auto& f : *M) if (!f.isIntrinsic()) gaddr(&f);
    for (auto& a : M->aliases()) gaddr(&a);
    State* S0 = new State; S0->mem = g_globalMem; S0->heapTop = 0x100000000000ull; S0->stackTop = 0x700000000000ull; S0->model = std::make_shared<Model>();
    for (auto& g : M->globals()) if (g.hasInitializer()) { initGlobalMem(*S0, gaddr(&g), g.getInitializer()); }
    for (auto& g : M->globals()) if (g.isConstant() && g.hasInitializer()) { Obj* o = S0->mem.exact(gaddr(&g)); if (o) { o = S0->mem.writable(o); o->readonly = true; } }
    // constructors, in priority order, then the entry: run as a chain of calls
    std::vector<std::pair<unsigned, Function*>> ctors;
    if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({(unsigned)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    State cur(*S0);
    for (auto& c : ctors) {
        pushCall(cur, kfuncOf(c.second), {}, nullptr);
        try { while (true) step(cur); } catch (PathEnd& e) { if (e.why != 0) { fprintf(stderr, "constructor failed\n"); return 2; } }
        cur.steps = 0; cur.st.clear();
        if (!g_work.empty()) { fprintf(stderr, "constructor forked\n"); return 2; }
    }
    Function* E = M->getFunction(optEntry);
    if (!E) { fprintf(stderr, "no entry %s\n", optEntry.c_str()); return 2; }
    State* start = new State(cur);
    pushCall(*start, kfuncOf(E), {}, nullptr);
    g_work.push_back(start);
    bool stopped = false;
    while (!g_work.empty()) {
        State* s = g_work.back(); g_work.pop_back();
        runState(s); delete s;
        if (g_viol.size() >= optMaxViol) { g_incomplete["stopped after " + std::to_string(g_viol.size()) + " violations"]++; stopped = true; break; }
        if (elapsed() > optMaxTime) { if (!g_work.empty()) g_incomplete["time budget exhausted with states left"] += g_work.size(); stopped = true; break; }
        if (g_oom) { if (!g_work.empty()) g_incomplete["memory budget exhausted with states left"] += g_work.size(); break; }
        if (g_paths >= optMaxPaths) { if (!g_work.empty()) g_incomplete["path limit"] += g_work.size(); stopped = true; break; }
    }
    (void)stopped;
    // executed functions of the code under test
    std::set<std::string> fns;
    for (auto& p : g_funcs) if (p.second->decoded) for (auto& b : p.second->blocks) for (auto& k : b->ins) if (k.done && k.I->getDebugLoc()) {
        const DILocation* d = k.I->getDebugLoc().get();
        while (d) { auto* sp = d->getScope()->getSubprogram(); if (sp) { std::string fn = sp->getFilename().str(); std::string full = fn.size() && fn[0] == '/' ? fn : sp->getDirectory().str() + "/" + fn; if (full.compare(0, optSrcPrefix.size(), optSrcPrefix) == 0) { std::string n = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str()); if (n.size() > 160) n = sp->getName().str(); fns.insert(full.substr(optSrcPrefix.size()) + ": " + n); } } d = d->getInlinedAt(); }
    }
    std::ostringstream js;
    js << "{\"name\":\"" << jesc(optName) << "\",\"params\":["; for (size_t i = 0; i < optParams.size(); ++i) js << (i ? "," : "") << optParams[i];
    js << "],\"paths\":" << g_paths << ",\"assumed_away\":" << g_pathsAssumed << ",\"killed\":" << g_killed << ",\"forks\":" << g_forks << ",\"concretisations\":" << g_concs << ",\"instructions\":" << g_instrs << ",\"max_depth\":" << g_maxDepth << ",\"assertions\":" << g_asserts << ",\"assertions_symbolic\":" << g_assertsSym
       << ",\"queries\":" << g_ss.queries << ",\"model_hits\":" << g_ss.modelHits << ",\"cache_hits\":" << g_ss.cacheHits << ",\"z3_calls\":" << g_ss.z3calls << ",\"z3_sat\":" << g_ss.z3sat << ",\"z3_unsat\":" << g_ss.z3unsat << ",\"z3_unknown\":" << g_ss.z3unknown << ",\"z3_time\":" << g_ss.z3time << ",\"z3_max_time\":" << g_ss.maxTime << ",\"exprs\":" << g_numExprs << ",\"vars\":" << g_vars.size() << ",\"wall\":" << elapsed();
    auto mp = [&](const char* n, std::map<std::string, u64>& m) { js << ",\"" << n << "\":{"; bool f = true; for (auto& p : m) { js << (f ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; f = false; } js << "}"; };
    mp("cover", g_cover); mp("unsupported", g_unsup); mp("incomplete", g_incomplete);
    js << ",\"functions\":["; { bool f = true; for (auto& s : fns) { js << (f ? "" : ",") << "\"" << jesc(s) << "\""; f = false; } } js << "]";
    js << ",\"violations\":["; for (size_t i = 0; i < g_viol.size(); ++i) { auto& v = g_viol[i]; js << (i ? "," : "") << "{\"kind\":\"" << v.kind << "\",\"msg\":\"" << jesc(v.msg) << "\",\"loc\":\"" << jesc(v.loc) << "\",\"stack\":\"" << jesc(v.stack) << "\",\"record\":["; for (size_t j = 0; j < v.lines.size(); ++j) js << (j ? "," : "") << "\"" << jesc(v.lines[j]) << "\""; js << "]}"; } js << "]";
    js << ",\"samples\":["; for (size_t i = 0; i < g_samples.size(); ++i) { js << (i ? "," : "") << "["; for (size_t j = 0; j < g_samples[i].size(); ++j) js << (j ? "," : "") << "\"" << jesc(g_samples[i][j]) << "\""; js << "]"; } js << "]}\n";
    if (optOut.empty()) fputs(js.str().c_str(), stdout); else { std::ofstream o(optOut); o << js.str(); }
    if (optTrace) { std::vector<std::pair<u64, std::string>> v; for (auto& p : g_forkSites) v.push_back({p.second, p.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 25; ++i) fprintf(stderr, "%8llu forks at %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); }
    fflush(nullptr);
    _exit(0);
}
