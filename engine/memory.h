// Byte-addressed copy-on-write memory with per-byte symbolic overlay.
#pragma once
#include "expr.h"
#include <cstring>
#include <map>
#include <memory>
#include <vector>

static const unsigned CH = 256;
enum : uint8_t { B_UNINIT = 0, B_CONC = 1, B_SYM = 2 };

struct Chunk {
    int ref = 1;
    uint8_t data[CH];
    uint8_t st[CH];
    Expr** sym = nullptr;
    Chunk() {}
    explicit Chunk(bool zero) { memset(data, 0, CH); memset(st, zero ? B_CONC : B_UNINIT, CH); }
    Chunk(const Chunk& o) : ref(1) {
        memcpy(data, o.data, CH); memcpy(st, o.st, CH);
        if (o.sym) { sym = new Expr*[CH]; memcpy(sym, o.sym, sizeof(Expr*) * CH); }
    }
    ~Chunk() { delete[] sym; }
};
static inline void cref(Chunk* c) { if (c) c->ref++; }
static inline void cunref(Chunk* c) { if (c && --c->ref == 0) delete c; }

enum ObjKind : uint8_t { OK_GLOBAL, OK_HEAP, OK_STACK, OK_FUNC };

struct Obj {
    int ref = 1;
    uint64_t base, size;
    ObjKind kind; bool readonly = false, zero = false;
    uint32_t id = 0;
    const char* name = "";
    bool dense;
    std::vector<Chunk*> dv;
    std::map<uint64_t, Chunk*> sv;
    Obj(uint64_t b, uint64_t s, ObjKind k, bool z) : base(b), size(s), kind(k), zero(z) {
        dense = s <= (1u << 20);
        if (dense) dv.assign((s + CH - 1) / CH, nullptr);
    }
    Obj(const Obj& o) : ref(1), base(o.base), size(o.size), kind(o.kind), readonly(o.readonly), zero(o.zero), id(o.id), name(o.name), dense(o.dense), dv(o.dv), sv(o.sv) {
        for (auto c : dv) cref(c);
        for (auto& c : sv) cref(c.second);
    }
    ~Obj() { for (auto c : dv) cunref(c); for (auto& c : sv) cunref(c.second); }
    const Chunk* rd(uint64_t off) const {
        uint64_t i = off / CH;
        if (dense) return dv[i];
        auto it = sv.find(i); return it == sv.end() ? nullptr : it->second;
    }
    Chunk* wr(uint64_t off) {
        uint64_t i = off / CH;
        Chunk** p = dense ? &dv[i] : &sv[i];
        if (!*p) *p = new Chunk(zero);
        else if ((*p)->ref > 1) { Chunk* n = new Chunk(**p); (*p)->ref--; *p = n; }
        return *p;
    }
};
static inline void oref(Obj* o) { if (o) o->ref++; }
static inline void ounref(Obj* o) { if (o && --o->ref == 0) delete o; }

// persistent AVL tree keyed by base address
struct Node { int ref; int h; uint64_t key; Obj* obj; Node *l, *r; };
static inline Node* nref(Node* n) { if (n) n->ref++; return n; }
static inline void nunref(Node* n) {
    while (n && --n->ref == 0) { nunref(n->l); Node* r = n->r; ounref(n->obj); delete n; n = r; }
}
static inline int nh(Node* n) { return n ? n->h : 0; }
// takes ownership of l, r, obj references
static inline Node* nmk(uint64_t k, Obj* o, Node* l, Node* r) { return new Node{1, 1 + std::max(nh(l), nh(r)), k, o, l, r}; }
static inline Node* nbal(uint64_t k, Obj* o, Node* l, Node* r) {
    if (nh(l) > nh(r) + 1) {
        if (nh(l->l) >= nh(l->r)) {
            oref(l->obj);
            Node* res = nmk(l->key, l->obj, nref(l->l), nmk(k, o, nref(l->r), r)); nunref(l); return res;
        }
        Node* lr = l->r; oref(lr->obj); oref(l->obj);
        Node* res = nmk(lr->key, lr->obj, nmk(l->key, l->obj, nref(l->l), nref(lr->l)), nmk(k, o, nref(lr->r), r)); nunref(l); return res;
    }
    if (nh(r) > nh(l) + 1) {
        if (nh(r->r) >= nh(r->l)) {
            oref(r->obj);
            Node* res = nmk(r->key, r->obj, nmk(k, o, l, nref(r->l)), nref(r->r)); nunref(r); return res;
        }
        Node* rl = r->l; oref(rl->obj); oref(r->obj);
        Node* res = nmk(rl->key, rl->obj, nmk(k, o, l, nref(rl->l)), nmk(r->key, r->obj, nref(rl->r), nref(r->r))); nunref(r); return res;
    }
    return nmk(k, o, l, r);
}
// functions below borrow n (do not consume it); obj reference is consumed
static inline Node* nins(Node* n, uint64_t k, Obj* o) {
    if (!n) return nmk(k, o, nullptr, nullptr);
    if (k == n->key) return nmk(k, o, nref(n->l), nref(n->r));
    oref(n->obj);
    if (k < n->key) return nbal(n->key, n->obj, nins(n->l, k, o), nref(n->r));
    return nbal(n->key, n->obj, nref(n->l), nins(n->r, k, o));
}
static inline Node* nmin(Node* n) { while (n->l) n = n->l; return n; }
static inline Node* ndel(Node* n, uint64_t k) {
    if (!n) return nullptr;
    if (k < n->key) { oref(n->obj); return nbal(n->key, n->obj, ndel(n->l, k), nref(n->r)); }
    if (k > n->key) { oref(n->obj); return nbal(n->key, n->obj, nref(n->l), ndel(n->r, k)); }
    if (!n->l) return nref(n->r);
    if (!n->r) return nref(n->l);
    Node* m = nmin(n->r); oref(m->obj);
    return nbal(m->key, m->obj, nref(n->l), ndel(n->r, m->key));
}

struct Memory {
    Node* root = nullptr;
    Obj* last = nullptr; // borrowed pointer cache; valid while root unchanged
    Memory() {}
    Memory(const Memory& o) : root(nref(o.root)), last(nullptr) {}
    Memory& operator=(const Memory& o) { if (this != &o) { nunref(root); root = nref(o.root); last = nullptr; } return *this; }
    ~Memory() { nunref(root); }
    Obj* find(uint64_t addr) { // object with base <= addr < base+size (size 0 objects: addr==base)
        if (last && addr - last->base < last->size) return last;
        Node *n = root, *best = nullptr;
        while (n) { if (n->key <= addr) { best = n; n = n->r; } else n = n->l; }
        if (best && (addr - best->obj->base < best->obj->size)) { last = best->obj; return last; }
        return nullptr;
    }
    Obj* exact(uint64_t addr) {
        Node* n = root;
        while (n) { if (n->key == addr) return n->obj; n = addr < n->key ? n->l : n->r; }
        return nullptr;
    }
    void add(Obj* o) { Node* r = nins(root, o->base, o); nunref(root); root = r; last = nullptr; }
    void del(uint64_t base) { Node* r = ndel(root, base); nunref(root); root = r; last = nullptr; }
    // writable object: unshare the path if needed
    Obj* writable(Obj* o) {
        // is the path root->node exclusively owned?
        Node* n = root; bool shared = false;
        while (n) { if (n->ref > 1) { shared = true; break; } if (n->key == o->base) break; n = o->base < n->key ? n->l : n->r; }
        if (!shared && n && n->obj->ref == 1) return n->obj;
        Obj* c = new Obj(*o);
        if (!shared && n) { ounref(n->obj); n->obj = c; last = nullptr; return c; }
        add(c);
        return c;
    }
};
