// Construction parameters and size limits.  params: 0 mode (0 invalid construction parameters, 1 valid ones, 2 key and value length limits, 3 values of boundary lengths are kept in full, also when extended), 1 page size (mode 0: which part is no power of two: 0 memory, 1 page, 2 neither), 2 pages, 3 minimal value length
#include "model.h"
#include <stdexcept>
static bool p2(uint64_t x) { return x != 0 && (x & (x - 1)) == 0; }
static void invalid() {
    uint64_t mem, page, dict = vs_u64("dict"); int part = (int)vs_param(1);
    if (part == 0) { mem = vs_u64("memory"); page = vs_u64("page"); vs_assume(!p2(mem)); }
    else { mem = 1ull << vs_choose(64, "memory"); if (part == 1) { page = vs_u64("page"); vs_assume(!p2(page)); } else page = 1ull << vs_choose(64, "page"); }
    bool ok = p2(mem) && p2(page) && p2(dict) && page >= 256 && page <= 0xffffffffull && (mem >> 2) >= page && dict <= 0xffffffffull;
    vs_assume(!ok); bool refused = false;
    try { Cache c = Cache::Create(mem, page, dict, true); } catch (const std::invalid_argument&) { refused = true; } catch (const std::bad_alloc&) { }
    vs_check(refused, "impossible construction parameters are accepted"); vs_cover("end");
}
static void valid() {
    uint64_t page = 256ull << vs_choose(5, "page"), mem = page * (4ull << vs_choose(2, "pages")), dict = 1ull << vs_choose(5, "dict"); bool ev = vs_choose(2, "evict");
    Cache c = Cache::Create(mem, page, dict, ev); KeyDef k = {"key", 3, vs_u32("hash")}; Val v; sym_val(v, 3, "value");
    ItemPtr i = make_item(c, k, v, 5, 0); c.do_set(i); RefItem r; r.present = true; r.v = v; r.flags = 5; expect_get(c, k, r, "item stored in a new cache is lost"); vs_cover("end");
}
static void lengths() {
    uint64_t page = (uint64_t)vs_param(1), pages = (uint64_t)vs_param(2); Cache c = Cache::Create(page * pages, page, 16, true);
    static const unsigned klens[] = {1, 2, 249, 250, 251, 255, 256, 257, 300, 506, 512, 65537}; unsigned kn = klens[vs_choose(12, "keylen")];
    char* key = new char[kn]; for (unsigned i = 0; i < kn; ++i) key[i] = (char)('a' + i % 23); key[0] = (char)vs_u8("kb");
    uint64_t vlen = vs_u64("vallen"); vs_assume(vlen >= (uint64_t)vs_param(3)); uint32_t h = vs_u32("hash");
    bool fits = vlen <= page && 8 + sizeof(cache::Item) + kn + vlen <= page; // block header, item header, key, value
    ItemPtr it = nullptr; Outcome o = guarded([&] { it = c.create_item(slice(key, kn), h, vlen, 3, seconds(0)); return true; });
    if (kn > 250) { vs_check(o == ERR_KEY, "key longer than 250 bytes must be refused as such"); vs_cover("long key"); }
    else if (!fits) { vs_check(o == ERR_BIG, "item that does not fit a page must be refused as too big"); vs_cover("too big"); }
    else {
        vs_check(o == OK_TRUE, "item within the limits is refused"); if (o != OK_TRUE) return;
        vs_check(it->key().length() == kn && eq_bytes(it->key().begin(), key, kn), "key of the created item"); vs_check(it->value().length() == vlen, "value length of the created item"); vs_check(it->opaque_flags() == 3, "flags of the created item");
        const char* p = it->value().begin(); vs_check((uintptr_t)p + vlen <= (uintptr_t)vs_arena + vs_arena_size && (uintptr_t)it >= (uintptr_t)vs_arena, "item outside of the arena"); vs_check((uintptr_t)it / page == ((uintptr_t)p + vlen - 1) / page, "item crosses its page");
        c.do_set(it); ConstItemPtr g = c.do_get(slice(key, kn), h); vs_check(g == it, "stored item is not found"); vs_cover("stored");
    }
    vs_cover("end");
}
static bool probe(slice v, const char* src, size_t n, size_t at) { if (v.length() != n) return false; bool ok = true; static const size_t d[] = {0, 1, 2, 127, 254, 255, 256, 32767, 65534, 65535, 65536, 65537, 130000}; (void)at;
    for (size_t x : d) { if (x < n) ok = ok & (v.begin()[x] == src[x]); if (x < n) ok = ok & (v.begin()[n - 1 - x] == src[n - 1 - x]); } return ok; }
static void full() {
    static const size_t lens[] = {0, 1, 127, 128, 255, 256, 257, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 99999, 130900}; size_t n = lens[vs_choose(17, "vallen")], kn = vs_choose(2, "keylen") ? 250 : 1; unsigned how = vs_choose(4, "how"); uint32_t h = vs_u32("hash");
    Cache c = Cache::Create(131072 * 4, 131072, 16, true); static char src[131072]; for (size_t i = 0; i < 131072; ++i) src[i] = (char)(i * 7 + (i >> 8)); vs_make_symbolic(src, 4, "head"); if (n >= 8) vs_make_symbolic(src + n - 4, 4, "tail"); char key[250]; for (unsigned i = 0; i < 250; ++i) key[i] = (char)('a' + i % 23);
    if (8 + sizeof(cache::Item) + kn + n > 131072) return; slice k(key, kn); size_t n0 = how < 2 ? n : n / 2; // how: 0 set, 1 replace a small one, 2 append, 3 prepend the second half
    if (how == 1) { ItemPtr i = c.create_item(k, h, 3, 1, seconds(0)); i->assign_value(slice("abc", 3)); c.do_set(i); }
    { const char* part = how == 3 ? src + (n - n0) : src; ItemPtr i = c.create_item(k, h, n0, 9, seconds(0)); i->assign_value(slice(part, n0)); vs_check(i->value().length() == n0, "value length after the value is assigned"); if (how == 1) c.do_replace(i); else c.do_set(i); }
    if (how >= 2) { const char* part = how == 2 ? src + n0 : src; ItemPtr i = c.create_item(k, h, n - n0, 9, seconds(0)); i->assign_value(slice(part, n - n0)); try { if (how == 2) c.do_append(i); else c.do_prepend(i); } catch (const std::bad_alloc&) { return; } catch (const system_error&) { return; } }
    ConstItemPtr g = c.do_get(k, h); vs_check(g != nullptr, "stored item is not found"); if (!g) return; vs_check(g->key().length() == kn && eq_bytes(g->key().begin(), key, (unsigned)kn), "key of the item"); vs_check(g->opaque_flags() == 9, "flags of the item"); vs_check(g->value().length() == n, "value has a different length"); vs_check(probe(g->value(), src, n, 0), "value differs"); vs_cover("full"); vs_cover("end");
}
void vs_main() { switch (vs_param(0)) { case 0: invalid(); break; case 1: valid(); break; case 2: lengths(); break; case 3: full(); break; } }
