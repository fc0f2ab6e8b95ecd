// Key discrimination and fidelity for keys/values of many lengths: a few stored items, same or different hashes.
// params: 0 mode, 1 key length, 2 value length
#include "model.h"
static char kb[2][256], big[70016], shadow[70016];
void vs_main() {
    unsigned mode = (unsigned)vs_param(0), kn = (unsigned)vs_param(1), vn = (unsigned)vs_param(2);
    if (mode == 0) {
        // two keys of the same length and the same hash that differ in exactly one (chosen) byte
        unsigned cand[] = {0, 7, 8, 15, 16, kn / 2, kn - 1}, pos = cand[vs_choose(7, "pos")];
        if (pos >= kn) vs_stop();
        vs_make_symbolic(kb[0], kn, "key"); memcpy(kb[1], kb[0], kn);
        uint8_t d = vs_u8("diff"); vs_assume(d != 0); kb[1][pos] ^= (char)d;
        uint32_t h = vs_u32("hash"); KeyDef k[2] = {{kb[0], kn, h}, {kb[1], kn, h}};
        Cache c = Cache::Create(4096, 1024, 4, true);
        Val v[2]; RefItem r[2];
        for (int i = 0; i < 2; ++i) { sym_val(v[i], 3, "val"); uint16_t f = vs_u16("flags"); c.do_set(make_item(c, k[i], v[i], f, 0)); r[i].present = true; r[i].v = v[i]; r[i].flags = f; }
        for (int i = 0; i < 2; ++i) expect_get(c, k[i], r[i], "a stored key is lost because another key differs from it in one byte only");
        vs_check(c.do_delete(k[0].s(), h), "delete misses a stored key");
        r[0].present = false;
        for (int i = 0; i < 2; ++i) expect_get(c, k[i], r[i], "delete removed the item of another key");
        vs_cover("one byte");
    } else if (mode == 1) {
        // one key is a proper prefix of the other, same hash
        unsigned kl = (unsigned)vs_param(2);
        vs_make_symbolic(kb[0], kn, "key");
        uint32_t h = vs_u32("hash"); KeyDef k[2] = {{kb[0], kl, h}, {kb[0], kn, h}};
        unsigned first = vs_choose(2, "first");
        Cache c = Cache::Create(4096, 1024, 4, true); RefItem r[2];
        expect_get(c, k[!first], r[!first], "lookup in an empty cache finds something");
        for (int j = 0; j < 2; ++j) { int i = j ? !first : first; Val v; sym_val(v, 2, "val"); uint16_t f = vs_u16("flags"); c.do_set(make_item(c, k[i], v, f, 0)); r[i].present = true; r[i].v = v; r[i].flags = f;
            for (int q = 0; q < 2; ++q) expect_get(c, k[q], r[q], "a key is mixed up with its prefix"); }
        vs_cover("prefix");
    } else {
        // fidelity for big keys and values with neighbours around
        size_t page = vn > 3000 ? 131072 : 4096;
        Cache c = Cache::Create(page * 4, page, 4, true);
        KeyDef nb[2] = {{"n1", 2, vs_u32("h1")}, {"n2", 2, vs_u32("h2")}}; RefItem r[2]; Val v;
        vs_make_symbolic(kb[0], kn, "key"); if (kn == 2) vs_assume(kb[0][0] != 'n');
        uint32_t h = vs_u32("hash"); KeyDef k = {kb[0], kn, h};
        sym_val(v, 2, "val"); c.do_set(make_item(c, nb[0], v, 7, 0)); r[0].present = true; r[0].v = v; r[0].flags = 7;
        for (unsigned i = 0; i < vn; ++i) big[i] = (char)(i * 37 + (i >> 8));
        unsigned at[] = {0, 1, vn / 2, vn - 1};
        if (vn) for (unsigned p : at) if (p < vn) vs_make_symbolic(big + p, 1, "byte");
        memcpy(shadow, big, vn);
        uint16_t fl = vs_u16("flags");
        ItemPtr it = c.create_item(k.s(), h, vn, fl, seconds(0)); it->assign_value(slice(big, vn)); c.do_set(it);
        sym_val(v, 2, "val"); c.do_set(make_item(c, nb[1], v, 9, 0)); r[1].present = true; r[1].v = v; r[1].flags = 9;
        memset(big, 0, sizeof big);
        ConstItemPtr g = c.do_get(k.s(), h);
        vs_check(g != nullptr, "a stored item is not found");
        vs_check(g->key().length() == kn && eq_bytes(g->key().begin(), kb[0], kn), "the key of the stored item differs");
        vs_check(g->value().length() == vn, "the value length of the stored item differs");
        vs_check(eq_bytes(g->value().begin(), shadow, vn), "the value of the stored item differs");
        vs_check(g->opaque_flags() == fl, "the flags of the stored item differ");
        for (int i = 0; i < 2; ++i) expect_get(c, nb[i], r[i], "a neighbour item is damaged or lost");
        vs_cover("fidelity");
    }
}
