"""Property texts, harnesses, parameters and bounds.  check.py runs them, gen.py writes properties.jsonl and MANIFEST.json."""
from check import J

HOOK_COMMIT = 'c81df2646d65c7980a666aa468869ee64780a487'
COMMON_ASSUMPTIONS = [
    'x86-64 Linux, clang 18 -O2 IR (NDEBUG unless the run says debug); compiler, symbolic executor (engine/) and Z3 are trusted; sampled paths of every run are re-executed by the native build and compared',
    'single threaded use (the cache is documented as not thread safe); the monotonic clock is a harness controlled variable',
    'malloc/realloc/aligned_alloc and the libstdc++ functions outside the IR are modelled by rt/ (allocation succeeds unless the harness injects a failure)',
]
CORE = ['src/cachelot/item.cpp', 'src/cachelot/stats.cpp', 'src/cachelot/common.cpp']
HOOK = ['CACHELOT_DICT_REHASH_BATCH=1']
PROPS = {}


def P(pid, title, statement, over, quant, why, files, mech, **kw):
    PROPS[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, **kw)


# op bits of hist.cpp
SET, GET, DEL, ADD, REPL, CAS, APP, PRE, TOUCH, FLUSH, MOVE = [1 << i for i in range(11)]


def hist(mask, n, keys, dsize, lens=3, pinned=False, defs=(), pre=(), **kw):
    nl = bin(mask).count('1')
    return J('hist.cpp', [[mask, n, keys, dsize, p, lens, *pre] for p in (range(nl) if pinned else [-1])], srcs=CORE, defs=defs, cover=['end'], **kw)


P('C01', 'What was stored is what comes back',
  'After any sequence of cache operations that fits in memory and lets nothing expire, looking a key up finds an item exactly when the key was stored and not deleted, and returns exactly the value bytes and flags last stored under exactly that key. '
  'This does not depend on key bytes, key hashes (collisions and hash 0 included), value length, or on the cache object having been moved.',
  ['inputs', 'histories'], 'every history of the listed operations up to the bound, every 32-bit hash of every key (free, collisions included), every value byte and flag',
  'the unit tests replay a handful of random histories with real FNV hashes, so collisions, hash value 0 and order-dependent corruption are sampled at best',
  ['src/cachelot/cache.h', 'src/cachelot/dict.h', 'src/cachelot/hash_table.h', 'src/cachelot/item.h'],
  [('lookup and replacement of items', 'src/cachelot/cache.h: retrieve_item, replace_item_at, insert_item_at'), ('robin hood probing with key comparison', 'src/cachelot/hash_table.h: lookup'), ('item layout', 'src/cachelot/item.h: assign_value, value, key')],
  quick=[hist(2047, 2, 2, 1), hist(2047, 3, 2, 4, lens=2, pinned=True), hist(SET | DEL, 4, 3, 1, lens=1, defs=HOOK), hist(2047, 2, 4, 4, lens=1, defs=HOOK, pre=(4, 1)), hist(SET | DEL | APP, 2, 4, 4, lens=1, defs=HOOK, pre=(3, 0)), hist(SET | DEL, 3, 4, 4, lens=1, defs=HOOK, pre=(5, 1)),
         J('keys.cpp', [[0, n] for n in (1, 2, 3, 8, 250)] + [[1, n, m] for n, m in ((1, 2), (2, 5), (127, 128), (249, 250))] + [[2, k, v] for k, v in ((1, 0), (1, 1), (250, 64), (3, 255), (3, 256), (3, 257), (7, 65535), (7, 65536), (9, 70000))], srcs=CORE, cover=['end'])],
  thorough=[hist(2047, 3, 2, 1, pinned=True), hist(2047, 3, 3, 1, pinned=True), hist(2047, 4, 2, 4, lens=1, pinned=True, time=1000), hist(SET | DEL, 5, 3, 1, lens=1, defs=HOOK), hist(2047, 3, 4, 4, lens=1, defs=HOOK, pre=(4, 1), pinned=True), hist(2047, 2, 4, 4, lens=1, defs=HOOK, pre=(4, 0), pinned=True), hist(SET | DEL | ADD, 4, 4, 4, lens=1, defs=HOOK, pre=(5, 1), pinned=True),
            J('keys.cpp', [[0, n] for n in range(1, 251, 3)] + [[1, n, m] for n in range(1, 250, 8) for m in range(n + 1, 251, 31)] + [[2, k, v] for k in (1, 17, 250) for v in (0, 1, 127, 128, 255, 256, 511, 512, 32767, 32768, 65535, 65536, 70000)], srcs=CORE, cover=['end'])],
  bounds='all 11 operation kinds, 3-operation histories over 2 keys (2 ops from a 1-slot table; 4 store/delete operations over 3 keys during table growth; 2-3 operations of all kinds in a growing dictionary that already holds 3-5 other keys, hashes free or all colliding), values of 0..3 symbolic bytes; keys of 1..250 bytes differing in one symbolic byte or being prefixes, under one hash; values up to 70000 bytes',
  outside='longer histories, more than 3 keys with free hashes at a time, several symbolic differences inside long keys')

P('C02', 'Conditional stores act exactly on their condition',
  'add stores exactly when the key is absent, replace exactly when it is present, and compare-and-swap exactly when the key is present and the given token equals the item\'s current token; otherwise nothing changes and the reported outcome says why. '
  'Every successful modification (store, append, prepend, incr, decr) gives the item a token never used before.',
  ['inputs', 'histories'], 'every history up to the bound, every 64-bit token, every hash, value and flag',
  'unit tests use a few tokens in fixed sequences; the property is over every token value and operation order',
  ['src/cachelot/cache.h'],
  [('conditions', 'src/cachelot/cache.h: do_add, do_replace, do_cas'), ('token generation', 'src/cachelot/cache.h: create_item, do_extend, do_arithmetic')],
  quick=[hist(ADD | REPL | CAS | DEL | SET, 3, 2, 4, lens=2), hist(CAS | APP | PRE | SET, 3, 1, 4, lens=2), hist(ADD | REPL | CAS, 4, 1, 4, lens=1)],
  thorough=[hist(ADD | REPL | CAS | DEL | SET, 4, 2, 4, lens=1, pinned=True, time=1000), hist(CAS | APP | PRE | SET | TOUCH, 4, 1, 4, lens=2, pinned=True, time=1000), hist(ADD | REPL | CAS | DEL | MOVE, 4, 1, 1, lens=2)],
  bounds='3-operation histories over 2 keys and 4-operation histories over 1 key of set/add/replace/cas/append/prepend/delete with symbolic tokens, hashes, values (0..3 bytes), flags',
  outside='longer histories; token wrap-around after 2^64 stores')

P('C05', 'Items live exactly as long as their time to live',
  'An item stored or touched with a time to live of T seconds is visible at every moment before T seconds have passed and at no moment after; an item without a time to live never expires. Append, prepend, incr and decr keep the expiration of the item they modify.',
  ['inputs', 'histories', 'schedules'], 'every TTL value and every (monotonic) advance of the clock between operations, over all operation histories up to the bound',
  'tests sleep for a second or two with one or two TTL values; clock values and TTLs near the numeric limits and expiry between two steps of a sequence are never reached',
  ['src/cachelot/cache.h', 'src/cachelot/item.h', 'src/cachelot/expiration_clock.h'],
  [('expiration arithmetic', 'src/cachelot/item.h: set_ttl, is_expired'), ('removal of expired items on access', 'src/cachelot/cache.h: retrieve_item, do_flush_all'), ('carry over', 'src/cachelot/cache.h: do_extend, do_arithmetic')],
  quick=[J('expire.cpp', [[0, o, 0, 1] for o in range(6)] + [[2, -1]] + [[3, p] for p in range(12)], srcs=CORE, cover=['live', 'gone']), J('expire.cpp', [[2, -1, 0, 0, n] for n in (6, 7, 8)], srcs=CORE, defs=HOOK, cover=['live', 'gone'])],
  thorough=[J('expire.cpp', [[0, o, 0, 1] for o in range(6)] + [[2, -1]] + [[3, p] for p in range(12)] + [[4, p] for p in range(12)], srcs=CORE, cover=['live', 'gone'], time=900), J('expire.cpp', [[2, -1, 0, 0, n] for n in (6, 7, 8)] + [[3, p, 0, 0, n] for p in range(12) for n in (6, 7, 8)], srcs=CORE, defs=HOOK, cover=['live', 'gone'], time=600)],
  bounds='histories of 3 operations with symbolic 32-bit TTLs and a symbolic clock before every operation; the clock ticking by any amount at any of its first 4 readings within one append, prepend, incr, decr, replace or add (16-bit times) (thorough: 4 operations, as far as the time budget goes)',
  outside='sub-second clock resolution (truncated to seconds by the expiration clock); longer histories')

P('C06', 'The allocator hands out valid, disjoint, stable memory',
  'Every block handed out lies inside the arena, within one page, is aligned, at least as large as requested, and overlaps no other live block; operations on other blocks never change its content. '
  'Allocation with eviction succeeds for every size up to the page limit, and an evicted block is reported exactly once, while still intact.',
  ['inputs', 'histories', 'configurations'], 'every history of alloc/evict/free/realloc/touch up to the bound, every requested size in the symbolic positions, page and arena sizes listed',
  'the unit test runs random allocations for a fixed seed; block splitting and merging at page edges and size-class boundaries depends on exact sizes and order',
  ['src/cachelot/memalloc.h', 'src/cachelot/memalloc-inl.h', 'src/cachelot/intrusive_list.h'],
  [('block split and merge', 'src/cachelot/memalloc-inl.h: split, merge, checkout'), ('size classes', 'src/cachelot/memalloc-inl.h: group_by_size'), ('page eviction', 'src/cachelot/memalloc-inl.h: alloc_or_evict, pages')],
  quick=[J('mem.cpp', [[31, 4, 256, 4, 0, p, 0, 0] for p in (0, 1)] + [[15, 4, 512, 4, 3, 0, 0, 0], [3, 5, 256, 4, 2, 1, 0, 0], [7, 4, 256, 4, 1, 0, 0, 0], [15, 3, 256, 4, 0, 0, 1, 0], [15, 3, 256, 4, 0, 1, 1, 0], [3, 2, 256, 4, 0, 0, 2, 0], [9, 2, 256, 4, 0, 0, 2, 0], [7, 4, 1024, 8, 3, 0, 0, 0], [15, 3, 1 << 31, 4, 5, 0, 0, 0], [15, 3, 256, 4, 0, -1, 0, 0, 8, 120], [14, 2, 256, 4, 0, -1, 1, 0, 16, 56], [15, 5, 256, 4, 0, 0, 0, 0]], srcs=CORE, cover=['end'])],
  thorough=[J('mem.cpp', [[31, 5, 256, 4, 0, p, 0, 0] for p in (0, 1)] + [[15, 5, 512, 4, 3, 0, 0, 0], [3, 6, 256, 4, 2, 1, 0, 0], [15, 5, 256, 4, 1, 0, 0, 0], [15, 4, 256, 4, 0, 0, 1, 0], [15, 4, 256, 4, 0, 1, 1, 0], [15, 3, 256, 4, 0, 0, 2, 0], [15, 3, 256, 4, 0, 1, 2, 0], [15, 3, 512, 4, 0, 0, 2, 0], [7, 5, 1024, 8, 3, 0, 0, 0], [15, 4, 4096, 4, 4, 0, 1, 0], [15, 3, 1 << 31, 4, 5, 0, 0, 0]], srcs=CORE, cover=['end'], time=600)],
  bounds='4-5 operation histories; 256/512/1024-byte pages in arenas of 4-8 pages (and 2 GB pages in an 8 GB arena); requested sizes from fixed sets around every size class edge plus 1-2 fully symbolic sizes 1..page limit (all values)',
  outside='longer histories, more simultaneous blocks; a plain allocation may fail although a fitting block exists in a fuller size class (documented behaviour of the size classes, not asserted)')

P('C07', 'Freed memory is usable again and accounted for',
  'After everything that was allocated has been freed or evicted, in any order, every page of the arena can be allocated again as a whole and not a byte more; at all times the reported used memory is the size of the live blocks.',
  ['inputs', 'histories'], 'every history up to the bound followed by freeing all blocks, sizes symbolic in one or two positions',
  'a leak of one free block after one particular free order shows only as slow capacity loss; tests do not look for it',
  ['src/cachelot/memalloc-inl.h', 'src/cachelot/stats.h'],
  [('merging of free neighbours', 'src/cachelot/memalloc-inl.h: merge, free'), ('statistics', 'src/cachelot/memalloc-inl.h: STAT_INCR/STAT_DECR mem.*')],
  quick=[J('mem.cpp', [[15, 3, 256, 4, 0, -1, 0, 1], [15, 3, 512, 4, 3, -1, 0, 1], [5, 2, 256, 4, 0, 0, 2, 1], [5, 4, 256, 4, 1, 0, 0, 1], [6, 4, 256, 4, 2, 1, 0, 1], [15, 3, 256, 4, 0, 0, 1, 1], [7, 3, 256, 4, 0, -1, 0, 1, 7, 120]], srcs=CORE, cover=['end'])],
  thorough=[J('mem.cpp', [[15, 4, 256, 4, 0, -1, 0, 1], [15, 4, 512, 4, 3, -1, 0, 1], [15, 3, 256, 4, 0, 0, 2, 1], [15, 3, 256, 4, 0, 1, 2, 1], [7, 5, 256, 4, 1, 0, 0, 1], [6, 5, 256, 4, 2, 1, 0, 1], [15, 4, 256, 4, 0, 0, 1, 1], [15, 2, 256, 4, 0, -1, 2, 1], [15, 3, 256, 4, 0, -1, 0, 1, 7, 120], [15, 2, 256, 4, 0, -1, 1, 1, 6, 120]], srcs=CORE, cover=['end'], time=600)],
  bounds='histories of 3-4 operations (one or two fully symbolic sizes) in 4-page arenas of 256/512-byte pages, then all blocks freed in address-independent order and all pages allocated',
  outside='longer histories; larger arenas')

U64D, DIG = [20, 19, 10, 10, 5, 5, 3, 3], None
def itos_params():
    out = []
    for t, mx in enumerate([str(2**64 - 1), str(2**63 - 1), str(2**32 - 1), str(2**31 - 1), '65535', '32767', '255', '127']):
        for neg in ([0, 1] if t % 2 else [0]):
            for n in range(1, len(mx)):
                out.append([t, n, -1, neg])
            for pre in range(0, len(mx) + 1):
                if pre == len(mx) or mx[pre] > ('1' if pre == 0 else '0'):
                    out.append([t, len(mx), pre, neg])
    return out


P('C13', 'Numbers are formatted exactly',
  'Converting an integer of any supported width to text produces its canonical decimal form: no leading zeros, a leading minus exactly for negative numbers, nothing written outside the produced characters, and reading the text back yields the number.',
  ['inputs'], 'every value of every 8, 16, 32 and 64-bit signed and unsigned type',
  'the unit test converts a few values per type; a wrong entry in the digit table or branch affects a sliver of the 2^64 values',
  ['src/cachelot/string_conv.h'],
  [('digit-pair conversion', 'src/cachelot/string_conv.h: int_to_str and its per-width helpers')],
  quick=[J('itos.cpp', itos_params(), srcs=CORE, cover=['end'], samples=3)], thorough=[J('itos.cpp', itos_params(), srcs=CORE, cover=['end'], samples=20)],
  bounds='complete: every value of the eight integer types, split by number of digits and common prefix with the maximum', outside='bases other than 10 (not offered)')

P('C03', 'Append and prepend compose exactly or change nothing',
  'Append (prepend) to an existing item makes its value the old value followed (preceded) by the given bytes and keeps flags and expiration; on an absent key nothing is stored. '
  'When the result would exceed the item limit or memory is short the operation reports exactly that error, and the item and all others stay as they were.',
  ['inputs', 'histories', 'configurations'], 'every length of the old value and of the piece (one of them symbolic over its whole range, the other from a set), all their bytes, flags, TTL and hashes; empty, partly filled and full memory',
  'tests extend one short value in an empty cache; boundary lengths, full memory and carried-over attributes are not sampled',
  ['src/cachelot/cache.h', 'src/cachelot/item.h'],
  [('composition', 'src/cachelot/cache.h: do_extend; src/cachelot/item.h: assign_compose'), ('limits', 'src/cachelot/cache.h: max_item_size')],
  quick=[J('ext.cpp', [[256, 1, 0, 0, -1, 3, 0, 1], [256, 1, 0, 0, 1, -1, 0, 1], [256, 1, 3, 100, -1, 20, 0, 1], [256, 1, 4, 60, 30, -1, 0, 1], [256, 0, 6, 90, 60, -1, 0, 1], [256, 1, 6, 100, -1, 9, 0, 1], [1024, 1, 0, 0, 3, 4, 1, 4], [1024, 1, 0, 0, 0, 0, 1, 3],
                       [1024, 1, 0, 0, 200, 60, 1, 1], [1024, 1, 0, 0, -1, 9, 0, 1], [262144, 1, 0, 0, 65530, 10, 1, 1], [262144, 1, 0, 0, 250, 10, 1, 2], [256, 1, 0, 0, 20, 30, 0, 4], [256, 1, 0, 0, 20, 3, 0, 1, 1]], srcs=CORE, cover=['end', 'extended', 'too big', 'no memory']), hist(APP | PRE | SET | DEL, 3, 2, 4, lens=2)],
  thorough=[J('ext.cpp', [[256, e, f, l, -1, m, 0, 1] for e in (0, 1) for f, l in ((0, 0), (3, 100), (4, 60), (8, 60), (12, 40)) for m in (0, 1, 3, 20, 90, 200)] + [[256, e, f, l, m, -1, 0, 1] for e in (0, 1) for f, l in ((0, 0), (3, 100), (4, 60), (8, 60)) for m in (0, 1, 30, 100, 200)] + [[1024, 1, 0, 0, -1, m, 0, 1] for m in (0, 9, 300)] + [[1024, 1, 0, 0, 3, 4, 1, 5], [256, 1, 0, 0, 20, 30, 0, 5], [262144, 1, 0, 0, 65530, 10, 1, 2]] + [[256, 1, 0, 0, m, 3, 0, k, 1] for m in (0, 20, 60) for k in (1, 2)], srcs=CORE, cover=['end']), hist(APP | PRE | SET | DEL | CAS, 4, 2, 4, lens=1, pinned=True)],
  bounds='one extension with one length fully symbolic (0..limit) and the other from a set, up to 4-5 consecutive extensions of fixed lengths; pages of 256/1024/262144 bytes; first 40 bytes of each part symbolic; the clock may tick during the extension',
  outside='both lengths symbolic at once; longer chains')


def arith_params(dense):
    mx = str(2**64 - 1)
    pref = [p for p in range(0, 21) if p == 20 or mx[p] > ('1' if p == 0 else '0')]
    nums = [(n, -1) for n in range(1, 20)] + [(20, p) for p in ([x for x in pref if x < 17 or x == 20] if dense else (1, 5, 10, 14, 20))] + [(1, -2)]
    out = []
    for op in (0, 1):
        for i, (n, p) in enumerate(nums):
            out.append([0, n, p, op, 1])
            for k, (m, q) in enumerate(nums):
                if op == 0 and (m < n or (m == n == 20 and q < p)) or op == 1 and (m > n or (m == n == 20 and q > p)):
                    continue
                if p == -2 and (op == 1 and q != -2):
                    continue
                if q == -2 and op == 0 and p != -2:
                    continue
                if dense or m in (n, n + 1, n - 1, 1) or (m, q) == (20, 10) and n % 4 == 0:
                    out.append([0, n, p, op, 0, m, q])
    return out


P('C04', 'Counters are exact saturating 64-bit decimals',
  'incr and decr on an item holding a decimal number below 2^64 return and store exactly min(value + delta, 2^64-1) respectively max(value - delta, 0) as canonical decimal text, keeping flags and expiration, whatever has to be evicted to make room. '
  'On any other content they fail with an error and leave the item unchanged; an absent key is reported and not created.',
  ['inputs', 'histories'], 'every 64-bit value and delta (split by the number of digits of value and result), every short non-numeric content, flags, TTL, hash',
  'tests use small numbers; wrap-around and digit-count changes near 2^64 and evictions during the operation are a sliver of the input space',
  ['src/cachelot/cache.h', 'src/cachelot/string_conv.h'],
  [('arithmetic and replacement', 'src/cachelot/cache.h: do_arithmetic'), ('text conversion', 'src/cachelot/string_conv.h: str_to_int, int_to_str')],
  quick=[J('arith.cpp', arith_params(False), srcs=CORE, cover=['done', 'end'], samples=2, time=60, qto=20000), J('arith.cpp', [[1, 0, 0, 0, 2], [1, 1, 0, 0, 2], [1, 1, 0, 1, 2], [1, 2, 0, 0, 2], [1, 2, 0, 1, 2]] + [[2, n, -1, o, 0, m, -1] for n, o, m in ((1, 0, 1), (1, 0, 2), (2, 0, 3), (3, 1, 3), (3, 1, 2), (9, 0, 10), (10, 1, 9))], srcs=CORE, cover=['error', 'evicted'])],
  thorough=[J('arith.cpp', arith_params(True), srcs=CORE, cover=['done', 'end'], samples=2), J('arith.cpp', [[1, n, 0, o, 2] for n in (0, 1, 2, 3) for o in (0, 1)] + [[2, n, -1, o, 0, m, -1] for n in range(1, 15) for o, m in ((0, n), (0, n + 1), (1, n), (1, max(1, n - 1)))], srcs=CORE, cover=['error', 'evicted'])],
  bounds='all values of every digit count 1..20 against all results of the listed digit counts (quick: neighbours and 20 digits; thorough: all pairs) and all saturating deltas; arbitrary content of 0..2 bytes (thorough 3); counters in a full 4-page cache',
  outside='arbitrary content longer than 3 bytes (digit strings are complete); values with leading zeros of more than 20 characters')

P('C08', 'Evictions make room, are reported, and take nothing else',
  'With evictions enabled every store that fits the item limit succeeds, whatever is in the cache. Every item that leaves the cache to make room is reported to the eviction callback exactly once, with its key and value intact, and is then gone; every other item keeps its value, flags and presence.',
  ['inputs', 'histories', 'configurations'], 'every value length and every operation order up to the bound in full caches, item contents symbolic',
  'the tests count evictions in random workloads; they do not compare what disappeared with what was reported, item by item, for every size',
  ['src/cachelot/cache.h', 'src/cachelot/memalloc-inl.h'],
  [('eviction', 'src/cachelot/cache.h: create_item, on_eviction; src/cachelot/memalloc-inl.h: alloc_or_evict'), ('removal from the index', 'src/cachelot/dict.h: remove')],
  quick=[J('evict.cpp', [[256, 1, 12, 60, 1, 31, -1, 0, 0], [256, 1, 4, 200, 2, 31, -1, 1, 0], [1024, 1, 20, 150, 1, 31, -1, 3, 0], [256, 1, 12, 60, 1, 1, -1, 0, 0, 0, 1], [256, 1, 4, 200, 2, 17, -1, 1, 0, 0, 1], [256, 1, 20, 20, 1, 31, -1, 2, 0], [256, 1, 12, 60, 1, 31, -1, 0, 0, 0, 0, 1], [256, 1, 4, 200, 2, 17, -1, 1, 0, 0, 0, 1], [256, 1, 20, 20, 1, 7, -1, 4, 0], [256, 1, 15, 20, 2, 2017, -1, 2, 0, 0, 0, 0, 1], [256, 1, 14, 60, 2, 2017, -1, 2, 0, 0, 0, 0, 1]], srcs=CORE, cover=['end', 'evicted'])],
  thorough=[J('evict.cpp', [[256, 1, 12, 60, 2, 31, -1, 0, 0], [256, 1, 4, 200, 3, 31, -1, 1, 0], [1024, 1, 20, 150, 2, 31, -1, 3, 0], [256, 1, 12, 60, 1, 1, -1, 0, 0, 0, 1], [256, 1, 4, 200, 2, 17, -1, 1, 0, 0, 1], [256, 1, 20, 20, 2, 31, -1, 2, 0], [1024, 1, 20, 150, 1, 1, -1, 3, 0, 0, 1], [256, 1, 12, 60, 1, 31, -1, 0, 0, 0, 0, 1], [256, 1, 4, 200, 2, 17, -1, 1, 0, 0, 0, 1], [256, 1, 20, 20, 2, 7, -1, 4, 0]] + [[256, 1, n, l, 2, 2047, p, 2, 0, 0, 0, 0, 1] for n, l in ((15, 20), (14, 60), (8, 60)) for p in range(11)] + [[256, 1, 0, 0, 3, 31, p, 0, 1] for p in range(5)], srcs=CORE, cover=['end', 'evicted'], time=600)],
  bounds='caches filled with 4..20 items, then 1-2 (thorough 2-3) operations (all 11 kinds, counters included) with sizes from sets around the size classes or with every value length 0..limit; flags and TTL symbolic in some runs; 256 and 1024 byte pages, 4 pages',
  outside='more operations after filling; which item is evicted is not specified (approximate LRU); an item created but not stored yet may be evicted by a later creation')

P('C09', 'With evictions disabled nothing is ever lost',
  'With evictions disabled no operation removes an item other than the one it names. A store for which there is no room fails with out_of_memory and leaves every item in the cache as it was; the eviction callback is never called.',
  ['inputs', 'histories', 'configurations'], 'every value length and every operation order up to the bound in nearly full and full caches',
  'one test fills a cache with evictions disabled; failure of every operation kind at every fill level and size is not sampled',
  ['src/cachelot/cache.h', 'src/cachelot/memalloc-inl.h'],
  [('plain allocation', 'src/cachelot/cache.h: create_item; src/cachelot/memalloc-inl.h: alloc')],
  quick=[J('evict.cpp', [[256, 0, 4, 200, 2, 31, -1, 1, 0], [256, 0, 4, 100, 2, 1, -1, 1, 0, 0, 1], [256, 0, 12, 60, 1, 31, -1, 0, 0], [256, 0, 8, 60, 2, 7, -1, 0, 0], [256, 0, 4, 200, 2, 31, -1, 4, 0], [256, 0, 3, 60, 2, 31, -1, 4, 0], [256, 0, 15, 20, 2, 2017, -1, 2, 0, 0, 0, 0, 1], [256, 0, 3, 200, 2, 2017, -1, 2, 0, 0, 0, 0, 1]], srcs=CORE, cover=['end', 'refused'])],
  thorough=[J('evict.cpp', [[256, 0, 4, 200, 3, 31, -1, 1, 0], [256, 0, 4, 100, 2, 7, -1, 1, 0, 0, 1], [256, 0, 12, 60, 2, 31, -1, 0, 0], [256, 0, 8, 60, 3, 7, -1, 0, 0], [1024, 0, 20, 150, 2, 31, -1, 3, 0], [256, 0, 4, 200, 2, 31, -1, 4, 0], [256, 0, 3, 60, 2, 31, -1, 4, 0]] + [[256, 0, n, l, 2, 2047, p, 2, 0, 0, 0, 0, 1] for n, l in ((15, 20), (3, 200), (8, 60)) for p in range(11)] + [[256, 0, 0, 0, 3, 31, p, 0, 1] for p in range(5)], srcs=CORE, cover=['end', 'refused'], time=600)],
  bounds='caches filled with 0..12 items, then 2 (thorough 3) operations (all 11 kinds, counters included) with sizes from sets or every value length; 4 pages of 256 (1024) bytes',
  outside='longer histories; whether a store could have succeeded with better placement (fragmentation)')

P('C10', 'The hash table is an exact map',
  'A hash table of any capacity behaves as a map from keys to values under every sequence of put, insert, delete, removal at a position, conditional removal, lookup and clear, for every assignment of hashes to keys: lookups find exactly the present keys, size is the number of keys, and every value is the last one put.',
  ['inputs', 'histories'], 'every 32-bit hash of every key, every history up to the bound, tables up to full load',
  'robin hood displacement and backward shifting depend on the exact relation between hashes; tests use one hash function over random keys',
  ['src/cachelot/hash_table.h'],
  [('probing and displacement', 'src/cachelot/hash_table.h: put, insert, lookup'), ('backward shift deletion', 'src/cachelot/hash_table.h: remove, remove_if, del')],
  quick=[J('table.cpp', [[4, 3, 3, 127, p, 0, 0] for p in range(7)] + [[4, 3, 3, 63, p, 2, 0] for p in range(6)] + [[8, 1, 4, 63, p, 4, 0] for p in range(6)] + [[8, 2, 3, 31, p, 3, 0] for p in range(5)] + [[4, 4, 3, 63, p, 0, 1] for p in range(6)] + [[8, 1, 8, 63, -1, 7, 0, 7, b] for b in (3, 6)] + [[8, 2, 8, 31, -1, 7, 0, 3, 6], [16, 1, 15, 31, -1, 14, 0, 4, 14]] + [[0]], srcs=CORE, cover=['end'])],
  thorough=[J('table.cpp', [[4, 4, 3, 127, p, 0, 0] for p in range(7)] + [[4, 4, 3, 63, p, 2, 0] for p in range(6)] + [[8, 2, 4, 63, p, 4, 0] for p in range(6)] + [[8, 3, 4, 31, p, 3, 0] for p in range(5)] + [[8, 1, 5, 63, p, 5, 0] for p in range(6)] + [[4, 5, 3, 63, p, 0, 1] for p in range(6)] + [[8, 1, 8, 63, -1, 7, 0, 7, b] for b in range(1, 8)] + [[8, 2, 8, 63, -1, 7, 0, 4, b] for b in (1, 6)] + [[16, 2, 15, 31, p, 14, 0, 4, b] for b in (3, 8, 14) for p in range(5)] + [[0]], srcs=CORE, cover=['end'], time=600)],
  bounds='capacities 4 and 8; 3-4 operations over 3 keys from the empty table, 1-3 operations after 2-4 entries with symbolic hashes; 1-2 operations on tables of 8 and 16 slots at full load with every hash in {b, b+1}; stored hash 0 (the reserved empty mark) is excluded at this level, C01 and C11 cover it; max_size for all capacities 4..2^31',
  outside='more than 5 entries with free hashes at a time; longer histories')

P('C11', 'Growth of the index is invisible',
  'The dictionary behaves as a map while it grows: at any point of an incremental expansion, lookups, insertions, updates, removals, conditional removals, clear and moving the dictionary act on all entries, wherever they currently live, and nothing is duplicated or lost.',
  ['inputs', 'histories', 'configurations'], 'every hash of every key (hash 0 included), every history up to the bound, at every point of the expansion',
  'tests grow a dictionary by inserting only; interleaving of other operations with an unfinished expansion is barely sampled',
  ['src/cachelot/dict.h', 'src/cachelot/hash_table.h'],
  [('incremental rehash', 'src/cachelot/dict.h: rehash_some, begin_expand'), ('operations on two tables', 'src/cachelot/dict.h: entry_for, insert, remove, remove_if, clear')],
  quick=[J('dictx.cpp', [[1, 3, 3, 127, -1, 0, 0], [2, 3, 3, 63, -1, 0, 0], [2, 3, 3, 127, -1, 0, 1], [4, 3, 1, 63, -1, 4, 0, 0, 1], [4, 2, 1, 127, -1, 4, 0, 0, 0], [4, 2, 1, 127, -1, 4, 0, 0, 2], [8, 2, 1, 127, -1, 8, 0, 0, 1], [8, 3, 0, 63, -1, 8, 0, 0, 4], [4, 2, 1, 63, -1, 4, 0, 0, 0, 8], [4, 1, 1, 63, -1, 4, 0, 0, 1, 7, 9], [4, 1, 1, 63, -1, 4, 0, 0, 2, 8, 16], [4, 1, 1, 63, -1, 4, 0, 0, 5, 8, 16], [4, 1, 1, 63, -1, 4, 0, 0, 3, 7, 9], [8, 1, 1, 63, -1, 8, 0, 0, 4, 0, 16], [4, 1, 1, 63, -1, 5, 0, 0, 3, 9], [4, 1, 4, 63, -1, 0, 4, 0], [4, 2, 4, 31, -1, 0, 4, 4]], srcs=CORE, defs=HOOK, cover=['end', 'expanding']), J('dictx.cpp', [[1024, 1, 2, 63, -1, 953, 0, 8], [1024, 2, 1, 63, -1, 953, 0, 8], [1024, 2, 2, 15, -1, 952, 0, 3]], srcs=CORE, cover=['end', 'expanding'])],
  thorough=[J('dictx.cpp', [[1, 4, 3, 127, p, 0, 0] for p in range(7)] + [[2, 4, 3, 63, p, 0, 0] for p in range(6)] + [[4, 2, 4, 63, p, 0, 4] for p in range(6)] + [[4, 4, 1, 63, p, 4, 0, 0, q] for p in range(6) for q in (0, 1, 2)] + [[8, 3, 1, 127, p, 8, 0, 0, q] for p in range(7) for q in (0, 1, 4)] + [[8, 4, 0, 31, p, 8, 0, 0, 4] for p in range(5)] + [[4, 2, 1, 127, -1, n, 0, 0, q, m, d] for n in (4, 5) for q in range(6) for m, d in ((8, 0), (7, 9), (8, 16))] + [[4, 3, 4, 31, p, 0, 4, 4] for p in range(5)], srcs=CORE, defs=HOOK, cover=['end'], time=600), J('dictx.cpp', [[1024, 2, 2, 63, -1, 953, 0, 8], [1024, 2, 1, 63, -1, 953, 0, 8], [1024, 2, 2, 15, -1, 952, 0, 8]], srcs=CORE, cover=['end', 'expanding'])],
  bounds='3 (thorough 4) operations over 3 keys with free hashes from dictionaries of 1..4 slots, rehash batch reduced to 1 by the hook so that expansions span operations; 2-3 (4) operations on dictionaries of 4 and 8 slots caught in the middle of an expansion (entries with free or clustered hashes), also after a clear during an earlier expansion; with the real batch size: 1-2 operations around the growth of a 1024-slot dictionary with 953 concrete entries',
  outside='several expansions with the real batch size in one history; hashes above 8 in the 1024-slot runs')

U63 = range(2, 22)
def stoi_params(dense):
    out = []
    for t in range(8):
        for thr in (0, 1):
            for n in (0, 1, 2, 3): out.append([t, n, 0, thr, 0])
    digits = {0: (19, 20, 21), 2: (9, 10, 11), 3: (9, 10, 11), 4: (4, 5, 6), 5: (4, 5, 6), 6: (2, 3, 4), 7: (2, 3, 4)}
    for t, ns in digits.items():
        for n in (range(1, max(ns) + 3) if dense else ns): out.append([t, n, 1, 0, 0])
        if t % 2:
            for n in ns: out.append([t, n + 1, 2, 0, 0])
    for n in (1, 5, 10, 18, 19, 20, 21): out.append([1, n, 1, 0, 0])
    for n in (2, 6, 11, 19): out.append([1, n, 2, 0, 0])
    for q in range(1, 21): out.append([1, 20, 2, 0, q])
    for q in (range(1, 22) if dense else range(2, 22)): out.append([1, 21, 2, 0, q])
    return out


P('C12', 'Text is converted to numbers exactly or refused',
  'Parsing a decimal number yields its value when the text is an optional minus (signed types only) followed by digits and the value fits the type, and otherwise fails with the matching error: overflow when it does not fit, conversion error when it is not a number. No text is ever read as a different number.',
  ['inputs'], 'every byte string up to 3 bytes for every type, and every digit string of the lengths around the limit of each type',
  'the tests try a few numbers per type; the values that wrap are exactly the ones next to the limits',
  ['src/cachelot/string_conv.h'],
  [('digit accumulation with overflow check', 'src/cachelot/string_conv.h: str_to_big_unsigned, str_to_int')],
  quick=[J('stoi.cpp', stoi_params(False), srcs=CORE, cover=['end', 'number', 'overflow', 'not a number'], samples=3)], thorough=[J('stoi.cpp', stoi_params(True), srcs=CORE, cover=['end', 'number', 'overflow', 'not a number'], samples=10)],
  bounds='8 integer types; all strings of 0..3 bytes, all digit strings of the lengths around each limit (up to 21 digits, optional minus; for the longest negative 64-bit strings: split by common prefix with 2^63)',
  outside='strings longer than 23 characters; 21-digit negative strings whose first digit differs from that of 2^63 only in the thorough tier')

P('C14', 'Slices compare, search, split and trim exactly',
  'Slice comparison, search, prefix and suffix tests, splitting at a character or string and trimming agree with their plain definitions for every content, including empty slices, and read nothing outside the slices.',
  ['inputs'], 'every content of both slices for the listed lengths',
  'tests use readable words; partial matches at the end of the text and zero lengths are where such code breaks',
  ['src/cachelot/slice.h'], [('search and split', 'src/cachelot/slice.h: search, split, operator==, startswith, endswith, trim')],
  quick=[J('slicex.cpp', [[o, n, m] for o in range(4) for n in range(0, 6) for m in range(0, 4)] + [[4, n, 1] for n in range(0, 7)] + [[5, n, m] for n in range(1, 6) for m in range(1, 4)] + [[6, n, m] for n, m in ((65, 3), (130, 0), (250, 1), (300, 2))], srcs=CORE, cover=['end'], samples=3)],
  thorough=[J('slicex.cpp', [[o, n, m] for o in range(4) for n in range(0, 9) for m in range(0, 6)] + [[4, n, 1] for n in range(0, 12)] + [[5, n, m] for n in range(1, 9) for m in range(1, 5)] + [[6, n, m] for n in (2, 9, 17, 33, 65, 130, 250, 300, 600, 1100) for m in (0, 1, 3)], srcs=CORE, cover=['end'], samples=3)],
  bounds='texts of 0..5 (thorough 8) symbolic bytes, arguments of 0..3 (5) symbolic bytes; slices of up to 300 (1100) bytes that differ in at most one byte, any position, symbolic', outside='several differences in longer texts; search for a slice that aliases the text')

P('C15', 'The network buffer is a faithful byte queue',
  'Whatever is written to an io_buffer is read back in order, unchanged and exactly once, through any sequence of writes, reads, searches, compaction, growth and rollback; a rolled back read or write leaves no trace; the buffer never exceeds its limit and refuses a write that would, without losing data.',
  ['inputs', 'histories'], 'every history up to the bound, every content, sizes around growth and limit',
  'tests check two or three fixed sequences; growth together with rollback and compaction at arbitrary offsets is not sampled',
  ['src/server/io_buffer.h'], [('growth', 'src/server/io_buffer.h: ensure_capacity, begin_write'), ('positions', 'src/server/io_buffer.h: compact, confirm_read, savepoints, try_read_until')],
  quick=[J('iobuf.cpp', [[600, 0, 3, -1, 0, 0, 0], [1000, 500, 2, -1, 8, 3, 1], [4096, 1, 3, -1, 8, 3, 0], [600, 500, 3, -1, 20, 5, 0], [16384, 0, 0, 0, 1000, 0, 0, 9000], [65536, 500, 0, 0, 700, 100, 0, 5000]], srcs=CORE, cover=['end', 'refused'])],
  thorough=[J('iobuf.cpp', [[600, 0, 4, p, 0, 0, 0] for p in range(8)] + [[1000, 500, 3, p, 8, 3, 1] for p in range(8)] + [[4096, 1, 4, p, 8, 3, 0] for p in range(8)] + [[1 << 18, 500, 0, 0, q, 100, 0, n] for q in (700, 5000) for n in (600, 5000, 9000, 70000)], srcs=CORE, cover=['end'], time=600)],
  bounds='3 (thorough 4) operations of 8 kinds on buffers limited to 600..4096 bytes; write sizes from a set, one size free in one run; terminators at 9 positions in up to 9000 (70000) buffered bytes', outside='longer histories; bigger buffers')

P('C22', 'The C API mirrors the cache and reports every failure',
  'Every C API function has the outcome of the cache operation it names; on success the error structure is cleared, on failure it carries the matching error code, a category and a terminated description, and a null error pointer is accepted everywhere. No exception ever leaves the C API. Eviction callbacks registered through it see exactly the evicted items.',
  ['inputs', 'histories', 'configurations'], 'every history of the 12 C functions up to the bound, every hash and value byte; every failure kind; every refused option',
  'there is one C API smoke test; most functions and all failure paths are untested',
  ['src/cachelot/c_api.cpp', 'src/cachelot/c_api.h'], [('translation of results and errors', 'src/cachelot/c_api.cpp: all functions')],
  quick=[J('capi.cpp', [[0, 2, -1, 0], [0, 2, -1, 1], [1, 0, 0, 0], [1, 0, 0, 1], [2], [2, 0, 0, 1], [3], [0, 3, 0, 0], [0, 3, 8, 0], [4], [4, 0, 0, 1]] + [[5, n] for n in (1, 2, 3, 100, 250, 300)], srcs=CORE + ['src/cachelot/c_api.cpp'], cover=['end'])],
  thorough=[J('capi.cpp', [[0, 3, p, 0] for p in range(12)] + [[1, 0, 0, 0], [1, 0, 0, 1], [2], [2, 0, 0, 1], [3], [4], [4, 0, 0, 1]] + [[5, n] for n in (1, 2, 3, 4, 17, 100, 249, 250, 256, 300)], srcs=CORE + ['src/cachelot/c_api.cpp'], cover=['end'], time=600)],
  bounds='2 (thorough 3) operations of 12 kinds over 2 keys; over-long keys, over-big items, full memory, unconvertible and overflowing counters, refused options; 20 stores into a cache that evicts; every 32-bit TTL; keys of 1..250 bytes with symbolic bytes, hashes of up to 300 bytes', outside='longer histories; C callers on other ABIs')

P('C23', 'Statistics count every command and outcome exactly once',
  'After any history each cache counter (gets, hits, misses, stores by kind and outcome, deletes, touches, increments, decrements, append/prepend, flushes) equals the number of operations with that outcome.',
  ['histories', 'inputs'], 'every history up to the bound including expiring items, all hashes and contents',
  'the stats test performs one fixed sequence',
  ['src/cachelot/cache.h', 'src/cachelot/stats.h', 'src/cachelot/stats.cpp'], [('counting', 'src/cachelot/cache.h: STAT_INCR(cache.*)')],
  quick=[J('statsx.cpp', [[2, 2, -1, 0], [2, 1, -1, 1]] + [[3, 1, p, 0] for p in range(12)] + [[3, 1, p, 0, 1] for p in (1, 2)], srcs=CORE, cover=['end'])],
  thorough=[J('statsx.cpp', [[2, 2, -1, 1]] + [[3, 1, p, 1] for p in range(12)] + [[3, 2, p, 0] for p in range(12)] + [[4, 1, p, 0] for p in range(12)] + [[3, 1, p, 1, 1] for p in range(12)] + [[4, 1, 1, 0, 1]], srcs=CORE, cover=['end'], time=600)],
  bounds='3 (thorough 4) operations of 12 kinds over 1 key, 2 operations over 2 keys; with and without expiring items, with numbers, text and empty values', outside='counter wrap-around; memory statistics (C07)')

P('C24', 'Impossible configurations are refused',
  'Creating a cache succeeds exactly for power-of-two memory, page and dictionary sizes with pages between the minimum size and a quarter of memory; every other combination is refused with invalid_argument and never yields a cache.',
  ['configurations'], 'every 64-bit memory size, page size and dictionary size',
  'tests try one or two bad values', ['src/cachelot/cache.h', 'src/cachelot/memalloc-inl.h'],
  [('validation', 'src/cachelot/cache.h: Create; src/cachelot/memalloc-inl.h: constructor')],
  quick=[J('limits.cpp', [[0, 0], [0, 1], [0, 2], [1]], srcs=CORE, cover=['end'])], thorough=[J('limits.cpp', [[0, 0], [0, 1], [0, 2], [1]], srcs=CORE, cover=['end'], samples=200)],
  bounds='all 64-bit values of the three parameters (memory not a power of two: all; power-of-two combinations: all)', outside='whether the operating system can provide the memory')

P('C25', 'Size limits are enforced before anything changes',
  'A key longer than the limit is refused with key_too_long and an item larger than the item limit with item_too_big, whatever the sizes; everything within the limits is stored and returned in full; a refusal changes nothing.',
  ['inputs', 'configurations'], 'every key length and every value length up to beyond the page size', 'tests use a couple of lengths',
  ['src/cachelot/cache.h', 'src/cachelot/item.h'], [('limits', 'src/cachelot/cache.h: create_item; src/cachelot/item.h: CalcSizeRequired')],
  quick=[J('limits.cpp', [[2, 256, 4], [2, 1024, 4], [2, 131072, 4, 130700], [3]], srcs=CORE, cover=['end', 'long key', 'too big', 'stored', 'full'])], thorough=[J('limits.cpp', [[2, 256, 4], [2, 1024, 4], [2, 2048, 4], [2, 131072, 4, 130700], [2, 131072, 4, 65400], [3]], srcs=CORE, cover=['end'], time=600)],
  bounds='pages of 256, 1024 and 131072 bytes; every key length 1..300 and value length from 0 (130700 for the big page) to beyond the page; 17 boundary lengths up to 130900 stored, replaced, appended and prepended with symbolic head and tail', outside='other page sizes')

P('C26', 'The hash function is FNV-1a',
  'The exported hash function is the 32-bit (64-bit) FNV-1a function of the key bytes, so that hashes computed by any conforming client agree with the cache.',
  ['inputs'], 'every key content of the listed lengths', 'tests compare a few strings', ['src/cachelot/hash_fnv1a.h'], [('hash', 'src/cachelot/hash_fnv1a.h: fnv1a')],
  quick=[J('fnv.cpp', [[n, w] for n in (0, 1, 2, 3, 4, 8, 17) for w in (32, 64)], srcs=CORE, cover=['end'])], thorough=[J('fnv.cpp', [[n, w] for n in range(0, 40) for w in (32, 64)], srcs=CORE, cover=['end'])],
  bounds='keys of 0..17 (thorough 39) symbolic bytes', outside='longer keys')

P('C28', 'Bit and alignment utilities are exact',
  'The bit utilities (set, unset, flip, test, lowest and highest set bit, power-of-two test and rounding) and the alignment helpers give the mathematically defined result for every argument of their domain.',
  ['inputs'], 'every 32 and 64-bit argument', 'tests sample a few values; a wrong shift width affects only large ones', ['src/cachelot/bits.h'], [('bit twiddling', 'src/cachelot/bits.h')],
  quick=[J('bitsx.cpp', [[i] for i in range(5)], srcs=CORE, cover=['end'])], thorough=[J('bitsx.cpp', [[i] for i in range(5)], srcs=CORE, cover=['end'], samples=200)],
  bounds='complete for the stated domains (arguments where the result is undefined, such as the lowest bit of zero, are excluded)', outside='-')

SERVER = CORE + ['src/server/settings.cpp', 'src/server/memcached/memcached.cpp', 'src/server/memcached/proto_ascii.cpp', 'src/server/memcached/proto_binary.cpp']
LINES = list(range(91)) + list(range(1000, 1019))
LINE_RUNS = [[t, s] for t in LINES for s in range(4) if not (t in (11, 12) and s in (1, 3))]
P('C16', 'Every request line gets the response the protocol prescribes',
  'For every request line, however malformed, the server stays in control: a well-formed request is answered with exactly the response the text protocol prescribes for the state of the cache and has exactly that effect; any other line is answered with an error and changes nothing; an incomplete request is neither answered nor consumed.',
  ['inputs', 'histories'], 'every byte in the symbolic positions of 91 request templates covering all commands, one wrong byte anywhere in 19 complete lines, with the key absent, numeric, textual or at the numeric limit',
  'the server tests send well-formed requests only, one text per command',
  ['src/server/memcached/proto_ascii.cpp', 'src/server/memcached/memcached.cpp', 'src/server/memcached/memcached.h'],
  [('parsing and dispatch', 'src/server/memcached/proto_ascii.cpp: handle_received_data, parse_command_name, handle_*_command'), ('key validation', 'src/server/memcached/memcached.h: validate_key')],
  quick=[J('line.cpp', LINE_RUNS, srcs=SERVER, incs=['fakeasio'], cover=['end', 'response', 'error', 'silent', 'incomplete'], samples=2)],
  thorough=[J('line.cpp', [[t, s] for t in LINES for s in range(4)], srcs=SERVER, incs=['fakeasio'], cover=['end'], samples=10)],
  bounds='91 line templates (keys of 250 and 251 bytes included) with 1-5 symbolic bytes (any value but CR) in command, key, number or option position, data block of 2 symbolic bytes and CRLF; 19 complete lines with one symbolic byte at every position', outside='lines with more unknown bytes at once; double and trailing spaces are only required to be answered sanely')

NET = dict(srcs=SERVER, incs=['fakeasio'])
P('C17', 'How the network splits the requests does not matter',
  'A stream of well-formed requests gets the same responses, in the same order and with the same effect on the cache, whatever pieces the bytes arrive in: all at once, byte by byte, or cut anywhere, inside a command line, inside a data block or between CR and LF.',
  ['schedules', 'inputs'], 'every cut position, every piece size of the bound, every byte of the data blocks, all ordered pairs of 24 requests',
  'the server tests send each request as one segment over the loopback',
  ['src/server/socket_stream.h', 'src/server/io_buffer.h', 'src/server/memcached/proto_ascii.cpp'],
  [('reassembly', 'src/server/socket_stream.h: async_receive_some, handle_received'), ('roll back of incomplete requests', 'src/server/memcached/proto_ascii.cpp: handle_received_data, handle_storage_command')],
  quick=[J('conn.cpp', [[1, k, 100] for k in range(1, 25)] + [[3, 100, 100]] + [[4, k, 100] for k in (1, 2, 6, 13)] + [[2, k, 3] for k in range(1, 25)] + [[1, k, 25] for k in range(1, 25)] + [[0, 1, 26], [4, 1, 26], [4, 26, 3]], samples=2, cover=['end', 'quit'], **NET)],
  thorough=[J('conn.cpp', [[2, k, 100] for k in range(1, 25)] + [[4, k, 100, 100] for k in range(1, 25)] + [[3, k, 100, 100] for k in range(1, 25)] + [[1, k, 100, 4] for k in range(1, 25)] + [[1, k, 100, 25] for k in range(1, 25)] + [[0, k, 26] for k in range(1, 25)] + [[4, k, 26, 3] for k in range(1, 25)], samples=4, cover=['end'], time=600, **NET)],
  bounds='2 requests (thorough 3) of 24 kinds; one cut anywhere, two cuts up to 5 bytes apart, pieces of 1..21 bytes; lines of 5000 bytes in pieces of 300..3800; an unknown command as the last request; data blocks of 0-3 symbolic bytes', outside='streams that contain malformed requests (the rest of the received data is dropped with them); real sockets and kernels (Boost.Asio is replaced by a stand-in that completes operations on demand)')

P('C18', 'noreply suppresses the response and nothing else',
  'A request with noreply has exactly the effect it has without it (value, flags, token, expiration), produces no byte of output, and the connection goes on with the next request at once.',
  ['inputs', 'histories'], 'every command that takes noreply, every digit of its numbers and byte of its data, key absent, textual or numeric, every cut',
  'tests use noreply in a few places and cannot see an effect that is missing', ['src/server/memcached/proto_ascii.cpp', 'src/server/socket_stream.h'],
  [('suppression', 'src/server/memcached/proto_ascii.cpp: maybe_noreply, reply_with_response, handle_*_command')],
  quick=[J('noreply.cpp', [[k, s, d] for k in range(11) for s in range(3) for d in range(2)], samples=2, cover=['end', 'error'], **NET)],
  thorough=[J('noreply.cpp', [[k, s, d] for k in range(11) for s in range(3) for d in range(2)], samples=20, cover=['end', 'error'], **NET)],
  bounds='11 commands with 0-2 symbolic digits and 2 symbolic data bytes, 3 states of the key, whole or cut anywhere', outside='requests that fail (errors are reported in spite of noreply)')

TOKENS = [[4294967290, 10], [1, 3], [999999999999999999, 20, 1], [1844674407370955160, 15, 1], [9007199254740990, 5]]
P('C19', 'What is set over the wire is what get returns',
  'Whatever bytes a value consists of (CR, LF, NUL and protocol text included), the response to get carries exactly the key, flags, length and bytes that were stored; gets additionally carries a token with which cas succeeds exactly if the item was not modified since; a multi-key get lists the hits in request order.',
  ['inputs', 'histories'], 'every value byte, key byte, flags and token digit; every list of up to 4 keys; every write of another client in between',
  'tests send printable values of one or two lengths', ['src/server/memcached/proto_ascii.cpp', 'src/server/memcached/conversation.h', 'src/server/io_buffer.h'],
  [('serialisation', 'src/server/memcached/proto_ascii.cpp: handle_retrieval_command, operator<<'), ('data block', 'src/server/memcached/proto_ascii.cpp: handle_storage_command')],
  quick=[J('retr.cpp', [[0, v, k] for v in (0, 1, 2, 3, 4, 9, 10, 99, 100) for k in (1, 2)] + [[0, 2, 250], [0, 2, 3], [1, 4, 1], [1, 2, 2], [2, 0, 0, 120], [2, 1, 950, 1050], [2, 9, 9950, 10050], [2, 10, 32740, 32800], [2, 123, 65400, 65535], [3], [4], [5], [6, 65535, 0], [6, 65536, 0], [6, 70000, 9000]], samples=2, cover=['end'], **NET), J('token.cpp', TOKENS, samples=2, cover=['end'], **NET)],
  thorough=[J('retr.cpp', [[0, v, k] for v in list(range(0, 20)) + [99, 100, 101, 255, 256] for k in (1, 2, 3, 4)] + [[0, 2, k] for k in range(5, 251, 7)] + [[1, v, k] for v in range(0, 12) for k in (1, 2, 3)] + [[2, n] for n in range(0, 260, 9)] + [[3], [4], [5]] + [[6, n, p] for n in (65535, 65536, 65537, 70000, 120000) for p in (0, 9000)], samples=4, cover=['end'], time=600, **NET), J('token.cpp', TOKENS, samples=4, cover=['end'], **NET)],
  bounds='values of 0-100 symbolic bytes, keys of 1-3 symbolic bytes and of 250 bytes, values up to 5000 and of 65535..70000 bytes with symbolic head, middle and tail; tokens around 2^32, 2^53, 10^19 and 2^64; flags in 5 ranges around the changes of length (thorough: all 65536)', outside='longer fully symbolic values')

P('C20', 'UDP frames',
  'A datagram whose 8-byte frame header announces a single unfragmented request is answered with one datagram to its sender that starts with the same header and carries exactly the response of the text protocol; any other datagram (short, fragmented, reserved bits, incomplete request) is neither answered nor executed; in every case, including socket errors, the next datagram is handled as if the former had not been.',
  ['inputs', 'schedules', 'faults'], 'every header (64 bits), every truncation, all ordered pairs of requests, socket errors',
  'there are no UDP tests of malformed headers, truncated datagrams or socket errors',
  ['src/server/socket_datagram.h', 'src/server/memcached/conversation.h'], [('frame header', 'src/server/memcached/conversation.h: UdpServer::handle_udp_frame_header, handle_data'), ('datagram loop', 'src/server/socket_datagram.h: async_receive, async_send_all')],
  quick=[J('udp.cpp', [[0, 100], [1, 100], [3], [4], [5]] + [[2, k, 100] for k in range(1, 25)], samples=2, cover=['end', 'reply', 'silent', 'accepted', 'refused', 'closed'], **NET)],
  thorough=[J('udp.cpp', [[0, k] for k in range(1, 25)] + [[1, k] for k in range(1, 25)] + [[3], [4], [5]] + [[2, k, 100] for k in range(1, 25)], samples=20, cover=['end'], **NET)],
  bounds='one datagram with any header followed by a valid one; every truncation of 24 requests followed by a valid one; all pairs of 24 requests with any request id; datagrams of up to 16 KB', outside='real sockets; replies that exceed a datagram')

P('C21', 'Connections: every request answered once, in order, in isolation',
  'On a stream connection every request of a pipeline is answered exactly once and in order; a reply is not altered while it is being sent and at most one read and one write are under way; quit or a socket error at any point ends that connection, which is then released, and nothing else; requests and replies beyond the buffer limits are refused without exceeding the limits; interleaved connections never receive each other\'s data; the server keeps accepting after failures.',
  ['schedules', 'faults', 'inputs'], 'every ordered triple of 24 requests in one segment; failure of any operation with any error code; a request of one connection arriving at any point within a request of another',
  'tests use one connection, one request at a time and no faults',
  ['src/server/socket_stream.h', 'src/server/memcached/conversation.h', 'src/server/io_buffer.h'], [('connection life cycle', 'src/server/socket_stream.h: stream_connection, stream_server'), ('conversation', 'src/server/memcached/conversation.h: StreamSocketConversation')],
  quick=[J('conn.cpp', [[0, k, 100, 100] for k in range(1, 25) if k not in (8, 9)] + [[0, 8, 100, 3], [0, 9, 100, 22], [0, 8, 3, 100], [0, 9, 22, 100]] + [[0, k, 25] for k in range(1, 25)], samples=2, cover=['end', 'quit'], **NET), J('life.cpp', [[0, k, 3] for k in (1, 2, 3, 4, 8, 10)] + [[0, 3, 2], [0, 1, 100]] + [[1, k, 100] for k in range(1, 25)] + [[2], [3], [4]] + [[5, 2000, 65536, 300], [5, 2000, 65536, 5000], [5, 65536, 2000, 5000], [5, 65536, 2000, 300]], samples=2, cover=['end', 'read fails', 'write fails', 'closed', 'served', 'refused', 'complete'], **NET)],
  thorough=[J('conn.cpp', [[0, k, 100, 100] for k in range(1, 25)] + [[0, k, 3, 100, 100] for k in range(1, 25)], samples=4, cover=['end', 'quit'], time=600, **NET), J('life.cpp', [[0, k, 100] for k in range(1, 25)] + [[1, k, 100] for k in range(1, 25)] + [[2], [3], [4]] + [[5, 2000, 65536, 300], [5, 2000, 65536, 5000], [5, 65536, 2000, 5000], [5, 65536, 2000, 300]], samples=4, cover=['end'], time=600, **NET)],
  bounds='3 (thorough 4) pipelined requests of 24 kinds; failure of any of the first 5 operations; 2 connections; limits of 600-800 bytes and configured limits of 2000 and 65536 bytes', outside='real sockets and kernels; partial writes inside async_write (Boost.Asio completes them); more than one thread (the server runs one)')

P('C27', 'A failed allocation costs one operation, nothing else',
  'When the process cannot allocate memory (hash table expansion, growth of a connection buffer, construction), the operation concerned is refused with an exception or an error response; every item stored before stays retrievable, buffered bytes are kept, and everything works again as soon as memory is available.',
  ['faults', 'histories', 'inputs'], 'failure of any of the first allocations at any operation of the history, all hashes of two keys and all values',
  'tests never make an allocation fail',
  ['src/cachelot/dict.h', 'src/cachelot/hash_table.h', 'src/cachelot/cache.h', 'src/server/io_buffer.h', 'src/server/memcached/proto_ascii.cpp'],
  [('expansion of the table', 'src/cachelot/dict.h: begin_expand'), ('buffer growth', 'src/server/io_buffer.h: ensure_capacity')],
  quick=[J('fault.cpp', [[0, 5, 4], [0, 4, 2], [1], [2], [3], [4, 44, 4]], samples=4, cover=['end', 'failed', 'refused', 'served'], **NET)],
  thorough=[J('fault.cpp', [[0, 5, 4], [0, 4, 2], [0, 8, 4], [0, 9, 8], [1], [2], [3], [4, 44, 4], [4, 60, 8], [4, 60, 16]], samples=20, cover=['end', 'failed'], time=600, **NET)],
  bounds='up to 5 (thorough 9) stores with a table expansion among them; one failing allocation, or 40 (50) stores in a row without memory; 3 writes to a buffer; 3 kinds of requests with one failing buffer growth', outside='failing allocations inside Boost.Asio and of exception objects and messages; more than one failure')

P('C29', 'Linked lists of the allocator keep order and integrity',
  'The intrusive lists the allocator keeps its free and used blocks in behave as sequences: pushing, popping and removing at any position keeps every other item linked exactly once and in order, moving an item to the front never moves it backwards, and no item content is touched.',
  ['histories'], 'every history of 4 (thorough 5) operations on 5 items', 'tests perform a few fixed sequences',
  ['src/cachelot/intrusive_list.h'], [('list operations', 'src/cachelot/intrusive_list.h')],
  quick=[J('listx.cpp', [[3, 0], [3, 3], [3, 5], [4, 2]], srcs=CORE, cover=['end'], samples=10)], thorough=[J('listx.cpp', [[5, n] for n in range(6)], srcs=CORE, cover=['end'], samples=50, time=600)],
  bounds='5 items, 4 (thorough 5) operations of 6 kinds', outside='longer histories; is_tail (does not compile for members not called link and is unused)')
