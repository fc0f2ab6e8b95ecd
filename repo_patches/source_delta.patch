From 0cb57f655f917ebe523de4868c8f5b3f66d2174f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:05 +0000
Subject: [PATCH 01/22] fix: items whose key hashes to zero were lost or
 corrupted the hash table

Zero is the empty slot marker of the hash table: an item stored with such a hash
was never found again, and the table expansion ran past the end of the table.
---
 src/cachelot/cache.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 691644b..75f78b4 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -321,6 +321,11 @@ namespace cachelot {
              */
             tuple<bool, dict_type::iterator> retrieve_item(const slice key, const hash_type hash, bool readonly = false);
 
+            /**
+             * Zero marks an empty slot of the hash table, so it can not be used as a hash of the Item
+             */
+            static constexpr hash_type nonzero_hash(const hash_type hash) noexcept { return hash != 0 ? hash : 1; }
+
             class ItemAutoDelete {
                 Cache * m_cache;
                 Item * m_item;
@@ -401,7 +406,7 @@ namespace cachelot {
 
         inline tuple<bool, Cache::dict_type::iterator> Cache::retrieve_item(const slice key, const hash_type hash, bool readonly) {
             bool found; iterator at;
-            tie(found, at) = m_dict.entry_for(key, hash, readonly);
+            tie(found, at) = m_dict.entry_for(key, nonzero_hash(hash), readonly);
             if (found) {
                 ItemPtr item = at.value();
                 // validate item
@@ -426,7 +431,7 @@ namespace cachelot {
                 STAT_INCR(cache.get_hits, 1);
                 auto item = at.value();
                 debug_assert(item->key() == key);
-                debug_assert(item->hash() == hash);
+                debug_assert(item->hash() == nonzero_hash(hash));
                 return item;
             } else {
                 STAT_INCR(cache.get_misses, 1);
@@ -658,7 +663,7 @@ namespace cachelot {
             };
             memory = m_allocator.alloc_or_evict(size_required, m_evictions_enabled, on_delete);
             if (memory != nullptr) {
-                auto item = new (memory) Item(key, hash, static_cast<uint32>(value_length), flags, keepalive, ++m_newest_timestamp);
+                auto item = new (memory) Item(key, nonzero_hash(hash), static_cast<uint32>(value_length), flags, keepalive, ++m_newest_timestamp);
                 return item;
             } else {
                 throw system_error(error::out_of_memory);
-- 
2.43.0


From dc9614eab796e06305b0007f7b7ae97cee46d04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:27 +0000
Subject: [PATCH 02/22] fix: items that do not fit into the page with the block
 header overran the page

create_item() compared the item with the whole page, append and prepend did not check
the size of the result at all.
---
 src/cachelot/cache.h        | 12 ++++++++++--
 src/cachelot/memalloc-inl.h |  6 ++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 75f78b4..3778fa1 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -326,6 +326,11 @@ namespace cachelot {
              */
             static constexpr hash_type nonzero_hash(const hash_type hash) noexcept { return hash != 0 ? hash : 1; }
 
+            /**
+             * Biggest Item (with its key and value) allocator is able to store
+             */
+            size_t max_item_size() const noexcept { return m_allocator.page_size - memalloc::header_size(); }
+
             class ItemAutoDelete {
                 Cache * m_cache;
                 Item * m_item;
@@ -521,6 +526,9 @@ namespace cachelot {
             if (found) {
                 auto old_item = at.value();
                 const size_t new_value_size = old_item->value().length() + piece->value().length();
+                if (Item::CalcSizeRequired(old_item->key(), new_value_size) > max_item_size()) {
+                    throw system_error(error::item_too_big);
+                }
                 // do not evict existing items to avoid accidentally free the `piece` or the `old_item`
                 auto memory = m_allocator.alloc_or_evict(Item::CalcSizeRequired(old_item->key(), new_value_size), false, [=](void *){});
                 if (memory != nullptr) {
@@ -649,10 +657,10 @@ namespace cachelot {
             if (key.length() > Item::max_key_length) {
                 throw system_error(error::key_too_long);
             }
-            const size_t size_required = Item::CalcSizeRequired(key, value_length);
-            if (size_required > m_allocator.page_size) {
+            if (value_length > max_item_size() || Item::CalcSizeRequired(key, value_length) > max_item_size()) {
                 throw system_error(error::item_too_big);
             }
+            const size_t size_required = Item::CalcSizeRequired(key, value_length);
             const auto on_delete = [=](void * ptr) noexcept -> void {
                 auto i = reinterpret_cast<Item *>(ptr);
                 debug_only(bool deleted = ) this->m_dict.del(i->key(), i->hash());
diff --git a/src/cachelot/memalloc-inl.h b/src/cachelot/memalloc-inl.h
index f9348ec..8212dad 100644
--- a/src/cachelot/memalloc-inl.h
+++ b/src/cachelot/memalloc-inl.h
@@ -740,6 +740,12 @@ namespace cachelot {
 
         STAT_INCR(mem.num_malloc, 1);
         STAT_INCR(mem.total_requested, size);
+        if (requested_size > page_size - block::header_size) {
+            // would not fit into the page along with the block metadata
+            STAT_INCR(mem.num_alloc_errors, 1);
+            STAT_INCR(mem.total_unserved, size);
+            return nullptr;
+        }
         // 1. Search among the free blocks
         {
             block * found_blk = m_free_blocks->try_get_block(size);
-- 
2.43.0


From 29ecf93d056eb218fad8d78a36e8e4af45ebf920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:27 +0000
Subject: [PATCH 03/22] fix: incr and decr used the old item and its position
 after an eviction could have invalidated them

---
 src/cachelot/cache.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 3778fa1..6a3baf6 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -642,12 +642,18 @@ namespace cachelot {
             // store new value as an ASCII string
             AsciiIntegerBuffer new_ascii_value;
             const auto new_ascii_value_length = int_to_str(new_int_value, new_ascii_value);
-            // create new item to hold value including zero terminator
-            ItemPtr new_item;
-            new_item = create_item(old_item->key(), old_item->hash(), new_ascii_value_length, old_item->opaque_flags(), old_item->ttl());
+            const auto flags = old_item->opaque_flags();
+            const auto ttl = old_item->ttl();
+            // create new item to hold value; this may evict any of the existing items including the `old_item`
+            ItemPtr new_item = create_item(key, hash, new_ascii_value_length, flags, ttl);
             ItemAutoDelete _item_uniq_ptr(this, new_item);
             new_item->assign_value(slice(new_ascii_value, new_ascii_value_length));
-            replace_item_at(at, _item_uniq_ptr);
+            tie(found, at) = retrieve_item(key, hash);
+            if (found) {
+                replace_item_at(at, _item_uniq_ptr);
+            } else {
+                insert_item_at(at, _item_uniq_ptr);
+            }
             return make_tuple(true, new_int_value);
         }
 
-- 
2.43.0


From 1e3f6b082e261ff9b0817dd55530a2a2ab03bf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:27 +0000
Subject: [PATCH 04/22] fix: append, prepend, incr and decr could make an item
 immortal when the clock ticked

The remaining time to live was computed after the expiration check, so it may be zero
(which means never expire) or less than zero.
---
 src/cachelot/cache.h | 8 +++++---
 src/cachelot/item.h  | 3 +++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 6a3baf6..713df3e 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -532,7 +532,8 @@ namespace cachelot {
                 // do not evict existing items to avoid accidentally free the `piece` or the `old_item`
                 auto memory = m_allocator.alloc_or_evict(Item::CalcSizeRequired(old_item->key(), new_value_size), false, [=](void *){});
                 if (memory != nullptr) {
-                    auto new_item = new (memory) Item(old_item->key(), old_item->hash(), static_cast<uint32>(new_value_size), old_item->opaque_flags(), old_item->ttl(), ++m_newest_timestamp);
+                    auto new_item = new (memory) Item(old_item->key(), old_item->hash(), static_cast<uint32>(new_value_size), old_item->opaque_flags(), Item::infinite_TTL, ++m_newest_timestamp);
+                    new_item->set_expiration_time(old_item->expiration_time());
                     ItemAutoDelete _item_uniq_ptr(this, new_item);
                     if (op == ExtendOperation::APPEND) {
                         new_item->assign_compose(old_item->value(), piece->value());
@@ -643,9 +644,10 @@ namespace cachelot {
             AsciiIntegerBuffer new_ascii_value;
             const auto new_ascii_value_length = int_to_str(new_int_value, new_ascii_value);
             const auto flags = old_item->opaque_flags();
-            const auto ttl = old_item->ttl();
+            const auto expiration_time = old_item->expiration_time();
             // create new item to hold value; this may evict any of the existing items including the `old_item`
-            ItemPtr new_item = create_item(key, hash, new_ascii_value_length, flags, ttl);
+            ItemPtr new_item = create_item(key, hash, new_ascii_value_length, flags, Item::infinite_TTL);
+            new_item->set_expiration_time(expiration_time);
             ItemAutoDelete _item_uniq_ptr(this, new_item);
             new_item->assign_value(slice(new_ascii_value, new_ascii_value_length));
             tie(found, at) = retrieve_item(key, hash);
diff --git a/src/cachelot/item.h b/src/cachelot/item.h
index e02683e..9748902 100644
--- a/src/cachelot/item.h
+++ b/src/cachelot/item.h
@@ -103,6 +103,9 @@ namespace cachelot {
             /// retrieve expiration time of this item
             expiration_time_point expiration_time() const noexcept { return m_expiration_time; }
 
+            /// assign expiration time
+            void set_expiration_time(expiration_time_point when) noexcept { m_expiration_time = when; }
+
             /// retrive number of seconds until expiration
             seconds ttl() const noexcept;
 
-- 
2.43.0


From 48d3cb8dd4ecbfeba1f8e6ed5124d5a07d3b8804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:27 +0000
Subject: [PATCH 05/22] fix: expiration time wrapped around for the long TTL

---
 src/cachelot/item.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cachelot/item.h b/src/cachelot/item.h
index 9748902..15f4f55 100644
--- a/src/cachelot/item.h
+++ b/src/cachelot/item.h
@@ -183,10 +183,11 @@ namespace cachelot {
 
 
         inline void Item::set_ttl(seconds s) noexcept {
-            if (s == infinite_TTL) {
+            const auto now = clock::now();
+            if (s == infinite_TTL || s >= expiration_time_point::max() - now) {
                 m_expiration_time = expiration_time_point::max();
             } else {
-                m_expiration_time = clock::now() + s;
+                m_expiration_time = now + s;
             }
         }
 
-- 
2.43.0


From f058a896133e659b2f152bcc516413e8c441b322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:27 +0000
Subject: [PATCH 06/22] fix: valid 20-digit numbers were rejected as too big

---
 src/cachelot/string_conv.h | 25 ++++---------------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/src/cachelot/string_conv.h b/src/cachelot/string_conv.h
index 5c18e9a..95bb9f4 100644
--- a/src/cachelot/string_conv.h
+++ b/src/cachelot/string_conv.h
@@ -236,32 +236,15 @@ namespace cachelot {
             }
 
             switch (length) {
-                case 20: // in ASCII max uint64 number length is 20
+                case 20: { // in ASCII max uint64 number length is 20
                     // check against the biggest uint64 number - 18446744073709551615
-                    if (str[ 0] > '1' ||
-                        str[ 1] > '8' ||
-                        str[ 2] > '4' ||
-                        str[ 3] > '4' ||
-                        str[ 4] > '6' ||
-                        str[ 5] > '7' ||
-                        str[ 6] > '4' ||
-                        str[ 7] > '4' ||
-                        str[ 8] > '0' ||
-                        str[ 9] > '7' ||
-                        str[10] > '3' ||
-                        str[11] > '7' ||
-                        str[12] > '0' ||
-                        str[13] > '9' ||
-                        str[14] > '5' ||
-                        str[15] > '5' ||
-                        str[16] > '1' ||
-                        str[17] > '6' ||
-                        str[18] > '1' ||
-                        str[19] > '5' ) {
+                    static const char max_uint64[] = "18446744073709551615";
+                    if (std::lexicographical_compare(max_uint64, max_uint64 + 20, str, end)) {
                         out_error = error::numeric_overflow;
                         return NO_RESULT;
                     }
                     return str_to_big_unsigned_impl<ConstIterator, 20>::convert(0, str, length);
+                }
                 case 19:
                     return str_to_big_unsigned_impl<ConstIterator, 19>::convert(0, str, length);
                 case 18:
-- 
2.43.0


From 71fcf2f426aefc1be0cf1eee7b83f04644da3a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:27 +0000
Subject: [PATCH 07/22] fix: conversion of an empty string to the signed
 integer read out of bounds

---
 src/cachelot/string_conv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cachelot/string_conv.h b/src/cachelot/string_conv.h
index 95bb9f4..aff9f56 100644
--- a/src/cachelot/string_conv.h
+++ b/src/cachelot/string_conv.h
@@ -299,7 +299,7 @@ namespace cachelot {
             static constexpr int64 NO_RESULT = std::numeric_limits<int64>::max();
 
             int64 sign;
-            if (*str != '-') {
+            if (str == end || *str != '-') {
                 sign = 1;
             } else {
                 sign = -1;
-- 
2.43.0


From 3e5074629e72f6f6836cac96d54521b33867715e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:27 +0000
Subject: [PATCH 08/22] fix: hash_table::insert returned position of another
 entry

When insert displaces existing entries, the position of the last displaced one was returned.
Lookup during the dict expansion referenced the wrong item because of that.
---
 src/cachelot/hash_table.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/hash_table.h b/src/cachelot/hash_table.h
index 3a9c9d2..bc04403 100644
--- a/src/cachelot/hash_table.h
+++ b/src/cachelot/hash_table.h
@@ -187,15 +187,22 @@ namespace cachelot {
         }
 
         /// insert entry starting from given pos that was returned by @ref hash_table::entry_for
+        ///
+        /// @return position of the inserted entry
         size_type insert(size_type pos, const key_type key, hash_type hash, mapped_type value) noexcept {
             debug_assert(not threshold_reached()); debug_assert(hash != 0);
             entry_type entry(key, value);
             // how far we from the desired position
             size_type lookup_distance = get_distance(pos, hash);
+            bool displaced = false; size_type inserted_at = pos;
             while (not empty_at(pos)) {
                 debug_assert( not eq(entry_at(pos).key(), entry.key()) ); // entry must be unique
                 const size_type existing_entry_distance = get_distance(pos, hash_at(pos));
                 if (existing_entry_distance < lookup_distance) {
+                    if (not displaced) {
+                        displaced = true;
+                        inserted_at = pos;
+                    }
                     std::swap(hash, m_hashes[pos]);
                     swap(entry, entry_at(pos));
                     lookup_distance = existing_entry_distance;
@@ -207,7 +214,7 @@ namespace cachelot {
             m_hashes[pos] = hash;
             std::swap(m_entries[pos], entry);
             m_size += 1;
-            return pos;
+            return displaced ? inserted_at : pos;
         }
 
         /// remove element pos given pos
-- 
2.43.0


From 1ea9782a990bafc593bf7ee20a4f21a178fd8720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:27 +0000
Subject: [PATCH 09/22] fix: hash_table::max_size overflowed for the tables of
 2^26 entries and more

---
 src/cachelot/hash_table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cachelot/hash_table.h b/src/cachelot/hash_table.h
index bc04403..45b58e1 100644
--- a/src/cachelot/hash_table.h
+++ b/src/cachelot/hash_table.h
@@ -282,7 +282,7 @@ namespace cachelot {
         constexpr bool empty() const noexcept { return m_size == 0; }
 
         /// returns max number of elements that can be stored in table
-        constexpr size_type max_size() const noexcept { return static_cast<size_type>(capacity() * max_load_factor_percent / 100); }
+        constexpr size_type max_size() const noexcept { return static_cast<size_type>(static_cast<unsigned long long>(capacity()) * max_load_factor_percent / 100); }
 
     private:
         /// return position in table which element with given `hash` would occupy
-- 
2.43.0


From df3235a6f00a9dd24483e3e7638bf64085e8520d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:27 +0000
Subject: [PATCH 10/22] fix: pages were mixed up when the arena is bigger than
 4Gb

---
 src/cachelot/memalloc-inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cachelot/memalloc-inl.h b/src/cachelot/memalloc-inl.h
index 8212dad..523e4d6 100644
--- a/src/cachelot/memalloc-inl.h
+++ b/src/cachelot/memalloc-inl.h
@@ -142,10 +142,10 @@ namespace cachelot {
             return u8_ptr >= arena_begin && u8_ptr < arena_end;
         }
     private:
-        unsigned page_no_from_addr(const void * const ptr) const noexcept {
+        size_t page_no_from_addr(const void * const ptr) const noexcept {
             debug_assert(valid_addr(ptr));
             auto ui8_ptr = reinterpret_cast<const uint8 * const>(ptr);
-            auto page_no = static_cast<unsigned>(ui8_ptr - arena_begin) >> log2_page_size;
+            auto page_no = static_cast<size_t>(ui8_ptr - arena_begin) >> log2_page_size;
             debug_assert(page_no < num_pages);
             return page_no;
         }
-- 
2.43.0


From 0aac0de2fc1027a9375e146f8d67612266e8f914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:27 +0000
Subject: [PATCH 11/22] fix: Cache::Create accepted the zero initial_dict_size

---
 src/cachelot/cache.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 713df3e..3742b28 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -382,6 +382,9 @@ namespace cachelot {
             if (memory_limit % mem_page_size != 0) {
                 throw std::invalid_argument("memory_limit must be divisible by mem_page_size");
             }
+            if (initial_dict_size == 0) {
+                throw std::invalid_argument("initial_dict_size must be non-zero");
+            }
             if (not ispow2(initial_dict_size)) {
                 throw std::invalid_argument("initial_dict_size must be power of 2");
             }
-- 
2.43.0


From cd9a5f1852b87f7b60ecbc550e3c68f413fb8242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:27 +0000
Subject: [PATCH 12/22] fix: dict lost all its items when an allocation of the
 new table failed

---
 src/cachelot/dict.h | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/cachelot/dict.h b/src/cachelot/dict.h
index f7ccf4c..8f96517 100644
--- a/src/cachelot/dict.h
+++ b/src/cachelot/dict.h
@@ -287,17 +287,15 @@ namespace cachelot {
 
         void begin_expand() {
             debug_assert(not is_expanding());
-            m_expand_pos = 0;
-            m_primary_tbl.swap(m_secondary_tbl);
-            m_primary_tbl.reset(new hash_table_type(pow2(m_hashpower + 1)));
-            if (m_primary_tbl && m_primary_tbl->ok()) {
-                m_hashpower += 1;
-                rehash_some();
-            } else {
-                m_primary_tbl.swap(m_secondary_tbl);
-                m_secondary_tbl.reset(nullptr);
+            std::unique_ptr<hash_table_type> new_tbl(new hash_table_type(pow2(m_hashpower + 1)));
+            if (not new_tbl->ok()) {
                 throw std::bad_alloc();
             }
+            m_expand_pos = 0;
+            m_secondary_tbl = std::move(m_primary_tbl);
+            m_primary_tbl = std::move(new_tbl);
+            m_hashpower += 1;
+            rehash_some();
         }
 
         void end_expand() noexcept {
-- 
2.43.0


From 2fedfe823b9d781f7497b8451ac5043f6dda5df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:27 +0000
Subject: [PATCH 13/22] fix: io_buffer lost its data and leaked memory when
 realloc failed

---
 src/server/io_buffer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/io_buffer.h b/src/server/io_buffer.h
index 4e3102a..9cb549f 100644
--- a/src/server/io_buffer.h
+++ b/src/server/io_buffer.h
@@ -161,8 +161,9 @@ namespace cachelot {
             // grow buffer
             const size_t new_capacity = capacity_advice(at_least);
             if (new_capacity - size() >= at_least) {
-                m_data = reinterpret_cast<char *>(std::realloc(m_data, new_capacity));
-                if (m_data != nullptr) {
+                auto new_data = reinterpret_cast<char *>(std::realloc(m_data, new_capacity));
+                if (new_data != nullptr) {
+                    m_data = new_data;
                     m_capacity = new_capacity;
                 } else {
                     throw std::bad_alloc();
-- 
2.43.0


From e5c97e930d31bf564cd810d502e9d00da08f3c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:27 +0000
Subject: [PATCH 14/22] fix: destructor of the moved-from Cache crashed

---
 src/cachelot/dict.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/dict.h b/src/cachelot/dict.h
index 8f96517..28205cb 100644
--- a/src/cachelot/dict.h
+++ b/src/cachelot/dict.h
@@ -201,7 +201,9 @@ namespace cachelot {
             if (m_secondary_tbl) {
                 m_secondary_tbl->remove_if(predicate);
             }
-            m_primary_tbl->remove_if(predicate);
+            if (m_primary_tbl) {
+                m_primary_tbl->remove_if(predicate);
+            }
         }
 
         /// @copydoc hash_table::contains
-- 
2.43.0


From 39ee1f40a39fc69e12ee2b87cc77796e37b152f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:27 +0000
Subject: [PATCH 15/22] fix: bit::is_set gave wrong answers for the upper bits
 of the 64-bit integers

---
 src/cachelot/bits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cachelot/bits.h b/src/cachelot/bits.h
index ba09a8d..96f3716 100644
--- a/src/cachelot/bits.h
+++ b/src/cachelot/bits.h
@@ -55,7 +55,7 @@ namespace cachelot {
         /// Test whether `bitno` is set (`bitno` counts from zero)
         template <typename IntType>
         constexpr bool is_set(const IntType value, const unsigned bitno) noexcept {
-            return value & (1 << bitno);
+            return (value & (IntType(1) << bitno)) != 0;
         }
 
         /// Test whether `bitno` is not set (`bitno` counts from zero)
-- 
2.43.0


From 71c05bc571a54027f8b294e99b27bc0c19e5c4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:27 +0000
Subject: [PATCH 16/22] fix: slice::startswith compared addresses rather than
 the contents

---
 src/cachelot/slice.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cachelot/slice.h b/src/cachelot/slice.h
index 38948ff..c32efc0 100644
--- a/src/cachelot/slice.h
+++ b/src/cachelot/slice.h
@@ -114,7 +114,7 @@ namespace cachelot {
 
         /// returns `true` if this slice contents starts with `what`
         bool startswith(const slice what) const noexcept {
-            return search(what).begin() == begin();
+            return what.length() <= length() && std::equal(what.begin(), what.end(), begin());
         }
 
         /// returns `true` if this slice contents ends with `what`
-- 
2.43.0


From 53ece7073de4efbe7ef37aca020a3a17de99033e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:27 +0000
Subject: [PATCH 17/22] fix: some of the C API calls did not clear the error on
 success

---
 src/cachelot/c_api.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cachelot/c_api.cpp b/src/cachelot/c_api.cpp
index d16d06c..9570b0e 100644
--- a/src/cachelot/c_api.cpp
+++ b/src/cachelot/c_api.cpp
@@ -74,6 +74,7 @@ extern "C" {
     CachelotPtr cachelot_init(CachelotOptions opts, CachelotError * out_error) {
         try {
             cachelot_t * c = new cachelot_t{cache::Cache::Create(opts.memory_limit, opts.mem_page_size, opts.initial_dict_size, opts.enable_evictions)};
+            none_error(out_error);
             return c;
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -97,6 +98,7 @@ extern "C" {
         try {
             auto new_item = c->cache.create_item(slice(k.key, k.keylen), k.hash, valuelen, 0, cache::Item::infinite_TTL);
             new_item->assign_value(slice(value, valuelen));
+            none_error(out_error);
             return reinterpret_cast<CachelotItemPtr>(new_item);
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -292,6 +294,7 @@ extern "C" {
             if (result != nullptr) {
                 *result = newval;
             }
+            none_error(out_error);
             return found;
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -311,6 +314,7 @@ extern "C" {
             if (result != nullptr) {
                 *result = newval;
             }
+            none_error(out_error);
             return found;
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -326,6 +330,7 @@ extern "C" {
     void cachelot_flush_all(CachelotPtr c, CachelotError * out_error) {
         try {
             c->cache.do_flush_all();
+            none_error(out_error);
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
         } catch(const std::exception & e) {
-- 
2.43.0


From aed93c6a7a00bc67ad9f7e73c8b8ec336d8813c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:07 +0000
Subject: [PATCH 18/22] fix: frame header of the unanswered UDP request was
 sent along with the next reply

---
 src/server/memcached/conversation.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/server/memcached/conversation.h b/src/server/memcached/conversation.h
index 3eecc29..45d4283 100644
--- a/src/server/memcached/conversation.h
+++ b/src/server/memcached/conversation.h
@@ -85,7 +85,12 @@ namespace cachelot {
                 auto w_savepoint = send_buf.write_savepoint();
                 try {
                     handle_udp_frame_header(recv_buf, send_buf);
-                    return handle_received_data(recv_buf, send_buf, cache_api);
+                    auto reply = handle_received_data(recv_buf, send_buf, cache_api);
+                    if (reply != net::SEND_REPLY_AND_READ) {
+                        // there is nothing to reply with, discard the frame header
+                        send_buf.rollback_write_transaction(w_savepoint);
+                    }
+                    return reply;
                 } catch (const std::exception & exc) {
                     send_buf.rollback_write_transaction(w_savepoint);
                     return net::READ_MORE;
-- 
2.43.0


From 7065d3154772f16c11422a46d3f627a7bca3966c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:07 +0000
Subject: [PATCH 19/22] fix: next UDP request could modify the send buffer
 while the previous reply was being sent

---
 src/server/socket_datagram.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/server/socket_datagram.h b/src/server/socket_datagram.h
index c97af8b..2694772 100644
--- a/src/server/socket_datagram.h
+++ b/src/server/socket_datagram.h
@@ -89,10 +89,14 @@ namespace cachelot { namespace net {
                 m_recv_buf.confirm_write(bytes_recvd);
                 if (not error) {
                     try {
-                        if (handle_data(m_recv_buf, m_send_buf) == SEND_REPLY_AND_READ) {
+                        const auto reply = handle_data(m_recv_buf, m_send_buf);
+                        // we expect only one packet per datagram
+                        m_recv_buf.reset();
+                        if (reply == SEND_REPLY_AND_READ) {
+                            // send buffer must stay untouched until the reply is sent
                             async_send_all(m_remote_endpoint);
+                            return;
                         }
-                        m_recv_buf.compact();
                     } catch (const std::exception &) { /* swallow exception */ }
                 } else {
                     if (error == io_error::operation_aborted) {
@@ -100,8 +104,7 @@ namespace cachelot { namespace net {
                         return;
                     }
                 }
-                // we expect only one packet per datagram
-                m_recv_buf.read_all();
+                m_recv_buf.reset();
                 this->async_receive();
             });
     }
@@ -115,6 +118,7 @@ namespace cachelot { namespace net {
                 // even data was not sent completely
                 m_send_buf.confirm_read(need_to_send);
                 m_send_buf.compact();
+                this->async_receive();
             });
     }
 
-- 
2.43.0


From fc67ee8eef3845b98b3d4e33c93fd549b1de9516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:07 +0000
Subject: [PATCH 20/22] fix: UDP requests of more than 500 bytes were truncated

---
 src/server/socket_datagram.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/server/socket_datagram.h b/src/server/socket_datagram.h
index 2694772..33c6561 100644
--- a/src/server/socket_datagram.h
+++ b/src/server/socket_datagram.h
@@ -27,6 +27,7 @@ namespace cachelot { namespace net {
     class datagram_server {
         typedef SocketType socket_type;
         typedef typename socket_type::protocol_type protocol_type;
+        static constexpr size_t max_datagram_size = 65536;
     public:
         /// constructor
         explicit datagram_server(io_service & ios)
@@ -72,6 +73,10 @@ namespace cachelot { namespace net {
     };
 
 
+    template <class SocketType>
+    constexpr size_t datagram_server<SocketType>::max_datagram_size;
+
+
     template <class SocketType>
     inline void datagram_server<SocketType>::start(const typename protocol_type::endpoint bind_addr) {
         m_socket.open(bind_addr.protocol());
@@ -84,7 +89,7 @@ namespace cachelot { namespace net {
 
     template <class SocketType>
     inline void datagram_server<SocketType>::async_receive() noexcept {
-        m_socket.async_receive_from(asio::buffer(m_recv_buf.begin_write(), m_recv_buf.available()), m_remote_endpoint,
+        m_socket.async_receive_from(asio::buffer(m_recv_buf.begin_write(max_datagram_size), m_recv_buf.available()), m_remote_endpoint,
             [=] (const error_code error, size_t bytes_recvd) noexcept {
                 m_recv_buf.confirm_write(bytes_recvd);
                 if (not error) {
-- 
2.43.0


From 462e36e3d71d9fb4928ecb3c57ddd1c6ca0939e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:07 +0000
Subject: [PATCH 21/22] fix: pipelined requests were stuck, replies were mixed
 up and too long request killed the server

Only one request was handled per receive. Next request was handled and sent while the
previous reply was being sent from the same buffer. Receive buffer limit was reported with an
exception out of the noexcept function.
---
 src/server/socket_stream.h | 52 ++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/src/server/socket_stream.h b/src/server/socket_stream.h
index 3acc8ea..00c3c5e 100644
--- a/src/server/socket_stream.h
+++ b/src/server/socket_stream.h
@@ -62,7 +62,10 @@ namespace cachelot { namespace net {
         /// start asynchronous receive operation, call the Conversation::handle_data on complete
         void async_receive_some() noexcept;
 
-        /// start asynchronous send of the send buffer
+        /// process received data, one request at a time
+        void handle_received() noexcept;
+
+        /// start asynchronous send of the send buffer, continue with the next request on complete
         void async_send_all() noexcept;
 
         /// schedule arbitrary function into IO loop
@@ -143,23 +146,16 @@ namespace cachelot { namespace net {
     template <class Sock, class Conversation>
     inline void stream_connection<Sock, Conversation>::async_receive_some() noexcept {
         auto self = this->shared_from_this();
+        try {
+            m_recv_buf.begin_write();
+        } catch (const std::exception &) {
+            return; // request is too big
+        }
         m_socket.async_read_some(asio::buffer(m_recv_buf.begin_write(), m_recv_buf.available()),
             [=](const error_code error, const size_t bytes_received) {
-                slice receive_result;
                 if (not error) {
                     self->m_recv_buf.confirm_write(bytes_received);
-                    ConversationReply reply = handle_data(m_recv_buf, m_send_buf);
-                    self->m_recv_buf.compact();
-                    switch (reply) {
-                    case SEND_REPLY_AND_READ:
-                        self->async_send_all();
-                        // there is no `break` so we'll continue receive
-                    case READ_MORE:
-                        self->async_receive_some();
-                        break;
-                    case CLOSE_IMMEDIATELY:
-                        break;
-                    }
+                    self->handle_received();
                 } else {
                     if (error == io_error::message_size) {
                         self->m_recv_buf.confirm_write(bytes_received);
@@ -170,6 +166,29 @@ namespace cachelot { namespace net {
     }
 
 
+    template <class Sock, class Conversation>
+    inline void stream_connection<Sock, Conversation>::handle_received() noexcept {
+        size_t unhandled;
+        ConversationReply reply;
+        do {
+            unhandled = m_recv_buf.non_read();
+            reply = handle_data(m_recv_buf, m_send_buf);
+            // there may be a number of requests in the buffer, read more when the last one is incomplete
+        } while (reply == READ_MORE && m_recv_buf.non_read() > 0 && m_recv_buf.non_read() < unhandled);
+        m_recv_buf.compact();
+        switch (reply) {
+        case SEND_REPLY_AND_READ:
+            async_send_all();
+            break;
+        case READ_MORE:
+            async_receive_some();
+            break;
+        case CLOSE_IMMEDIATELY:
+            break;
+        }
+    }
+
+
     template <class Sock, class Conversation>
     inline void stream_connection<Sock, Conversation>::async_send_all() noexcept {
         if (m_killed) { return; }
@@ -180,6 +199,11 @@ namespace cachelot { namespace net {
                     debug_assert(self->m_send_buf.non_read() == bytes_sent);
                     self->m_send_buf.confirm_read(bytes_sent);
                     self->m_send_buf.compact();
+                    if (self->m_recv_buf.non_read() > 0) {
+                        self->handle_received();
+                    } else {
+                        self->async_receive_some();
+                    }
                 }
             });
     }
-- 
2.43.0


From c81df2646d65c7980a666aa468869ee64780a487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:57 +0000
Subject: [PATCH 22/22] verification hook: CACHELOT_DICT_REHASH_BATCH overrides
 the rehash batch size of the dict

---
 src/cachelot/dict.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cachelot/dict.h b/src/cachelot/dict.h
index 28205cb..4159f12 100644
--- a/src/cachelot/dict.h
+++ b/src/cachelot/dict.h
@@ -308,7 +308,11 @@ namespace cachelot {
         }
 
         void rehash_some() noexcept {
+            #if defined(CACHELOT_DICT_REHASH_BATCH) // verification hook
+            static constexpr size_type min_batch_size = CACHELOT_DICT_REHASH_BATCH;
+            #else
             static constexpr size_type min_batch_size = 512;
+            #endif
             const size_type batch_size = std::min<size_type>(min_batch_size, m_secondary_tbl->size());
             size_type elements_moved = 0;
             while (elements_moved < batch_size) {
-- 
2.43.0

