From b0078b836010e791313778a762e8dc3764e3cf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 01/27] fix: destroy the elements that array take drops in
 place

with_capacity::take_mut destroyed [size, 2*size - sz) instead of [sz, size)
when it owned the buffer.
---
 immer/detail/arrays/with_capacity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/immer/detail/arrays/with_capacity.hpp b/immer/detail/arrays/with_capacity.hpp
index c80f706..0069147 100644
--- a/immer/detail/arrays/with_capacity.hpp
+++ b/immer/detail/arrays/with_capacity.hpp
@@ -302,7 +302,7 @@ struct with_capacity
     {
         assert(sz <= size);
         if (ptr->can_mutate(e)) {
-            detail::destroy_n(data() + size, size - sz);
+            detail::destroy_n(data() + sz, size - sz);
             size = sz;
         } else {
             auto cap = recommend_down(sz, capacity);
-- 
2.43.0


From 5e64b717c9c17fa54486b1f8a2c2ab5d406902ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:18 +0000
Subject: [PATCH 02/27] fix: clamp the argument of array take to the size

The documentation promises the first min(elems, size()) elements, as the
other sequences give.
---
 immer/detail/arrays/no_capacity.hpp   | 1 +
 immer/detail/arrays/with_capacity.hpp | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/immer/detail/arrays/no_capacity.hpp b/immer/detail/arrays/no_capacity.hpp
index a24f6da..fe2faa2 100644
--- a/immer/detail/arrays/no_capacity.hpp
+++ b/immer/detail/arrays/no_capacity.hpp
@@ -201,6 +201,7 @@ struct no_capacity
 
     no_capacity take(std::size_t sz) const
     {
+        sz     = std::min(sz, size);
         auto p = node_t::copy_n(sz, ptr, sz);
         return {p, sz};
     }
diff --git a/immer/detail/arrays/with_capacity.hpp b/immer/detail/arrays/with_capacity.hpp
index 0069147..804f572 100644
--- a/immer/detail/arrays/with_capacity.hpp
+++ b/immer/detail/arrays/with_capacity.hpp
@@ -292,7 +292,7 @@ struct with_capacity
 
     with_capacity take(std::size_t sz) const
     {
-        assert(sz <= size);
+        sz = std::min(sz, size);
         auto cap = recommend_down(sz, capacity);
         auto p   = node_t::copy_n(cap, ptr, sz);
         return {p, sz, cap};
@@ -300,7 +300,7 @@ struct with_capacity
 
     void take_mut(edit_t e, std::size_t sz)
     {
-        assert(sz <= size);
+        sz = std::min(sz, size);
         if (ptr->can_mutate(e)) {
             detail::destroy_n(data() + sz, size - sz);
             size = sz;
-- 
2.43.0


From f8cd6e58d4d936ea01b2c06a6918ae65dc1c625a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 03/27] fix: compare all the elements of flex vectors of
 different shape

equals() looked at no element before the tail when only the left side had
a tree, and skipped those between the tail offsets when the left tree was
the deeper one, so different vectors compared equal.
---
 immer/detail/rbts/rrbtree.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/immer/detail/rbts/rrbtree.hpp b/immer/detail/rbts/rrbtree.hpp
index 843921b..148ca07 100644
--- a/immer/detail/rbts/rrbtree.hpp
+++ b/immer/detail/rbts/rrbtree.hpp
@@ -289,6 +289,11 @@ struct rrbtree
             return true;
         auto tail_off       = tail_offset();
         auto tail_off_other = other.tail_offset();
+        // in these cases the code below would not look at the elements
+        // between both tail offsets, but it does the other way around
+        if (tail_off > tail_off_other &&
+            (tail_off_other == 0 || other.shift < shift))
+            return other.equals(*this);
         // compare trees
         if (tail_off > 0 && tail_off_other > 0) {
             // other.shift != shift is a theoretical possibility for
-- 
2.43.0


From 19b4daf5f63a00c86a9cbc8c556415c9995636f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 04/27] fix: keep the left tail alive when a transient is
 prepended in place

prepend(transient&&) put the tail of the left side in the new tree without
counting that reference when that tail was full.
---
 immer/detail/rbts/rrbtree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/immer/detail/rbts/rrbtree.hpp b/immer/detail/rbts/rrbtree.hpp
index 148ca07..1cc3c0c 100644
--- a/immer/detail/rbts/rrbtree.hpp
+++ b/immer/detail/rbts/rrbtree.hpp
@@ -1209,6 +1209,7 @@ struct rrbtree
                 // are tagged with `er`
                 auto res =
                     l.push_tail(l.root, l.shift, tail_offst, l.tail, tail_size);
+                l.tail->inc();
                 r = {l.size + r.size, get<0>(res), get<1>(res), r.tail->inc()};
                 return;
             } else if (tail_size + r.size <= branches<BL>) {
-- 
2.43.0


From 757ec312593bef96a140b87b6cff266c045e4195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 05/27] fix: destroy the right elements when appending in place
 fails

When the second half of the right tail can not be copied, the elements that
were added to the left tail are to be destroyed, not those of the right.
---
 immer/detail/rbts/rrbtree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/immer/detail/rbts/rrbtree.hpp b/immer/detail/rbts/rrbtree.hpp
index 1cc3c0c..53af20c 100644
--- a/immer/detail/rbts/rrbtree.hpp
+++ b/immer/detail/rbts/rrbtree.hpp
@@ -832,7 +832,7 @@ struct rrbtree
                     }
                 }
                 IMMER_CATCH (...) {
-                    detail::destroy_n(r.tail->leaf() + tail_size, remaining);
+                    detail::destroy_n(l.tail->leaf() + tail_size, remaining);
                     IMMER_RETHROW;
                 }
             }
@@ -1110,7 +1110,7 @@ struct rrbtree
                     }
                 }
                 IMMER_CATCH (...) {
-                    detail::destroy_n(r.tail->leaf() + tail_size, remaining);
+                    detail::destroy_n(l.tail->leaf() + tail_size, remaining);
                     IMMER_RETHROW;
                 }
             }
-- 
2.43.0


From 063b237c555eaece162fd01dc371cc8b51bb7a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:49 +0000
Subject: [PATCH 06/27] fix: let ranges be erased from expiring flex vectors
 under any policy

The range overload of erase() && deduced two different return types when the
memory policy does not mutate r-values in place, and did not compile.
---
 immer/flex_vector.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/immer/flex_vector.hpp b/immer/flex_vector.hpp
index f970db9..6ab7251 100644
--- a/immer/flex_vector.hpp
+++ b/immer/flex_vector.hpp
@@ -488,12 +488,7 @@ public:
     }
     IMMER_NODISCARD decltype(auto) erase(size_type pos, size_type lpos) &&
     {
-        if (lpos > pos) {
-            auto rs = drop(lpos);
-            return std::move(*this).take(pos) + std::move(rs);
-        } else {
-            return std::move(*this);
-        }
+        return erase_move(move_t{}, pos, lpos);
     }
 
     /*!
@@ -589,6 +584,20 @@ private:
         return impl_.drop(elems);
     }
 
+    flex_vector&& erase_move(std::true_type, size_type pos, size_type lpos)
+    {
+        if (lpos > pos) {
+            auto rs = drop(lpos);
+            return std::move(*this).take(pos) + std::move(rs);
+        } else {
+            return std::move(*this);
+        }
+    }
+    flex_vector erase_move(std::false_type, size_type pos, size_type lpos)
+    {
+        return lpos > pos ? take(pos) + drop(lpos) : *this;
+    }
+
     static flex_vector&&
     concat_move(std::true_type, flex_vector&& l, const flex_vector& r)
     {
-- 
2.43.0


From 679136c1cb2b27d821345f2a2189e766f5457872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:04 +0000
Subject: [PATCH 07/27] fix: look elements up in trees of any depth

Trees deeper than six levels can be built (concatenation makes them with the
default branching, any operation with a smaller one) but indexing in them
ran into __builtin_unreachable().
---
 immer/config.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/immer/config.hpp b/immer/config.hpp
index af34e5f..1808895 100644
--- a/immer/config.hpp
+++ b/immer/config.hpp
@@ -111,7 +111,7 @@
 // #define IMMER_PREFETCH(p)    __builtin_prefetch(p)
 #endif
 
-#define IMMER_DESCENT_DEEP 0
+#define IMMER_DESCENT_DEEP 1
 
 #ifndef IMMER_ENABLE_DEBUG_SIZE_HEAP
 #ifdef NDEBUG
-- 
2.43.0


From 5335121ca060d3f2b9bc877e3bb80e7f469cded9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:41 +0000
Subject: [PATCH 08/27] fix: do not move elements onto themselves when dropping
 in place

Dropping up to a leaf boundary in place move-assigned every element of that
leaf to itself, which empties std::string and many other types.
---
 immer/detail/rbts/operations.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/immer/detail/rbts/operations.hpp b/immer/detail/rbts/operations.hpp
index d5ff679..1ba9da2 100644
--- a/immer/detail/rbts/operations.hpp
+++ b/immer/detail/rbts/operations.hpp
@@ -1383,7 +1383,8 @@ struct slice_left_mut_visitor
         if (mutate) {
             auto data     = node->leaf();
             auto newcount = count - idx;
-            std::move(data + idx, data + count, data);
+            if (idx) // do not move the elements onto themselves
+                std::move(data + idx, data + count, data);
             detail::destroy_n(data + newcount, idx);
             return std::make_tuple(0, node);
         } else {
-- 
2.43.0


From 735e3c95559aa9da0f3698f720021e10f9bb02f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 09/27] fix: keep blocks from the free lists aligned for any
 fundamental type

The list node put in front of every block is 8 bytes, so blocks handed out
by the free list heaps were misaligned for types aligned to 16.  The lists
themselves only need room for the link in the blocks they are asked for.
---
 immer/heap/free_list_heap.hpp        | 4 ++--
 immer/heap/free_list_node.hpp        | 4 +++-
 immer/heap/unsafe_free_list_heap.hpp | 4 ++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/immer/heap/free_list_heap.hpp b/immer/heap/free_list_heap.hpp
index 15ae01d..7921a36 100644
--- a/immer/heap/free_list_heap.hpp
+++ b/immer/heap/free_list_heap.hpp
@@ -34,7 +34,7 @@ struct free_list_heap : Base
     static void* allocate(std::size_t size, Tags...)
     {
         assert(size <= sizeof(free_list_node) + Size);
-        assert(size >= sizeof(free_list_node));
+        assert(size >= sizeof(free_list_node*));
 
         free_list_node* n;
         do {
@@ -52,7 +52,7 @@ struct free_list_heap : Base
     static void deallocate(std::size_t size, void* data, Tags...)
     {
         assert(size <= sizeof(free_list_node) + Size);
-        assert(size >= sizeof(free_list_node));
+        assert(size >= sizeof(free_list_node*));
 
         // we use relaxed, because we are fine with temporarily having
         // a few more/less buffers in free list
diff --git a/immer/heap/free_list_node.hpp b/immer/heap/free_list_node.hpp
index acab477..94d9d5b 100644
--- a/immer/heap/free_list_node.hpp
+++ b/immer/heap/free_list_node.hpp
@@ -10,9 +10,11 @@
 
 #include <immer/heap/with_data.hpp>
 
+#include <cstddef>
+
 namespace immer {
 
-struct free_list_node
+struct alignas(std::max_align_t) free_list_node
 {
     free_list_node* next;
 };
diff --git a/immer/heap/unsafe_free_list_heap.hpp b/immer/heap/unsafe_free_list_heap.hpp
index 9b41dfc..6315e16 100644
--- a/immer/heap/unsafe_free_list_heap.hpp
+++ b/immer/heap/unsafe_free_list_heap.hpp
@@ -48,7 +48,7 @@ public:
     static void* allocate(std::size_t size, Tags...)
     {
         assert(size <= sizeof(free_list_node) + Size);
-        assert(size >= sizeof(free_list_node));
+        assert(size >= sizeof(free_list_node*));
 
         auto n = storage::head().data;
         if (!n) {
@@ -64,7 +64,7 @@ public:
     static void deallocate(std::size_t size, void* data, Tags...)
     {
         assert(size <= sizeof(free_list_node) + Size);
-        assert(size >= sizeof(free_list_node));
+        assert(size >= sizeof(free_list_node*));
 
         if (storage::head().count >= Limit)
             base_t::deallocate(Size + sizeof(free_list_node), data);
-- 
2.43.0


From f19345ec0d8135db7957b7bdfe882ec2ba6ba671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:59 +0000
Subject: [PATCH 10/27] fix: do not destroy an element twice when replacing a
 collision fails

---
 immer/detail/hamts/node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/immer/detail/hamts/node.hpp b/immer/detail/hamts/node.hpp
index 1801984..d9cc256 100644
--- a/immer/detail/hamts/node.hpp
+++ b/immer/detail/hamts/node.hpp
@@ -503,7 +503,7 @@ struct node
                     detail::uninitialized_copy(pos + 1, srcp + n, dstp);
                 }
                 IMMER_CATCH (...) {
-                    detail::destroy(dst->collisions(), dstp);
+                    detail::destroy(dst->collisions() + 1, dstp);
                     IMMER_RETHROW;
                 }
             }
-- 
2.43.0


From 301bbc49c49e9add76ab296e2ca4da99ff90e95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:37 +0000
Subject: [PATCH 11/27] fix: keep the element in place when pushing it down the
 tree fails

---
 immer/detail/hamts/champ.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/immer/detail/hamts/champ.hpp b/immer/detail/hamts/champ.hpp
index 0e04d57..c830f43 100644
--- a/immer/detail/hamts/champ.hpp
+++ b/immer/detail/hamts/champ.hpp
@@ -701,15 +701,14 @@ struct champ
                         return {node_t::owned_values(r, e), false, false};
                     }
                 } else {
-                    auto mutate        = node->can_mutate(e);
-                    auto mutate_values = mutate && node->can_mutate_values(e);
-                    auto hash2         = Hash{}(*val);
-                    auto child         = node_t::make_merged_e(
+                    auto mutate = node->can_mutate(e);
+                    auto hash2  = Hash{}(*val);
+                    auto child  = node_t::make_merged_e(
                         e,
                         shift + B,
                         std::move(v),
                         hash,
-                        mutate_values ? std::move(*val) : *val,
+                        *val,
                         hash2);
                     IMMER_TRY {
                         auto r = mutate ? node_t::move_inner_replace_merged(
@@ -1000,16 +999,15 @@ struct champ
                         return {node_t::owned_values(r, e), false, false};
                     }
                 } else {
-                    auto mutate        = node->can_mutate(e);
-                    auto mutate_values = mutate && node->can_mutate_values(e);
-                    auto hash2         = Hash{}(*val);
-                    auto child         = node_t::make_merged_e(
+                    auto mutate = node->can_mutate(e);
+                    auto hash2  = Hash{}(*val);
+                    auto child  = node_t::make_merged_e(
                         e,
                         shift + B,
                         Combine{}(std::forward<K>(k),
                                   std::forward<Fn>(fn)(Default{}())),
                         hash,
-                        mutate_values ? std::move(*val) : *val,
+                        *val,
                         hash2);
                     IMMER_TRY {
                         auto r = mutate ? node_t::move_inner_replace_merged(
-- 
2.43.0


From 6b0d62d5e543b63c31adaf505790d7535b1cf70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 12/27] fix: keep the nodes of an erased element until its
 sibling is in place

---
 immer/detail/hamts/champ.hpp | 84 ++++++++++++------------------------
 immer/detail/hamts/node.hpp  |  5 ++-
 2 files changed, 30 insertions(+), 59 deletions(-)

diff --git a/immer/detail/hamts/champ.hpp b/immer/detail/hamts/champ.hpp
index c830f43..7bc123e 100644
--- a/immer/detail/hamts/champ.hpp
+++ b/immer/detail/hamts/champ.hpp
@@ -1261,7 +1261,7 @@ struct champ
                                          : node_t::make_inner_n(
                                                0,
                                                node->datamap() & ~bit,
-                                               node->values()[!offset]);
+                                               T(node->values()[!offset]));
                     } else {
                         assert(shift == 0);
                         return empty();
@@ -1312,13 +1312,6 @@ struct champ
         sub_result_mut()
             : kind{kind_t::nothing}
             , mutated{false} {};
-        sub_result_mut(T* x, bool m)
-            : kind{kind_t::singleton}
-            , owned{m}
-            , mutated{m}
-        {
-            data.singleton = x;
-        };
         sub_result_mut(T* x, bool o, bool m)
             : kind{kind_t::singleton}
             , owned{o}
@@ -1340,8 +1333,7 @@ struct champ
                               node_t* node,
                               const K& k,
                               hash_t hash,
-                              shift_t shift,
-                              void* store) const
+                              shift_t shift) const
     {
         auto mutate = node->can_mutate(e);
         if (shift == max_shift<B>) {
@@ -1350,14 +1342,8 @@ struct champ
             for (auto cur = fst; cur != lst; ++cur) {
                 if (Equal{}(*cur, k)) {
                     if (node->collision_count() <= 2) {
-                        if (mutate) {
-                            auto r = new (store)
-                                T{std::move(node->collisions()[cur == fst])};
-                            node_t::delete_collision(node);
-                            return sub_result_mut{r, true};
-                        } else {
-                            return sub_result_mut{fst + (cur == fst), false};
-                        }
+                        return sub_result_mut{
+                            fst + (cur == fst), mutate, false};
                     } else {
                         auto r = mutate
                                      ? node_t::move_collision_remove(node, cur)
@@ -1375,7 +1361,7 @@ struct champ
                 auto children = node->children();
                 auto child    = children[offset];
                 auto result =
-                    mutate ? do_sub_mut(e, child, k, hash, shift + B, store)
+                    mutate ? do_sub_mut(e, child, k, hash, shift + B)
                            : do_sub(child, k, hash, shift + B);
                 switch (result.kind) {
                 case sub_result::nothing:
@@ -1383,30 +1369,20 @@ struct champ
                 case sub_result::singleton:
                     if (node->datamap() == 0 && node->children_count() == 1 &&
                         shift > 0) {
-                        if (mutate) {
-                            node_t::delete_inner(node);
-                            if (!result.mutated && child->dec())
-                                node_t::delete_deep_shift(child, shift + B);
-                        }
-                        return {result.data.singleton, result.owned, mutate};
+                        return {result.data.singleton, result.owned, false};
                     } else {
+                        auto& x = *result.data.singleton;
                         auto r =
-                            mutate ? node_t::move_inner_replace_inline(
-                                         e,
-                                         node,
-                                         bit,
-                                         offset,
-                                         result.owned
-                                             ? std::move(*result.data.singleton)
-                                             : *result.data.singleton)
-                                   : node_t::copy_inner_replace_inline(
-                                         node,
-                                         bit,
-                                         offset,
-                                         *result.data.singleton);
-                        if (result.owned)
-                            detail::destroy_at(result.data.singleton);
-                        if (!result.mutated && mutate && child->dec())
+                            !mutate ? node_t::copy_inner_replace_inline(
+                                          node, bit, offset, x)
+                            : result.owned
+                                ? node_t::move_inner_replace_inline(
+                                      e, node, bit, offset, std::move(x))
+                                : node_t::move_inner_replace_inline(
+                                      e, node, bit, offset, T(x));
+                        // only now that the element is in its new place can
+                        // the nodes that held it go
+                        if (mutate && child->dec())
                             node_t::delete_deep_shift(child, shift + B);
                         return {node_t::owned_values(r, e), mutate};
                     }
@@ -1443,20 +1419,15 @@ struct champ
                         return {node_t::owned_values_safe(r, e), mutate};
                     } else if (nv == 2) {
                         if (shift > 0) {
-                            if (mutate_values) {
-                                auto r = new (store)
-                                    T{std::move(node->values()[!offset])};
-                                node_t::delete_inner(node);
-                                return {r, true};
-                            } else {
-                                return {node->values() + !offset, false};
-                            }
+                            return {
+                                node->values() + !offset, mutate_values, false};
                         } else {
-                            auto& v = node->values()[!offset];
-                            auto r  = node_t::make_inner_n(
-                                0,
-                                node->datamap() & ~bit,
-                                mutate_values ? std::move(v) : v);
+                            auto& v  = node->values()[!offset];
+                            auto map = node->datamap() & ~bit;
+                            auto r   = mutate_values ? node_t::make_inner_n(
+                                                         0, map, std::move(v))
+                                                     : node_t::make_inner_n(
+                                                         0, map, T(v));
                             assert(!node->nodemap());
                             if (mutate)
                                 node_t::delete_inner(node);
@@ -1477,9 +1448,8 @@ struct champ
     template <typename K>
     void sub_mut(edit_t e, const K& k)
     {
-        auto store = aligned_storage_for<T>{};
-        auto hash  = Hash{}(k);
-        auto res   = do_sub_mut(e, root, k, hash, 0, &store);
+        auto hash = Hash{}(k);
+        auto res  = do_sub_mut(e, root, k, hash, 0);
         switch (res.kind) {
         case sub_result::nothing:
             break;
diff --git a/immer/detail/hamts/node.hpp b/immer/detail/hamts/node.hpp
index d9cc256..c8442ee 100644
--- a/immer/detail/hamts/node.hpp
+++ b/immer/detail/hamts/node.hpp
@@ -279,7 +279,7 @@ struct node
         return p;
     }
 
-    static node_t* make_inner_n(count_t n, bitmap_t bitmap, T x)
+    static node_t* make_inner_n(count_t n, bitmap_t bitmap, T&& x)
     {
         auto p                       = make_inner_n(n, 1);
         p->impl.d.data.inner.datamap = bitmap;
@@ -732,7 +732,7 @@ struct node
     }
 
     static node_t* move_inner_replace_inline(
-        edit_t e, node_t* src, bitmap_t bit, count_t noffset, T value)
+        edit_t e, node_t* src, bitmap_t bit, count_t noffset, T&& value)
     {
         IMMER_ASSERT_TAGGED(src->kind() == kind_t::inner);
         assert(!(src->datamap() & bit));
@@ -772,6 +772,7 @@ struct node
                     }
                 }
                 IMMER_CATCH (...) {
+                    value = std::move(dst->values()[voffset]);
                     dst->values()[voffset].~T();
                     IMMER_RETHROW;
                 }
-- 
2.43.0


From f34297e4a8f98471c959a0e2f5fec2d68689cc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 13/27] fix: prepare the sizes of shared relaxed nodes before
 changing them in place

---
 immer/detail/rbts/node.hpp       | 34 ++++++--------------------------
 immer/detail/rbts/operations.hpp | 23 +++++++++++++--------
 2 files changed, 21 insertions(+), 36 deletions(-)

diff --git a/immer/detail/rbts/node.hpp b/immer/detail/rbts/node.hpp
index 55a512b..6c352fe 100644
--- a/immer/detail/rbts/node.hpp
+++ b/immer/detail/rbts/node.hpp
@@ -880,7 +880,9 @@ struct node
                         std::copy(
                             src_r->d.sizes, src_r->d.sizes + n, dst_r->d.sizes);
                         if (node_t::refs(src_r).dec())
-                            heap::deallocate(node_t::sizeof_inner_r_n(n),
+                            heap::deallocate(node_t::ownee(src_r).owned()
+                                                 ? node_t::max_sizeof_relaxed
+                                                 : node_t::sizeof_relaxed_n(n),
                                              src_r);
                     }
                     node_t::ownee(dst_r) = e;
@@ -907,7 +909,9 @@ struct node
                         std::copy(
                             src_r->d.sizes, src_r->d.sizes + n, dst_r->d.sizes);
                         if (node_t::refs(src_r).dec())
-                            heap::deallocate(node_t::sizeof_inner_r_n(n),
+                            heap::deallocate(node_t::ownee(src_r).owned()
+                                                 ? node_t::max_sizeof_relaxed
+                                                 : node_t::sizeof_relaxed_n(n),
                                              src_r);
                     }
                     node_t::ownee(dst_r) = ec;
@@ -916,32 +920,6 @@ struct node
             });
     }
 
-    relaxed_t* ensure_mutable_relaxed_n(edit_t e, count_t n)
-    {
-        auto src_r = relaxed();
-        return static_if<embed_relaxed, relaxed_t*>(
-            [&](auto) { return src_r; },
-            [&](auto) {
-                if (node_t::refs(src_r).unique() ||
-                    node_t::ownee(src_r).can_mutate(e))
-                    return src_r;
-                else {
-                    auto dst_r =
-                        new (heap::allocate(max_sizeof_relaxed)) relaxed_t;
-                    if (src_r) {
-                        std::copy(
-                            src_r->d.sizes, src_r->d.sizes + n, dst_r->d.sizes);
-                        if (node_t::refs(src_r).dec())
-                            heap::deallocate(node_t::sizeof_inner_r_n(n),
-                                             src_r);
-                    }
-                    dst_r->d.count                   = n;
-                    node_t::ownee(dst_r)             = e;
-                    return impl.d.data.inner.relaxed = dst_r;
-                }
-            });
-    }
-
     node_t* inc()
     {
         refs(this).inc();
diff --git a/immer/detail/rbts/operations.hpp b/immer/detail/rbts/operations.hpp
index 1ba9da2..9b2b2a4 100644
--- a/immer/detail/rbts/operations.hpp
+++ b/immer/detail/rbts/operations.hpp
@@ -688,7 +688,10 @@ struct push_tail_mut_visitor
 
         if (new_idx >= branches<B>)
             return nullptr;
-        else if (idx == new_idx) {
+        // do this before anything is changed, since it may fail
+        if (mutate)
+            pos.relaxed_ = node->ensure_mutable_relaxed(e);
+        if (idx == new_idx) {
             new_child =
                 mutate ? pos.last_oh_csh(this_t{}, idx, children, e, tail, ts)
                        : pos.last_oh_csh(
@@ -703,9 +706,9 @@ struct push_tail_mut_visitor
             new_child = node_t::make_path_e(e, level - B, tail);
 
         if (mutate) {
-            auto count             = new_idx + 1;
-            auto relaxed           = node->ensure_mutable_relaxed_n(e, new_idx);
-            node->inner()[new_idx] = new_child;
+            auto count                = new_idx + 1;
+            auto relaxed              = pos.relaxed();
+            node->inner()[new_idx]    = new_child;
             relaxed->d.sizes[new_idx] = pos.size() + ts;
             relaxed->d.count          = count;
             assert(relaxed->d.sizes[new_idx]);
@@ -921,6 +924,9 @@ struct slice_right_mut_visitor
             return res;
         } else {
             using std::get;
+            // do this before anything is changed, since it may fail
+            if (mutate)
+                pos.relaxed_ = node->ensure_mutable_relaxed(e);
             auto subs =
                 mutate ? pos.towards_oh(no_collapse_t{}, last, idx, e)
                        : pos.towards_oh(no_collapse_no_mut_t{}, last, idx, e);
@@ -930,7 +936,7 @@ struct slice_right_mut_visitor
             IMMER_TRY {
                 if (next) {
                     if (mutate) {
-                        auto nodr = node->ensure_mutable_relaxed_n(e, idx);
+                        auto nodr = pos.relaxed();
                         pos.each_right(dec_visitor{}, idx + 1);
                         node->inner()[idx] = next;
                         nodr->d.sizes[idx] = last + 1 - ts;
@@ -962,7 +968,7 @@ struct slice_right_mut_visitor
                 } else {
                     if (mutate) {
                         pos.each_right(dec_visitor{}, idx + 1);
-                        node->ensure_mutable_relaxed_n(e, idx)->d.count = idx;
+                        pos.relaxed()->d.count = idx;
                         return std::make_tuple(pos.shift(), node, ts, tail);
                     } else {
                         auto newn = node_t::copy_inner_r_e(e, node, idx);
@@ -1261,8 +1267,9 @@ struct slice_left_mut_visitor
             return r;
         } else {
             using std::get;
-            auto newn     = mutate ? (node->ensure_mutable_relaxed(e), node)
-                                   : node_t::make_inner_r_e(e);
+            if (mutate)
+                pos.relaxed_ = node->ensure_mutable_relaxed(e);
+            auto newn     = mutate ? node : node_t::make_inner_r_e(e);
             auto newr     = newn->relaxed();
             auto newcount = count - idx;
             auto new_child_size = child_size - child_dropped_size;
-- 
2.43.0


From a1c443610f4e0f212eea33459ea71146ca49c830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:08 +0000
Subject: [PATCH 14/27] fix: protect the global free list from concurrent reuse
 of its nodes

---
 immer/heap/free_list_heap.hpp | 52 +++++++++++++++++++----------------
 immer/heap/heap_policy.hpp    |  3 +-
 2 files changed, 31 insertions(+), 24 deletions(-)

diff --git a/immer/heap/free_list_heap.hpp b/immer/heap/free_list_heap.hpp
index 7921a36..4257d17 100644
--- a/immer/heap/free_list_heap.hpp
+++ b/immer/heap/free_list_heap.hpp
@@ -10,8 +10,8 @@
 
 #include <immer/heap/free_list_node.hpp>
 #include <immer/heap/with_data.hpp>
+#include <immer/lock/spinlock_policy.hpp>
 
-#include <atomic>
 #include <cassert>
 #include <cstddef>
 
@@ -36,16 +36,16 @@ struct free_list_heap : Base
         assert(size <= sizeof(free_list_node) + Size);
         assert(size >= sizeof(free_list_node*));
 
-        free_list_node* n;
-        do {
-            n = head().data;
-            if (!n) {
-                auto p = base_t::allocate(Size + sizeof(free_list_node));
-                return static_cast<free_list_node*>(p);
+        {
+            scoped_lock_t lock{head().lock};
+            if (auto n = head().data) {
+                head().data = n->next;
+                --head().count;
+                return n;
             }
-        } while (!head().data.compare_exchange_weak(n, n->next));
-        head().count.fetch_sub(1u, std::memory_order_relaxed);
-        return n;
+        }
+        auto p = base_t::allocate(Size + sizeof(free_list_node));
+        return static_cast<free_list_node*>(p);
     }
 
     template <typename... Tags>
@@ -54,29 +54,35 @@ struct free_list_heap : Base
         assert(size <= sizeof(free_list_node) + Size);
         assert(size >= sizeof(free_list_node*));
 
-        // we use relaxed, because we are fine with temporarily having
-        // a few more/less buffers in free list
-        if (head().count.load(std::memory_order_relaxed) >= Limit) {
-            base_t::deallocate(Size + sizeof(free_list_node), data);
-        } else {
-            auto n = static_cast<free_list_node*>(data);
-            do {
-                n->next = head().data;
-            } while (!head().data.compare_exchange_weak(n->next, n));
-            head().count.fetch_add(1u, std::memory_order_relaxed);
+        {
+            scoped_lock_t lock{head().lock};
+            if (head().count < Limit) {
+                auto n      = static_cast<free_list_node*>(data);
+                n->next     = head().data;
+                head().data = n;
+                ++head().count;
+                return;
+            }
         }
+        base_t::deallocate(Size + sizeof(free_list_node), data);
     }
 
 private:
+    using lock_t        = spinlock_policy;
+    using scoped_lock_t = typename lock_t::scoped_lock;
+
+    // The lock makes popping a node safe against other threads that pop it,
+    // reuse it and push it back in the meantime.
     struct head_t
     {
-        std::atomic<free_list_node*> data;
-        std::atomic<std::size_t> count;
+        lock_t lock;
+        free_list_node* data;
+        std::size_t count;
     };
 
     static head_t& head()
     {
-        static head_t head_{{nullptr}, {0}};
+        static head_t head_{{}, nullptr, 0};
         return head_;
     }
 };
diff --git a/immer/heap/heap_policy.hpp b/immer/heap/heap_policy.hpp
index 1a858c5..cf15ffb 100644
--- a/immer/heap/heap_policy.hpp
+++ b/immer/heap/heap_policy.hpp
@@ -78,7 +78,8 @@ struct enable_optimized_heap_policy
  *   kind of synchronization and is very fast.  When the thread
  *   finishes, its contents are returned to the next free list.
  *
- * - A global free list using lock-free access via atomics.
+ * - A global free list that is shared by all threads, protected by a
+ *   spinlock.
  *
  * @tparam Heap Heap to be used when the free list is empty.
  *
-- 
2.43.0


From 2abbcae2b2de178c7c010c9da5b1c4efde592439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 15/27] fix: release all of a node that stops being shared
 while it is sliced in place

---
 immer/detail/rbts/operations.hpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/immer/detail/rbts/operations.hpp b/immer/detail/rbts/operations.hpp
index 9b2b2a4..0f74886 100644
--- a/immer/detail/rbts/operations.hpp
+++ b/immer/detail/rbts/operations.hpp
@@ -919,8 +919,10 @@ struct slice_right_mut_visitor
         if (Collapse && idx == 0) {
             auto res = mutate ? pos.towards_oh(this_t{}, last, idx, e)
                               : pos.towards_oh(no_mut_t{}, last, idx, e);
-            if (Mutating)
+            if (mutate)
                 pos.visit(dec_right_visitor{}, count_t{1});
+            else if (Mutating)
+                pos.visit(dec_visitor{});
             return res;
         } else {
             using std::get;
@@ -955,15 +957,19 @@ struct slice_right_mut_visitor
                         return std::make_tuple(pos.shift(), newn, ts, tail);
                     }
                 } else if (idx == 0) {
-                    if (Mutating)
+                    if (mutate)
                         pos.visit(dec_right_visitor{}, count_t{1});
+                    else if (Mutating)
+                        pos.visit(dec_visitor{});
                     return std::make_tuple(pos.shift(), nullptr, ts, tail);
                 } else if (Collapse && idx == 1 && pos.shift() > BL) {
                     auto newn = pos.node()->inner()[0];
                     if (!mutate)
                         newn->inc();
-                    if (Mutating)
+                    if (mutate)
                         pos.visit(dec_right_visitor{}, count_t{2});
+                    else if (Mutating)
+                        pos.visit(dec_visitor{});
                     return std::make_tuple(pos.shift() - B, newn, ts, tail);
                 } else {
                     if (mutate) {
@@ -1000,8 +1006,10 @@ struct slice_right_mut_visitor
         if (Collapse && idx == 0) {
             auto res = mutate ? pos.towards_oh(this_t{}, last, idx, e)
                               : pos.towards_oh(no_mut_t{}, last, idx, e);
-            if (Mutating)
+            if (mutate)
                 pos.visit(dec_right_visitor{}, count_t{1});
+            else if (Mutating)
+                pos.visit(dec_visitor{});
             return res;
         } else {
             using std::get;
@@ -1025,15 +1033,19 @@ struct slice_right_mut_visitor
                         return std::make_tuple(pos.shift(), newn, ts, tail);
                     }
                 } else if (idx == 0) {
-                    if (Mutating)
+                    if (mutate)
                         pos.visit(dec_right_visitor{}, count_t{1});
+                    else if (Mutating)
+                        pos.visit(dec_visitor{});
                     return std::make_tuple(pos.shift(), nullptr, ts, tail);
                 } else if (Collapse && idx == 1 && pos.shift() > BL) {
                     auto newn = pos.node()->inner()[0];
                     if (!mutate)
                         newn->inc();
-                    if (Mutating)
+                    if (mutate)
                         pos.visit(dec_right_visitor{}, count_t{2});
+                    else if (Mutating)
+                        pos.visit(dec_visitor{});
                     return std::make_tuple(pos.shift() - B, newn, ts, tail);
                 } else {
                     if (mutate) {
-- 
2.43.0


From 3dc079a0fcff32d67e73ef84739cdcca2ee24f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:18 +0000
Subject: [PATCH 16/27] fix: let the collector see the owner of relaxed size
 tables

---
 immer/detail/rbts/node.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/immer/detail/rbts/node.hpp b/immer/detail/rbts/node.hpp
index 6c352fe..20795a9 100644
--- a/immer/detail/rbts/node.hpp
+++ b/immer/detail/rbts/node.hpp
@@ -280,7 +280,8 @@ struct node
             mr = reinterpret_cast<unsigned char*>(mp) + max_sizeof_inner;
         } else {
             IMMER_TRY {
-                mr = heap::allocate(max_sizeof_relaxed, norefs_tag{});
+                // not `norefs_tag`: it keeps a reference to the edit token
+                mr = heap::allocate(max_sizeof_relaxed);
             }
             IMMER_CATCH (...) {
                 heap::deallocate(max_sizeof_inner_r, mp);
-- 
2.43.0


From 75fdebf71147bd34f8074296acdee77f0ea412c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 17/27] fix: compute sizes of regular subtrees past 32 bits
 when slicing

---
 immer/detail/rbts/position.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/immer/detail/rbts/position.hpp b/immer/detail/rbts/position.hpp
index cbdd1c2..3fc600d 100644
--- a/immer/detail/rbts/position.hpp
+++ b/immer/detail/rbts/position.hpp
@@ -654,7 +654,7 @@ decltype(auto) towards_sub_oh_regular(
     assert(offset_hint == p.index(idx));
     auto is_leaf = p.shift() == BL;
     auto child   = p.node()->inner()[offset_hint];
-    auto lsize   = offset_hint << p.shift();
+    auto lsize   = size_t{offset_hint} << p.shift();
     auto size    = p.this_size();
     auto is_full = (size - lsize) >= (size_t{1} << p.shift());
     return is_full
@@ -870,7 +870,7 @@ struct regular_sub_pos
     void each_right_sub_(Visitor v, count_t i, Args&&... args)
     {
         auto last  = count() - 1;
-        auto lsize = size_ - (last << shift_);
+        auto lsize = size_ - (size_t{last} << shift_);
         auto n     = node()->inner() + i;
         auto e     = node()->inner() + last;
         if (shift() == BL) {
-- 
2.43.0


From bdef6ff83af5a10c6a4eef9a6bd2a2a1625d2ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 18/27] fix: keep trees that are joined and cut from growing
 ever deeper

---
 immer/detail/rbts/operations.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/immer/detail/rbts/operations.hpp b/immer/detail/rbts/operations.hpp
index 0f74886..fbc20ce 100644
--- a/immer/detail/rbts/operations.hpp
+++ b/immer/detail/rbts/operations.hpp
@@ -1785,8 +1785,13 @@ struct concat_rebalance_plan
         const auto bits                 = shift == BL ? BL : B;
         const auto branches             = count_t{1} << bits;
         const auto optimal              = ((total - 1) >> bits) + 1;
-        count_t i                       = 0;
-        while (n >= optimal + rrb_extras) {
+        // When there are just a few nodes, tolerating an extra one lets whole
+        // levels with a single child pile up along the flanks of trees that
+        // are repeatedly joined and cut, and their depth grow without bounds.
+        constexpr count_t few = 4;
+        const auto extras     = optimal <= few ? rrb_invariant : rrb_extras;
+        count_t i             = 0;
+        while (n >= optimal + extras) {
             // skip ok nodes
             while (counts[i] > branches - rrb_invariant)
                 i++;
-- 
2.43.0


From 9c45c4ddd7994fe7b955a45c54458ea2771d5de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:11 +0000
Subject: [PATCH 19/27] fix: let array transients own the copy that they make
 to set an element

---
 immer/detail/arrays/with_capacity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/immer/detail/arrays/with_capacity.hpp b/immer/detail/arrays/with_capacity.hpp
index 804f572..24d9632 100644
--- a/immer/detail/arrays/with_capacity.hpp
+++ b/immer/detail/arrays/with_capacity.hpp
@@ -243,7 +243,7 @@ struct with_capacity
         if (ptr->can_mutate(e)) {
             data()[idx] = std::move(value);
         } else {
-            auto p = node_t::copy_n(capacity, ptr, size);
+            auto p = node_t::copy_e(e, capacity, ptr, size);
             IMMER_TRY {
                 p->data()[idx] = std::move(value);
                 *this          = {p, size, capacity};
-- 
2.43.0


From ae81ab08a36d184d1deda1b29f676c57f5c7f485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:21 +0000
Subject: [PATCH 20/27] fix: make arrays of the contents of their transients,
 not of a list

With elements that can be made of anything, such as std::any, braces chose the
constructor for initializer lists: the array had the internals of the
transient as its only element.
---
 immer/array_transient.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/immer/array_transient.hpp b/immer/array_transient.hpp
index 08000b2..6487695 100644
--- a/immer/array_transient.hpp
+++ b/immer/array_transient.hpp
@@ -184,11 +184,11 @@ public:
     IMMER_NODISCARD persistent_type persistent() &
     {
         this->owner_t::operator=(owner_t{});
-        return persistent_type{impl_};
+        return persistent_type(impl_);
     }
     IMMER_NODISCARD persistent_type persistent() &&
     {
-        return persistent_type{std::move(impl_)};
+        return persistent_type(std::move(impl_));
     }
 
 private:
-- 
2.43.0


From 10a59e04f908be8f41467d78e97fd9956aa71ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:21 +0000
Subject: [PATCH 21/27] fix: copy elements with parentheses

With braces, elements that can be made of a list of themselves, such as
std::vector<std::any>, were wrapped in a list by some compilers.
---
 immer/detail/arrays/no_capacity.hpp   |  2 +-
 immer/detail/arrays/with_capacity.hpp |  6 +++---
 immer/detail/hamts/node.hpp           | 24 ++++++++++++------------
 immer/detail/rbts/node.hpp            |  6 +++---
 immer/detail/rbts/rbtree.hpp          |  2 +-
 immer/detail/rbts/rrbtree.hpp         |  2 +-
 6 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/immer/detail/arrays/no_capacity.hpp b/immer/detail/arrays/no_capacity.hpp
index fe2faa2..ab2d682 100644
--- a/immer/detail/arrays/no_capacity.hpp
+++ b/immer/detail/arrays/no_capacity.hpp
@@ -162,7 +162,7 @@ struct no_capacity
     {
         auto p = node_t::copy_n(size + 1, ptr, size);
         IMMER_TRY {
-            new (p->data() + size) T{std::move(value)};
+            new (p->data() + size) T(std::move(value));
             return {p, size + 1};
         }
         IMMER_CATCH (...) {
diff --git a/immer/detail/arrays/with_capacity.hpp b/immer/detail/arrays/with_capacity.hpp
index 24d9632..ba729f2 100644
--- a/immer/detail/arrays/with_capacity.hpp
+++ b/immer/detail/arrays/with_capacity.hpp
@@ -197,7 +197,7 @@ struct with_capacity
         auto cap = recommend_up(size + 1, capacity);
         auto p   = node_t::copy_n(cap, ptr, size);
         IMMER_TRY {
-            new (p->data() + size) T{std::move(value)};
+            new (p->data() + size) T(std::move(value));
             return {p, size + 1, cap};
         }
         IMMER_CATCH (...) {
@@ -209,13 +209,13 @@ struct with_capacity
     void push_back_mut(edit_t e, T value)
     {
         if (ptr->can_mutate(e) && capacity > size) {
-            new (data() + size) T{std::move(value)};
+            new (data() + size) T(std::move(value));
             ++size;
         } else {
             auto cap = recommend_up(size + 1, capacity);
             auto p   = node_t::copy_e(e, cap, ptr, size);
             IMMER_TRY {
-                new (p->data() + size) T{std::move(value)};
+                new (p->data() + size) T(std::move(value));
                 *this = {p, size + 1, cap};
             }
             IMMER_CATCH (...) {
diff --git a/immer/detail/hamts/node.hpp b/immer/detail/hamts/node.hpp
index c8442ee..3f826f4 100644
--- a/immer/detail/hamts/node.hpp
+++ b/immer/detail/hamts/node.hpp
@@ -284,7 +284,7 @@ struct node
         auto p                       = make_inner_n(n, 1);
         p->impl.d.data.inner.datamap = bitmap;
         IMMER_TRY {
-            new (p->values()) T{std::move(x)};
+            new (p->values()) T(std::move(x));
         }
         IMMER_CATCH (...) {
             deallocate_inner(p, n, 1);
@@ -303,9 +303,9 @@ struct node
         auto assign = [&](auto&& x1, auto&& x2) {
             auto vp = p->values();
             IMMER_TRY {
-                new (vp) T{std::move(x1)};
+                new (vp) T(std::move(x1));
                 IMMER_TRY {
-                    new (vp + 1) T{std::move(x2)};
+                    new (vp + 1) T(std::move(x2));
                 }
                 IMMER_CATCH (...) {
                     immer::detail::hamts::destroy_at(vp);
@@ -345,9 +345,9 @@ struct node
         p->impl.d.data.collision.count = 2;
         auto cols                      = p->collisions();
         IMMER_TRY {
-            new (cols) T{std::move(v1)};
+            new (cols) T(std::move(v1));
             IMMER_TRY {
-                new (cols + 1) T{std::move(v2)};
+                new (cols + 1) T(std::move(v2));
             }
             IMMER_CATCH (...) {
                 cols->~T();
@@ -395,7 +395,7 @@ struct node
         auto srcp = src->collisions();
         auto dstp = dst->collisions();
         IMMER_TRY {
-            new (dstp) T{std::move(v)};
+            new (dstp) T(std::move(v));
             IMMER_TRY {
                 detail::uninitialized_copy(srcp, srcp + n, dstp + 1);
             }
@@ -419,7 +419,7 @@ struct node
         auto srcp = src->collisions();
         auto dstp = dst->collisions();
         IMMER_TRY {
-            new (dstp) T{std::move(v)};
+            new (dstp) T(std::move(v));
             IMMER_TRY {
                 detail::uninitialized_move(srcp, srcp + n, dstp + 1);
             }
@@ -496,7 +496,7 @@ struct node
         auto dstp = dst->collisions();
         assert(pos >= srcp && pos < srcp + n);
         IMMER_TRY {
-            new (dstp) T{std::move(v)};
+            new (dstp) T(std::move(v));
             IMMER_TRY {
                 dstp = detail::uninitialized_copy(srcp, pos, dstp + 1);
                 IMMER_TRY {
@@ -701,7 +701,7 @@ struct node
                 detail::uninitialized_copy(
                     src->values(), src->values() + voffset, dst->values());
             IMMER_TRY {
-                new (dst->values() + voffset) T{std::move(value)};
+                new (dst->values() + voffset) T(std::move(value));
                 IMMER_TRY {
                     if (nv)
                         detail::uninitialized_copy(src->values() + voffset,
@@ -756,7 +756,7 @@ struct node
                         src->values(), src->values() + voffset, dst->values());
             }
             IMMER_TRY {
-                new (dst->values() + voffset) T{std::move(value)};
+                new (dst->values() + voffset) T(std::move(value));
                 IMMER_TRY {
                     if (nv) {
                         if (mutate_values)
@@ -903,7 +903,7 @@ struct node
                 detail::uninitialized_copy(
                     src->values(), src->values() + offset, dst->values());
             IMMER_TRY {
-                new (dst->values() + offset) T{std::move(v)};
+                new (dst->values() + offset) T(std::move(v));
                 IMMER_TRY {
                     if (nv)
                         detail::uninitialized_copy(src->values() + offset,
@@ -951,7 +951,7 @@ struct node
                         src->values(), src->values() + offset, dst->values());
             }
             IMMER_TRY {
-                new (dst->values() + offset) T{std::move(v)};
+                new (dst->values() + offset) T(std::move(v));
                 IMMER_TRY {
                     if (nv) {
                         if (mutate_values)
diff --git a/immer/detail/rbts/node.hpp b/immer/detail/rbts/node.hpp
index 20795a9..b598b20 100644
--- a/immer/detail/rbts/node.hpp
+++ b/immer/detail/rbts/node.hpp
@@ -462,7 +462,7 @@ struct node
         assert(n >= 1);
         auto p = make_leaf_n(n);
         IMMER_TRY {
-            new (p->leaf()) T{std::forward<U>(x)};
+            new (p->leaf()) T(std::forward<U>(x));
         }
         IMMER_CATCH (...) {
             heap::deallocate(node_t::sizeof_leaf_n(n), p);
@@ -476,7 +476,7 @@ struct node
     {
         auto p = make_leaf_e(e);
         IMMER_TRY {
-            new (p->leaf()) T{std::forward<U>(x)};
+            new (p->leaf()) T(std::forward<U>(x));
         }
         IMMER_CATCH (...) {
             heap::deallocate(node_t::max_sizeof_leaf, p);
@@ -785,7 +785,7 @@ struct node
     {
         auto dst = copy_leaf_n(n + 1, src, n);
         IMMER_TRY {
-            new (dst->leaf() + n) T{std::forward<U>(x)};
+            new (dst->leaf() + n) T(std::forward<U>(x));
         }
         IMMER_CATCH (...) {
             detail::destroy_n(dst->leaf(), n);
diff --git a/immer/detail/rbts/rbtree.hpp b/immer/detail/rbts/rbtree.hpp
index c8fa425..54d5563 100644
--- a/immer/detail/rbts/rbtree.hpp
+++ b/immer/detail/rbts/rbtree.hpp
@@ -274,7 +274,7 @@ struct rbtree
         auto ts       = size - tail_off;
         if (ts < branches<BL>) {
             ensure_mutable_tail(e, ts);
-            new (&tail->leaf()[ts]) T{std::move(value)};
+            new (&tail->leaf()[ts]) T(std::move(value));
         } else {
             auto new_tail = node_t::make_leaf_e(e, std::move(value));
             IMMER_TRY {
diff --git a/immer/detail/rbts/rrbtree.hpp b/immer/detail/rbts/rrbtree.hpp
index 53af20c..3e45168 100644
--- a/immer/detail/rbts/rrbtree.hpp
+++ b/immer/detail/rbts/rrbtree.hpp
@@ -453,7 +453,7 @@ struct rrbtree
         auto ts = tail_size();
         if (ts < branches<BL>) {
             ensure_mutable_tail(e, ts);
-            new (&tail->leaf()[ts]) T{std::move(value)};
+            new (&tail->leaf()[ts]) T(std::move(value));
         } else {
             using std::get;
             auto new_tail = node_t::make_leaf_e(e, std::move(value));
-- 
2.43.0


From 54f77bfab20adecd3bc9684b47bcc1c6f19efae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:22 +0000
Subject: [PATCH 22/27] fix: let boxes copy or move a value of their own type

With braces, values that can be made of a list of themselves were wrapped in a
list by some compilers, also by update.
---
 immer/box.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/immer/box.hpp b/immer/box.hpp
index ddf0363..69101e3 100644
--- a/immer/box.hpp
+++ b/immer/box.hpp
@@ -46,6 +46,14 @@ class box
         holder(Args&&... args)
             : value{std::forward<Args>(args)...}
         {}
+
+        // braces could make a list that contains the argument instead
+        template <typename Arg,
+                  std::enable_if_t<std::is_same<T, std::decay_t<Arg>>::value,
+                                   int> = 0>
+        holder(Arg&& arg)
+            : value(std::forward<Arg>(arg))
+        {}
     };
 
     using heap = typename MemoryPolicy::heap::type;
-- 
2.43.0


From c2d36aeefba24cf27c3158b9da72458a1aaeca86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:52 +0000
Subject: [PATCH 23/27] fix: copying a user's range as bytes only if it is a
 range of pointers

Arrays of simple elements could not be constructed from an iterator and a
sentinel, and an exception of a user's iterator terminated the program, since
that overload of uninitialized_copy is noexcept.
---
 immer/detail/util.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/immer/detail/util.hpp b/immer/detail/util.hpp
index f1af9d0..821d9db 100644
--- a/immer/detail/util.hpp
+++ b/immer/detail/util.hpp
@@ -143,15 +143,21 @@ auto uninitialized_move(Iter1 first, Iter1 last, Iter2 out)
     }
 }
 
+// The source may be any range given by the user. Reading it may throw, and its
+// end may be a sentinel of another type, unless it is a range of pointers.
+template <typename SourceIter, typename Sent, typename SinkIter>
+constexpr bool can_copy_bytes = can_trivially_copy<SourceIter, SinkIter>&&
+    std::is_pointer<SourceIter>::value&& std::is_same<SourceIter, Sent>::value;
+
 template <typename SourceIter, typename Sent, typename SinkIter>
 auto uninitialized_copy(SourceIter first, Sent last, SinkIter out) noexcept
-    -> std::enable_if_t<can_trivially_copy<SourceIter, SinkIter>, SinkIter>
+    -> std::enable_if_t<can_copy_bytes<SourceIter, Sent, SinkIter>, SinkIter>
 {
     return std::copy(first, last, out);
 }
 template <typename SourceIter, typename Sent, typename SinkIter>
 auto uninitialized_copy(SourceIter first, Sent last, SinkIter out)
-    -> std::enable_if_t<!can_trivially_copy<SourceIter, SinkIter>, SinkIter>
+    -> std::enable_if_t<!can_copy_bytes<SourceIter, Sent, SinkIter>, SinkIter>
 {
     using value_t = typename std::iterator_traits<SinkIter>::value_type;
     auto current  = out;
-- 
2.43.0


From 61d78a790bd3101f4d311e4c2c705d15e40fcd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:52 +0000
Subject: [PATCH 24/27] fix: dvektor lost elements when appending after an
 update elsewhere

The position at each level of the new path was computed with the shift of the
topmost level.
---
 immer/experimental/detail/dvektor_impl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/immer/experimental/detail/dvektor_impl.hpp b/immer/experimental/detail/dvektor_impl.hpp
index 7a21f1f..e2a2583 100644
--- a/immer/experimental/detail/dvektor_impl.hpp
+++ b/immer/experimental/detail/dvektor_impl.hpp
@@ -275,6 +275,7 @@ struct ref
                                 ->inner()[(new_index >> shift) & mask<B>];
                 display[display_idx] =
                     node ? std::move(node) : make_node(inner_t{});
+                shift -= B;
             }
             display[0] = make_node(leaf_t{});
         }
-- 
2.43.0


From a3dd8e9e4ff4a418f11da6abc3c1a39a5103ddba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:53 +0000
Subject: [PATCH 25/27] fix: dvektor iterators at the end of a full block or an
 empty vector

They went on to a block that does not exist.
---
 immer/experimental/detail/dvektor_impl.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/immer/experimental/detail/dvektor_impl.hpp b/immer/experimental/detail/dvektor_impl.hpp
index e2a2583..1982e7f 100644
--- a/immer/experimental/detail/dvektor_impl.hpp
+++ b/immer/experimental/detail/dvektor_impl.hpp
@@ -422,7 +422,10 @@ struct iterator
         : p_{v.p}
         , i_{0}
         , base_{0}
+        , size_{v.size}
     {
+        if (size_ == 0)
+            return;
         if (v.dirty)
             p_.stabilize(v.focus);
         p_.goto_pos(0, 0 ^ v.focus);
@@ -432,8 +435,11 @@ struct iterator
     iterator(const impl<T, B, MP>& v, end_t)
         : p_{v.p}
         , i_{v.size}
-        , base_{(v.size - 1) & ~mask<B>}
+        , base_{v.size ? (v.size - 1) & ~mask<B> : 0}
+        , size_{v.size}
     {
+        if (size_ == 0)
+            return;
         if (v.dirty)
             p_.stabilize(v.focus);
         p_.goto_pos(base_, base_ ^ v.focus);
@@ -447,12 +453,14 @@ private:
     ref<T, B, MP> p_;
     std::size_t i_;
     std::size_t base_;
-    leaf_iterator curr_;
+    std::size_t size_;
+    leaf_iterator curr_{};
 
     void increment()
     {
         ++i_;
-        if (i_ - base_ < branches<B>) {
+        // there is no block to go to after the last one
+        if (i_ - base_ < branches<B> || i_ == size_) {
             ++curr_;
         } else {
             auto new_base = base_ + branches<B>;
@@ -479,10 +487,11 @@ private:
     void advance(std::ptrdiff_t n)
     {
         i_ += n;
-        if (i_ <= base_ && i_ - base_ < branches<B>) {
+        if (i_ >= base_ && i_ - base_ < branches<B>) {
             curr_ += n;
         } else {
-            auto new_base = i_ & ~mask<B>;
+            auto last     = i_ == size_ ? i_ - 1 : i_;
+            auto new_base = last & ~mask<B>;
             p_.goto_pos(new_base, base_ ^ new_base);
             base_ = new_base;
             curr_ = p_.display[0]->leaf().begin() + (i_ - base_);
-- 
2.43.0


From bccac9466e86ee9b57adf3844f7c8f7641c06825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:53 +0000
Subject: [PATCH 26/27] fix: the Python binding did not compile for Python 3

---
 extra/python/src/immer-raw.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/extra/python/src/immer-raw.cpp b/extra/python/src/immer-raw.cpp
index f7af7dc..72ee1c0 100644
--- a/extra/python/src/immer-raw.cpp
+++ b/extra/python/src/immer-raw.cpp
@@ -337,13 +337,15 @@ PyTypeObject vector_t::type = {
     vector_new,                                    /* tp_new   */
 };
 
+PyMethodDef module_methods[] = {{0, 0, 0, 0}};
+
 #if PY_MAJOR_VERSION >= 3
 struct PyModuleDef module_def = {
     PyModuleDef_HEAD_INIT,
     "immer_python_module", /* m_name */
     "",                    /* m_doc */
     -1,                    /* m_size */
-    / module_methods,      /* m_methods */
+    module_methods,        /* m_methods */
     0,                     /* m_reload */
     0,                     /* m_traverse */
     0,                     /* m_clear */
@@ -351,8 +353,6 @@ struct PyModuleDef module_def = {
 };
 #endif
 
-PyMethodDef module_methods[] = {{0, 0, 0, 0}};
-
 PyObject* module_init()
 {
     if (PyType_Ready(&vector_t::type) < 0)
-- 
2.43.0


From 733928d4434887d1792002b3ae396c5d36088da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:53 +0000
Subject: [PATCH 27/27] fix: positions and hash in the Python binding

set() wrote out of bounds at the position after the last, items at positions
below minus the length were found, and hash() returned a value with an
exception set.
---
 extra/python/src/immer-raw.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/extra/python/src/immer-raw.cpp b/extra/python/src/immer-raw.cpp
index 72ee1c0..74b6ec1 100644
--- a/extra/python/src/immer-raw.cpp
+++ b/extra/python/src/immer-raw.cpp
@@ -198,7 +198,7 @@ vector_t* vector_set(vector_t* self, PyObject* args)
     }
     if (pos < 0)
         pos += self->impl.size();
-    if (pos < 0 || pos > (Py_ssize_t) self->impl.size()) {
+    if (pos < 0 || pos >= (Py_ssize_t) self->impl.size()) {
         PyErr_Format(PyExc_IndexError, "Index out of range: %zi", pos);
         return nullptr;
     }
@@ -214,13 +214,12 @@ PyObject* vector_new(PyTypeObject* subtype, PyObject* args, PyObject* kwds)
 long vector_hash(vector_t* self)
 {
     todo();
-    return 0;
+    return -1;
 }
 
+// The interpreter already added the length to negative positions
 PyObject* vector_get_item(vector_t* self, Py_ssize_t pos)
 {
-    if (pos < 0)
-        pos += self->impl.size();
     if (pos < 0 || pos >= (Py_ssize_t) self->impl.size()) {
         PyErr_Format(PyExc_IndexError, "Index out of range: %zi", pos);
         return nullptr;
@@ -235,6 +234,8 @@ PyObject* vector_subscript(vector_t* self, PyObject* item)
         auto i = PyNumber_AsSsize_t(item, PyExc_IndexError);
         if (i == -1 && PyErr_Occurred())
             return nullptr;
+        if (i < 0)
+            i += self->impl.size();
         return vector_get_item(self, i);
     } else if (PySlice_Check(item)) {
         return todo();
-- 
2.43.0

