From 379c56311b5930b0c4ee266138eae1df1839b585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:19 +0000
Subject: [PATCH 001/103] fix: align variant/optional/expected storage of
 non-trivial alternatives

---
 src/estd/internal/variant/storage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/variant/storage.h b/src/estd/internal/variant/storage.h
index 1fea032..5d60681 100644
--- a/src/estd/internal/variant/storage.h
+++ b/src/estd/internal/variant/storage.h
@@ -39,7 +39,7 @@ inline static monostate construct_at(void* placement, TArgs&&...args)
 template <class ...T>
 union variant_union<false, T...>
 {
-    estd::byte raw[sizeof(typename largest_type<T...>::type)];
+    alignas(T...) estd::byte raw[sizeof(typename largest_type<T...>::type)];
 };
 
 template <>
-- 
2.43.0


From 133235c50f4069b42b4678366164d04b6487804f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:19 +0000
Subject: [PATCH 002/103] fix: variant assignment survives self assignment and
 throwing constructors

---
 src/estd/internal/variant.h         | 12 ++++++++----
 src/estd/internal/variant/storage.h |  2 ++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/estd/internal/variant.h b/src/estd/internal/variant.h
index 6e98476..ac470ed 100644
--- a/src/estd/internal/variant.h
+++ b/src/estd/internal/variant.h
@@ -93,8 +93,7 @@ class variant : protected variant_storage<Types...>
             enable_if_t<is_copy_assignable<remove_const_t<T_i>>::value, bool> = true>
         bool operator()(variadic::visitor_instance<I, T_i> vi, variant& v, const variant& assign_from)
         {
-            size_type index = v.index();
-            v.template assign_or_init<I>(&index, vi.value);
+            v.template assign_or_init<I>(&v.index_, vi.value);
             return true;
         }
 
@@ -103,8 +102,7 @@ class variant : protected variant_storage<Types...>
             enable_if_t<is_move_assignable<remove_const_t<T_i>>::value, bool> = true>
         bool operator()(variadic::visitor_instance<I, T_i> vi, variant& v, variant&& assign_from)
         {
-            size_type index = v.index();
-            v.template assign_or_init<I>(&index, std::move(vi.value));
+            v.template assign_or_init<I>(&v.index_, std::move(vi.value));
             return true;
         }
 
@@ -116,6 +114,7 @@ class variant : protected variant_storage<Types...>
             // directly and not abort when index is found - however, that
             // breaks our burgeoning paradigm, so holding off
             v.destroy_if_valid();
+            v.index_ = variant_npos();
 
             v.template copy<I>(copy_from);
 
@@ -129,6 +128,7 @@ class variant : protected variant_storage<Types...>
         bool operator()(variadic::v1::visitor_index<I, T_i>, variant& v, variant&& move_from, bool = true)
         {
             v.destroy_if_valid();
+            v.index_ = variant_npos();
 
             v.template move<I>(std::move(move_from));
 
@@ -310,6 +310,8 @@ public:
     // DEBT: Needs more work, but coming along
     variant& operator=(const variant& rhs)
     {
+        if(this == &rhs) return *this;
+
         if(rhs.valueless_by_exception())
         {
             destroy_if_valid();
@@ -329,6 +331,8 @@ public:
 
     variant& operator=(variant&& rhs)
     {
+        if(this == &rhs) return *this;
+
         if(rhs.valueless_by_exception())
         {
             destroy_if_valid();
diff --git a/src/estd/internal/variant/storage.h b/src/estd/internal/variant/storage.h
index 5d60681..980d8ea 100644
--- a/src/estd/internal/variant/storage.h
+++ b/src/estd/internal/variant/storage.h
@@ -514,6 +514,8 @@ public:
             // ... if not, destroy what we're tracking (if any) and
             // do a direct initialization
             destroy(*index);
+            // Unset index just in case exception is thrown during construction
+            *index = variant_npos();
             direct_init_helper<I, T_j>(std::forward<U>(u));
             *index = I;
         }
-- 
2.43.0


From 76d3cb983338c99d3d7ff799c0918cd078ee6790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:19 +0000
Subject: [PATCH 003/103] fix: get(variant&&) binds its rvalue result

---
 src/estd/variant.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/variant.h b/src/estd/variant.h
index fe6ffda..544eb98 100644
--- a/src/estd/variant.h
+++ b/src/estd/variant.h
@@ -59,7 +59,7 @@ internal::type_at_index<index, Types...>&& get(variant<Types...>&& v)
 {
     internal::assert_index_matches<index>(v);
 
-    return * internal::get_ll<index>(v);
+    return std::move(* internal::get_ll<index>(v));
 }
 
 
@@ -78,7 +78,7 @@ constexpr const T& get(const variant<Types...>& v)
 template <class T, class ...Types>
 T&& get(variant<Types...>&& v)
 {
-    return get<internal::select_type<T, Types...>::first::index>(v);
+    return get<internal::select_type<T, Types...>::first::index>(std::move(v));
 }
 
 
-- 
2.43.0


From e2ea7547e736960aba92b29c0a71c4ace1696dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 004/103] fix: expected const value() and rvalue operator*
 instantiate

---
 src/estd/expected.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/estd/expected.h b/src/estd/expected.h
index b0b7fb6..87b3770 100644
--- a/src/estd/expected.h
+++ b/src/estd/expected.h
@@ -71,7 +71,7 @@ class expected : public internal::expected<T, E>
             base_type::destroy_error();
     }
 
-    void assert_has_value()
+    void assert_has_value() const
     {
         if(!has_value_)
 #if __cpp_exceptions
@@ -256,12 +256,12 @@ public:
 #if __cpp_rvalue_references
     nonvoid_value_type&& operator*() &&
     {
-        return base_type::value();
+        return std::move(base_type::value());
     }
 
     const nonvoid_value_type&& operator*() const&&
     {
-        return base_type::value();
+        return std::move(base_type::value());
     }
 #endif
 
-- 
2.43.0


From d7aaeef89760b9e62f0a8742548d0cc45d382384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:07 +0000
Subject: [PATCH 005/103] fix: moving an expected moves its contents (move-only
 types were left unconstructed)

---
 src/estd/internal/expected.h        |  7 +++++++
 src/estd/internal/variant/storage.h | 17 +++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/estd/internal/expected.h b/src/estd/internal/expected.h
index 66055cd..f72a51d 100644
--- a/src/estd/internal/expected.h
+++ b/src/estd/internal/expected.h
@@ -120,6 +120,13 @@ protected:
     {
     }
 
+#if __cpp_rvalue_references
+    ESTD_CPP_CONSTEXPR_RET expected(expected&& move_from, bool has_value) :
+        storage(std::move(move_from.storage), has_value ? VALUE : ERROR)
+    {
+    }
+#endif
+
     ESTD_CPP_CONSTEXPR_RET expected() :
         storage(in_place_index_t<0>()) {}
 
diff --git a/src/estd/internal/variant/storage.h b/src/estd/internal/variant/storage.h
index 980d8ea..5a9088e 100644
--- a/src/estd/internal/variant/storage.h
+++ b/src/estd/internal/variant/storage.h
@@ -259,6 +259,19 @@ struct variant_storage_base : variant_storage_tag
         }
     };
 
+    struct moving_constructor_functor
+    {
+        template <size_t I, class T_i>
+        bool operator()(variadic::type<I, T_i>, this_type& v, this_type&& move_from, const size_type index)
+        {
+            if(index != I) return false;
+
+            v.template move<I>(std::move(move_from));
+
+            return true;
+        }
+    };
+
 
 
 private:
@@ -579,6 +592,10 @@ public:
         //dummy{visit_instance(copying_constructor_functor{}, nullptr, copy_from, index)}
         dummy{visit(copying_constructor_functor{}, nullptr, *this, copy_from, index)}
     {}
+
+    variant_storage_base(variant_storage_base&& move_from, size_type index) :
+        dummy{visit(moving_constructor_functor{}, nullptr, *this, std::move(move_from), index)}
+    {}
 };
 
 
-- 
2.43.0


From cfda86ea2f7fd513a646237656ce87431eeeb166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:36 +0000
Subject: [PATCH 006/103] fix: optional::emplace whose constructor throws no
 longer destroys the old value twice

---
 src/estd/optional.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/estd/optional.h b/src/estd/optional.h
index 6a54c65..40f6726 100644
--- a/src/estd/optional.h
+++ b/src/estd/optional.h
@@ -231,7 +231,8 @@ public:
     template<class... TArgs>
     T& emplace(TArgs&&... args)
     {
-        base_type::destroy();
+        // Clears has_value also, just in case exception is thrown during construction
+        base_type::reset();
 
         T& v = base_type::emplace(std::forward<TArgs>(args)...);
 
-- 
2.43.0


From d457b6b9f99040ab028d59777be30afcd046e26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:48 +0000
Subject: [PATCH 007/103] fix: inequality of two optionals

---
 src/estd/optional.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/estd/optional.h b/src/estd/optional.h
index 40f6726..1261071 100644
--- a/src/estd/optional.h
+++ b/src/estd/optional.h
@@ -422,6 +422,13 @@ ESTD_CPP_CONSTEXPR_RET bool operator!=(const optional<T, TBase>& opt, const U& v
 }
 
 
+template <class T, class T2, class Base, class Base2>
+constexpr bool operator!=(const optional<T, Base>& lhs, const optional<T2, Base2>& rhs)
+{
+    return !(lhs == rhs);
+}
+
+
 template <class T, class U, class TBase>
 ESTD_CPP_CONSTEXPR_RET bool operator>(const optional<T, TBase>& opt, const U& value)
 {
-- 
2.43.0


From 4f810e5e6ee0dfbf7fba0c5e52f806fc113a4cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:23 +0000
Subject: [PATCH 008/103] fix: layer3::shared_ptr copied after its master reset
 counts as a reference

---
 src/estd/memory.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/estd/memory.h b/src/estd/memory.h
index 2bfdf37..312586b 100644
--- a/src/estd/memory.h
+++ b/src/estd/memory.h
@@ -309,7 +309,9 @@ public:
     shared_ptr2_base(estd::internal::shared_ptr_control_block<T>* master_shared_ptr) :
         base_type(master_shared_ptr)
     {
-        if(master_shared_ptr && master_shared_ptr->is_active)
+        // Count this reference even if master itself has let go by now, since other
+        // references still may keep managed object alive
+        if(master_shared_ptr)
             master_shared_ptr->shared_count++;
     }
 
-- 
2.43.0


From 2d8d3ed98c67de978388305d916d96278330cc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:23 +0000
Subject: [PATCH 009/103] fix: layer3::shared_ptr self assignment keeps its
 reference

---
 src/estd/memory.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estd/memory.h b/src/estd/memory.h
index 312586b..19fdbde 100644
--- a/src/estd/memory.h
+++ b/src/estd/memory.h
@@ -585,6 +585,8 @@ public:
     shared_ptr& operator=(TSharedPtr&
                          copy_from)
     {
+        if((const void*)&copy_from == this) return *this;
+
         this->reset();
         new (this) shared_ptr(copy_from);
         return *this;
-- 
2.43.0


From eb6ead748572ead283b3eb17c5894c4a64355aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 010/103] fix: align layer1::shared_ptr's own storage for its
 object

---
 src/estd/memory.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/estd/memory.h b/src/estd/memory.h
index 19fdbde..b57379c 100644
--- a/src/estd/memory.h
+++ b/src/estd/memory.h
@@ -347,6 +347,9 @@ struct shared_ptr_base :
     typedef experimental::instance_provider<TControlBlock> base_type;
     typedef typename TControlBlock::managed_type managed_type;
 
+#if __cplusplus >= 201103L
+    alignas(managed_type)
+#endif
     experimental::raw_instance_provider<managed_type, size> _provided;
 
     // FIX: clean up naming - getting 'value' collisions from multiple providers
-- 
2.43.0


From b6b3cd35c9018b6dacb87533b7dda8f36cea6282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:03 +0000
Subject: [PATCH 011/103] fix: fixed capacity strings and arrays reserve room
 for null terminator and do not mistake oversized totals for small ones

---
 src/estd/internal/container/specializer.h |  2 +-
 src/estd/internal/dynamic_array.h         | 25 ++++++++++++++---------
 src/estd/internal/layer1/string.h         |  2 +-
 src/estd/internal/string.h                |  4 ++--
 4 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/estd/internal/container/specializer.h b/src/estd/internal/container/specializer.h
index 75234fd..538313b 100644
--- a/src/estd/internal/container/specializer.h
+++ b/src/estd/internal/container/specializer.h
@@ -128,7 +128,7 @@ struct dynamic_array_helper<Impl, enable_if_t<
     static size_type
         append(dynamic_array& a, const allocated_array<Impl2>& copy_from)
     {
-        size_type len = copy_from.size();
+        const size_t len = copy_from.size();
         auto r = a.grow(len);
         const size_type current_size = r.starting_size;
         pointer raw = a.lock(current_size);
diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index 0e83625..0533187 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -129,19 +129,24 @@ protected:
     // - traditional dynamic memory scenarios (i.e. classic malloc/realloc/free behaviors)
     // - advanced and not yet implemented fragmented locking dynamic memory
 
-    bool ensure_total_capacity(size_type new_size, size_type pad = 0)
+    // size_t rather than size_type, so that a total which doesn't fit into a narrow
+    // size_type isn't mistaken for a small one
+    bool ensure_total_capacity(size_t new_size, size_t pad = 0)
     {
-        if(new_size > capacity())
+        // null terminated flavors occupy one more element than their size
+        const size_t required = new_size + (impl_type::uses_termination() ? 1 : 0);
+
+        if(required > capacity())
         {
             // TODO: Do an assert here, or return true/false to indicate success
-            if(!reserve(new_size + pad)) return false;
+            if(!reserve(required + pad)) return false;
         }
 
         return true;
     }
 
     // internal method for reassigning size, ensuring capacity is available
-    ESTD_CPP_CONSTEXPR(14) bool ensure_total_size(size_type new_size, size_type pad = 0, bool shrink = false)
+    ESTD_CPP_CONSTEXPR(14) bool ensure_total_size(size_t new_size, size_type pad = 0, bool shrink = false)
     {
         if(ensure_total_capacity(new_size, pad) == false)
             return false;
@@ -154,7 +159,7 @@ protected:
     }
 
     // internal method for auto increasing capacity based on pre-set amount
-    grow_result ensure_additional_capacity(size_type increase_by)
+    grow_result ensure_additional_capacity(size_t increase_by)
     {
         // DEBT: fixed allocators IIRC have matching capacity() and max_size()
         // possibly resulting in big and crusty code here
@@ -183,7 +188,7 @@ protected:
     // (standard version also inserts or removes characters if requested,
     //  this one ONLY replaces the entire buffer)
     // TODO: change to assign
-    void assign(const_pointer buf, size_type len)   // NOLINT
+    void assign(const_pointer buf, size_t len)   // NOLINT
     {
         ensure_total_size(len);
 
@@ -304,7 +309,7 @@ protected:
     bool raw_insert(unsigned to_insert_pos, InputIt first, InputIt last)
     {
         const size_type sz = impl().size();
-        const size_type input_sz = last - first;
+        const size_t input_sz = last - first;
         if(ensure_total_size(sz + input_sz) == false) return false;
 
         pointer data = lock();
@@ -393,7 +398,7 @@ public:
     // we deviate from spec because we don't use exceptions, so a manual check for reserve failure is required
     // return true = successful reserve, false = fail
     // NOTE: This is kind of a lie, because reallocate will call abort() for fixed allocators
-    ESTD_CPP_CONSTEXPR(14) bool reserve(size_type new_cap)
+    ESTD_CPP_CONSTEXPR(14) bool reserve(size_t new_cap)
     {
         if(!impl().is_allocated())
             return impl().allocate(new_cap);
@@ -419,7 +424,7 @@ public:
     // - classic malloc/realloc/free
     // - not-yet-implemented fragment-adapting locking memory
     /// @returns size before growth
-    grow_result grow(size_type by_amount)
+    grow_result grow(size_t by_amount)
     {
         grow_result r = ensure_additional_capacity(by_amount);
 
@@ -454,7 +459,7 @@ public:
     // somewhat non standard, but considered a real API in estd
     // in theory this might go a little faster than the iterator
     // version
-    append_result append(const value_type* buf, size_type len)
+    append_result append(const value_type* buf, size_t len)
     {
         grow_result r = grow(len);
         const size_type current_size = r.starting_size;
diff --git a/src/estd/internal/layer1/string.h b/src/estd/internal/layer1/string.h
index d426196..a631079 100644
--- a/src/estd/internal/layer1/string.h
+++ b/src/estd/internal/layer1/string.h
@@ -32,7 +32,7 @@ public:
         base_type::operator =(s);
     }
 
-    basic_string(const_pointer s, size_type count)        // NOLINT
+    basic_string(const_pointer s, size_t count)        // NOLINT
     {
         base_type::assign(s, count);
     }
diff --git a/src/estd/internal/string.h b/src/estd/internal/string.h
index 62974c3..911f571 100644
--- a/src/estd/internal/string.h
+++ b/src/estd/internal/string.h
@@ -259,7 +259,7 @@ public:
         return {};
     }
 
-    ESTD_CPP_CONSTEXPR(14) basic_string& insert(size_type index, const_pointer s, size_type count)
+    ESTD_CPP_CONSTEXPR(14) basic_string& insert(size_type index, const_pointer s, size_t count)
     {
         assert_mutable();
 
@@ -375,7 +375,7 @@ public:
         return *this;
     }
 
-    basic_string& append(const_pointer s, size_type count)  // NOLINT
+    basic_string& append(const_pointer s, size_t count)  // NOLINT
     {
         assert_append(base_type::append(s, count));
         return *this;
-- 
2.43.0


From 810fe9773881dc10b32228ea82610186a38dcd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:03 +0000
Subject: [PATCH 012/103] fix: dynamic_array erase moves whole elements

---
 src/estd/internal/dynamic_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index 0533187..1540151 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -505,7 +505,7 @@ public:
         else
             impl().size(prev_size - count);
 
-        memmove(raw, raw + count, prev_size - (index + count));
+        memmove(raw, raw + count, (prev_size - (index + count)) * sizeof(value_type));
 
         unlock();
     }
-- 
2.43.0


From 5e0e3f5e0c63238f7c4869cfef54e43731b0f444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:03 +0000
Subject: [PATCH 013/103] fix: dynamic_array insert of a const reference
 inserts the value, not its address

---
 src/estd/internal/dynamic_array.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index 1540151..3bdf02f 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -332,6 +332,9 @@ protected:
         // NOTE: may not be very efficient (underlying allocator may need to realloc/copy etc.
         // so later consider doing the insert operation at that level)
         const size_type sz = impl().size();
+        // incoming value may itself be part of this array, which is about to shift
+        const value_type value(*to_insert_value);
+
         ensure_total_size(sz + 1);
 
         pointer data = lock();
@@ -340,7 +343,7 @@ protected:
         // to_insert_pos to to_insert_pos + 1
         copy_assist(data + to_insert_pos, data + sz, data + sz + 1);
 
-        new (data + to_insert_pos) value_type(to_insert_value);
+        new (data + to_insert_pos) value_type(value);
 
         unlock();
     }
-- 
2.43.0


From c074412851ecf5c6dfacdb6e33521905f4a8ab7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:03 +0000
Subject: [PATCH 014/103] fix: dynamic_array iterator assign instantiates

---
 src/estd/internal/dynamic_array.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index 3bdf02f..278f214 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -412,9 +412,11 @@ public:
     template <class InputIt>
     void assign(InputIt first, InputIt last)
     {
-        ensure_total_size(last - first, 0, true);
+        ensure_total_size(last - first);
 
-        helper::copy(*this, 0, first, last);
+        estd::copy(first, last, lock());
+
+        unlock();
     }
 
 //protected:
-- 
2.43.0


From 60afadabcd8692734e10c1304f59b0c63b2e6254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:03 +0000
Subject: [PATCH 015/103] fix: string find family stays within the string and
 reports positions relative to its start

---
 src/estd/internal/runtime_array.h | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/estd/internal/runtime_array.h b/src/estd/internal/runtime_array.h
index a189959..a6c4d07 100644
--- a/src/estd/internal/runtime_array.h
+++ b/src/estd/internal/runtime_array.h
@@ -399,16 +399,15 @@ public:
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
         const_pointer data = clock();
-        const_pointer end = data + size();
-
-        data += pos;
+        const size_type sz = size();
 
-        for(const_pointer i = data; i != end; ++i)
+        // only evaluate positions where all of 's' fits
+        for(size_t i = pos; i + count <= sz; ++i)
         {
-            if(memcmp(s, i, count) == 0)
+            if(memcmp(s, data + i, count * sizeof(value_type)) == 0)
             {
                 cunlock();
-                return i - data;
+                return i;
             }
         }
 
@@ -428,6 +427,12 @@ public:
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
         const size_type sz = size();
+
+        if(count > sz) return npos;
+
+        // nothing to search, so only an empty 's' can be found
+        if(sz == 0) return 0;
+
         if(pos >= sz) pos = sz - 1;
 
         unsigned remainder = sz - pos;
@@ -454,7 +459,7 @@ public:
 
         for(; data != rend; --pos, --data)
         {
-            if(memcmp(s, data, count) == 0)
+            if(memcmp(s, data, count * sizeof(value_type)) == 0)
             {
                 cunlock();
                 return pos;
@@ -469,8 +474,12 @@ public:
     ESTD_CPP_CONSTEXPR(14) size_type find_first_of(
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
+        const size_type sz = size();
+
+        if(pos >= sz) return npos;
+
         const_pointer data = clock();
-        const_pointer end = data + size();
+        const_pointer end = data + sz;
 
         const_pointer found = estd::find_first_of(data + pos, end, s, s + count);
 
@@ -482,7 +491,11 @@ public:
     ESTD_CPP_CONSTEXPR(14) size_type find_last_of(
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
-        if(pos == npos) pos = size() - 1;   // DEBT: I think this line should go back up to string
+        const size_type sz = size();
+
+        if(sz == 0) return npos;
+
+        if(pos >= sz) pos = sz - 1;
 
         const_pointer data = clock();
         const_pointer rend = data - 1;
-- 
2.43.0


From 886371ee4326b6314d256ba0d0aa509d9a366614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:03 +0000
Subject: [PATCH 016/103] fix: a string starts with itself

---
 src/estd/internal/container/starts_with.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/container/starts_with.h b/src/estd/internal/container/starts_with.h
index dae9c13..14513f6 100644
--- a/src/estd/internal/container/starts_with.h
+++ b/src/estd/internal/container/starts_with.h
@@ -12,14 +12,16 @@ inline ESTD_CPP_CONSTEXPR(14) bool starts_with_n(It1 lhs, It2 rhs, int count_lhs
 {
     // DEBT: Using signed int here is fiddly, since incoming count likely won't be signed
 
-    while(count_lhs-- && count_rhs--)
+    // if compare_to is longer than we are, then it's a fail
+    if(count_rhs > count_lhs) return false;
+
+    while(count_rhs--)
         if(*lhs++ != *rhs++)
         {
             return false;
         }
 
-    // if compare_to is longer than we are, then it's also a fail
-    return count_lhs != -1;
+    return true;
 }
 
 
-- 
2.43.0


From dded384416d32b9f71dba5f443733ae6db31e181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:03 +0000
Subject: [PATCH 017/103] fix: empty strings neither start nor end with any
 character

---
 src/estd/internal/runtime_array.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/runtime_array.h b/src/estd/internal/runtime_array.h
index a6c4d07..79cf400 100644
--- a/src/estd/internal/runtime_array.h
+++ b/src/estd/internal/runtime_array.h
@@ -153,6 +153,8 @@ protected:
 
     ESTD_CPP_CONSTEXPR(14) bool starts_with(const_reference ch) const
     {
+        if(size() == 0) return false;
+
         const bool r = *clock(0, 1) == ch;
 
         cunlock();
@@ -170,7 +172,11 @@ protected:
 
     ESTD_CPP_CONSTEXPR(14) bool ends_with(const_reference ch) const
     {
-        const bool r = *clock(size() - 1, 1) == ch;
+        const size_type sz = size();
+
+        if(sz == 0) return false;
+
+        const bool r = *clock(sz - 1, 1) == ch;
 
         cunlock();
 
-- 
2.43.0


From 97f405fa41c9c0ffa91b576c89c76e1e7764a918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:03 +0000
Subject: [PATCH 018/103] fix: empty() of const strings was inverted

---
 src/estd/internal/impl/dynamic_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/impl/dynamic_array.h b/src/estd/internal/impl/dynamic_array.h
index c855988..a55b874 100644
--- a/src/estd/internal/impl/dynamic_array.h
+++ b/src/estd/internal/impl/dynamic_array.h
@@ -226,7 +226,7 @@ public:
 
     ESTD_CPP_CONSTEXPR_RET bool empty(const handle_descriptor& hd) const
     {
-        return hd.size() > 0;
+        return hd.size() == 0;
     }
 
     ESTD_CPP_CONSTEXPR_RET size_type size(const handle_descriptor& hd) const
-- 
2.43.0


From 73ba96d62c6eccbe45d079756c3e6554bfe4c84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:03 +0000
Subject: [PATCH 019/103] fix: string_view substr does not reach past the end
 of the view

---
 src/estd/string_view.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/estd/string_view.h b/src/estd/string_view.h
index 2ed3669..7fbf02c 100644
--- a/src/estd/string_view.h
+++ b/src/estd/string_view.h
@@ -112,7 +112,8 @@ public:
         basic_string_view copy(*this);
 
         copy.remove_prefix(pos);
-        if(count != base_type::npos)
+        // count only ever shortens what remains
+        if(count < copy.size())
         {
             allocator_type& a = copy.get_allocator();
 
-- 
2.43.0


From 9032e9b36d5ccd200b6b54f277bcff5ee126d0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:03 +0000
Subject: [PATCH 020/103] fix: unbounded layer2 buffers track sizes over 255

---
 src/estd/allocators/fixed.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/estd/allocators/fixed.h b/src/estd/allocators/fixed.h
index bc3e8fd..f87ea62 100644
--- a/src/estd/allocators/fixed.h
+++ b/src/estd/allocators/fixed.h
@@ -199,7 +199,8 @@ public:
 // NOTE: uninitialized_array is handy to use for TBuffer to avoid value-init of all the elements
 template <
         class T, size_t len, class Buffer = T[len],
-        class Size = typename internal::deduce_fixed_size_t<len>::size_type>
+        // len == 0 denotes an unbounded buffer
+        class Size = conditional_t<len == 0, size_t, typename internal::deduce_fixed_size_t<len>::size_type> >
 struct single_fixedbuf_allocator : public
         single_allocator_base<T, Buffer, Size>
 {
-- 
2.43.0


From 5cb2a531d371a9c156f31418b434300724e5364a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:03 +0000
Subject: [PATCH 021/103] fix: array copy clamps any oversized count

---
 src/estd/internal/container/specializer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/container/specializer.h b/src/estd/internal/container/specializer.h
index 538313b..8461308 100644
--- a/src/estd/internal/container/specializer.h
+++ b/src/estd/internal/container/specializer.h
@@ -184,8 +184,10 @@ struct dynamic_array_helper<Impl, enable_if_t<
         // TODO: since we aren't gonna throw an exception, determine what to do if
         // pos > size()
 
-        if(pos + count > a.size())
-            count = a.size() - pos;
+        const size_type remaining = a.size() - pos;
+
+        if(count > remaining)
+            count = remaining;
 
         // TODO: Do the m_impl.copy_from here
 
-- 
2.43.0


From f574532a9e1e8d628749c6f600b83e991b1be784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:32 +0000
Subject: [PATCH 022/103] fix: string_view empty() instantiates

---
 src/estd/internal/impl/allocated_array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estd/internal/impl/allocated_array.h b/src/estd/internal/impl/allocated_array.h
index 53dfcf5..a2b1016 100644
--- a/src/estd/internal/impl/allocated_array.h
+++ b/src/estd/internal/impl/allocated_array.h
@@ -14,6 +14,8 @@ struct allocated_array : estd::handle_descriptor<Allocator>
 
     ESTD_CPP_DEFAULT_CTOR(allocated_array)
     ESTD_CPP_FORWARDING_CTOR(allocated_array)
+
+    constexpr bool empty() const { return base_type::size() == 0; }
 };
 
 
-- 
2.43.0


From f8afdbb9ba216a34b4d1f6d545f4a04645fc75de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:57 +0000
Subject: [PATCH 023/103] fix: bipbuf poll and peek never go past what is
 buffered

---
 src/estd/ext/willemt/bipbuffer/bipbuffer.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/estd/ext/willemt/bipbuffer/bipbuffer.c b/src/estd/ext/willemt/bipbuffer/bipbuffer.c
index fdcc2eb..7c7e0c3 100644
--- a/src/estd/ext/willemt/bipbuffer/bipbuffer.c
+++ b/src/estd/ext/willemt/bipbuffer/bipbuffer.c
@@ -96,11 +96,11 @@ int bipbuf_offer(bipbuf_t* me, const unsigned char *data, const int size)
 
 unsigned char *bipbuf_peek(const bipbuf_t* me, const unsigned int size)
 {
-    /* make sure we can actually peek at this data */
-    if (me->size < me->a_start + size)
+    if (bipbuf_is_empty(me))
         return NULL;
 
-    if (bipbuf_is_empty(me))
+    /* make sure we can actually peek at this data */
+    if (me->a_end - me->a_start < size)
         return NULL;
 
     return (unsigned char*)me->data + me->a_start;
@@ -112,7 +112,7 @@ unsigned char *bipbuf_poll(bipbuf_t* me, const unsigned int size)
         return NULL;
 
     /* make sure we can actually poll this data */
-    if (me->size < me->a_start + size)
+    if (me->a_end - me->a_start < size)
         return NULL;
 
     void *end = me->data + me->a_start;
-- 
2.43.0


From 7191ea92af993af07e227a14af0670e72b43302e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:57 +0000
Subject: [PATCH 024/103] fix: align layer1::bipbuf storage

---
 src/estd/internal/bip/buffer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/bip/buffer.h b/src/estd/internal/bip/buffer.h
index 1c699c2..8ffd2cb 100644
--- a/src/estd/internal/bip/buffer.h
+++ b/src/estd/internal/bip/buffer.h
@@ -77,7 +77,7 @@ class bipbuf
     // https://stackoverflow.com/questions/11373203/accessing-inactive-union-member-and-undefined-behavior
     // NOTE: Above comment N/A we have left union behind
 
-    byte backing_buffer_[sizeof(bipbuf_t) + N];
+    alignas(bipbuf_t) byte backing_buffer_[sizeof(bipbuf_t) + N];
 
     // Can't do union here
     // https://github.com/malachi-iot/estdlib/issues/30
@@ -104,6 +104,7 @@ public:
     }
 
     bipbuf_t* native() { return buf(); }
+    const bipbuf_t* native() const { return buf(); }
 
     unsigned char* offer_begin()
     {
@@ -170,6 +171,7 @@ public:
     }
 
     bipbuf_t* native() { return buf_; }
+    const bipbuf_t* native() const { return buf_; }
 
     unsigned char* offer_begin()
     {
-- 
2.43.0


From ee2f99a3244db7eb6820bdc8ff0d991e68c2a654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:57 +0000
Subject: [PATCH 025/103] fix: bipbuf streambufs handle wrapped content,
 consume on read and stop when full

---
 src/estd/internal/impl/streambuf/bipbuf.h | 46 +++++++++++++++++------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/bipbuf.h b/src/estd/internal/impl/streambuf/bipbuf.h
index 3187c62..7e0a557 100644
--- a/src/estd/internal/impl/streambuf/bipbuf.h
+++ b/src/estd/internal/impl/streambuf/bipbuf.h
@@ -53,12 +53,23 @@ protected:
     int sync()
     {
         // DEBT: A lot of tuning opportunity here
-        const unsigned sz = buf_.used();
-        auto b = (char_type*)buf_.peek(sz);
-        unsigned written = base_type::rdbuf().sputn(b, sz);
-        if(written == 0) return -1;
-        buf_.poll(written);
-        return 0;
+        unsigned total = 0;
+
+        while(buf_.used() > 0)
+        {
+            // Only the first region is contiguous.  When content has wrapped, remainder
+            // becomes the first region once this one is polled
+            const bipbuf_t* native = buf_.native();
+            const unsigned sz = native->a_end - native->a_start;
+            auto b = (const char_type*)buf_.peek(sz);
+            const estd::streamsize written = base_type::rdbuf().sputn(b, sz / sizeof(char_type));
+            if(written <= 0) break;
+            buf_.poll(written * sizeof(char_type));
+            total += written;
+            if(written * sizeof(char_type) < sz) break;
+        }
+
+        return total == 0 ? -1 : 0;
     }
 
 public:
@@ -97,7 +108,10 @@ protected:
     int_type overflow(int_type ch)
     {
         if(xout_avail() == 0)
+        {
             sync();
+            if(xout_avail() == 0) return traits_type::eof();
+        }
 
         *pptr() = traits_type::to_char_type(ch);
         pbump(1);
@@ -179,12 +193,20 @@ protected:
 
     streamsize xsgetn(nonconst_char_type* s, streamsize count)
     {
-        if(count > xin_avail())
-            count = xin_avail();
+        streamsize copied = 0;
 
-        copy_n(buf_.peek(), count, s);
+        // Only one region at a time is contiguous
+        while(copied < count && xin_avail() > 0)
+        {
+            const streamsize avail = egptr() - gptr();
+            const streamsize sz = count - copied < avail ? count - copied : avail;
 
-        return count;
+            copy_n(gptr(), sz, s + copied);
+            gbump(sz);
+            copied += sz;
+        }
+
+        return copied;
     }
 
     ESTD_CPP_FORWARDING_CTOR(in_buffered_bipbuf)
@@ -230,7 +252,9 @@ public:
 
     const char_type* egptr() const
     {
-        return gptr() + buf_.used();
+        // Excludes wrapped content, it isn't contiguous
+        const bipbuf_t* native = buf_.native();
+        return gptr() + (native->a_end - native->a_start);
     }
 };
 
-- 
2.43.0


From 8c98e56ac163853ef597d937dbaa2e5abce013b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:53 +0000
Subject: [PATCH 026/103] fix: moved deque refers to its own elements

---
 src/estd/queue.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/estd/queue.h b/src/estd/queue.h
index 353d0b0..e50b8b5 100644
--- a/src/estd/queue.h
+++ b/src/estd/queue.h
@@ -189,11 +189,12 @@ public:
     }
 
 #ifdef FEATURE_CPP_MOVESEMANTIC
-    constexpr deque(deque&& move_from) :
+    // iterators refer to our own array, so they keep position rather than value
+    deque(deque&& move_from) :
         m_array(std::move(move_from.m_array)),
-        m_front(std::move(move_from.m_front)),
-        m_back(std::move(move_from.m_back)),
-        m_empty(std::move(move_from.m_empty))
+        m_front(m_array.begin() + (move_from.m_front - move_from.m_array.begin())),
+        m_back(m_array.begin() + (move_from.m_back - move_from.m_array.begin())),
+        m_empty(move_from.m_empty)
     {}
 #endif
     
@@ -432,7 +433,7 @@ class queue
 
 public:
 #ifdef FEATURE_CPP_MOVESEMANTIC
-    constexpr queue(queue&& move_from) : c(std::move(move_from.c)) {}
+    queue(queue&& move_from) : c(std::move(move_from.c)) {}
 
     queue() {}
 #endif
-- 
2.43.0


From 12f04a8d1f44332328a793625037d4a878d1a6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:53 +0000
Subject: [PATCH 027/103] fix: iterating a full deque

---
 src/estd/queue.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/estd/queue.h b/src/estd/queue.h
index e50b8b5..b4ab15f 100644
--- a/src/estd/queue.h
+++ b/src/estd/queue.h
@@ -216,24 +216,29 @@ public:
     {
         const deque& parent;
         array_iterator current;
+        // when full, begin and end share the same position
+        bool at_end;
 
         // DEBT: Do we need a copy constructor here?
 
-        ESTD_CPP_CONSTEXPR_RET forward_iterator(const deque& parent, array_iterator current)
+        ESTD_CPP_CONSTEXPR_RET forward_iterator(const deque& parent, array_iterator current, bool at_end = false)
             : parent(parent),
-              current(current)
+              current(current),
+              at_end(at_end)
         {}
 
         forward_iterator& operator++()
         {
             parent.increment(&current);
+            at_end = current == parent.m_back;
             return *this;
         }
 
         // FIX: perhaps we can do reverse iteration easily here after all
         forward_iterator& operator--()
         {
-            parent.decrement(&current);
+            parent.decrement((const_array_iterator*)&current);
+            at_end = false;
             return *this;
         }
 
@@ -251,21 +256,21 @@ public:
 
         bool operator==(const forward_iterator& compare_to) const
         {
-            return compare_to.current == current;
+            return compare_to.current == current && compare_to.at_end == at_end;
         }
 
         bool operator!=(const forward_iterator& compare_to) const
         {
-            return compare_to.current != current;
+            return !operator==(compare_to);
         }
     };
 
     typedef forward_iterator iterator;
     typedef const iterator const_iterator;
 
-    iterator begin() { return iterator(*this, m_front); }
+    iterator begin() { return iterator(*this, m_front, m_empty); }
 
-    iterator end() { return iterator(*this, m_back); }
+    iterator end() { return iterator(*this, m_back, true); }
 
     bool empty() const { return m_empty; }
 
-- 
2.43.0


From 5090d03c9c0a35f68c388c1a4144552b3b91de63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:53 +0000
Subject: [PATCH 028/103] fix: deque emplace_front places before the front

---
 src/estd/queue.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/estd/queue.h b/src/estd/queue.h
index b4ab15f..1818fdb 100644
--- a/src/estd/queue.h
+++ b/src/estd/queue.h
@@ -385,11 +385,12 @@ public:
     template <class ...TArgs>
     reference emplace_front(TArgs&&...args)
     {
+        decrement(&m_front);
+
         value_type& retval = *m_front;
 
         new (&retval) value_type(std::forward<TArgs>(args)...);
 
-        decrement(&m_front);
         m_empty = false;
 
         return retval;
-- 
2.43.0


From 0bdd97ab7a3bf234b73eaeee886d6e569d7f6e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:53 +0000
Subject: [PATCH 029/103] fix: deque push when full and pop when empty fail

---
 src/estd/queue.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/estd/queue.h b/src/estd/queue.h
index 1818fdb..01c6d63 100644
--- a/src/estd/queue.h
+++ b/src/estd/queue.h
@@ -287,8 +287,12 @@ public:
 
     size_type max_size() const { return m_array.size(); }
 
+    bool full() const { return !m_empty && m_front == m_back; }
+
     bool push_back(const_reference value)
     {
+        if(full()) return false;
+
         *m_back++ = value;
         m_empty = false;
 
@@ -308,6 +312,8 @@ public:
     ///
     bool push_front(const_reference value)
     {
+        if(full()) return false;
+
         // NOTE: doesn't do a before-begin style, but for consistency probably should
         evaluate_rollunder((const_array_iterator*)&m_front);
         m_front--; // due to the non-before-begin approach. confusing
@@ -322,6 +328,8 @@ public:
 
     bool pop_back()
     {
+        if(m_empty) return false;
+
         back().~value_type();
 
         decrement(&m_back);
@@ -333,6 +341,8 @@ public:
 
     bool pop_front()
     {
+        if(m_empty) return false;
+
         front().~value_type();
 
         m_front++;
@@ -413,6 +423,8 @@ public:
 #ifdef FEATURE_CPP_MOVESEMANTIC
     bool push_back(value_type&& value)
     {
+        if(full()) return false;
+
         value_type& back = *m_back++;
 
         new (&back) value_type(std::move(value));
-- 
2.43.0


From fe86cc7b3640f7a78ec53ea50131ebed66013bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:50 +0000
Subject: [PATCH 030/103] fix: const deque back() and backwards iteration
 instantiate

---
 src/estd/queue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/queue.h b/src/estd/queue.h
index 01c6d63..c30af7c 100644
--- a/src/estd/queue.h
+++ b/src/estd/queue.h
@@ -150,7 +150,7 @@ class deque : protected TPolicy
             --(*i);
     }
 
-    void decrement(array_iterator* i)
+    void decrement(array_iterator* i) const
     {
         decrement((const_array_iterator*)i);
     }
@@ -237,7 +237,7 @@ public:
         // FIX: perhaps we can do reverse iteration easily here after all
         forward_iterator& operator--()
         {
-            parent.decrement((const_array_iterator*)&current);
+            parent.decrement(&current);
             at_end = false;
             return *this;
         }
-- 
2.43.0


From ff851a0268d04705e7c44df09b40f62cdece6b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:38 +0000
Subject: [PATCH 031/103] fix: making a heap of an empty range touches nothing

---
 src/estd/internal/algorithm/heap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estd/internal/algorithm/heap.h b/src/estd/internal/algorithm/heap.h
index 790770a..63707e7 100644
--- a/src/estd/internal/algorithm/heap.h
+++ b/src/estd/internal/algorithm/heap.h
@@ -162,6 +162,8 @@ struct heap
 
     void make()
     {
+        if(empty()) return;
+
         int last_nonleaf_idx = (size() - 1) / k;
         // FIX: this is not sufficient, because restore_up doesn't evaluate all children
         //while(!restore_up());
-- 
2.43.0


From c1bf75a394cb4a7a09f23937228b755ff303beca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:35 +0000
Subject: [PATCH 032/103] fix: forward_list remove drops runs of matching
 elements

---
 src/estd/forward_list.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/estd/forward_list.h b/src/estd/forward_list.h
index 81ca246..d2602de 100644
--- a/src/estd/forward_list.h
+++ b/src/estd/forward_list.h
@@ -223,8 +223,10 @@ public:
 
                 if (first_only) return;
             }
+            else
+                // a removed node precedes nothing anymore
+                previous = current;
 
-            previous = current;
             current = _next;
         }
     }
@@ -261,12 +263,13 @@ public:
                     // then instead of splicing, we are replacing the front node
                     base_t::m_front = _next;
                 else
-                    set_next(previous, next(current));
+                    set_next(previous, _next);
 
                 if(first_only) return;
             }
+            else
+                previous = current;
 
-            previous = current;
             current = _next;
         }
 #endif
-- 
2.43.0


From f36efab681a50a72e7c0b1648ac66feb9842e0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:35 +0000
Subject: [PATCH 033/103] fix: forward_list_with_back keeps track of its back

---
 src/estd/internal/list_node.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/estd/internal/list_node.h b/src/estd/internal/list_node.h
index ff5d4ba..a16f027 100644
--- a/src/estd/internal/list_node.h
+++ b/src/estd/internal/list_node.h
@@ -365,6 +365,9 @@ protected:
     // accross strata of list handlers
     void set_back(node_handle new_back)
     {
+        // intrusive nodes may still carry a next from a previous list
+        base_type::set_next(new_back, base_type::after_end_node());
+
         // are we tracking anything?
         if(base_type::m_back != base_type::after_end_node())
         {
@@ -404,6 +407,15 @@ public:
         base_type(base_type::after_end_node())
     {}
 
+    void pop_front()
+    {
+        base_type::pop_front();
+
+        // nothing left, so there is no back to track either
+        if(base_type::empty())
+            base_type::m_back = base_type::after_end_node();
+    }
+
     void push_back(nv_reference value)
     {
         node_handle h = base_type::get_traits().allocate(value);
-- 
2.43.0


From 79d4f32600b69dd743f3aaf5ac02ca10dfe6fbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:35 +0000
Subject: [PATCH 034/103] fix: list insert at the end

---
 src/estd/list.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/estd/list.h b/src/estd/list.h
index bccb345..37ab06b 100644
--- a/src/estd/list.h
+++ b/src/estd/list.h
@@ -122,6 +122,13 @@ public:
             return base_t::begin();
         }
 
+        // likewise there is no node to insert on at the end
+        if(pos == base_t::end())
+        {
+            push_back(value);
+            return iterator(base_t::m_back, base_t::traits);
+        }
+
         node_handle new_node = base_t::traits.allocate(value);
 
         node_handle node_to_insert_on = pos.node(); // or 'before', if you like
-- 
2.43.0


From 015f9db240fca2ed0079c07a5c8a7142c29b3520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:35 +0000
Subject: [PATCH 035/103] fix: list iterator minus does not recurse endlessly

---
 src/estd/iterators/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/iterators/list.h b/src/estd/iterators/list.h
index bd19e6c..653e30b 100644
--- a/src/estd/iterators/list.h
+++ b/src/estd/iterators/list.h
@@ -347,7 +347,7 @@ public:
     {
         ReverseIterator temp(*this);
 
-        return temp - subtrahend;
+        return temp -= subtrahend;
     }
 
     // untested
-- 
2.43.0


From ff06ed8c618f24801b49e8986a518e2dce416e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:59 +0000
Subject: [PATCH 036/103] fix: unordered containers stay within their slots and
 insert once per bucket

---
 src/estd/internal/container/unordered/base.h  | 34 ++++++++++++++-----
 .../internal/container/unordered/traits.h     |  1 +
 src/estd/internal/container/unordered_map.h   |  6 ++--
 3 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/estd/internal/container/unordered/base.h b/src/estd/internal/container/unordered/base.h
index 9be2a91..5c9ba41 100644
--- a/src/estd/internal/container/unordered/base.h
+++ b/src/estd/internal/container/unordered/base.h
@@ -93,7 +93,7 @@ protected:
     template <class It, class It2>
     static ESTD_CPP_CONSTEXPR(14) It skip_empty(It it, It2 end)
     {
-        for(; traits::is_empty(*it) && it != end; ++it)   {}
+        for(; it != end && traits::is_empty(*it); ++it)   {}
 
         return it;
     }
@@ -107,7 +107,7 @@ protected:
     template <class Control>
     ESTD_CPP_CONSTEXPR(14) Control skip_sparse(Control p, unsigned n) const
     {
-        for(; traits::is_sparse(*p, n) && p != container_.cend(); ++p)    {}
+        for(; p != container_.cend() && traits::is_sparse(*p, n); ++p)    {}
 
         return p;
     }
@@ -216,15 +216,33 @@ protected:
         // linear probing
 
         control_pointer it = &container_[n];
+        control_pointer sparse = nullptr;
 
-        // Move over occupied spots.  Sparse does NOT count as occupied
+        // Move over occupied spots.  Sparse does NOT count as occupied, but our
+        // bucket goes on after it - so a duplicate may still be there
         // DEBT: optimize is_null/is_sparse together
-        for(;traits::is_empty(*it) == false; ++it)
+        for(;; ++it)
         {
             // if we get to the complete end, that's a fail
+            if(it == container_.cend()) return { sparse, sparse != nullptr };
+
+            if(traits::is_empty(*it))
+            {
+                // null slot, end of bucket
+                if(traits::is_null_not_sparse(*it)) break;
+
+                // if we've moved to a slot another bucket still extends over, that's a fail
+                if(!traits::is_sparse(*it, n))   return { sparse, sparse != nullptr };
+
+                if(sparse == nullptr)   sparse = it;
+                if(permit_duplicates)   break;
+
+                continue;
+            }
+
             // if we've moved to the next bucket, that's also a fail
-            if(it == container_.cend() || index(base_type::key(*it)) != n)
-                return { nullptr, false };
+            if(index(base_type::key(*it)) != n)
+                return { sparse, sparse != nullptr };
             else if(!permit_duplicates)
             {
                 if(key_eq_c(key, *it))
@@ -238,7 +256,7 @@ protected:
         }
 
         // Success, but someone else still needs to initialize 'it'
-        return { it, true };
+        return { sparse != nullptr ? sparse : it, true };
     }
 
 
@@ -389,7 +407,7 @@ protected:
 
             // skip over any sparse entries belonging to this bucket.  They are invisible
             // null entries for this iterator
-            for(; traits::is_sparse(*it_, n_) && it_ != parent_->container_.cend(); ++it_)   {}
+            for(; it_ != parent_->container_.cend() && traits::is_sparse(*it_, n_); ++it_)   {}
 
             return *this;
         }
diff --git a/src/estd/internal/container/unordered/traits.h b/src/estd/internal/container/unordered/traits.h
index 7603817..41f6b0b 100644
--- a/src/estd/internal/container/unordered/traits.h
+++ b/src/estd/internal/container/unordered/traits.h
@@ -231,6 +231,7 @@ struct unordered_set_traits : unordered_traits<Key, Key, Hash, KeyEqual ESTD_UNO
         return nullable{}.is_null(v);
     }
 
+    static constexpr bool is_null_not_sparse(const value_type& v) { return is_empty(v); }
     static constexpr bool is_sparse(const value_type&) { return false; }
     static constexpr bool is_sparse(const value_type&, unsigned) { return false; }
 
diff --git a/src/estd/internal/container/unordered_map.h b/src/estd/internal/container/unordered_map.h
index a9bda66..84ddc25 100644
--- a/src/estd/internal/container/unordered_map.h
+++ b/src/estd/internal/container/unordered_map.h
@@ -111,7 +111,7 @@ private:
         // look through other items in this bucket.  Not using local_iterator because he's
         // designed to skip over nulls, while we specifically are looking for those guys.
         // Also, we don't want to swap our active guy further down the bucket, only earlier
-        for(control_pointer it = container_.begin() + n; it != container_.cend() && it < pos; ++it)
+        for(control_pointer it = container_.begin() + n; it != pos; ++it)
         {
             // if item is null (maybe) sparse
             if(is_empty(*it))
@@ -151,7 +151,7 @@ public:
     {
         --start;
 
-        for(; is_sparse(*pos, n) && pos != start; --pos)
+        for(; pos != start && is_sparse(*pos, n); --pos)
             gc_sparse_ll(pos);
     }
 
@@ -164,7 +164,7 @@ public:
 
         // get to end of identified bucket, skipping past sparse and active bucket items
         // DEBT: Be careful of index(0)
-        for(;(is_sparse(*pos, n) || index(pos->first) == n) && pos != container_.cend(); ++pos)
+        for(;pos != container_.cend() && (is_sparse(*pos, n) || index(pos->first) == n); ++pos)
         {
         }
 
-- 
2.43.0


From f999d91bd72ae5f5800711ad2f8375b437d98adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:59 +0000
Subject: [PATCH 037/103] fix: unordered erase and gc keep the rest of a bucket
 reachable

---
 src/estd/internal/container/unordered/base.h  | 32 +++++++++++--------
 .../internal/container/unordered/traits.h     |  5 +--
 src/estd/internal/container/unordered_map.h   | 17 +++++++++-
 3 files changed, 37 insertions(+), 17 deletions(-)

diff --git a/src/estd/internal/container/unordered/base.h b/src/estd/internal/container/unordered/base.h
index 5c9ba41..2e68508 100644
--- a/src/estd/internal/container/unordered/base.h
+++ b/src/estd/internal/container/unordered/base.h
@@ -466,25 +466,29 @@ protected:
     // deviates from std in that other iterators part of this bucket could be invalidated
     void erase_and_gc_ll(control_pointer pos)
     {
-        auto start = pos;
+        // Bucket# is only known for as long as key is there
+        const size_type n = index(traits::key(*pos));
+        control_pointer last = pos;
+        control_pointer it = pos + 1;
 
-        destruct(pos);
+        // Find last active one in bucket
+        for(; it != container_.cend(); ++it)
+        {
+            if(traits::is_sparse(*it, n))   continue;
+            if(traits::is_empty(*it) || index(traits::key(*it)) != n)   break;
+            last = it;
+        }
 
-        ++pos;
+        destruct(pos);
 
-        // No housekeeping if next guy is null (sparse is OK, but
-        // not yet accounted for here)
-        if (base_type::is_empty(*pos))
-            return;
+        if(last != pos) traits::swap(*last, *pos);
 
-        // Quick-deduce our bucket#
-        size_type n = start - container_.cbegin();
-        // Find last one in bucket
-        for(;n == index(traits::key(*pos)) && pos < container_.cend(); ++pos) {}
-        // Decrement to position on actual last one in bucket
-        --pos;
+        // Bucket now ends ahead of 'last', so no sparse entries are needed from there on
+        while(--it != last) base_type::set_null(it);
 
-        traits::swap(*pos, *start);
+        for(const control_pointer start = &container_[n];
+            it != start && traits::is_sparse(*(it - 1), n); --it)
+            base_type::set_null(it - 1);
     }
 
 public:
diff --git a/src/estd/internal/container/unordered/traits.h b/src/estd/internal/container/unordered/traits.h
index 41f6b0b..eb1a491 100644
--- a/src/estd/internal/container/unordered/traits.h
+++ b/src/estd/internal/container/unordered/traits.h
@@ -89,7 +89,7 @@ struct unordered_map_traits_control
             // aka "sparse" - exists specifically to mark as deleted, but physically unmoved
             uint16_t marked_for_gc : 1;
             // which bucket this empty slot *used to* belong to
-            uint16_t bucket : 6;
+            uint16_t bucket : 15;
         };
 
         uint16_t raw;
@@ -176,11 +176,12 @@ struct unordered_map_traits :
         return v.second.mapped();
     }
 
-    /// Nulls out key
+    /// Nulls out key, neither active nor sparse
     /// @remark Does not run destructor
     static ESTD_CPP_CONSTEXPR(14) void set_null(control_type* v)
     {
         nullable{}.set(&v->first);
+        v->second.raw = 0;
     }
 
 private:
diff --git a/src/estd/internal/container/unordered_map.h b/src/estd/internal/container/unordered_map.h
index 84ddc25..fd65486 100644
--- a/src/estd/internal/container/unordered_map.h
+++ b/src/estd/internal/container/unordered_map.h
@@ -130,6 +130,16 @@ private:
 
                 //it->swap(*pos);
                 traits::swap(*it, *pos);
+
+                // vacated slot only needs to stay sparse if bucket goes on after it
+                const_control_pointer next = pos + 1;
+
+                if(next == container_.cend() || !(is_sparse(*next, n) ||
+                    (!is_empty(*next) && index(next->first) == n)))
+                {
+                    for(; is_sparse(*pos, n); --pos)    gc_sparse_ll(pos);
+                }
+
                 return it;
             }
         }
@@ -181,7 +191,12 @@ public:
 
     ESTD_CPP_CONSTEXPR(14) void clear()
     {
-        for(control_type& v : container_)   destruct(&v);
+        for(control_type& v : container_)
+        {
+            // Only active entries have anything to destruct
+            if(is_empty(v)) set_null(&v);
+            else            destruct(&v);
+        }
     }
 
     mapped_type& operator[](const key_type& key)
-- 
2.43.0


From c335f55b4801897f7502589a6df58e81443badb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:59 +0000
Subject: [PATCH 038/103] fix: unordered equality regardless of order, local
 iterator postfix increment

---
 src/estd/internal/container/unordered/base.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/container/unordered/base.h b/src/estd/internal/container/unordered/base.h
index 2e68508..629806a 100644
--- a/src/estd/internal/container/unordered/base.h
+++ b/src/estd/internal/container/unordered/base.h
@@ -414,9 +414,11 @@ protected:
 
         this_type operator++(int)
         {
+            this_type temp(*this);
+
             operator++();
 
-            return { n_, it_ - 1 };
+            return temp;
         }
 
         constexpr bool operator==(const LocalIt& other) const
@@ -598,9 +600,10 @@ ESTD_CPP_CONSTEXPR(14) bool operator==(const unordered_base<Container, Traits>&
     // DEBT: Not optimal, since we have to iterate inside size() to make this determination
     if(lhs.size() != rhs.size())    return false;
 
-    for(it l = lhs.begin(), r = rhs.begin(); l != lhs.cend(); ++l, ++r)
+    // order within a bucket depends on history
+    for(it l = lhs.begin(); l != lhs.cend(); ++l)
     {
-        if(traits::key(*l) != traits::key(*r)) return false;
+        if(!rhs.contains(traits::key(*l))) return false;
     }
 
     return true;
-- 
2.43.0


From c6453750450e6c8978be2928966fb09247a9db0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:59 +0000
Subject: [PATCH 039/103] fix: unordered_map::insert_or_assign assigns to
 existing and tells

---
 src/estd/internal/container/unordered_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/container/unordered_map.h b/src/estd/internal/container/unordered_map.h
index fd65486..7fafb94 100644
--- a/src/estd/internal/container/unordered_map.h
+++ b/src/estd/internal/container/unordered_map.h
@@ -297,8 +297,8 @@ public:
         {
             control_pointer cp = found.first;
             mapped_type& p = cp->second.mapped();
-            new (&p) mapped_type(std::forward<M>(obj));
-            return { { this, cast(cp) }, true };
+            p = std::forward<M>(obj);
+            return { { this, cast(cp) }, false };
         }
         else
         {
-- 
2.43.0


From a30ad76cbe9a8b11208753065edb994a8619cfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:10 +0000
Subject: [PATCH 040/103] fix: unordered_map brings in assert

---
 src/estd/internal/container/unordered_map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estd/internal/container/unordered_map.h b/src/estd/internal/container/unordered_map.h
index 7fafb94..0e269c1 100644
--- a/src/estd/internal/container/unordered_map.h
+++ b/src/estd/internal/container/unordered_map.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <assert.h>
+
 #include "../../numeric.h"
 #include "../platform.h"
 #include "../fwd/functional.h"
-- 
2.43.0


From 28f7dca25774e671181885266e3d857669f56624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:00 +0000
Subject: [PATCH 041/103] fix: to_chars uses all of its buffer and renders the
 lowest values

---
 src/estd/internal/charconv.hpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/estd/internal/charconv.hpp b/src/estd/internal/charconv.hpp
index 088fcb5..814ef1f 100644
--- a/src/estd/internal/charconv.hpp
+++ b/src/estd/internal/charconv.hpp
@@ -51,27 +51,34 @@ inline detail::to_chars_result<CharIt> to_chars_integer_opt(
     static_assert(is_same<typename cbase_type::char_type, char_type>::value, "CharIt must align with cbase");
 #endif
 
-    if(numeric_limits::is_signed && negative) value *= -1;
-
-    while(first != --last)
+    while(first != last)
     {
+        int digit;
+
 // EXPERIMENTAL, not sure if this helps at all
 #if FEATURE_ESTD_TO_CHARS_LIBC_DIV
         using d = div<Int>;
         const typename d::result v = d::eval(value, base());
-        *last = cbase_type::to_char(v.rem);
+        digit = v.rem;
         value = v.quot;
 #else
         // DEBT: Pretty sure there's a div and mod combined operation, use that
         // i.e. https://riscv.org/wp-content/uploads/2017/05/riscv-spec-v2.2.pdf page 36 section 6.2
-        *last = cbase.to_char(value % base());
-        value /= base();
+        digit = value % (Int) base();
+        value /= (Int) base();
 #endif
 
+        // Signs are dropped digit by digit, since lowest value has no positive counterpart
+        *--last = cbase.to_char(negative ? -digit : digit);
+
         if(value == 0)
         {
-            if(numeric_limits::is_signed && negative)
+            if(negative)
+            {
+                if(first == last) break;
+
                 *--last = '-';
+            }
 
 #ifdef __cpp_initializer_lists
             return result_type{last, estd::errc(0)};
-- 
2.43.0


From 51ffa2abbeae70f8d83b62fefceda170c45c143e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:00 +0000
Subject: [PATCH 042/103] fix: to_chars which lacks room points to last

---
 src/estd/charconv.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/estd/charconv.h b/src/estd/charconv.h
index 2ec2e22..6d78873 100644
--- a/src/estd/charconv.h
+++ b/src/estd/charconv.h
@@ -121,6 +121,12 @@ inline typename estd::enable_if<estd::numeric_limits<Int>::is_integer, to_chars_
 
     to_chars_result opt_result = to_chars_opt(first, last, value, base);
 
+    if(opt_result.ec == estd::errc::value_too_large)
+    {
+        opt_result.ptr = last;
+        return opt_result;
+    }
+
     opt_result.ptr = estd::copy(opt_result.ptr, last, first);
 
     return opt_result;
-- 
2.43.0


From 1b2a628f8575b3e20ddd4568b9535789ab732eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:00 +0000
Subject: [PATCH 043/103] fix: to_chars_exp heeds its bounds for the sign and
 renders the lowest values

---
 src/estd/internal/charconv/reverse.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/estd/internal/charconv/reverse.hpp b/src/estd/internal/charconv/reverse.hpp
index c3a2711..2fcdc74 100644
--- a/src/estd/internal/charconv/reverse.hpp
+++ b/src/estd/internal/charconv/reverse.hpp
@@ -15,19 +15,19 @@ to_chars_result to_chars_integer_reverse(char* first, char* last, TInt value, co
     typedef cbase<char, b, classic_locale_type> cbase_type;
     typedef typename cbase_type::char_type char_type;
 
-    if(estd::numeric_limits<TInt>::is_signed && value < 0)
-    {
-        *first++ = '-';
-        value *= -1;
-    }
+    const bool negative = estd::numeric_limits<TInt>::is_signed && value < 0;
+
+    if(negative && first != last) *first++ = '-';
 
     char_type* current = first;
 
     while(current != last)
     {
         // DEBT: instance method in case its runtime casing
-        *current = cbase_type().to_char(value % base);
-        value /= base;
+        const int digit = value % (TInt) base;
+        // Signs are dropped digit by digit, since lowest value has no positive counterpart
+        *current = cbase_type().to_char(negative ? -digit : digit);
+        value /= (TInt) base;
 
         current++;
 
-- 
2.43.0


From 39cbf3db46bd9d975b5a5179988ec2c01567ca7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:24 +0000
Subject: [PATCH 044/103] fix: from_chars keeps sign, tells missing digits and
 stays in its range

---
 src/estd/internal/charconv/from_chars.hpp | 43 ++++++++++-------------
 src/estd/internal/raise_and_add.h         |  4 +--
 2 files changed, 20 insertions(+), 27 deletions(-)

diff --git a/src/estd/internal/charconv/from_chars.hpp b/src/estd/internal/charconv/from_chars.hpp
index 8fb20cd..6689715 100644
--- a/src/estd/internal/charconv/from_chars.hpp
+++ b/src/estd/internal/charconv/from_chars.hpp
@@ -24,7 +24,7 @@ detail::from_chars_result<CharIt> from_chars_integer(CharIt first, CharIt last,
 #endif
 
     CharIt current = first;
-    bool negate;
+    bool negate = false;
     // "If no characters match the pattern or if the value obtained by parsing
     // the matched characters is not representable in the type of value, value is unmodified," [1]
     T local_value = 0;
@@ -40,27 +40,30 @@ detail::from_chars_result<CharIt> from_chars_integer(CharIt first, CharIt last,
     while (estd::internal::ascii_isspace(*current))
         current++; */
 
-    if (estd::is_signed<T>::value)
+    if (estd::is_signed<T>::value && current != last)
     {
         negate = *current == '-';
 
         if (negate) ++current;
     }
 
+    const CharIt digits = current;
+
     while (current != last)
     {
         // DEBT: Use has_value() and friends for clarity here
         const optional_type digit = cbase_type::from_char(*current, base);
         if (digit.has_value())
         {
-            bool success = raise_and_add(local_value, base, digit.value());
+            bool success = raise_and_add(local_value, base,
+                negate ? -digit.value() : digit.value());
 
             // If we didn't succeed, that means we overflowed
             if (!success)
             {
                 // skip to either end or next spot which isn't a number
                 // "ptr points at the first character not matching the pattern." [1]
-                while (++current != last && cbase_type::is_in_base(*current)) {}
+                while (++current != last && cbase_type::is_in_base(*current, base)) {}
 
 #ifdef FEATURE_CPP_INITIALIZER_LIST
                 return result_type{current, estd::errc::result_out_of_range};
@@ -69,36 +72,26 @@ detail::from_chars_result<CharIt> from_chars_integer(CharIt first, CharIt last,
 #endif
             }
         }
-        else if(current == first)
-        {
-            return result_type
-#ifdef FEATURE_CPP_INITIALIZER_LIST
-                {current, estd::errc::invalid_argument};
-#else
-            (current, estd::errc::invalid_argument);
-#endif
-        }
         else
-        {
-            value = local_value;
+            break;
+
+        ++current;
+    }
+
+    if(current == digits)
+    {
 #ifdef FEATURE_CPP_INITIALIZER_LIST
-            return result_type{current, estd::errc(0)};
+        return result_type{first, estd::errc::invalid_argument};
 #else
-            return result_type(current, estd::errc(0));
+        return result_type(first, estd::errc::invalid_argument);
 #endif
-        }
-        ++current;
     }
 
-    // prepend with constexpr so we can optimize out non-signed flavors
-    if (estd::is_signed<T>::value && negate)
-        local_value = -local_value;
-
     value = local_value;
 #ifdef FEATURE_CPP_INITIALIZER_LIST
-    return result_type{last,estd::errc(0)};
+    return result_type{current, estd::errc(0)};
 #else
-    return result_type(last,estd::errc(0));
+    return result_type(current, estd::errc(0));
 #endif
 }
 
diff --git a/src/estd/internal/raise_and_add.h b/src/estd/internal/raise_and_add.h
index f4fb526..87887ec 100644
--- a/src/estd/internal/raise_and_add.h
+++ b/src/estd/internal/raise_and_add.h
@@ -44,8 +44,8 @@ inline raise_and_sub(T& __val, const unsigned short __base, Subtrahend sub)
 #else
 // Overflow goes unnoticed.  If the __builtins aren't available, you may have to implement
 // a platform specific approach here
-template <typename T>
-inline bool raise_and_add(T& val, const unsigned short base, unsigned char c)
+template <typename T, typename Addend>
+inline bool raise_and_add(T& val, const unsigned short base, Addend c)
 {
     val *= base;
     val += c;
-- 
2.43.0


From 2cd942c5457b24b8a08ee996c385542118fd31df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:59 +0000
Subject: [PATCH 045/103] fix: num_get consumes overflowing digits and fails on
 missing ones

---
 src/estd/internal/locale/iterated/num_get.h | 16 +++++++++++++---
 src/estd/internal/locale/num_get.h          |  2 ++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/locale/iterated/num_get.h b/src/estd/internal/locale/iterated/num_get.h
index 34995e6..233be46 100644
--- a/src/estd/internal/locale/iterated/num_get.h
+++ b/src/estd/internal/locale/iterated/num_get.h
@@ -213,17 +213,19 @@ struct num_get
                 // to ensure this hyphen compare is proper
                 if (is_signed<T>() && c == ctype_type::widen('-'))
                 {
-                    state_.state_ = NominalNegative;
+                    state_.state_ = FirstNegative;
                     return false;
                 }
                 else
-                    state_.state_ = NominalPositive;
+                    state_.state_ = FirstPositive;
 
 #if __has_cpp_attribute(fallthrough)
                 [[fallthrough]];
 #endif
 
             case FirstPositive:
+                state_.state_ = NominalPositive;
+
                 if(nominal<true>(c, err, v))
                 {
                     // "if the conversion function fails std::ios_base::failbit is assigned to err" [1]
@@ -234,6 +236,8 @@ struct num_get
                     return false;
 
             case FirstNegative:
+                state_.state_ = NominalNegative;
+
                 if(nominal<false>(c, err, v))
                 {
                     // "if the conversion function fails std::ios_base::failbit is assigned to err" [1]
@@ -251,7 +255,7 @@ struct num_get
 
             case Overflow:
                 // Merely consumed numbers in this mode
-                return cbase_type::from_char(c).has_value();
+                return !cbase_type::from_char(c).has_value();
 
             // FIX: Just to satisfy compilation
             default:
@@ -270,6 +274,12 @@ struct num_get
         return true;
     }
 
+    /// @return true when not even one digit has been presented so far
+    bool blank() const
+    {
+        return state_.state_ == Start || state_.state_ == FirstNegative;
+    }
+
     // Just a bit of future proofing
     ESTD_CPP_CONSTEXPR_RET num_get(locale_type) {}
     ESTD_CPP_DEFAULT_CTOR(num_get)
diff --git a/src/estd/internal/locale/num_get.h b/src/estd/internal/locale/num_get.h
index 3282384..a6b362e 100644
--- a/src/estd/internal/locale/num_get.h
+++ b/src/estd/internal/locale/num_get.h
@@ -70,6 +70,8 @@ private:
             }
 
             err |= ios_base::eofbit;
+            // Ran out of input before any digit, which is a failed conversion too
+            if(n.blank()) err |= ios_base::failbit;
             n.finalize(v, is_integer());
             return i;
         }
-- 
2.43.0


From 1d6013fc8c5c85f89346570527da9495952fa16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:59 +0000
Subject: [PATCH 046/103] fix: ctype knows all lower case letters, also when
 upper case is asked for

---
 src/estd/internal/locale/ctype.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/locale/ctype.h b/src/estd/internal/locale/ctype.h
index ce77fad..bf2df2e 100644
--- a/src/estd/internal/locale/ctype.h
+++ b/src/estd/internal/locale/ctype.h
@@ -73,7 +73,7 @@ public:
 
     static bool islower(char ch)
     {
-        return 'a' <= ch && ch <= 'a';
+        return 'a' <= ch && ch <= 'z';
     }
 
     typedef char char_type;
@@ -103,7 +103,7 @@ public:
         {
             if(isupper(ch)) return true;
         }
-        else if(m & lower)
+        if(m & lower)
         {
             if(islower(ch)) return true;
         }
-- 
2.43.0


From e7c16be830a9a807d48284d0eb1e27d4d239e83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:52 +0000
Subject: [PATCH 047/103] fix: num_put without adjustment puts the number too

---
 src/estd/internal/locale/num_put.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/estd/internal/locale/num_put.h b/src/estd/internal/locale/num_put.h
index 37ecf0b..ad11df7 100644
--- a/src/estd/internal/locale/num_put.h
+++ b/src/estd/internal/locale/num_put.h
@@ -154,20 +154,16 @@ private:
             width -= result_width;
 
             const ios_base::fmtflags adj = str.flags() & ios_base::adjustfield;
-            if(adj == ios_base::right)
-            {
-                out = fill_n(out, width, fill);
-                return copy(result.ptr, buffer + N, out);
-            }
-            else if(adj == ios_base::left)
+            if(adj == ios_base::left)
             {
                 out = copy(result.ptr, buffer + N, out);
                 return fill_n(out, width, fill);
             }
             else
             {
-                // DEBT: 'internal' flavor, needs work
-                return out;
+                // DEBT: 'internal' flavor, needs work.  As with no flavor at all, it adjusts right
+                out = fill_n(out, width, fill);
+                return copy(result.ptr, buffer + N, out);
             }
         }
         else
-- 
2.43.0


From 12e7e8c24bd45e896e528ce7dd31a497fff4ee50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:47 +0000
Subject: [PATCH 048/103] fix: num_get ends a floating point number at a second
 decimal point

---
 src/estd/internal/locale/iterated/num_get.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/locale/iterated/num_get.h b/src/estd/internal/locale/iterated/num_get.h
index 233be46..59b5f69 100644
--- a/src/estd/internal/locale/iterated/num_get.h
+++ b/src/estd/internal/locale/iterated/num_get.h
@@ -147,7 +147,8 @@ struct num_get
             // TODO: Account for thousands separators
             // NOTE: Probably should use is_floating_point here instead, though so far
             // is_integer is in no danger of causing us grief
-            if(is_integer() == false && c == numpunct_type::decimal_point())
+            if(is_integer() == false && state_.decimal_place_ == 0 &&
+                c == numpunct_type::decimal_point())
             {
                 state_.decimal_place_ = 1;
                 return false;
-- 
2.43.0


From a8ec7d8bd538a0b496b511c33f95bcf3e71b74c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:05 +0000
Subject: [PATCH 049/103] fix: chooser ends at a character which starts none of
 the choices

---
 src/estd/internal/chooser.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/estd/internal/chooser.h b/src/estd/internal/chooser.h
index 043ed01..7737619 100644
--- a/src/estd/internal/chooser.h
+++ b/src/estd/internal/chooser.h
@@ -54,6 +54,9 @@ public:
                     break;
                 }
             }
+
+            // None of them starts with c, so there is nothing to go on with
+            if(chosen_ == -1) return true;
         }
         else
         {
-- 
2.43.0


From e270bec8afe49e7188eccc1733262a56a3589008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:33 +0000
Subject: [PATCH 050/103] fix: out_span_streambuf stays within its span

---
 src/estd/internal/impl/streambuf/span.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/span.h b/src/estd/internal/impl/streambuf/span.h
index 1eee046..7a7f319 100644
--- a/src/estd/internal/impl/streambuf/span.h
+++ b/src/estd/internal/impl/streambuf/span.h
@@ -73,12 +73,17 @@ struct out_span_streambuf :
     }
 
     char_type* pptr() const { return pbase() + base_out_type::pos(); }
-    char_type* epptr() const { return pbase() + out().size_bytes(); }
+    char_type* epptr() const { return pbase() + out().size(); }
 
     streamsize xsputn(const char_type* s, streamsize count)
     {
-        // TODO: do proper bounds checking here
-        memcpy(pptr(), s, count);
+        const size_type size = out().size();
+        const size_type avail = base_out_type::pos() < size ? size - base_out_type::pos() : 0;
+
+        if(count < 0) count = 0;
+        if((size_type)count > avail) count = avail;
+
+        memcpy(pptr(), s, count * sizeof(char_type));
         this->pbump(count);
         return count;
     }
@@ -86,7 +91,7 @@ struct out_span_streambuf :
     int_type sputc(char_type ch)
     {
         const pos_type& pos = base_out_type::pos();
-        if(pos >= out().size_bytes())
+        if(pos >= out().size())
             return base_out_type::overflow();
 
         *(pptr()) = ch;
@@ -115,7 +120,7 @@ protected:
 
             case ios_base::end:
                 // UNTESTED
-                base_out_type::seekpos(out().size_bytes() + off);
+                base_out_type::seekpos(out().size() + off);
                 break;
         }
 
-- 
2.43.0


From c47652cdfaa20f9e4170758efd769cf110cb14e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:35 +0000
Subject: [PATCH 051/103] fix: input position of span and string streambufs
 covers all of their content

---
 src/estd/internal/impl/streambuf/span.h   | 4 ++--
 src/estd/internal/impl/streambuf/string.h | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/span.h b/src/estd/internal/impl/streambuf/span.h
index 7a7f319..08198ff 100644
--- a/src/estd/internal/impl/streambuf/span.h
+++ b/src/estd/internal/impl/streambuf/span.h
@@ -144,13 +144,13 @@ template <class TChar,
         std::size_t Extent = detail::dynamic_extent::value,
         class TBase = estd::experimental::instance_provider<estd::span<TChar, Extent> > >
 struct in_span_streambuf :
-        in_pos_streambuf_base<TCharTraits>,
+        in_pos_streambuf_base<TCharTraits, typename TBase::value_type::size_type>,
 
         streambuf_gptr_tag,
 
         TBase
 {
-    typedef in_pos_streambuf_base<TCharTraits> base_pos_type;
+    typedef in_pos_streambuf_base<TCharTraits, typename TBase::value_type::size_type> base_pos_type;
     typedef TBase base_type;
 
     using typename base_pos_type::traits_type;
diff --git a/src/estd/internal/impl/streambuf/string.h b/src/estd/internal/impl/streambuf/string.h
index 64eef37..0eca5e6 100644
--- a/src/estd/internal/impl/streambuf/string.h
+++ b/src/estd/internal/impl/streambuf/string.h
@@ -73,13 +73,15 @@ struct out_stringbuf : stringbuf_base<String>
 template <class String>
 struct basic_stringbuf :
         out_stringbuf<String>,
-        in_pos_streambuf_base<typename remove_reference_t<String>::traits_type>,
+        in_pos_streambuf_base<typename remove_reference_t<String>::traits_type,
+            typename remove_reference_t<String>::size_type>,
 
         streambuf_sungetc_tag
 {
     typedef out_stringbuf<String> base_type;
     using char_traits = typename remove_reference_t<String>::traits_type;
-    typedef in_pos_streambuf_base<char_traits> in_base_type;
+    typedef in_pos_streambuf_base<char_traits,
+        typename remove_reference_t<String>::size_type> in_base_type;
     typedef typename base_type::traits_type traits_type;
     typedef typename base_type::char_type char_type;
     typedef typename traits_type::int_type int_type;
-- 
2.43.0


From bc88129a7c572f5930ff881971c8f8a9ccb01ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:38 +0000
Subject: [PATCH 052/103] fix: stringbuf seeking tells the resulting position

---
 src/estd/internal/impl/streambuf/string.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/string.h b/src/estd/internal/impl/streambuf/string.h
index 0eca5e6..8624114 100644
--- a/src/estd/internal/impl/streambuf/string.h
+++ b/src/estd/internal/impl/streambuf/string.h
@@ -130,25 +130,27 @@ struct basic_stringbuf :
     // UNTESTED
     pos_type seekoff(off_type off, ios_base::seekdir dir, ios_base::openmode which)
     {
+        if(!(which & ios_base::in)) return base_type::seekoff(off, dir, which);
+
         switch(dir)
         {
             case ios_base::beg:
-                if(which & ios_base::in)
-                    return in_base_type::seekpos(off);
+                in_base_type::seekpos(off);
                 break;
 
             case ios_base::cur:
-                if(which & ios_base::in)
-                    in_base_type::gbump(off);
+                in_base_type::gbump(off);
                 break;
 
             case ios_base::end:
-                if(which & ios_base::in)
-                    return in_base_type::seekpos(this->str().length() + off);
+                in_base_type::seekpos(this->str().length() + off);
                 break;
+
+            default:
+                return pos_type(off_type(-1));
         }
 
-        return pos_type(off_type(-1));
+        return pos_type(off_type(pos()));
     }
 
     int_type sungetc()
-- 
2.43.0


From fb5b6f59df01ae53e214ca8c1fd6b32910613b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:40 +0000
Subject: [PATCH 053/103] fix: buffered streambufs lose no characters

---
 src/estd/internal/impl/streambuf/bipbuf.h | 16 +++++++------
 src/estd/internal/impl/streambuf/buffer.h | 28 ++++++++++++++++-------
 src/estd/streambuf.h                      | 18 +++++++--------
 3 files changed, 37 insertions(+), 25 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/bipbuf.h b/src/estd/internal/impl/streambuf/bipbuf.h
index 7e0a557..315537e 100644
--- a/src/estd/internal/impl/streambuf/bipbuf.h
+++ b/src/estd/internal/impl/streambuf/bipbuf.h
@@ -79,7 +79,7 @@ public:
 
     int_type sputc(char_type ch)
     {
-        return overflow(ch);
+        return overflow(traits_type::to_int_type(ch));
     }
 
 protected:
@@ -113,10 +113,13 @@ protected:
             if(xout_avail() == 0) return traits_type::eof();
         }
 
-        *pptr() = traits_type::to_char_type(ch);
-        pbump(1);
+        if(ch != traits_type::eof())
+        {
+            *pptr() = traits_type::to_char_type(ch);
+            pbump(1);
+        }
 
-        return ch;
+        return traits_type::not_eof(ch);
     }
 
     estd::streamsize xsputn(const char_type* s, estd::streamsize count)
@@ -196,7 +199,7 @@ protected:
         streamsize copied = 0;
 
         // Only one region at a time is contiguous
-        while(copied < count && xin_avail() > 0)
+        while(copied < count && underflow() != traits_type::eof())
         {
             const streamsize avail = egptr() - gptr();
             const streamsize sz = count - copied < avail ? count - copied : avail;
@@ -219,8 +222,7 @@ protected:
             if(sync() == -1)    return -1;
         }
 
-        // DEBT: Wrap with traits
-        return xsgetc();
+        return traits_type::to_int_type(xsgetc());
     }
 
     int_type uflow()
diff --git a/src/estd/internal/impl/streambuf/buffer.h b/src/estd/internal/impl/streambuf/buffer.h
index d88b72e..da997d0 100644
--- a/src/estd/internal/impl/streambuf/buffer.h
+++ b/src/estd/internal/impl/streambuf/buffer.h
@@ -44,10 +44,19 @@ class out_buffered_stringbuf : public wrapped_streambuf_base<Streambuf>
         // DEBT: We can expect potential spinlock type behavior,
         // which may be needed due to the simplicity of string buffering
         // (may need a queue or bipbuffer to really overcome that)
-        base_type::rdbuf().sputn(buf_.data(), buf_.size());
-        buf_.clear();
-        // DEBT: Need to heed output of sputn to truly indicate status
-        return 0;
+        const estd::streamsize size = buf_.size();
+        const estd::streamsize written = base_type::rdbuf().sputn(buf_.data(), size);
+
+        if(written == size)
+        {
+            buf_.clear();
+            return 0;
+        }
+
+        // Hold on to what has not been taken yet
+        if(written > 0) buf_.erase(0, written);
+
+        return -1;
     }
 
 public:
@@ -67,10 +76,11 @@ protected:
     {
         if(full())
         {
-            if(ll_sync() != 0)  return traits_type::eof();
+            ll_sync();
+            if(full())  return traits_type::eof();
         }
 
-        if(traits_type::not_eof(ch))
+        if(ch != traits_type::eof())
         {
             buf_ += traits_type::to_char_type(ch);
         }
@@ -84,7 +94,9 @@ protected:
     {
         const estd::streamsize maximum = remaining();
 
-        buf_.append(s, count > maximum ? maximum : count);
+        if(count > maximum) count = maximum;
+
+        buf_.append(s, count);
 
         // wrapper sputn handles this via 'overflow' - a little clumsy though
         //if(full())
@@ -102,7 +114,7 @@ public:
 
     int_type sputc(char_type ch)
     {
-        return overflow(ch);
+        return overflow(traits_type::to_int_type(ch));
     }
 };
 
diff --git a/src/estd/streambuf.h b/src/estd/streambuf.h
index 1ef327d..ebbc5e9 100644
--- a/src/estd/streambuf.h
+++ b/src/estd/streambuf.h
@@ -131,19 +131,17 @@ public:
 
         // TODO: Consider a non-function-present flavor of optimizing to know if
         // overflow is even implemented so as to optimize this portion
-        if(written < count)
+        while(written < count)
         {
-            s += written;
+            if(this->overflow(traits_type::to_int_type(s[written])) == traits_type::eof())
+                break;
 
-            if(this->overflow(*s) != traits_type::eof())
-            {
-                // getting here means one more character was placed into put area
-                count -= ++written;
+            // getting here means one more character was placed into put area
+            ++written;
 
-                // a successful overflow indicates more put area
-                // is available, so give it a shot
-                written += this->xsputn(s + 1, count);
-            }
+            // a successful overflow indicates more put area
+            // is available, so give it a shot
+            written += this->xsputn(s + written, count - written);
         }
 
         return written;
-- 
2.43.0


From fa2f90c951f9b4b1f463d556d403ec953f25ef47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:43 +0000
Subject: [PATCH 054/103] fix: basic_streambuf_wrapped passes its characters on

---
 src/estd/internal/impl/streambuf.h | 2 +-
 src/estd/internal/streambuf.h      | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/estd/internal/impl/streambuf.h b/src/estd/internal/impl/streambuf.h
index 30662a2..923ca1f 100644
--- a/src/estd/internal/impl/streambuf.h
+++ b/src/estd/internal/impl/streambuf.h
@@ -76,7 +76,7 @@ protected:
 
 public:
     // DEBT: Not well thought out, just getting things compiling
-    int_type sputc(char_type ch) { return overflow(ch); }
+    int_type sputc(char_type ch) { return overflow(traits_type::to_int_type(ch)); }
 };
 
 }}}
diff --git a/src/estd/internal/streambuf.h b/src/estd/internal/streambuf.h
index 1fb28c5..6b2eb52 100644
--- a/src/estd/internal/streambuf.h
+++ b/src/estd/internal/streambuf.h
@@ -35,12 +35,12 @@ protected:
 
     virtual streamsize xsgetn(char_type* s, streamsize count) OVERRIDE
     {
-        return _rdbuf.xsgetn(s, count);
+        return _rdbuf.sgetn(s, count);
     }
 
     virtual streamsize xsputn(const char_type* s, streamsize count) OVERRIDE
     {
-        return _rdbuf.xsputn(s, count);
+        return _rdbuf.sputn(s, count);
     }
 
     virtual int sync() OVERRIDE
@@ -50,7 +50,9 @@ protected:
 
     virtual int_type overflow(int_type ch = traits_type::eof()) OVERRIDE
     {
-        return _rdbuf.overflow();
+        if(ch == traits_type::eof()) return _rdbuf.overflow();
+
+        return _rdbuf.sputc(traits_type::to_char_type(ch));
     }
 
 public:
-- 
2.43.0


From bfd72ccf8480b680ad9736011108bd0b4c014502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:54 +0000
Subject: [PATCH 055/103] fix: span of const char reads character 255 as such

---
 src/estd/internal/impl/streambuf/span.h | 2 +-
 src/estd/istream.h                      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/span.h b/src/estd/internal/impl/streambuf/span.h
index 08198ff..b45f583 100644
--- a/src/estd/internal/impl/streambuf/span.h
+++ b/src/estd/internal/impl/streambuf/span.h
@@ -140,7 +140,7 @@ public:
 // be implemented in a derived class
 // DEBT: Refactor this to take CharTraits directly
 template <class TChar,
-        class TCharTraits =  estd::char_traits<TChar>,
+        class TCharTraits =  estd::char_traits<typename remove_const<TChar>::type>,
         std::size_t Extent = detail::dynamic_extent::value,
         class TBase = estd::experimental::instance_provider<estd::span<TChar, Extent> > >
 struct in_span_streambuf :
diff --git a/src/estd/istream.h b/src/estd/istream.h
index 007f613..328df8d 100644
--- a/src/estd/istream.h
+++ b/src/estd/istream.h
@@ -170,7 +170,7 @@ detail::basic_istream<Streambuf, Base>& operator >>(
 // live in estd itself rather than estd::detail
 namespace detail {
 
-template <class Char, class CharTraits = estd::char_traits<Char>>
+template <class Char, class CharTraits = estd::char_traits<typename remove_const<Char>::type>>
 using basic_ispanbuf = estd::internal::streambuf<estd::internal::impl::in_span_streambuf<Char, CharTraits> >;
 
 using ispanbuf = basic_ispanbuf<char>;
-- 
2.43.0


From d918aa44f67af0def7809d8f853b9b1b03d81cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:30 +0000
Subject: [PATCH 056/103] fix: string element comparison can be used at run
 time in C++20

---
 src/estd/internal/container/traditional_accessor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/container/traditional_accessor.h b/src/estd/internal/container/traditional_accessor.h
index 05f7fbc..ad27592 100644
--- a/src/estd/internal/container/traditional_accessor.h
+++ b/src/estd/internal/container/traditional_accessor.h
@@ -41,7 +41,7 @@ public:
 
     ESTD_CPP_CONSTEXPR(17) reference lock() { return *p; }
     constexpr const_reference lock() const { return *p; }
-    static ESTD_CPP_CONSTEVAL void unlock() {}
+    static ESTD_CPP_CONSTEXPR(14) void unlock() {}
 };
 
 }
-- 
2.43.0


From bcba5f4be6ffbbc5efd9c3749d436e34599a0b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:41 +0000
Subject: [PATCH 057/103] fix: fill characters from '@' on are kept

---
 src/estd/internal/ios_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/ios_base.h b/src/estd/internal/ios_base.h
index c670124..b960a2f 100644
--- a/src/estd/internal/ios_base.h
+++ b/src/estd/internal/ios_base.h
@@ -225,7 +225,7 @@ protected:
         positioning alignment : 2;  // DEBT: Unused
 
         // DEBT: Presumes ASCII, 7-bit.  Unicode and friends are out
-        char fillchar : 6;          // + 32 (from ' ' to '`' ASCII)
+        unsigned char fillchar : 6; // + 32 (from ' ' to '`' ASCII)
         //bool showbase : 1;          // DEBT: Unused
 
         ESTD_CPP_CONSTEXPR_RET ostream_internal() :
-- 
2.43.0


From 30e71369bc9da2f89242151a0ce5f3a368411afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:41 +0000
Subject: [PATCH 058/103] fix: ostream seekp returns its stream

---
 src/estd/internal/ostream.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/estd/internal/ostream.h b/src/estd/internal/ostream.h
index fd064cc..7ab3fd4 100644
--- a/src/estd/internal/ostream.h
+++ b/src/estd/internal/ostream.h
@@ -156,6 +156,7 @@ public:
     __ostream_type& seekp(off_type off, ios_base::seekdir dir)
     {
         this->rdbuf()->pubseekoff(off, dir, ios_base::out);
+        return *this;
     }
 
     // When the time comes, these will replace the old virtual ones
-- 
2.43.0


From 8725b3c87a08d3d6d40e19f1fd035b007aadaeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:41 +0000
Subject: [PATCH 059/103] fix: a character which cannot be put makes the stream
 fail

---
 src/estd/internal/ostream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/ostream.h b/src/estd/internal/ostream.h
index 7ab3fd4..dde59b7 100644
--- a/src/estd/internal/ostream.h
+++ b/src/estd/internal/ostream.h
@@ -171,7 +171,7 @@ public:
     __ostream_type& put(char_type ch, bool bypass_sentry = false)
     {
         if (this->rdbuf()->sputc(ch) == estd::char_traits<char_type>::eof())
-            this->setstate(base_type::eofbit);
+            this->setstate(base_type::badbit);
 
         if (!bypass_sentry)
             sentry::destroy(*this);
-- 
2.43.0


From 5bf7b06469eefde1420c412f3e842c7b943c4a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:41 +0000
Subject: [PATCH 060/103] fix: inserted characters are padded on the side asked
 for, numbers also without an adjustment

---
 src/estd/internal/ostream/integer.h |  3 ++-
 src/estd/ostream.h                  | 10 +++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/ostream/integer.h b/src/estd/internal/ostream/integer.h
index 1316b71..fad360c 100644
--- a/src/estd/internal/ostream/integer.h
+++ b/src/estd/internal/ostream/integer.h
@@ -17,7 +17,8 @@ void write_filled_buffer(
     const streamsize pad = out.width();
     out.width(0);
 
-    if(out.flags() & ios_base::right)   out.fill_n(pad - sz);
+    // No adjustment at all is the same as right
+    if(!(out.flags() & ios_base::left)) out.fill_n(pad - sz);
 #endif
 
     out.write(buffer, sz);
diff --git a/src/estd/ostream.h b/src/estd/ostream.h
index 4f23357..14bd375 100644
--- a/src/estd/ostream.h
+++ b/src/estd/ostream.h
@@ -71,8 +71,16 @@ inline basic_ostream<TStreambuf, TBase>& operator <<(basic_ostream<TStreambuf, T
 #if FEATURE_ESTD_OSTREAM_SETW
     const streamsize pad = out.width();
 
-    out.fill_n(pad - 1);
     out.width(0);
+
+    if(out.flags() & ios_base::left)
+    {
+        out.put(ch);
+        out.fill_n(pad - 1);
+        return out;
+    }
+
+    out.fill_n(pad - 1);
 #endif
 
     return out.put(ch);
-- 
2.43.0


From 26259d5366570181a8a07b652c32f73c1e78eb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:41 +0000
Subject: [PATCH 061/103] fix: character 0 can be extracted

---
 src/estd/istream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/istream.h b/src/estd/istream.h
index 328df8d..28ee5b6 100644
--- a/src/estd/istream.h
+++ b/src/estd/istream.h
@@ -161,7 +161,7 @@ detail::basic_istream<Streambuf, Base>& operator >>(
 
     const typename traits::int_type c = in.get();
 
-    if(traits::not_eof(c))  value = traits::to_char_type(c);
+    if(c != traits::eof())  value = traits::to_char_type(c);
 
     return in;
 }
-- 
2.43.0


From eaa14d6b5cee358b45020be96173c15c22ff8cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:50 +0000
Subject: [PATCH 062/103] fix: istream getline, read, readsome and ignore stay
 within their bounds and tell what they extracted

---
 src/estd/internal/istream.h | 75 +++++++++++++++++++++++++++----------
 1 file changed, 56 insertions(+), 19 deletions(-)

diff --git a/src/estd/internal/istream.h b/src/estd/internal/istream.h
index c8d2b42..e07126d 100644
--- a/src/estd/internal/istream.h
+++ b/src/estd/internal/istream.h
@@ -98,10 +98,11 @@ public:
 public:
     int_type get()
     {
+        int_type c = this->rdbuf()->sbumpc();
+
 #if FEATURE_ESTD_IOS_GCOUNT
-        ++_gcount;
+        _gcount = c == traits_type::eof() ? 0 : 1;
 #endif
-        int_type c = this->rdbuf()->sbumpc();
 
         if(c == traits_type::eof())
         {
@@ -140,7 +141,19 @@ public:
         // if count > number of available bytes
         // then read only available bytes
         // otherwise read all of count
-        streamsize m = estd::min(count, rdbuf.in_avail());
+        const streamsize avail = rdbuf.in_avail();
+
+        // in_avail of -1 tells that there won't be any more characters
+        if (avail < 0)
+        {
+#if FEATURE_ESTD_IOS_GCOUNT
+            _gcount = 0;
+#endif
+            this->setstate(ios_base::eofbit);
+            return 0;
+        }
+
+        streamsize m = estd::min(count, avail);
 
 #if FEATURE_ESTD_IOS_GCOUNT
         _gcount = m;
@@ -153,12 +166,13 @@ public:
         // TODO: optimization point.  We want to do something
         // so that we don't inline this (and other read/write operations like it)
         // all over the place
-        if (this->rdbuf()->sgetn(s, n) != n)
-            // TODO: Consider setting _gcount here to what *was* returned
-            this->setstate(base_type::eofbit);
+        const streamsize actual = this->rdbuf()->sgetn(s, n);
+
+        if (actual != n)
+            this->setstate(base_type::failbit | base_type::eofbit);
 
 #if FEATURE_ESTD_IOS_GCOUNT
-        _gcount = n;
+        _gcount = actual;
 #endif
 
         return *this;
@@ -173,29 +187,43 @@ public:
         _gcount = 0;
 #endif
 
+        // "if the function extracts no characters, failbit is set"
+        ios_base::iostate err = base_type::failbit;
+
         for (;;)
         {
-            int_type c = stream->sbumpc();
+            const int_type c = stream->sgetc();
 
-            if (traits_type::eq(c, traits_type::eof()))
+            if (c == traits_type::eof())
             {
-                this->setstate(base_type::eofbit);
+                err |= base_type::eofbit;
                 break;
             }
 
-            if (!count-- || traits_type::eq(c, delim))
+            const bool at_delim = traits_type::eq(traits_type::to_char_type(c), delim);
+
+            // Only room for null terminator remains and line isn't over
+            if (!at_delim && count <= 1)
             {
-                this->setstate(base_type::failbit);
+                err |= base_type::failbit;
                 break;
             }
 
-            *s++ = c;
+            stream->sbumpc();
+            err &= ~base_type::failbit;
 #if FEATURE_ESTD_IOS_GCOUNT
             _gcount++;
 #endif
+
+            if (at_delim) break;
+
+            *s++ = traits_type::to_char_type(c);
+            --count;
         }
 
-        *s = 0;
+        if (err) this->setstate(err);
+
+        if (count > 0) *s = 0;
 
         return *this;
     }
@@ -253,9 +281,13 @@ public:
     // delim test is disabled if delim is default value, which would be EOF
     basic_istream& ignore(streamsize count = 1)
     {
-        while (count--)
+#if FEATURE_ESTD_IOS_GCOUNT
+        _gcount = 0;
+#endif
+
+        while (count-- > 0)
         {
-            int_type ch = get();
+            int_type ch = this->rdbuf()->sbumpc();
 
             if (ch == traits_type::eof())
             {
@@ -276,20 +308,25 @@ public:
         // "This [delimiter] test is disabled if delim is Traits::eof()"
         if (delim == traits_type::eof()) return ignore(count);
 
-        while (count--)
+#if FEATURE_ESTD_IOS_GCOUNT
+        _gcount = 0;
+#endif
+
+        while (count-- > 0)
         {
-            int_type ch = get();
+            int_type ch = this->rdbuf()->sbumpc();
 
             if (ch == traits_type::eof())
             {
                 this->setstate(ios_base::eofbit);
                 break;
             }
-            else if (ch == delim) break;
 
 #if FEATURE_ESTD_IOS_GCOUNT
             _gcount++;
 #endif
+
+            if (ch == delim) break;
         }
         return *this;
     }
-- 
2.43.0


From fb4185427b4d494c607efe3c2b8071eaaa314441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:56 +0000
Subject: [PATCH 063/103] fix: extracting a number from an exhausted stream
 reaches the end

---
 src/estd/internal/istreambuf_iterator.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/istreambuf_iterator.h b/src/estd/internal/istreambuf_iterator.h
index 81f5065..2835250 100644
--- a/src/estd/internal/istreambuf_iterator.h
+++ b/src/estd/internal/istreambuf_iterator.h
@@ -56,6 +56,13 @@ private:
         return false;
     }
 
+    // a streambuf which has reached its end has nothing to iterate over
+    static streambuf_type* init(streambuf_type* s)
+    {
+        return s != NULLPTR && s->sgetc() == traits_type::eof() && s->in_avail() == -1 ?
+            NULLPTR : s;
+    }
+
 public:
 #ifdef FEATURE_CPP_CONSTEXPR
     constexpr
@@ -65,18 +72,18 @@ public:
     {
     }
 
-    istreambuf_iterator(streambuf_type& s) : rdbuf_(&s)
+    istreambuf_iterator(streambuf_type& s) : rdbuf_(init(&s))
     {
     }
 
     template <class TIstreamBase>
     istreambuf_iterator(estd::detail::basic_istream<TStreambuf, TIstreamBase>& is) :
-        rdbuf_(is.rdbuf())
+        rdbuf_(init(is.rdbuf()))
     {
     }
 
     istreambuf_iterator(streambuf_type* s) :
-        rdbuf_(s)
+        rdbuf_(init(s))
     {
     }
 
-- 
2.43.0


From 1f819a2f8c61a18cc3cd59c2781b77d8d1b85a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:29 +0000
Subject: [PATCH 064/103] fix: year_month_day_last::day can be used and
 September has 30 days

---
 src/estd/internal/chrono/formatter.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/estd/internal/chrono/formatter.hpp b/src/estd/internal/chrono/formatter.hpp
index 8cc5f08..5f45d15 100644
--- a/src/estd/internal/chrono/formatter.hpp
+++ b/src/estd/internal/chrono/formatter.hpp
@@ -91,13 +91,14 @@ public:
     {
         switch(month_.value())
         {
-            case 2: return year_.is_leap() ? day(29) : day(28);
+            case 2: return year_.is_leap() ? chrono::day(29) : chrono::day(28);
 
-            case 4: return day(30);
-            case 6: return day(30);
-            case 11: return day(30);
+            case 4: return chrono::day(30);
+            case 6: return chrono::day(30);
+            case 9: return chrono::day(30);
+            case 11: return chrono::day(30);
 
-            default:    return day(31);
+            default:    return chrono::day(31);
         }
     }
 
-- 
2.43.0


From 2e4df8182230afc9c760ea88f5bdcaf3069887c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:31 +0000
Subject: [PATCH 065/103] fix: years divisible by 4 are leap years

---
 src/estd/internal/chrono/units.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/chrono/units.hpp b/src/estd/internal/chrono/units.hpp
index 4ca044b..b5e539c 100644
--- a/src/estd/internal/chrono/units.hpp
+++ b/src/estd/internal/chrono/units.hpp
@@ -76,7 +76,10 @@ public:
     static constexpr year min() NOEXCEPT { return year(-32767); }
     static constexpr year max() NOEXCEPT { return year(32767); }
 
-    constexpr bool is_leap() const NOEXCEPT { return value_ % 400 == 0; }
+    constexpr bool is_leap() const NOEXCEPT 
+    {
+        return value_ % 4 == 0 && (value_ % 100 != 0 || value_ % 400 == 0);
+    }
 
     // upper end of 16-bit value can never be out of range
     constexpr bool ok() const NOEXCEPT { return *this >= min(); }
-- 
2.43.0


From ecd0e94b8af37717d2ac7cbbe0f2f80d69725093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:33 +0000
Subject: [PATCH 066/103] fix: seconds of hh_mm_ss are right from 256 minutes
 on

---
 src/estd/internal/chrono/formatter.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/chrono/formatter.hpp b/src/estd/internal/chrono/formatter.hpp
index 5f45d15..a3ae890 100644
--- a/src/estd/internal/chrono/formatter.hpp
+++ b/src/estd/internal/chrono/formatter.hpp
@@ -184,7 +184,8 @@ public:
     inline seconds_type seconds() const NOEXCEPT
     {
         duration_type a = _abs();
-        auto v = a - minutes_type{a};
+        // minutes_type is only wide enough for the minutes of one hour
+        auto v = a - duration<rep, chrono::minutes::period>{a};
         return seconds_type{v};
     }
 
-- 
2.43.0


From 1dd7da5e10b678ee280b609fb3b2f46948301e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:35 +0000
Subject: [PATCH 067/103] fix: year_month_day yields the Gregorian date

---
 src/estd/internal/chrono/formatter.hpp | 37 +++++++++++++++++++-------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/estd/internal/chrono/formatter.hpp b/src/estd/internal/chrono/formatter.hpp
index a3ae890..2a6da59 100644
--- a/src/estd/internal/chrono/formatter.hpp
+++ b/src/estd/internal/chrono/formatter.hpp
@@ -26,28 +26,47 @@ class year_month_day
 
     sys_days days_;
 
+    // Gregorian date. Years are counted from March on, so that the leap day
+    // is the last of its year
+    struct civil
+    {
+        int32_t y;
+        uint8_t m, d;
+
+        explicit civil(int32_t days)
+        {
+            const int32_t z = days + 719468;    // since March 1st of year 0
+            const int32_t era = (z >= 0 ? z : z - 146096) / 146097;
+            const int32_t doe = z - era * 146097;
+            const int32_t yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
+            const int32_t doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
+            const int32_t mp = (5 * doy + 2) / 153;
+
+            d = doy - (153 * mp + 2) / 5 + 1;
+            m = mp < 10 ? mp + 3 : mp - 9;
+            y = yoe + era * 400 + (m <= 2 ? 1 : 0);
+        }
+    };
+
+    civil date() const { return civil(days_.time_since_epoch().count()); }
+
 public:
     chrono::day days() const NOEXCEPT
     {
-        chrono::months m = days_.time_since_epoch();
-        chrono::days d = days_.time_since_epoch() - m;
-        return clock_traits::adjust_epoch(chrono::day(d.count() + 1));
+        return clock_traits::adjust_epoch(chrono::day(date().d));
     }
 
     //constexpr
     chrono::month month() const NOEXCEPT
     {
-        chrono::years y = days_.time_since_epoch();
-        chrono::days d{y};
-        chrono::months m = days_.time_since_epoch() - d;
-        return clock_traits::adjust_epoch(chrono::month(m.count() + 1));
+        return clock_traits::adjust_epoch(chrono::month(date().m));
     }
 
     //constexpr
     chrono::year year() const NOEXCEPT
     {
-        chrono::years y = days_.time_since_epoch();
-        return clock_traits::adjust_epoch(chrono::year(y.count()));
+        // adjust_epoch adds year of epoch back in
+        return clock_traits::adjust_epoch(chrono::year(date().y - 1970));
     }
 
     constexpr year_month_day(const sys_days& dp) NOEXCEPT :
-- 
2.43.0


From 9bc427025b596e5a1b9c3cc5eaeb59edc0e1b2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:37 +0000
Subject: [PATCH 068/103] fix: units between -1 and 0 keep their sign when put

---
 src/estd/internal/units/ostream.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/estd/internal/units/ostream.h b/src/estd/internal/units/ostream.h
index 2fdf30e..09fb906 100644
--- a/src/estd/internal/units/ostream.h
+++ b/src/estd/internal/units/ostream.h
@@ -17,8 +17,13 @@ estd::detail::basic_ostream<TStreambuf, TBase>& operator <<(
     auto v_ = (int64_t)v;
     auto v_dec = (int64_t)(v * 100) % 100;
 
+    // v_ carries no sign if there are only decimals
+    const bool minus = v_ == 0 && v_dec < 0;
+
     if(v_dec < 0)   v_dec = -v_dec;
 
+    if(minus)   out << '-';
+
     // DEBT: I think ostream is supposed to auto reset to dec, but isn't
     out << estd::dec << v_;
     out << '.';
-- 
2.43.0


From a6da34867c2472a21f661c2c8b4ca76ca4f9c215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:40 +0000
Subject: [PATCH 069/103] fix: conversion to a projected unit of the same
 period reverses its projection

---
 src/estd/internal/units/base.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/units/base.h b/src/estd/internal/units/base.h
index 7f03925..3a7ed3b 100644
--- a/src/estd/internal/units/base.h
+++ b/src/estd/internal/units/base.h
@@ -169,6 +169,16 @@ public:
         return convert_from<decltype(v.count()), Period2>(v.count());
     }
 
+    // A passthrough keeps its type, so that narrowing doesn't go unnoticed
+    template <class Rep2, class Rep3>
+    static constexpr Rep2 unproject(const Rep2& count, passthrough<Rep3>) { return count; }
+
+    template <class Rep2, class F2>
+    static constexpr typename F2::reversal::value_type unproject(const Rep2& count, F2)
+    {
+        return typename F2::reversal{}(count);
+    }
+
 protected:
     constexpr unit_base() = default;
 
@@ -183,7 +193,7 @@ public:
     // Converting only precision or F modified
     template <class Rep2, ESTD_CPP_CONCEPT(Adder<Rep2>) F2>
     constexpr unit_base(const unit_base<Rep2, Period, Tag, F2>& s) :    // NOLINT
-        rep_{s.count()}
+        rep_{unproject(s.count(), F{})}
     {
     }
 
-- 
2.43.0


From 103ae7fda821885ea31ff9155a024b09ac9e4194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:50 +0000
Subject: [PATCH 070/103] fix: subspan without a count ends where the span does

---
 src/estd/span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/span.h b/src/estd/span.h
index 83fe184..697de4f 100644
--- a/src/estd/span.h
+++ b/src/estd/span.h
@@ -200,7 +200,7 @@ public:
 
     span<element_type> subspan(size_type offset, size_type count = detail::dynamic_extent())
     {
-        if(count == detail::dynamic_extent::value) count = base_type::size();
+        if(count == detail::dynamic_extent::value) count = base_type::size() - offset;
 
         pointer data = base_type::data();
 
-- 
2.43.0


From 7bdbc0a64ea0cb6d6455f4f08e86656f1d441ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:50 +0000
Subject: [PATCH 071/103] fix: array back is its last element

---
 src/estd/internal/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/array.h b/src/estd/internal/array.h
index ac95c54..fe3967f 100644
--- a/src/estd/internal/array.h
+++ b/src/estd/internal/array.h
@@ -151,8 +151,8 @@ struct array : Impl
     reference front() { return *begin(); }
     constexpr const_reference front() const { return *begin(); }
 
-    reference back() { return *base_type::end(); }
-    constexpr const_reference back() const { return *base_type::end(); }
+    reference back() { return *(end() - 1); }
+    constexpr const_reference back() const { return *(end() - 1); }
 
     reference operator[](size_type pos) { return *base_type::get_at(pos); }
     constexpr const_reference operator[](size_type pos) const
-- 
2.43.0


From c2926aa02165effb8ac918f5e6d23545fe6586f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:50 +0000
Subject: [PATCH 072/103] fix: span first of a fixed count compiles

---
 src/estd/span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/span.h b/src/estd/span.h
index 697de4f..a0ee13b 100644
--- a/src/estd/span.h
+++ b/src/estd/span.h
@@ -43,7 +43,7 @@ public:
     template <estd::size_t count>
     constexpr span<T, count> first() const
     {
-        return data_;
+        return span<T, count>(data_);
     }
 
     constexpr span<T> first(size_type count) const
-- 
2.43.0


From f5fbe4353333d53162d8c167bdca9735180c11b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:11 +0000
Subject: [PATCH 073/103] fix: arrays compare in C++20 too

---
 src/estd/internal/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/array.h b/src/estd/internal/array.h
index fe3967f..f0c909d 100644
--- a/src/estd/internal/array.h
+++ b/src/estd/internal/array.h
@@ -111,13 +111,13 @@ protected:
 template <class Impl1, class Impl2>
 constexpr bool operator==(const array<Impl1>& lhs, const array<Impl2>& rhs)
 {
-    return lhs.size() == rhs.size() ? equal(lhs.begin(), lhs.end(), rhs.begin()) : false;
+    return Impl1::size() == Impl2::size() ? equal(lhs.begin(), lhs.end(), rhs.begin()) : false;
 }
 
 template <class Impl1, class Impl2>
 constexpr bool operator!=(const array<Impl1>& lhs, const array<Impl2>& rhs)
 {
-    return lhs.size() == rhs.size() ? !equal(lhs.begin(), lhs.end(), rhs.begin()) : true;
+    return Impl1::size() == Impl2::size() ? !equal(lhs.begin(), lhs.end(), rhs.begin()) : true;
 }
 
 
-- 
2.43.0


From 49b79ada83985a6ef3a7a7c05e08cbb41992274d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:54 +0000
Subject: [PATCH 074/103] fix: swapping an integer with itself keeps it

---
 src/estd/utility.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/estd/utility.h b/src/estd/utility.h
index 18090e2..15b5268 100644
--- a/src/estd/utility.h
+++ b/src/estd/utility.h
@@ -195,6 +195,9 @@ namespace internal {
 template <class T>
 inline void xor_swap(T& a, T& b)
 {
+    // a ^ a is 0
+    if(&a == &b) return;
+
     a ^= b;
     b ^= a;
     a ^= b;
-- 
2.43.0


From e1898e18b0aedb3aa49d739088da2e7db0959a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:54 +0000
Subject: [PATCH 075/103] fix: swap moves

---
 src/estd/utility.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/estd/utility.h b/src/estd/utility.h
index 15b5268..0587db2 100644
--- a/src/estd/utility.h
+++ b/src/estd/utility.h
@@ -182,12 +182,10 @@ T exchange(T& obj, U&& new_value)
 template <class T>
 ESTD_CPP_CONSTEXPR(14) void swap(T& a, T& b)
 {
-    // NOTE: perhaps we should use move/forward here...?  so that
-    // objects with underlying self-referencing pointers can be managed?
-    const T temp = a;
+    T temp(std::move(a));
 
-    a = b;
-    b = temp;
+    a = std::move(b);
+    b = std::move(temp);
 }
 
 namespace internal {
-- 
2.43.0


From 667b2677fa34b3b6e88dd933b54a616272f7eea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:54 +0000
Subject: [PATCH 076/103] fix: pairs move what can be moved

---
 src/estd/utility.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/estd/utility.h b/src/estd/utility.h
index 0587db2..9c8f633 100644
--- a/src/estd/utility.h
+++ b/src/estd/utility.h
@@ -39,7 +39,8 @@ struct pair
         first(first), second(second) {}
 
     template <class U1, class U2>
-    constexpr pair(U1&& first, U2&& second) : first(first), second(second) {}
+    constexpr pair(U1&& first, U2&& second) :
+        first(std::forward<U1>(first)), second(std::forward<U2>(second)) {}
 
 #if FEATURE_ESTD_CPP03_TUPLE == 0
     template <class ...Args1, class ...Args2>
@@ -54,6 +55,7 @@ struct pair
 #endif
 
     pair& operator=(const pair& other) = default;
+    pair& operator=(pair&& other) = default;
 
     ESTD_CPP_CONSTEXPR(14) void swap(pair& other)
     {
@@ -71,7 +73,7 @@ ESTD_CPP_CONSTEXPR(14) void swap(pair<T1, T2>& x, pair<T1, T2>& y)
 template <class T1, class T2>
 ESTD_CPP_CONSTEXPR(11) pair<T1, T2> make_pair(T1 t, T2 u)
 {
-    return pair<T1, T2> { t, u };
+    return pair<T1, T2> { std::move(t), std::move(u) };
 }
 
 
-- 
2.43.0


From 156ff507e98ce1f152f56d9eac2804a0569ffc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:54 +0000
Subject: [PATCH 077/103] fix: cref compiles

---
 src/estd/functional.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/functional.h b/src/estd/functional.h
index dc23f7e..2c265f8 100644
--- a/src/estd/functional.h
+++ b/src/estd/functional.h
@@ -82,9 +82,9 @@ reference_wrapper<T> ref(T& t) NOEXCEPT
 }
 
 template <class T>
-reference_wrapper<T> cref(const T& t) NOEXCEPT
+reference_wrapper<const T> cref(const T& t) NOEXCEPT
 {
-    return reference_wrapper<T>(t);
+    return reference_wrapper<const T>(t);
 }
 
 #if defined (FEATURE_CPP_VARIADIC) && defined (FEATURE_CPP_MOVESEMANTIC)
-- 
2.43.0


From 86c232f7ec0afba1b0b5cdced44934c8bc081409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:20 +0000
Subject: [PATCH 078/103] fix: get by type of a temporary tuple compiles

---
 src/estd/internal/tuple/get.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/tuple/get.h b/src/estd/internal/tuple/get.h
index f9b017c..2691c7b 100644
--- a/src/estd/internal/tuple/get.h
+++ b/src/estd/internal/tuple/get.h
@@ -95,7 +95,7 @@ ESTD_CPP_CONSTEXPR(14) T& get(internal::tuple<sparse, Types...>& t)
 template <class T, bool sparse, typename... Types>
 ESTD_CPP_CONSTEXPR(14) T&& get(internal::tuple<sparse, Types...>&& t)
 {
-    return get<internal::single_index_of_type<T, Types...>::index>(t);
+    return get<internal::single_index_of_type<T, Types...>::index>(std::move(t));
 }
 
 template <class T, bool sparse, typename... Types>
-- 
2.43.0


From 478e5621ea1437310d09dfbacb4306e3252d2103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:40 +0000
Subject: [PATCH 079/103] fix: apply takes constant tuples

---
 src/estd/internal/tuple/apply.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/tuple/apply.h b/src/estd/internal/tuple/apply.h
index f7e90b0..68c101a 100644
--- a/src/estd/internal/tuple/apply.h
+++ b/src/estd/internal/tuple/apply.h
@@ -19,7 +19,7 @@ decltype (f(get<Is>(std::forward<Tuple>(t))...))
 
 template <class F, class Tuple, class Seq = make_index_sequence<
     tuple_size<
-        remove_reference_t<Tuple>
+        remove_cv_t<remove_reference_t<Tuple>>
     >::value> >
 constexpr auto apply(F&& f, Tuple&& t) ->
 decltype (internal::apply_impl(std::forward<F>(f),
-- 
2.43.0


From 12ee9069884d5fdd4ff9471c764555c05475faa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:40 +0000
Subject: [PATCH 080/103] fix: assignment of back_insert_iterator returns it

---
 src/estd/internal/iterator/back_insert.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/estd/internal/iterator/back_insert.h b/src/estd/internal/iterator/back_insert.h
index 4b7cf1c..05b6574 100644
--- a/src/estd/internal/iterator/back_insert.h
+++ b/src/estd/internal/iterator/back_insert.h
@@ -23,6 +23,7 @@ public:
     back_insert_iterator& operator=(const cvalue_type& value)
     {
         container->push_back(value);
+        return *this;
     }
 };
 
-- 
2.43.0


From 257198a1dc6bd6411d121735375deb324156434c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:40 +0000
Subject: [PATCH 081/103] fix: ostreambuf_iterator has failed when eof was
 returned, and not before

---
 src/estd/iterator.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/estd/iterator.h b/src/estd/iterator.h
index fcac627..687bdb7 100644
--- a/src/estd/iterator.h
+++ b/src/estd/iterator.h
@@ -86,14 +86,16 @@ public:
     }
 
     ostreambuf_iterator(streambuf_type* rdbuf) :
-        rdbuf(rdbuf)
+        rdbuf(rdbuf),
+        last_written(traits_type::to_int_type(char_type()))
     {
 
     }
 
     template <class TBase>
     ostreambuf_iterator(estd::detail::basic_ostream<TStreambuf, TBase>& stream) :
-        rdbuf(stream.rdbuf())
+        rdbuf(stream.rdbuf()),
+        last_written(traits_type::to_int_type(char_type()))
     {
 
     }
@@ -121,7 +123,7 @@ public:
 
     bool failed() const
     {
-        return last_written != traits_type::eof();
+        return last_written == traits_type::eof();
     }
 };
 
-- 
2.43.0


From ecb73a6a7599abc901c461cc4874e679f86d6395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:53 +0000
Subject: [PATCH 082/103] fix: clamp compiles when nothing else includes
 assert.h

---
 src/estd/algorithm.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estd/algorithm.h b/src/estd/algorithm.h
index 33c510e..66028c8 100644
--- a/src/estd/algorithm.h
+++ b/src/estd/algorithm.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <assert.h>
+
 #include "internal/platform.h"
 #include "internal/heap.h"
 #include "internal/functional.h"
-- 
2.43.0


From 5663debd188ad3f136e0546969d4b402f655cb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:37 +0000
Subject: [PATCH 083/103] fix: tuple visit yields the index of the element it
 stopped at, or -1

---
 src/estd/internal/tuple.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/tuple.h b/src/estd/internal/tuple.h
index 204b43a..33bac9b 100644
--- a/src/estd/internal/tuple.h
+++ b/src/estd/internal/tuple.h
@@ -24,7 +24,7 @@ class tuple<sparse>
 public:
     //static CONSTEXPR int index = 0;
     template <class F, class ...Args>
-    constexpr bool visit(F&&, Args&&...) const { return {}; }
+    constexpr int visit(F&&, Args&&...) const { return -1; }
 };
 
 
@@ -64,14 +64,14 @@ public:
 
     // EXPERIMENTAL, though I think I'm wanting to keep it
     template <class F, class ...Args2>
-    bool visit(F&& f, Args2&&...args)
+    int visit(F&& f, Args2&&...args)
     {
         return types::visitor::visit(internal::visit_tuple_functor{}, *this, f,
             std::forward<Args2>(args)...);
     }
 
     template <class F, class ...Args2>
-    constexpr bool visit(F&& f, Args2&&...args) const
+    constexpr int visit(F&& f, Args2&&...args) const
     {
         return types::visitor::visit(internal::visit_tuple_functor{}, *this, f,
             std::forward<Args2>(args)...);
-- 
2.43.0


From 02a0e75060a7fac79fe0f989582807de3a7365da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:37 +0000
Subject: [PATCH 084/103] fix: values contain what they contain more than once

---
 src/estd/internal/variadic/integer_sequence.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/variadic/integer_sequence.h b/src/estd/internal/variadic/integer_sequence.h
index aa5b364..30d51c8 100644
--- a/src/estd/internal/variadic/integer_sequence.h
+++ b/src/estd/internal/variadic/integer_sequence.h
@@ -94,7 +94,7 @@ struct values :
         template <T v>
         using contains = bool_constant<
             selector<
-                internal::is_same_value_selector<T, v>>::values::size() == 1>;
+                internal::is_same_value_selector<T, v>>::values::size() != 0>;
     };
 
     template <class Eval>
-- 
2.43.0


From 7c32ed4ab83b1004d8946f09521688d273caaac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:37 +0000
Subject: [PATCH 085/103] fix: values can be visited in C++17

---
 src/estd/internal/variadic/visitor.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/variadic/visitor.h b/src/estd/internal/variadic/visitor.h
index c24342f..5288688 100644
--- a/src/estd/internal/variadic/visitor.h
+++ b/src/estd/internal/variadic/visitor.h
@@ -172,7 +172,8 @@ struct visitor_value :
     internal::visitor_index<I>,
     integral_constant<T, v>
 {
-
+    // Not an aggregate, its bases are explicitly constructed
+    constexpr visitor_value() : internal::visitor_index<I>() {}
 };
 
 template <size_t I, class T>
-- 
2.43.0


From 036553288b694eaa406d326337990121fde7e538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:37 +0000
Subject: [PATCH 086/103] fix: flags can be or-assigned

---
 src/estd/flags.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/flags.h b/src/estd/flags.h
index 5234911..bcffe86 100644
--- a/src/estd/flags.h
+++ b/src/estd/flags.h
@@ -36,7 +36,7 @@ public:
 
     ESTD_CPP_CONSTEXPR(14) flags& operator|=(const flags& v)
     {
-        value_ |= v;
+        value_ = value_type(int_type(value_) | int_type(v.value_));
         return *this;
     }
 
-- 
2.43.0


From 101170bff8c1ec10ee721cdc5504c83e0b080bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:37 +0000
Subject: [PATCH 087/103] fix: flags of narrow enumerations combine

---
 src/estd/flags.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/estd/flags.h b/src/estd/flags.h
index bcffe86..f86bf85 100644
--- a/src/estd/flags.h
+++ b/src/estd/flags.h
@@ -55,17 +55,17 @@ public:
 
     constexpr flags operator ^(const value_type& v) const
     {
-        return flags{int_type(v) ^ int_type(value_)};
+        return flags(int_type(v) ^ int_type(value_));
     }
 
     constexpr flags operator |(const value_type& v) const
     {
-        return flags{int_type(v) | int_type(value_)};
+        return flags(int_type(v) | int_type(value_));
     }
 
     constexpr flags operator &(const value_type& v) const
     {
-        return flags{int_type(v) & int_type(value_)};
+        return flags(int_type(v) & int_type(value_));
     }
 };
 
-- 
2.43.0


From 5925e1774edcbddb0e5e0f6c1551f9df4b816482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:37 +0000
Subject: [PATCH 088/103] fix: invoke calls functions and function objects

---
 src/estd/internal/invoke.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/invoke.h b/src/estd/internal/invoke.h
index 13b196f..03bd8d7 100644
--- a/src/estd/internal/invoke.h
+++ b/src/estd/internal/invoke.h
@@ -16,7 +16,7 @@ template <class T>
 constexpr bool is_reference_wrapper_v = is_reference_wrapper<T>::value;
 
 template <class T, class Type, class T1, class... Args>
-decltype(auto) INVOKE(Type T::* f, T1&& t1, Args&&... args)
+decltype(auto) invoke_call(Type T::* f, T1&& t1, Args&&... args)
 {
     if constexpr (std::is_member_function_pointer_v<decltype(f)>) {
         if constexpr (estd::is_base_of_v<T, std::decay_t<T1>>)
@@ -38,7 +38,7 @@ decltype(auto) INVOKE(Type T::* f, T1&& t1, Args&&... args)
 }
 
 template <class F, class... Args>
-decltype(auto) INVOKE(F&& f, Args&&... args)
+decltype(auto) invoke_call(F&& f, Args&&... args)
 {
       return std::forward<F>(f)(std::forward<Args>(args)...);
 }
@@ -49,7 +49,7 @@ template< class F, class... Args>
 estd::invoke_result_t<F, Args...> invoke(F&& f, Args&&... args)
   noexcept(std::is_nothrow_invocable_v<F, Args...>)
 {
-    return detail::INVOKE(std::forward<F>(f), std::forward<Args>(args)...);
+    return detail::invoke_call(std::forward<F>(f), std::forward<Args>(args)...);
 }
 
 
-- 
2.43.0


From a1c696042744831910a027f765ba4f5426867aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:37 +0000
Subject: [PATCH 089/103] fix: a copied thisify function (or context function)
 refers to its own model

---
 src/estd/internal/functional.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/estd/internal/functional.h b/src/estd/internal/functional.h
index 33d274e..bab82e2 100644
--- a/src/estd/internal/functional.h
+++ b/src/estd/internal/functional.h
@@ -312,6 +312,13 @@ public:
     {
     }
 
+    // A copy refers to its own model
+    constexpr thisify_function(const thisify_function& copy_from) :
+        base_type(&m_),
+        m_(copy_from.m_)
+    {
+    }
+
     // UNUSED, and you're probably better off using inline_function
     template <class T, function_type<T> f>
     static thisify_function create(T* foreign_this)
-- 
2.43.0


From bb55871a01b509a5e2f440eda9c86d2605a8172a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:37 +0000
Subject: [PATCH 090/103] fix: a copied or moved inline function refers to its
 own model

---
 src/estd/functional.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/estd/functional.h b/src/estd/functional.h
index 2c265f8..74eac66 100644
--- a/src/estd/functional.h
+++ b/src/estd/functional.h
@@ -287,14 +287,20 @@ public:
 
     }
 
-    /*
-    inline_function(const inline_function& copy_from) = default;
+    // Copied and moved ones refer to their own model
+    inline_function(const inline_function& copy_from) :
+        base_type(&m),
+        m(copy_from.m)
+    {
+
+    }
+
     inline_function(inline_function&& move_from) :
-        base_type(std::move(move_from)),
+        base_type(&m),
         m(std::move(move_from.m))
     {
 
-    } */
+    }
 };
 
 template <class TFunc, typename F>
-- 
2.43.0


From eb83efbec272103acc7c9cb4a904b3eff8a91585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:37 +0000
Subject: [PATCH 091/103] fix: byteswap of every integer type, and none but
 swaps its bytes

---
 src/estd/bit.h | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/estd/bit.h b/src/estd/bit.h
index a432108..cdf7dfe 100644
--- a/src/estd/bit.h
+++ b/src/estd/bit.h
@@ -35,6 +35,17 @@ using std::byteswap;
 namespace estd {
 
 namespace detail {
+
+// Selects by width, so that every integer type finds its way there
+template <class T, unsigned size = sizeof(T)>
+struct byteswapper;
+
+template <class T>
+struct byteswapper<T, 1>
+{
+    static constexpr T swap(T n) noexcept { return n; }
+};
+
 #if FEATURE_ESTD_BYTESWAP_MODE == FEATURE_ESTD_BYTESWAP_XOR
 
 #error manual xor non gcc/ non std mode not yet supported
@@ -58,6 +69,12 @@ constexpr int16_t byteswap(int16_t n) noexcept
     return __builtin_bswap16(n);
 }
 
+template <class T>
+struct byteswapper<T, 2>
+{
+    static constexpr T swap(T n) noexcept { return T(byteswap(uint16_t(n))); }
+};
+
 #endif
 
 #if FEATURE_TOOLCHAIN_BUILTIN_BSWAP32 || FEATURE_ESTD_BYTESWAP_MODE == FEATURE_ESTD_BYTESWAP_GCC
@@ -74,6 +91,12 @@ byteswap(int32_t n) noexcept
     return __builtin_bswap32(n);
 }
 
+template <class T>
+struct byteswapper<T, 4>
+{
+    static constexpr T swap(T n) noexcept { return T(byteswap(uint32_t(n))); }
+};
+
 #endif
 
 #if FEATURE_TOOLCHAIN_BUILTIN_BSWAP64 || FEATURE_ESTD_BYTESWAP_MODE == FEATURE_ESTD_BYTESWAP_GCC
@@ -84,6 +107,12 @@ byteswap(uint64_t n) noexcept
     return __builtin_bswap64(n);
 }
 
+template <class T>
+struct byteswapper<T, 8>
+{
+    static constexpr T swap(T n) noexcept { return T(byteswap(uint64_t(n))); }
+};
+
 #endif
 
 #endif // not xor (gcc)
@@ -92,7 +121,7 @@ byteswap(uint64_t n) noexcept
 // Since spec indicates a templated function, we wrap up the specific ones
 // in detail.  This is better than specializing, since that can lead to linker ambiguities
 template <class T>
-constexpr T byteswap(T n) noexcept { return detail::byteswap(n); }
+constexpr T byteswap(T n) noexcept { return detail::byteswapper<T>::swap(n); }
 
 }
 
-- 
2.43.0


From 2679ca2a620895196884251bdfae9192dfb90089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:54 +0000
Subject: [PATCH 092/103] fix: functions taking C style variable arguments are
 functions

---
 src/estd/internal/type_traits/is_function.h | 30 +++++++++------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/estd/internal/type_traits/is_function.h b/src/estd/internal/type_traits/is_function.h
index 5e2003c..82b706c 100644
--- a/src/estd/internal/type_traits/is_function.h
+++ b/src/estd/internal/type_traits/is_function.h
@@ -28,17 +28,15 @@ struct is_function<Ret(Args...) volatile> : true_type {};
 template<class Ret, class... Args>
 struct is_function<Ret(Args...) const volatile> : true_type {};
 
-#ifdef FEATURE_CPP_AMBIGUOUS_ELLIPSES
 // specialization for variadic functions such as printf
 template<class Ret, class... Args>
-struct is_function<Ret(Args......)> : true_type {};
+struct is_function<Ret(Args..., ...)> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) const> : true_type {};
+struct is_function<Ret(Args..., ...) const> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) volatile> : true_type {};
+struct is_function<Ret(Args..., ...) volatile> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) const volatile> : true_type {};
-#endif
+struct is_function<Ret(Args..., ...) const volatile> : true_type {};
 
 // specialization for function types that have ref-qualifiers
 template<class Ret, class... Args>
@@ -49,16 +47,14 @@ template<class Ret, class... Args>
 struct is_function<Ret(Args...) volatile &> : true_type {};
 template<class Ret, class... Args>
 struct is_function<Ret(Args...) const volatile &> : true_type {};
-#ifdef FEATURE_CPP_AMBIGUOUS_ELLIPSES
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) &> : true_type {};
+struct is_function<Ret(Args..., ...) &> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) const &> : true_type {};
+struct is_function<Ret(Args..., ...) const &> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) volatile &> : true_type {};
+struct is_function<Ret(Args..., ...) volatile &> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) const volatile &> : true_type {};
-#endif
+struct is_function<Ret(Args..., ...) const volatile &> : true_type {};
 template<class Ret, class... Args>
 struct is_function<Ret(Args...) &&> : true_type {};
 template<class Ret, class... Args>
@@ -67,16 +63,14 @@ template<class Ret, class... Args>
 struct is_function<Ret(Args...) volatile &&> : true_type {};
 template<class Ret, class... Args>
 struct is_function<Ret(Args...) const volatile &&> : true_type {};
-#ifdef FEATURE_CPP_AMBIGUOUS_ELLIPSES
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) &&> : true_type {};
+struct is_function<Ret(Args..., ...) &&> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) const &&> : true_type {};
+struct is_function<Ret(Args..., ...) const &&> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) volatile &&> : true_type {};
+struct is_function<Ret(Args..., ...) volatile &&> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) const volatile &&> : true_type {};
-#endif
+struct is_function<Ret(Args..., ...) const volatile &&> : true_type {};
 
 // specializations for noexcept versions of all the above (C++17 and later)
 
-- 
2.43.0


From 8f655e8b24d00934db32e76d8af3503be42e93fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:54 +0000
Subject: [PATCH 093/103] fix: only arithmetic types are unsigned

---
 src/estd/type_traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/type_traits.h b/src/estd/type_traits.h
index a6785ca..e53ef71 100644
--- a/src/estd/type_traits.h
+++ b/src/estd/type_traits.h
@@ -49,7 +49,7 @@ template<typename T>
 struct is_signed : internal::is_signed<T>::type {};
 
 template<typename T>
-struct is_unsigned : bool_constant<!is_signed<T>::value> {};
+struct is_unsigned : bool_constant<is_arithmetic<T>::value && !is_signed<T>::value> {};
 
 template< class T > struct is_pointer : internal::___is_pointer<typename remove_cv<T>::type> {};
 
-- 
2.43.0


From 199548dabd9ba7afb6cf02889169bbc64f1f2fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:54 +0000
Subject: [PATCH 094/103] fix: 16 and 64 bit integers can take one octal digit
 more

---
 src/estd/internal/limits/traits.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/estd/internal/limits/traits.h b/src/estd/internal/limits/traits.h
index 4153773..f0d47a1 100644
--- a/src/estd/internal/limits/traits.h
+++ b/src/estd/internal/limits/traits.h
@@ -32,10 +32,9 @@ template <unsigned bits>
 struct uint_strlen<16, bits> :
     estd::integral_constant<unsigned, bits / 4> {};
 
-// DEBT: calculation approximate, higher the bitcount the more wasted space
 template <unsigned bits>
 struct uint_strlen<8, bits> :
-    estd::integral_constant<unsigned, (bits + 1) / 3> {};
+    estd::integral_constant<unsigned, (bits + 2) / 3> {};
 
 // Not the same as boost's version
 template <class T, bool is_signed_>
-- 
2.43.0


From 86091515833bf3079d61102fb8d0a398e1335da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:48 +0000
Subject: [PATCH 095/103] fix: the distance of a lesser offset from a greater
 one is negative for 32 bit offsets as well

---
 src/estd/internal/container/handle_with_offset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/container/handle_with_offset.h b/src/estd/internal/container/handle_with_offset.h
index bc3dce2..e00cdf9 100644
--- a/src/estd/internal/container/handle_with_offset.h
+++ b/src/estd/internal/container/handle_with_offset.h
@@ -36,7 +36,7 @@ public:
 
     ptrdiff_t operator-(const handle_with_offset_base& subtrahend) const
     {
-        return m_offset - subtrahend.m_offset;
+        return ptrdiff_t(m_offset) - ptrdiff_t(subtrahend.m_offset);
     }
 
     // NOTE: be mindful that these comparisons presume either:
-- 
2.43.0


From 9992c22a87cb29c4f1862021b0cbbd282e1822e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:34 +0000
Subject: [PATCH 096/103] fix: tabs, line ends and form feeds are white space
 as well

---
 src/estd/internal/cctype.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/cctype.h b/src/estd/internal/cctype.h
index 48f3104..72d8585 100644
--- a/src/estd/internal/cctype.h
+++ b/src/estd/internal/cctype.h
@@ -9,7 +9,8 @@ inline int ascii_isdigit(int ch)
 
 inline int ascii_isspace(int ch)
 {
-    return ch == ' ';
+    // space, \t, \n, \v, \f and \r
+    return ch == ' ' || ('\t' <= ch && ch <= '\r');
 }
 
 
-- 
2.43.0


From d23b5b06254c3da32a190f9cd3f1b78def8eccaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:34 +0000
Subject: [PATCH 097/103] fix: ctype recognizes letters and punctuation

---
 src/estd/internal/locale/ctype.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/estd/internal/locale/ctype.h b/src/estd/internal/locale/ctype.h
index bf2df2e..ecf087e 100644
--- a/src/estd/internal/locale/ctype.h
+++ b/src/estd/internal/locale/ctype.h
@@ -76,6 +76,13 @@ public:
         return 'a' <= ch && ch <= 'z';
     }
 
+    // Visible, yet neither letter nor digit
+    static bool ispunct(char ch)
+    {
+        return ('!' <= ch && ch <= '/') || (':' <= ch && ch <= '@') ||
+            ('[' <= ch && ch <= '`') || ('{' <= ch && ch <= '~');
+    }
+
     typedef char char_type;
 
     //static locale::id id;
@@ -107,6 +114,14 @@ public:
         {
             if(islower(ch)) return true;
         }
+        if(m & alpha)
+        {
+            if(isupper(ch) || islower(ch)) return true;
+        }
+        if(m & punct)
+        {
+            if(ispunct(ch)) return true;
+        }
         return false;
     }
 };
-- 
2.43.0


From cb90aa928da37faa2c8325445e877a2d22310736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:34 +0000
Subject: [PATCH 098/103] fix: monostate does not differ from monostate

---
 src/estd/internal/raw/variant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/raw/variant.h b/src/estd/internal/raw/variant.h
index cd56269..51706af 100644
--- a/src/estd/internal/raw/variant.h
+++ b/src/estd/internal/raw/variant.h
@@ -8,7 +8,7 @@ namespace estd {
 struct monostate {};
 
 constexpr bool operator==(monostate, monostate) NOEXCEPT { return true; }
-constexpr bool operator!=(monostate, monostate) NOEXCEPT { return true; }
+constexpr bool operator!=(monostate, monostate) NOEXCEPT { return false; }
 
 template <>
 struct hash<monostate>
-- 
2.43.0


From abf259fbd36e6fbb55bab463465dcbec833fb3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:33 +0000
Subject: [PATCH 099/103] fix: a failed reallocation leaves the allocation and
 its contents as they are

---
 src/estd/allocators/handle_desc.h    | 5 +++--
 src/estd/internal/impl/handle_desc.h | 7 +++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/estd/allocators/handle_desc.h b/src/estd/allocators/handle_desc.h
index 792866d..a3c8298 100644
--- a/src/estd/allocators/handle_desc.h
+++ b/src/estd/allocators/handle_desc.h
@@ -80,8 +80,9 @@ public:
 
     bool reallocate(size_type size) // NOLINT
     {
-        m_size = size;
-        return base_type::reallocate(size);
+        const bool success = base_type::reallocate(size);
+        if(success) m_size = size;
+        return success;
     }
 };
 
diff --git a/src/estd/internal/impl/handle_desc.h b/src/estd/internal/impl/handle_desc.h
index a31f7c7..6aff96e 100644
--- a/src/estd/internal/impl/handle_desc.h
+++ b/src/estd/internal/impl/handle_desc.h
@@ -254,8 +254,11 @@ public:
 
     bool reallocate(size_type size)
     {
-        handle_base_t::handle(base_t::get_allocator().reallocate(handle_base_t::handle(), size));
-        return handle_base_t::handle() != allocator_traits::invalid();
+        const handle_type h = base_t::get_allocator().reallocate(handle_base_t::handle(), size);
+        // as with realloc, what couldn't be reallocated stays allocated as it is
+        if(h == allocator_traits::invalid()) return false;
+        handle_base_t::handle(h);
+        return true;
     }
 
     bool is_allocated() const
-- 
2.43.0


From 2c89975b93cfb18ae79fbff0c5b12651bddcd927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:05 +0000
Subject: [PATCH 100/103] fix: a node taken from an owning forward_list ends
 its value

---
 src/estd/traits/list_node.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/estd/traits/list_node.h b/src/estd/traits/list_node.h
index 06fc7d1..c8fc33f 100644
--- a/src/estd/traits/list_node.h
+++ b/src/estd/traits/list_node.h
@@ -264,9 +264,10 @@ struct inlinevalue_node_traits_new_base :
         return h;
     }
 
+    // counterpart to the allocates, which construct value as well
     void deallocate(node_handle& h)
     {
-        base_t::deallocate_node(h);
+        base_t::destroy(h);
     }
 
 #ifdef FEATURE_CPP_VARIADIC
-- 
2.43.0


From e436885a63beb1e52d57595a9a762270964ae495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:35 +0000
Subject: [PATCH 101/103] fix: a vector made of an initializer list ensures its
 capacity first

---
 src/estd/internal/dynamic_array.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index 278f214..572e6af 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -374,8 +374,11 @@ public:
         base_type(p1) {}
 
 #if __cpp_initializer_lists
+    // goes through assign so that capacity is ensured first
     constexpr dynamic_array(std::initializer_list<value_type> initlist)
-        : base_type(initlist) {}
+    {
+        assign(initlist.begin(), initlist.size());
+    }
 #endif
 
     // TODO: iterate through and destruct elements
-- 
2.43.0


From 8f0949fb43abb4d2e2eacf84936c239a87df0f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:46 +0000
Subject: [PATCH 102/103] fix: pubseekpos reaches the position asked for

---
 src/estd/streambuf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/streambuf.h b/src/estd/streambuf.h
index ebbc5e9..ebcb83e 100644
--- a/src/estd/streambuf.h
+++ b/src/estd/streambuf.h
@@ -198,7 +198,7 @@ public:
 
     inline pos_type pubseekpos(int_type pos, ios_base::openmode which = ios_base::in | ios_base::out)
     {
-        return this->seekpos(pos, which);
+        return this->seekoff(pos, ios_base::beg, which);
     }
 
 
-- 
2.43.0


From 08838bd72f7d2bc607a2ae784d7a4c62aecf3b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:43:18 +0000
Subject: [PATCH 103/103] fix: find from a position near npos stays inside the
 text

---
 src/estd/internal/runtime_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/runtime_array.h b/src/estd/internal/runtime_array.h
index 79cf400..0b1bbc1 100644
--- a/src/estd/internal/runtime_array.h
+++ b/src/estd/internal/runtime_array.h
@@ -408,7 +408,7 @@ public:
         const size_type sz = size();
 
         // only evaluate positions where all of 's' fits
-        for(size_t i = pos; i + count <= sz; ++i)
+        for(size_t i = pos; i <= sz && count <= sz - i; ++i)
         {
             if(memcmp(s, data + i, count * sizeof(value_type)) == 0)
             {
-- 
2.43.0

