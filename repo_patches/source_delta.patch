From 656b7ef0e832f217523d324ab0221c71dba418d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:20 +0000
Subject: [PATCH 01/23] fix: construct the contained object instead of
 assigning to a dead one when T is not trivially destructible (C++17)

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index d9bd0f0..bcc9991 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -651,7 +651,7 @@ namespace impl {
 #else
     template<class T, class... Args>
     constexpr void construct_at(T* ptr, Args&&... args) {
-        if constexpr (impl::is_trivially_move_assignable_v<T>) {
+        if constexpr (impl::is_trivially_move_assignable_v<T> && impl::is_trivially_destructible_v<T>) {
             if constexpr (std::is_aggregate_v<T>) {
                 *ptr = T{static_cast<Args&&>(args)...};
             } else {
-- 
2.43.0


From 06d16586166ad2f54fe7e8dd38c737588f5bc49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:20 +0000
Subject: [PATCH 02/23] fix: opt::sentinel_f with more than one sentinel value

---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index bcc9991..f8b5297 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3977,7 +3977,7 @@ namespace impl {
         if (Compare{}(value, Value)) { return I; }
 
         if constexpr (sizeof...(Values) > 0) {
-            return sentinel_get_level_impl<T, Compare, I + 1, Values...>(value);
+            return sentinel_f_get_level_impl<T, Compare, I + 1, Values...>(value);
         } else {
             return std::uintmax_t(-1);
         }
@@ -3987,7 +3987,7 @@ namespace impl {
         if (level == I) { Set{}(value, Value); return; }
 
         if constexpr (sizeof...(Values) > 0) {
-            sentinel_set_level_impl<T, Set, I + 1, Values...>(value, level);
+            sentinel_f_set_level_impl<T, Set, I + 1, Values...>(value, level);
         } else {
             OPTION_VERIFY(false, "Level is out of range");
         }
-- 
2.43.0


From e013b1e581f350639ae190ebb268183981b129ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:20 +0000
Subject: [PATCH 03/23] fix: opt::get by type on an rvalue opt::option

---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index f8b5297..7e380ca 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3475,9 +3475,9 @@ template<class T, class OptT>
 template<class T, class OptT>
 [[nodiscard]] constexpr auto get(const opt::option<OptT>& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(x); }
 template<class T, class OptT>
-[[nodiscard]] constexpr auto get(opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<opt::option<T>&&>(x)); }
+[[nodiscard]] constexpr auto get(opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<opt::option<OptT>&&>(x)); }
 template<class T, class OptT>
-[[nodiscard]] constexpr auto get(const opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<const opt::option<T>&&>(x)); }
+[[nodiscard]] constexpr auto get(const opt::option<OptT>&& x OPTION_LIFETIMEBOUND) noexcept { return impl::get_impl<T>(static_cast<const opt::option<OptT>&&>(x)); }
 
 namespace impl {
     template<std::size_t I, class Variant>
-- 
2.43.0


From 086625f754788fe6336126cfc5018402e47bd71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:20 +0000
Subject: [PATCH 04/23] fix: assigning an lvalue opt::option<U> to an
 opt::option of reference

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 7e380ca..b6eb0c3 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2934,7 +2934,7 @@ public:
     constexpr option& operator=(const option<U>& other) {
         if constexpr (std::is_reference_v<T>) {
             if (other.has_value()) {
-                base::value = base::ref_to_ptr(static_cast<option<U>&&>(other.get()));
+                base::value = base::ref_to_ptr(other.get());
             } else {
                 reset();
             }
-- 
2.43.0


From 6c567f0f3fbfb5419569ebf827842f10b6727cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:20 +0000
Subject: [PATCH 05/23] fix: max_level of a PADDING member narrower than int

---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index b6eb0c3..2bc59f0 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1500,7 +1500,7 @@ namespace impl {
         using member_type = decltype(std::declval<T&>().PADDING);
         static_assert(std::is_unsigned_v<member_type>, ".PADDING member must be an unsigned integer");
     public:
-        static constexpr std::uintmax_t max_level = std::uintmax_t(~member_type(0));
+        static constexpr std::uintmax_t max_level = std::uintmax_t(member_type(~member_type(0)));
 
         static std::uintmax_t get_level(const T* const value) noexcept {
             return std::uintmax_t(std::uintmax_t(value->PADDING) - 1);
-- 
2.43.0


From b5a4c432281e9d5b11424ab85124eccde2e3540b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:55 +0000
Subject: [PATCH 06/23] fix: opt::flatten of a const lvalue opt::option

---
 include/opt/option.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 2bc59f0..0317f97 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1874,10 +1874,18 @@ namespace impl {
         using type = T&;
     };
     template<class T, class U>
+    struct copy_lvalue_reference<T, const U&> {
+        using type = const T&;
+    };
+    template<class T, class U>
     struct copy_lvalue_reference<T&&, U&> {
         using type = T&&;
     };
     template<class T, class U>
+    struct copy_lvalue_reference<T&&, const U&> {
+        using type = T&&;
+    };
+    template<class T, class U>
     using copy_lvalue_reference_t = typename copy_lvalue_reference<T, U>::type;
 
     template<class T>
-- 
2.43.0


From 57e40615b5c3466b31d9d75a9449dc25beaea0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:51 +0000
Subject: [PATCH 07/23] fix: opt::flatten of an lvalue opt::option of an rvalue
 reference

---
 include/opt/option.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 0317f97..2d248ed 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3415,7 +3415,9 @@ template<class Option>
 [[nodiscard]] constexpr auto flatten(Option&& opt) {
     if constexpr (!opt::is_option_v<typename impl::remove_cvref<Option>::value_type>) {
         using result_type = impl::copy_lvalue_reference_t<typename impl::remove_cvref<Option>::value_type, Option>;
-        return opt.has_value() ? opt::option<result_type>{static_cast<Option&&>(opt).get()} : opt::none;
+        using get_result = decltype(static_cast<Option&&>(opt).get());
+        using cast_type = std::conditional_t<std::is_rvalue_reference_v<result_type>, result_type, get_result>;
+        return opt.has_value() ? opt::option<result_type>{static_cast<cast_type>(static_cast<Option&&>(opt).get())} : opt::none;
     } else {
         return opt.has_value() ? flatten(static_cast<Option&&>(opt).get()) : opt::none;
     }
-- 
2.43.0


From e22eb13d5850156f4fc6759c23d7bc1bf05b8cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:13 +0000
Subject: [PATCH 08/23] fix: restore the empty state when the constructor of a
 type with option_traits throws

---
 include/opt/option.hpp | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 2d248ed..3f60c27 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1898,6 +1898,39 @@ namespace impl {
         constexpr nontrivial_dummy() noexcept {}
     };
 
+    // Puts the object representation back in the empty state if the constructor of T exits via an exception,
+    // since a partially constructed object can be mistaken for a contained value.
+    template<class Traits, class T>
+    struct construct_rollback {
+        std::remove_const_t<T>* ptr;
+
+        explicit constexpr construct_rollback(std::remove_const_t<T>* const ptr_) noexcept : ptr{ptr_} {}
+        construct_rollback(const construct_rollback&) = delete;
+        construct_rollback& operator=(const construct_rollback&) = delete;
+
+        OPTION_CONSTEXPR_CXX20 ~construct_rollback() {
+            if (ptr != nullptr) {
+                Traits::set_level(ptr, 0);
+            }
+        }
+    };
+    template<class Traits, class T, class... Args>
+    constexpr void construct_with_traits(std::remove_const_t<T>* const ptr, Args&&... args) {
+#if !OPTION_IS_CXX20
+        // In this case 'construct_at' is an assignment of the fully constructed temporary
+        constexpr bool in_place = !(impl::is_trivially_move_assignable_v<std::remove_const_t<T>> && impl::is_trivially_destructible_v<T>);
+#else
+        constexpr bool in_place = true;
+#endif
+        if constexpr (in_place && !std::is_nothrow_constructible_v<std::remove_const_t<T>, Args...>) {
+            impl::construct_rollback<Traits, T> rollback{ptr};
+            impl::construct_at(ptr, static_cast<Args&&>(args)...);
+            rollback.ptr = nullptr;
+        } else {
+            impl::construct_at(ptr, static_cast<Args&&>(args)...);
+        }
+    }
+
 #if OPTION_MSVC
     #pragma warning(push)
     #pragma warning(disable : 4296) // 'operator' : expression is always false
@@ -2051,7 +2084,7 @@ namespace impl {
         }
         template<class... Args>
         constexpr void construct(Args&&... args) {
-            impl::construct_at(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
+            impl::construct_with_traits<traits, T>(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
             OPTION_VERIFY(has_value(), "After the construction, the value is in an empty state. Possibly because of the constructor arguments");
         }
     };
@@ -2109,7 +2142,7 @@ namespace impl {
         }
         template<class... Args>
         constexpr void construct(Args&&... args) {
-            impl::construct_at(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
+            impl::construct_with_traits<traits, T>(OPTION_ADDRESSOF(value), static_cast<Args&&>(args)...);
             OPTION_VERIFY(has_value(), "After the construction, the value is in an empty state. Possibly because of the constructor arguments");
         }
     };
-- 
2.43.0


From d1a91d161e9e116a81e115a05f494321abc542d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:14 +0000
Subject: [PATCH 09/23] fix: opt::swap was disabled for value types and
 ambiguous with std::swap for references

---
 include/opt/option.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 3f60c27..341cf36 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2675,14 +2675,14 @@ namespace impl::option {
         and_v<
             std::is_move_constructible<T>,
             std::is_move_constructible<U>,
-            std::is_swappable_with<T, U>
+            std::is_swappable_with<T&, U&>
         >
     >;
     template<class T, class U>
     inline constexpr bool nothrow_swap =
         std::is_nothrow_move_constructible_v<T>
         && std::is_nothrow_move_constructible_v<U>
-        && std::is_nothrow_swappable_with_v<T, U>;
+        && std::is_nothrow_swappable_with_v<T&, U&>;
 }
 
 namespace impl {
@@ -3443,6 +3443,11 @@ template<class T, class U>
 constexpr impl::option::enable_swap<T, U> swap(option<T>& left, option<U>& right) noexcept(impl::option::nothrow_swap<T, U>) {
     left.swap(right);
 }
+// Without this overload, the unqualified call with 'using std::swap' is ambiguous
+template<class T>
+constexpr impl::option::enable_swap<T, T> swap(option<T>& left, option<T>& right) noexcept(impl::option::nothrow_swap<T, T>) {
+    left.swap(right);
+}
 
 template<class Option>
 [[nodiscard]] constexpr auto flatten(Option&& opt) {
-- 
2.43.0


From 7a52d0eae56c55a7c5122fcaf191714fe0d384ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:14 +0000
Subject: [PATCH 10/23] fix: opt::option<std::unique_ptr<T[]>>

---
 include/opt/option.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 341cf36..ba68c30 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1397,6 +1397,7 @@ namespace impl {
     template<class Elem>
     struct internal_option_traits<std::unique_ptr<Elem, std::default_delete<Elem>>, option_strategy::unique_ptr> {
     private:
+        using pointer = typename std::unique_ptr<Elem, std::default_delete<Elem>>::pointer;
         static constexpr std::uintptr_t sentinel_ptr = std::uintptr_t(-1) - 46508;
     public:
         static constexpr std::uintmax_t max_level = 255;
@@ -1407,7 +1408,7 @@ namespace impl {
         }
         static void set_level(std::unique_ptr<Elem, std::default_delete<Elem>>* const value, const std::uintmax_t level) noexcept {
             OPTION_VERIFY(level < max_level, "Level is out of range");
-            impl::construct_at(value, reinterpret_cast<Elem*>(sentinel_ptr + level));
+            impl::construct_at(value, reinterpret_cast<pointer>(sentinel_ptr + level));
         }
     };
 
-- 
2.43.0


From 8c7511c3e8f5b42e785bacff800342253d01a82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:31 +0000
Subject: [PATCH 11/23] fix: const-qualified members and nested options of
 const types

The traits of a const-qualified pair, tuple or aggregate member (e.g. the value_type of std::map<int*, V>) and of
option<option<const T>> did not compile.
---
 include/opt/option.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index ba68c30..b1e16eb 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -998,7 +998,7 @@ namespace impl {
     template<class T>
     struct dispatch_specializations<opt::option<T>> {
         static constexpr option_strategy value
-            = opt::option_traits<T>::max_level >= 1
+            = opt::option_traits<std::remove_cv_t<T>>::max_level >= 1
                 ? option_strategy::avaliable_option
                 : option_strategy::unavaliable_option;
     };
@@ -1063,6 +1063,10 @@ namespace impl {
         if constexpr (dispatch_st != st::other) {
             return dispatch_st;
         } else
+        if constexpr (std::is_const_v<T>) {
+            // The level cannot be stored in a const-qualified member
+            return st::none;
+        } else
         if constexpr (std::is_pointer_v<T>) {
             if constexpr (sizeof(T) == 8) {
                 return st::pointer_64;
@@ -3319,7 +3323,7 @@ namespace impl {
     template<class T>
     struct internal_option_traits<opt::option<T>, option_strategy::avaliable_option> {
         using base = typename opt::option<T>::base;
-        using traits = opt::option_traits<T>;
+        using traits = opt::option_traits<std::remove_cv_t<T>>;
 
         static constexpr std::uintmax_t max_level = traits::max_level - 1;
 
-- 
2.43.0


From 81649a8bd60e08eb6e78e1f92d989a46b33467f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:54 +0000
Subject: [PATCH 12/23] fix: signed overflow in the option_traits of
 enumerations with sentinels

The level is the difference of two values of the underlying type, which
overflows for example for INT_MIN with SENTINEL = 1: undefined behaviour, and
an error in constant expressions.
---
 include/opt/option.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index b1e16eb..bb9b630 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1554,7 +1554,7 @@ namespace impl {
         static constexpr std::uintmax_t max_level = 1;
 
         static constexpr std::uintmax_t get_level(const T* const value) noexcept {
-            return std::uintmax_t(underlying(*value) - underlying(sentinel_value));
+            return std::uintmax_t(underlying(*value)) - std::uintmax_t(underlying(sentinel_value));
         }
         static constexpr void set_level(T* const value, [[maybe_unused]] const std::uintmax_t level) noexcept {
             OPTION_VERIFY(level == 0, "Level is out of range");
@@ -1572,7 +1572,7 @@ namespace impl {
 
         static constexpr std::uintmax_t get_level(const T* const value) noexcept {
             const underlying val = impl::ptr_bit_cast<underlying>(value);
-            return std::uintmax_t(val - sentinel_range_start);
+            return std::uintmax_t(val) - std::uintmax_t(sentinel_range_start);
         }
         static constexpr void set_level(T* const value, [[maybe_unused]] const std::uintmax_t level) noexcept {
             OPTION_VERIFY(level < max_level, "Level is out of range");
@@ -1586,11 +1586,12 @@ namespace impl {
         static constexpr underlying sentinel_range_start = static_cast<underlying>(T::SENTINEL_START);
         static constexpr underlying sentinel_range_end = static_cast<underlying>(T::SENTINEL_END);
     public:
-        static constexpr std::uintmax_t max_level = sentinel_range_end - sentinel_range_start + 1;
+        static constexpr std::uintmax_t max_level
+            = std::uintmax_t(sentinel_range_end) - std::uintmax_t(sentinel_range_start) + 1;
 
         static constexpr std::uintmax_t get_level(const T* const value) noexcept {
             const underlying val = impl::ptr_bit_cast<underlying>(value);
-            return std::uintmax_t(val - sentinel_range_start);
+            return std::uintmax_t(val) - std::uintmax_t(sentinel_range_start);
         }
         static constexpr void set_level(T* const value, [[maybe_unused]] const std::uintmax_t level) noexcept {
             OPTION_VERIFY(level < max_level, "Level is out of range");
-- 
2.43.0


From bb37ca067c6f353a3e1d1b1983b92cfae9a439d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:37 +0000
Subject: [PATCH 13/23] fix: assigning {} to an opt::option of const or rvalue
 reference bound it to a temporary

'x = {}' chose operator=(U&&) with U = const T&, which binds the option to a
temporary that is destroyed at the end of the expression. It now makes the
option empty, as it already did for non-const lvalue references.
---
 include/opt/option.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index bb9b630..f9b2ab1 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2957,7 +2957,8 @@ public:
     
     option& operator=(option&&) = default;
 
-    template<class U = std::remove_cv_t<T>,
+    // For references, 'x = {}' must not bind to a temporary, and makes `x` empty
+    template<class U = std::conditional_t<std::is_reference_v<T>, option, std::remove_cv_t<T>>,
         class = typename checks::template from_value_assign<T, U>::type>
     OPTION_SET_TYPESTATE(consumed)
     constexpr option& operator=(U&& val) {
-- 
2.43.0


From 6191baf0b29ab38227c939d1466381f8785c64b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:37 +0000
Subject: [PATCH 14/23] fix: converting constructors of opt::option of
 references were never enabled

The documentation enables them when the reference can be bound, for example
opt::option<const T&> from opt::option<T&> or opt::option<Base&> from
opt::option<Derived&>, but the trait that enables them lacked the member that
they ask for.
---
 include/opt/option.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index f9b2ab1..36691cf 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2695,6 +2695,8 @@ namespace impl {
     struct always_non_explicit {
         template<bool Condition>
         using is_explicit = std::enable_if<!Condition, int>;
+        template<bool Condition>
+        using constructor_is_explicit = std::enable_if<!Condition, int>;
     };
     template<class T, class U>
     struct check_from_value_ctor {
-- 
2.43.0


From b4cad3b288f22c7fd1e2e8a1ab54d29dbcba4b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:00 +0000
Subject: [PATCH 15/23] fix: type wrappers of types without a default
 constructor do not compile when used

---
 include/opt/option.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 36691cf..125a3b3 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -3956,11 +3956,14 @@ namespace impl {
     struct type_wrapper {
         T m{};
 
-        template<class... Args, std::enable_if_t<impl::is_initializable_from_v<T, Args...>, int> = 0>
+        template<class U = T, std::enable_if_t<impl::is_initializable_from_v<U>, int> = 0>
+        constexpr type_wrapper() noexcept(noexcept(U{}))
+            : m{} {}
+
+        template<class... Args, std::enable_if_t<(sizeof...(Args) > 0) && impl::is_initializable_from_v<T, Args...>, int> = 0>
         constexpr explicit type_wrapper(Args&&... args) noexcept(std::is_nothrow_constructible_v<T, Args...>)
             : m{static_cast<Args&&>(args)...} {}
 
-        type_wrapper() = default;
         type_wrapper(const type_wrapper&) = default;
         type_wrapper(type_wrapper&&) = default;
         type_wrapper& operator=(const type_wrapper&) = default;
-- 
2.43.0


From d62ce219d961c79d6550a7a6bc1cbdf65787b219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:54 +0000
Subject: [PATCH 16/23] fix: iterators of an empty option failed a check
 (undefined behaviour in release builds) in begin() + 0, begin() < end() and
 std::to_address

---
 include/opt/option.hpp | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 125a3b3..b4a67bd 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2450,6 +2450,9 @@ namespace impl {
 #endif
     template<class T>
     class option_iterator {
+#if OPTION_IS_CXX20
+        friend struct std::pointer_traits<option_iterator>;
+#endif
     public:
 #if OPTION_IS_CXX20
         using iterator_concept = std::contiguous_iterator_tag;
@@ -2500,25 +2503,25 @@ namespace impl {
             return tmp;
         }
         constexpr option_iterator& operator+=(const difference_type offset) noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             ptr += offset;
             return *this;
         }
         [[nodiscard]] constexpr option_iterator operator+(const difference_type offset) const noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             return option_iterator{ptr + offset};
         }
         [[nodiscard]] friend constexpr option_iterator operator+(const difference_type offset, const option_iterator& it) noexcept {
-            OPTION_VERIFY(it.ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(it.ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             return option_iterator{it.ptr + offset};
         }
         constexpr option_iterator& operator-=(const difference_type offset) noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             ptr -= offset;
             return *this;
         }
         [[nodiscard]] constexpr option_iterator operator-(const difference_type offset) const noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot seek value-initialized option iterator");
+            OPTION_VERIFY(ptr != nullptr || offset == 0, "Cannot seek value-initialized option iterator");
             return option_iterator{ptr - offset};
         }
         [[nodiscard]] constexpr difference_type operator-(const option_iterator& right) const noexcept {
@@ -2535,13 +2538,11 @@ namespace impl {
             return ptr != right.ptr;
         }
         [[nodiscard]] constexpr bool operator<(const option_iterator& right) const noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot compare value-initialized option iterator");
-            OPTION_VERIFY(right.ptr != nullptr, "Cannot compare value-initialized option iterator");
+            OPTION_VERIFY((ptr == nullptr) == (right.ptr == nullptr), "Cannot compare value-initialized option iterator");
             return ptr < right.ptr;
         }
         [[nodiscard]] constexpr bool operator>(const option_iterator& right) const noexcept {
-            OPTION_VERIFY(ptr != nullptr, "Cannot compare value-initialized option iterator");
-            OPTION_VERIFY(right.ptr != nullptr, "Cannot compare value-initialized option iterator");
+            OPTION_VERIFY((ptr == nullptr) == (right.ptr == nullptr), "Cannot compare value-initialized option iterator");
             return ptr > right.ptr;
         }
         [[nodiscard]] constexpr bool operator<=(const option_iterator& right) const noexcept {
@@ -4139,6 +4140,20 @@ public:
     }
 };
 
+#if OPTION_IS_CXX20
+// Unlike 'operator->', 'std::to_address' is allowed on the iterators of an empty option
+template<class T>
+struct std::pointer_traits<opt::impl::option_iterator<T>> {
+    using pointer = opt::impl::option_iterator<T>;
+    using element_type = typename pointer::value_type;
+    using difference_type = typename pointer::difference_type;
+
+    static constexpr element_type* to_address(const pointer& it) noexcept {
+        return it.ptr;
+    }
+};
+#endif
+
 template<class T>
 struct std::hash<opt::option<T&>> {
     constexpr std::size_t operator()(const opt::option<T&>& val) const noexcept(noexcept(std::hash<T*>{}(val.ptr_or_null()))) {
-- 
2.43.0


From 8c2dd1431a70214d5ddcd5e08f0463f3f7ffb630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:35 +0000
Subject: [PATCH 17/23] fix: options of references were constructible from
 anything followed by a reference

The in-place constructor of opt::option<T&> did not check that its first
argument is std::in_place.
---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index b4a67bd..5de4849 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2811,7 +2811,7 @@ namespace impl {
         using from_args_ctor = std::enable_if<sizeof(First) == 0>;
 
         template<class T, class InPlaceT, class... Args>
-        using from_in_place_args_ctor = std::enable_if<sizeof...(Args) == 1>;
+        using from_in_place_args_ctor = std::enable_if<std::is_same_v<InPlaceT, std::in_place_t> && sizeof...(Args) == 1>;
 
         template<class T, class U, class QualU>
         using from_option_like_ctor = if_<
-- 
2.43.0


From f33063ec81b3a951f062ee019fa074ba9c8ecce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:22 +0000
Subject: [PATCH 18/23] fix: the destructor of opt::option is noexcept for
 every contained type

With clang it was not for types whose destructor may throw.
---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 5de4849..3ac5209 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2018,7 +2018,7 @@ namespace impl {
         constexpr option_destruct_base(construct_from_invoke_tag, std::false_type, F&& f, Arg&& arg)
             : value(impl::invoke(static_cast<F&&>(f), static_cast<Arg&&>(arg))), has_value_flag(true) {}
 
-        OPTION_CONSTEXPR_CXX20 ~option_destruct_base() {
+        OPTION_CONSTEXPR_CXX20 ~option_destruct_base() noexcept {
             if (has_value_flag) {
                 value.~T();
             }
@@ -2130,7 +2130,7 @@ namespace impl {
             : value(impl::invoke(static_cast<F&&>(f), static_cast<Arg&&>(arg))) {
             OPTION_VERIFY(has_value(), "After the construction, the value is in an empty state. Possibly because of the constructor arguments");
         }
-        OPTION_CONSTEXPR_CXX20 ~option_destruct_base() {
+        OPTION_CONSTEXPR_CXX20 ~option_destruct_base() noexcept {
             if (has_value()) {
                 value.~T();
             }
-- 
2.43.0


From 392d2c76acb16d06f62f1436933000a71f092e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:30 +0000
Subject: [PATCH 19/23] fix: noexcept destructor of opt::option without losing
 constant evaluation with clang

With an explicit exception specification on the base, clang 18 cannot
destroy an option of an aggregate with a constexpr destructor in a
constant expression. The specification moves to opt::option itself.
---
 include/opt/option.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 3ac5209..c3577a7 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2018,7 +2018,7 @@ namespace impl {
         constexpr option_destruct_base(construct_from_invoke_tag, std::false_type, F&& f, Arg&& arg)
             : value(impl::invoke(static_cast<F&&>(f), static_cast<Arg&&>(arg))), has_value_flag(true) {}
 
-        OPTION_CONSTEXPR_CXX20 ~option_destruct_base() noexcept {
+        OPTION_CONSTEXPR_CXX20 ~option_destruct_base() {
             if (has_value_flag) {
                 value.~T();
             }
@@ -2130,7 +2130,7 @@ namespace impl {
             : value(impl::invoke(static_cast<F&&>(f), static_cast<Arg&&>(arg))) {
             OPTION_VERIFY(has_value(), "After the construction, the value is in an empty state. Possibly because of the constructor arguments");
         }
-        OPTION_CONSTEXPR_CXX20 ~option_destruct_base() noexcept {
+        OPTION_CONSTEXPR_CXX20 ~option_destruct_base() {
             if (has_value()) {
                 value.~T();
             }
@@ -2889,6 +2889,8 @@ public:
 
     option(option&&) = default;
 
+    ~option() noexcept = default;
+
     template<class U = std::remove_cv_t<T>, typename checks::template from_value_ctor<T, U>::template is_explicit<true>::type = 0>
     OPTION_RETURN_TYPESTATE(consumed)
     constexpr explicit option(U&& val)
-- 
2.43.0


From 3e37c3387147e9ad24558f9cf70dd486a7bb59b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:46 +0000
Subject: [PATCH 20/23] fix: inspect on an rvalue option (and on const&&) is
 compilable in C++23

C++23 treats a returned rvalue-reference parameter as an xvalue, which cannot bind to the lvalue reference inspect returns.
---
 include/opt/option.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index c3577a7..4288513 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -2666,7 +2666,7 @@ namespace impl::option {
         if (self.has_value()) {
             impl::invoke(static_cast<F&&>(f), static_cast<Self&&>(self).get());
         }
-        return self;
+        return static_cast<Self&>(self);
     }
 
     template<class Self, class F>
-- 
2.43.0


From ad3cadf153b294efc970c89471b96c157d81ef09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:39 +0000
Subject: [PATCH 21/23] fix: OPTION_USE_QUIET_NAN selects quiet NaNs for the
 empty states of floating point types

The macro was documented and defaulted but never read.
---
 include/opt/option.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 4288513..eb6061c 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -1094,14 +1094,14 @@ namespace impl {
                 if constexpr (sizeof(std::uintptr_t) == 4) {
                     return st::float64_qNaN;
                 } else {
-                    return limits::has_signaling_NaN ? st::float64_sNaN : st::float64_qNaN;
+                    return limits::has_signaling_NaN && !(OPTION_USE_QUIET_NAN) ? st::float64_sNaN : st::float64_qNaN;
                 }
             } else
             if constexpr (sizeof(T) == 4) {
                 if constexpr (sizeof(std::uintptr_t) == 4) {
                     return st::float32_qNaN;
                 } else {
-                    return limits::has_signaling_NaN ? st::float32_sNaN : st::float32_qNaN;
+                    return limits::has_signaling_NaN && !(OPTION_USE_QUIET_NAN) ? st::float32_sNaN : st::float32_qNaN;
                 }
             } else
             return st::none;
-- 
2.43.0


From 298295cc2a7021cf0f3d6f2f75c0db3081d6e740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:50 +0000
Subject: [PATCH 22/23] fix: options of enumerations without a fixed underlying
 type compile with Clang 16 and later

static_cast to a value outside of the range of such an enumeration is an error by default there.
---
 include/opt/option.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index eb6061c..311f58d 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -908,10 +908,18 @@ namespace impl {
         return current;
     }
 
+#if OPTION_CLANG && __clang_major__ >= 16
+    #pragma clang diagnostic push
+    // An error by default for the values outside of the range of an enumeration without a fixed underlying type
+    #pragma clang diagnostic ignored "-Wenum-constexpr-conversion"
+#endif
     template<class E, std::uintmax_t Max, class T, T... Vals>
     constexpr std::uintmax_t max_enum_value_impl1(std::integer_sequence<T, Vals...>) {
         return max_enum_value_impl2<static_cast<E>(Max - 1 - Vals)...>(Max);
     }
+#if OPTION_CLANG && __clang_major__ >= 16
+    #pragma clang diagnostic pop
+#endif
     template<class E, std::uintmax_t Max>
     constexpr std::uintmax_t max_enum_value() {
         return max_enum_value_impl1<E, Max>(
-- 
2.43.0


From b3fe6121f3e239b226e5eaf81523a3e9a57798a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:08 +0000
Subject: [PATCH 23/23] fix: options of enumerations in anonymous namespaces
 use the unused values with Clang too

Their values are printed like '((anonymous namespace)::E)1', which was taken for an enumerator.
---
 include/opt/option.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/opt/option.hpp b/include/opt/option.hpp
index 311f58d..72c5253 100644
--- a/include/opt/option.hpp
+++ b/include/opt/option.hpp
@@ -843,6 +843,17 @@ namespace impl {
 #endif
 
 #if OPTION_CAN_REFLECT_ENUM
+#if OPTION_CLANG && __clang_major__ > 12
+    // Enumerators: 'ns::E::a', '(anonymous namespace)::E::a'
+    // Other values: '(ns::E)1', '(ns::(anonymous namespace)::E)1'
+    constexpr bool is_enumerator_name(const char* const name, const std::size_t size) {
+        if (*name != '(') { return true; }
+        const char* end = __builtin_char_memchr(name, ',', size);
+        if (end == nullptr) { end = name + size - 2; } // the last one is followed by '>]'
+        do { end -= 1; } while (*end >= '0' && *end <= '9');
+        return *end != ')';
+    }
+#endif
     template<auto... Enumerators>
     constexpr std::uintmax_t max_enum_value_impl2(const std::uintmax_t max) {
         const char* const name = OPTION_CURRENT_FUNCTION();
@@ -852,6 +863,8 @@ namespace impl {
         const char* const start = __builtin_char_memchr(name, '<', size) + 1;
     #if OPTION_CLANG && __clang_major__ <= 12
         if (*start < '0' || *start > '9') { return 0; }
+    #elif OPTION_CLANG
+        if (is_enumerator_name(start, size - std::size_t(start - name))) { return 0; }
     #else
         if (*start != '(') { return 0; }
     #endif
@@ -868,9 +881,7 @@ namespace impl {
             if (*it < '0' || *it > '9') { break; }
         #else
             it += 2;
-            if (*it != '(') { break; }
-            it = __builtin_char_memchr(it, ')', size - std::size_t(it - name));
-            if (it[1] == ':') { break; }
+            if (is_enumerator_name(it, size - std::size_t(it - name))) { break; }
         #endif
     #else
             it += 1;
-- 
2.43.0

