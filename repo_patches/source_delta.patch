From 8442bf1c8932ee6f3bf375283af4ffee4b5c19c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:11 +0000
Subject: [PATCH 01/18] fix: compressed_tuple: convert each element to its own
 type

static_cast<Ts...>(values)... only names a type when there is exactly one
element, so a compressed_tuple of any other size did not compile. Forward the
values as well, so that move-only elements can be stored.
---
 src/pigro/compressed_tuple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/compressed_tuple.h b/src/pigro/compressed_tuple.h
index 0e1bb53..4437826 100644
--- a/src/pigro/compressed_tuple.h
+++ b/src/pigro/compressed_tuple.h
@@ -56,7 +56,7 @@ struct compressed_tuple : compressed_tuple_base_t<Ts...> {
     template<typename... Us>
     explicit compressed_tuple(Us &&...values) requires(sizeof...(Ts) == sizeof...(Us))
       : compressed_tuple_base_t<Ts...>{
-            make_compressed_tuple_base<Ts...>(static_cast<Ts...>(values)...)
+            make_compressed_tuple_base<Ts...>(static_cast<Ts>(std::forward<Us>(values))...)
         } {}
 };
 
-- 
2.43.0


From 33dc23b5b2fe94605b5fd5eae79366ab41c4dbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:11 +0000
Subject: [PATCH 02/18] fix: compressed_tuple: make the element factories
 usable with GCC

The overload for empty elements took its argument by value, which is ambiguous
with the forwarding one. Returning lambdas made every type name contain all the
names of the elements several times over, which the compiler cannot cope with
once compressed_tuples are nested (as lazy does): use named types instead.
---
 src/pigro/compressed_tuple.h | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/pigro/compressed_tuple.h b/src/pigro/compressed_tuple.h
index 4437826..8c8a8e1 100644
--- a/src/pigro/compressed_tuple.h
+++ b/src/pigro/compressed_tuple.h
@@ -15,23 +15,34 @@
 
 namespace pigro {
 
+template<size_t tag, typename T>
+struct stateless_element {
+    auto operator()(auto &&, idx_t<tag>) const {
+        return empty_object<T>::get();
+    }
+};
+
+template<size_t tag, typename T>
+struct stateful_element {
+    std::tuple<T> value;
+
+    auto operator()(auto &&self, idx_t<tag>) const -> decltype(auto) {
+        return forward_like<decltype(self)>(as_nonconst(std::forward<decltype(self)>(self))(idx<tag>));
+    }
+
+    auto operator()(auto &&self, idx_t<tag>) -> decltype(auto) {
+        return access(forward_like<decltype(self)>(value));
+    }
+};
+
 template<size_t tag, concepts::empty T>
-auto compressed_tuple_element(T) {
-    return [](auto &&, idx_t<tag>) {
-        return empty_object<std::remove_cvref_t<T>>::get();
-    };
+auto compressed_tuple_element(T &&) {
+    return stateless_element<tag, std::remove_cvref_t<T>>{};
 }
 
 template<size_t tag, typename T>
 auto compressed_tuple_element(T &&value) {
-    return overload{
-        [](auto &&self, idx_t<tag>) -> decltype(auto) {
-            return forward_like<decltype(self)>(as_nonconst(std::forward<decltype(self)>(self))(idx<tag>));
-        },
-        [value = fwd_capture(std::forward<T>(value))](auto &&self, idx_t<tag>) mutable -> decltype(auto) {
-            return access(forward_like<decltype(self)>(value));
-        },
-    };
+    return stateful_element<tag, T>{ fwd_capture(std::forward<T>(value)) };
 }
 
 template<typename... Ts>
-- 
2.43.0


From b32437767ccfa42d70399f9e712d6e79e381cb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:11 +0000
Subject: [PATCH 03/18] fix: recursive: do not slice callables that derive from
 a recursive

Class template argument deduction considered the copy deduction candidate for a
callable deriving from recursive<G>, giving recursive<G> itself.
---
 src/pigro/recursive.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pigro/recursive.h b/src/pigro/recursive.h
index 2453b43..8348510 100644
--- a/src/pigro/recursive.h
+++ b/src/pigro/recursive.h
@@ -33,4 +33,7 @@ struct recursive : F {
     }
 };
 
+template<typename F>
+recursive(F) -> recursive<F>;
+
 } // namespace pigro
-- 
2.43.0


From b5293423bcb1b9f95651dee41117b6a5a95b9c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:11 +0000
Subject: [PATCH 04/18] fix: bind_tuple: invoke the bound function in place

The trailing return type named the parameters of the factory, which GCC rejects,
and the catch-all call operator competed with the element accessors.
std::bind_front copied the bound function on each call, so that its state was
lost.
---
 src/pigro/bind_tuple.h | 59 +++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/src/pigro/bind_tuple.h b/src/pigro/bind_tuple.h
index 337c0d4..202b61d 100644
--- a/src/pigro/bind_tuple.h
+++ b/src/pigro/bind_tuple.h
@@ -17,36 +17,43 @@ auto bind_back(auto &&f, auto &&...back_args) {
     };
 }
 
-auto bind_front_tuple(auto &&f, concepts::tuple_like auto &&t) {
-    return recursive{
-        overload{
-          compressed_tuple_element<0>(FWD(f)),
-          compressed_tuple_element<1>(FWD(t)),
-          [](auto &&self, auto &&...args)
-            -> decltype(pigro::apply(bind_back(f, FWD(args)...), t)) {
-              auto &&f = self(idx<0>);
-              auto &&t = self(idx<1>);
-
-              return pigro::apply(bind_back(f, FWD(args)...), t);
-          },
-        }
+auto bind_front(auto &&f, auto &&...front_args) {
+    return [f = FWD_CAPTURE(f), ... front_args = FWD_CAPTURE(front_args)](auto &&...back_args) mutable
+           -> decltype(std::invoke(FWD(f), FWD(front_args)..., FWD(back_args)...)) {
+        return std::invoke(access(f), access(front_args)..., FWD(back_args)...);
     };
 }
 
+template<typename Bound>
+struct front_tuple_invoker : Bound {
+    auto operator()(auto &&self, auto &&...args) const
+      -> decltype(pigro::apply(bind_back(std::declval<Bound &>()(idx<0>), FWD(args)...), std::declval<Bound &>()(idx<1>))) {
+        auto &bound = static_cast<like_t<decltype((self)), Bound>>(self);
+        auto &&f = bound(idx<0>);
+        auto &&t = bound(idx<1>);
+
+        return pigro::apply(bind_back(f, FWD(args)...), t);
+    }
+};
+
+auto bind_front_tuple(auto &&f, concepts::tuple_like auto &&t) {
+    return recursive{ front_tuple_invoker{ make_compressed_tuple_base(FWD(f), FWD(t)) } };
+}
+
+template<typename Bound>
+struct back_tuple_invoker : Bound {
+    auto operator()(auto &&self, auto &&...args) const
+      -> decltype(pigro::apply(pigro::bind_front(std::declval<Bound &>()(idx<0>), FWD(args)...), std::declval<Bound &>()(idx<1>))) {
+        auto &bound = static_cast<like_t<decltype((self)), Bound>>(self);
+        auto &&f = bound(idx<0>);
+        auto &&t = bound(idx<1>);
+
+        return pigro::apply(pigro::bind_front(f, FWD(args)...), t);
+    }
+};
+
 auto bind_back_tuple(auto &&f, concepts::tuple_like auto &&t) {
-    return recursive{
-        overload{
-          compressed_tuple_element<0>(FWD(f)),
-          compressed_tuple_element<1>(FWD(t)),
-          [](auto &&self, auto &&...args)
-            -> decltype(pigro::apply(std::bind_front(f, FWD(args)...), t)) {
-              auto &&f = self(idx<0>);
-              auto &&t = self(idx<1>);
-
-              return pigro::apply(std::bind_front(f, FWD(args)...), t);
-          },
-        }
-    };
+    return recursive{ back_tuple_invoker{ make_compressed_tuple_base(FWD(f), FWD(t)) } };
 }
 
 auto operator>>(concepts::tuple_like auto &&args, auto &&f) {
-- 
2.43.0


From bc1020b1eb895d8d227ca1b8c044c65fac92ee42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:11 +0000
Subject: [PATCH 05/18] fix: regular_void: invoke the wrapped function in place

It was copied on each call, so that its state was lost.
---
 src/pigro/regular_void.h | 44 ++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/pigro/regular_void.h b/src/pigro/regular_void.h
index 77504f9..172fbf5 100644
--- a/src/pigro/regular_void.h
+++ b/src/pigro/regular_void.h
@@ -12,30 +12,34 @@ struct regular_void {
     auto operator<=>(const regular_void &) const = default;
 };
 
+constexpr auto regularized_invoke = [](auto &&f, auto... args) mutable {
+    using result_t = decltype(f(args...));
+
+    if constexpr (std::same_as<result_t, void>) {
+        f(args...);
+        return regular_void{};
+    } else {
+        return f(args...);
+    }
+};
+
+constexpr auto unregularized_invoke = [](auto &&f, auto... args) mutable {
+    using result_t = decltype(f(args...));
+
+    if constexpr (std::same_as<result_t, regular_void>) {
+        f(args...);
+        return;
+    } else {
+        return f(args...);
+    }
+};
+
 constexpr auto regularized_void(auto f) {
-    return compressed_tuple{ f } >> [](auto f, auto... args) mutable {
-        using result_t = decltype(f(args...));
-
-        if constexpr (std::same_as<result_t, void>) {
-            f(args...);
-            return regular_void{};
-        } else {
-            return f(args...);
-        }
-    };
+    return compressed_tuple{ f } >> regularized_invoke;
 }
 
 constexpr auto unregularized_void(auto f) {
-    return compressed_tuple{ f } >> [](auto f, auto... args) mutable {
-        using result_t = decltype(f(args...));
-
-        if constexpr (std::same_as<result_t, regular_void>) {
-            f(args...);
-            return;
-        } else {
-            return f(args...);
-        }
-    };
+    return compressed_tuple{ f } >> unregularized_invoke;
 }
 
 } // namespace pigro
-- 
2.43.0


From 85294abe2e73b490d2600020052ffeacadec3921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:11 +0000
Subject: [PATCH 06/18] fix: lazy: keep the state of functions and dependencies
 between calls

The function and the dependencies were copied on each call, so that nothing that
is cached in them survived. The detail function is renamed, because an
unqualified call to lazy with a lazy dependency found it through ADL, and
lazy_value no longer returns a reference to its own parameter.
---
 src/pigro/lazy.h | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index 4fc51ce..e87cfd2 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -32,22 +32,28 @@ constexpr auto is_changed = [](const concepts::lazy_result auto result) {
     return result.is_changed;
 };
 
+constexpr auto invoke_wrapped = [](auto &&, std::nullptr_t, auto &&f) {
+    return f(nullptr);
+};
+
+constexpr auto invoke_unwrapped = [](auto &self) mutable {
+    return self(nullptr).value;
+};
+
 constexpr auto unwrap_value(concepts::lazy_function auto f) {
     return recursive{
         overload{
-          compressed_tuple{ f } << [](auto &self, std::nullptr_t, auto f) { return f(nullptr); },
-          [](auto &self) mutable {
-              return self(nullptr).value;
-          },
+          compressed_tuple{ f } << invoke_wrapped,
+          invoke_unwrapped,
         }
     };
 }
 
-constexpr auto lazy(auto f, concepts::lazy_function auto... deps) {
+constexpr auto lazy_core(auto f, concepts::lazy_function auto... deps) {
     using result_t = decltype(f(deps(nullptr).value...));
 
     auto cache = std::optional<result_t>{};
-    return compressed_tuple{ f, deps... } << [=](std::nullptr_t, auto f, auto... deps) mutable {
+    return compressed_tuple{ f, deps... } << [=](std::nullptr_t, auto &&f, auto &&...deps) mutable {
         const auto args = std::tuple{ deps(nullptr)... };
 
         auto changed = !cache || any(args, is_changed);
@@ -68,7 +74,7 @@ constexpr auto lazy(auto f, concepts::lazy_function auto... deps) {
 
 constexpr auto lazy_value(auto value, auto changed) {
     return compressed_tuple{ value, changed } << [](std::nullptr_t, auto value, auto changed) {
-        return LazyResult{
+        return LazyResult<decltype(value)>{
             value,
             changed,
         };
@@ -80,8 +86,8 @@ constexpr auto ensure_lazy(concepts::lazy_function_unwrapped auto dep) {
 }
 
 constexpr auto ensure_lazy(::std::invocable auto dep) {
-    return detail::lazy(
-      compressed_tuple{ dep } << [](auto, auto dep) mutable { return dep(); },
+    return detail::lazy_core(
+      compressed_tuple{ dep } << [](auto, auto &&dep) mutable { return dep(); },
       lazy_value(0, std::true_type{}));
 }
 
@@ -94,7 +100,7 @@ constexpr auto ensure_lazy(auto dep) {
 namespace pigro {
 
 auto lazy(auto f, auto... deps) {
-    auto lazy_f = detail::lazy(
+    auto lazy_f = detail::lazy_core(
       regularized_void(f),
       detail::ensure_lazy(deps)...);
 
-- 
2.43.0


From 53b585cbd8249b83214bd6517ec13286e88bd0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:28 +0000
Subject: [PATCH 07/18] fix: transform: keep a projected pair or tuple as one
 element

std::tuple{ x } copies x instead of wrapping it, when x is a tuple or a pair. A
lazy function with one dependency that returns a tuple was called with the
elements of it.
---
 src/pigro/tuple_algorithms.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/tuple_algorithms.h b/src/pigro/tuple_algorithms.h
index 0cd2496..dec2be3 100644
--- a/src/pigro/tuple_algorithms.h
+++ b/src/pigro/tuple_algorithms.h
@@ -7,7 +7,7 @@ namespace pigro {
 
 constexpr auto transform(const auto &data, auto projection) {
     return std::apply([=](const auto &...args) {
-        return std::tuple{ projection(args)... };
+        return std::tuple<std::decay_t<decltype(projection(args))>...>{ projection(args)... };
     },
       data);
 }
-- 
2.43.0


From 13671cd4a4c144cfcd15c17e2d16313e42db1d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:28 +0000
Subject: [PATCH 08/18] fix: lazy: compare with the cached value rather than
 with the cache

If the function itself returns a std::optional, comparing it with the cache
unwraps the result rather than the cache, so that an unchanged empty result was
reported as a change.
---
 src/pigro/lazy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index e87cfd2..4833f9c 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -61,7 +61,7 @@ constexpr auto lazy_core(auto f, concepts::lazy_function auto... deps) {
             const auto values = transform(args, value);
             const auto result = std::apply(f, values);
 
-            changed = cache != result;
+            changed = !cache || *cache != result;
             cache = std::move(result);
         }
 
-- 
2.43.0


From 4c5a68cd98a69b2a44a27f1c577031d195be262f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:28 +0000
Subject: [PATCH 09/18] fix: uncapture: qualify the empty concept

---
 src/pigro/uncapture.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/uncapture.h b/src/pigro/uncapture.h
index 7220485..a5ed048 100644
--- a/src/pigro/uncapture.h
+++ b/src/pigro/uncapture.h
@@ -17,7 +17,7 @@ struct Uncaptured {
     auto &get_value() { return value; }
 };
 
-template<empty T, size_t tag>
+template<concepts::empty T, size_t tag>
 struct Uncaptured<T, tag> {
     Uncaptured(T) {}
 
-- 
2.43.0


From db773e722fe288f45612933b98b0ad770d8c776c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:49 +0000
Subject: [PATCH 10/18] fix: tuple_like: be false, rather than ill-formed, for
 other types

Naming the incomplete std::tuple_size<T> is fine, so the lambda was instantiated
for every type: any << or >> in a scope that sees the operators of bind_tuple.h
was an error.
---
 src/pigro/concepts.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/concepts.h b/src/pigro/concepts.h
index 59551d6..43005f0 100644
--- a/src/pigro/concepts.h
+++ b/src/pigro/concepts.h
@@ -31,7 +31,7 @@ concept has_tuple_element =
 
 template<class T>
 concept tuple_like = requires {
-    typename std::tuple_size<std::remove_reference_t<T>>;
+    typename std::tuple_size<std::remove_reference_t<T>>::value_type;
     std::same_as<decltype(std::tuple_size_v<std::remove_reference_t<T>>), size_t>;
 }
 &&[]<std::size_t... I>(std::index_sequence<I...>) {
-- 
2.43.0


From 2908dd287e4e8faf2f4fcb2fc419fedfc00fbb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:16 +0000
Subject: [PATCH 11/18] fix: lazy: do not return a stale value after an
 exception

A change of a dependency is reported once. If the function (or another
dependency) throws in the call it is reported in, the next call would not notice
it and return the value from before the change: drop the cached value when an
exception escapes.
---
 src/pigro/lazy.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index 4833f9c..6676cb0 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -9,6 +9,7 @@
 
 #include <concepts>
 #include <cstddef>
+#include <exception>
 #include <optional>
 #include <utility>
 
@@ -49,11 +50,27 @@ constexpr auto unwrap_value(concepts::lazy_function auto f) {
     };
 }
 
+template<typename Cache>
+struct reset_on_exception {
+    Cache &cache;
+    int uncaught_exceptions = std::uncaught_exceptions();
+
+    ~reset_on_exception() {
+        if (std::uncaught_exceptions() > uncaught_exceptions)
+            cache = Cache{};
+    }
+};
+
+template<typename Cache>
+reset_on_exception(Cache &) -> reset_on_exception<Cache>;
+
 constexpr auto lazy_core(auto f, concepts::lazy_function auto... deps) {
     using result_t = decltype(f(deps(nullptr).value...));
 
     auto cache = std::optional<result_t>{};
     return compressed_tuple{ f, deps... } << [=](std::nullptr_t, auto &&f, auto &&...deps) mutable {
+        const auto guard = reset_on_exception{ cache };
+
         const auto args = std::tuple{ deps(nullptr)... };
 
         auto changed = !cache || any(args, is_changed);
-- 
2.43.0


From d6765e6543a95c38f03754eb1c8596a6390e5e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:56 +0000
Subject: [PATCH 12/18] fix: lazy: do not store an int for each plain function

The memory_footprint test expects a plain function to cost no more than its
state and its cached value; the placeholder it was made to depend on was an int,
which takes space. Use an empty type.
---
 src/pigro/lazy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index 6676cb0..7d37588 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -105,7 +105,7 @@ constexpr auto ensure_lazy(concepts::lazy_function_unwrapped auto dep) {
 constexpr auto ensure_lazy(::std::invocable auto dep) {
     return detail::lazy_core(
       compressed_tuple{ dep } << [](auto, auto &&dep) mutable { return dep(); },
-      lazy_value(0, std::true_type{}));
+      lazy_value(std::true_type{}, std::true_type{}));
 }
 
 constexpr auto ensure_lazy(auto dep) {
-- 
2.43.0


From c2696c67ed1b0dcf0b4da20aaf88a468279d986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:51 +0000
Subject: [PATCH 13/18] fix: compressed_tuple: copy a non-const tuple of one
 element instead of converting it

---
 src/pigro/compressed_tuple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/compressed_tuple.h b/src/pigro/compressed_tuple.h
index 8c8a8e1..00ff92d 100644
--- a/src/pigro/compressed_tuple.h
+++ b/src/pigro/compressed_tuple.h
@@ -65,7 +65,7 @@ struct compressed_tuple : compressed_tuple_base_t<Ts...> {
       : compressed_tuple_base_t<Ts...>{ make_compressed_tuple_base<Ts...>(Ts{}...) } {}
 
     template<typename... Us>
-    explicit compressed_tuple(Us &&...values) requires(sizeof...(Ts) == sizeof...(Us))
+    explicit compressed_tuple(Us &&...values) requires(sizeof...(Ts) == sizeof...(Us) && !(sizeof...(Us) == 1 && (std::same_as<std::remove_cvref_t<Us>, compressed_tuple> && ...)))
       : compressed_tuple_base_t<Ts...>{
             make_compressed_tuple_base<Ts...>(static_cast<Ts>(std::forward<Us>(values))...)
         } {}
-- 
2.43.0


From 0527db74f15f15ad54e37ae96a92750aa6a24e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:58 +0000
Subject: [PATCH 14/18] fix: optional<regular_void>: offer has_value, value,
 reset, emplace and nullopt

---
 src/pigro/regular_void.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/pigro/regular_void.h b/src/pigro/regular_void.h
index 172fbf5..891c578 100644
--- a/src/pigro/regular_void.h
+++ b/src/pigro/regular_void.h
@@ -52,6 +52,7 @@ class optional<pigro::regular_void> {
 
 public:
     optional() = default;
+    constexpr optional(nullopt_t) {}
     constexpr optional(pigro::regular_void) : engaged{ true } {}
 
     constexpr auto &operator=(pigro::regular_void) {
@@ -59,9 +60,29 @@ public:
         return *this;
     }
 
+    constexpr auto &operator=(nullopt_t) {
+        engaged = false;
+        return *this;
+    }
+
     constexpr explicit operator bool() const { return engaged; }
     constexpr auto operator*() const { return pigro::regular_void{}; }
 
+    constexpr bool has_value() const { return engaged; }
+    constexpr auto value() const {
+        if (!engaged)
+            throw bad_optional_access{};
+
+        return pigro::regular_void{};
+    }
+
+    constexpr auto emplace() {
+        engaged = true;
+        return pigro::regular_void{};
+    }
+
+    constexpr void reset() { engaged = false; }
+
     constexpr friend auto operator==(
       const optional<pigro::regular_void> lhs,
       const optional<pigro::regular_void> rhs) {
-- 
2.43.0


From 03931ca2de2295e1a82e3e77a291faae16278d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:08 +0000
Subject: [PATCH 15/18] fix: bind_back, bind_front: result type of the call
 that is made, with stored values as lvalues

---
 src/pigro/bind_tuple.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pigro/bind_tuple.h b/src/pigro/bind_tuple.h
index 202b61d..0ebaf8e 100644
--- a/src/pigro/bind_tuple.h
+++ b/src/pigro/bind_tuple.h
@@ -12,14 +12,14 @@ namespace pigro {
 
 auto bind_back(auto &&f, auto &&...back_args) {
     return [f = FWD_CAPTURE(f), ... back_args = FWD_CAPTURE(back_args)](auto &&...front_args) mutable
-           -> decltype(std::invoke(FWD(f), FWD(front_args)..., FWD(back_args)...)) {
+           -> decltype(std::invoke(f, FWD(front_args)..., back_args...)) {
         return std::invoke(access(f), FWD(front_args)..., access(back_args)...);
     };
 }
 
 auto bind_front(auto &&f, auto &&...front_args) {
     return [f = FWD_CAPTURE(f), ... front_args = FWD_CAPTURE(front_args)](auto &&...back_args) mutable
-           -> decltype(std::invoke(FWD(f), FWD(front_args)..., FWD(back_args)...)) {
+           -> decltype(std::invoke(f, front_args..., FWD(back_args)...)) {
         return std::invoke(access(f), access(front_args)..., FWD(back_args)...);
     };
 }
-- 
2.43.0


From a228b577507b8eb4bc0cb09214a44d646759c034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:19 +0000
Subject: [PATCH 16/18] fix: empty_object: allow empty classes with a
 destructor of their own

---
 src/pigro/empty_object.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pigro/empty_object.h b/src/pigro/empty_object.h
index 41a4a5d..462cef8 100644
--- a/src/pigro/empty_object.h
+++ b/src/pigro/empty_object.h
@@ -16,6 +16,7 @@ struct empty_object {
 
     union Storage {
         constexpr Storage() : t1{} {}
+        ~Storage() {}
         T1 t1;
         T2 t2;
     };
-- 
2.43.0


From b94e488ea9371092cd6b6bd30f593a1f716fe424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:06 +0000
Subject: [PATCH 17/18] fix: uncapture: value of a type that is also uncaptured
 within an overload or recursive function

unique_tag only looked at the outermost function, so the same empty base
occurred twice and the value could not be reached (ambiguous base).
---
 src/pigro/uncapture.h | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/src/pigro/uncapture.h b/src/pigro/uncapture.h
index a5ed048..d072303 100644
--- a/src/pigro/uncapture.h
+++ b/src/pigro/uncapture.h
@@ -9,7 +9,7 @@
 
 namespace pigro::detail {
 
-template<typename T, size_t tag = 0>
+template<typename T, typename Tag = void>
 struct Uncaptured {
     T value;
 
@@ -17,17 +17,19 @@ struct Uncaptured {
     auto &get_value() { return value; }
 };
 
-template<concepts::empty T, size_t tag>
-struct Uncaptured<T, tag> {
+template<concepts::empty T, typename Tag>
+struct Uncaptured<T, Tag> {
     Uncaptured(T) {}
 
     auto get_value() const { return empty_object<T>::get(); }
 };
 
-template<typename U, typename F, size_t tag>
-struct CompressedInvocable : private U
+// The function serves as tag, such that the same type of value can occur
+// again in the function itself.
+template<typename T, typename F>
+struct CompressedInvocable : private Uncaptured<T, F>
   , F {
-    constexpr static auto unique_tag = tag;
+    using U = Uncaptured<T, F>;
 
     template<typename... Args>
     auto operator()(Args &&...args) const
@@ -40,21 +42,9 @@ struct CompressedInvocable : private U
     CompressedInvocable(U u, F f) : U{ u }, F{ f } {};
 };
 
-template<typename F>
-struct unique_tag { constexpr static auto value = 0; };
-
-template<typename U, typename F, size_t tag>
-struct unique_tag<CompressedInvocable<U, F, tag>> {
-    constexpr static auto value = tag;
-};
-
-template<typename F>
-constexpr auto unique_tag_v = unique_tag<F>::value;
-
 template<typename T, typename F>
 auto operator>>(Uncaptured<T> u, F f) {
-    constexpr auto unique_tag = unique_tag_v<F> + 1;
-    return CompressedInvocable<Uncaptured<T, unique_tag>, F, unique_tag>{ Uncaptured<T, unique_tag>{ u.get_value() }, f };
+    return CompressedInvocable<T, F>{ Uncaptured<T, F>{ u.get_value() }, f };
 }
 
 template<typename T>
-- 
2.43.0


From 3a6d43698feedcfa6da6fdbffa99d230fee223a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:30 +0000
Subject: [PATCH 18/18] fix: overload: do not slice a callable that derives
 from an overload

Class template argument deduction considered the copy deduction candidate for a
single callable deriving from overload<Gs...> (e.g. a bound function), giving
overload<Gs...> itself.
---
 src/pigro/overload.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pigro/overload.h b/src/pigro/overload.h
index 98a3463..bc2ee29 100644
--- a/src/pigro/overload.h
+++ b/src/pigro/overload.h
@@ -36,6 +36,9 @@ template<typename... Fs>
 struct overload : Fs... {
     using Fs::operator()...;
 };
+
+template<typename... Fs>
+overload(Fs...) -> overload<Fs...>;
 #endif
 
 } // namespace pigro
-- 
2.43.0

