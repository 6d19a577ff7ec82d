From 2a5fe2e359fa852d67d6f5a4f5fde84ac567c802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:37 +0000
Subject: [PATCH 01/20] fix: tuple_like is false instead of ill-formed for
 types that are not tuples

---
 src/pigro/concepts.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pigro/concepts.h b/src/pigro/concepts.h
index 59551d6..9b690b6 100644
--- a/src/pigro/concepts.h
+++ b/src/pigro/concepts.h
@@ -31,8 +31,8 @@ concept has_tuple_element =
 
 template<class T>
 concept tuple_like = requires {
-    typename std::tuple_size<std::remove_reference_t<T>>;
-    std::same_as<decltype(std::tuple_size_v<std::remove_reference_t<T>>), size_t>;
+    typename std::tuple_size<std::remove_reference_t<T>>::type;
+    requires std::same_as<std::remove_cv_t<decltype(std::tuple_size<std::remove_reference_t<T>>::value)>, std::size_t>;
 }
 &&[]<std::size_t... I>(std::index_sequence<I...>) {
     return (has_tuple_element<I, std::remove_reference_t<T>> && ...);
-- 
2.43.0


From 5ae5796b124ea5389a3814c9e977e6001f38a0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:37 +0000
Subject: [PATCH 02/20] fix: final classes cannot be optimized away as an empty
 base class

---
 src/pigro/concepts.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/concepts.h b/src/pigro/concepts.h
index 9b690b6..f09084e 100644
--- a/src/pigro/concepts.h
+++ b/src/pigro/concepts.h
@@ -21,7 +21,7 @@ template<typename F>
 concept lazy_function_unwrapped = lazy_function<F> && ::std::invocable<F>;
 
 template<typename T>
-concept empty = std::is_empty_v<std::remove_cvref_t<T>>;
+concept empty = std::is_empty_v<std::remove_cvref_t<T>> && !std::is_final_v<std::remove_cvref_t<T>>;
 
 template<std::size_t I, class T>
 concept has_tuple_element =
-- 
2.43.0


From b40e008bde360aa0a0522199f40236810decd882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:37 +0000
Subject: [PATCH 03/20] fix: qualify the empty concept in uncapture

---
 src/pigro/uncapture.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/uncapture.h b/src/pigro/uncapture.h
index 7220485..a5ed048 100644
--- a/src/pigro/uncapture.h
+++ b/src/pigro/uncapture.h
@@ -17,7 +17,7 @@ struct Uncaptured {
     auto &get_value() { return value; }
 };
 
-template<empty T, size_t tag>
+template<concepts::empty T, size_t tag>
 struct Uncaptured<T, tag> {
     Uncaptured(T) {}
 
-- 
2.43.0


From e8be334b126de1dddedd9ead93332f347067e68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:37 +0000
Subject: [PATCH 04/20] fix: transform keeps a single tuple or pair as an
 element of its result

---
 src/pigro/tuple_algorithms.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pigro/tuple_algorithms.h b/src/pigro/tuple_algorithms.h
index 0cd2496..a488b95 100644
--- a/src/pigro/tuple_algorithms.h
+++ b/src/pigro/tuple_algorithms.h
@@ -2,12 +2,13 @@
 
 #include <functional>
 #include <tuple>
+#include <type_traits>
 
 namespace pigro {
 
 constexpr auto transform(const auto &data, auto projection) {
     return std::apply([=](const auto &...args) {
-        return std::tuple{ projection(args)... };
+        return std::tuple<std::decay_t<decltype(projection(args))>...>{ projection(args)... };
     },
       data);
 }
-- 
2.43.0


From 2b6c551ca3c561c9b033b62ca13ce4bdc63f7b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:37 +0000
Subject: [PATCH 05/20] fix: compressed_tuple of zero or several elements is
 constructible, and forwards its values

---
 src/pigro/compressed_tuple.h | 39 +++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/pigro/compressed_tuple.h b/src/pigro/compressed_tuple.h
index 0e1bb53..daac731 100644
--- a/src/pigro/compressed_tuple.h
+++ b/src/pigro/compressed_tuple.h
@@ -15,23 +15,38 @@
 
 namespace pigro {
 
+// Note: the elements are named types, because the name of a lambda repeats both
+// the template arguments and the parameters of the function it is defined in, as
+// a result of which the (debug) symbols of nested elements grow exponentially.
+template<size_t tag, typename T>
+struct compressed_tuple_empty_element {
+    auto operator()(auto &&, idx_t<tag>) const {
+        return empty_object<std::remove_cvref_t<T>>::get();
+    }
+};
+
+template<size_t tag, typename T>
+struct compressed_tuple_value_element {
+    std::tuple<T> value;
+
+    decltype(auto) operator()(auto &&self, idx_t<tag>) const {
+        return forward_like<decltype(self)>(access(as_nonconst(value)));
+    }
+
+    decltype(auto) operator()(auto &&self, idx_t<tag>) {
+        return access(forward_like<decltype(self)>(value));
+    }
+};
+
 template<size_t tag, concepts::empty T>
 auto compressed_tuple_element(T) {
-    return [](auto &&, idx_t<tag>) {
-        return empty_object<std::remove_cvref_t<T>>::get();
-    };
+    return compressed_tuple_empty_element<tag, T>{};
 }
 
 template<size_t tag, typename T>
+requires(!concepts::empty<T>)
 auto compressed_tuple_element(T &&value) {
-    return overload{
-        [](auto &&self, idx_t<tag>) -> decltype(auto) {
-            return forward_like<decltype(self)>(as_nonconst(std::forward<decltype(self)>(self))(idx<tag>));
-        },
-        [value = fwd_capture(std::forward<T>(value))](auto &&self, idx_t<tag>) mutable -> decltype(auto) {
-            return access(forward_like<decltype(self)>(value));
-        },
-    };
+    return compressed_tuple_value_element<tag, T>{ fwd_capture(std::forward<T>(value)) };
 }
 
 template<typename... Ts>
@@ -56,7 +71,7 @@ struct compressed_tuple : compressed_tuple_base_t<Ts...> {
     template<typename... Us>
     explicit compressed_tuple(Us &&...values) requires(sizeof...(Ts) == sizeof...(Us))
       : compressed_tuple_base_t<Ts...>{
-            make_compressed_tuple_base<Ts...>(static_cast<Ts...>(values)...)
+            make_compressed_tuple_base<Ts...>(static_cast<Ts>(std::forward<Us>(values))...)
         } {}
 };
 
-- 
2.43.0


From 0ba96094632caecef5ea902af4d01d6749b10832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:37 +0000
Subject: [PATCH 06/20] fix: copying a non-const compressed_tuple of one
 element

---
 src/pigro/compressed_tuple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/compressed_tuple.h b/src/pigro/compressed_tuple.h
index daac731..d27765b 100644
--- a/src/pigro/compressed_tuple.h
+++ b/src/pigro/compressed_tuple.h
@@ -69,7 +69,7 @@ struct compressed_tuple : compressed_tuple_base_t<Ts...> {
       : compressed_tuple_base_t<Ts...>{ make_compressed_tuple_base<Ts...>(Ts{}...) } {}
 
     template<typename... Us>
-    explicit compressed_tuple(Us &&...values) requires(sizeof...(Ts) == sizeof...(Us))
+    explicit compressed_tuple(Us &&...values) requires(sizeof...(Ts) == sizeof...(Us) && !(std::same_as<std::remove_cvref_t<Us>, compressed_tuple> || ...))
       : compressed_tuple_base_t<Ts...>{
             make_compressed_tuple_base<Ts...>(static_cast<Ts>(std::forward<Us>(values))...)
         } {}
-- 
2.43.0


From aeb8b675ea4d94e8718a7e8158b81ad26829a935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:37 +0000
Subject: [PATCH 07/20] fix: bound tuples compile with GCC, keep the state of
 the function, and take any arguments

---
 src/pigro/bind_tuple.h | 76 +++++++++++++++++++++++++++---------------
 1 file changed, 49 insertions(+), 27 deletions(-)

diff --git a/src/pigro/bind_tuple.h b/src/pigro/bind_tuple.h
index 337c0d4..94a68af 100644
--- a/src/pigro/bind_tuple.h
+++ b/src/pigro/bind_tuple.h
@@ -17,36 +17,58 @@ auto bind_back(auto &&f, auto &&...back_args) {
     };
 }
 
-auto bind_front_tuple(auto &&f, concepts::tuple_like auto &&t) {
-    return recursive{
-        overload{
-          compressed_tuple_element<0>(FWD(f)),
-          compressed_tuple_element<1>(FWD(t)),
-          [](auto &&self, auto &&...args)
-            -> decltype(pigro::apply(bind_back(f, FWD(args)...), t)) {
-              auto &&f = self(idx<0>);
-              auto &&t = self(idx<1>);
-
-              return pigro::apply(bind_back(f, FWD(args)...), t);
-          },
-        }
+auto bind_front(auto &&f, auto &&...front_args) {
+    return [f = FWD_CAPTURE(f), ... front_args = FWD_CAPTURE(front_args)](auto &&...back_args) mutable
+           -> decltype(std::invoke(FWD(f), FWD(front_args)..., FWD(back_args)...)) {
+        return std::invoke(access(f), access(front_args)..., FWD(back_args)...);
     };
 }
 
-auto bind_back_tuple(auto &&f, concepts::tuple_like auto &&t) {
-    return recursive{
-        overload{
-          compressed_tuple_element<0>(FWD(f)),
-          compressed_tuple_element<1>(FWD(t)),
-          [](auto &&self, auto &&...args)
-            -> decltype(pigro::apply(std::bind_front(f, FWD(args)...), t)) {
-              auto &&f = self(idx<0>);
-              auto &&t = self(idx<1>);
-
-              return pigro::apply(std::bind_front(f, FWD(args)...), t);
-          },
-        }
-    };
+// Holds both the function and the tuple of arguments that are bound to it. These
+// are not part of the overload set, such that the arguments of a call can never
+// be mistaken for an attempt to access them.
+template<typename Binder, typename F, typename T>
+struct bound_tuple : compressed_tuple<F, T> {
+    using base = compressed_tuple<F, T>;
+    using base::base;
+
+    template<typename... Args>
+    auto operator()(Args &&...args)
+      -> decltype(Binder::call(std::declval<F &>(), std::declval<T &>(), FWD(args)...)) {
+        auto &&f = get<0>(static_cast<base &>(*this));
+        auto &&t = get<1>(static_cast<base &>(*this));
+
+        return Binder::call(f, t, FWD(args)...);
+    }
+
+    template<typename... Args>
+    auto operator()(Args &&...args) const
+      -> decltype(Binder::call(std::declval<F &>(), std::declval<T &>(), FWD(args)...)) {
+        auto &&f = get<0>(static_cast<const base &>(*this));
+        auto &&t = get<1>(static_cast<const base &>(*this));
+
+        return Binder::call(f, t, FWD(args)...);
+    }
+};
+
+struct front_binder {
+    static auto call(auto &&f, auto &&t, auto &&...args)
+      SFINAEABLE_RETURN(pigro::apply(bind_back(f, FWD(args)...), t))
+};
+
+struct back_binder {
+    static auto call(auto &&f, auto &&t, auto &&...args)
+      SFINAEABLE_RETURN(pigro::apply(pigro::bind_front(f, FWD(args)...), t))
+};
+
+template<typename F, concepts::tuple_like T>
+auto bind_front_tuple(F &&f, T &&t) {
+    return bound_tuple<front_binder, F, T>{ FWD(f), FWD(t) };
+}
+
+template<typename F, concepts::tuple_like T>
+auto bind_back_tuple(F &&f, T &&t) {
+    return bound_tuple<back_binder, F, T>{ FWD(f), FWD(t) };
 }
 
 auto operator>>(concepts::tuple_like auto &&args, auto &&f) {
-- 
2.43.0


From 8cbeba806fb33f3cc2cea3654bc6fcdb61e55a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:37 +0000
Subject: [PATCH 08/20] fix: regularized_void and unregularized_void do not
 copy the function for every call

---
 src/pigro/regular_void.h | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/pigro/regular_void.h b/src/pigro/regular_void.h
index 77504f9..00a0584 100644
--- a/src/pigro/regular_void.h
+++ b/src/pigro/regular_void.h
@@ -12,8 +12,8 @@ struct regular_void {
     auto operator<=>(const regular_void &) const = default;
 };
 
-constexpr auto regularized_void(auto f) {
-    return compressed_tuple{ f } >> [](auto f, auto... args) mutable {
+struct regularize {
+    auto operator()(auto &&f, auto &&...args) {
         using result_t = decltype(f(args...));
 
         if constexpr (std::same_as<result_t, void>) {
@@ -22,11 +22,11 @@ constexpr auto regularized_void(auto f) {
         } else {
             return f(args...);
         }
-    };
-}
+    }
+};
 
-constexpr auto unregularized_void(auto f) {
-    return compressed_tuple{ f } >> [](auto f, auto... args) mutable {
+struct unregularize {
+    auto operator()(auto &&f, auto &&...args) {
         using result_t = decltype(f(args...));
 
         if constexpr (std::same_as<result_t, regular_void>) {
@@ -35,7 +35,15 @@ constexpr auto unregularized_void(auto f) {
         } else {
             return f(args...);
         }
-    };
+    }
+};
+
+constexpr auto regularized_void(auto f) {
+    return compressed_tuple{ f } >> regularize{};
+}
+
+constexpr auto unregularized_void(auto f) {
+    return compressed_tuple{ f } >> unregularize{};
 }
 
 } // namespace pigro
-- 
2.43.0


From 91a9603eadc4ee3d99a13edeb361265e01afca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:37 +0000
Subject: [PATCH 09/20] fix: lazy compiles with GCC, and keeps the cache across
 calls

---
 src/pigro/lazy.h | 66 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 46 insertions(+), 20 deletions(-)

diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index 4fc51ce..0d0fbff 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -21,8 +21,7 @@ struct LazyResult {
 };
 
 template<typename T>
-LazyResult(const T &, bool) -> LazyResult<const T &>;
-LazyResult(int &&, bool)->LazyResult<int>;
+LazyResult(T, bool) -> LazyResult<T>;
 
 constexpr auto value = [](const concepts::lazy_result auto result) {
     return result.value;
@@ -32,22 +31,33 @@ constexpr auto is_changed = [](const concepts::lazy_result auto result) {
     return result.is_changed;
 };
 
+struct call_wrapped {
+    auto operator()(auto &, std::nullptr_t, auto &&f) {
+        return f(nullptr);
+    }
+};
+
+struct call_unwrapped {
+    auto operator()(auto &self) {
+        return self(nullptr).value;
+    }
+};
+
 constexpr auto unwrap_value(concepts::lazy_function auto f) {
-    return recursive{
-        overload{
-          compressed_tuple{ f } << [](auto &self, std::nullptr_t, auto f) { return f(nullptr); },
-          [](auto &self) mutable {
-              return self(nullptr).value;
-          },
-        }
+    auto unwrapped = overload{
+        compressed_tuple{ f } << call_wrapped{},
+        call_unwrapped{},
     };
+
+    // No CTAD here, because that would prefer the base class of the bound tuple
+    return recursive<decltype(unwrapped)>{ unwrapped };
 }
 
-constexpr auto lazy(auto f, concepts::lazy_function auto... deps) {
-    using result_t = decltype(f(deps(nullptr).value...));
+template<typename Result>
+struct call_cached {
+    std::optional<Result> cache;
 
-    auto cache = std::optional<result_t>{};
-    return compressed_tuple{ f, deps... } << [=](std::nullptr_t, auto f, auto... deps) mutable {
+    auto operator()(std::nullptr_t, auto &&f, auto &&...deps) {
         const auto args = std::tuple{ deps(nullptr)... };
 
         auto changed = !cache || any(args, is_changed);
@@ -63,16 +73,32 @@ constexpr auto lazy(auto f, concepts::lazy_function auto... deps) {
             *cache,
             changed,
         };
-    };
+    }
+};
+
+constexpr auto lazy_core(auto f, concepts::lazy_function auto... deps) {
+    using result_t = decltype(f(deps(nullptr).value...));
+
+    return compressed_tuple{ f, deps... } << call_cached<result_t>{};
 }
 
-constexpr auto lazy_value(auto value, auto changed) {
-    return compressed_tuple{ value, changed } << [](std::nullptr_t, auto value, auto changed) {
+struct call_value {
+    auto operator()(std::nullptr_t, auto &&value, auto changed) {
         return LazyResult{
             value,
             changed,
         };
-    };
+    }
+};
+
+constexpr auto lazy_value(auto value, auto changed) {
+    return compressed_tuple{ value, changed } << call_value{};
+}
+
+struct call_function {
+    auto operator()(auto, auto &&dep) {
+        return dep();
+    }
 };
 
 constexpr auto ensure_lazy(concepts::lazy_function_unwrapped auto dep) {
@@ -80,8 +106,8 @@ constexpr auto ensure_lazy(concepts::lazy_function_unwrapped auto dep) {
 }
 
 constexpr auto ensure_lazy(::std::invocable auto dep) {
-    return detail::lazy(
-      compressed_tuple{ dep } << [](auto, auto dep) mutable { return dep(); },
+    return lazy_core(
+      compressed_tuple{ dep } << call_function{},
       lazy_value(0, std::true_type{}));
 }
 
@@ -94,7 +120,7 @@ constexpr auto ensure_lazy(auto dep) {
 namespace pigro {
 
 auto lazy(auto f, auto... deps) {
-    auto lazy_f = detail::lazy(
+    auto lazy_f = detail::lazy_core(
       regularized_void(f),
       detail::ensure_lazy(deps)...);
 
-- 
2.43.0


From 5d49e54c8728836e5f0b723d0d5e7f7421cbb002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:37 +0000
Subject: [PATCH 10/20] fix: a lazy function that returns an empty optional
 again has not changed

---
 src/pigro/lazy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index 0d0fbff..0401a72 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -65,7 +65,7 @@ struct call_cached {
             const auto values = transform(args, value);
             const auto result = std::apply(f, values);
 
-            changed = cache != result;
+            changed = !cache || *cache != result;
             cache = std::move(result);
         }
 
-- 
2.43.0


From de7e28b79eade293f1db2fa71532b6b8a4433def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:37 +0000
Subject: [PATCH 11/20] fix: an exception during evaluation does not leave a
 stale cache behind

---
 src/pigro/lazy.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index 0401a72..bd9ce35 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -58,6 +58,18 @@ struct call_cached {
     std::optional<Result> cache;
 
     auto operator()(std::nullptr_t, auto &&f, auto &&...deps) {
+        try {
+            return evaluate(f, deps...);
+        } catch (...) {
+            // Some of the dependencies might have reported their changes already,
+            // and they will not do so again, so the cache cannot be trusted anymore
+            cache = std::optional<Result>{};
+            throw;
+        }
+    }
+
+private:
+    auto evaluate(auto &f, auto &...deps) {
         const auto args = std::tuple{ deps(nullptr)... };
 
         auto changed = !cache || any(args, is_changed);
-- 
2.43.0


From 11f585d19b4f4e7909779aa9747395cd0c6b25b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:41 +0000
Subject: [PATCH 12/20] fix: bind_back accepts exactly the calls that it makes

---
 src/pigro/bind_tuple.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pigro/bind_tuple.h b/src/pigro/bind_tuple.h
index 94a68af..8516bd9 100644
--- a/src/pigro/bind_tuple.h
+++ b/src/pigro/bind_tuple.h
@@ -10,9 +10,10 @@
 
 namespace pigro {
 
-auto bind_back(auto &&f, auto &&...back_args) {
+template<typename F, typename... BackArgs>
+auto bind_back(F &&f, BackArgs &&...back_args) {
     return [f = FWD_CAPTURE(f), ... back_args = FWD_CAPTURE(back_args)](auto &&...front_args) mutable
-           -> decltype(std::invoke(FWD(f), FWD(front_args)..., FWD(back_args)...)) {
+           -> decltype(std::invoke(std::declval<F &>(), FWD(front_args)..., std::declval<BackArgs &>()...)) {
         return std::invoke(access(f), FWD(front_args)..., access(back_args)...);
     };
 }
-- 
2.43.0


From 8b0cd41dec1633b422687bf9d429dbedbaf1ed61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:41 +0000
Subject: [PATCH 13/20] fix: bound tuples forward the arguments of a call

---
 src/pigro/bind_tuple.h | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/pigro/bind_tuple.h b/src/pigro/bind_tuple.h
index 8516bd9..7294693 100644
--- a/src/pigro/bind_tuple.h
+++ b/src/pigro/bind_tuple.h
@@ -18,13 +18,6 @@ auto bind_back(F &&f, BackArgs &&...back_args) {
     };
 }
 
-auto bind_front(auto &&f, auto &&...front_args) {
-    return [f = FWD_CAPTURE(f), ... front_args = FWD_CAPTURE(front_args)](auto &&...back_args) mutable
-           -> decltype(std::invoke(FWD(f), FWD(front_args)..., FWD(back_args)...)) {
-        return std::invoke(access(f), access(front_args)..., FWD(back_args)...);
-    };
-}
-
 // Holds both the function and the tuple of arguments that are bound to it. These
 // are not part of the overload set, such that the arguments of a call can never
 // be mistaken for an attempt to access them.
@@ -52,14 +45,25 @@ struct bound_tuple : compressed_tuple<F, T> {
     }
 };
 
+template<typename T>
+using tuple_indices_t = std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<T>>>;
+
 struct front_binder {
-    static auto call(auto &&f, auto &&t, auto &&...args)
-      SFINAEABLE_RETURN(pigro::apply(bind_back(f, FWD(args)...), t))
+    template<size_t... idx>
+    static auto invoke(std::index_sequence<idx...>, auto &f, auto &t, auto &&...args)
+      SFINAEABLE_RETURN(std::invoke(f, get<idx>(t)..., FWD(args)...))
+
+    static auto call(auto &f, auto &t, auto &&...args)
+      SFINAEABLE_RETURN(invoke(tuple_indices_t<decltype(t)>{}, f, t, FWD(args)...))
 };
 
 struct back_binder {
-    static auto call(auto &&f, auto &&t, auto &&...args)
-      SFINAEABLE_RETURN(pigro::apply(pigro::bind_front(f, FWD(args)...), t))
+    template<size_t... idx>
+    static auto invoke(std::index_sequence<idx...>, auto &f, auto &t, auto &&...args)
+      SFINAEABLE_RETURN(std::invoke(f, FWD(args)..., get<idx>(t)...))
+
+    static auto call(auto &f, auto &t, auto &&...args)
+      SFINAEABLE_RETURN(invoke(tuple_indices_t<decltype(t)>{}, f, t, FWD(args)...))
 };
 
 template<typename F, concepts::tuple_like T>
-- 
2.43.0


From 4564c85fa4b9b9b9661766152d0d9e64d37638aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:54 +0000
Subject: [PATCH 14/20] fix: empty elements of nested compressed tuples no
 longer take space

Two empty subobjects of the same type cannot share an address, so
compressed_tuple<compressed_tuple<int, E>, E> was larger than an int.
---
 src/pigro/compressed_tuple.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/pigro/compressed_tuple.h b/src/pigro/compressed_tuple.h
index d27765b..4b35ba9 100644
--- a/src/pigro/compressed_tuple.h
+++ b/src/pigro/compressed_tuple.h
@@ -18,7 +18,11 @@ namespace pigro {
 // Note: the elements are named types, because the name of a lambda repeats both
 // the template arguments and the parameters of the function it is defined in, as
 // a result of which the (debug) symbols of nested elements grow exponentially.
-template<size_t tag, typename T>
+//
+// The empty elements also depend on the tuple they are part of, because two empty
+// subobjects of the same type cannot share an address, and a (non-empty) element
+// might be a compressed tuple by itself, having the same empty element.
+template<size_t tag, typename T, typename Owner>
 struct compressed_tuple_empty_element {
     auto operator()(auto &&, idx_t<tag>) const {
         return empty_object<std::remove_cvref_t<T>>::get();
@@ -38,23 +42,26 @@ struct compressed_tuple_value_element {
     }
 };
 
-template<size_t tag, concepts::empty T>
+template<size_t tag, typename Owner, concepts::empty T>
 auto compressed_tuple_element(T) {
-    return compressed_tuple_empty_element<tag, T>{};
+    return compressed_tuple_empty_element<tag, T, Owner>{};
 }
 
-template<size_t tag, typename T>
+template<size_t tag, typename Owner, typename T>
 requires(!concepts::empty<T>)
 auto compressed_tuple_element(T &&value) {
     return compressed_tuple_value_element<tag, T>{ fwd_capture(std::forward<T>(value)) };
 }
 
+template<typename... Ts>
+struct compressed_tuple;
+
 template<typename... Ts>
 auto make_compressed_tuple_base(Ts &&...values) {
     return enumerate_pack(
       [](const auto &...items) {
           return recursive{
-              overload{ compressed_tuple_element<items.index>(std::forward<decltype(items.value)>(items.value))... }
+              overload{ compressed_tuple_element<items.index, compressed_tuple<Ts...>>(std::forward<decltype(items.value)>(items.value))... }
           };
       },
       std::forward<decltype(values)>(values)...);
-- 
2.43.0


From 5a5c15fa585aa4ee866a04b3f62a9ac0bfc0caa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:42 +0000
Subject: [PATCH 15/20] fix: empty classes with a non-trivial destructor can be
 stored in a compressed tuple

---
 src/pigro/empty_object.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pigro/empty_object.h b/src/pigro/empty_object.h
index 41a4a5d..462cef8 100644
--- a/src/pigro/empty_object.h
+++ b/src/pigro/empty_object.h
@@ -16,6 +16,7 @@ struct empty_object {
 
     union Storage {
         constexpr Storage() : t1{} {}
+        ~Storage() {}
         T1 t1;
         T2 t2;
     };
-- 
2.43.0


From 5bbaf7565546896307d5ce434eba369b4534bdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:46 +0000
Subject: [PATCH 16/20] fix: a const function or tuple without state remains
 const when bound

---
 src/pigro/bind_tuple.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pigro/bind_tuple.h b/src/pigro/bind_tuple.h
index 7294693..8764dc8 100644
--- a/src/pigro/bind_tuple.h
+++ b/src/pigro/bind_tuple.h
@@ -32,7 +32,8 @@ struct bound_tuple : compressed_tuple<F, T> {
         auto &&f = get<0>(static_cast<base &>(*this));
         auto &&t = get<1>(static_cast<base &>(*this));
 
-        return Binder::call(f, t, FWD(args)...);
+        // Empty elements are returned by value, which drops the const of a reference
+        return Binder::call(static_cast<F &>(f), static_cast<T &>(t), FWD(args)...);
     }
 
     template<typename... Args>
-- 
2.43.0


From e10b1b580213f060dd06dd8bf9a91d0eca6b6700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:42 +0000
Subject: [PATCH 17/20] fix: regularized functions receive their arguments
 perfectly forwarded

---
 src/pigro/regular_void.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pigro/regular_void.h b/src/pigro/regular_void.h
index 00a0584..60757a8 100644
--- a/src/pigro/regular_void.h
+++ b/src/pigro/regular_void.h
@@ -14,26 +14,26 @@ struct regular_void {
 
 struct regularize {
     auto operator()(auto &&f, auto &&...args) {
-        using result_t = decltype(f(args...));
+        using result_t = decltype(f(FWD(args)...));
 
         if constexpr (std::same_as<result_t, void>) {
-            f(args...);
+            f(FWD(args)...);
             return regular_void{};
         } else {
-            return f(args...);
+            return f(FWD(args)...);
         }
     }
 };
 
 struct unregularize {
     auto operator()(auto &&f, auto &&...args) {
-        using result_t = decltype(f(args...));
+        using result_t = decltype(f(FWD(args)...));
 
         if constexpr (std::same_as<result_t, regular_void>) {
-            f(args...);
+            f(FWD(args)...);
             return;
         } else {
-            return f(args...);
+            return f(FWD(args)...);
         }
     }
 };
-- 
2.43.0


From dea0198834501ede10a19a3d227d35c867011a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:45 +0000
Subject: [PATCH 18/20] fix: any of a single element returns a bool

---
 src/pigro/tuple_algorithms.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/tuple_algorithms.h b/src/pigro/tuple_algorithms.h
index a488b95..f8974e0 100644
--- a/src/pigro/tuple_algorithms.h
+++ b/src/pigro/tuple_algorithms.h
@@ -16,7 +16,7 @@ constexpr auto transform(const auto &data, auto projection) {
 template<typename Predicate = std::identity>
 constexpr auto any(const auto &data, Predicate predicate = {}) {
     return std::apply([=](const auto &...args) {
-        return (predicate(args) || ...);
+        return (static_cast<bool>(predicate(args)) || ...);
     },
       data);
 }
-- 
2.43.0


From 3bba31bd78e8dae9e9496080e0ad8b8e15f1134b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:05 +0000
Subject: [PATCH 19/20] fix: tuple_like is false instead of ill-formed for
 cv-qualified types with an incomplete protocol

---
 src/pigro/concepts.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pigro/concepts.h b/src/pigro/concepts.h
index f09084e..6bad613 100644
--- a/src/pigro/concepts.h
+++ b/src/pigro/concepts.h
@@ -31,13 +31,13 @@ concept has_tuple_element =
 
 template<class T>
 concept tuple_like = requires {
-    typename std::tuple_size<std::remove_reference_t<T>>::type;
-    requires std::same_as<std::remove_cv_t<decltype(std::tuple_size<std::remove_reference_t<T>>::value)>, std::size_t>;
+    typename std::tuple_size<std::remove_cvref_t<T>>::type;
+    requires std::same_as<std::remove_cv_t<decltype(std::tuple_size<std::remove_cvref_t<T>>::value)>, std::size_t>;
 }
 &&[]<std::size_t... I>(std::index_sequence<I...>) {
-    return (has_tuple_element<I, std::remove_reference_t<T>> && ...);
+    return (has_tuple_element<I, std::remove_cvref_t<T>> && ...);
 }
-(std::make_index_sequence<std::tuple_size_v<std::remove_reference_t<T>>>());
+(std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<T>>>());
 ;
 
 } // namespace pigro::concepts
-- 
2.43.0


From fc214453a2dcd0a389384188fa7ae0d6e22d7197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:00 +0000
Subject: [PATCH 20/20] fix: a plain function dependency of a lazy function no
 longer stores an unused int

---
 src/pigro/lazy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pigro/lazy.h b/src/pigro/lazy.h
index bd9ce35..74b664e 100644
--- a/src/pigro/lazy.h
+++ b/src/pigro/lazy.h
@@ -120,7 +120,7 @@ constexpr auto ensure_lazy(concepts::lazy_function_unwrapped auto dep) {
 constexpr auto ensure_lazy(::std::invocable auto dep) {
     return lazy_core(
       compressed_tuple{ dep } << call_function{},
-      lazy_value(0, std::true_type{}));
+      lazy_value(regular_void{}, std::true_type{}));
 }
 
 constexpr auto ensure_lazy(auto dep) {
-- 
2.43.0

