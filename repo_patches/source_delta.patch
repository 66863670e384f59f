From 4ca0dbb5fc6534817605980088cdd99835ec4ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 01/29] fix: include every standard header the public headers
 use

---
 inc/ptl/function_ref.hpp | 2 ++
 inc/ptl/tuple.hpp        | 2 ++
 inc/ptl/variant.hpp      | 3 +++
 inc/ptl/variant_ref.hpp  | 2 ++
 inc/ptl/vector.hpp       | 3 +++
 5 files changed, 12 insertions(+)

diff --git a/inc/ptl/function_ref.hpp b/inc/ptl/function_ref.hpp
index bad1646..c23af4f 100644
--- a/inc/ptl/function_ref.hpp
+++ b/inc/ptl/function_ref.hpp
@@ -5,7 +5,9 @@
 //          http://www.boost.org/LICENSE_1_0.txt)
 
 #pragma once
+#include <memory>
 #include <utility>
+#include <functional>
 #include <type_traits>
 
 namespace ptl {
diff --git a/inc/ptl/tuple.hpp b/inc/ptl/tuple.hpp
index a2e4081..eb02e63 100644
--- a/inc/ptl/tuple.hpp
+++ b/inc/ptl/tuple.hpp
@@ -5,6 +5,8 @@
 //          http://www.boost.org/LICENSE_1_0.txt)
 
 #pragma once
+#include <cstddef>
+#include <utility>
 #include <type_traits>
 
 namespace ptl {
diff --git a/inc/ptl/variant.hpp b/inc/ptl/variant.hpp
index 4ca70a5..fc88f7e 100644
--- a/inc/ptl/variant.hpp
+++ b/inc/ptl/variant.hpp
@@ -5,9 +5,12 @@
 //          http://www.boost.org/LICENSE_1_0.txt)
 
 #pragma once
+#include <new>
 #include <limits>
+#include <memory>
 #include <utility>
 #include <variant>
+#include <functional>
 #include <type_traits>
 
 namespace ptl {
diff --git a/inc/ptl/variant_ref.hpp b/inc/ptl/variant_ref.hpp
index dec8cae..c822129 100644
--- a/inc/ptl/variant_ref.hpp
+++ b/inc/ptl/variant_ref.hpp
@@ -6,8 +6,10 @@
 
 #pragma once
 #include <limits>
+#include <memory>
 #include <utility>
 #include <variant>
+#include <exception>
 #include <type_traits>
 
 namespace ptl {
diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 022cba1..aefe2ca 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -5,8 +5,11 @@
 //          http://www.boost.org/LICENSE_1_0.txt)
 
 #pragma once
+#include <new>
 #include <limits>
 #include <memory>
+#include <cstdlib>
+#include <utility>
 #include <iterator>
 #include <algorithm>
 #include <stdexcept>
-- 
2.43.0


From 9f1b6ba9732923ae6069a39cb7ed3a83bd5e2455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:48 +0000
Subject: [PATCH 02/29] fix: function_ref returns references as declared
 instead of decaying them

---
 inc/ptl/function_ref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/function_ref.hpp b/inc/ptl/function_ref.hpp
index c23af4f..b67e899 100644
--- a/inc/ptl/function_ref.hpp
+++ b/inc/ptl/function_ref.hpp
@@ -46,7 +46,7 @@ namespace ptl {
 
 		template<typename R, typename F, typename... Args, typename = std::enable_if_t<std::is_invocable_r_v<R, F, Args...>>> //TODO: [C++20] replace with concepts/requires-clause
 		constexpr
-		auto invoke_r(F && f, Args &&... args) noexcept(std::is_nothrow_invocable_r_v<R, F, Args...>) { //TODO: [C++23] replace with std::invoke_r
+		auto invoke_r(F && f, Args &&... args) noexcept(std::is_nothrow_invocable_r_v<R, F, Args...>) -> R { //TODO: [C++23] replace with std::invoke_r
 			if constexpr(std::is_void_v<R>) std::invoke(std::forward<F>(f), std::forward<Args>(args)...);
 			else return std::invoke(std::forward<F>(f), std::forward<Args>(args)...);
 		}
-- 
2.43.0


From 57fcd3c46bd616958f50270cf879f4d7eada4319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:50 +0000
Subject: [PATCH 03/29] fix: a const-qualified function_ref invokes its functor
 as const

---
 inc/ptl/function_ref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/function_ref.hpp b/inc/ptl/function_ref.hpp
index b67e899..0f29018 100644
--- a/inc/ptl/function_ref.hpp
+++ b/inc/ptl/function_ref.hpp
@@ -114,7 +114,7 @@ namespace ptl {
 
 		template<typename F, typename T = std::remove_reference_t<F>, typename = std::enable_if_t<!std::is_same_v<function_ref, internal_function_ref::remove_cvref_t<F>> && !std::is_member_pointer_v<T> && traits::template is_invocable_using<typename traits::template const_<T> &>>>//TODO: [C++20] replace with concepts/requires-clause
 		constexpr
-		function_ref(F && func) noexcept : storage{std::addressof(func)}, dispatch{traits::template functor<T>} {}
+		function_ref(F && func) noexcept : storage{static_cast<typename traits::template const_<T> *>(std::addressof(func))}, dispatch{traits::template functor<typename traits::template const_<T>>} {}
 
 		constexpr
 		function_ref(const function_ref &) noexcept =default;
-- 
2.43.0


From a1d138a740b3a18f2a26a4744371f4501e33c769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:53 +0000
Subject: [PATCH 04/29] fix: bitset::reference::swap ignored which bitset a
 reference belongs to

---
 inc/ptl/bitset.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index 62c9a0e..506fcc8 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -5,6 +5,7 @@
 //          http://www.boost.org/LICENSE_1_0.txt)
 
 #pragma once
+#include <memory>
 #include <climits>
 #include <istream>
 #include <ostream>
@@ -107,7 +108,7 @@ namespace ptl {
 
 			constexpr
 			void swap(reference & other) noexcept {
-				if(index == other.index) return;
+				if(std::addressof(self) == std::addressof(other.self) && index == other.index) return;
 				const auto lhs{static_cast<bool>(*this)};
 				const auto rhs{static_cast<bool>(other)};
 				if(lhs == rhs) return;
-- 
2.43.0


From def41a77c404607c5c699b420df3ccae832b1710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:56 +0000
Subject: [PATCH 05/29] fix: bitset shifts by large amounts took time
 proportional to the amount

---
 inc/ptl/bitset.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index 506fcc8..cf878a7 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -236,6 +236,7 @@ namespace ptl {
 		constexpr
 		auto operator<<=(size_type count) noexcept -> bitset & {
 			if constexpr(Size != 0) {
+				if(count >= Size) return reset();
 				for(size_type i{0}; i < count; ++i) {
 					for(size_type j{sizeof(values) - 1}; j > 0; --j) {
 						values[j] = static_cast<unsigned char>(values[j] << 1);
@@ -257,6 +258,7 @@ namespace ptl {
 		constexpr
 		auto operator>>=(size_type count) noexcept -> bitset & {
 			if constexpr(Size != 0) {
+				if(count >= Size) return reset();
 				for(size_type i{0}; i < count; ++i) {
 					values[0] = static_cast<unsigned char>(values[0] >> 1);
 					for(size_type j{1}; j < sizeof(values); ++j) {
-- 
2.43.0


From fe3ef871314bc4988e999059285c7780bac8c5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:32 +0000
Subject: [PATCH 06/29] fix: reading a bitset up to the end of the stream set
 failbit

---
 inc/ptl/bitset.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index cf878a7..5e3ecfa 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -343,7 +343,8 @@ namespace ptl {
 			if(const std::istream::sentry s{is}; s) {
 				auto extracted{false};
 				for(size_type i{0}; i < Size; ++i) {
-					if(const auto c{is.get()}; c == '0' || c == '1') {
+					if(const auto c{is.peek()}; c == '0' || c == '1') {
+						is.ignore();
 						if(!extracted) {
 							extracted = true;
 							self.reset();
@@ -351,7 +352,6 @@ namespace ptl {
 						self <<= 1;
 						if(c == '1') self.set(0);
 					} else {
-						is.unget();
 						if(!extracted) is.setstate(std::ios::failbit);
 						break;
 					}
-- 
2.43.0


From 75d8b4a83c0948f0047b65d3578d36cdc5704dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:34 +0000
Subject: [PATCH 07/29] fix: bitset was not written as a single formatted field

---
 inc/ptl/bitset.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index 5e3ecfa..f061879 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -6,6 +6,7 @@
 
 #pragma once
 #include <memory>
+#include <string>
 #include <climits>
 #include <istream>
 #include <ostream>
@@ -335,8 +336,9 @@ namespace ptl {
 
 		friend
 		auto operator<<(std::ostream & os, const bitset & self) -> std::ostream & {
-			for(size_type i{Size}; i != 0; --i) os << (self.test(i - 1) ? '1' : '0');
-			return os;
+			std::string tmp;
+			for(size_type i{Size}; i != 0; --i) tmp += self.test(i - 1) ? '1' : '0';
+			return os << tmp;
 		}
 		friend
 		auto operator>>(std::istream & is,       bitset & self) -> std::istream & {
-- 
2.43.0


From 88d259e16be63f2234f82d660724da981b46abb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:38 +0000
Subject: [PATCH 08/29] fix: erasing an empty range of a vector
 self-move-assigned the tail

---
 inc/ptl/vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index aefe2ca..62b1c09 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -343,6 +343,7 @@ namespace ptl {
 		auto erase(const_iterator pos) noexcept -> iterator { return erase(pos, pos + 1); } //TODO: [C++??] precondition(pos != end());
 		auto erase(const_iterator first, const_iterator last) noexcept -> iterator { //TODO: [C++??] precondition(begin() <= first && first <= last && last <= end());
 			const auto count{static_cast<size_type>(std::distance(first, last))};
+			if(count == 0) return first;
 			std::move(const_cast<Type *>(last.ptr), data() + size(), const_cast<Type *>(first.ptr));
 			std::destroy(data() + size() - count, data() + size());
 			storage.set_size(size() - count);
-- 
2.43.0


From c0f5ee9c01e8e70993df02763679d4441cf9951b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:01 +0000
Subject: [PATCH 09/29] fix: vector size computations wrapped around for huge
 counts

---
 inc/ptl/vector.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 62b1c09..4b0fb4f 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -191,7 +191,7 @@ namespace ptl {
 
 		template<typename Func>
 		void assign_impl(std::size_t required_size, Func func) {
-			if(size() + required_size <= capacity()) { //no need for allocation nor double buffering
+			if(required_size <= capacity() - size()) { //no need for allocation nor double buffering
 				func(data() + size());
 				std::rotate(data(), data() + size(), data() + size() + required_size);
 				std::destroy_n(data() + required_size, size());
@@ -207,11 +207,12 @@ namespace ptl {
 		template<typename Func>
 		auto insert_impl(contiguous_iterator<true> pos, std::size_t required_size, Func func) {
 			const auto offset{pos.ptr - data()};
-			if(size() + required_size <= capacity()) { //no need for allocation nor double buffering
+			if(required_size <= capacity() - size()) { //no need for allocation nor double buffering
 				func(data() + size());
 				std::rotate(const_cast<Type *>(pos.ptr), data() + size(), data() + size() + required_size);
 				storage.set_size(size() + required_size);
 			} else { //do single allocation
+				if(required_size > max_size() - size()) throw std::length_error{"ptl::vector::insert - exceeding max_size"};
 				storage_t tmp{size() + std::max(size(), required_size)}; //TODO: evaluate performance of growth influenced by max(size, required_size)
 				func(tmp.data() + offset);
 				std::uninitialized_move_n(data(), offset, tmp.data());
-- 
2.43.0


From 356b0f48639f61e0ff28ff10c0d764c4c5a0e901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:08 +0000
Subject: [PATCH 10/29] fix: string size computations wrapped around for huge
 counts

---
 inc/ptl/string.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/inc/ptl/string.hpp b/inc/ptl/string.hpp
index 317ff17..2382818 100644
--- a/inc/ptl/string.hpp
+++ b/inc/ptl/string.hpp
@@ -54,6 +54,7 @@ namespace ptl {
 
 			storage_t(std::size_t required) {
 				if(required > sso_size) {
+					if(required > max_size()) throw std::length_error{"ptl::string - allocation attempting to exceed max_size"};
 					dealloc = +[](char * ptr) noexcept { delete[] ptr; }; 
 					heap.siz = 0;
 					//minimum heap allocation: 2xSSO to prevent multiple allocations on push_back/etc. after initially exceeding SSO
@@ -244,10 +245,15 @@ namespace ptl {
 			return tmp;
 		}
 
+		auto grown_size(std::size_t additional_size) const -> std::size_t {
+			if(additional_size > max_size() - size()) throw std::length_error{"ptl::string - exceeding max_size"};
+			return size() + additional_size;
+		}
+
 		template<typename Func>
 		void append_no_aliasing(std::size_t additional_size, Func fill) {
 			const auto old{size()};
-			resize(old + additional_size);
+			resize(grown_size(additional_size));
 			fill(old);
 		}
 
@@ -261,7 +267,7 @@ namespace ptl {
 		auto insert_no_aliasing(contiguous_iterator<true> pos, std::size_t additional_size, Func fill) {
 			const auto old{size()};
 			const auto offset{pos.ptr - data()};
-			resize(old + additional_size);
+			resize(grown_size(additional_size));
 			std::copy_backward(data() + offset, data() + old, data() + size());
 			fill();
 			return begin() + offset;
@@ -272,7 +278,7 @@ namespace ptl {
 			const auto offset{first.ptr - data()};
 			if(const auto count{static_cast<std::size_t>(last - first)}; count < required_size) { //not enough space in target location
 				const auto old{size()};
-				resize(size() + (required_size - count));
+				resize(grown_size(required_size - count));
 				std::copy_backward(data() + offset + count, data() + old, data() + size());
 				fill(offset);
 			} else { //directly overwrite and shrink afterwards
-- 
2.43.0


From 83e77c408448b8d669f36abee12e9005cde2ecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:41 +0000
Subject: [PATCH 11/29] fix: variant::emplace instantiated construction of
 every alternative from the arguments

---
 inc/ptl/variant.hpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/inc/ptl/variant.hpp b/inc/ptl/variant.hpp
index fc88f7e..281d45e 100644
--- a/inc/ptl/variant.hpp
+++ b/inc/ptl/variant.hpp
@@ -123,14 +123,6 @@ namespace ptl {
 			return visit<Move>(indices, type, storage, combined_visitor{std::forward<Visitors>(visitors)...});
 		}
 
-		template<std::size_t... Indices, typename Storage, typename... Args>
-		constexpr
-		void emplace(std::index_sequence<Indices...>, std::size_t type, Storage & storage, Args &&... args) {  //TODO: [C++??] precondition(union in storage is uninitialized);
-			using Dispatch = void(*)(Storage &, Args &&...);
-			constexpr Dispatch dispatch[]{+[](Storage & storage, Args &&... args) { storage.template set<Indices>(std::forward<Args>(args)...); }...};
-			dispatch[type](storage, std::forward<Args>(args)...);
-		}
-
 		template<bool Move, typename Storage, std::size_t... Indices>
 		constexpr
 		void assign(std::index_sequence<Indices...>, std::size_t type, Storage & lhs, std::conditional_t<Move, Storage, const Storage> & rhs) noexcept(Move) { //TODO: [C++??] precondition(lhs is uninitialized);
@@ -257,7 +249,7 @@ namespace ptl {
 			if constexpr(std::is_nothrow_constructible_v<T, Args...>) {
 				internal_variant::destroy(indices_t{}, type, storage);
 				constexpr auto index{internal_variant::determine_index<std::decay_t<T>, Head, Tail...>()};
-				internal_variant::emplace(indices_t{}, index, storage, std::forward<Args>(args)...);
+				storage.template set<index>(std::forward<Args>(args)...);
 				type = index;
 			} else {
 				variant tmp{std::in_place_type<T>, std::forward<Args>(args)...};
-- 
2.43.0


From c8715b69c6f1d022f97accf80de967e24c8080a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:44 +0000
Subject: [PATCH 12/29] fix: variant::emplace checked a different
 initialization for exceptions than it performs

---
 inc/ptl/variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/variant.hpp b/inc/ptl/variant.hpp
index 281d45e..ea959e2 100644
--- a/inc/ptl/variant.hpp
+++ b/inc/ptl/variant.hpp
@@ -246,7 +246,7 @@ namespace ptl {
 		auto emplace(Args &&... args) -> decltype(auto) { return emplace<typename decltype(internal_variant::determine_type<Index, Head, Tail...>())::type>(std::forward<Args>(args)...); }
 		template<typename T, typename... Args, typename = std::enable_if_t<can_store<T>>> //TODO: [C++20] replace with concepts/requires-clause
 		auto emplace(Args &&... args) -> T & {
-			if constexpr(std::is_nothrow_constructible_v<T, Args...>) {
+			if constexpr(noexcept(T{std::declval<Args>()...})) {
 				internal_variant::destroy(indices_t{}, type, storage);
 				constexpr auto index{internal_variant::determine_index<std::decay_t<T>, Head, Tail...>()};
 				storage.template set<index>(std::forward<Args>(args)...);
-- 
2.43.0


From 918adbc09a7afd503aefa3a487009e0893561283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:47 +0000
Subject: [PATCH 13/29] fix: array constructor checked the conversion in the
 wrong direction

---
 inc/ptl/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/array.hpp b/inc/ptl/array.hpp
index dc13c95..1210835 100644
--- a/inc/ptl/array.hpp
+++ b/inc/ptl/array.hpp
@@ -174,7 +174,7 @@ namespace ptl {
 		using reverse_iterator       = std::reverse_iterator<      iterator>;
 		using const_reverse_iterator = std::reverse_iterator<const_iterator>;
 
-		template<typename... Args, typename = std::enable_if_t<(std::is_convertible_v<Type, Args> &&...)>> //TODO: [C++20] replace with concepts/requires-clause
+		template<typename... Args, typename = std::enable_if_t<(std::is_convertible_v<Args, Type> &&...)>> //TODO: [C++20] replace with concepts/requires-clause
 		constexpr
 		array(Args &&... args) : values{std::forward<Args>(args)...} {}
 
-- 
2.43.0


From c2ca4903f4ea7d440a07667fc1dd7f3de5d3cfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:50 +0000
Subject: [PATCH 14/29] fix: vector::shrink_to_fit terminated the program when
 out of memory

---
 inc/ptl/vector.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 4b0fb4f..2748588 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -323,10 +323,12 @@ namespace ptl {
 		void shrink_to_fit() noexcept {
 			if(size() * 2 >= capacity()) return; //TODO: better criteria for "excess memory usage"
 
-			storage_t tmp{size()};
-			std::uninitialized_move_n(data(), size(), tmp.data());
-			tmp.set_size(size());
-			storage = std::move(tmp);
+			try {
+				storage_t tmp{size()};
+				std::uninitialized_move_n(data(), size(), tmp.data());
+				tmp.set_size(size());
+				storage = std::move(tmp);
+			} catch(const std::bad_alloc &) {} //shrinking is non-binding
 		}
 
 		void clear() noexcept {
-- 
2.43.0


From 3d240e60a87b4fa45266386bc2ff6a9853039d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:58 +0000
Subject: [PATCH 15/29] fix: string literals were cut off at the first embedded
 zero

---
 inc/ptl/string.hpp     | 2 +-
 inc/ptl/string_ref.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/ptl/string.hpp b/inc/ptl/string.hpp
index 2382818..0269283 100644
--- a/inc/ptl/string.hpp
+++ b/inc/ptl/string.hpp
@@ -626,7 +626,7 @@ namespace ptl {
 
 	namespace literals {
 		inline
-		auto operator""_s(const char * ptr, std::size_t) noexcept -> string { return string{ptr}; }
+		auto operator""_s(const char * ptr, std::size_t size) noexcept -> string { return string{std::string_view{ptr, size}}; }
 	}
 }
 
diff --git a/inc/ptl/string_ref.hpp b/inc/ptl/string_ref.hpp
index 1fad606..ab92bb5 100644
--- a/inc/ptl/string_ref.hpp
+++ b/inc/ptl/string_ref.hpp
@@ -225,7 +225,7 @@ namespace ptl {
 	namespace literals {
 		inline
 		constexpr
-		auto operator""_sr(const char * ptr, std::size_t) noexcept -> string_ref { return ptr; }
+		auto operator""_sr(const char * ptr, std::size_t size) noexcept -> string_ref { return {ptr, size}; }
 	}
 }
 
-- 
2.43.0


From feb7313147531929b4a2e6fb8aebe1b0821e2b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:03 +0000
Subject: [PATCH 16/29] fix: the string literal operator allocates and may not
 be noexcept

---
 inc/ptl/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/string.hpp b/inc/ptl/string.hpp
index 0269283..3f51f11 100644
--- a/inc/ptl/string.hpp
+++ b/inc/ptl/string.hpp
@@ -626,7 +626,7 @@ namespace ptl {
 
 	namespace literals {
 		inline
-		auto operator""_s(const char * ptr, std::size_t size) noexcept -> string { return string{std::string_view{ptr, size}}; }
+		auto operator""_s(const char * ptr, std::size_t size) -> string { return string{std::string_view{ptr, size}}; }
 	}
 }
 
-- 
2.43.0


From 97f6aab35a8f576beb43f6b441bd9123388d57e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 17/29] fix: vector placed over-aligned elements at misaligned
 addresses

---
 inc/ptl/vector.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 2748588..9191ea7 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -8,6 +8,7 @@
 #include <new>
 #include <limits>
 #include <memory>
+#include <cstddef>
 #include <cstdlib>
 #include <utility>
 #include <iterator>
@@ -47,9 +48,14 @@ namespace ptl {
 				if(capacity == 0) return;
 				if(capacity > max_size()) throw std::length_error{"ptl::vector - allocation attempting to exceed max_size"};
 				capacity = std::max(min_capacity, capacity);
+				if constexpr(alignof(Type) > alignof(std::max_align_t)) {
+					dealloc = +[](Type * ptr) noexcept { ::operator delete(ptr, std::align_val_t{alignof(Type)}); };
+					ptr = static_cast<Type *>(::operator new(capacity * sizeof(Type), std::align_val_t{alignof(Type)}));
+				} else {
 				dealloc = +[](Type * ptr) noexcept { std::free(ptr); };
 				ptr = static_cast<Type *>(std::calloc(capacity, sizeof(Type)));
 				if(!ptr) throw std::bad_alloc{};
+				}
 				cap = capacity;
 				siz = 0;
 			}
-- 
2.43.0


From fab3dfaa8222e27e00f87fc900083b966ab494ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:06 +0000
Subject: [PATCH 18/29] fix: a throwing iterator left a string without its
 terminator

---
 inc/ptl/string.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/inc/ptl/string.hpp b/inc/ptl/string.hpp
index 3f51f11..5c383c1 100644
--- a/inc/ptl/string.hpp
+++ b/inc/ptl/string.hpp
@@ -250,6 +250,16 @@ namespace ptl {
 			return size() + additional_size;
 		}
 
+		template<typename ForwardIterator>
+		void copy_behind_end(ForwardIterator first, ForwardIterator last) {
+			try {
+				std::copy(first, last, data() + size());
+			} catch(...) {
+				storage.set_size(size()); //restore overwritten terminator
+				throw;
+			}
+		}
+
 		template<typename Func>
 		void append_no_aliasing(std::size_t additional_size, Func fill) {
 			const auto old{size()};
@@ -433,7 +443,7 @@ namespace ptl {
 		void append(ForwardIterator first, ForwardIterator last) {
 			const auto distance{static_cast<std::size_t>(std::distance(first, last))};
 			if(distance + size() <= capacity()) { //no need for allocation nor double buffering
-				std::copy(first, last, data() + size());
+				copy_behind_end(first, last);
 				storage.set_size(size() + distance);
 			} else { //do single allocation
 				storage_t tmp{size() + distance};
@@ -452,7 +462,7 @@ namespace ptl {
 		template<typename ForwardIterator, std::enable_if_t<std::is_base_of_v<std::forward_iterator_tag, typename std::iterator_traits<ForwardIterator>::iterator_category>, int> = 0> //TODO: [C++20] replace with concepts/requires-clause
 		void assign(ForwardIterator first, ForwardIterator last) {
 			if(const auto distance{static_cast<std::size_t>(std::distance(first, last))}; distance + size() <= capacity()) { //no need for allocation nor double buffering
-				std::copy(first, last, data() + size());
+				copy_behind_end(first, last);
 				std::rotate(data(), data() + size(), data() + size() + distance);
 				storage.set_size(distance);
 			} else {
@@ -480,7 +490,7 @@ namespace ptl {
 			const auto distance{static_cast<std::size_t>(std::distance(first, last))};
 			const auto offset{pos.ptr - data()};
 			if(distance + size() <= capacity()) { //no need for allocation nor double buffering
-				std::copy(first, last, data() + size());
+				copy_behind_end(first, last);
 				std::rotate(const_cast<char *>(pos.ptr), data() + size(), data() + size() + distance);
 				storage.set_size(size() + distance);
 			} else { //do single allocation
@@ -508,7 +518,7 @@ namespace ptl {
 		auto replace(const_iterator first, const_iterator last, ForwardIterator first2, ForwardIterator last2) -> string & { //TODO: [C++??] precondition(begin() <= first && first <= last && last <= end());
 			const auto distance{static_cast<std::size_t>(std::distance(first2, last2))};
 			if(distance + size() <= capacity()) { //no need for allocation nor double buffering
-				std::copy(first2, last2, data() + size());
+				copy_behind_end(first2, last2);
 				const auto offset_first{first.ptr - data()};
 				const auto offset_mid{size() - (last - first)};
 				storage.set_size(size() + distance);
-- 
2.43.0


From 47adc3d7a73dfa9b57996f5f797e565c04a1e026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:07 +0000
Subject: [PATCH 19/29] fix: the forwarding constructor of one-element tuples
 hijacked copying and moving

---
 inc/ptl/tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/tuple.hpp b/inc/ptl/tuple.hpp
index eb02e63..7621800 100644
--- a/inc/ptl/tuple.hpp
+++ b/inc/ptl/tuple.hpp
@@ -88,7 +88,7 @@ namespace ptl {
 
 		internal_tuple::storage_t<Types...> storage;
 	public:
-		template<typename... Args, typename = std::enable_if_t<sizeof...(Args) == sizeof...(Types) || sizeof...(Args) == 0>> //TODO: [C++20] replace with concepts/requires-clause
+		template<typename... Args, typename = std::enable_if_t<(sizeof...(Args) == sizeof...(Types) || sizeof...(Args) == 0) && !(std::is_same_v<tuple, std::decay_t<Args>> || ...)>> //TODO: [C++20] replace with concepts/requires-clause
 		constexpr
 		tuple(Args &&... args) : storage{std::forward<Args>(args)...} {}
 
-- 
2.43.0


From 30287c21d656f19731b0c7fe5c052818a54c8832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:09 +0000
Subject: [PATCH 20/29] fix: array_ref could be bound to arrays of derived
 elements

---
 inc/ptl/array_ref.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inc/ptl/array_ref.hpp b/inc/ptl/array_ref.hpp
index 9069c86..26afef8 100644
--- a/inc/ptl/array_ref.hpp
+++ b/inc/ptl/array_ref.hpp
@@ -29,9 +29,10 @@ namespace ptl {
 			struct valid;
 			using invalid = internal_array_ref::invalid;
 
+			template<typename T>
 			static
 			constexpr
-			auto rebind(Type * ) noexcept -> valid;
+			auto rebind(T *) noexcept -> std::enable_if_t<std::is_convertible_v<T(*)[], Type(*)[]>, valid>;
 			static
 			constexpr
 			auto rebind(...) noexcept -> invalid;
-- 
2.43.0


From 1192682fdb06dbafbcab6d067f962a902a6aed18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:47 +0000
Subject: [PATCH 21/29] fix: copying an array of a type constructible from
 anything recursed endlessly

---
 inc/ptl/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/array.hpp b/inc/ptl/array.hpp
index 1210835..f8a3f2c 100644
--- a/inc/ptl/array.hpp
+++ b/inc/ptl/array.hpp
@@ -174,7 +174,7 @@ namespace ptl {
 		using reverse_iterator       = std::reverse_iterator<      iterator>;
 		using const_reverse_iterator = std::reverse_iterator<const_iterator>;
 
-		template<typename... Args, typename = std::enable_if_t<(std::is_convertible_v<Args, Type> &&...)>> //TODO: [C++20] replace with concepts/requires-clause
+		template<typename... Args, typename = std::enable_if_t<!(sizeof...(Args) == 1 && (std::is_same_v<array, std::decay_t<Args>> || ...)) && (std::is_convertible_v<Args, Type> &&...)>> //TODO: [C++20] replace with concepts/requires-clause
 		constexpr
 		array(Args &&... args) : values{std::forward<Args>(args)...} {}
 
-- 
2.43.0


From 3e1a3ba8522446df0105ac951bf4f63388559da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:29 +0000
Subject: [PATCH 22/29] fix: reading a bit through a bitset reference recursed
 endlessly

---
 inc/ptl/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index f061879..ea9cddd 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -97,7 +97,7 @@ namespace ptl {
 			}
 
 			constexpr
-			operator bool() const noexcept { return self[index]; }
+			operator bool() const noexcept { return static_cast<const bitset &>(self)[index]; }
 			constexpr
 			auto operator~() const noexcept -> bool { return !static_cast<bool>(*this); }
 
-- 
2.43.0


From dd2713df5ad28a2928b2e9d3d8c0f7eab332461d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:03 +0000
Subject: [PATCH 23/29] fix: tuples of several elements refused to be built
 from a tuple of their own type

---
 inc/ptl/tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/tuple.hpp b/inc/ptl/tuple.hpp
index 7621800..7cdc715 100644
--- a/inc/ptl/tuple.hpp
+++ b/inc/ptl/tuple.hpp
@@ -88,7 +88,7 @@ namespace ptl {
 
 		internal_tuple::storage_t<Types...> storage;
 	public:
-		template<typename... Args, typename = std::enable_if_t<(sizeof...(Args) == sizeof...(Types) || sizeof...(Args) == 0) && !(std::is_same_v<tuple, std::decay_t<Args>> || ...)>> //TODO: [C++20] replace with concepts/requires-clause
+		template<typename... Args, typename = std::enable_if_t<(sizeof...(Args) == sizeof...(Types) || sizeof...(Args) == 0) && !(sizeof...(Args) == 1 && (std::is_same_v<tuple, std::decay_t<Args>> || ...))>> //TODO: [C++20] replace with concepts/requires-clause
 		constexpr
 		tuple(Args &&... args) : storage{std::forward<Args>(args)...} {}
 
-- 
2.43.0


From b141f0bdb81f4c98ab0e1a2b3546a8a370cf69fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:04 +0000
Subject: [PATCH 24/29] fix: iterators and const_iterators of string and vector
 could not be compared or subtracted

---
 inc/ptl/string.hpp | 3 ++-
 inc/ptl/vector.hpp | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/inc/ptl/string.hpp b/inc/ptl/string.hpp
index 5c383c1..653faeb 100644
--- a/inc/ptl/string.hpp
+++ b/inc/ptl/string.hpp
@@ -229,6 +229,7 @@ namespace ptl {
 			constexpr
 			contiguous_iterator(pointer ptr) noexcept : ptr{ptr} {}
 
+			explicit
 			constexpr
 			operator contiguous_iterator<false>() const noexcept { return contiguous_iterator<false>{const_cast<char *>(ptr)}; }
 
@@ -477,7 +478,7 @@ namespace ptl {
 		auto erase(const_iterator first, const_iterator last) noexcept -> iterator { //TODO: [C++??] precondition(begin() <= first && first <= last && last <= end());
 			std::copy(const_cast<char *>(last.ptr), data() + size(), const_cast<char *>(first.ptr));
 			storage.set_size(size() - (last - first));
-			return first;
+			return static_cast<iterator>(first);
 		}
 
 		template<typename InputIterator, std::enable_if_t<std::is_same_v<std::input_iterator_tag, typename std::iterator_traits<InputIterator>::iterator_category>, int> = 0> //TODO: [C++20] replace with concepts/requires-clause
diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 9191ea7..a04166e 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -189,6 +189,7 @@ namespace ptl {
 			constexpr
 			contiguous_iterator(pointer ptr) noexcept : ptr{ptr} {}
 
+			explicit
 			constexpr
 			operator contiguous_iterator<false>() const noexcept { return contiguous_iterator<false>{const_cast<Type *>(ptr)}; }
 
@@ -352,11 +353,11 @@ namespace ptl {
 		auto erase(const_iterator pos) noexcept -> iterator { return erase(pos, pos + 1); } //TODO: [C++??] precondition(pos != end());
 		auto erase(const_iterator first, const_iterator last) noexcept -> iterator { //TODO: [C++??] precondition(begin() <= first && first <= last && last <= end());
 			const auto count{static_cast<size_type>(std::distance(first, last))};
-			if(count == 0) return first;
+			if(count == 0) return static_cast<iterator>(first);
 			std::move(const_cast<Type *>(last.ptr), data() + size(), const_cast<Type *>(first.ptr));
 			std::destroy(data() + size() - count, data() + size());
 			storage.set_size(size() - count);
-			return first;
+			return static_cast<iterator>(first);
 		}
 
 		template<typename InputIterator, std::enable_if_t<std::is_same_v<std::input_iterator_tag, typename std::iterator_traits<InputIterator>::iterator_category>, int> = 0> //TODO: [C++20] replace with concepts/requires-clause
-- 
2.43.0


From df053efcf5b5bcfd53426e6768842ad0df7b37a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:11 +0000
Subject: [PATCH 25/29] fix: array_ref could be made from pointers to derived
 elements

---
 inc/ptl/array_ref.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/inc/ptl/array_ref.hpp b/inc/ptl/array_ref.hpp
index 26afef8..39f791c 100644
--- a/inc/ptl/array_ref.hpp
+++ b/inc/ptl/array_ref.hpp
@@ -185,6 +185,12 @@ namespace ptl {
 		constexpr
 		array_ref(pointer ptr, size_type count) noexcept : array_ref{ptr, ptr + count} {} //TODO: [C++20] use contiguous_iterators + sized_sentinal
 
+		//pointers to derived classes convert to pointers to their base, but arrays of derived objects are no arrays of base objects
+		template<typename First, typename Last, typename = std::enable_if_t<std::is_convertible_v<First *, pointer> && std::is_convertible_v<Last *, pointer> && !(std::is_convertible_v<First(*)[], Type(*)[]> && std::is_convertible_v<Last(*)[], Type(*)[]>)>> //TODO: [C++20] replace with concepts/requires-clause
+		array_ref(First *, Last *) =delete;
+		template<typename First, typename = std::enable_if_t<std::is_convertible_v<First *, pointer> && !std::is_convertible_v<First(*)[], Type(*)[]>>> //TODO: [C++20] replace with concepts/requires-clause
+		array_ref(First *, size_type) =delete;
+
 		//! @brief construct from ContiguousRange
 		//! @tparam ContiguousRange compatible range type that fulfills the ContiguousRange-requirements
 		//! @param[in] range range to reference
-- 
2.43.0


From d9bc5b0ca6bb6a96eb938912ddb0efc8480a61b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:26 +0000
Subject: [PATCH 26/29] fix: optional: store a copy of a value rather than a
 list of it

List-initialization from a value of the very type of the object prefers
(with g++) a constructor taking a std::initializer_list over copying or
moving that value: e.g. a std::vector<std::any> became a vector holding
one std::any, which contains the original vector.
Breaks C16.
---
 inc/ptl/optional.hpp | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/inc/ptl/optional.hpp b/inc/ptl/optional.hpp
index c64c57a..e73cc30 100644
--- a/inc/ptl/optional.hpp
+++ b/inc/ptl/optional.hpp
@@ -10,6 +10,16 @@
 #include <type_traits>
 
 namespace ptl {
+	namespace internal_optional {
+		//list-initialization from a value of the same type may prefer a constructor taking a std::initializer_list over copying or moving that value
+		template<typename T, typename Arg, std::enable_if_t<std::is_same_v<T, std::remove_cv_t<std::remove_reference_t<Arg>>>, int> = 0> //TODO: [C++20] replace with concepts/requires-clause
+		constexpr
+		auto make(Arg && arg) noexcept(std::is_nothrow_constructible_v<T, Arg>) -> T { return T(std::forward<Arg>(arg)); }
+		template<typename T, typename... Args, std::enable_if_t<!(sizeof...(Args) == 1 && (std::is_same_v<T, std::remove_cv_t<std::remove_reference_t<Args>>> && ...)), int> = 0> //TODO: [C++20] replace with concepts/requires-clause
+		constexpr
+		auto make(Args &&... args) noexcept(noexcept(T{std::forward<Args>(args)...})) -> T { return T{std::forward<Args>(args)...}; }
+	}
+
 	#pragma pack(push, 1)
 	//! @brief an optional value
 	//! @tparam Type type of the potentially contained object
@@ -34,19 +44,19 @@ namespace ptl {
 		optional(std::nullopt_t) noexcept {}
 
 		constexpr
-		optional(const optional & other) : initialized{other.initialized} { if(other) new(std::addressof(val)) Type{other.val}; } //TODO: [C++20] use std::construct_at
+		optional(const optional & other) : initialized{other.initialized} { if(other) new(std::addressof(val)) Type(other.val); } //TODO: [C++20] use std::construct_at
 		constexpr
-		optional(optional && other) noexcept : initialized{other.initialized} { if(other) new(std::addressof(val)) Type{std::move(other.val)}; } //TODO: [C++20] use std::construct_at
+		optional(optional && other) noexcept : initialized{other.initialized} { if(other) new(std::addressof(val)) Type(std::move(other.val)); } //TODO: [C++20] use std::construct_at
 
 		constexpr
-		optional(const Type & value) : initialized{true} { new(std::addressof(val)) Type{value}; } //TODO: [C++20] use std::construct_at
+		optional(const Type & value) : initialized{true} { new(std::addressof(val)) Type(value); } //TODO: [C++20] use std::construct_at
 		constexpr
-		optional(Type && value) noexcept : initialized{true} { new(std::addressof(val)) Type{std::move(value)}; } //TODO: [C++20] use std::construct_at
+		optional(Type && value) noexcept : initialized{true} { new(std::addressof(val)) Type(std::move(value)); } //TODO: [C++20] use std::construct_at
 
 		template<typename... Args>
 		constexpr
 		explicit
-		optional(std::in_place_t, Args &&... args) : initialized{true} { new(std::addressof(val)) Type{std::forward<Args>(args)...}; } //TODO: [C++20] use std::construct_at
+		optional(std::in_place_t, Args &&... args) : initialized{true} { new(std::addressof(val)) Type(internal_optional::make<Type>(std::forward<Args>(args)...)); } //TODO: [C++20] use std::construct_at
 
 		constexpr
 		auto operator=(std::nullopt_t) noexcept -> optional & {
@@ -75,7 +85,7 @@ namespace ptl {
 		auto operator=(const Type & value) -> optional & {
 			if(initialized) **this = value;
 			else {
-				new(std::addressof(val)) Type{value}; //TODO: [C++20] use std::construct_at
+				new(std::addressof(val)) Type(value); //TODO: [C++20] use std::construct_at
 				initialized = true;
 			}
 			return *this;
@@ -84,7 +94,7 @@ namespace ptl {
 		auto operator=(Type && value) noexcept -> optional & {
 			if(initialized) **this = std::move(value);
 			else {
-				new(std::addressof(val)) Type{std::move(value)}; //TODO: [C++20] use std::construct_at
+				new(std::addressof(val)) Type(std::move(value)); //TODO: [C++20] use std::construct_at
 				initialized = true;
 			}
 			return *this;
@@ -157,9 +167,9 @@ namespace ptl {
 		template<typename... Args>
 		constexpr
 		auto emplace(Args &&... args) -> Type & {
-			if(initialized) val = Type{std::forward<Args>(args)...};
+			if(initialized) val = internal_optional::make<Type>(std::forward<Args>(args)...);
 			else {
-				new(std::addressof(val)) Type{std::forward<Args>(args)...}; //TODO: [C++20] use std::construct_at
+				new(std::addressof(val)) Type(internal_optional::make<Type>(std::forward<Args>(args)...)); //TODO: [C++20] use std::construct_at
 				initialized = true;
 			}
 			return **this;
@@ -170,12 +180,12 @@ namespace ptl {
 			if(this == &other) return; //TODO: [C++20] use [[unlikely]]
 			if(!*this && !other) return;
 			else if(*this && !other) {
-				new(std::addressof(other.val)) Type{std::move(val)}; //TODO: [C++20] use std::construct_at
+				new(std::addressof(other.val)) Type(std::move(val)); //TODO: [C++20] use std::construct_at
 				other.initialized = true;
 				std::destroy_at(std::addressof(val));
 				initialized = false;
 			} else if(!*this && other) {
-				new(std::addressof(val)) Type{std::move(other.val)}; //TODO: [C++20] use std::construct_at
+				new(std::addressof(val)) Type(std::move(other.val)); //TODO: [C++20] use std::construct_at
 				initialized = true;
 				std::destroy_at(std::addressof(other.val));
 				other.initialized = false;
-- 
2.43.0


From 00205483f0ef0ee97c4914dd1052aface0671585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:26 +0000
Subject: [PATCH 27/29] fix: variant: store a copy of a value rather than a
 list of it

List-initialization from a value of the very type of the object prefers
(with g++) a constructor taking a std::initializer_list over copying or
moving that value: e.g. a std::vector<std::any> became a vector holding
one std::any, which contains the original vector.
Breaks C18.
---
 inc/ptl/variant.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/inc/ptl/variant.hpp b/inc/ptl/variant.hpp
index ea959e2..c07c904 100644
--- a/inc/ptl/variant.hpp
+++ b/inc/ptl/variant.hpp
@@ -15,6 +15,14 @@
 
 namespace ptl {
 	namespace internal_variant {
+		//list-initialization from a value of the same type may prefer a constructor taking a std::initializer_list over copying or moving that value
+		template<typename T, typename Arg, std::enable_if_t<std::is_same_v<T, std::remove_cv_t<std::remove_reference_t<Arg>>>, int> = 0> //TODO: [C++20] replace with concepts/requires-clause
+		constexpr
+		auto make(Arg && arg) noexcept(std::is_nothrow_constructible_v<T, Arg>) -> T { return T(std::forward<Arg>(arg)); }
+		template<typename T, typename... Args, std::enable_if_t<!(sizeof...(Args) == 1 && (std::is_same_v<T, std::remove_cv_t<std::remove_reference_t<Args>>> && ...)), int> = 0> //TODO: [C++20] replace with concepts/requires-clause
+		constexpr
+		auto make(Args &&... args) noexcept(noexcept(T{std::forward<Args>(args)...})) -> T { return T{std::forward<Args>(args)...}; }
+
 		template<typename...>
 		class storage_t final {};
 
@@ -48,7 +56,7 @@ namespace ptl {
 			constexpr
 			void set(Args &&... args) { //TODO: [C++??] precondition(val is uninitialized);
 				if constexpr(I != 0) next.template set<I - 1>(std::forward<Args>(args)...);
-				else new(std::addressof(val)) Head{std::forward<Args>(args)...}; //TODO: [C++20] use std::construct_at here
+				else new(std::addressof(val)) Head(internal_variant::make<Head>(std::forward<Args>(args)...)); //TODO: [C++20] use std::construct_at here
 			}
 
 			template<std::size_t I>
@@ -246,7 +254,7 @@ namespace ptl {
 		auto emplace(Args &&... args) -> decltype(auto) { return emplace<typename decltype(internal_variant::determine_type<Index, Head, Tail...>())::type>(std::forward<Args>(args)...); }
 		template<typename T, typename... Args, typename = std::enable_if_t<can_store<T>>> //TODO: [C++20] replace with concepts/requires-clause
 		auto emplace(Args &&... args) -> T & {
-			if constexpr(noexcept(T{std::declval<Args>()...})) {
+			if constexpr(noexcept(internal_variant::make<T>(std::declval<Args>()...))) {
 				internal_variant::destroy(indices_t{}, type, storage);
 				constexpr auto index{internal_variant::determine_index<std::decay_t<T>, Head, Tail...>()};
 				storage.template set<index>(std::forward<Args>(args)...);
-- 
2.43.0


From 2d9bebe753b7bcb0ba2b896cf0dc489d7442adce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:26 +0000
Subject: [PATCH 28/29] fix: vector: store a copy of a value rather than a list
 of it

List-initialization from a value of the very type of the object prefers
(with g++) a constructor taking a std::initializer_list over copying or
moving that value: e.g. a std::vector<std::any> became a vector holding
one std::any, which contains the original vector.
Breaks C05.
---
 inc/ptl/vector.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index a04166e..a4ef8fe 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -17,6 +17,16 @@
 #include <type_traits>
 
 namespace ptl {
+	namespace internal_vector {
+		//list-initialization from a value of the same type may prefer a constructor taking a std::initializer_list over copying or moving that value
+		template<typename T, typename Arg, std::enable_if_t<std::is_same_v<T, std::remove_cv_t<std::remove_reference_t<Arg>>>, int> = 0> //TODO: [C++20] replace with concepts/requires-clause
+		constexpr
+		auto make(Arg && arg) noexcept(std::is_nothrow_constructible_v<T, Arg>) -> T { return T(std::forward<Arg>(arg)); }
+		template<typename T, typename... Args, std::enable_if_t<!(sizeof...(Args) == 1 && (std::is_same_v<T, std::remove_cv_t<std::remove_reference_t<Args>>> && ...)), int> = 0> //TODO: [C++20] replace with concepts/requires-clause
+		constexpr
+		auto make(Args &&... args) noexcept(noexcept(T{std::forward<Args>(args)...})) -> T { return T{std::forward<Args>(args)...}; }
+	}
+
 	//! @brief a dynamically growing array
 	//! @tparam Type element type of the array
 	template<typename Type>
@@ -372,7 +382,7 @@ namespace ptl {
 		auto insert(const_iterator pos, Type && value) -> iterator { return emplace(pos, std::move(value)); }
 		auto insert(const_iterator pos, size_type count, const Type & value) -> iterator { return insert_impl(pos, count, [&](auto pos) { std::uninitialized_fill_n(pos, count, value); }); }
 		template<typename... Args>
-		auto emplace(const_iterator pos, Args &&... args) -> iterator { return insert_impl(pos, 1, [&](auto pos) { new(pos) Type{std::forward<Args>(args)...}; }); } //TODO: [C++20] use construct_at
+		auto emplace(const_iterator pos, Args &&... args) -> iterator { return insert_impl(pos, 1, [&](auto pos) { new(pos) Type(internal_vector::make<Type>(std::forward<Args>(args)...)); }); } //TODO: [C++20] use construct_at
 
 		auto begin() const noexcept -> const_iterator { return data(); }
 		auto begin()       noexcept ->       iterator { return data(); }
-- 
2.43.0


From 4c80d1256e9bc83c24f9d123f8a0b84d01defcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:26 +0000
Subject: [PATCH 29/29] fix: tuple: store a copy of a value rather than a list
 of it

List-initialization from a value of the very type of the object prefers
(with g++) a constructor taking a std::initializer_list over copying or
moving that value: e.g. a std::vector<std::any> became a vector holding
one std::any, which contains the original vector.
Breaks C25.
---
 inc/ptl/tuple.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/inc/ptl/tuple.hpp b/inc/ptl/tuple.hpp
index 7cdc715..6bac47f 100644
--- a/inc/ptl/tuple.hpp
+++ b/inc/ptl/tuple.hpp
@@ -25,6 +25,14 @@ namespace ptl {
 			std::is_nothrow_swappable_v<std::remove_cv_t<Type>>
 		};
 
+		//list-initialization from a value of the same type may prefer a constructor taking a std::initializer_list over copying or moving that value
+		template<typename T, typename Arg>
+		constexpr
+		auto make(Arg && arg) -> T {
+			if constexpr(std::is_same_v<std::remove_cv_t<T>, std::remove_cv_t<std::remove_reference_t<Arg>>>) return T(std::forward<Arg>(arg));
+			else return T{std::forward<Arg>(arg)};
+		}
+
 		template<typename...>
 		struct storage_t;
 
@@ -46,7 +54,7 @@ namespace ptl {
 		template<typename Head, typename... Tail>
 		struct storage_t<Head, Tail...> : storage_t<Tail...> {
 			template<typename Arg, typename... Args>
-			storage_t(Arg && arg, Args &&... args) : storage_t<Tail...>{std::forward<Args>(args)...}, value{std::forward<Arg>(arg)} {}
+			storage_t(Arg && arg, Args &&... args) : storage_t<Tail...>{std::forward<Args>(args)...}, value(internal_tuple::make<Head>(std::forward<Arg>(arg))) {}
 
 			template<std::size_t Index>
 			constexpr
-- 
2.43.0

