From 1badb59e47a51db74505fe2f07a3b486f4adc250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:23 +0000
Subject: [PATCH 01/28] fix: pointer_tag_pair converts a derived pointer to T*
 before packing it

---
 include/dice/template-library/pointer_tag_pair.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/pointer_tag_pair.hpp b/include/dice/template-library/pointer_tag_pair.hpp
index 5bc1ab5..3b92b42 100644
--- a/include/dice/template-library/pointer_tag_pair.hpp
+++ b/include/dice/template-library/pointer_tag_pair.hpp
@@ -67,18 +67,18 @@ namespace dice::template_library {
         template<detail_pointer_tag_pair::taggable_pointer<T> P>
         requires (BitsRequested <= detail_pointer_tag_pair::taggable_bits_available<std::remove_pointer_t<P>>())
         pointer_tag_pair(P const pointer, Tag const tag) noexcept
-            : pointer_tag_pair{reinterpret_cast<uintptr_t>(pointer) | static_cast<uintptr_t>(tag)} {
-            assert((reinterpret_cast<uintptr_t>(pointer) & tag_mask) == 0);
+            : pointer_tag_pair{reinterpret_cast<uintptr_t>(static_cast<T *>(pointer)) | static_cast<uintptr_t>(tag)} {
+            assert((reinterpret_cast<uintptr_t>(static_cast<T *>(pointer)) & tag_mask) == 0);
             assert(static_cast<uintptr_t>(tag) <= tag_mask);
         }
 
         template<unsigned PromisedAlignment, detail_pointer_tag_pair::taggable_pointer<T> P>
         requires (BitsRequested <= detail_pointer_tag_pair::taggable_bits_available<std::remove_pointer_t<P>, PromisedAlignment>())
         [[nodiscard]] static pointer_tag_pair from_overaligned(P const pointer, Tag const tag) noexcept {
-            assert((reinterpret_cast<uintptr_t>(pointer) & tag_mask) == 0);
+            assert((reinterpret_cast<uintptr_t>(static_cast<T *>(pointer)) & tag_mask) == 0);
             assert(static_cast<uintptr_t>(tag) <= tag_mask);
 
-            return pointer_tag_pair{reinterpret_cast<uintptr_t>(pointer) | static_cast<uintptr_t>(tag)};
+            return pointer_tag_pair{reinterpret_cast<uintptr_t>(static_cast<T *>(pointer)) | static_cast<uintptr_t>(tag)};
         }
 
         [[nodiscard]] static pointer_tag_pair from_tagged(tagged_pointer_type const pointer) noexcept {
-- 
2.43.0


From 09177e283af704b04b7f37c362603fd17328f99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:29 +0000
Subject: [PATCH 02/28] fix: variant2 assignment is only trivial if
 construction and destruction are trivial too

---
 include/dice/template-library/variant2.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 9f672f8..013bc05 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -327,14 +327,16 @@ namespace dice::template_library {
         }
 
         constexpr variant2 &operator=(variant2 const &other) noexcept
-            requires (std::is_trivially_copy_assignable_v<T> && std::is_trivially_copy_assignable_v<U>)
+            requires (std::is_trivially_copy_assignable_v<T> && std::is_trivially_copy_assignable_v<U>
+                      && std::is_trivially_copy_constructible_v<T> && std::is_trivially_copy_constructible_v<U>)
             = default;
 
         constexpr variant2 &
         operator=(variant2 const &other) noexcept(std::is_nothrow_copy_assignable_v<T> && std::is_nothrow_destructible_v<T>
                                                   && std::is_nothrow_copy_constructible_v<T> && std::is_nothrow_copy_assignable_v<U>
                                                   && std::is_nothrow_destructible_v<U> && std::is_nothrow_copy_constructible_v<U>)
-            requires (!std::is_trivially_copy_assignable_v<T> || !std::is_trivially_copy_assignable_v<U>)
+            requires (!std::is_trivially_copy_assignable_v<T> || !std::is_trivially_copy_assignable_v<U>
+                      || !std::is_trivially_copy_constructible_v<T> || !std::is_trivially_copy_constructible_v<U>)
         {
             if (this == &other) [[unlikely]] {
                 return *this;
@@ -418,14 +420,16 @@ namespace dice::template_library {
         }
 
         constexpr variant2 &operator=(variant2 &&other) noexcept
-            requires (std::is_trivially_move_assignable_v<T> && std::is_trivially_move_assignable_v<U>)
+            requires (std::is_trivially_move_assignable_v<T> && std::is_trivially_move_assignable_v<U>
+                      && std::is_trivially_move_constructible_v<T> && std::is_trivially_move_constructible_v<U>)
             = default;
 
         constexpr variant2 &
         operator=(variant2 &&other) noexcept(std::is_nothrow_move_assignable_v<T> && std::is_nothrow_destructible_v<T>
                                              && std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_assignable_v<U>
                                              && std::is_nothrow_destructible_v<U> && std::is_nothrow_move_constructible_v<U>)
-            requires (!std::is_trivially_move_assignable_v<T> || !std::is_trivially_move_assignable_v<U>)
+            requires (!std::is_trivially_move_assignable_v<T> || !std::is_trivially_move_assignable_v<U>
+                      || !std::is_trivially_move_constructible_v<T> || !std::is_trivially_move_constructible_v<U>)
         {
             assert(this != &other);
 
-- 
2.43.0


From c407a75d4e7230cefb466cc36a734691cc94987e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:29 +0000
Subject: [PATCH 03/28] fix: variant2 moving value constructors are noexcept
 iff the move is

---
 include/dice/template-library/variant2.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 013bc05..bcba7f7 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -261,7 +261,7 @@ namespace dice::template_library {
             new (&a_) T{value};
         }
 
-        constexpr variant2(T &&value) noexcept(std::is_nothrow_copy_constructible_v<T>)
+        constexpr variant2(T &&value) noexcept(std::is_nothrow_move_constructible_v<T>)
             : discriminant_{discriminant_type::First} {
             new (&a_) T{std::move(value)};
         }
@@ -271,7 +271,7 @@ namespace dice::template_library {
             new (&b_) U{value};
         }
 
-        constexpr variant2(U &&value) noexcept(std::is_nothrow_copy_constructible_v<U>)
+        constexpr variant2(U &&value) noexcept(std::is_nothrow_move_constructible_v<U>)
             : discriminant_{discriminant_type::Second} {
             new (&b_) U{std::move(value)};
         }
-- 
2.43.0


From 2eccb388c139fe5a1bef9dd68114822623584bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:29 +0000
Subject: [PATCH 04/28] fix: variant2 swap with itself does not trip the
 self-move assertion

---
 include/dice/template-library/variant2.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index bcba7f7..0b4dc1f 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -720,6 +720,10 @@ namespace dice::template_library {
         }
 
         friend constexpr void swap(variant2 &lhs, variant2 &rhs) noexcept(std::is_nothrow_move_assignable_v<variant2>) {
+            if (&lhs == &rhs) [[unlikely]] {
+                return;
+            }
+
             variant2 tmp = std::move(lhs);
             lhs = std::move(rhs);
             rhs = std::move(tmp);
-- 
2.43.0


From 4a2c05ff334fdb2bbeb278f849c0965b348448a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:58 +0000
Subject: [PATCH 05/28] fix: inplace_polymorphic drops trivially destructible
 values too

drop() left the flag untouched for trivially destructible alternatives, so that
assigning from a valueless object (or a throwing copy/emplace in a nothrow path)
kept reporting a value and copy_from/move_from tripped their assertion.
---
 include/dice/template-library/inplace_polymorphic.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/inplace_polymorphic.hpp b/include/dice/template-library/inplace_polymorphic.hpp
index d354c6c..c1c9880 100644
--- a/include/dice/template-library/inplace_polymorphic.hpp
+++ b/include/dice/template-library/inplace_polymorphic.hpp
@@ -77,7 +77,8 @@ namespace dice::template_library {
 
 		void drop() noexcept {
 			if constexpr ((std::is_trivially_destructible_v<Ts> && ...)) {
-				// noop
+				// the destructors do nothing, but the lifetime of the value ends nevertheless
+				valueless_ = true;
 			} else {
 				if (!valueless_) {
 					(**this).~Base();
-- 
2.43.0


From b16bf62bfb92a07abc23acb6396b049210d7e42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:54 +0000
Subject: [PATCH 06/28] fix: basic_static_string copies all bytes of wide
 characters

---
 include/dice/template-library/static_string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/static_string.hpp b/include/dice/template-library/static_string.hpp
index c05fa48..a359842 100644
--- a/include/dice/template-library/static_string.hpp
+++ b/include/dice/template-library/static_string.hpp
@@ -49,7 +49,7 @@ namespace dice::template_library {
 
             if (size_ != 0) {
                 data_ = std::allocator_traits<allocator_type>::allocate(alloc_, size_);
-                std::memcpy(std::to_address(data_), std::to_address(other.data_), size_);
+                std::memcpy(std::to_address(data_), std::to_address(other.data_), size_ * sizeof(Char));
             } else {
                 data_ = nullptr;
             }
@@ -69,7 +69,7 @@ namespace dice::template_library {
             }
 
             data_ = std::allocator_traits<allocator_type>::allocate(alloc_, size_);
-            std::memcpy(std::to_address(data_), sv.data(), size_);
+            std::memcpy(std::to_address(data_), sv.data(), size_ * sizeof(Char));
         }
 
         basic_static_string(basic_static_string const &other) : basic_static_string{static_cast<view_type>(other), other.alloc_} {
-- 
2.43.0


From 0a78d5b92fe28ce0d4aad863b50b2d44b68afcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:54 +0000
Subject: [PATCH 07/28] fix: basic_static_string stays valid if an assignment
 fails to allocate

---
 include/dice/template-library/static_string.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/dice/template-library/static_string.hpp b/include/dice/template-library/static_string.hpp
index a359842..2f9d2a3 100644
--- a/include/dice/template-library/static_string.hpp
+++ b/include/dice/template-library/static_string.hpp
@@ -43,15 +43,16 @@ namespace dice::template_library {
         void copy_assign_from_other(basic_static_string const &other) {
             if (size_ != 0) {
                 std::allocator_traits<allocator_type>::deallocate(alloc_, data_, size_);
-            }
 
-            size_ = other.size_;
+                // stay empty if the allocation below throws
+                data_ = nullptr;
+                size_ = 0;
+            }
 
-            if (size_ != 0) {
-                data_ = std::allocator_traits<allocator_type>::allocate(alloc_, size_);
+            if (other.size_ != 0) {
+                data_ = std::allocator_traits<allocator_type>::allocate(alloc_, other.size_);
+                size_ = other.size_;
                 std::memcpy(std::to_address(data_), std::to_address(other.data_), size_ * sizeof(Char));
-            } else {
-                data_ = nullptr;
             }
         }
 
-- 
2.43.0


From 31a175a1e12787c0ab158c187d24720a40aa65ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:55 +0000
Subject: [PATCH 08/28] fix: basic_static_string frees the old buffer with the
 old allocator on propagating copy assignment

---
 include/dice/template-library/static_string.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/dice/template-library/static_string.hpp b/include/dice/template-library/static_string.hpp
index 2f9d2a3..5a6d7e8 100644
--- a/include/dice/template-library/static_string.hpp
+++ b/include/dice/template-library/static_string.hpp
@@ -40,14 +40,16 @@ namespace dice::template_library {
             swap(a.size_, b.size_);
         }
 
-        void copy_assign_from_other(basic_static_string const &other) {
+        void clear() noexcept {
             if (size_ != 0) {
                 std::allocator_traits<allocator_type>::deallocate(alloc_, data_, size_);
-
-                // stay empty if the allocation below throws
                 data_ = nullptr;
                 size_ = 0;
             }
+        }
+
+        void copy_assign_from_other(basic_static_string const &other) {
+            clear(); // stay empty if the allocation below throws
 
             if (other.size_ != 0) {
                 data_ = std::allocator_traits<allocator_type>::allocate(alloc_, other.size_);
@@ -82,6 +84,7 @@ namespace dice::template_library {
             }
 
             if constexpr (std::allocator_traits<allocator_type>::propagate_on_container_copy_assignment::value) {
+                clear(); // the old buffer belongs to the old allocator
                 alloc_ = other.alloc_;
             }
 
-- 
2.43.0


From ab72479021dac0691b8bf6c8812e9dc50d10b3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:25 +0000
Subject: [PATCH 09/28] fix: is_sorted_unique compares adjacent elements of
 single-pass ranges

---
 include/dice/template-library/ranges.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index 1c94625..c1efd60 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -556,6 +556,25 @@ namespace dice::template_library {
             return true;
         }
 
+        // single-pass ranges: the previous element cannot be read again once the iterator has moved on
+        template<std::input_iterator I, std::sentinel_for<I> S, typename Cmp, typename Proj>
+        requires (std::indirect_strict_weak_order<Cmp, std::projected<I, Proj>> && !std::forward_iterator<I>)
+        constexpr bool is_sorted_unique_impl(I first, S last, Cmp cmp, Proj proj) {
+            if (first == last) {
+                return true;
+            }
+
+            std::iter_value_t<I> prev = *first;
+            while (++first != last) {
+                std::iter_value_t<I> curr = *first;
+                if (!std::invoke(cmp, std::invoke(proj, prev), std::invoke(proj, curr))) {
+                    return false;
+                }
+                prev = std::move(curr);
+            }
+            return true;
+        }
+
 		template<typename Cmp, typename Proj>
 		struct is_sorted_unique_pipeline {
         private:
-- 
2.43.0


From 0bd4c35606d1a70a3a51fd5c9d025a60ae1aaace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:29 +0000
Subject: [PATCH 10/28] fix: range iterates exactly the documented sequence at
 type limits, in reverse and for uneven steps

---
 include/dice/template-library/ranges.hpp | 52 ++++++++++++++++++++----
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index c1efd60..19e639a 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -4,6 +4,7 @@
 #include <dice/template-library/next_to_range.hpp>
 
 #include <algorithm>
+#include <cstdint>
 #include <functional>
 #include <ranges>
 #include <set>
@@ -353,6 +354,32 @@ namespace dice::template_library {
 			T stop_;
 			S step_;
 
+			/**
+			 * @return distance between current_ and stop_, it does not fit into T in general
+			 */
+			[[nodiscard]] constexpr uint64_t distance() const noexcept {
+				auto const cur = static_cast<uint64_t>(current_);
+				auto const stop = static_cast<uint64_t>(stop_);
+				return current_ <= stop_ ? stop - cur : cur - stop;
+			}
+
+			/**
+			 * @return absolute value of step_, it does not fit into S in general
+			 */
+			[[nodiscard]] constexpr uint64_t step_width() const noexcept {
+				auto const step = static_cast<uint64_t>(step_);
+				return step_ > S{} ? step : uint64_t{0} - step;
+			}
+
+			/**
+			 * @return the element at the given offset
+			 * @pre off < remaining()
+			 */
+			[[nodiscard]] constexpr T at(uint64_t off) const noexcept {
+				// modular arithmetic, only the result is guaranteed to be representable
+				return static_cast<T>(static_cast<uint64_t>(current_) + off * static_cast<uint64_t>(step_));
+			}
+
 		public:
             range_iterator() noexcept
                     requires (std::is_default_constructible_v<T> && std::is_constructible_v<S, int>)
@@ -379,12 +406,23 @@ namespace dice::template_library {
 					}
 				}
 
+				if constexpr (std::integral<T> && std::integral<S>) {
+					if (distance() <= step_width()) {
+						// do not step beyond stop, the result is not necessarily representable
+						return std::exchange(current_, stop_);
+					}
+				}
+
 				return std::exchange(current_, current_ + step_);
 			}
 
             [[nodiscard]] constexpr size_t remaining() const noexcept
                     requires (std::integral<T> && std::integral<S>)
             {
+				if (current_ == stop_) {
+					return 0;
+				}
+
 				if (current_ <= stop_) {
 					// forward
 					if (step_ < S{}) {
@@ -392,7 +430,7 @@ namespace dice::template_library {
 						return 0;
 					}
 
-					return static_cast<size_t>((stop_ - current_ + step_ - 1) / step_);
+					return static_cast<size_t>((distance() - 1) / step_width() + 1);
 				} else {
 					// backward
 					if (step_ > S{}) {
@@ -400,7 +438,7 @@ namespace dice::template_library {
 						return 0;
 					}
 
-					return static_cast<size_t>((current_ - stop_ + -step_ - 1) / -step_);
+					return static_cast<size_t>((distance() - 1) / step_width() + 1);
 				}
 			}
 
@@ -413,7 +451,7 @@ namespace dice::template_library {
 					return std::nullopt;
 				}
 
-				current_ += static_cast<T>(off) * step_;
+				current_ = at(off);
 				return next();
 			}
 
@@ -424,13 +462,13 @@ namespace dice::template_library {
 					if (current_ >= stop_) {
 						return std::nullopt;
 					}
-					stop_ -= step_;
+					stop_ = at(remaining() - 1);
 					return stop_;
 				} else {
 					if (current_ <= stop_) {
 						return std::nullopt;
 					}
-					stop_ -= step_;
+					stop_ = at(remaining() - 1);
 					return stop_;
 				}
 			}
@@ -444,8 +482,8 @@ namespace dice::template_library {
 					return std::nullopt;
 				}
 
-				stop_ -= static_cast<T>(off) * step_;
-				return next_back();
+				stop_ = at(rem - 1 - off);
+				return stop_;
 			}
 		};
 	}// namespace ranges_algo_detail
-- 
2.43.0


From e0ee0555af4297f7fb00fbc949b913398457139d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:12 +0000
Subject: [PATCH 11/28] fix: limit_allocator could not be rebound unless it was
 synchronized

---
 include/dice/template-library/limit_allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/limit_allocator.hpp b/include/dice/template-library/limit_allocator.hpp
index e836280..011aaaf 100644
--- a/include/dice/template-library/limit_allocator.hpp
+++ b/include/dice/template-library/limit_allocator.hpp
@@ -115,7 +115,7 @@ namespace dice::template_library {
 		constexpr ~limit_allocator() = default;
 
 		template<typename U>
-		constexpr limit_allocator(limit_allocator<U, Allocator> const &other) noexcept(std::is_nothrow_constructible_v<upstream_allocator_type, typename limit_allocator<U, Allocator>::upstream_allocator_type const &>)
+		constexpr limit_allocator(limit_allocator<U, Allocator, syncness> const &other) noexcept(std::is_nothrow_constructible_v<upstream_allocator_type, typename limit_allocator<U, Allocator, syncness>::upstream_allocator_type const &>)
 			: control_block_{other.control_block_},
 			  inner_{other.inner_} {
 		}
-- 
2.43.0


From b89afa5db625458993c6cc3c3493c164f81c250e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:12 +0000
Subject: [PATCH 12/28] fix: select_on_container_copy_construction of a
 limit_allocator did not compile for upstreams that are not default
 constructible

---
 include/dice/template-library/limit_allocator.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/dice/template-library/limit_allocator.hpp b/include/dice/template-library/limit_allocator.hpp
index 011aaaf..ce511de 100644
--- a/include/dice/template-library/limit_allocator.hpp
+++ b/include/dice/template-library/limit_allocator.hpp
@@ -96,7 +96,6 @@ namespace dice::template_library {
 		[[no_unique_address]] upstream_allocator_type inner_;
 
 		constexpr limit_allocator(std::shared_ptr<control_block_type> const &control_block, upstream_allocator_type const &alloc)
-                requires (std::is_default_constructible_v<upstream_allocator_type>)
             : control_block_{control_block},
               inner_{alloc} {
         }
-- 
2.43.0


From 9256d1d1e0c35015ca9e6639d31571bf7f558550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:18 +0000
Subject: [PATCH 13/28] fix: a moved-from limit_allocator lost its budget
 (containers use their allocator after moving from it)

---
 .../dice/template-library/limit_allocator.hpp   | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/dice/template-library/limit_allocator.hpp b/include/dice/template-library/limit_allocator.hpp
index ce511de..abacd69 100644
--- a/include/dice/template-library/limit_allocator.hpp
+++ b/include/dice/template-library/limit_allocator.hpp
@@ -107,10 +107,21 @@ namespace dice::template_library {
               inner_{} {
         }
 
-		constexpr limit_allocator(limit_allocator const &other) noexcept(std::is_nothrow_move_constructible_v<upstream_allocator_type>) = default;
-		constexpr limit_allocator(limit_allocator &&other) noexcept(std::is_nothrow_copy_constructible_v<upstream_allocator_type>) = default;
+		constexpr limit_allocator(limit_allocator const &other) noexcept(std::is_nothrow_copy_constructible_v<upstream_allocator_type>) = default;
 		constexpr limit_allocator &operator=(limit_allocator const &other) noexcept(std::is_nothrow_copy_assignable_v<upstream_allocator_type>) = default;
-		constexpr limit_allocator &operator=(limit_allocator &&other) noexcept(std::is_nothrow_move_assignable_v<upstream_allocator_type>) = default;
+
+		// note: moving from an allocator must not change its value (containers keep on using it), so the control block is shared and not moved
+		constexpr limit_allocator(limit_allocator &&other) noexcept(std::is_nothrow_move_constructible_v<upstream_allocator_type>)
+			: control_block_{other.control_block_},
+			  inner_{std::move(other.inner_)} {
+		}
+
+		constexpr limit_allocator &operator=(limit_allocator &&other) noexcept(std::is_nothrow_move_assignable_v<upstream_allocator_type>) {
+			control_block_ = other.control_block_;
+			inner_ = std::move(other.inner_);
+			return *this;
+		}
+
 		constexpr ~limit_allocator() = default;
 
 		template<typename U>
-- 
2.43.0


From a78cb5675d8e430e56af274309fd57795d44912b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:18 +0000
Subject: [PATCH 14/28] fix: a moved-from pool_allocator lost its pool
 (containers use their allocator after moving from it)

---
 include/dice/template-library/pool_allocator.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/dice/template-library/pool_allocator.hpp b/include/dice/template-library/pool_allocator.hpp
index 65afc3f..236f5a0 100644
--- a/include/dice/template-library/pool_allocator.hpp
+++ b/include/dice/template-library/pool_allocator.hpp
@@ -160,10 +160,9 @@ namespace dice::template_library {
 			: pool_{std::move(underlying_pool)} {
 		}
 
+		// note: not movable because moving from an allocator must not change its value (containers keep on using it)
 		pool_allocator(pool_allocator const &other) noexcept = default;
-		pool_allocator(pool_allocator &&other) noexcept = default;
 		pool_allocator &operator=(pool_allocator const &other) noexcept = default;
-		pool_allocator &operator=(pool_allocator &&other) noexcept = default;
 		~pool_allocator() noexcept = default;
 
 		template<typename U>
-- 
2.43.0


From b99a7b831e0bbd7ced3a736f7c1b3c1a4d9bf286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:18 +0000
Subject: [PATCH 15/28] fix: pool_allocator::allocate returned too small a
 block if the size in bytes overflowed

---
 include/dice/template-library/pool_allocator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dice/template-library/pool_allocator.hpp b/include/dice/template-library/pool_allocator.hpp
index 236f5a0..03f8592 100644
--- a/include/dice/template-library/pool_allocator.hpp
+++ b/include/dice/template-library/pool_allocator.hpp
@@ -8,6 +8,7 @@
 #include <cstddef>
 #include <type_traits>
 #include <memory>
+#include <new>
 
 namespace dice::template_library {
 
@@ -175,6 +176,9 @@ namespace dice::template_library {
 		}
 
 		pointer allocate(size_t n) {
+			if (n > static_cast<size_t>(-1) / sizeof(T)) [[unlikely]] {
+				throw std::bad_array_new_length{};
+			}
 			return static_cast<pointer>(pool_->allocate(sizeof(T) * n));
 		}
 
-- 
2.43.0


From d72488b1ea3753970bc95a285156d47c15d21ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:57 +0000
Subject: [PATCH 16/28] fix: mutex and shared_mutex did not compile with a
 custom mutex type

---
 include/dice/template-library/mutex.hpp        |  8 ++++----
 include/dice/template-library/shared_mutex.hpp | 16 ++++++++--------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/dice/template-library/mutex.hpp b/include/dice/template-library/mutex.hpp
index 39746f0..6b3cc7b 100644
--- a/include/dice/template-library/mutex.hpp
+++ b/include/dice/template-library/mutex.hpp
@@ -108,8 +108,8 @@ namespace dice::template_library {
          * @return mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] mutex_guard<value_type> lock() {
-            return mutex_guard<value_type>{std::unique_lock<mutex_type>{mutex_}, value_};
+        [[nodiscard]] mutex_guard<value_type, mutex_type> lock() {
+            return mutex_guard<value_type, mutex_type>{std::unique_lock<mutex_type>{mutex_}, value_};
         }
 
 		/**
@@ -119,13 +119,13 @@ namespace dice::template_library {
          * @return nullopt in case the mutex could not be locked, otherwise a mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] std::optional<mutex_guard<value_type>> try_lock() {
+        [[nodiscard]] std::optional<mutex_guard<value_type, mutex_type>> try_lock() {
             std::unique_lock<mutex_type> lock{mutex_, std::try_to_lock};
             if (!lock.owns_lock()) {
                 return std::nullopt;
             }
 
-            return mutex_guard<value_type>{std::move(lock), value_};
+            return mutex_guard<value_type, mutex_type>{std::move(lock), value_};
         }
     };
 
diff --git a/include/dice/template-library/shared_mutex.hpp b/include/dice/template-library/shared_mutex.hpp
index 52b43cd..414dab0 100644
--- a/include/dice/template-library/shared_mutex.hpp
+++ b/include/dice/template-library/shared_mutex.hpp
@@ -110,8 +110,8 @@ namespace dice::template_library {
          * @return mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] shared_mutex_guard<value_type> lock() {
-            return shared_mutex_guard<value_type>{std::unique_lock<mutex_type>{mutex_}, value_};
+        [[nodiscard]] shared_mutex_guard<value_type, mutex_type> lock() {
+            return shared_mutex_guard<value_type, mutex_type>{std::unique_lock<mutex_type>{mutex_}, value_};
         }
 
 		/**
@@ -121,13 +121,13 @@ namespace dice::template_library {
          * @return nullopt in case the mutex could not be locked, otherwise a mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] std::optional<shared_mutex_guard<value_type>> try_lock() {
+        [[nodiscard]] std::optional<shared_mutex_guard<value_type, mutex_type>> try_lock() {
             std::unique_lock<mutex_type> lock{mutex_, std::try_to_lock};
             if (!lock.owns_lock()) {
                 return std::nullopt;
             }
 
-            return shared_mutex_guard<value_type>{std::move(lock), value_};
+            return shared_mutex_guard<value_type, mutex_type>{std::move(lock), value_};
         }
 
         /**
@@ -137,8 +137,8 @@ namespace dice::template_library {
          * @return mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] shared_mutex_guard<value_type const> lock_shared() const {
-            return shared_mutex_guard<value_type const>{std::shared_lock<mutex_type>{mutex_}, value_};
+        [[nodiscard]] shared_mutex_guard<value_type const, mutex_type> lock_shared() const {
+            return shared_mutex_guard<value_type const, mutex_type>{std::shared_lock<mutex_type>{mutex_}, value_};
         }
 
         /**
@@ -148,13 +148,13 @@ namespace dice::template_library {
          * @return nullopt in case the mutex could not be locked, otherwise a mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] std::optional<shared_mutex_guard<value_type const>> try_lock_shared() const {
+        [[nodiscard]] std::optional<shared_mutex_guard<value_type const, mutex_type>> try_lock_shared() const {
             std::shared_lock<mutex_type> lock{mutex_, std::try_to_lock};
             if (!lock.owns_lock()) {
                 return std::nullopt;
             }
 
-            return shared_mutex_guard<value_type const>{std::move(lock), value_};
+            return shared_mutex_guard<value_type const, mutex_type>{std::move(lock), value_};
         }
     };
 
-- 
2.43.0


From dfdfc69e50c3c88ff271927cc04d1e4e30e3fc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:57 +0000
Subject: [PATCH 17/28] fix: swap of mutex guards did not compile

---
 include/dice/template-library/mutex.hpp        | 2 +-
 include/dice/template-library/shared_mutex.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/mutex.hpp b/include/dice/template-library/mutex.hpp
index 6b3cc7b..22c7498 100644
--- a/include/dice/template-library/mutex.hpp
+++ b/include/dice/template-library/mutex.hpp
@@ -54,7 +54,7 @@ namespace dice::template_library {
             return *value_ptr_;
         }
 
-        friend void swap(mutex_guard const &lhs, mutex_guard const &rhs) noexcept {
+        friend void swap(mutex_guard &lhs, mutex_guard &rhs) noexcept {
             using std::swap;
             swap(lhs.value_ptr_, rhs.value_ptr_);
             swap(lhs.lock_, rhs.lock_);
diff --git a/include/dice/template-library/shared_mutex.hpp b/include/dice/template-library/shared_mutex.hpp
index 414dab0..1be577f 100644
--- a/include/dice/template-library/shared_mutex.hpp
+++ b/include/dice/template-library/shared_mutex.hpp
@@ -56,7 +56,7 @@ namespace dice::template_library {
             return *value_ptr_;
         }
 
-        friend void swap(shared_mutex_guard const &lhs, shared_mutex_guard const &rhs) noexcept {
+        friend void swap(shared_mutex_guard &lhs, shared_mutex_guard &rhs) noexcept {
             using std::swap;
             swap(lhs.value_ptr_, rhs.value_ptr_);
             swap(lhs.lock_, rhs.lock_);
-- 
2.43.0


From da4f43a43bcfe8dee481ae057c6459f38d0c5ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:54 +0000
Subject: [PATCH 18/28] fix: channels do not lose a wakeup if constructing or
 moving an element throws

---
 include/dice/template-library/channel.hpp       | 17 +++++++++++++++--
 .../dice/template-library/exchange_channel.hpp  |  8 +++++++-
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/dice/template-library/channel.hpp b/include/dice/template-library/channel.hpp
index d5b685e..c6f8ab7 100644
--- a/include/dice/template-library/channel.hpp
+++ b/include/dice/template-library/channel.hpp
@@ -97,7 +97,13 @@ namespace dice::template_library {
                     return false;
                 }
 
-                queue_.emplace_back(std::forward<Args>(args)...);
+                try {
+                    queue_.emplace_back(std::forward<Args>(args)...);
+                } catch (...) {
+                    // this thread may have been woken for the capacity it now does not use, pass that on to another waiting thread
+                    queue_not_full_.notify_one();
+                    throw;
+                }
             }
 
             queue_not_empty_.notify_one();
@@ -185,7 +191,14 @@ namespace dice::template_library {
                 return std::nullopt;
             }
 
-            auto ret = std::move(queue_.front());
+            std::optional<value_type> ret;
+            try {
+                ret.emplace(std::move(queue_.front()));
+            } catch (...) {
+                // this thread may have been woken for the element it now does not take, pass that on to another waiting thread
+                queue_not_empty_.notify_one();
+                throw;
+            }
             queue_.pop_front();
 
 			lock.unlock();
diff --git a/include/dice/template-library/exchange_channel.hpp b/include/dice/template-library/exchange_channel.hpp
index a6d75ed..b01f345 100644
--- a/include/dice/template-library/exchange_channel.hpp
+++ b/include/dice/template-library/exchange_channel.hpp
@@ -132,7 +132,13 @@ namespace dice::template_library {
                 return std::nullopt;
             }
 
-            return *std::exchange(value_, std::nullopt);
+            try {
+                return *std::exchange(value_, std::nullopt);
+            } catch (...) {
+                // this thread may have been woken for the value it now does not take, pass that on to another waiting thread
+                has_value_.notify_one();
+                throw;
+            }
         }
 
         /**
-- 
2.43.0


From 4902cce1834fb681000e1dcc3b19567bbf36bc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:26 +0000
Subject: [PATCH 19/28] fix: standard_layout_tuple of one element could not be
 copied from a non-const lvalue

---
 include/dice/template-library/standard_layout_tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/standard_layout_tuple.hpp b/include/dice/template-library/standard_layout_tuple.hpp
index e0a965e..99ba7dc 100644
--- a/include/dice/template-library/standard_layout_tuple.hpp
+++ b/include/dice/template-library/standard_layout_tuple.hpp
@@ -74,7 +74,7 @@ namespace dice::template_library {
 		constexpr standard_layout_tuple() = default;
 
 		template<typename ...Args>
-		explicit constexpr standard_layout_tuple(Args &&...args) requires (sizeof...(Args) == 1 + sizeof...(Ts))
+		explicit constexpr standard_layout_tuple(Args &&...args) requires (sizeof...(Args) == 1 + sizeof...(Ts) && !(sizeof...(Ts) == 0 && (std::is_base_of_v<standard_layout_tuple, std::remove_cvref_t<Args>> && ...)))
 			: standard_layout_tuple{individual_construct, std::forward<Args>(args)...}
 		{
 		}
-- 
2.43.0


From b4d79c542fcb6eda25467bd2d8ac5d746f8dcd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:26 +0000
Subject: [PATCH 20/28] fix: integral_template_variant copy constructor is
 noexcept iff copying cannot throw

---
 include/dice/template-library/integral_template_variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/integral_template_variant.hpp b/include/dice/template-library/integral_template_variant.hpp
index fdbe8ee..ae7fe98 100644
--- a/include/dice/template-library/integral_template_variant.hpp
+++ b/include/dice/template-library/integral_template_variant.hpp
@@ -62,7 +62,7 @@ namespace dice::template_library {
 
 	public:
 		constexpr integral_template_variant() noexcept(std::is_nothrow_default_constructible_v<underlying_type>) = default;
-		constexpr integral_template_variant(integral_template_variant const &other) noexcept(std::is_copy_constructible_v<underlying_type>) = default;
+		constexpr integral_template_variant(integral_template_variant const &other) noexcept(std::is_nothrow_copy_constructible_v<underlying_type>) = default;
 		constexpr integral_template_variant(integral_template_variant &&other) noexcept(std::is_nothrow_move_constructible_v<underlying_type>) = default;
 		constexpr integral_template_variant &operator=(integral_template_variant const &other) noexcept(std::is_nothrow_copy_assignable_v<underlying_type>) = default;
 		constexpr integral_template_variant &operator=(integral_template_variant &&other) noexcept(std::is_nothrow_move_assignable_v<underlying_type>) = default;
-- 
2.43.0


From 63d65e7a48228f9ab7c932410eaed45459943130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:26 +0000
Subject: [PATCH 21/28] fix: ipow did not compile for character types

---
 include/dice/template-library/ipow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/ipow.hpp b/include/dice/template-library/ipow.hpp
index bd910d4..5643f19 100644
--- a/include/dice/template-library/ipow.hpp
+++ b/include/dice/template-library/ipow.hpp
@@ -37,7 +37,7 @@ namespace dice::template_library {
         auto safe_mul = [base, exp](ReturnType a, ReturnType b) -> ReturnType {
             ReturnType out{};
             if (__builtin_mul_overflow(a, b, &out)) {
-                if (std::cmp_less(base, 0) && (exp % 2 != 0)) {
+                if (base < 0 && (exp % 2 != 0)) {
                     throw std::underflow_error("Integer underflow detected.");
                 }
                 throw std::overflow_error("Integer overflow detected.");
-- 
2.43.0


From 61c67446f9037d7bf749290439d66b13be4cb8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:19 +0000
Subject: [PATCH 22/28] fix: tuple_fold and tuple_type_fold returned a dangling
 reference for an lvalue initial accumulator

---
 include/dice/template-library/tuple_algorithm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/tuple_algorithm.hpp b/include/dice/template-library/tuple_algorithm.hpp
index 2c01327..5284a8e 100644
--- a/include/dice/template-library/tuple_algorithm.hpp
+++ b/include/dice/template-library/tuple_algorithm.hpp
@@ -63,7 +63,7 @@ namespace dice::template_library {
 	 * @return the final value of the accumulator
 	 */
 	template<typename Tuple, typename Acc, typename FoldF>
-	constexpr Acc tuple_fold(Tuple const &tuple, Acc &&init, FoldF &&f) noexcept {
+	constexpr std::remove_cvref_t<Acc> tuple_fold(Tuple const &tuple, Acc &&init, FoldF &&f) noexcept {
 		return tuple_algo_detail::tuple_fold_impl(std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<Tuple>>>{}, tuple, std::forward<Acc>(init), std::forward<FoldF>(f));
 	}
 
@@ -77,7 +77,7 @@ namespace dice::template_library {
 	 * @return the final value of the accumulator
 	 */
 	template<typename Tuple, typename Acc, typename FoldF>
-	constexpr Acc tuple_type_fold(Acc &&init, FoldF &&f) noexcept {
+	constexpr std::remove_cvref_t<Acc> tuple_type_fold(Acc &&init, FoldF &&f) noexcept {
 		return tuple_algo_detail::tuple_type_fold_impl<Tuple>(std::make_index_sequence<std::tuple_size_v<Tuple>>{}, std::forward<Acc>(init), std::forward<FoldF>(f));
 	}
 
-- 
2.43.0


From cebe67d7ebbcedb867c74f335589a0a4646d808b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:48 +0000
Subject: [PATCH 23/28] fix: for_range did not compile for ranges of narrow
 types longer than the type's maximum

---
 include/dice/template-library/for.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/for.hpp b/include/dice/template-library/for.hpp
index 4abfdd8..b78cc06 100644
--- a/include/dice/template-library/for.hpp
+++ b/include/dice/template-library/for.hpp
@@ -40,17 +40,17 @@ namespace dice::template_library {
 	template<std::integral auto first, decltype(first) last, typename F>
 	constexpr void for_range(F &&f) {
 		if constexpr (first < last) {
-			auto const impl = [&f]<auto... xs>(std::integer_sequence<decltype(first), xs...>) {
+			auto const impl = [&f]<auto... xs>(std::integer_sequence<decltype(first - last), xs...>) {
 				for_values<(first + xs)...>(std::forward<F>(f));
 			};
 
-			impl(std::make_integer_sequence<decltype(first), last - first>{});
+			impl(std::make_integer_sequence<decltype(last - first), last - first>{});
 		} else {
-			auto const impl = [&f]<auto... xs>(std::integer_sequence<decltype(first), xs...>) {
+			auto const impl = [&f]<auto... xs>(std::integer_sequence<decltype(first - last), xs...>) {
 				for_values<(first - xs)...>(std::forward<F>(f));
 			};
 
-			impl(std::make_integer_sequence<decltype(first), first - last>{});
+			impl(std::make_integer_sequence<decltype(first - last), first - last>{});
 		}
 	}
 }// namespace dice::template_library
-- 
2.43.0


From 427bfbfd052e81035fc61dd7ccc40679fe7be4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:31 +0000
Subject: [PATCH 24/28] fix: fmt_join did not compile with a string or
 string_view as separator

---
 include/dice/template-library/fmt_join.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/fmt_join.hpp b/include/dice/template-library/fmt_join.hpp
index 6d79999..fa03ed5 100644
--- a/include/dice/template-library/fmt_join.hpp
+++ b/include/dice/template-library/fmt_join.hpp
@@ -68,7 +68,7 @@ namespace std {
 			while (it != end) {
 				// format separator
 				if constexpr (std::ranges::range<Sep const &>) {
-					format_ctx.advance_to(std::ranges::copy(join_obj.separator, format_ctx.out()));
+					format_ctx.advance_to(std::ranges::copy(join_obj.separator, format_ctx.out()).out);
 				} else {
 					// otherwise single character
 					*format_ctx.out()++ = join_obj.separator;
-- 
2.43.0


From 63c7f12b1d8ef7f16f4a0acb3bd74cbdf32fa78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:12 +0000
Subject: [PATCH 25/28] fix: copying a next_to_iter from a non-const lvalue
 skipped an element

---
 include/dice/template-library/next_to_range.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/next_to_range.hpp b/include/dice/template-library/next_to_range.hpp
index 38ed862..5d4a3d3 100644
--- a/include/dice/template-library/next_to_range.hpp
+++ b/include/dice/template-library/next_to_range.hpp
@@ -131,7 +131,8 @@ namespace dice::template_library {
 		public:
             template<typename... Args>
             explicit constexpr next_to_iter_impl(Args &&...args)
-                    requires (std::is_constructible_v<Iter, decltype(std::forward<Args>(args))...>)
+                    requires (std::is_constructible_v<Iter, decltype(std::forward<Args>(args))...>
+                              && !(sizeof...(Args) == 1 && (std::is_same_v<std::remove_cvref_t<Args>, next_to_iter_impl> && ...)))
                 : Iter{std::forward<Args>(args)...},
                   cur_{next()} {
             }
-- 
2.43.0


From bbba553f61c370b47ab7327e1f0a0c9655cf58d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:47 +0000
Subject: [PATCH 26/28] fix: fmt_join did not compile for ranges that can only
 be iterated over when they are not const

---
 include/dice/template-library/fmt_join.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/fmt_join.hpp b/include/dice/template-library/fmt_join.hpp
index fa03ed5..05fadc1 100644
--- a/include/dice/template-library/fmt_join.hpp
+++ b/include/dice/template-library/fmt_join.hpp
@@ -4,6 +4,7 @@
 #include <format>
 #include <iterator>
 #include <ranges>
+#include <type_traits>
 #include <vector>
 
 namespace dice::template_library {
@@ -46,13 +47,18 @@ namespace std {
 	private:
 		formatter<std::ranges::range_value_t<R>, CharT> element_formatter_;
 
+		// not every range can be iterated over when it is const (e.g., std::views::filter)
+		using joiner_type = std::conditional_t<std::ranges::input_range<R const>,
+											   dice::template_library::fmt_join_algo_detail::joiner<R, Sep> const,
+											   dice::template_library::fmt_join_algo_detail::joiner<R, Sep>>;
+
 	public:
 		constexpr auto parse(auto &parse_ctx) {
 			// forward parsing (e.g., `{:.2f}`) to element's formatter
 			return element_formatter_.parse(parse_ctx);
 		}
 
-		auto format(dice::template_library::fmt_join_algo_detail::joiner<R, Sep> const &join_obj, auto &format_ctx) const {
+		auto format(joiner_type &join_obj, auto &format_ctx) const {
 			auto it = std::ranges::begin(join_obj.range);
 			auto const end = std::ranges::end(join_obj.range);
 
-- 
2.43.0


From cefff18a2730a1373d0941656c265c334ed450d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:54 +0000
Subject: [PATCH 27/28] fix: all_equal on ranges whose iterators can only be
 moved

all_equal accepts every input iterator but copied it, so ranges like
std::views::istream did not compile.
---
 include/dice/template-library/ranges.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index 19e639a..5445166 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -184,7 +184,7 @@ namespace dice::template_library {
             ++first;
 
             // Check if all subsequent elements in the range match the first one.
-            return std::ranges::subrange(first, last)
+            return std::ranges::subrange(std::move(first), std::move(last))
                    | dice::template_library::all_of([&](auto const &current_element) {
                          return std::invoke(pred, current_element, first_element);
                      });
-- 
2.43.0


From 9e5cde8b6ec86825edefa074446ea5b1ba9d9f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:17:36 +0000
Subject: [PATCH 28/28] fix: flex_array did not compile for iterators whose
 post-increment yields nothing, or that end in a sentinel of another type

---
 include/dice/template-library/flex_array.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/dice/template-library/flex_array.hpp b/include/dice/template-library/flex_array.hpp
index e7ebfcd..d95c89a 100644
--- a/include/dice/template-library/flex_array.hpp
+++ b/include/dice/template-library/flex_array.hpp
@@ -319,7 +319,7 @@ namespace dice::template_library {
 		template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
 		constexpr flex_array(Iter first, Sent last) {
 			if constexpr (has_max_extent && std::random_access_iterator<Iter>) {
-				auto const range_size = std::distance(first, last);
+				auto const range_size = std::ranges::distance(first, last);
 				if (static_cast<size_t>(range_size) > max_size()) [[unlikely]] {
 					throw std::length_error{"flex_array::flex_array: maximum size exceeded"};
 				}
@@ -334,10 +334,12 @@ namespace dice::template_library {
 						}
 					}
 
-					inner_.data_[ix++] = *first++;
+					inner_.data_[ix++] = *first;
 				} else {
-					inner_.data_.push_back(*first++);
+					inner_.data_.push_back(*first);
 				}
+
+				++first; // not combined with the access, an input iterator's post-increment may yield nothing
 			}
 
 			if constexpr (extent == dynamic_extent && max_extent != dynamic_extent) {
-- 
2.43.0

