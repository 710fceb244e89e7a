From 800efea9199acb2e3c596aed8e83db779516428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:56 +0000
Subject: [PATCH 01/23] fix: number capturing groups across alternatives of an
 alternation

Groups in later alternatives reused the IDs of earlier ones, so '(a)|(b)'
stored both groups as group 1 and group 2 was never set.
---
 include/mregex/ast/indexing.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/mregex/ast/indexing.hpp b/include/mregex/ast/indexing.hpp
index 26b3b81..5bb595e 100644
--- a/include/mregex/ast/indexing.hpp
+++ b/include/mregex/ast/indexing.hpp
@@ -60,6 +60,15 @@ namespace meta::ast
                 }(inner_offsets{}));
             };
 
+            template<typename... Nodes>
+            struct index<alternation<Nodes ...>>
+            {
+                using inner_offsets = capture_index_offsets_t<Offset, capture_count<Nodes> ...>;
+                using type = decltype([]<std::size_t... Offsets>(std::index_sequence<Offsets ...>) {
+                    return alternation<typename capture_indexer<Offsets>::template index<Nodes>::type ...>{};
+                }(inner_offsets{}));
+            };
+
             template<typename Node>
             using index_t = typename index<Node>::type;
         };
-- 
2.43.0


From c2d39dde52ef0ea8bd272dcbf5f431645221d797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:06 +0000
Subject: [PATCH 02/23] fix: keep the previously captured content when a
 capturing group fails

A failed attempt to match a group cleared its capture, so '(a)*' on "aa"
ended up with an empty group 1 after the last (failing) iteration.
---
 include/mregex/ast/nodes/capture.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/mregex/ast/nodes/capture.hpp b/include/mregex/ast/nodes/capture.hpp
index e1e55df..b967680 100644
--- a/include/mregex/ast/nodes/capture.hpp
+++ b/include/mregex/ast/nodes/capture.hpp
@@ -9,7 +9,7 @@
 namespace meta::ast
 {
     /**
-     * @note Since matching captures implies side effects like storing and clearing matched
+     * @note Since matching captures implies side effects like storing and restoring matched
      * content, they cannot be considered trivially matchable even when the inner node is.
      */
     template<std::size_t ID, typename Name, typename Inner>
@@ -20,13 +20,15 @@ namespace meta::ast
         -> match_result<Iter>
         {
             auto continuation = [=, &ctx, &cont](Iter next) noexcept -> match_result<Iter> {
+                auto const previous = std::get<ID>(ctx.captures);
                 capture_matched_range(current, next, ctx);
-                return cont(next);
+                if (auto rest_match = cont(next))
+                    return rest_match;
+                // Backtracking must also restore the previously captured content
+                std::get<ID>(ctx.captures) = previous;
+                return non_match(next);
             };
-            if (auto inner_match = Inner::match(begin, end, current, ctx, continuation))
-                return inner_match;
-            std::get<ID>(ctx.captures).clear();
-            return non_match(current);
+            return Inner::match(begin, end, current, ctx, continuation);
         }
 
     private:
-- 
2.43.0


From 6fb715fb79db279a0684b341a2b1208d54e1682b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:14 +0000
Subject: [PATCH 03/23] fix: discard captures set inside atomic groups,
 possessive quantifiers and lookarounds on backtracking

Nodes matched with the success continuation kept their captures even if the
rest of the regex failed ('(?>(a))b|ac' on "ac" reported group 1 = "a"),
and a failing negative lookaround leaked the captures of its body.
---
 include/mregex/ast/nodes/assertion.hpp        |  4 +-
 .../nodes/quantifiers/fixed_repetition.hpp    |  7 ++-
 .../ast/nodes/quantifiers/repetition.hpp      |  4 +-
 .../ast/predicates/lookaround_predicate.hpp   |  4 ++
 include/mregex/ast/predicates/negate.hpp      |  9 ++-
 include/mregex/ast/traits.hpp                 | 13 +++++
 include/mregex/utility/capture_rollback.hpp   | 57 +++++++++++++++++++
 7 files changed, 93 insertions(+), 5 deletions(-)
 create mode 100644 include/mregex/utility/capture_rollback.hpp

diff --git a/include/mregex/ast/nodes/assertion.hpp b/include/mregex/ast/nodes/assertion.hpp
index 5d634d3..0c3a0e6 100644
--- a/include/mregex/ast/nodes/assertion.hpp
+++ b/include/mregex/ast/nodes/assertion.hpp
@@ -3,6 +3,7 @@
 
 #include <mregex/ast/match_result.hpp>
 #include <mregex/ast/traits.hpp>
+#include <mregex/utility/capture_rollback.hpp>
 #include <mregex/utility/continuations.hpp>
 
 namespace meta::ast
@@ -23,8 +24,9 @@ namespace meta::ast
         static constexpr auto match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            capture_rollback<stored_capture_count<Predicate>, Context> rollback{ctx};
             if (Predicate::is_match(begin, end, current, ctx))
-                return cont(current);
+                return rollback.unless_matched(cont(current));
             return non_match(current);
         }
     };
diff --git a/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp b/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp
index e45f774..1c8ddac 100644
--- a/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp
+++ b/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp
@@ -4,6 +4,7 @@
 #include <mregex/ast/nodes/terminals/empty.hpp>
 #include <mregex/ast/match_result.hpp>
 #include <mregex/ast/traits.hpp>
+#include <mregex/utility/capture_rollback.hpp>
 #include <mregex/utility/continuations.hpp>
 #include <mregex/utility/distance.hpp>
 
@@ -29,8 +30,9 @@ namespace meta::ast
         static constexpr auto possessive_match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            capture_rollback<capture_count<Inner>, Context> rollback{ctx};
             if (auto result = backtracking_match(begin, end, current, ctx, continuations<Iter>::success))
-                return cont(result.end);
+                return rollback.unless_matched(cont(result.end));
             return non_match(current);
         }
 
@@ -142,8 +144,9 @@ namespace meta::ast
         static constexpr auto match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            capture_rollback<capture_count<Inner>, Context> rollback{ctx};
             if (auto inner_match = Inner::match(begin, end, current, ctx, continuations<Iter>::success))
-                return cont(inner_match.end);
+                return rollback.unless_matched(cont(inner_match.end));
             return non_match(current);
         }
     };
diff --git a/include/mregex/ast/nodes/quantifiers/repetition.hpp b/include/mregex/ast/nodes/quantifiers/repetition.hpp
index ff5a6c8..2821c00 100644
--- a/include/mregex/ast/nodes/quantifiers/repetition.hpp
+++ b/include/mregex/ast/nodes/quantifiers/repetition.hpp
@@ -4,6 +4,7 @@
 #include <mregex/ast/astfwd.hpp>
 #include <mregex/ast/match_result.hpp>
 #include <mregex/ast/traits.hpp>
+#include <mregex/utility/capture_rollback.hpp>
 #include <mregex/utility/continuations.hpp>
 
 namespace meta::ast
@@ -51,6 +52,7 @@ namespace meta::ast
         static constexpr auto bounded_possessive_match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            capture_rollback<capture_count<Inner>, Context> rollback{ctx};
             for (std::size_t match_count = 0; !symbol::equals<Bound>(match_count); ++match_count)
             {
                 auto inner_match = Inner::match(begin, end, current, ctx, continuations<Iter>::success);
@@ -58,7 +60,7 @@ namespace meta::ast
                     break;
                 current = inner_match.end;
             }
-            return cont(current);
+            return rollback.unless_matched(cont(current));
         }
 
         template<symbol::quantifier Bound, std::forward_iterator Iter, typename Context, match_continuation<Iter> Cont>
diff --git a/include/mregex/ast/predicates/lookaround_predicate.hpp b/include/mregex/ast/predicates/lookaround_predicate.hpp
index 637a452..0a7145a 100644
--- a/include/mregex/ast/predicates/lookaround_predicate.hpp
+++ b/include/mregex/ast/predicates/lookaround_predicate.hpp
@@ -10,6 +10,8 @@ namespace meta::ast::predicates
     template<typename Inner>
     struct lookahead_predicate
     {
+        static constexpr std::size_t stored_capture_count = capture_count<Inner>;
+
         template<std::forward_iterator Iter, typename Context>
         static constexpr bool is_match(Iter begin, Iter end, Iter current, Context &ctx) noexcept
         {
@@ -28,6 +30,8 @@ namespace meta::ast::predicates
     template<typename Inner>
     struct lookbehind_predicate
     {
+        static constexpr std::size_t stored_capture_count = capture_count<Inner>;
+
         template<std::bidirectional_iterator Iter, typename Context>
         static constexpr bool is_match(Iter begin, Iter end, Iter current, Context &ctx) noexcept
         {
diff --git a/include/mregex/ast/predicates/negate.hpp b/include/mregex/ast/predicates/negate.hpp
index b736e06..b953786 100644
--- a/include/mregex/ast/predicates/negate.hpp
+++ b/include/mregex/ast/predicates/negate.hpp
@@ -2,6 +2,8 @@
 #define MREGEX_PREDICATES_NEGATE_HPP
 
 #include <iterator>
+#include <mregex/ast/traits.hpp>
+#include <mregex/utility/capture_rollback.hpp>
 
 namespace meta::ast::predicates
 {
@@ -11,7 +13,12 @@ namespace meta::ast::predicates
         template<std::forward_iterator Iter, typename Context>
         static constexpr bool is_match(Iter begin, Iter end, Iter current, Context &ctx) noexcept
         {
-            return !Predicate::is_match(begin, end, current, ctx);
+            // The content captured inside a negated predicate is never visible outside of it
+            capture_rollback<stored_capture_count<Predicate>, Context> rollback{ctx};
+            if (!Predicate::is_match(begin, end, current, ctx))
+                return true;
+            rollback.restore();
+            return false;
         }
     };
 }
diff --git a/include/mregex/ast/traits.hpp b/include/mregex/ast/traits.hpp
index cbb7a64..175c999 100644
--- a/include/mregex/ast/traits.hpp
+++ b/include/mregex/ast/traits.hpp
@@ -51,6 +51,19 @@ namespace meta::ast
     template<std::size_t ID, typename Name, typename Inner>
     inline constexpr std::size_t capture_count<capture<ID, Name, Inner>> = capture_count<Inner> + 1;
 
+    /**
+     * Metafunction used to count the number of capturing groups which may be set
+     * while testing a predicate.
+     *
+     * @tparam Predicate    The predicate used by an assertion
+     */
+    template<typename Predicate>
+    inline constexpr std::size_t stored_capture_count = 0;
+
+    template<typename Predicate>
+    requires requires { Predicate::stored_capture_count; }
+    inline constexpr std::size_t stored_capture_count<Predicate> = Predicate::stored_capture_count;
+
     /**
      * Metafunction that builds a specification for the names of all capturing groups in the AST.
      * The specification lists all capture names according to Preorder AST traversal.
diff --git a/include/mregex/utility/capture_rollback.hpp b/include/mregex/utility/capture_rollback.hpp
new file mode 100644
index 0000000..286311a
--- /dev/null
+++ b/include/mregex/utility/capture_rollback.hpp
@@ -0,0 +1,57 @@
+#ifndef MREGEX_UTILITY_CAPTURE_ROLLBACK_HPP
+#define MREGEX_UTILITY_CAPTURE_ROLLBACK_HPP
+
+#include <cstddef>
+#include <type_traits>
+#include <utility>
+
+namespace meta
+{
+    /**
+     * Saves the captures stored inside the match context so that they can be restored later.
+     * This is required by AST nodes which match their inner node without backtracking into it,
+     * since captures stored by the inner node must be discarded if the rest of the regex does not match.
+     *
+     * @tparam CaptureCount The number of capturing groups found inside the inner node
+     * @tparam Context      The type of the match context
+     */
+    template<std::size_t CaptureCount, typename Context>
+    struct capture_rollback
+    {
+        constexpr explicit capture_rollback(Context &ctx) noexcept
+            : _ctx{ctx}, _saved_captures{ctx.captures}
+        {}
+
+        constexpr void restore() noexcept
+        {
+            _ctx.captures = _saved_captures;
+        }
+
+        template<typename Result>
+        constexpr auto unless_matched(Result result) noexcept -> Result
+        {
+            if (!result)
+                restore();
+            return result;
+        }
+
+    private:
+        Context &_ctx;
+        std::remove_cvref_t<decltype(std::declval<Context &>().captures)> _saved_captures;
+    };
+
+    template<typename Context>
+    struct capture_rollback<0, Context>
+    {
+        constexpr explicit capture_rollback(Context &) noexcept {}
+
+        constexpr void restore() noexcept {}
+
+        template<typename Result>
+        constexpr auto unless_matched(Result result) noexcept -> Result
+        {
+            return result;
+        }
+    };
+}
+#endif //MREGEX_UTILITY_CAPTURE_ROLLBACK_HPP
-- 
2.43.0


From f89d670415223038896e532cc5f8e09529b3438a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:40 +0000
Subject: [PATCH 04/23] fix: mirror line and input anchors inside lookbehinds

Anchors were matched against the reversed range, so '(?<=^a)b' never
matched while '(?<=a$)b' could.
---
 include/mregex/ast/inversion.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/mregex/ast/inversion.hpp b/include/mregex/ast/inversion.hpp
index 6e0c7e6..13eabb6 100644
--- a/include/mregex/ast/inversion.hpp
+++ b/include/mregex/ast/inversion.hpp
@@ -31,6 +31,31 @@ namespace meta::ast
         using type = decltype(detail::to_sequence(reverse_t<type_sequence<invert_t<Nodes> ...>>{}));
     };
 
+    // Anchors refer to absolute positions so they have to be swapped when the input is traversed backwards
+    template<>
+    struct invert<beginning_of_line>
+    {
+        using type = end_of_line;
+    };
+
+    template<>
+    struct invert<end_of_line>
+    {
+        using type = beginning_of_line;
+    };
+
+    template<>
+    struct invert<beginning_of_input>
+    {
+        using type = end_of_input;
+    };
+
+    template<>
+    struct invert<end_of_input>
+    {
+        using type = beginning_of_input;
+    };
+
     template<typename Inner>
     struct invert<positive_lookahead<Inner>>
     {
-- 
2.43.0


From 5bca3a1c34b41579d22801e1663cafa4b4299d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:07 +0000
Subject: [PATCH 05/23] fix: match lookarounds nested inside lookbehinds in the
 right direction

The body of a nested lookahead was mirrored and the body of a nested
lookbehind was not, so '(?<=(?=ab)..)c' did not match "abc" and
'(?<=(?<=ab)c)d' did not match "abcd"; a capturing group inside such a
lookahead did not even compile.
---
 include/mregex/ast/inversion.hpp                      |  5 +++--
 .../mregex/ast/predicates/lookaround_predicate.hpp    | 11 +++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/mregex/ast/inversion.hpp b/include/mregex/ast/inversion.hpp
index 13eabb6..35cc65c 100644
--- a/include/mregex/ast/inversion.hpp
+++ b/include/mregex/ast/inversion.hpp
@@ -56,6 +56,7 @@ namespace meta::ast
         using type = beginning_of_input;
     };
 
+    // The inner node of a lookahead is still matched forwards, using the original iterators
     template<typename Inner>
     struct invert<positive_lookahead<Inner>>
     {
@@ -71,13 +72,13 @@ namespace meta::ast
     template<typename Inner>
     struct invert<positive_lookbehind<Inner>>
     {
-        using type = positive_lookahead<Inner>;
+        using type = positive_lookahead<invert_t<Inner>>;
     };
 
     template<typename Inner>
     struct invert<negative_lookbehind<Inner>>
     {
-        using type = negative_lookahead<Inner>;
+        using type = negative_lookahead<invert_t<Inner>>;
     };
 }
 #endif //MREGEX_AST_INVERSION_HPP
\ No newline at end of file
diff --git a/include/mregex/ast/predicates/lookaround_predicate.hpp b/include/mregex/ast/predicates/lookaround_predicate.hpp
index 0a7145a..e8f7fda 100644
--- a/include/mregex/ast/predicates/lookaround_predicate.hpp
+++ b/include/mregex/ast/predicates/lookaround_predicate.hpp
@@ -53,6 +53,17 @@ namespace meta::ast::predicates
             // For trivially matchable nodes, a single step backwards is enough
             return current != begin && Inner::match_one(*std::prev(current), ctx);
         }
+
+        template<std::bidirectional_iterator Iter, typename Context>
+        static constexpr bool is_match(Iter begin, Iter end, Iter current, Context &ctx) noexcept
+        requires (!is_trivially_matchable<Inner> && !std::is_same_v<Iter, typename Context::iterator>)
+        {
+            // The input is already traversed backwards, so looking behind means matching forwards on the original range
+            using iterator = typename Context::iterator;
+
+            auto result = Inner::match(end.base(), begin.base(), current.base(), ctx, continuations<iterator>::success);
+            return result.matched;
+        }
     };
 
     template<lookaround_direction Direction, typename Inner>
-- 
2.43.0


From c41b897947c5f13fdfa58bde6b8bac0b8259b708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:27 +0000
Subject: [PATCH 06/23] fix: leave group 0 empty when match or match_prefix
 fails

A failed match reported the last visited (or partially matched) range as
group 0, e.g. regex<"a">::match("ab") had matched() == false but content "a".
---
 include/mregex/regex_methods.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/mregex/regex_methods.hpp b/include/mregex/regex_methods.hpp
index 7d80024..d54a38d 100644
--- a/include/mregex/regex_methods.hpp
+++ b/include/mregex/regex_methods.hpp
@@ -20,7 +20,8 @@ namespace meta
         static constexpr auto invoke(Iter begin, Iter end, Iter current, Context &ctx) noexcept -> ast::match_result<Iter>
         {
             auto result = ast_type::match(begin, end, current, ctx, continuations<Iter>::equals(end));
-            std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
+            if (result)
+                std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
             return result;
         }
     };
@@ -38,7 +39,8 @@ namespace meta
         static constexpr auto invoke(Iter begin, Iter end, Iter current, Context &ctx) noexcept -> ast::match_result<Iter>
         {
             auto result = ast_type::match(begin, end, current, ctx, continuations<Iter>::success);
-            std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
+            if (result)
+                std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
             return result;
         }
     };
-- 
2.43.0


From ebb105b76985f0e362b9f883b3bf97f39c726927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:36 +0000
Subject: [PATCH 07/23] fix: keep alternation precedence after a literal '{'

After recovering from '{' that does not start a quantifier, the parser
pushed extra sequence and alternation symbols, so 'ab{|c' was parsed as
'ab(?:{|c)'.
---
 include/mregex/grammar/quantifiers.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/mregex/grammar/quantifiers.hpp b/include/mregex/grammar/quantifiers.hpp
index 254146e..07076ba 100644
--- a/include/mregex/grammar/quantifiers.hpp
+++ b/include/mregex/grammar/quantifiers.hpp
@@ -22,9 +22,7 @@ namespace meta::grammar
                 <
                     symbol::push_literal<C>,
                     symbol::mod,
-                    symbol::make_sequence,
-                    symbol::seq,
-                    symbol::alt
+                    symbol::make_sequence
                 >;
     };
 
-- 
2.43.0


From 62846a621000c47463e68f738dc9d013ece79882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:45 +0000
Subject: [PATCH 08/23] fix: make the post-increment operator of the result
 range iterator usable

It tried to construct an iterator from a pointer and failed to compile.
---
 include/mregex/utility/input_range_adapter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mregex/utility/input_range_adapter.hpp b/include/mregex/utility/input_range_adapter.hpp
index e85fbba..135b692 100644
--- a/include/mregex/utility/input_range_adapter.hpp
+++ b/include/mregex/utility/input_range_adapter.hpp
@@ -65,7 +65,7 @@ namespace meta
 
             constexpr iterator operator++(int) noexcept(is_nothrow_invocable)
             {
-                iterator old_iter{_target};
+                iterator old_iter{*this};
                 this->operator++();
                 return old_iter;
             }
-- 
2.43.0


From f0136813fa02066ccfd91af21740132a1088a080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:54 +0000
Subject: [PATCH 09/23] fix: make captures convert to true when they are not
 empty

The boolean conversion of regex_capture and regex_capture_view was inverted.
---
 include/mregex/regex_capture.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mregex/regex_capture.hpp b/include/mregex/regex_capture.hpp
index d5ed574..1e96e40 100644
--- a/include/mregex/regex_capture.hpp
+++ b/include/mregex/regex_capture.hpp
@@ -101,7 +101,7 @@ namespace meta
 
         constexpr explicit operator bool() const noexcept
         {
-            return is_empty();
+            return !is_empty();
         }
 
         constexpr explicit(false) operator std::string_view() const noexcept
@@ -192,7 +192,7 @@ namespace meta
 
         explicit operator bool() const noexcept
         {
-            return is_empty();
+            return !is_empty();
         }
 
         explicit(false) operator std::string_view() const noexcept
-- 
2.43.0


From 7f2f646adb5a5c8b8055240fde247989b18a926c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:27 +0000
Subject: [PATCH 10/23] fix: allow backreferences on forward ranges

Only lookbehinds need bidirectional iterators, but any backreference
required a bidirectional range.
---
 include/mregex/ast/nodes/terminals/backref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mregex/ast/nodes/terminals/backref.hpp b/include/mregex/ast/nodes/terminals/backref.hpp
index badc6f1..685a929 100644
--- a/include/mregex/ast/nodes/terminals/backref.hpp
+++ b/include/mregex/ast/nodes/terminals/backref.hpp
@@ -59,7 +59,7 @@ namespace meta::ast
         }
 
     private:
-        template<bool Condition, std::ranges::bidirectional_range Range>
+        template<bool Condition, std::ranges::forward_range Range>
         static constexpr auto reverse_if(Range &range) noexcept
         {
             if constexpr (Condition)
-- 
2.43.0


From f22d38754a23d02a74f8f312e137a172fa714707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:39 +0000
Subject: [PATCH 11/23] fix: do not decrement forward iterators when matching
 multiline anchors

'^' with the multiline flag called std::prev on forward-only iterators,
which is undefined behavior (e.g. for std::forward_list).
---
 .../mregex/ast/predicates/anchor_predicates.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/mregex/ast/predicates/anchor_predicates.hpp b/include/mregex/ast/predicates/anchor_predicates.hpp
index 7b58fa1..281a143 100644
--- a/include/mregex/ast/predicates/anchor_predicates.hpp
+++ b/include/mregex/ast/predicates/anchor_predicates.hpp
@@ -16,11 +16,26 @@ namespace meta::ast::predicates
                 return true;
             if constexpr (Mode == line_mode::multiline && Context::flags::multiline)
             {
-                if (linebreak::match_one(*std::prev(current), ctx))
+                if (linebreak::match_one(*predecessor(begin, current), ctx))
                     return true;
             }
             return false;
         }
+
+    private:
+        template<std::forward_iterator Iter>
+        static constexpr auto predecessor(Iter begin, Iter current) noexcept -> Iter
+        {
+            if constexpr (std::bidirectional_iterator<Iter>)
+                return std::prev(current);
+            else
+            {
+                // Forward iterators cannot be decremented
+                while (std::next(begin) != current)
+                    ++begin;
+                return begin;
+            }
+        }
     };
 
     template<line_mode Mode>
-- 
2.43.0


From 36ef5341e137e22bbf278cd663f22ed4fb0a5be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:49 +0000
Subject: [PATCH 12/23] fix: report a syntax error for patterns that end right
 after opening a group

'(?=' and the like ended in a hard error inside the parser instead of a
syntax error verdict.
---
 include/mregex/grammar/grammar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mregex/grammar/grammar.hpp b/include/mregex/grammar/grammar.hpp
index fe73b06..b98a377 100644
--- a/include/mregex/grammar/grammar.hpp
+++ b/include/mregex/grammar/grammar.hpp
@@ -308,7 +308,7 @@ namespace meta::grammar
     template<>
     struct rule<symbol::group_begin_or_mod, symbol::empty>
     {
-        using type = ignore;
+        using type = reject;
     };
 
     template<>
@@ -574,7 +574,7 @@ namespace meta::grammar
     template<>
     struct rule<symbol::group_begin, symbol::empty>
     {
-        using type = ignore;
+        using type = reject;
     };
 
     template<>
-- 
2.43.0


From 7513e46918be9b16a7b846e76c9e83a14d808875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:17 +0000
Subject: [PATCH 13/23] fix: do not use a character class as the lower bound of
 a range in a set

'[\R-z]' was parsed as the range from line feed to 'z', unlike every other
character class in this position.
---
 include/mregex/ast/build.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/mregex/ast/build.hpp b/include/mregex/ast/build.hpp
index 7e0fc85..50fd387 100644
--- a/include/mregex/ast/build.hpp
+++ b/include/mregex/ast/build.hpp
@@ -217,6 +217,13 @@ namespace meta::ast
         using type = type_sequence<set<First ..., Second ...>, Rest ...>;
     };
 
+    // Keep the character class as a single element so that its literals are never used as range bounds
+    template<typename Token, typename... Second, typename... Rest>
+    struct build<symbol::make_set_from_stack, Token, type_sequence<linebreak, set<Second ...>, Rest ...>>
+    {
+        using type = type_sequence<set<linebreak, Second ...>, Rest ...>;
+    };
+
     // Create a range inside the set
     template<char A, char B, typename... Second, typename... Rest>
     struct build<symbol::make_range, symbol::character<A>, type_sequence<set<literal<B>, Second ...>, Rest ...>>
-- 
2.43.0


From e89ec8e1842ff64912330a066323ba7b6c04e191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:15 +0000
Subject: [PATCH 14/23] fix: reading an empty capture over list iterators
 dereferenced a null pointer

---
 include/mregex/regex_capture.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/mregex/regex_capture.hpp b/include/mregex/regex_capture.hpp
index 1e96e40..b98b021 100644
--- a/include/mregex/regex_capture.hpp
+++ b/include/mregex/regex_capture.hpp
@@ -66,7 +66,8 @@ namespace meta
 
         constexpr auto length() const noexcept -> std::size_t
         {
-            return std::distance(_begin, _end);
+            // Measuring value-initialized iterators is not safe for all standard containers
+            return is_empty() ? 0 : std::distance(_begin, _end);
         }
 
         constexpr auto begin() const noexcept
@@ -84,7 +85,7 @@ namespace meta
             if constexpr (is_contiguous_view)
                 return std::string_view{_begin, _end};
             else
-                return std::string{_begin, _end};
+                return is_empty() ? std::string{} : std::string{_begin, _end};
         }
 
         constexpr auto &operator[](std::size_t index) noexcept
@@ -127,8 +128,10 @@ namespace meta
 
         template<std::forward_iterator Iter>
         explicit regex_capture(regex_capture_view<Iter, Name> const &capture_view)
-            : _capture{capture_view.begin(), capture_view.end()}
-        {}
+        {
+            if (!capture_view.is_empty())
+                _capture.assign(capture_view.begin(), capture_view.end());
+        }
 
         bool is_empty() const noexcept
         {
-- 
2.43.0


From fde1fddceedc24cf9e0a7e3611f7f7c54c66ab4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:02 +0000
Subject: [PATCH 15/23] fix: step back over C++20 iterators whose legacy
 category is weaker

std::prev relies on the legacy iterator category. Iterators such as those of
std::views::transform are bidirectional in C++20 terms but legacy input
iterators, so std::prev walked forward past the end of the input instead.
---
 include/mregex/ast/predicates/anchor_predicates.hpp    | 4 ++--
 include/mregex/ast/predicates/lookaround_predicate.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mregex/ast/predicates/anchor_predicates.hpp b/include/mregex/ast/predicates/anchor_predicates.hpp
index 281a143..dde07bf 100644
--- a/include/mregex/ast/predicates/anchor_predicates.hpp
+++ b/include/mregex/ast/predicates/anchor_predicates.hpp
@@ -27,7 +27,7 @@ namespace meta::ast::predicates
         static constexpr auto predecessor(Iter begin, Iter current) noexcept -> Iter
         {
             if constexpr (std::bidirectional_iterator<Iter>)
-                return std::prev(current);
+                return std::ranges::prev(current);
             else
             {
                 // Forward iterators cannot be decremented
@@ -60,7 +60,7 @@ namespace meta::ast::predicates
         template<std::bidirectional_iterator Iter, typename Context>
         static constexpr bool is_match(Iter begin, Iter end, Iter current, Context &ctx) noexcept
         {
-            bool is_word_behind = current != begin && word::match_one(*std::prev(current), ctx);
+            bool is_word_behind = current != begin && word::match_one(*std::ranges::prev(current), ctx);
             bool is_word_ahead = current != end && word::match_one(*current, ctx);
             return is_word_behind ^ is_word_ahead;
         }
diff --git a/include/mregex/ast/predicates/lookaround_predicate.hpp b/include/mregex/ast/predicates/lookaround_predicate.hpp
index e8f7fda..ffd7b25 100644
--- a/include/mregex/ast/predicates/lookaround_predicate.hpp
+++ b/include/mregex/ast/predicates/lookaround_predicate.hpp
@@ -51,7 +51,7 @@ namespace meta::ast::predicates
         requires is_trivially_matchable<Inner>
         {
             // For trivially matchable nodes, a single step backwards is enough
-            return current != begin && Inner::match_one(*std::prev(current), ctx);
+            return current != begin && Inner::match_one(*std::ranges::prev(current), ctx);
         }
 
         template<std::bidirectional_iterator Iter, typename Context>
-- 
2.43.0


From 1a034236d1bb8ed5e251cdc9beaf6f986d35c07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:23 +0000
Subject: [PATCH 16/23] fix: reading the content of a const expiring owned
 capture did not compile

---
 include/mregex/regex_capture.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mregex/regex_capture.hpp b/include/mregex/regex_capture.hpp
index b98b021..e066bda 100644
--- a/include/mregex/regex_capture.hpp
+++ b/include/mregex/regex_capture.hpp
@@ -180,7 +180,7 @@ namespace meta
 
         auto const &&content() const && noexcept
         {
-            return _capture;
+            return std::move(_capture);
         }
 
         auto &operator[](std::size_t index) noexcept
-- 
2.43.0


From 55b04a322c96d7d7b417c81d844725396bb9f0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:23 +0000
Subject: [PATCH 17/23] fix: xpr::str of an empty string did not compile

---
 include/mregex/xpr/adapters.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/mregex/xpr/adapters.hpp b/include/mregex/xpr/adapters.hpp
index 30e3108..184f669 100644
--- a/include/mregex/xpr/adapters.hpp
+++ b/include/mregex/xpr/adapters.hpp
@@ -11,7 +11,10 @@ namespace meta::xpr
         template<static_string String, std::size_t... Indices>
         constexpr auto to_sequence(std::index_sequence<Indices ...>) noexcept
         {
-            return ast::sequence<ast::literal<String[Indices]> ...>{};
+            if constexpr (sizeof...(Indices) == 0)
+                return ast::empty{};
+            else
+                return ast::sequence<ast::literal<String[Indices]> ...>{};
         }
 
         template<typename Wrapper>
-- 
2.43.0


From 9bd6283e6720c0bfec59e9ab57c8135223dce5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:46 +0000
Subject: [PATCH 18/23] fix: indexing a capture over iterators that yield
 values returned a dangling reference

---
 include/mregex/regex_capture.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mregex/regex_capture.hpp b/include/mregex/regex_capture.hpp
index e066bda..eff495e 100644
--- a/include/mregex/regex_capture.hpp
+++ b/include/mregex/regex_capture.hpp
@@ -88,13 +88,13 @@ namespace meta
                 return is_empty() ? std::string{} : std::string{_begin, _end};
         }
 
-        constexpr auto &operator[](std::size_t index) noexcept
+        constexpr decltype(auto) operator[](std::size_t index) noexcept
         requires std::random_access_iterator<Iter>
         {
             return _begin[index];
         }
 
-        constexpr auto const &operator[](std::size_t index) const noexcept
+        constexpr decltype(auto) operator[](std::size_t index) const noexcept
         requires std::random_access_iterator<Iter>
         {
             return _begin[index];
-- 
2.43.0


From f6d90c8e07a0ea6bb9c8be78ce299606af2d97c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:46 +0000
Subject: [PATCH 19/23] fix: transform_groups unwrapped the tuple or pair
 returned for a single group

---
 include/mregex/utility/tuple.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/mregex/utility/tuple.hpp b/include/mregex/utility/tuple.hpp
index 4d2f241..8663bfc 100644
--- a/include/mregex/utility/tuple.hpp
+++ b/include/mregex/utility/tuple.hpp
@@ -11,7 +11,9 @@ namespace meta
         template<typename Tuple, typename Func, std::size_t... Indices>
         constexpr auto transform_tuple(Tuple const &tuple, Func &&func, std::index_sequence<Indices ...>)
         {
-            return std::tuple{std::invoke(func, std::get<Indices>(tuple)) ...};
+            // The tuple type cannot be deduced because a single element that is itself a tuple would be unwrapped
+            using result_type = std::tuple<std::decay_t<std::invoke_result_t<Func &, decltype(std::get<Indices>(tuple))>> ...>;
+            return result_type{std::invoke(func, std::get<Indices>(tuple)) ...};
         }
 
         template<typename Tuple, typename Func, std::size_t... Indices>
-- 
2.43.0


From 2169c90b81199b409d62eb25d3cc27c3c543bacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:46 +0000
Subject: [PATCH 20/23] fix: running out of memory while copying captures
 terminated instead of throwing

---
 include/mregex/match_result.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mregex/match_result.hpp b/include/mregex/match_result.hpp
index f2e0b2a..6a40921 100644
--- a/include/mregex/match_result.hpp
+++ b/include/mregex/match_result.hpp
@@ -83,7 +83,7 @@ namespace meta
         [[nodiscard]] auto as_memory_owner() const
         requires is_view
         {
-            auto owned_captures = transform_groups([](auto const &capture) noexcept {
+            auto owned_captures = transform_groups([](auto const &capture) {
                 return regex_capture{capture};
             });
 
@@ -275,7 +275,7 @@ namespace meta
     private:
         template<typename Self>
         static constexpr auto forward_self_as_optional(Self &&self)
-        noexcept(is_view || std::is_rvalue_reference_v<Self &&>)
+        noexcept(std::is_nothrow_constructible_v<std::remove_cvref_t<Self>, Self &&>)
         -> std::optional<std::remove_cvref_t<Self>>
         {
             if (!self.matched())
-- 
2.43.0


From dfeb834ed98cfd20718f415d08d74884e6fac1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:14 +0000
Subject: [PATCH 21/23] fix: stream output of results and captures was not
 found by argument-dependent lookup

---
 include/mregex/match_result.hpp          | 10 +++++-----
 include/mregex/regex_capture.hpp         | 12 ++++++------
 include/mregex/utility/static_string.hpp | 10 +++++-----
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/mregex/match_result.hpp b/include/mregex/match_result.hpp
index 6a40921..89de72c 100644
--- a/include/mregex/match_result.hpp
+++ b/include/mregex/match_result.hpp
@@ -314,12 +314,12 @@ namespace meta
     inline constexpr auto get_group_named = []<typename Result>(Result &&res) noexcept -> decltype(auto) {
         return std::forward<Result>(res).template group<Name>();
     };
-}
 
-template<meta::capture_storage CaptureStorage>
-std::ostream &operator<<(std::ostream &os, meta::basic_match_result<CaptureStorage> const &result)
-{
-    return os << meta::get_group<0>(result);
+    template<capture_storage CaptureStorage>
+    std::ostream &operator<<(std::ostream &os, basic_match_result<CaptureStorage> const &result)
+    {
+        return os << get_group<0>(result);
+    }
 }
 
 template<meta::capture_storage CaptureStorage>
diff --git a/include/mregex/regex_capture.hpp b/include/mregex/regex_capture.hpp
index eff495e..f37efb2 100644
--- a/include/mregex/regex_capture.hpp
+++ b/include/mregex/regex_capture.hpp
@@ -242,12 +242,12 @@ namespace meta
 
     template<captured_content Capture, typename Name>
     using rename_capture_t = typename rename_capture<Capture, Name>::type;
-}
 
-template<meta::captured_content Capture>
-std::ostream &operator<<(std::ostream &os, Capture const &capture)
-{
-    std::copy(capture.begin(), capture.end(), std::ostream_iterator<char>{os});
-    return os;
+    template<captured_content Capture>
+    std::ostream &operator<<(std::ostream &os, Capture const &capture)
+    {
+        std::copy(capture.begin(), capture.end(), std::ostream_iterator<char>{os});
+        return os;
+    }
 }
 #endif //MREGEX_REGEX_CAPTURE_HPP
\ No newline at end of file
diff --git a/include/mregex/utility/static_string.hpp b/include/mregex/utility/static_string.hpp
index 32f773f..82c8134 100644
--- a/include/mregex/utility/static_string.hpp
+++ b/include/mregex/utility/static_string.hpp
@@ -79,11 +79,11 @@ namespace meta
     {
        return {{Chars ...}};
     }
-}
 
-template<std::size_t N>
-std::ostream &operator<<(std::ostream &os, meta::static_string<N> const &str)
-{
-    return os << static_cast<std::string_view>(str);
+    template<std::size_t N>
+    std::ostream &operator<<(std::ostream &os, static_string<N> const &str)
+    {
+        return os << static_cast<std::string_view>(str);
+    }
 }
 #endif //MREGEX_UTILITY_STATIC_STRING_HPP
\ No newline at end of file
-- 
2.43.0


From 2a19e9c01a51a8a48115533ad4096b8f3cae3219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:14 +0000
Subject: [PATCH 22/23] fix: quantifier bounds beyond the range of the counter
 wrapped around

---
 include/mregex/grammar/quantifiers.hpp |  4 ++--
 include/mregex/utility/char_traits.hpp | 14 ++++++++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/mregex/grammar/quantifiers.hpp b/include/mregex/grammar/quantifiers.hpp
index 07076ba..b8a8907 100644
--- a/include/mregex/grammar/quantifiers.hpp
+++ b/include/mregex/grammar/quantifiers.hpp
@@ -76,7 +76,7 @@ namespace meta::grammar
                 type_sequence
                 <
                     advance,
-                    symbol::quantifier_value<10 * N + C - '0'>
+                    symbol::quantifier_value<append_digit(N, C)>
                 >;
     };
 
@@ -88,7 +88,7 @@ namespace meta::grammar
                 type_sequence
                 <
                     advance,
-                    symbol::quantifier_range<A, symbol::quantifier_value<10 * N + C - '0'>>
+                    symbol::quantifier_range<A, symbol::quantifier_value<append_digit(N, C)>>
                 >;
     };
 
diff --git a/include/mregex/utility/char_traits.hpp b/include/mregex/utility/char_traits.hpp
index 68cb343..231c2bf 100644
--- a/include/mregex/utility/char_traits.hpp
+++ b/include/mregex/utility/char_traits.hpp
@@ -1,6 +1,10 @@
 #ifndef MREGEX_UTILITY_CHAR_TRAITS_HPP
 #define MREGEX_UTILITY_CHAR_TRAITS_HPP
 
+#include <cstddef>
+#include <cstdint>
+#include <limits>
+
 namespace meta
 {
     namespace detail
@@ -37,6 +41,16 @@ namespace meta
         return is_in_ascii_range<'0', '9'>(input);
     }
 
+    /**
+     * Appends a decimal digit to a number. Values that cannot be represented saturate instead of wrapping around.
+     */
+    constexpr std::size_t append_digit(std::size_t value, char digit) noexcept
+    {
+        constexpr std::size_t max_value = std::numeric_limits<std::ptrdiff_t>::max();
+        std::size_t const digit_value = digit - '0';
+        return value > (max_value - digit_value) / 10 ? max_value : 10 * value + digit_value;
+    }
+
     constexpr bool is_hexdigit(char input) noexcept
     {
         return is_digit(input) || is_in_ascii_range<'a', 'f'>(set_lowercase_bit(input));
-- 
2.43.0


From e2905612190771d53ab219c7aad0b2894f92e1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:14 +0000
Subject: [PATCH 23/23] fix: backreference numbers beyond the range of the
 counter wrapped around to existing groups

---
 include/mregex/grammar/backrefs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mregex/grammar/backrefs.hpp b/include/mregex/grammar/backrefs.hpp
index d27c534..0d4698e 100644
--- a/include/mregex/grammar/backrefs.hpp
+++ b/include/mregex/grammar/backrefs.hpp
@@ -57,7 +57,7 @@ namespace meta::grammar
                 type_sequence
                 <
                     advance,
-                    symbol::backref_id<10 * ID + C - '0'>
+                    symbol::backref_id<append_digit(ID, C)>
                 >;
     };
 
-- 
2.43.0

