From 92e1ed2de2656e3495575fc247985cefcae3d3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:25 +0000
Subject: [PATCH 01/35] fix: dsl list with terminator cancels an item branch
 that was already finished

When the separator is missing and the next item matches its condition but then
fails, the item was finished (and had reported its events) and afterwards
cancelled as well, which starts its production a second time behind the
current position.
---
 include/lexy/dsl/list.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/lexy/dsl/list.hpp b/include/lexy/dsl/list.hpp
index f2f6885..6bf387b 100644
--- a/include/lexy/dsl/list.hpp
+++ b/include/lexy/dsl/list.hpp
@@ -223,8 +223,14 @@ struct _lstt : rule_base
                         if constexpr (lexy::is_branch_rule<Item>)
                         {
                             lexy::branch_parser_for<Item, Reader> item{};
-                            if (item.try_parse(context.control_block, reader)
-                                && item.template finish<lexy::sink_parser>(context, reader, sink))
+                            if (!item.try_parse(context.control_block, reader))
+                            {
+                                // Not an item, recover.
+                                item.cancel(context);
+                                state = _state::recovery;
+                                break;
+                            }
+                            else if (item.template finish<lexy::sink_parser>(context, reader, sink))
                             {
                                 // Continue after an item has been parsed.
                                 state = _state::terminator;
@@ -232,8 +238,7 @@ struct _lstt : rule_base
                             }
                             else
                             {
-                                // Not an item, recover.
-                                item.cancel(context);
+                                // Invalid item, it has already been finished, so just recover.
                                 state = _state::recovery;
                                 break;
                             }
-- 
2.43.0


From 86de165119b72a3788175791ddb656f3809333c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:56 +0000
Subject: [PATCH 02/35] fix: UTF-16 decoding yields the wrong code point beyond
 U+1FFFF

---
 include/lexy/_detail/code_point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/_detail/code_point.hpp b/include/lexy/_detail/code_point.hpp
index 88e7aa0..e0c581c 100644
--- a/include/lexy/_detail/code_point.hpp
+++ b/include/lexy/_detail/code_point.hpp
@@ -296,7 +296,7 @@ constexpr cp_result<Reader> parse_code_point(Reader reader)
             auto result = char32_t(first & payload1);
             result <<= 10;
             result |= char32_t(second & payload2);
-            result |= 0x10000;
+            result += 0x10000;
             return {result, cp_error::success, reader.current()};
         }
         else if ((first & ~payload2) == pattern2)
-- 
2.43.0


From efb2c11eb9be59310a401d4ead209df41864318b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:45 +0000
Subject: [PATCH 03/35] fix: identifier reserve_suffix misses a suffix that
 starts inside another match

The scan continued behind a match that was not at the end (and skipped another
code unit), so 'z1z1' was not reserved by reserve_suffix(z1).
---
 include/lexy/dsl/identifier.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/lexy/dsl/identifier.hpp b/include/lexy/dsl/identifier.hpp
index 906e132..caaff75 100644
--- a/include/lexy/dsl/identifier.hpp
+++ b/include/lexy/dsl/identifier.hpp
@@ -125,10 +125,14 @@ struct _idsp // reserve suffix predicate
         auto reader = input.reader();
         while (true)
         {
+            auto begin = reader.current();
             if (lexy::try_match_token(Set{}, reader)
                 && reader.peek() == decltype(reader)::encoding::eof())
                 return true;
-            else if (reader.peek() == decltype(reader)::encoding::eof())
+
+            // A match that isn't a suffix must not hide one that starts inside of it.
+            reader.reset(begin);
+            if (reader.peek() == decltype(reader)::encoding::eof())
                 return false;
             else
                 reader.bump();
-- 
2.43.0


From 980c12121ebd51c009ce062703d8e5d19b70e340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:11 +0000
Subject: [PATCH 04/35] fix: SWAR literal matching miscounts the matching
 prefix for UTF-32

The index of the first difference was computed with the literal's char type
instead of the input's, so a failed match moved the reader past the end.
---
 include/lexy/dsl/literal.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/dsl/literal.hpp b/include/lexy/dsl/literal.hpp
index d57c189..11e6e6d 100644
--- a/include/lexy/dsl/literal.hpp
+++ b/include/lexy/dsl/literal.hpp
@@ -42,7 +42,8 @@ constexpr auto match_literal(Reader& reader)
         }
         else
         {
-            auto partial = swar_find_difference<CharT>(reader.peek_swar() & pack.mask, pack.value);
+            auto partial
+                = swar_find_difference<char_type>(reader.peek_swar() & pack.mask, pack.value);
             reader.bump_swar(partial);
             return false;
         }
-- 
2.43.0


From b833fc7f20537a2b39b3d0bfe3f9c01d97600b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:23 +0000
Subject: [PATCH 05/35] fix: no_whitespace leaves whitespace skipping disabled
 after a failure and re-enables it when nested

Whitespace skipping was only enabled again once the rule succeeded, so after a
recovery from a failed no_whitespace() (or delimited()) rule no whitespace was
skipped anymore. Leaving a nested no_whitespace() enabled it for the rest of the
outer one.
---
 include/lexy/action/base.hpp    | 16 ++++++++--------
 include/lexy/dsl/whitespace.hpp | 23 +++++++++++++++--------
 2 files changed, 23 insertions(+), 16 deletions(-)

diff --git a/include/lexy/action/base.hpp b/include/lexy/action/base.hpp
index 3e57a6f..7a1d38e 100644
--- a/include/lexy/action/base.hpp
+++ b/include/lexy/action/base.hpp
@@ -74,14 +74,14 @@ namespace _detail
 
         parse_context_var_base* vars;
 
-        int  cur_depth, max_depth;
-        bool enable_whitespace_skipping;
+        int cur_depth, max_depth;
+        int no_whitespace_depth; // automatic whitespace skipping is enabled if zero
 
         constexpr parse_context_control_block(Handler&& handler, State* state,
                                               std::size_t max_depth)
         : parse_handler(LEXY_MOV(handler)), parse_state(state), //
           vars(nullptr),                                        //
-          cur_depth(0), max_depth(static_cast<int>(max_depth)), enable_whitespace_skipping(true)
+          cur_depth(0), max_depth(static_cast<int>(max_depth)), no_whitespace_depth(0)
         {}
 
         template <typename OtherHandler>
@@ -89,16 +89,16 @@ namespace _detail
                                               parse_context_control_block<OtherHandler, State>* cb)
         : parse_handler(LEXY_MOV(handler)), parse_state(cb->parse_state), //
           vars(cb->vars), cur_depth(cb->cur_depth), max_depth(cb->max_depth),
-          enable_whitespace_skipping(cb->enable_whitespace_skipping)
+          no_whitespace_depth(cb->no_whitespace_depth)
         {}
 
         template <typename OtherHandler>
         constexpr void copy_vars_from(parse_context_control_block<OtherHandler, State>* cb)
         {
-            vars                       = cb->vars;
-            cur_depth                  = cb->cur_depth;
-            max_depth                  = cb->max_depth;
-            enable_whitespace_skipping = cb->enable_whitespace_skipping;
+            vars                = cb->vars;
+            cur_depth           = cb->cur_depth;
+            max_depth           = cb->max_depth;
+            no_whitespace_depth = cb->no_whitespace_depth;
         }
     };
 } // namespace _detail
diff --git a/include/lexy/dsl/whitespace.hpp b/include/lexy/dsl/whitespace.hpp
index 171df52..a98b55d 100644
--- a/include/lexy/dsl/whitespace.hpp
+++ b/include/lexy/dsl/whitespace.hpp
@@ -178,7 +178,7 @@ struct automatic_ws_parser
     LEXY_PARSER_FUNC static bool parse(Context& context, Reader& reader, Args&&... args)
     {
         if (!std::is_base_of_v<disable_whitespace_skipping, NextParser> //
-            && context.control_block->enable_whitespace_skipping)
+            && context.control_block->no_whitespace_depth == 0)
         {
             using whitespace = lexy::production_whitespace<typename Context::production,
                                                            typename Context::whitespace_production>;
@@ -243,8 +243,8 @@ struct _wsn : _copy_base<Rule>
         template <typename Context, typename Reader, typename... Args>
         LEXY_PARSER_FUNC static bool parse(Context& context, Reader& reader, Args&&... args)
         {
-            // Enable automatic whitespace skipping again.
-            context.control_block->enable_whitespace_skipping = true;
+            // Enable automatic whitespace skipping again, unless we're nested.
+            --context.control_block->no_whitespace_depth;
             // And skip whitespace once.
             return lexy::whitespace_parser<Context, NextParser>::parse(context, reader,
                                                                        LEXY_FWD(args)...);
@@ -274,8 +274,12 @@ struct _wsn : _copy_base<Rule>
         LEXY_PARSER_FUNC auto finish(Context& context, Reader& reader, Args&&... args)
         {
             // Finish the rule with whitespace skipping disabled.
-            context.control_block->enable_whitespace_skipping = false;
-            return rule.template finish<_pc<NextParser>>(context, reader, LEXY_FWD(args)...);
+            auto old_depth = context.control_block->no_whitespace_depth++;
+            auto result
+                = rule.template finish<_pc<NextParser>>(context, reader, LEXY_FWD(args)...);
+            // If the rule has failed, it didn't necessarily get to _pc.
+            context.control_block->no_whitespace_depth = old_depth;
+            return result;
         }
     };
 
@@ -296,9 +300,12 @@ struct _wsn : _copy_base<Rule>
             else
             {
                 // Parse the rule with whitespace skipping disabled.
-                context.control_block->enable_whitespace_skipping = false;
-                using parser = lexy::parser_for<Rule, _pc<NextParser>>;
-                return parser::parse(context, reader, LEXY_FWD(args)...);
+                auto old_depth = context.control_block->no_whitespace_depth++;
+                using parser   = lexy::parser_for<Rule, _pc<NextParser>>;
+                auto result    = parser::parse(context, reader, LEXY_FWD(args)...);
+                // If the rule has failed, it didn't necessarily get to _pc.
+                context.control_block->no_whitespace_depth = old_depth;
+                return result;
             }
         }
     };
-- 
2.43.0


From aa1aeef829f4f3897e8fba54c6501a98f60b1c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:23 +0000
Subject: [PATCH 06/35] fix: recursion depth is not restored when a recursive
 production fails

After a recovery, the depth stayed incremented, so that later productions were
refused with a maximum recursion depth error although they were not nested.
---
 include/lexy/dsl/production.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/lexy/dsl/production.hpp b/include/lexy/dsl/production.hpp
index 8e4b19f..f7b7c32 100644
--- a/include/lexy/dsl/production.hpp
+++ b/include/lexy/dsl/production.hpp
@@ -200,9 +200,14 @@ struct _recb : branch_base
         LEXY_PARSER_FUNC bool finish(Context& context, Reader& reader, Args&&... args)
         {
             using depth = _depth_handler<NextParser>;
+            auto old_depth = context.control_block->cur_depth;
             if (!depth::increment_depth(context, reader))
                 return false;
-            return _impl.template finish<depth>(context, reader, LEXY_FWD(args)...);
+
+            auto result = _impl.template finish<depth>(context, reader, LEXY_FWD(args)...);
+            // If the production has failed, it didn't decrement the depth.
+            context.control_block->cur_depth = old_depth;
+            return result;
         }
     };
 
@@ -213,11 +218,15 @@ struct _recb : branch_base
         LEXY_PARSER_FUNC static bool parse(Context& context, Reader& reader, Args&&... args)
         {
             using depth = _depth_handler<NextParser>;
+            auto old_depth = context.control_block->cur_depth;
             if (!depth::increment_depth(context, reader))
                 return false;
 
-            return lexy::parser_for<_prd<Production>, depth>::parse(context, reader,
-                                                                    LEXY_FWD(args)...);
+            using parser = lexy::parser_for<_prd<Production>, depth>;
+            auto result  = parser::parse(context, reader, LEXY_FWD(args)...);
+            // If the production has failed, it didn't decrement the depth.
+            context.control_block->cur_depth = old_depth;
+            return result;
         }
     };
 
-- 
2.43.0


From b4b72bfb80ad0118f602da98ed24da32cce92d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:27 +0000
Subject: [PATCH 07/35] fix: endless recovery of a list with terminator when an
 item fails without consuming anything

If the branch condition of an item (or separator) matches but the item then fails
before it consumes input, e.g. because of the recursion depth, recovery found the
same item again and never made progress.
---
 include/lexy/dsl/list.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/lexy/dsl/list.hpp b/include/lexy/dsl/list.hpp
index 6bf387b..1011448 100644
--- a/include/lexy/dsl/list.hpp
+++ b/include/lexy/dsl/list.hpp
@@ -189,6 +189,9 @@ struct _lstt : rule_base
         auto state = initial_state;
 
         [[maybe_unused]] auto sep_pos = reader.position();
+        // During recovery, don't try a separator/item again that has matched but failed without
+        // consuming anything; we would never get past it.
+        [[maybe_unused]] auto can_retry = true;
         while (true)
         {
             switch (state)
@@ -315,7 +318,7 @@ struct _lstt : rule_base
                         sep_pos = reader.position();
 
                         lexy::branch_parser_for<typename Sep::rule, Reader> sep{};
-                        if (sep.try_parse(context.control_block, reader))
+                        if (can_retry && sep.try_parse(context.control_block, reader))
                         {
                             auto recovery_end = reader.position();
                             context.on(_ev::token{}, lexy::error_token_kind, recovery_begin,
@@ -331,11 +334,12 @@ struct _lstt : rule_base
                             else
                             {
                                 // Need to recover from this.
-                                state = _state::recovery;
+                                can_retry = recovery_end != reader.position();
+                                state     = _state::recovery;
                                 break;
                             }
                         }
-                        else
+                        else if (can_retry)
                         {
                             sep.cancel(context);
                         }
@@ -349,7 +353,7 @@ struct _lstt : rule_base
                     else if constexpr (lexy::is_branch_rule<Item>)
                     {
                         lexy::branch_parser_for<Item, Reader> item{};
-                        if (item.try_parse(context.control_block, reader))
+                        if (can_retry && item.try_parse(context.control_block, reader))
                         {
                             auto recovery_end = reader.position();
                             context.on(_ev::token{}, lexy::error_token_kind, recovery_begin,
@@ -365,11 +369,12 @@ struct _lstt : rule_base
                             else
                             {
                                 // Need to recover from this.
-                                state = _state::recovery;
+                                can_retry = recovery_end != reader.position();
+                                state     = _state::recovery;
                                 break;
                             }
                         }
-                        else
+                        else if (can_retry)
                         {
                             item.cancel(context);
                         }
@@ -407,6 +412,7 @@ struct _lstt : rule_base
 
                     // Consume one code unit and try again.
                     reader.bump();
+                    can_retry = true;
                 }
                 break;
             }
-- 
2.43.0


From 6a3b246b47b448530f9611fda7405ab839378295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:36 +0000
Subject: [PATCH 08/35] fix: literal sets with Unicode case folding never match
 literals with multi-unit code points

---
 include/lexy/dsl/case_folding.hpp | 1 +
 include/lexy/dsl/literal.hpp      | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/lexy/dsl/case_folding.hpp b/include/lexy/dsl/case_folding.hpp
index c01f50b..c144366 100644
--- a/include/lexy/dsl/case_folding.hpp
+++ b/include/lexy/dsl/case_folding.hpp
@@ -261,6 +261,7 @@ struct _sucfrm // simple unicode case folding reader, UTF-8 and UTF-16
     constexpr void reset(marker m) noexcept
     {
         _impl.reset(m);
+        _fill();
     }
 };
 
diff --git a/include/lexy/dsl/literal.hpp b/include/lexy/dsl/literal.hpp
index 11e6e6d..3eb669e 100644
--- a/include/lexy/dsl/literal.hpp
+++ b/include/lexy/dsl/literal.hpp
@@ -256,7 +256,9 @@ struct lit_trie_matcher<Trie, CurNode>
             return false;
 
         reader.bump();
-        result = lit_trie_matcher<Trie, Trie.transition_to[TransIdx]>::try_match(reader);
+        // The reader already does the case folding, don't wrap it again.
+        result = lit_trie_matcher<Trie, Trie.transition_to[TransIdx]>::template _impl<>::try_match(
+            reader);
         return true;
     }
 
-- 
2.43.0


From 79890784bb918e84be91e02d1449b2b6d4eb1c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:15 +0000
Subject: [PATCH 09/35] fix: expected_literal index counts unfolded code units
 for case folded literals

---
 include/lexy/dsl/literal.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/lexy/dsl/literal.hpp b/include/lexy/dsl/literal.hpp
index 3eb669e..bd299b6 100644
--- a/include/lexy/dsl/literal.hpp
+++ b/include/lexy/dsl/literal.hpp
@@ -326,6 +326,20 @@ struct lit_trie_matcher<Trie, CurNode>
 } // namespace lexy::_detail
 
 //=== lit ===//
+namespace lexy::_detail
+{
+// The number of code units up to end, as seen by the reader.
+// A reader doing case folding can see more or less code units than there are in the input.
+template <typename Reader>
+constexpr std::size_t lit_match_length(Reader reader, typename Reader::iterator end)
+{
+    auto result = std::size_t(0);
+    for (; reader.position() != end; reader.bump())
+        ++result;
+    return result;
+}
+} // namespace lexy::_detail
+
 namespace lexyd
 {
 template <typename CharT, CharT... C>
@@ -373,7 +387,7 @@ struct _lit
             constexpr auto str = lexy::_detail::type_string<CharT, C...>::template c_str<char_type>;
 
             auto begin = reader.position();
-            auto index = lexy::_detail::range_size(begin, end.position());
+            auto index = lexy::_detail::lit_match_length(reader, end.position());
             auto err = lexy::error<Reader, lexy::expected_literal>(begin, str, index, sizeof...(C));
             context.on(_ev::error{}, err);
         }
@@ -470,7 +484,7 @@ struct _lcp : token_base<_lcp<Cp...>>, _lit_base
             using encoding = typename Reader::encoding;
 
             auto begin = reader.position();
-            auto index = lexy::_detail::range_size(begin, end.position());
+            auto index = lexy::_detail::lit_match_length(reader, end.position());
             auto err   = lexy::error<Reader, lexy::expected_literal>(begin, _string<encoding>.data,
                                                                      index, _string<encoding>.length);
             context.on(_ev::error{}, err);
-- 
2.43.0


From 605544a2a67b600d3b3f51525921df5eeeaba6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:09 +0000
Subject: [PATCH 10/35] fix: UTF-32 big endian BOM detection ignores the value
 of the last byte

---
 include/lexy/input/buffer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/input/buffer.hpp b/include/lexy/input/buffer.hpp
index 4380528..ee6d452 100644
--- a/include/lexy/input/buffer.hpp
+++ b/include/lexy/input/buffer.hpp
@@ -440,7 +440,8 @@ struct _make_buffer<utf32_encoding, encoding_endianness::bom>
         {
             if (memory[0] == 0xFF && memory[1] == 0xFE && memory[2] == 0x00 && memory[3] == 0x00)
                 return utf32_little(memory + 4, size - 4, resource);
-            else if (memory[0] == 0x00 && memory[1] == 0x00 && memory[2] == 0xFE && memory[3])
+            else if (memory[0] == 0x00 && memory[1] == 0x00 && memory[2] == 0xFE
+                     && memory[3] == 0xFF)
                 return utf32_big(memory + 4, size - 4, resource);
         }
 
-- 
2.43.0


From 85237c0cdae6fa613cf7136cdd7ca7cbe5b3e629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:09 +0000
Subject: [PATCH 11/35] fix: growing a buffer_builder of multi-byte code units
 loses part of the contents

---
 include/lexy/_detail/buffer_builder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/_detail/buffer_builder.hpp b/include/lexy/_detail/buffer_builder.hpp
index f0f5b17..9fc10a2 100644
--- a/include/lexy/_detail/buffer_builder.hpp
+++ b/include/lexy/_detail/buffer_builder.hpp
@@ -91,7 +91,7 @@ public:
         // Allocate new memory.
         auto memory = static_cast<T*>(::operator new(new_cap * sizeof(T)));
         // Copy the read area into the new memory.
-        std::memcpy(memory, _data, _read_size);
+        std::memcpy(memory, _data, _read_size * sizeof(T));
 
         // Release the old memory, if there was any.
         if (_data != _stack_buffer)
-- 
2.43.0


From b06c10def5198c5061277461cca4839779d29594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:20 +0000
Subject: [PATCH 12/35] fix: parsing an empty buffer without memory
 dereferences a null pointer

---
 include/lexy/input/buffer.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/lexy/input/buffer.hpp b/include/lexy/input/buffer.hpp
index ee6d452..f510809 100644
--- a/include/lexy/input/buffer.hpp
+++ b/include/lexy/input/buffer.hpp
@@ -265,7 +265,8 @@ public:
     auto reader() const& noexcept
     {
         if constexpr (_has_sentinel)
-            return _buffer_reader<encoding>(_data);
+            // If we don't own any memory, we're empty but still need something that is terminated.
+            return _buffer_reader<encoding>(_data != nullptr ? _data : _empty_data.data);
         else
             return _range_reader<encoding>(_data, _data + _size);
     }
@@ -291,6 +292,19 @@ private:
         }
     }
 
+    // Only consists of the sentinel and the padding.
+    struct _empty_data_t
+    {
+        char_type data[_detail::round_size_for_swar(1)];
+
+        constexpr _empty_data_t() noexcept : data{}
+        {
+            for (auto& c : data)
+                c = char_type(encoding::eof());
+        }
+    };
+    static constexpr _empty_data_t _empty_data{};
+
     LEXY_EMPTY_MEMBER _detail::memory_resource_ptr<MemoryResource> _resource;
     char_type*                                                     _data;
     std::size_t                                                    _size;
-- 
2.43.0


From 9fc5cb08d05f198c76e1f25e17e019fd19809dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:20 +0000
Subject: [PATCH 13/35] fix: re-use the chained blocks of a parse tree that is
 built again instead of leaking them

---
 include/lexy/parse_tree.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 20f3fe9..c05c4b7 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -267,10 +267,12 @@ public:
     {
         if (remaining_capacity() < size)
         {
-            auto next        = block::allocate(_resource);
-            _cur_block->next = next;
-            _cur_block       = next;
-            _cur_pos         = &_cur_block->memory[0];
+            // Re-use the next block if we still have one from before a reset().
+            if (!_cur_block->next)
+                _cur_block->next = block::allocate(_resource);
+
+            _cur_block = _cur_block->next;
+            _cur_pos   = &_cur_block->memory[0];
         }
     }
 
-- 
2.43.0


From 6fb5addc469aa13374b93610b26a23f3cd4823d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:20 +0000
Subject: [PATCH 14/35] fix: a cleared parse tree has no nodes, so its size is
 zero

---
 include/lexy/parse_tree.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index c05c4b7..e7b3f11 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -369,7 +369,9 @@ public:
     void clear() noexcept
     {
         _buffer.reset();
-        _root = nullptr;
+        _root  = nullptr;
+        _size  = 0;
+        _depth = 0;
     }
 
     //=== node access ===//
-- 
2.43.0


From 5bf5ea704cb654e639d648f26553dc7310a24e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:49 +0000
Subject: [PATCH 15/35] fix: don't count the nodes of a cancelled production or
 container in the size of the parse tree

---
 include/lexy/parse_tree.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index e7b3f11..ea8c85e 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -446,10 +446,14 @@ public:
         // The maximum local depth seen in the subtree beginning at the marker.
         std::size_t local_max_depth;
 
+        // The size of the tree when something was started inside, to restore it on cancel.
+        std::size_t tree_size;
+
         explicit marker(void* unwind_pos, std::size_t cur_depth,
                         _detail::pt_node_production<Reader>* prod = nullptr)
         : unwind_pos(unwind_pos), prod(prod), child_count(0), first_child(nullptr),
-          last_child(nullptr), cur_depth(cur_depth), local_max_depth(cur_depth)
+          last_child(nullptr), cur_depth(cur_depth), local_max_depth(cur_depth),
+          tree_size(0)
         {}
 
         void clear()
@@ -601,8 +605,9 @@ public:
         // Note: don't append the node yet, we might still backtrack.
 
         // Subsequent insertions are to the new node, so update marker and return old one.
-        auto old = LEXY_MOV(_cur);
-        _cur     = marker(node, old.cur_depth + 1, node);
+        auto old      = LEXY_MOV(_cur);
+        old.tree_size = _result._size;
+        _cur          = marker(node, old.cur_depth + 1, node);
         return old;
     }
 
@@ -629,6 +634,8 @@ public:
             return;
 
         _result._buffer.unwind(_cur.unwind_pos);
+        // The nodes of child productions that are already finished are gone as well.
+        _result._size = m.tree_size;
         // Continue with parent.
         _cur = LEXY_MOV(m);
     }
@@ -648,8 +655,9 @@ public:
         }
 
         // Create a new container marker and activate it.
-        auto old = LEXY_MOV(_cur);
-        _cur     = marker(unwind_pos, old.cur_depth);
+        auto old      = LEXY_MOV(_cur);
+        old.tree_size = _result._size;
+        _cur          = marker(unwind_pos, old.cur_depth);
         return old;
     }
 
@@ -713,6 +721,7 @@ public:
 
         // Deallocate everything we've inserted.
         _result._buffer.unwind(_cur.unwind_pos);
+        _result._size = m.tree_size;
         // Continue with parent.
         _cur = LEXY_MOV(m);
     }
-- 
2.43.0


From 70e7f7777f91f28651ee7fb0b23ed1367f2f9e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:49 +0000
Subject: [PATCH 16/35] fix: reserve memory for the child pointer of a parse
 tree container

---
 include/lexy/parse_tree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index ea8c85e..26f2cc8 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -651,6 +651,10 @@ public:
             //
             // If our parent is another container, its start_container() function took care of it.
             // If our parent already has a child, the first_child pointer is taken care of.
+            //
+            // We usually have the memory the production has reserved for it,
+            // but an empty container before us might have used it already.
+            _result._buffer.reserve(sizeof(_detail::pt_node<Reader>*));
             _result._buffer.template allocate<_detail::pt_node<Reader>*>(nullptr);
         }
 
-- 
2.43.0


From c8629edecbcacf587343356c7b4c39161aa3fbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:49 +0000
Subject: [PATCH 17/35] fix: cancelling a parse tree container that starts at
 the end of a block keeps that block

---
 include/lexy/parse_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 26f2cc8..6f44090 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -302,8 +302,8 @@ public:
         // Note: this is not guaranteed to work by the standard;
         // We'd have to go through std::less instead.
         // However, on all implementations I care about, std::less just does < anyway.
-        if (_cur_block->memory <= pos && pos < _cur_block->end())
-            // We're still in the same block, just reset position.
+        if (_cur_block->memory <= pos && pos <= _cur_block->end())
+            // We're still in the same block (which might have been full), just reset position.
             _cur_pos = pos;
         else
             // Reset to the beginning of the current block only.
-- 
2.43.0


From 15bbdda1d1d62ebd24767567ee27bd26ae37ac81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:49 +0000
Subject: [PATCH 18/35] fix: cancelling a transparent production removes its
 children from the parse tree

---
 include/lexy/parse_tree.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 6f44090..0527f1f 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -591,8 +591,11 @@ public:
     auto start_production(production_info production)
     {
         if (production.is_transparent)
+        {
             // Don't need to add a new node for a transparent production.
+            _cur.tree_size = _result._size;
             return _cur;
+        }
 
         // Allocate a node for the production and append it to the current child list.
         // We reserve enough memory to allow for a trailing pointer.
@@ -629,11 +632,10 @@ public:
     void cancel_production(marker&& m)
     {
         LEXY_PRECONDITION(_cur.prod || m.prod == _cur.prod);
-        if (_cur.prod == m.prod)
-            // We're backtracking a transparent production, do nothing.
-            return;
-
-        _result._buffer.unwind(_cur.unwind_pos);
+        if (_cur.prod != m.prod)
+            // If we're backtracking a transparent production, there is no node to unwind to;
+            // the memory of its children stays allocated.
+            _result._buffer.unwind(_cur.unwind_pos);
         // The nodes of child productions that are already finished are gone as well.
         _result._size = m.tree_size;
         // Continue with parent.
-- 
2.43.0


From 3ee79b6a7087d5e81b6f00c50a57714820488d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:03 +0000
Subject: [PATCH 19/35] fix: the nodes of a parse tree with a custom memory
 resource cannot be accessed

---
 include/lexy/parse_tree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 0527f1f..a4ecc64 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -1104,7 +1104,8 @@ private:
 
     _detail::pt_node<Reader>* _ptr;
 
-    friend parse_tree<Reader, TokenKind>;
+    template <typename, typename, typename>
+    friend class parse_tree;
     friend parse_tree_input_traits<_pt_node<Reader, TokenKind>>;
 };
 
-- 
2.43.0


From 77f9d0787d844adc2d1d20b77f89fe7c42155982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:56 +0000
Subject: [PATCH 20/35] fix: rule_scanner::recursion_depth() does not compile

---
 include/lexy/dsl/scan.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/lexy/dsl/scan.hpp b/include/lexy/dsl/scan.hpp
index 652342c..e7f272e 100644
--- a/include/lexy/dsl/scan.hpp
+++ b/include/lexy/dsl/scan.hpp
@@ -429,8 +429,7 @@ public:
 
     constexpr std::size_t recursion_depth() const noexcept
     {
-        auto& cb = _context->control_block();
-        return static_cast<std::size_t>(cb.cur_depth);
+        return static_cast<std::size_t>(_context->control_block->cur_depth);
     }
 
     constexpr auto begin() const noexcept -> typename Reader::iterator
-- 
2.43.0


From 0b7384abc2b01596c32eac16cfde6f6f86bd1782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:57 +0000
Subject: [PATCH 21/35] fix: an operator tag constructed from the parse state
 does not compile in an expression

---
 include/lexy/dsl/operator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/dsl/operator.hpp b/include/lexy/dsl/operator.hpp
index a783c01..fc2f49b 100644
--- a/include/lexy/dsl/operator.hpp
+++ b/include/lexy/dsl/operator.hpp
@@ -122,7 +122,8 @@ struct _op : branch_base
         else if constexpr (lexy::_detail::is_detected<_detect_op_tag_ctor_with_state, op_tag_type,
                                                       Reader, Context>)
             return continuation::parse(context, reader, LEXY_FWD(args)...,
-                                       op_tag_type(*context.control_block->parse_state, op.pos));
+                                       op_tag_type(*context.control_block->parse_state,
+                                                   op.cur.position()));
         else if constexpr (lexy::_detail::is_detected<_detect_op_tag_ctor, op_tag_type, Reader>)
             return continuation::parse(context, reader, LEXY_FWD(args)...,
                                        op_tag_type(op.cur.position()));
-- 
2.43.0


From aa3f0d3bb6665b18c41ce897161de5744c995278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:57 +0000
Subject: [PATCH 22/35] fix: lexy::scan_result moves from an lvalue it is
 constructed with

---
 include/lexy/dsl/scan.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/dsl/scan.hpp b/include/lexy/dsl/scan.hpp
index e7f272e..1a97788 100644
--- a/include/lexy/dsl/scan.hpp
+++ b/include/lexy/dsl/scan.hpp
@@ -52,7 +52,7 @@ public:
     template <typename U = T, typename = std::enable_if_t<std::is_constructible_v<T, U>>>
     constexpr scan_result(U&& value)
     {
-        _value.emplace(LEXY_MOV(value));
+        _value.emplace(LEXY_FWD(value));
     }
 
     constexpr explicit operator bool() const noexcept
-- 
2.43.0


From 53457464b75c6129b2673165259107495fb8f102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:39 +0000
Subject: [PATCH 23/35] fix: copying a failed lexy::scan_result<bool> makes it
 a success

---
 include/lexy/dsl/scan.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lexy/dsl/scan.hpp b/include/lexy/dsl/scan.hpp
index 1a97788..b9f9f67 100644
--- a/include/lexy/dsl/scan.hpp
+++ b/include/lexy/dsl/scan.hpp
@@ -49,7 +49,9 @@ public:
     constexpr scan_result() = default;
     constexpr scan_result(scan_failed_t) {}
 
-    template <typename U = T, typename = std::enable_if_t<std::is_constructible_v<T, U>>>
+    template <typename U = T, typename = std::enable_if_t<
+                                  std::is_constructible_v<T, U>
+                                  && !std::is_same_v<std::decay_t<U>, scan_result<T>>>>
     constexpr scan_result(U&& value)
     {
         _value.emplace(LEXY_FWD(value));
-- 
2.43.0


From 10b3113b948637bf1844e2b0310831a17662fb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:33 +0000
Subject: [PATCH 24/35] fix: lexy_ext::shell: handle end of input without a
 newline

append_next_line() looked at the last character of the buffer even if
nothing was read, which is before the buffer if it is empty and otherwise
the newline of the previous line; the latter made the input claim to have
another character at the end. It also reported that nothing had been read
if the last line wasn't terminated by a newline.
---
 include/lexy_ext/shell.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lexy_ext/shell.hpp b/include/lexy_ext/shell.hpp
index 0e192c6..8f2ff5b 100644
--- a/include/lexy_ext/shell.hpp
+++ b/include/lexy_ext/shell.hpp
@@ -373,6 +373,7 @@ private:
         if (_buffer.write_size() < min_capacity)
             _buffer.grow();
 
+        auto did_read = false;
         for (auto reader = _prompt.read_line(); true;)
         {
             const auto buffer_size = _buffer.write_size();
@@ -381,9 +382,10 @@ private:
             // commiting what we've just read.
             const auto read = reader(_buffer.write_data(), buffer_size);
             _buffer.commit(read);
+            did_read |= read > 0;
 
             // Check whether we've read the entire line.
-            if (_buffer.write_data()[-1] == '\n')
+            if (read > 0 && _buffer.write_data()[-1] == '\n')
             {
                 LEXY_MOV(reader).done();
                 return true;
@@ -391,7 +393,7 @@ private:
             else if (read < buffer_size)
             {
                 LEXY_ASSERT(!_prompt.is_open(), "read error but prompt still open?!");
-                return false;
+                return did_read;
             }
 
             // We've filled the entire buffer and need more space.
-- 
2.43.0


From 56282874bef0fbfa890ea0f7c099ce9836d6964e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:33 +0000
Subject: [PATCH 25/35] fix: lexy_ext::default_prompt: read lines that fill the
 buffer

A return value less than size means that the line is complete, but
std::fgets() reads at most size - 1 characters, and std::strlen() stops at
an embedded null character. Long lines therefore triggered the assertion in
lexy_ext::shell or were cut.
---
 include/lexy_ext/shell.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/lexy_ext/shell.hpp b/include/lexy_ext/shell.hpp
index 8f2ff5b..c41a83d 100644
--- a/include/lexy_ext/shell.hpp
+++ b/include/lexy_ext/shell.hpp
@@ -101,13 +101,19 @@ struct default_prompt
     {
         std::size_t operator()(char_type* buffer, std::size_t size)
         {
-            LEXY_PRECONDITION(size > 1);
+            // Note: we can't use std::fgets(), as it reads at most size - 1 characters.
+            auto count = std::size_t(0);
+            while (count < size)
+            {
+                auto c = std::getc(stdin);
+                if (c == EOF)
+                    break;
 
-            auto memory = reinterpret_cast<char*>(buffer);
-            if (auto str = std::fgets(memory, int(size), stdin))
-                return std::strlen(str);
-            else
-                return 0;
+                buffer[count++] = static_cast<char_type>(c);
+                if (c == '\n')
+                    break;
+            }
+            return count;
         }
 
         void done() && {}
-- 
2.43.0


From 87afeac811a176d499cf736722cadf2298f85818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:02 +0000
Subject: [PATCH 26/35] fix: digits with separator stop in front of a separator
 after a SWAR block

If the SWAR loop consumed all the digits in front of a separator, the
separator was never looked at, so '123456789_0' was only matched up to
the separator with a SWAR capable input.
---
 include/lexy/dsl/digit.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/lexy/dsl/digit.hpp b/include/lexy/dsl/digit.hpp
index 7a21a9f..118106e 100644
--- a/include/lexy/dsl/digit.hpp
+++ b/include/lexy/dsl/digit.hpp
@@ -325,25 +325,25 @@ constexpr bool _match_digits_sep(Reader& reader)
     // Might have following digits.
     while (true)
     {
+        // Attempt to consume as many digits as possible.
+        // This may end right in front of a separator.
+        if constexpr (lexy::_detail::is_swar_reader<Reader>)
+        {
+            using char_type = typename Reader::encoding::char_type;
+            while (Base::template swar_matches<char_type>(reader.peek_swar()))
+                reader.bump_swar();
+        }
+
         if (lexy::try_match_token(Sep{}, reader))
         {
             // Need a digit after a separator.
             if (!lexy::try_match_token(digit<Base>, reader))
                 return false;
         }
-        else
+        else if (!lexy::try_match_token(digit<Base>, reader))
         {
-            // Attempt to consume as many digits as possible.
-            if constexpr (lexy::_detail::is_swar_reader<Reader>)
-            {
-                using char_type = typename Reader::encoding::char_type;
-                while (Base::template swar_matches<char_type>(reader.peek_swar()))
-                    reader.bump_swar();
-            }
-
-            if (!lexy::try_match_token(digit<Base>, reader))
-                // If we're not having a digit, we're done.
-                break;
+            // If we're not having a digit, we're done.
+            break;
         }
     }
 
-- 
2.43.0


From 3b26bdd25c75133688fda4c3cda8defee1f25252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:17 +0000
Subject: [PATCH 27/35] fix: spurious integer overflow for a trailing digit
 separator

If the digits of an integer end in a separator, error recovery keeps it.
With the maximal number of digits in front of it, it was taken for yet
another digit and integer_overflow was reported as well.
---
 include/lexy/dsl/integer.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/lexy/dsl/integer.hpp b/include/lexy/dsl/integer.hpp
index efa34d1..2741cf4 100644
--- a/include/lexy/dsl/integer.hpp
+++ b/include/lexy/dsl/integer.hpp
@@ -338,6 +338,12 @@ struct _bounded_integer_parser
 
         // If we've reached this point, we've parsed the maximal number of digits allowed.
         // Now we can only overflow if there are still digits left.
+        if constexpr (!AssumeOnlyDigits)
+        {
+            // Error recovery might have left separators at the end, they're not digits.
+            while (cur != end && Base::digit_value(*cur) >= Base::digit_radix)
+                ++cur;
+        }
         return {value, cur != end};
     }
 };
-- 
2.43.0


From 536161b38c67b81fae9894aec630de82653087d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:23 +0000
Subject: [PATCH 28/35] fix: a subgrammar raised the grammar events again,
 which broke parse_as_tree

---
 include/lexy/action/base.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/lexy/action/base.hpp b/include/lexy/action/base.hpp
index 7a1d38e..8dd86c5 100644
--- a/include/lexy/action/base.hpp
+++ b/include/lexy/action/base.hpp
@@ -201,7 +201,6 @@ constexpr void* no_parse_state = nullptr;
 template <typename Handler, typename State, typename Production, typename Reader>
 constexpr auto _do_action(_pc<Handler, State, Production>& context, Reader& reader)
 {
-    context.on(parse_events::grammar_start{}, reader.position());
     context.on(parse_events::production_start{}, reader.position());
 
     // We parse whitespace, theen the rule, then finish.
@@ -211,15 +210,9 @@ constexpr auto _do_action(_pc<Handler, State, Production>& context, Reader& read
     auto rule_result = parser::parse(context, reader);
 
     if (rule_result)
-    {
         context.on(parse_events::production_finish{}, reader.position());
-        context.on(parse_events::grammar_finish{}, reader);
-    }
     else
-    {
         context.on(parse_events::production_cancel{}, reader.position());
-        context.on(parse_events::grammar_cancel{}, reader);
-    }
 
     return rule_result;
 }
@@ -234,7 +227,13 @@ constexpr auto do_action(Handler&& handler, State* state, Reader& reader)
                                                        max_recursion_depth<Production>());
     _pc<Handler, State, Production>      context(&control_block);
 
+    // The grammar events are only raised for the entry production of the action, not for subgrammars.
+    context.on(parse_events::grammar_start{}, reader.position());
     auto rule_result = _do_action(context, reader);
+    if (rule_result)
+        context.on(parse_events::grammar_finish{}, reader);
+    else
+        context.on(parse_events::grammar_cancel{}, reader);
 
     using value_type = typename decltype(context)::value_type;
     if constexpr (std::is_void_v<value_type>)
-- 
2.43.0


From fa89f7453a7070a94efe1cc71bee9430c4de0e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:57 +0000
Subject: [PATCH 29/35] fix: no_whitespace() around a subgrammar disabled the
 subgrammar's own whitespace

---
 include/lexy/dsl/subgrammar.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/lexy/dsl/subgrammar.hpp b/include/lexy/dsl/subgrammar.hpp
index 6a291df..f7ec859 100644
--- a/include/lexy/dsl/subgrammar.hpp
+++ b/include/lexy/dsl/subgrammar.hpp
@@ -75,6 +75,11 @@ struct _subg : rule_base
             auto vars                   = context.control_block->vars;
             context.control_block->vars = nullptr;
 
+            // The subgrammar is parsed as if it was the top-level action,
+            // so a surrounding no_whitespace() does not apply to it.
+            auto no_whitespace_depth                   = context.control_block->no_whitespace_depth;
+            context.control_block->no_whitespace_depth = 0;
+
             constexpr auto production_uses_void_callback = std::is_same_v<
                 typename handler_type::template value_callback<Production, state_type>,
                 lexy::_detail::void_value_callback>;
@@ -87,7 +92,8 @@ struct _subg : rule_base
                 = subgrammar_traits::template parse<value_type>(value, context.control_block,
                                                                 reader);
 
-            context.control_block->vars = vars;
+            context.control_block->vars                = vars;
+            context.control_block->no_whitespace_depth = no_whitespace_depth;
 
             if (!rule_result)
                 return false;
-- 
2.43.0


From 9e8295151e4848fcb8881a672e15af057e3624c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:33 +0000
Subject: [PATCH 30/35] fix: visualizing a lexeme of parse tree nodes ignored
 the options

---
 include/lexy/visualize.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/visualize.hpp b/include/lexy/visualize.hpp
index f553087..99a634c 100644
--- a/include/lexy/visualize.hpp
+++ b/include/lexy/visualize.hpp
@@ -481,7 +481,8 @@ OutputIt visualize_to(OutputIt out, lexy::lexeme<Reader> lexeme,
         // Visualize as an iterator range of characters.
         lexy::range_input<typename encoding::char_encoding, typename Reader::iterator>
             input(lexeme.begin(), lexeme.end());
-        return visualize_to(out, lexy::lexeme_for<decltype(input)>(input.begin(), input.end()));
+        return visualize_to(out, lexy::lexeme_for<decltype(input)>(input.begin(), input.end()),
+                            opts);
     }
     else
     {
-- 
2.43.0


From a42af0278948bb960dbaa7dd806fcab104b39a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:33 +0000
Subject: [PATCH 31/35] fix: visualizing an ASCII lexeme dropped the code units
 that are not ASCII

---
 include/lexy/visualize.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lexy/visualize.hpp b/include/lexy/visualize.hpp
index 99a634c..05e6cc5 100644
--- a/include/lexy/visualize.hpp
+++ b/include/lexy/visualize.hpp
@@ -394,8 +394,8 @@ OutputIt visualize_to(OutputIt out, lexy::lexeme<Reader> lexeme,
                 // Visualize each skipped code unit as byte.
                 for (auto cur = begin; cur != end; ++cur)
                 {
-                    if constexpr (std::is_same_v<encoding,
-                                                 lexy::utf8_encoding> //
+                    if constexpr (std::is_same_v<encoding, lexy::ascii_encoding>   //
+                                  || std::is_same_v<encoding, lexy::utf8_encoding> //
                                   || std::is_same_v<encoding, lexy::utf8_char_encoding>)
                     {
                         out = write_escaped_byte(out, static_cast<unsigned char>(*cur & 0xFF));
-- 
2.43.0


From f1bef23df1a27e0919638f81b0376cbad040de35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:33 +0000
Subject: [PATCH 32/35] fix: code units F8 to FE were taken for the end of
 UTF-8 input

---
 include/lexy/_detail/code_point.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/lexy/_detail/code_point.hpp b/include/lexy/_detail/code_point.hpp
index e0c581c..5092d19 100644
--- a/include/lexy/_detail/code_point.hpp
+++ b/include/lexy/_detail/code_point.hpp
@@ -264,10 +264,14 @@ constexpr cp_result<Reader> parse_code_point(Reader reader)
             else
                 return {cp, cp_error::success, reader.current()};
         }
-        else // FE or FF
+        else if (reader.peek() == Reader::encoding::eof())
         {
             return {{}, cp_error::eof, reader.current()};
         }
+        else // F8 to FE, which don't start any sequence
+        {
+            return {{}, cp_error::leads_with_trailing, reader.current()};
+        }
     }
     else if constexpr (std::is_same_v<typename Reader::encoding, lexy::utf16_encoding>)
     {
-- 
2.43.0


From d8a4736b2fdbe00e5d3eb40f19b11fbf07274919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:33 +0000
Subject: [PATCH 33/35] fix: trace ignored the kind of tokens the user passed

---
 include/lexy/action/trace.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/action/trace.hpp b/include/lexy/action/trace.hpp
index 540f72d..975bb74 100644
--- a/include/lexy/action/trace.hpp
+++ b/include/lexy/action/trace.hpp
@@ -441,7 +441,7 @@ struct trace_action
     visualization_options _opts;
     State*                _state = nullptr;
 
-    using handler = _th<OutputIt, Input>;
+    using handler = _th<OutputIt, Input, TokenKind>;
     using state   = State;
     using input   = Input;
 
-- 
2.43.0


From 99309ca68d4c1815672afc3f8cef35f9d8271378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:33 +0000
Subject: [PATCH 34/35] fix: trace looked for errors only after the begin of
 the last child production

---
 include/lexy/action/trace.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/lexy/action/trace.hpp b/include/lexy/action/trace.hpp
index 975bb74..8746d47 100644
--- a/include/lexy/action/trace.hpp
+++ b/include/lexy/action/trace.hpp
@@ -331,6 +331,7 @@ public:
             // All events for the production are after the initial event.
             _previous_anchor.emplace(handler._anchor);
             handler._anchor = loc.anchor();
+            _begin_anchor.emplace(loc.anchor());
         }
         void on(_th& handler, parse_events::production_finish, iterator pos)
         {
@@ -380,7 +381,8 @@ public:
         template <typename Error>
         void on(_th& handler, parse_events::error, const Error& error)
         {
-            auto loc = handler.get_location(error.position());
+            // The error can begin before the last child production, which moved the anchor.
+            auto loc = get_input_location(*handler._input, error.position(), *_begin_anchor);
             handler._writer.write_error(loc, error);
         }
 
@@ -411,6 +413,8 @@ public:
         // The beginning of the previous production.
         // If the current production gets canceled, it needs to be restored.
         _detail::lazy_init<input_location_anchor<Input>> _previous_anchor;
+        // The beginning of the current production, all errors are after it.
+        _detail::lazy_init<input_location_anchor<Input>> _begin_anchor;
     };
 
     template <typename Production, typename State>
-- 
2.43.0


From 97b146e581385d1411096c50dbbd35fbf1c39b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:33 +0000
Subject: [PATCH 35/35] fix: report_error printed an unsigned line number as a
 signed size

---
 include/lexy_ext/report_error.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy_ext/report_error.hpp b/include/lexy_ext/report_error.hpp
index b0ba90b..306dcb0 100644
--- a/include/lexy_ext/report_error.hpp
+++ b/include/lexy_ext/report_error.hpp
@@ -141,7 +141,7 @@ public:
         //=== Line with file contents ===//
         // Location column.
         out    = write_color<color::blue>(out, _opts);
-        out    = write_format(out, "%4zd ", begin_location.line_nr());
+        out    = write_format(out, "%4u ", begin_location.line_nr());
         out    = write_color<color::reset>(out, _opts);
         out    = write_str(out, column());
         *out++ = ' ';
-- 
2.43.0

