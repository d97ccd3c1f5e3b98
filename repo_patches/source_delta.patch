From 2f2c837ad9619708285ee705e5630425fa9205c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:24 +0000
Subject: [PATCH 01/42] Add LOG_SURGEON_VERIF_STATIC_BUFF_SIZE to shrink the
 static buffers in verification builds

---
 src/log_surgeon/Constants.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/log_surgeon/Constants.hpp b/src/log_surgeon/Constants.hpp
index 17f0372..caeccc5 100644
--- a/src/log_surgeon/Constants.hpp
+++ b/src/log_surgeon/Constants.hpp
@@ -46,7 +46,12 @@ constexpr char cTokenHex[] = "hex";
 constexpr char cTokenFirstTimestamp[] = "firstTimestamp";
 constexpr char cTokenNewlineTimestamp[] = "newLineTimestamp";
 constexpr char cTokenNewline[] = "newLine";
+#ifdef LOG_SURGEON_VERIF_STATIC_BUFF_SIZE
+// Verification builds only: a small static buffer brings buffer wrap and growth within reach.
+constexpr uint32_t cStaticByteBuffSize = LOG_SURGEON_VERIF_STATIC_BUFF_SIZE;
+#else
 constexpr uint32_t cStaticByteBuffSize = 48'000;
+#endif
 
 namespace utf8 {
 // 0xC0, 0xC1, 0xF5, 0xF6, 0xF7, 0xF8, 0xF9, 0xFA, 0xFB, 0xFC, 0xFD, 0xFE,
-- 
2.43.0


From 40c56ea8389d6f4df966f23e67ebb000c3851583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 02/42] fix: let an empty regex node match the empty string

RegexASTEmpty added nothing to the NFA, so patterns such as a* and a{0,3} never
matched zero repetitions.
---
 src/log_surgeon/finite_automata/RegexAST.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index beeb588..abd3791 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -177,11 +177,14 @@ public:
         // Do nothing as an empty node contains no delimiters.
     }
 
-    auto add_to_nfa(
-            [[maybe_unused]] RegexNFA<NFAStateType>* nfa,
-            [[maybe_unused]] NFAStateType* end_state
-    ) const -> void override {
-        // Do nothing as adding an empty node to the NFA is a null operation.
+    /**
+     * Adds an epsilon transition from the root of `nfa` to `end_state`, as an empty node matches
+     * without consuming any input.
+     * @param nfa
+     * @param end_state
+     */
+    auto add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state) const -> void override {
+        nfa->get_root()->add_epsilon_transition(end_state);
     }
 
     [[nodiscard]] auto serialize() const -> std::u32string override;
-- 
2.43.0


From b172e3357edeb206e98f12d1c5e498406d3ab137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 03/42] fix: keep a repetition at the end of an alternative
 from leaking into the other alternative

---
 src/log_surgeon/finite_automata/RegexAST.hpp | 35 ++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index abd3791..b4a0d09 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -77,6 +77,12 @@ public:
      */
     virtual auto add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state) const -> void = 0;
 
+    /**
+     * @return Whether `add_to_nfa` may add outgoing transitions to `end_state` (to repeat the end
+     * of this node), in which case `end_state` must not be reachable without matching this node.
+     */
+    [[nodiscard]] virtual auto may_loop_at_end_state() const -> bool { return false; }
+
     /**
      * Serializes the AST with this node as the root.
      * @return A string representing the serialized AST.
@@ -121,6 +127,23 @@ public:
         }
     }
 
+    /**
+     * Same as `add_to_nfa_with_negative_tags`, but never adds outgoing transitions to `end_state`,
+     * so that `end_state` can be shared with other nodes.
+     * @param nfa
+     * @param end_state
+     */
+    auto add_to_nfa_with_shared_end_state(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state)
+            const -> void {
+        if (m_negative_tags.empty() && may_loop_at_end_state()) {
+            auto* own_end_state = nfa->new_state();
+            own_end_state->add_epsilon_transition(end_state);
+            add_to_nfa(nfa, own_end_state);
+        } else {
+            add_to_nfa_with_negative_tags(nfa, end_state);
+        }
+    }
+
 protected:
     RegexAST(RegexAST const& rhs) = default;
     auto operator=(RegexAST const& rhs) -> RegexAST& = default;
@@ -542,6 +565,10 @@ public:
      */
     auto add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state) const -> void override;
 
+    [[nodiscard]] auto may_loop_at_end_state() const -> bool override {
+        return m_right->may_loop_at_end_state();
+    }
+
     [[nodiscard]] auto serialize() const -> std::u32string override;
 
     [[nodiscard]] auto get_left() const -> RegexAST<NFAStateType> const* { return m_left.get(); }
@@ -606,6 +633,10 @@ public:
      */
     auto add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state) const -> void override;
 
+    [[nodiscard]] auto may_loop_at_end_state() const -> bool override {
+        return is_infinite() || m_operand->may_loop_at_end_state();
+    }
+
     [[nodiscard]] auto serialize() const -> std::u32string override;
 
     [[nodiscard]] auto is_infinite() const -> bool { return this->m_max == 0; }
@@ -786,8 +817,8 @@ RegexASTOr<NFAStateType>::RegexASTOr(
 template <typename NFAStateType>
 void RegexASTOr<NFAStateType>::add_to_nfa(RegexNFA<NFAStateType>* nfa, NFAStateType* end_state)
         const {
-    m_left->add_to_nfa_with_negative_tags(nfa, end_state);
-    m_right->add_to_nfa_with_negative_tags(nfa, end_state);
+    m_left->add_to_nfa_with_shared_end_state(nfa, end_state);
+    m_right->add_to_nfa_with_shared_end_state(nfa, end_state);
 }
 
 template <typename NFAStateType>
-- 
2.43.0


From 84672a08117ab1314c1ad2ed39e227fb893abdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 04/42] fix: look for tokens in text skipped by a failed match,
 also across calls

A match attempt that fails after it read delimiters (a timestamp at the start of
the log) hid the tokens that start at them, running out of data while skipping
static text resumed from the state of the failed attempt, a schema in which
nothing can follow the start of the log dereferenced a null state, and a newline
that is not a delimiter was skipped.
---
 src/log_surgeon/Lexer.hpp | 27 +++++++++++++++
 src/log_surgeon/Lexer.tpp | 72 ++++++++++++++++++++++++++++++---------
 2 files changed, 82 insertions(+), 17 deletions(-)

diff --git a/src/log_surgeon/Lexer.hpp b/src/log_surgeon/Lexer.hpp
index ddb12cf..c8dd8d2 100644
--- a/src/log_surgeon/Lexer.hpp
+++ b/src/log_surgeon/Lexer.hpp
@@ -137,6 +137,30 @@ private:
      */
     static auto epsilon_closure(NFAStateType const* state_ptr) -> std::set<NFAStateType const*>;
 
+    /**
+     * Skips the characters at which no token can start, so that the next character is one at which
+     * a token can start or the end of the input, and sets the start position to it.
+     * @param input_buffer
+     * @return ErrorCode::Success
+     * @return ErrorCode::BufferOutOfBounds if the end of the buffer was reached first.
+     */
+    auto skip_to_next_token_start(ParserInputBuffer& input_buffer) -> ErrorCode;
+
+    /**
+     * Gives up on finding a token at the start position. The characters after it are read again, as
+     * another token may start at one of them.
+     * @param input_buffer
+     * @return The state to continue from, or nullptr to skip to the next start of a token.
+     */
+    auto restart_after_mismatch(ParserInputBuffer& input_buffer) -> DFAStateType const*;
+
+    [[nodiscard]] auto can_start_token(unsigned char byte) const -> bool {
+        // TODO: remove timestamp from m_is_fist_char so that m_is_delimiter
+        // check not needed
+        return m_is_first_char[byte]
+               && (m_is_delimiter[byte] || (m_has_delimiters && '\n' == byte));
+    }
+
     /**
      * Get next character from the input buffer
      * @return unsigned char
@@ -158,6 +182,9 @@ private:
     bool m_has_delimiters{false};
     std::unique_ptr<finite_automata::RegexDFA<DFAStateType>> m_dfa;
     bool m_asked_for_more_data{false};
+    // the token being scanned started at the start of the input, before any character
+    bool m_at_start_of_input{false};
+    // nullptr when skipping to the next start of a token
     DFAStateType const* m_prev_state{nullptr};
 };
 
diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index 8a8aeb3..5163fdc 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -63,8 +63,17 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
         m_match_pos = input_buffer.storage().pos();
         m_match_line = m_line;
         m_type_ids = nullptr;
+        m_at_start_of_input = false;
     }
     while (true) {
+        if (nullptr == state) {
+            if (ErrorCode err = skip_to_next_token_start(input_buffer); ErrorCode::Success != err) {
+                m_asked_for_more_data = true;
+                m_prev_state = nullptr;
+                return err;
+            }
+            state = m_dfa->get_root();
+        }
         uint32_t prev_byte_buf_pos = input_buffer.storage().pos();
         unsigned char next_char{utf8::cCharErr};
         if (ErrorCode err = input_buffer.get_next_character(next_char); ErrorCode::Success != err) {
@@ -82,6 +91,13 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
         }
         DFAStateType* next = state->next(next_char);
         if (next_char == '\n') {
+            if (m_has_delimiters && !m_match && m_at_start_of_input
+                && m_start_pos != prev_byte_buf_pos)
+            {
+                // A token may start at one of the characters before the newline
+                state = restart_after_mismatch(input_buffer);
+                continue;
+            }
             m_line++;
             if (m_has_delimiters && !m_match) {
                 next = m_dfa->get_root()->next(next_char);
@@ -142,29 +158,49 @@ auto Lexer<NFAStateType, DFAStateType>::scan(ParserInputBuffer& input_buffer, To
                                 &cTokenEndTypes};
                 return ErrorCode::Success;
             }
-            // TODO: remove timestamp from m_is_fist_char so that m_is_delimiter
-            // check not needed
-            while (input_buffer.log_fully_consumed() == false
-                   && (m_is_first_char[next_char] == false || m_is_delimiter[next_char] == false))
-            {
-                prev_byte_buf_pos = input_buffer.storage().pos();
-                if (ErrorCode err = input_buffer.get_next_character(next_char);
-                    ErrorCode::Success != err)
-                {
-                    m_asked_for_more_data = true;
-                    m_prev_state = state;
-                    return err;
-                }
-            }
-            input_buffer.set_pos(prev_byte_buf_pos);
-            m_start_pos = prev_byte_buf_pos;
-            state = m_dfa->get_root();
+            state = restart_after_mismatch(input_buffer);
             continue;
         }
         state = next;
     }
 }
 
+template <typename NFAStateType, typename DFAStateType>
+auto Lexer<NFAStateType, DFAStateType>::skip_to_next_token_start(ParserInputBuffer& input_buffer)
+        -> ErrorCode {
+    while (true) {
+        uint32_t const pos = input_buffer.storage().pos();
+        unsigned char next_char{utf8::cCharErr};
+        if (ErrorCode err = input_buffer.get_next_character(next_char); ErrorCode::Success != err) {
+            return err;
+        }
+        if (input_buffer.log_fully_consumed() || can_start_token(next_char)) {
+            input_buffer.set_pos(pos);
+            m_start_pos = pos;
+            m_at_start_of_input = false;
+            return ErrorCode::Success;
+        }
+    }
+}
+
+template <typename NFAStateType, typename DFAStateType>
+auto Lexer<NFAStateType, DFAStateType>::restart_after_mismatch(ParserInputBuffer& input_buffer)
+        -> DFAStateType const* {
+    input_buffer.set_log_fully_consumed(false);
+    uint32_t const first_pos = m_start_pos;
+    bool const is_last_in_buffer = first_pos + 1 == input_buffer.storage().size();
+    input_buffer.set_pos(is_last_in_buffer ? 0 : first_pos + 1);
+    if (m_at_start_of_input) {
+        m_at_start_of_input = false;
+        // The attempt started before the first character, so that character can start a token too
+        unsigned char const first_char = input_buffer.storage().get_value(first_pos);
+        if (can_start_token(first_char)) {
+            return m_dfa->get_root()->next(first_char);
+        }
+    }
+    return nullptr;
+}
+
 // TODO: this is duplicating almost all the code of scan()
 template <typename NFAStateType, typename DFAStateType>
 auto Lexer<NFAStateType, DFAStateType>::scan_with_wildcard(
@@ -328,6 +364,7 @@ void Lexer<NFAStateType, DFAStateType>::reset() {
     m_type_ids = nullptr;
     m_asked_for_more_data = false;
     m_prev_state = nullptr;
+    m_at_start_of_input = false;
 }
 
 template <typename NFAStateType, typename DFAStateType>
@@ -335,6 +372,7 @@ void Lexer<NFAStateType, DFAStateType>::prepend_start_of_file_char(ParserInputBu
 ) {
     m_prev_state = m_dfa->get_root()->next(utf8::cCharStartOfFile);
     m_asked_for_more_data = true;
+    m_at_start_of_input = true;
     m_start_pos = input_buffer.storage().pos();
     m_match_pos = input_buffer.storage().pos();
     m_match_line = m_line;
-- 
2.43.0


From 74b493a884b6c1fe60de16124d3508ec91b56ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 05/42] fix: print a delimiter in the log type only if the
 variable has one

---
 src/log_surgeon/LogEvent.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/LogEvent.cpp b/src/log_surgeon/LogEvent.cpp
index 709e62c..03ad81e 100644
--- a/src/log_surgeon/LogEvent.cpp
+++ b/src/log_surgeon/LogEvent.cpp
@@ -55,7 +55,11 @@ auto LogEventView::get_logtype() const -> std::string {
         if (token.m_type_ids_ptr->at(0) == (uint32_t)SymbolId::TokenUncaughtString) {
             logtype += token.to_string_view();
         } else {
-            if ((uint32_t)SymbolId::TokenNewline != token.m_type_ids_ptr->at(0)) {
+            // A variable at the start of an event has no delimiter
+            if ((uint32_t)SymbolId::TokenNewline != token.m_type_ids_ptr->at(0)
+                && 0 < token.get_length()
+                && m_log_parser.m_lexer.is_delimiter(token.get_char(0)))
+            {
                 logtype += token.get_delimiter();
             }
             logtype += "<";
-- 
2.43.0


From 2fec3b3c8ee950ba192c090f42b520b55ba37697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 06/42] fix: list matching variables in the order of their
 rules, not of heap addresses

---
 src/log_surgeon/LexicalRule.hpp                   |  9 +++++++--
 src/log_surgeon/finite_automata/RegexDFA.hpp      |  1 +
 src/log_surgeon/finite_automata/RegexDFA.tpp      | 10 +++++++++-
 src/log_surgeon/finite_automata/RegexNFA.hpp      |  3 ++-
 src/log_surgeon/finite_automata/RegexNFAState.hpp |  5 +++++
 5 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/log_surgeon/LexicalRule.hpp b/src/log_surgeon/LexicalRule.hpp
index 9aa9328..0d649cc 100644
--- a/src/log_surgeon/LexicalRule.hpp
+++ b/src/log_surgeon/LexicalRule.hpp
@@ -20,8 +20,9 @@ public:
     /**
      * Adds AST representing the lexical rule to the NFA
      * @param nfa
+     * @param rule_idx The position of this rule among the NFA's rules.
      */
-    auto add_to_nfa(finite_automata::RegexNFA<NFAStateType>* nfa) const -> void;
+    auto add_to_nfa(finite_automata::RegexNFA<NFAStateType>* nfa, uint32_t rule_idx) const -> void;
 
     [[nodiscard]] auto get_variable_id() const -> uint32_t { return m_variable_id; }
 
@@ -36,10 +37,14 @@ private:
 };
 
 template <typename NFAStateType>
-void LexicalRule<NFAStateType>::add_to_nfa(finite_automata::RegexNFA<NFAStateType>* nfa) const {
+void LexicalRule<NFAStateType>::add_to_nfa(
+        finite_automata::RegexNFA<NFAStateType>* nfa,
+        uint32_t const rule_idx
+) const {
     auto* end_state = nfa->new_state();
     end_state->set_accepting(true);
     end_state->set_matching_variable_id(m_variable_id);
+    end_state->set_matching_rule_idx(rule_idx);
     m_regex->add_to_nfa_with_negative_tags(nfa, end_state);
 }
 }  // namespace log_surgeon
diff --git a/src/log_surgeon/finite_automata/RegexDFA.hpp b/src/log_surgeon/finite_automata/RegexDFA.hpp
index b549d7c..a3ca075 100644
--- a/src/log_surgeon/finite_automata/RegexDFA.hpp
+++ b/src/log_surgeon/finite_automata/RegexDFA.hpp
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <cstdint>
+#include <map>
 #include <memory>
 #include <set>
 #include <utility>
diff --git a/src/log_surgeon/finite_automata/RegexDFA.tpp b/src/log_surgeon/finite_automata/RegexDFA.tpp
index 458a556..73c80da 100644
--- a/src/log_surgeon/finite_automata/RegexDFA.tpp
+++ b/src/log_surgeon/finite_automata/RegexDFA.tpp
@@ -44,11 +44,19 @@ auto RegexDFA<DFAStateType>::new_state(std::set<NFAStateType*> const& nfa_state_
 ) -> DFAStateType* {
     m_states.emplace_back(std::make_unique<DFAStateType>());
     auto* dfa_state = m_states.back().get();
+    // The set is ordered by address, but the variables must be in the order of their rules.
+    std::map<uint32_t, uint32_t> rule_idx_to_variable_id;
     for (auto const* nfa_state : nfa_state_set) {
         if (nfa_state->is_accepting()) {
-            dfa_state->add_matching_variable_id(nfa_state->get_matching_variable_id());
+            rule_idx_to_variable_id.emplace(
+                    nfa_state->get_matching_rule_idx(),
+                    nfa_state->get_matching_variable_id()
+            );
         }
     }
+    for (auto const& [rule_idx, variable_id] : rule_idx_to_variable_id) {
+        dfa_state->add_matching_variable_id(variable_id);
+    }
     return dfa_state;
 }
 
diff --git a/src/log_surgeon/finite_automata/RegexNFA.hpp b/src/log_surgeon/finite_automata/RegexNFA.hpp
index ba9791b..0039d6d 100644
--- a/src/log_surgeon/finite_automata/RegexNFA.hpp
+++ b/src/log_surgeon/finite_automata/RegexNFA.hpp
@@ -102,8 +102,9 @@ template <typename NFAStateType>
 RegexNFA<NFAStateType>::RegexNFA(std::vector<LexicalRule<NFAStateType>> rules)
         : m_root{new_state()},
           m_rules{std::move(rules)} {
+    uint32_t rule_idx{0};
     for (auto const& rule : m_rules) {
-        rule.add_to_nfa(this);
+        rule.add_to_nfa(this, rule_idx++);
     }
 }
 
diff --git a/src/log_surgeon/finite_automata/RegexNFAState.hpp b/src/log_surgeon/finite_automata/RegexNFAState.hpp
index 8fce8cf..c21454a 100644
--- a/src/log_surgeon/finite_automata/RegexNFAState.hpp
+++ b/src/log_surgeon/finite_automata/RegexNFAState.hpp
@@ -49,6 +49,10 @@ public:
         return m_matching_variable_id;
     }
 
+    auto set_matching_rule_idx(uint32_t const rule_idx) -> void { m_matching_rule_idx = rule_idx; }
+
+    [[nodiscard]] auto get_matching_rule_idx() const -> uint32_t { return m_matching_rule_idx; }
+
     auto
     add_positive_tagged_start_transition(Tag const* tag, RegexNFAState const* dest_state) -> void {
         m_positive_tagged_start_transitions.emplace_back(tag, dest_state);
@@ -110,6 +114,7 @@ public:
 private:
     bool m_accepting{false};
     uint32_t m_matching_variable_id{0};
+    uint32_t m_matching_rule_idx{0};
     std::vector<PositiveTaggedTransition<RegexNFAState>> m_positive_tagged_start_transitions;
     std::optional<PositiveTaggedTransition<RegexNFAState>> m_positive_tagged_end_transition;
     std::optional<NegativeTaggedTransition<RegexNFAState>> m_negative_tagged_transition;
-- 
2.43.0


From 558968ba26c4564c689aca9944ed5831b7d38c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 07/42] fix: do not count the start-of-file mark as a delimiter
 a variable contains

---
 src/log_surgeon/LogParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index b98e712..9d2c67e 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -98,7 +98,8 @@ void LogParser::add_rules(std::unique_ptr<SchemaAST> schema_ast) {
         bool contains_delimiter = false;
         uint32_t delimiter_name = 0;
         for (uint32_t delimiter : delimiters) {
-            if (is_possible_input[delimiter]) {
+            // The start of the input counts as a delimiter, but is not part of it
+            if (utf8::cCharStartOfFile != delimiter && is_possible_input[delimiter]) {
                 contains_delimiter = true;
                 delimiter_name = delimiter;
                 break;
-- 
2.43.0


From b07f044e1c410e91af6144412c2b089e272eef80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 08/42] fix: end an event without timestamp at a leading
 newline

---
 src/log_surgeon/LogParser.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index 9d2c67e..989681d 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -181,8 +181,18 @@ auto LogParser::parse(LogParser::ParsingAction& parsing_action) -> ErrorCode {
             if (ErrorCode err = get_next_symbol(next_token); ErrorCode::Success != err) {
                 return err;
             }
+            auto const token_type = next_token.m_type_ids_ptr->at(0);
+            if (token_type == (uint32_t)SymbolId::TokenNewline) {
+                // An empty line, which is a log event of its own
+                output_buffer->set_has_timestamp(false);
+                output_buffer->set_token(1, next_token);
+                output_buffer->set_pos(2);
+                m_input_buffer.set_consumed_pos(next_token.m_end_pos);
+                parsing_action = ParsingAction::Compress;
+                return ErrorCode::Success;
+            }
             if (false == output_buffer->has_timestamp()
-                && next_token.m_type_ids_ptr->at(0) == (uint32_t)SymbolId::TokenNewlineTimestamp)
+                && 0 < next_token.get_length() && next_token.get_char(0) == '\n')
             {
                 // TODO: combine the below with found_start_of_next_message
                 // into 1 function
-- 
2.43.0


From c130e7f08e83f5be01c3957b1e2e92914843d2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 09/42] fix: flag an event as multi-line when only one token
 follows the newline

---
 src/log_surgeon/LogParser.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index 989681d..eb78b1b 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -306,19 +306,20 @@ auto LogParser::generate_log_event_view_metadata() -> void {
     if (false == m_log_event_view->m_log_output_buffer->has_timestamp()) {
         start = 1;
     }
-    uint32_t first_newline_pos{0};
+    bool has_newline{false};
+    bool has_text_after_newline{false};
     for (uint32_t i = start; i < m_log_event_view->m_log_output_buffer->pos(); i++) {
         Token* token = &m_log_event_view->m_log_output_buffer->get_mutable_token(i);
         m_log_event_view->add_token(token->m_type_ids_ptr->at(0), token);
-        if (token->get_delimiter() == "\n" && first_newline_pos == 0) {
-            first_newline_pos = i;
+        if (has_newline) {
+            has_text_after_newline = true;
+        } else if (0 < i && "\n" == token->get_delimiter()) {
+            has_newline = true;
+            has_text_after_newline = 1 < token->get_length();
         }
     }
-    // To be a multiline log there must be at least one token between the
-    // newline token and the last token in the output buffer.
-    if (m_log_event_view->m_log_output_buffer->has_timestamp() && 0 < first_newline_pos
-        && first_newline_pos + 1 < m_log_event_view->m_log_output_buffer->pos())
-    {
+    // To be a multiline log there must be text after a newline.
+    if (m_log_event_view->m_log_output_buffer->has_timestamp() && has_text_after_newline) {
         m_log_event_view->set_multiline(true);
     }
 }
-- 
2.43.0


From 65859c19572cf611f84d58e0b0a99ff677a4f967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 10/42] fix: continue a schema string at the unread part
 instead of at its beginning

---
 src/log_surgeon/SchemaParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 5676026..7e099cc 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -84,8 +84,8 @@ auto SchemaParser::try_schema_file(string const& schema_file_path) -> unique_ptr
 }
 
 auto SchemaParser::try_schema_string(string_view const schema_string) -> unique_ptr<SchemaAST> {
+    uint32_t unparsed_string_pos = 0;
     Reader reader{[&](char* dst_buf, size_t count, size_t& read_to) -> ErrorCode {
-        uint32_t unparsed_string_pos = 0;
         std::span<char> const buf{dst_buf, count};
         if (unparsed_string_pos + count > schema_string.length()) {
             count = schema_string.length() - unparsed_string_pos;
-- 
2.43.0


From b42bf964650a8589dce08bf67c026410dd77c39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 11/42] fix: grow the buffer for schema tokens that are longer
 than it

---
 src/log_surgeon/LALR1Parser.hpp |  1 +
 src/log_surgeon/LALR1Parser.tpp | 12 +++++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/log_surgeon/LALR1Parser.hpp b/src/log_surgeon/LALR1Parser.hpp
index c31e78e..721af45 100644
--- a/src/log_surgeon/LALR1Parser.hpp
+++ b/src/log_surgeon/LALR1Parser.hpp
@@ -287,6 +287,7 @@ protected:
     std::unordered_map<uint32_t, std::vector<Production*>> m_non_terminals;
     uint32_t m_root_production_id{0};
     ParserInputBuffer m_input_buffer;
+    Reader* m_reader{nullptr};
 
 private:
     /**
diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index 2edfa29..4c20def 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -631,6 +631,7 @@ auto LALR1Parser<NFAStateType, DFAStateType>::report_error() -> std::string {
 template <typename NFAStateType, typename DFAStateType>
 auto LALR1Parser<NFAStateType, DFAStateType>::parse(Reader& reader) -> NonTerminal {
     reset();
+    m_reader = &reader;
     m_parse_stack_states.push(m_root_item_set_ptr);
     bool accept = false;
     while (true) {
@@ -667,9 +668,14 @@ template <typename NFAStateType, typename DFAStateType>
 auto LALR1Parser<NFAStateType, DFAStateType>::get_next_symbol() -> Token {
     if (m_next_token == std::nullopt) {
         Token token;
-        if (ErrorCode error = this->m_lexer.scan(m_input_buffer, token);
-            ErrorCode::Success != error)
-        {
+        ErrorCode error = this->m_lexer.scan(m_input_buffer, token);
+        while (ErrorCode::BufferOutOfBounds == error) {
+            // The token may be longer than the buffer
+            this->m_lexer.increase_buffer_capacity(m_input_buffer);
+            m_input_buffer.read_if_safe(*m_reader);
+            error = this->m_lexer.scan(m_input_buffer, token);
+        }
+        if (ErrorCode::Success != error) {
             throw std::runtime_error("Error scanning in lexer.");
         }
         return token;
-- 
2.43.0


From 909d523e34b5cafdfdb1845a1feda816ebf310cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 12/42] fix: report a schema rule that is too long and forget
 failed parses

---
 src/log_surgeon/LALR1Parser.cpp | 5 +++++
 src/log_surgeon/LALR1Parser.tpp | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/log_surgeon/LALR1Parser.cpp b/src/log_surgeon/LALR1Parser.cpp
index 5268091..8a0410f 100644
--- a/src/log_surgeon/LALR1Parser.cpp
+++ b/src/log_surgeon/LALR1Parser.cpp
@@ -1,5 +1,7 @@
 #include "LALR1Parser.hpp"
 
+#include <stdexcept>
+
 namespace log_surgeon {
 MatchedSymbol NonTerminal::m_all_children[cSizeOfAllChildren];
 
@@ -12,5 +14,8 @@ NonTerminal::NonTerminal(Production* p)
           m_production(p),
           m_ast(nullptr) {
     NonTerminal::m_next_children_start += p->m_body.size();
+    if (NonTerminal::m_next_children_start > cSizeOfAllChildren) {
+        throw std::runtime_error("A schema rule is too long.");
+    }
 }
 }  // namespace log_surgeon
diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index 4c20def..e003df1 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -654,6 +654,7 @@ auto LALR1Parser<NFAStateType, DFAStateType>::parse(Reader& reader) -> NonTermin
 template <typename NFAStateType, typename DFAStateType>
 void LALR1Parser<NFAStateType, DFAStateType>::reset() {
     m_next_token = std::nullopt;
+    NonTerminal::m_next_children_start = 0;
     while (!m_parse_stack_states.empty()) {
         m_parse_stack_states.pop();
     }
-- 
2.43.0


From 9ea2eec2feac5501460d81db163bcd693f2cb7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:43 +0000
Subject: [PATCH 13/42] fix: tell the two ends of the buffer apart when it
 grows

---
 src/log_surgeon/Lexer.tpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index 5163fdc..393dee4 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -19,14 +19,13 @@
 namespace log_surgeon {
 template <typename NFAStateType, typename DFAStateType>
 void Lexer<NFAStateType, DFAStateType>::flip_states(uint32_t old_storage_size) {
-    if (m_match_pos >= old_storage_size / 2) {
+    // The end of a match follows the start of the buffer, so in the middle it is the last position
+    if (m_match_pos > old_storage_size / 2) {
         m_match_pos -= old_storage_size / 2;
     } else {
         m_match_pos += old_storage_size / 2;
     }
-    // TODO when m_start_pos == old_storage_size / 2, theres two possible cases
-    // currently so both options are potentially wrong
-    if (m_start_pos > old_storage_size / 2) {
+    if (m_start_pos >= old_storage_size / 2) {
         m_start_pos -= old_storage_size / 2;
     } else {
         m_start_pos += old_storage_size / 2;
@@ -344,10 +343,15 @@ auto Lexer<NFAStateType, DFAStateType>::increase_buffer_capacity(ParserInputBuff
     if (old_storage_size < input_buffer.storage().size()) {
         if (flipped_static_buffer) {
             flip_states(old_storage_size);
+        } else if (0 == m_match_pos) {
+            m_match_pos = old_storage_size;
         }
-        if (0 == m_last_match_pos) {
+        if (m_dfa->get_root() == m_prev_state) {
+            // Nothing was read since the last token, so all positions are those of the next
+            // character
             m_last_match_pos = old_storage_size;
             m_start_pos = old_storage_size;
+            m_match_pos = old_storage_size;
         }
     }
 }
-- 
2.43.0


From 26f1dee35079b127db96e9d1c839e2f430237355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 14/42] fix: do not take a short read for the end of the input

---
 src/log_surgeon/ParserInputBuffer.cpp | 30 +++++++++++++++++----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/log_surgeon/ParserInputBuffer.cpp b/src/log_surgeon/ParserInputBuffer.cpp
index 15fde34..353896e 100644
--- a/src/log_surgeon/ParserInputBuffer.cpp
+++ b/src/log_surgeon/ParserInputBuffer.cpp
@@ -39,21 +39,29 @@ auto ParserInputBuffer::read(Reader& reader) -> ErrorCode {
     if (m_last_read_first_half) {
         read_offset = m_storage.size() / 2;
     }
-    if (ErrorCode err = m_storage.read(reader, read_offset, m_storage.size() / 2, bytes_read);
-        ErrorCode::Success != err)
-    {
-        if (ErrorCode::EndOfFile == err) {
+    // A read may return less than what was asked for without being at the end of the input
+    uint32_t const bytes_to_read = m_storage.size() / 2;
+    while (bytes_read < bytes_to_read) {
+        size_t num_bytes{0};
+        ErrorCode const err = m_storage.read(
+                reader,
+                read_offset + bytes_read,
+                bytes_to_read - bytes_read,
+                num_bytes
+        );
+        if (ErrorCode::EndOfFile == err || (ErrorCode::Success == err && 0 == num_bytes)) {
             m_finished_reading_input = true;
+            if (0 == bytes_read) {
+                return ErrorCode::EndOfFile;
+            }
+            break;
+        }
+        if (ErrorCode::Success != err) {
+            return err;
         }
-        return err;
+        bytes_read += num_bytes;
     }
     m_last_read_first_half = !m_last_read_first_half;
-    // TODO: This is not a portable check for certain forms of IO
-    // A method from Reader should be used to check if the input source is
-    // finished
-    if (bytes_read < m_storage.size() / 2) {
-        m_finished_reading_input = true;
-    }
     m_pos_last_read_char += bytes_read;
     if (m_pos_last_read_char > m_storage.size()) {
         m_pos_last_read_char -= m_storage.size();
-- 
2.43.0


From 4d93be2bb5435e53326909dd485eb8eb957d3f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 15/42] fix: allow reading into a grown buffer whatever was
 consumed before

---
 src/log_surgeon/ParserInputBuffer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/log_surgeon/ParserInputBuffer.cpp b/src/log_surgeon/ParserInputBuffer.cpp
index 353896e..7eb9a74 100644
--- a/src/log_surgeon/ParserInputBuffer.cpp
+++ b/src/log_surgeon/ParserInputBuffer.cpp
@@ -89,6 +89,8 @@ auto ParserInputBuffer::increase_capacity(uint32_t& old_storage_size, bool& flip
     m_last_read_first_half = true;
     m_pos_last_read_char = new_storage_size - old_storage_size;
     m_storage.set_pos(old_storage_size);
+    // The second half is unused, so reading into it is safe whatever was consumed before
+    m_consumed_pos = old_storage_size - 1;
 }
 
 auto ParserInputBuffer::get_next_character(unsigned char& next_char) -> ErrorCode {
-- 
2.43.0


From 6fa70f5fe43391d242ab6ef323c9e57f0adc74e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 16/42] fix: forget the carried start of the next event when
 the parser is reset

---
 src/log_surgeon/LogParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index eb78b1b..b174be4 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -157,6 +157,7 @@ void LogParser::add_rules(std::unique_ptr<SchemaAST> schema_ast) {
 }
 
 auto LogParser::reset() -> void {
+    m_has_start_of_log = false;
     m_input_buffer.reset();
     m_lexer.reset();
     m_lexer.prepend_start_of_file_char(m_input_buffer);
-- 
2.43.0


From add48872be06498e6f58e6128736c5e207dd8d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 17/42] fix: let a new parser start like a reset one

---
 src/log_surgeon/LogParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log_surgeon/LogParser.cpp b/src/log_surgeon/LogParser.cpp
index b174be4..296a3bd 100644
--- a/src/log_surgeon/LogParser.cpp
+++ b/src/log_surgeon/LogParser.cpp
@@ -34,6 +34,7 @@ LogParser::LogParser(std::unique_ptr<SchemaAST> schema_ast) {
     add_rules(std::move(schema_ast));
     m_lexer.generate();
     m_log_event_view = make_unique<LogEventView>(*this);
+    reset();
 }
 
 auto LogParser::add_delimiters(unique_ptr<ParserAST> const& delimiters) -> void {
-- 
2.43.0


From f78f79497f548db29cdae5452a0afcb1590102d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:39 +0000
Subject: [PATCH 18/42] fix: rewind to the start of an unfinished event that
 has no timestamp

---
 src/log_surgeon/BufferParser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/log_surgeon/BufferParser.cpp b/src/log_surgeon/BufferParser.cpp
index 292029e..e1aadb0 100644
--- a/src/log_surgeon/BufferParser.cpp
+++ b/src/log_surgeon/BufferParser.cpp
@@ -32,10 +32,10 @@ auto BufferParser::parse_next_event(
     LogParser::ParsingAction parsing_action{LogParser::ParsingAction::None};
     ErrorCode error_code = m_log_parser.parse_and_generate_metadata(parsing_action);
     if (ErrorCode::Success != error_code) {
-        if (0 != m_log_parser.get_log_event_view().m_log_output_buffer->pos()) {
-            offset = m_log_parser.get_log_event_view()
-                             .m_log_output_buffer->get_token(0)
-                             .m_start_pos;
+        auto const& output_buffer = m_log_parser.get_log_event_view().m_log_output_buffer;
+        if (0 != output_buffer->pos()) {
+            // Without a timestamp the first token is unused
+            offset = output_buffer->get_token(output_buffer->has_timestamp() ? 0 : 1).m_start_pos;
         }
         reset();
         return error_code;
-- 
2.43.0


From a24f70154c62200928dc0c3e64e0ec7cc7ed76dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:18 +0000
Subject: [PATCH 19/42] fix: start parsing a buffer at the given offset

---
 src/log_surgeon/Lexer.hpp     | 7 +++++++
 src/log_surgeon/Lexer.tpp     | 1 +
 src/log_surgeon/LogParser.hpp | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/src/log_surgeon/Lexer.hpp b/src/log_surgeon/Lexer.hpp
index c8dd8d2..7041071 100644
--- a/src/log_surgeon/Lexer.hpp
+++ b/src/log_surgeon/Lexer.hpp
@@ -111,6 +111,13 @@ public:
      */
     auto increase_buffer_capacity(ParserInputBuffer& input_buffer) -> void;
 
+    /**
+     * @return Whether the lexer was prepared for the start of the input and has read nothing since.
+     */
+    [[nodiscard]] auto is_at_start_of_input() const -> bool {
+        return m_at_start_of_input && m_asked_for_more_data;
+    }
+
     [[nodiscard]] auto get_has_delimiters() const -> bool const& { return m_has_delimiters; }
 
     [[nodiscard]] auto is_delimiter(uint8_t byte) const -> bool const& {
diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index 393dee4..efd60b5 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -377,6 +377,7 @@ void Lexer<NFAStateType, DFAStateType>::prepend_start_of_file_char(ParserInputBu
     m_prev_state = m_dfa->get_root()->next(utf8::cCharStartOfFile);
     m_asked_for_more_data = true;
     m_at_start_of_input = true;
+    m_last_match_pos = input_buffer.storage().pos();
     m_start_pos = input_buffer.storage().pos();
     m_match_pos = input_buffer.storage().pos();
     m_match_line = m_line;
diff --git a/src/log_surgeon/LogParser.hpp b/src/log_surgeon/LogParser.hpp
index 9133914..9225eaf 100644
--- a/src/log_surgeon/LogParser.hpp
+++ b/src/log_surgeon/LogParser.hpp
@@ -86,6 +86,9 @@ public:
     auto set_input_buffer(char* storage, uint32_t size, uint32_t pos, bool finished_reading_input)
             -> void {
         m_input_buffer.set_storage(storage, size, pos, finished_reading_input);
+        if (m_lexer.is_at_start_of_input()) {
+            m_lexer.prepend_start_of_file_char(m_input_buffer);
+        }
     }
 
     /**
-- 
2.43.0


From 561d1890ff36f1964225d73d36c1cc2b156c236c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:06 +0000
Subject: [PATCH 20/42] fix: keep the first token slot unused in copies of
 events without timestamp

---
 src/log_surgeon/LogEvent.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/LogEvent.cpp b/src/log_surgeon/LogEvent.cpp
index 03ad81e..51676b4 100644
--- a/src/log_surgeon/LogEvent.cpp
+++ b/src/log_surgeon/LogEvent.cpp
@@ -87,6 +87,8 @@ LogEvent::LogEvent(LogEventView const& src) : LogEventView{src.get_log_parser()}
         throw std::runtime_error("token buffer_size <= 0");
     }
     m_buffer.resize(buffer_size);
+    // Without a timestamp the first token is unused
+    m_log_output_buffer->set_pos(start);
     uint32_t curr_pos = 0;
     for (uint32_t i = start; i < src.get_log_output_buffer()->pos(); i++) {
         Token& token = src.get_log_output_buffer()->get_mutable_token(i);
@@ -106,7 +108,7 @@ LogEvent::LogEvent(LogEventView const& src) : LogEventView{src.get_log_parser()}
         m_log_output_buffer->set_curr_token(copied_token);
         m_log_output_buffer->advance_to_next_token();
     }
-    for (uint32_t i = 0; i < get_log_output_buffer()->pos(); i++) {
+    for (uint32_t i = start; i < get_log_output_buffer()->pos(); i++) {
         Token& token = get_log_output_buffer()->get_mutable_token(i);
         auto const& token_types = *token.m_type_ids_ptr;
         add_token(token_types[0], &token);
-- 
2.43.0


From 2d4014ff3cbe0f40281cc10236a5e0d14002dc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:30 +0000
Subject: [PATCH 21/42] fix: leave the offset at the next event when its first
 token was already scanned

---
 src/log_surgeon/BufferParser.cpp |  2 +-
 src/log_surgeon/LogParser.hpp    | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/BufferParser.cpp b/src/log_surgeon/BufferParser.cpp
index e1aadb0..d42b5ce 100644
--- a/src/log_surgeon/BufferParser.cpp
+++ b/src/log_surgeon/BufferParser.cpp
@@ -43,7 +43,7 @@ auto BufferParser::parse_next_event(
     if (LogParser::ParsingAction::CompressAndFinish == parsing_action) {
         m_done = true;
     }
-    offset = m_log_parser.get_input_pos();
+    offset = m_log_parser.get_next_event_pos();
     return ErrorCode::Success;
 }
 }  // namespace log_surgeon
diff --git a/src/log_surgeon/LogParser.hpp b/src/log_surgeon/LogParser.hpp
index 9225eaf..83c330b 100644
--- a/src/log_surgeon/LogParser.hpp
+++ b/src/log_surgeon/LogParser.hpp
@@ -85,6 +85,10 @@ public:
      */
     auto set_input_buffer(char* storage, uint32_t size, uint32_t pos, bool finished_reading_input)
             -> void {
+        if (m_has_start_of_log && m_start_of_log_message.m_start_pos == pos) {
+            // The first token of the event at pos was already scanned
+            pos = get_input_pos();
+        }
         m_input_buffer.set_storage(storage, size, pos, finished_reading_input);
         if (m_lexer.is_at_start_of_input()) {
             m_lexer.prepend_start_of_file_char(m_input_buffer);
@@ -96,6 +100,13 @@ public:
      */
     auto get_input_pos() -> uint32_t { return m_input_buffer.storage().pos(); }
 
+    /**
+     * @return the position of the next log event inside the input buffer.
+     */
+    auto get_next_event_pos() -> uint32_t {
+        return m_has_start_of_log ? m_start_of_log_message.m_start_pos : get_input_pos();
+    }
+
     /**
      * Reads into the input buffer if only consumed data will be overwritten.
      * @param reader to use for IO.
-- 
2.43.0


From 357ff7cd405c5892e1d545906738817431e064cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 22/42] fix: report repetition counts that do not fit instead
 of overflowing

---
 src/log_surgeon/SchemaParser.cpp | 35 +++++++++++++++++---------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 7e099cc..6147ea2 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -1,6 +1,5 @@
 #include "SchemaParser.hpp"
 
-#include <cmath>
 #include <memory>
 #include <span>
 #include <stdexcept>
@@ -216,14 +215,26 @@ static auto regex_match_one_or_more_rule(NonTerminal* m) -> unique_ptr<ParserAST
     ));
 }
 
+/**
+ * @param integer
+ * @return The value of the repetition count.
+ * @throw std::runtime_error if the value cannot be represented.
+ */
+static auto get_repetition_count(RegexASTIntegerByte const& integer) -> uint32_t {
+    uint64_t count{0};
+    for (uint32_t const digit : integer.get_digits()) {
+        count = count * 10 + digit;
+        if (count > UINT32_MAX) {
+            throw std::runtime_error("Repetition count in a regex is too large");
+        }
+    }
+    return static_cast<uint32_t>(count);
+}
+
 static auto regex_match_exactly_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
     auto& r3 = m->non_terminal_cast(2)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
     auto* r3_ptr = dynamic_cast<RegexASTIntegerByte*>(r3.get());
-    uint32_t reps = 0;
-    uint32_t r3_size = r3_ptr->get_digits().size();
-    for (uint32_t i = 0; i < r3_size; i++) {
-        reps += r3_ptr->get_digit(i) * (uint32_t)pow(10, r3_size - i - 1);
-    }
+    uint32_t const reps = get_repetition_count(*r3_ptr);
     auto& r1 = m->non_terminal_cast(0)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
     return unique_ptr<ParserAST>(new ParserValueRegex(
             unique_ptr<RegexASTByte>(new RegexASTMultiplicationByte(std::move(r1), reps, reps))
@@ -233,18 +244,10 @@ static auto regex_match_exactly_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
 static auto regex_match_range_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
     auto& r3 = m->non_terminal_cast(2)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
     auto* r3_ptr = dynamic_cast<RegexASTIntegerByte*>(r3.get());
-    uint32_t min = 0;
-    uint32_t r3_size = r3_ptr->get_digits().size();
-    for (uint32_t i = 0; i < r3_size; i++) {
-        min += r3_ptr->get_digit(i) * (uint32_t)pow(10, r3_size - i - 1);
-    }
+    uint32_t const min = get_repetition_count(*r3_ptr);
     auto& r5 = m->non_terminal_cast(4)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
     auto* r5_ptr = dynamic_cast<RegexASTIntegerByte*>(r5.get());
-    uint32_t max = 0;
-    uint32_t r5_size = r5_ptr->get_digits().size();
-    for (uint32_t i = 0; i < r5_size; i++) {
-        max += r5_ptr->get_digit(i) * (uint32_t)pow(10, r5_size - i - 1);
-    }
+    uint32_t const max = get_repetition_count(*r5_ptr);
     auto& r1 = m->non_terminal_cast(0)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
 
     if (0 == min) {
-- 
2.43.0


From 690f210ed3788bcdbe02e38106894500e54bf60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 23/42] fix: do not take a maximum repetition count of zero for
 no limit

---
 src/log_surgeon/SchemaParser.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 6147ea2..5e47fc2 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -235,6 +235,10 @@ static auto regex_match_exactly_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
     auto& r3 = m->non_terminal_cast(2)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
     auto* r3_ptr = dynamic_cast<RegexASTIntegerByte*>(r3.get());
     uint32_t const reps = get_repetition_count(*r3_ptr);
+    if (0 == reps) {
+        // A maximum of 0 stands for no limit in `RegexASTMultiplication`
+        return make_unique<ParserValueRegex>(make_unique<RegexASTEmptyByte>());
+    }
     auto& r1 = m->non_terminal_cast(0)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
     return unique_ptr<ParserAST>(new ParserValueRegex(
             unique_ptr<RegexASTByte>(new RegexASTMultiplicationByte(std::move(r1), reps, reps))
@@ -248,6 +252,15 @@ static auto regex_match_range_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
     auto& r5 = m->non_terminal_cast(4)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
     auto* r5_ptr = dynamic_cast<RegexASTIntegerByte*>(r5.get());
     uint32_t const max = get_repetition_count(*r5_ptr);
+    if (min > max) {
+        throw std::runtime_error(
+                "Minimum repetition count in a regex is larger than the maximum repetition count"
+        );
+    }
+    if (0 == max) {
+        // A maximum of 0 stands for no limit in `RegexASTMultiplication`
+        return make_unique<ParserValueRegex>(make_unique<RegexASTEmptyByte>());
+    }
     auto& r1 = m->non_terminal_cast(0)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
 
     if (0 == min) {
-- 
2.43.0


From ce022a32fcab2ad5d161a198ae211807a0db644f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 24/42] fix: report delimiters that are not single characters

---
 src/log_surgeon/SchemaParser.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 5e47fc2..8b524cb 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -417,18 +417,31 @@ static auto regex_white_space_rule(NonTerminal* /* m */) -> unique_ptr<ParserAST
     );
 }
 
+/**
+ * @param regex
+ * @return The delimiter that `regex` stands for.
+ * @throw std::runtime_error if `regex` is not a single character.
+ */
+static auto get_delimiter_character(RegexASTByte const* regex) -> uint32_t {
+    auto const* literal = dynamic_cast<RegexASTLiteralByte const*>(regex);
+    if (nullptr == literal) {
+        throw std::runtime_error("Each delimiter must be a single character");
+    }
+    return literal->get_character();
+}
+
 static auto existing_delimiter_string_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
     unique_ptr<ParserAST>& r1 = m->non_terminal_cast(0)->get_parser_ast();
     auto& r2 = m->non_terminal_cast(1)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
     auto* r1_ptr = dynamic_cast<DelimiterStringAST*>(r1.get());
-    uint32_t character = dynamic_cast<RegexASTLiteralByte*>(r2.get())->get_character();
+    uint32_t character = get_delimiter_character(r2.get());
     r1_ptr->add_delimiter(character);
     return std::move(r1);
 }
 
 static auto new_delimiter_string_rule(NonTerminal* m) -> unique_ptr<ParserAST> {
     auto& r1 = m->non_terminal_cast(0)->get_parser_ast()->get<unique_ptr<RegexASTByte>>();
-    uint32_t character = dynamic_cast<RegexASTLiteralByte*>(r1.get())->get_character();
+    uint32_t character = get_delimiter_character(r1.get());
     return make_unique<DelimiterStringAST>(character);
 }
 
-- 
2.43.0


From bd8f9d3b71da7d6ee55b733f3d1eafddf9c496a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 25/42] fix: report ranges that are out of order and allow
 ranges of one character

---
 src/log_surgeon/finite_automata/RegexAST.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index b4a0d09..345912f 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -1037,7 +1037,9 @@ RegexASTGroup<NFAStateType>::RegexASTGroup(
         );
     }
     m_negate = false;
-    assert(right->get_character() > left->get_character());
+    if (right->get_character() < left->get_character()) {
+        throw std::runtime_error("A range in a bracket expression in the schema is out of order.");
+    }
     m_ranges.emplace_back(left->get_character(), right->get_character());
 }
 
-- 
2.43.0


From bffcca97ca8d2a32da0268ed3b15063f64c00fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 26/42] fix: let the complement of an empty group match any
 character

---
 src/log_surgeon/finite_automata/RegexAST.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index 345912f..7e8c86d 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -1089,7 +1089,7 @@ auto RegexASTGroup<NFAStateType>::complement(std::vector<Range> const& ranges
         }
         low = end + 1;
     }
-    if (low > 0) {
+    if (low <= cUnicodeMax) {
         complemented.emplace_back(low, cUnicodeMax);
     }
     return complemented;
-- 
2.43.0


From 378ad31ead3aa7275ed613b26cff2bc27b3baca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 27/42] fix: accept whitespace escapes in bracket expressions

---
 src/log_surgeon/SchemaParser.cpp             |  4 ++--
 src/log_surgeon/finite_automata/RegexAST.hpp | 10 ++++------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index 8b524cb..cf1a912 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -601,12 +601,12 @@ void SchemaParser::add_productions() {
     add_production(
             "IncompleteGroup",
             {"IncompleteGroup", "WhiteSpace"},
-            regex_add_literal_existing_group_rule
+            regex_add_range_existing_group_rule
     );
     add_production("IncompleteGroup", {"Lbracket", "LiteralRange"}, regex_add_range_new_group_rule);
     add_production("IncompleteGroup", {"Lbracket", "Digit"}, regex_add_range_new_group_rule);
     add_production("IncompleteGroup", {"Lbracket", "Literal"}, regex_add_literal_new_group_rule);
-    add_production("IncompleteGroup", {"Lbracket", "WhiteSpace"}, regex_add_literal_new_group_rule);
+    add_production("IncompleteGroup", {"Lbracket", "WhiteSpace"}, regex_add_range_new_group_rule);
     add_production("IncompleteGroup", {"Lbracket", "Hat"}, regex_complement_incomplete_group_rule);
     add_production("LiteralRange", {"Literal", "Dash", "Literal"}, regex_range_rule);
     add_production("Literal", {"Backslash", "t"}, regex_tab_rule);
diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index 7e8c86d..b633f49 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -1003,8 +1003,7 @@ template <typename NFAStateType>
 RegexASTGroup<NFAStateType>::RegexASTGroup(RegexASTGroup const* left, RegexASTGroup const* right)
         : m_negate(left->m_negate),
           m_ranges(left->m_ranges) {
-    assert(right->m_ranges.size() == 1);  // Only add LiteralRange
-    m_ranges.push_back(right->m_ranges[0]);
+    m_ranges.insert(m_ranges.end(), right->m_ranges.cbegin(), right->m_ranges.cend());
 }
 
 template <typename NFAStateType>
@@ -1019,10 +1018,9 @@ RegexASTGroup<NFAStateType>::RegexASTGroup(RegexASTLiteral<NFAStateType> const*
 }
 
 template <typename NFAStateType>
-RegexASTGroup<NFAStateType>::RegexASTGroup(RegexASTGroup const* right) : m_negate(false) {
-    assert(right->m_ranges.size() == 1);  // Only add LiteralRange
-    m_ranges.push_back(right->m_ranges[0]);
-}
+RegexASTGroup<NFAStateType>::RegexASTGroup(RegexASTGroup const* right)
+        : m_negate(false),
+          m_ranges(right->m_ranges) {}
 
 template <typename NFAStateType>
 RegexASTGroup<NFAStateType>::RegexASTGroup(
-- 
2.43.0


From 719c30230e98169e39cfa5079ddf9fd8077107b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:21 +0000
Subject: [PATCH 28/42] fix: report a line read that fails without reading the
 file

---
 src/log_surgeon/FileReader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log_surgeon/FileReader.cpp b/src/log_surgeon/FileReader.cpp
index edaa2b3..31521ba 100644
--- a/src/log_surgeon/FileReader.cpp
+++ b/src/log_surgeon/FileReader.cpp
@@ -72,6 +72,7 @@ auto FileReader::try_read_to_delimiter(char delim, bool keep_delimiter, bool app
         if (0 != feof(m_file)) {
             return ErrorCode::EndOfFile;
         }
+        return ErrorCode::Errno;
     }
     if (false == keep_delimiter && delim == m_get_delim_buf[num_bytes_read - 1]) {
         --num_bytes_read;
-- 
2.43.0


From ce94d02619844bccdab6fce9b957ce028777ef80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:45 +0000
Subject: [PATCH 29/42] fix: find nothing in an empty interval tree

---
 src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
index e5b2413..1a1875a 100644
--- a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
+++ b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
@@ -55,7 +55,9 @@ template <typename T>
 auto UnicodeIntervalTree<T>::find(Interval interval
 ) -> std::unique_ptr<std::vector<typename UnicodeIntervalTree<T>::Data>> {
     std::unique_ptr<std::vector<Data>> results(new std::vector<Data>);
-    m_root->find(interval, results.get());
+    if (m_root != nullptr) {
+        m_root->find(interval, results.get());
+    }
     return results;
 }
 
-- 
2.43.0


From b80c82b36b773556c9023e2b4469f68396ec7d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:45 +0000
Subject: [PATCH 30/42] fix: remove intervals from the right subtrees of an
 interval tree

---
 src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
index 1a1875a..0eb567c 100644
--- a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
+++ b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
@@ -109,7 +109,11 @@ auto UnicodeIntervalTree<T>::Node::pop(
         node->update();
         return Node::balance(std::move(node));
     }
-    assert(node->overlaps(interval));
+    if (false == node->overlaps(interval)) {
+        node->m_right = Node::pop(std::move(node->m_right), interval, ret);
+        node->update();
+        return Node::balance(std::move(node));
+    }
     ret->reset(node.release());
     if (((*ret)->m_left == nullptr) && ((*ret)->m_right == nullptr)) {
         return nullptr;
@@ -133,7 +137,6 @@ auto UnicodeIntervalTree<T>::Node::pop_min(std::unique_ptr<Node> node, std::uniq
         -> std::unique_ptr<typename UnicodeIntervalTree<T>::Node> {
     assert(node != nullptr);
     if (node->m_left == nullptr) {
-        assert(node->m_right != nullptr);
         std::unique_ptr<Node> right(std::move(node->m_right));
         ret->reset(node.release());
         return right;
-- 
2.43.0


From 34790c2d4c7c1fc1b3ae8bb6499d1d8b1b0c502f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:45 +0000
Subject: [PATCH 31/42] fix: balance an interval tree by the heights of its
 subtrees

---
 src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
index 0eb567c..bffd05a 100644
--- a/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
+++ b/src/log_surgeon/finite_automata/UnicodeIntervalTree.tpp
@@ -153,11 +153,11 @@ auto UnicodeIntervalTree<T>::Node::update() -> void {
         m_lower = m_interval.first;
         m_upper = m_interval.second;
     } else if (m_left == nullptr) {
-        m_height = 2;
+        m_height = m_right->m_height + 1;
         m_lower = m_interval.first;
         m_upper = std::max(m_interval.second, m_right->m_upper);
     } else if (m_right == nullptr) {
-        m_height = 2;
+        m_height = m_left->m_height + 1;
         m_lower = m_left->m_lower;
         m_upper = std::max(m_interval.second, m_left->m_upper);
     } else {
@@ -169,7 +169,8 @@ auto UnicodeIntervalTree<T>::Node::update() -> void {
 
 template <class T>
 auto UnicodeIntervalTree<T>::Node::balance_factor() -> int {
-    return (m_right != nullptr ? m_right.get() : 0) - (m_left != nullptr ? m_left.get() : 0);
+    return static_cast<int>(m_right != nullptr ? m_right->m_height : 0)
+           - static_cast<int>(m_left != nullptr ? m_left->m_height : 0);
 }
 
 template <class T>
-- 
2.43.0


From e126332ec181fe74351c168c10a05acb47fa9bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:19 +0000
Subject: [PATCH 32/42] fix: report a text without variable that is added to a
 schema

---
 src/log_surgeon/Schema.cpp | 4 ++++
 src/log_surgeon/Schema.hpp | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/log_surgeon/Schema.cpp b/src/log_surgeon/Schema.cpp
index e2008b1..46e0750 100644
--- a/src/log_surgeon/Schema.cpp
+++ b/src/log_surgeon/Schema.cpp
@@ -1,5 +1,6 @@
 #include "Schema.hpp"
 
+#include <stdexcept>
 #include <string>
 
 namespace log_surgeon {
@@ -12,6 +13,9 @@ Schema::Schema(std::string const& schema_file_path)
 
 auto Schema::add_variable(std::string_view const var_schema, int const priority) const -> void {
     std::unique_ptr<SchemaAST> const schema_ast = SchemaParser::try_schema_string(var_schema);
+    if (schema_ast->m_schema_vars.empty()) {
+        throw std::runtime_error("The schema to add declares no variable");
+    }
     m_schema_ast->add_schema_var(std::move(schema_ast->m_schema_vars[0]), priority);
 }
 }  // namespace log_surgeon
diff --git a/src/log_surgeon/Schema.hpp b/src/log_surgeon/Schema.hpp
index 572d903..1c89f0f 100644
--- a/src/log_surgeon/Schema.hpp
+++ b/src/log_surgeon/Schema.hpp
@@ -25,6 +25,7 @@ public:
      * to set to lowest).
      * @param var_schema
      * @param priority
+     * @throw std::runtime_error if `var_schema` declares no variable.
      */
     auto add_variable(std::string_view var_schema, int priority) const -> void;
 
-- 
2.43.0


From 3a7ab9b61852c02aa2e86dd2685cdddc5e69d158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:08 +0000
Subject: [PATCH 33/42] fix: reuse the storage of symbols after every line of a
 schema

---
 src/log_surgeon/SchemaParser.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index cf1a912..d31b2df 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -103,6 +103,16 @@ auto SchemaParser::try_schema_string(string_view const schema_string) -> unique_
     return sp.generate_schema_ast(reader);
 }
 
+/**
+ * Reuses the storage of the children once half of it was used. At the end of each line of the schema
+ * none of the children is needed anymore.
+ */
+static auto reuse_children() -> void {
+    if (NonTerminal::m_next_children_start > cSizeOfAllChildren / 2) {
+        NonTerminal::m_next_children_start = 0;
+    }
+}
+
 static auto new_identifier_rule(NonTerminal* m) -> unique_ptr<IdentifierAST> {
     string r1 = m->token_cast(0)->to_string();
     return make_unique<IdentifierAST>(IdentifierAST(r1[0]));
@@ -146,6 +156,7 @@ static auto existing_schema_rule_with_delimiter(NonTerminal* m) -> unique_ptr<Sc
     std::unique_ptr<SchemaAST> schema_ast(dynamic_cast<SchemaAST*>(r1.release()));
     unique_ptr<ParserAST>& r5 = m->non_terminal_cast(4)->get_parser_ast();
     schema_ast->add_delimiters(std::move(r5));
+    reuse_children();
     return schema_ast;
 }
 
@@ -155,9 +166,7 @@ auto SchemaParser::existing_schema_rule(NonTerminal* m) -> unique_ptr<SchemaAST>
     unique_ptr<ParserAST>& r2 = m->non_terminal_cast(2)->get_parser_ast();
     schema_ast->add_schema_var(std::move(r2));
     // Can reset the buffers at this point and allow reading
-    if (NonTerminal::m_next_children_start > cSizeOfAllChildren / 2) {
-        NonTerminal::m_next_children_start = 0;
-    }
+    reuse_children();
     return schema_ast;
 }
 
@@ -173,6 +182,7 @@ static auto regex_capture_rule(NonTerminal const* m) -> std::unique_ptr<ParserAS
 static auto identity_rule_ParserASTSchema(NonTerminal* m) -> unique_ptr<SchemaAST> {
     unique_ptr<ParserAST>& r1 = m->non_terminal_cast(0)->get_parser_ast();
     std::unique_ptr<SchemaAST> schema_ast(dynamic_cast<SchemaAST*>(r1.release()));
+    reuse_children();
     return schema_ast;
 }
 
-- 
2.43.0


From 75dca5e7f1d2a032c1ead8d9f40361e562cce20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:24 +0000
Subject: [PATCH 34/42] fix: give copies of patterns their own tags

---
 src/log_surgeon/finite_automata/RegexAST.hpp | 38 +++++++++++---------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/log_surgeon/finite_automata/RegexAST.hpp b/src/log_surgeon/finite_automata/RegexAST.hpp
index b633f49..8888958 100644
--- a/src/log_surgeon/finite_automata/RegexAST.hpp
+++ b/src/log_surgeon/finite_automata/RegexAST.hpp
@@ -460,10 +460,12 @@ public:
             std::unique_ptr<RegexAST<NFAStateType>> right
     );
 
+    // The tags of the copy are those of its own subtrees
     RegexASTOr(RegexASTOr const& rhs)
-            : RegexAST<NFAStateType>(rhs),
-              m_left(std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_left->clone())),
-              m_right(std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_right->clone())) {}
+            : RegexASTOr(
+                      std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_left->clone()),
+                      std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_right->clone())
+              ) {}
 
     /**
      * Used for cloning a unique_pointer of type RegexASTOr
@@ -523,10 +525,12 @@ public:
             std::unique_ptr<RegexAST<NFAStateType>> right
     );
 
+    // The tags of the copy are those of its own subtrees
     RegexASTCat(RegexASTCat const& rhs)
-            : RegexAST<NFAStateType>(rhs),
-              m_left(std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_left->clone())),
-              m_right(std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_right->clone())) {}
+            : RegexASTCat(
+                      std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_left->clone()),
+                      std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_right->clone())
+              ) {}
 
     /**
      * Used for cloning a unique_pointer of type RegexASTCat
@@ -591,11 +595,13 @@ public:
             uint32_t max
     );
 
+    // The tags of the copy are those of its own subtree
     RegexASTMultiplication(RegexASTMultiplication const& rhs)
-            : RegexAST<NFAStateType>(rhs),
-              m_operand(std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_operand->clone())),
-              m_min(rhs.m_min),
-              m_max(rhs.m_max) {}
+            : RegexASTMultiplication(
+                      std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_operand->clone()),
+                      rhs.m_min,
+                      rhs.m_max
+              ) {}
 
     /**
      * Used for cloning a unique_pointer of type RegexASTMultiplication
@@ -689,14 +695,12 @@ public:
         RegexAST<NFAStateType>::add_subtree_positive_tags({m_tag.get()});
     }
 
+    // The tags of the copy are its own and those of its own subtree
     RegexASTCapture(RegexASTCapture const& rhs)
-            : RegexAST<NFAStateType>{rhs},
-              m_group_regex_ast{
-                      std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_group_regex_ast->clone())
-              },
-              m_tag{std::make_unique<Tag>(*rhs.m_tag)} {
-        RegexAST<NFAStateType>::set_subtree_positive_tags(rhs.get_subtree_positive_tags());
-    }
+            : RegexASTCapture(
+                      std::unique_ptr<RegexAST<NFAStateType>>(rhs.m_group_regex_ast->clone()),
+                      std::make_unique<Tag>(*rhs.m_tag)
+              ) {}
 
     /**
      * Used for cloning a `unique_pointer` of type `RegexASTCapture`.
-- 
2.43.0


From 61f9e6941f770746133840a613463760ba064347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:41 +0000
Subject: [PATCH 35/42] fix: scan texts that match nothing before a wildcard,
 and try '?' on no delimiter

---
 src/log_surgeon/Lexer.tpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/log_surgeon/Lexer.tpp b/src/log_surgeon/Lexer.tpp
index efd60b5..7a3ce73 100644
--- a/src/log_surgeon/Lexer.tpp
+++ b/src/log_surgeon/Lexer.tpp
@@ -238,15 +238,18 @@ auto Lexer<NFAStateType, DFAStateType>::scan_with_wildcard(
             m_prev_state = state;
             return err;
         }
+        if (nullptr == state && false == input_buffer.log_fully_consumed()) {
+            continue;
+        }
         if ((m_is_delimiter[next_char] || input_buffer.log_fully_consumed() || !m_has_delimiters)
-            && state->is_accepting())
+            && nullptr != state && state->is_accepting())
         {
             m_match = true;
             m_type_ids = &(state->get_matching_variable_ids());
             m_match_pos = prev_byte_buf_pos;
             m_match_line = m_line;
         }
-        DFAStateType const* next = state->next(next_char);
+        DFAStateType const* next = nullptr == state ? nullptr : state->next(next_char);
         if (next_char == '\n') {
             m_line++;
             if (m_has_delimiters && !m_match) {
@@ -258,8 +261,11 @@ auto Lexer<NFAStateType, DFAStateType>::scan_with_wildcard(
                 m_match_line = m_line;
             }
         }
-        if (input_buffer.log_fully_consumed() || next == nullptr) {
-            assert(input_buffer.log_fully_consumed());
+        if (next == nullptr && false == input_buffer.log_fully_consumed()) {
+            // Nothing that starts like this is a variable, so the rest is read as static text
+            m_match = false;
+        }
+        if (input_buffer.log_fully_consumed()) {
             if (!m_match || (m_match && m_match_pos != input_buffer.storage().pos())) {
                 token
                         = Token{m_last_match_pos,
@@ -274,8 +280,11 @@ auto Lexer<NFAStateType, DFAStateType>::scan_with_wildcard(
                 // BFS (keep track of m_type_ids)
                 if (wildcard == '?') {
                     for (uint32_t byte = 0; byte < cSizeOfByte; byte++) {
+                        if (m_is_delimiter[byte]) {
+                            continue;
+                        }
                         DFAStateType* next_state = state->next(byte);
-                        if (next_state->is_accepting() == false) {
+                        if (next_state == nullptr || next_state->is_accepting() == false) {
                             token
                                     = Token{m_last_match_pos,
                                             input_buffer.storage().pos(),
-- 
2.43.0


From 6aa7ec42159296fd41a96a8bd6bd61e40d971ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:51 +0000
Subject: [PATCH 36/42] fix: report a schema file that fails to be read instead
 of using what was read

---
 src/log_surgeon/LALR1Parser.hpp  |  6 ++++++
 src/log_surgeon/LALR1Parser.tpp  | 15 +++++++++++++--
 src/log_surgeon/SchemaParser.cpp |  6 +-----
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/log_surgeon/LALR1Parser.hpp b/src/log_surgeon/LALR1Parser.hpp
index 721af45..3a8220c 100644
--- a/src/log_surgeon/LALR1Parser.hpp
+++ b/src/log_surgeon/LALR1Parser.hpp
@@ -359,6 +359,12 @@ private:
      */
     auto get_next_symbol() -> Token;
 
+    /**
+     * Reads more of the input if it can be read without overwriting input that isn't consumed yet.
+     * @throw std::runtime_error if the reader fails.
+     */
+    auto read_input() -> void;
+
     /**
      * Tries all symbols in the language that the next token may be until the
      * first non-error symbol is tried
diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index e003df1..230a0a5 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -635,7 +635,7 @@ auto LALR1Parser<NFAStateType, DFAStateType>::parse(Reader& reader) -> NonTermin
     m_parse_stack_states.push(m_root_item_set_ptr);
     bool accept = false;
     while (true) {
-        m_input_buffer.read_if_safe(reader);
+        read_input();
         Token next_terminal = get_next_symbol();
         if (parse_advance(next_terminal, &accept)) {
             break;
@@ -673,7 +673,7 @@ auto LALR1Parser<NFAStateType, DFAStateType>::get_next_symbol() -> Token {
         while (ErrorCode::BufferOutOfBounds == error) {
             // The token may be longer than the buffer
             this->m_lexer.increase_buffer_capacity(m_input_buffer);
-            m_input_buffer.read_if_safe(*m_reader);
+            read_input();
             error = this->m_lexer.scan(m_input_buffer, token);
         }
         if (ErrorCode::Success != error) {
@@ -686,6 +686,17 @@ auto LALR1Parser<NFAStateType, DFAStateType>::get_next_symbol() -> Token {
     return s;
 }
 
+template <typename NFAStateType, typename DFAStateType>
+auto LALR1Parser<NFAStateType, DFAStateType>::read_input() -> void {
+    auto const error = m_input_buffer.read_if_safe(*m_reader);
+    if (ErrorCode::Success != error && ErrorCode::EndOfFile != error) {
+        throw std::runtime_error(
+                "Failed to read the input, error_code="
+                + std::to_string(static_cast<std::underlying_type_t<ErrorCode>>(error))
+        );
+    }
+}
+
 template <typename NFAStateType, typename DFAStateType>
 auto LALR1Parser<NFAStateType, DFAStateType>::parse_advance(Token& next_token, bool* accept)
         -> bool {
diff --git a/src/log_surgeon/SchemaParser.cpp b/src/log_surgeon/SchemaParser.cpp
index d31b2df..41a21e7 100644
--- a/src/log_surgeon/SchemaParser.cpp
+++ b/src/log_surgeon/SchemaParser.cpp
@@ -71,11 +71,7 @@ auto SchemaParser::try_schema_file(string const& schema_file_path) -> unique_ptr
     }
     SchemaParser sp;
     Reader reader{[&](char* buf, size_t count, size_t& read_to) -> ErrorCode {
-        schema_reader.read(buf, count, read_to);
-        if (read_to == 0) {
-            return ErrorCode::EndOfFile;
-        }
-        return ErrorCode::Success;
+        return schema_reader.read(buf, count, read_to);
     }};
     unique_ptr<SchemaAST> schema_ast = sp.generate_schema_ast(reader);
     schema_reader.close();
-- 
2.43.0


From c5be1e6239e1634f5b06750dab0c2d2d3490b8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:17 +0000
Subject: [PATCH 37/42] fix: continue a failed read of the input where it
 stopped

---
 src/log_surgeon/ParserInputBuffer.cpp | 13 ++++++++++++-
 src/log_surgeon/ParserInputBuffer.hpp |  2 ++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/ParserInputBuffer.cpp b/src/log_surgeon/ParserInputBuffer.cpp
index 7eb9a74..2b44ad7 100644
--- a/src/log_surgeon/ParserInputBuffer.cpp
+++ b/src/log_surgeon/ParserInputBuffer.cpp
@@ -14,6 +14,7 @@ void ParserInputBuffer::reset() {
     m_finished_reading_input = false;
     m_pos_last_read_char = 0;
     m_last_read_first_half = false;
+    m_num_bytes_in_unfinished_half = 0;
     m_storage.reset();
     m_consumed_pos = m_storage.size() - 1;
 }
@@ -33,7 +34,8 @@ auto ParserInputBuffer::read_is_safe() -> bool {
 }
 
 auto ParserInputBuffer::read(Reader& reader) -> ErrorCode {
-    size_t bytes_read{0};
+    // continue where a read that failed stopped
+    size_t bytes_read{m_num_bytes_in_unfinished_half};
     // read into the correct half of the buffer
     uint32_t read_offset{0};
     if (m_last_read_first_half) {
@@ -57,10 +59,12 @@ auto ParserInputBuffer::read(Reader& reader) -> ErrorCode {
             break;
         }
         if (ErrorCode::Success != err) {
+            m_num_bytes_in_unfinished_half = bytes_read;
             return err;
         }
         bytes_read += num_bytes;
     }
+    m_num_bytes_in_unfinished_half = 0;
     m_last_read_first_half = !m_last_read_first_half;
     m_pos_last_read_char += bytes_read;
     if (m_pos_last_read_char > m_storage.size()) {
@@ -86,6 +90,13 @@ auto ParserInputBuffer::increase_capacity(uint32_t& old_storage_size, bool& flip
         m_storage.copy(old_storage, old_storage + half_old_storage_size, half_old_storage_size);
         flipped_static_buffer = true;
     }
+    // What a failed read left continues the old content
+    uint32_t const read_offset = m_last_read_first_half ? old_storage_size / 2 : 0;
+    m_storage.copy(
+            old_storage + read_offset,
+            old_storage + read_offset + m_num_bytes_in_unfinished_half,
+            old_storage_size
+    );
     m_last_read_first_half = true;
     m_pos_last_read_char = new_storage_size - old_storage_size;
     m_storage.set_pos(old_storage_size);
diff --git a/src/log_surgeon/ParserInputBuffer.hpp b/src/log_surgeon/ParserInputBuffer.hpp
index 3d5f735..db4b799 100644
--- a/src/log_surgeon/ParserInputBuffer.hpp
+++ b/src/log_surgeon/ParserInputBuffer.hpp
@@ -124,6 +124,8 @@ private:
     auto read(Reader& reader) -> ErrorCode;
 
 private:
+    // the number of characters in the half being read into, if reading the rest of it failed
+    uint32_t m_num_bytes_in_unfinished_half{0};
     // the position of the last character read into the buffer
     uint32_t m_pos_last_read_char{0};
     bool m_last_read_first_half{false};
-- 
2.43.0


From 53d967abfab0cc3f48498db2b03ac9d63d24e372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:17 +0000
Subject: [PATCH 38/42] fix: continue an event whose read failed instead of
 dropping its tokens

---
 src/log_surgeon/ReaderParser.cpp | 7 ++++++-
 src/log_surgeon/ReaderParser.hpp | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/ReaderParser.cpp b/src/log_surgeon/ReaderParser.cpp
index bcb5c7d..2f98d34 100644
--- a/src/log_surgeon/ReaderParser.cpp
+++ b/src/log_surgeon/ReaderParser.cpp
@@ -14,17 +14,21 @@ ReaderParser::ReaderParser(std::string const& schema_file_path) : m_log_parser(s
 
 auto ReaderParser::reset_and_set_reader(Reader& reader) -> void {
     m_done = false;
+    m_event_unfinished = false;
     m_log_parser.reset();
     m_reader = reader;
 }
 
 auto ReaderParser::parse_next_event() -> ErrorCode {
-    m_log_parser.reset_log_event_view();
+    if (false == m_event_unfinished) {
+        m_log_parser.reset_log_event_view();
+    }
     if (ErrorCode err = m_log_parser.read_into_input(m_reader);
         ErrorCode::Success != err && ErrorCode::EndOfFile != err)
     {
         return err;
     }
+    m_event_unfinished = false;
     while (true) {
         LogParser::ParsingAction parsing_action{LogParser::ParsingAction::None};
         ErrorCode parse_error = m_log_parser.parse_and_generate_metadata(parsing_action);
@@ -39,6 +43,7 @@ auto ReaderParser::parse_next_event() -> ErrorCode {
             if (ErrorCode err = m_log_parser.read_into_input(m_reader);
                 ErrorCode::Success != err && ErrorCode::EndOfFile != err)
             {
+                m_event_unfinished = true;
                 return err;
             }
         } else {
diff --git a/src/log_surgeon/ReaderParser.hpp b/src/log_surgeon/ReaderParser.hpp
index 9465efb..fdeb81b 100644
--- a/src/log_surgeon/ReaderParser.hpp
+++ b/src/log_surgeon/ReaderParser.hpp
@@ -82,6 +82,8 @@ private:
     Reader m_reader;
     LogParser m_log_parser;
     bool m_done{false};
+    // reading the rest of the current event failed
+    bool m_event_unfinished{false};
 };
 }  // namespace log_surgeon
 
-- 
2.43.0


From 94d841547db794fe680c18fc22fb3b74d107110d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:55 +0000
Subject: [PATCH 39/42] fix: report a schema error at the end of a line on that
 line

---
 src/log_surgeon/LALR1Parser.tpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index 230a0a5..36e0137 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -585,6 +585,10 @@ auto LALR1Parser<NFAStateType, DFAStateType>::report_error() -> std::string {
     m_parse_stack_matches.pop();
     uint32_t line_num = get_line_num(top_symbol);
     Token token = std::get<Token>(top_symbol);
+    if (token.to_string() == "\n") {
+        // The line of a newline token is the one that it starts, but the error is where it is
+        line_num--;
+    }
     std::string consumed_input = get_input_after_last_newline(m_parse_stack_matches);
     std::string error_type{};
     std::string error_indicator;
-- 
2.43.0


From c7e60cfb67c258843d4b3fe2d432337268213e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:47 +0000
Subject: [PATCH 40/42] fix: report a schema that ends too early with a
 complete message

---
 src/log_surgeon/LALR1Parser.tpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index 36e0137..95db39f 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -620,7 +620,11 @@ auto LALR1Parser<NFAStateType, DFAStateType>::report_error() -> std::string {
             }
         }
         error_type.pop_back();
-        error_type += " before '" + unescape(token.to_string()[0]) + "' token";
+        // The token at the end of the input has no text
+        error_type += " before '"
+                      + (token.to_string().empty() ? std::string{cTokenEnd}
+                                                   : unescape(token.to_string()[0]))
+                      + "' token";
     }
     std::string error_string = "Schema:" + std::to_string(line_num + 1) + ":"
                                + std::to_string(consumed_input.size() + 1)
-- 
2.43.0


From 3d3fa4898065d6a1c1e8f7c60a35006bd906dac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:05 +0000
Subject: [PATCH 41/42] fix: report grammars whose accepting conflicts with
 another action

---
 src/log_surgeon/LALR1Parser.tpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/log_surgeon/LALR1Parser.tpp b/src/log_surgeon/LALR1Parser.tpp
index 95db39f..c45020b 100644
--- a/src/log_surgeon/LALR1Parser.tpp
+++ b/src/log_surgeon/LALR1Parser.tpp
@@ -445,7 +445,7 @@ void LALR1Parser<NFAStateType, DFAStateType>::generate_lalr1_action() {
                 }
                 assert(item_set_ptr->m_next.find(item.next_symbol()) != item_set_ptr->m_next.end());
                 Action& action = item_set_ptr->m_actions[item.next_symbol()];
-                if (!std::holds_alternative<bool>(action)) {
+                if (Action{false} != action) {
                     if (std::holds_alternative<ItemSet*>(action)
                         && std::get<ItemSet*>(action) == item_set_ptr->m_next[item.next_symbol()])
                     {
@@ -458,7 +458,9 @@ void LALR1Parser<NFAStateType, DFAStateType>::generate_lalr1_action() {
                     conflict_msg
                             += std::to_string(item_set_ptr->m_next[item.next_symbol()]->m_index);
                     conflict_msg += " causes ";
-                    if (std::holds_alternative<ItemSet*>(action)) {
+                    if (std::holds_alternative<bool>(action)) {
+                        conflict_msg += "shift-accept conflict\n";
+                    } else if (std::holds_alternative<ItemSet*>(action)) {
                         conflict_msg += "shift-shift conflict with shift to ";
                         conflict_msg += std::to_string(std::get<ItemSet*>(action)->m_index);
                         conflict_msg += "\n";
@@ -479,11 +481,18 @@ void LALR1Parser<NFAStateType, DFAStateType>::generate_lalr1_action() {
             }
             if (item.has_dot_at_end()) {
                 if (item.m_production == m_productions[m_root_production_id].get()) {
-                    Action action = true;
-                    item_set_ptr->m_actions[(uint32_t)SymbolId::TokenEnd] = action;
+                    Action& action = item_set_ptr->m_actions[(uint32_t)SymbolId::TokenEnd];
+                    if (!std::holds_alternative<bool>(action)) {
+                        std::string conflict_msg{};
+                        conflict_msg += "For symbol ";
+                        conflict_msg += this->m_lexer.m_id_symbol[(uint32_t)SymbolId::TokenEnd];
+                        conflict_msg += ", accepting causes a conflict\n";
+                        throw std::runtime_error(conflict_msg);
+                    }
+                    action = true;
                 } else {
                     Action& action = item_set_ptr->m_actions[item.m_lookahead];
-                    if (!std::holds_alternative<bool>(action)) {
+                    if (Action{false} != action) {
                         std::string conflict_msg{};
                         conflict_msg += "For symbol ";
                         conflict_msg += this->m_lexer.m_id_symbol[item.m_lookahead];
@@ -494,7 +503,9 @@ void LALR1Parser<NFAStateType, DFAStateType>::generate_lalr1_action() {
                             conflict_msg += this->m_lexer.m_id_symbol[symbol] + ",";
                         }
                         conflict_msg += "} causes ";
-                        if (std::holds_alternative<ItemSet*>(action)) {
+                        if (std::holds_alternative<bool>(action)) {
+                            conflict_msg += "accept-reduce conflict\n";
+                        } else if (std::holds_alternative<ItemSet*>(action)) {
                             conflict_msg += "shift-reduce conflict with shift to ";
                             conflict_msg += std::to_string(std::get<ItemSet*>(action)->m_index);
                             conflict_msg += "\n";
-- 
2.43.0


From dd087ba326eb2f0b8de934ac141e8e52f9664527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:22 +0000
Subject: [PATCH 42/42] fix: keep the line numbers of tokens in copies of
 events

---
 src/log_surgeon/LogEvent.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/log_surgeon/LogEvent.cpp b/src/log_surgeon/LogEvent.cpp
index 51676b4..690ca7d 100644
--- a/src/log_surgeon/LogEvent.cpp
+++ b/src/log_surgeon/LogEvent.cpp
@@ -102,7 +102,7 @@ LogEvent::LogEvent(LogEventView const& src) : LogEventView{src.get_log_parser()}
                 curr_pos,
                 m_buffer.data(),
                 buffer_size,
-                0,
+                token.m_line,
                 token.m_type_ids_ptr
         };
         m_log_output_buffer->set_curr_token(copied_token);
-- 
2.43.0

