From 3d9e6ee4dafc0f137c55fc7456fb9ce887e88886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:42 +0000
Subject: [PATCH 01/51] fix: end-of-line clash pruning looked up the character
 set of an end-of-line node

Two rules ending in $ that meet after the same prefix (e.g. 'ab+$' pushed
twice) indexed set_mapping_ with eol_token, i.e. far out of bounds. The
erase inside the loop over the erased node's follow set is moved behind it.
---
 include/lexertl/generator.hpp | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 0de20b0..41e0e4d 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -336,7 +336,8 @@ namespace lexertl
             {
                 node* node_ = *nl_iter_;
 
-                if (node_->end_state())
+                if (node_->end_state() ||
+                    node_->token() == parser::eol_token())
                 {
                     ++nl_iter_;
                     continue;
@@ -348,11 +349,15 @@ namespace lexertl
                 {
                     const auto& cr_followpos_ =
                         node_->followpos();
+                    bool erase_ = false;
 
                     for (auto cr_node_ : cr_followpos_)
                     {
-                        if (cr_node_->end_state())
+                        if (cr_node_->end_state() ||
+                            cr_node_->token() == parser::eol_token())
+                        {
                             continue;
+                        }
 
                         if (const auto& nl_set_ =
                             set_mapping_[cr_node_->token()];
@@ -372,18 +377,21 @@ namespace lexertl
 
                             if (found_)
                             {
-                                // This might be suppressing additional paths
-                                // but we should be erroring out anyway.
-                                nl_iter_ = followpos_.erase(nl_iter_);
-                                end_ = followpos_.end();
-                                continue;
+                                erase_ = true;
+                                break;
                             }
                         }
                     }
-                }
 
-                if (nl_iter_ == end_)
-                    break;
+                    if (erase_)
+                    {
+                        // This might be suppressing additional paths
+                        // but we should be erroring out anyway.
+                        nl_iter_ = followpos_.erase(nl_iter_);
+                        end_ = followpos_.end();
+                        continue;
+                    }
+                }
 
                 if (const auto& nl_set_ =
                     set_mapping_[node_->token()];
@@ -431,8 +439,11 @@ namespace lexertl
 
                 for (auto cr_node_ : cr_followpos_)
                 {
-                    if (cr_node_->end_state())
+                    if (cr_node_->end_state() ||
+                        cr_node_->token() == parser::eol_token())
+                    {
                         continue;
+                    }
 
                     const auto& cr_set_ = set_mapping_[cr_node_->token()];
 
-- 
2.43.0


From a460c1ecd4cd1758cb7d18ef5a7d27384c8c5f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:09 +0000
Subject: [PATCH 02/51] fix: states sharing an end-of-line state overwrote each
 other's newline transitions

The state reached through $ is shared by all states of the rule, so moving
the CR/LF transitions of each of them to it kept only the first: .{1,3}$
on a line of carriage returns matched without limit. The compressed version
in addition never reset its loop counter and built the transitions of a
second state from the row of the first.
---
 include/lexertl/generator.hpp | 140 +++++++++++++++-------------------
 1 file changed, 61 insertions(+), 79 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 41e0e4d..c4624e5 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -18,6 +18,7 @@
 #include "runtime_error.hpp"
 #include "state_machine.hpp"
 
+#include <algorithm>
 #include <list>
 #include <memory>
 #include <set>
@@ -606,6 +607,36 @@ namespace lexertl
             return std::string();
         }
 
+        // The state an end of line transition leads to is shared by all the
+        // states with that transition, but which state a following newline
+        // leads to is not: give the state at row_ an end of line state of
+        // its own.
+        static id_type split_eol_state(const std::size_t row_,
+            typename internals::id_type_vector& dfa_,
+            const std::size_t dfa_alphabet_)
+        {
+            const std::size_t size_ = dfa_.size();
+            const id_type new_state_ =
+                static_cast<id_type>(size_ / dfa_alphabet_);
+
+            if (size_ / dfa_alphabet_ >= sm_traits::npos())
+            {
+                // Overflow
+                throw runtime_error("The id_type you have chosen "
+                    "cannot hold this many DFA rows.");
+            }
+
+            dfa_.resize(size_ + dfa_alphabet_, 0);
+
+            id_type& eol_state_ =
+                dfa_[row_ * dfa_alphabet_ + *state_index::eol];
+
+            std::copy_n(dfa_.begin() + eol_state_ * dfa_alphabet_,
+                dfa_alphabet_, dfa_.begin() + size_);
+            eol_state_ = new_state_;
+            return new_state_;
+        }
+
         // Uncompressed
         static void fix_clashes(const id_type_set& eol_set_,
             const id_type cr_id_, const id_type nl_id_,
@@ -615,34 +646,21 @@ namespace lexertl
         {
             for (const auto& eol_ : eol_set_)
             {
-                observer_ptr<id_type> ptr_ = &dfa_.front() +
-                    eol_ * dfa_alphabet_;
-                const id_type eol_state_ = ptr_[*state_index::eol];
-                const id_type cr_state_ =
-                    ptr_[cr_id_ + *state_index::transitions];
-                const id_type nl_state_ =
-                    ptr_[nl_id_ + *state_index::transitions];
-
-                if (cr_state_)
-                {
-                    ptr_[*state_index::transitions + cr_id_] = 0;
-                    ptr_ = &dfa_.front() + eol_state_ * dfa_alphabet_;
-
-                    if (ptr_[*state_index::transitions + cr_id_] == 0)
-                    {
-                        ptr_[*state_index::transitions + cr_id_] = cr_state_;
-                    }
-                }
+                const std::size_t cr_idx_ = *state_index::transitions + cr_id_;
+                const std::size_t nl_idx_ = *state_index::transitions + nl_id_;
+                const std::size_t row_ = eol_ * dfa_alphabet_;
+                const id_type cr_state_ = dfa_[row_ + cr_idx_];
+                const id_type nl_state_ = dfa_[row_ + nl_idx_];
 
-                if (nl_state_)
+                if (cr_state_ || nl_state_)
                 {
-                    ptr_[*state_index::transitions + nl_id_] = 0;
-                    ptr_ = &dfa_.front() + eol_state_ * dfa_alphabet_;
+                    const std::size_t eol_row_ = dfa_alphabet_ *
+                        split_eol_state(eol_, dfa_, dfa_alphabet_);
 
-                    if (ptr_[*state_index::transitions + nl_id_] == 0)
-                    {
-                        ptr_[*state_index::transitions + nl_id_] = nl_state_;
-                    }
+                    dfa_[row_ + cr_idx_] = 0;
+                    dfa_[row_ + nl_idx_] = 0;
+                    dfa_[eol_row_ + cr_idx_] = cr_state_;
+                    dfa_[eol_row_ + nl_idx_] = nl_state_;
                 }
             }
         }
@@ -653,71 +671,35 @@ namespace lexertl
             typename internals::id_type_vector& dfa_,
             const std::size_t dfa_alphabet_, const std::true_type&)
         {
-            std::size_t i_ = 0;
+            const std::size_t zero_idx_ =
+                *state_index::transitions + zero_id_;
 
             for (const auto& eol_ : eol_set_)
             {
-                observer_ptr<id_type> ptr_ = &dfa_.front() +
-                    eol_ * dfa_alphabet_;
-                const id_type eol_state_ = ptr_[*state_index::eol];
-                id_type cr_state_ = 0;
-                id_type nl_state_ = 0;
+                // The row for the low byte of the next character, given that
+                // the higher ones are zero (as they are for CR and LF).
+                std::size_t state_ = eol_;
 
-                for (; i_ < (sm_traits::char_24_bit ? 2 : 1); ++i_)
+                for (std::size_t i_ = 0;
+                    state_ && i_ < (sm_traits::char_24_bit ? 2 : 1); ++i_)
                 {
-                    ptr_ = &dfa_.front() +
-                        ptr_[*state_index::transitions + zero_id_] *
-                        dfa_alphabet_;
+                    state_ = dfa_[state_ * dfa_alphabet_ + zero_idx_];
                 }
 
-                cr_state_ = ptr_[*state_index::transitions + cr_id_];
-
-                if (cr_state_)
-                {
-                    ptr_ = &dfa_.front() + eol_state_ * dfa_alphabet_;
-
-                    if (ptr_[*state_index::transitions + zero_id_] != 0)
-                        continue;
+                if (!state_) continue;
 
-                    ptr_[*state_index::transitions + zero_id_] =
-                        static_cast<id_type>(dfa_.size() / dfa_alphabet_);
-                    dfa_.resize(dfa_.size() + dfa_alphabet_, 0);
+                const std::size_t row_ = state_ * dfa_alphabet_ +
+                    *state_index::transitions;
 
-                    for (i_ = 0; i_ < (sm_traits::char_24_bit ? 1 : 0); ++i_)
-                    {
-                        ptr_ = &dfa_.front() + dfa_.size() - dfa_alphabet_;
-                        ptr_[*state_index::transitions + zero_id_] =
-                            static_cast<id_type>(dfa_.size() / dfa_alphabet_);
-                        dfa_.resize(dfa_.size() + dfa_alphabet_, 0);
-                    }
-
-                    ptr_ = &dfa_.front() + dfa_.size() - dfa_alphabet_;
-                    ptr_[*state_index::transitions + cr_id_] = cr_state_;
-                }
-
-                nl_state_ = ptr_[*state_index::transitions + nl_id_];
-
-                if (nl_state_)
+                if (dfa_[row_ + cr_id_] || dfa_[row_ + nl_id_])
                 {
-                    ptr_ = &dfa_.front() + eol_state_ * dfa_alphabet_;
-
-                    if (ptr_[*state_index::transitions + zero_id_] != 0)
-                        continue;
-
-                    ptr_[*state_index::transitions + zero_id_] =
-                        static_cast<id_type>(dfa_.size() / dfa_alphabet_);
-                    dfa_.resize(dfa_.size() + dfa_alphabet_, 0);
-
-                    for (i_ = 0; i_ < (sm_traits::char_24_bit ? 1 : 0); ++i_)
-                    {
-                        ptr_ = &dfa_.front() + dfa_.size() - dfa_alphabet_;
-                        ptr_[*state_index::transitions + zero_id_] =
-                            static_cast<id_type>(dfa_.size() / dfa_alphabet_);
-                        dfa_.resize(dfa_.size() + dfa_alphabet_, 0);
-                    }
+                    const id_type next_ =
+                        dfa_[eol_ * dfa_alphabet_ + zero_idx_];
+                    const std::size_t eol_row_ = dfa_alphabet_ *
+                        split_eol_state(eol_, dfa_, dfa_alphabet_);
 
-                    ptr_ = &dfa_.front() + dfa_.size() - dfa_alphabet_;
-                    ptr_[*state_index::transitions + nl_id_] = nl_state_;
+                    // Only CR or LF can follow here
+                    dfa_[eol_row_ + zero_idx_] = next_;
                 }
             }
         }
-- 
2.43.0


From 2bcd94404bbf2f75ab85fbd17f4ce98a276eb0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:00 +0000
Subject: [PATCH 03/51] fix: end-of-line clash pruning dropped text other than
 the newline

With 'a$' and 'a[^b]*' the whole set [^b] was removed from the state after
'a', so that 'ac' matched only 'a', although both rules stayed in use and
no error was reported. Only drop alternatives that are just the newline.
---
 include/lexertl/generator.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index c4624e5..888945f 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -322,6 +322,13 @@ namespace lexertl
             }
         }
 
+        // Dropping a set that holds more than the newline would also drop
+        // text that has nothing to do with the clash.
+        static bool only(const index_set& set_, const id_type id_)
+        {
+            return set_.size() == 1 && *set_.begin() == id_;
+        }
+
         static void prune_NL(typename node_vector::iterator& iter_,
             typename node_vector::iterator& end_,
             node_vector& followpos_,
@@ -346,7 +353,7 @@ namespace lexertl
 
                 if (const auto& cr_set_ =
                     set_mapping_[node_->token()];
-                    cr_set_.find(cr_id_) != cr_set_.end())
+                    only(cr_set_, cr_id_))
                 {
                     const auto& cr_followpos_ =
                         node_->followpos();
@@ -362,7 +369,7 @@ namespace lexertl
 
                         if (const auto& nl_set_ =
                             set_mapping_[cr_node_->token()];
-                            nl_set_.find(nl_id_) != nl_set_.end())
+                            only(nl_set_, nl_id_))
                         {
                             const auto& nl_followpos_ =
                                 cr_node_->followpos();
@@ -396,7 +403,7 @@ namespace lexertl
 
                 if (const auto& nl_set_ =
                     set_mapping_[node_->token()];
-                    nl_set_.find(nl_id_) != nl_set_.end())
+                    only(nl_set_, nl_id_))
                 {
                     const auto& nl_followpos_ =
                         node_->followpos();
@@ -433,7 +440,7 @@ namespace lexertl
             auto node_ = *iter_;
             const auto& set_ = set_mapping_[node_->token()];
 
-            if (set_.find(cr_id_) != set_.end())
+            if (only(set_, cr_id_))
             {
                 const auto& cr_followpos_ = node_->followpos();
                 bool found_ = false;
@@ -448,7 +455,7 @@ namespace lexertl
 
                     const auto& cr_set_ = set_mapping_[cr_node_->token()];
 
-                    if (cr_set_.find(nl_id_) != cr_set_.end())
+                    if (only(cr_set_, nl_id_))
                     {
                         const auto& nl_followpos_ = cr_node_->followpos();
 
@@ -488,7 +495,7 @@ namespace lexertl
                 }
             }
 
-            if (set_.find(nl_id_) != set_.end())
+            if (only(set_, nl_id_))
             {
                 const auto& nl_followpos_ = node_->followpos();
                 bool found_ = false;
-- 
2.43.0


From 065295d73fac34b46139a1e8c20172603b2d5fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:14 +0000
Subject: [PATCH 04/51] fix: rules pushed to named states looked for ^ in the
 last alternative

The INITIAL overload looks at the first one. With a non-greedy repeat the
top level alternatives are stored separately, so for ^a|b+?c the state was
not marked as having a beginning of line rule, and no unanchored rule of
that state matched at the beginning of a line.
---
 include/lexertl/rules.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index b0a5749..b604f79 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -1202,7 +1202,7 @@ namespace lexertl
 
                 narrow(regex_.c_str(), ss_);
 
-                if (tokens_vec_.back()[1]._type == detail::token_type::BOL)
+                if (tokens_vec_.front()[1]._type == detail::token_type::BOL)
                 {
                     _features[curr_] |= *feature_bit::bol;
                 }
-- 
2.43.0


From 8cc9444393bb731ee5b7a94b5260f0714e77fb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:30 +0000
Subject: [PATCH 05/51] fix: reversing rules did not exchange the line anchor
 features

The anchors themselves were exchanged, but a state with only $ rules was
still marked as having no ^ rules afterwards (and the other way round).
---
 include/lexertl/rules.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index b604f79..172d0d8 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -393,6 +393,22 @@ namespace lexertl
                 }
             }
 
+            // The anchors have changed places
+            for (auto& features_ : _features)
+            {
+                const bool bol_ = (features_ & *feature_bit::bol) != 0;
+                const bool eol_ = (features_ & *feature_bit::eol) != 0;
+
+                features_ &= static_cast<id_type>
+                    (~(*feature_bit::bol | *feature_bit::eol));
+
+                if (bol_)
+                    features_ |= *feature_bit::eol;
+
+                if (eol_)
+                    features_ |= *feature_bit::bol;
+            }
+
             for (auto& pair_ : _macro_map)
             {
                 reverse(pair_.second);
-- 
2.43.0


From fc0bcb3fbdde0d839d9cdfe6ab60a46ea8c82560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:54 +0000
Subject: [PATCH 06/51] fix: wide ranges spanning several planes used the
 middle bytes as the high byte

A character range from one plane to another at least two further on
accepted whichever planes lay between its end points' middle bytes.
---
 include/lexertl/parser/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index 127f0e9..ded1a8e 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -558,7 +558,7 @@ namespace lexertl::detail
 
                 if (second_msb_ > first_msb_ + 1)
                 {
-                    insert_range(first_mid_ + 1, second_mid_ - 1,
+                    insert_range(first_msb_ + 1, second_msb_ - 1,
                         0, 0xff,
                         0, 0xff, data_);
                 }
-- 
2.43.0


From 4a56701b38b6b7ee1e7b78ab69f17ec513e4acea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:42 +0000
Subject: [PATCH 07/51] fix: saved machines streamed 8-bit ids as characters

---
 include/lexertl/serialise.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/lexertl/serialise.hpp b/include/lexertl/serialise.hpp
index 10ebb17..743da4c 100644
--- a/include/lexertl/serialise.hpp
+++ b/include/lexertl/serialise.hpp
@@ -29,7 +29,8 @@ namespace lexertl
 
             for (const id_type l_ : vec_)
             {
-                ss_ << l_;
+                // We want a number regardless of id_type.
+                ss_ << static_cast<std::size_t>(l_);
                 str_ = ss_.str();
 
                 if (line_len_ + str_.size() + 1 > 80)
@@ -78,7 +79,7 @@ namespace lexertl
         stream_ << 1 << '\n';
         stream_ << sizeof(char_type) << '\n';
         stream_ << sizeof(id_type) << '\n';
-        stream_ << internals_._eoi << '\n';
+        stream_ << static_cast<std::size_t>(internals_._eoi) << '\n';
         stream_ << internals_._lookup.size() << '\n';
 
         for (const auto& vec_ : internals_._lookup)
@@ -87,7 +88,7 @@ namespace lexertl
         }
 
         detail::output_vec<char_type>(internals_._dfa_alphabet, stream_);
-        stream_ << internals_._features << '\n';
+        stream_ << static_cast<std::size_t>(internals_._features) << '\n';
         stream_ << internals_._dfa.size() << '\n';
 
         for (const auto& vec_ : internals_._dfa)
@@ -118,7 +119,8 @@ namespace lexertl
         if (num_ != sizeof(id_type))
             throw runtime_error("id_type mismatch in lexertl::load().");
 
-        stream_ >> internals_._eoi;
+        stream_ >> num_;
+        internals_._eoi = static_cast<id_type>(num_);
         stream_ >> num_;
         internals_._lookup.reserve(num_);
 
@@ -129,7 +131,8 @@ namespace lexertl
         }
 
         detail::input_vec<char_type>(stream_, internals_._dfa_alphabet);
-        stream_ >> internals_._features;
+        stream_ >> num_;
+        internals_._features = static_cast<id_type>(num_);
         stream_ >> num_;
         internals_._dfa.reserve(num_);
 
-- 
2.43.0


From 5edb39a8608e1926775cf73efabcd78c7da6b26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:59 +0000
Subject: [PATCH 08/51] fix: machines over wide characters could not be saved

---
 include/lexertl/serialise.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/lexertl/serialise.hpp b/include/lexertl/serialise.hpp
index 743da4c..e99e782 100644
--- a/include/lexertl/serialise.hpp
+++ b/include/lexertl/serialise.hpp
@@ -44,7 +44,7 @@ namespace lexertl
                     line_len_ += str_.size() + 1;
                 }
 
-                ss_.str("");
+                ss_.str(std::basic_string<char_type>());
             }
 
             stream_ << '\n';
@@ -73,6 +73,8 @@ namespace lexertl
         stream& stream_)
     {
         using internals = detail::basic_internals<id_type>;
+        // The stream need not have the characters of the machine.
+        using stream_char_type = typename stream::char_type;
         const internals& internals_ = sm_.data();
 
         // Version number
@@ -84,16 +86,16 @@ namespace lexertl
 
         for (const auto& vec_ : internals_._lookup)
         {
-            detail::output_vec<char_type>(vec_, stream_);
+            detail::output_vec<stream_char_type>(vec_, stream_);
         }
 
-        detail::output_vec<char_type>(internals_._dfa_alphabet, stream_);
+        detail::output_vec<stream_char_type>(internals_._dfa_alphabet, stream_);
         stream_ << static_cast<std::size_t>(internals_._features) << '\n';
         stream_ << internals_._dfa.size() << '\n';
 
         for (const auto& vec_ : internals_._dfa)
         {
-            detail::output_vec<char_type>(vec_, stream_);
+            detail::output_vec<stream_char_type>(vec_, stream_);
         }
     }
 
-- 
2.43.0


From ea264bd85452c7c2c5ea29ee2c22089195cf63b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:59 +0000
Subject: [PATCH 09/51] fix: minimising a character machine lost ids, pushes
 and pops

---
 include/lexertl/state_machine.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/state_machine.hpp b/include/lexertl/state_machine.hpp
index 1c1ffa5..c8d0db5 100644
--- a/include/lexertl/state_machine.hpp
+++ b/include/lexertl/state_machine.hpp
@@ -473,8 +473,10 @@ namespace lexertl
                     }
 
                     new_ptr_->_end_state = ptr_->_end_state;
-                    new_ptr_->_id = ptr_->_end_state;
+                    new_ptr_->_push_pop_dfa = ptr_->_push_pop_dfa;
+                    new_ptr_->_id = ptr_->_id;
                     new_ptr_->_user_id = ptr_->_user_id;
+                    new_ptr_->_push_dfa = ptr_->_push_dfa;
                     new_ptr_->_next_dfa = ptr_->_next_dfa;
 
                     if (ptr_->_eol_index != npos())
-- 
2.43.0


From e61e97d9ca3b1a3c2d5fb21e0d70a370c8ad944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:42 +0000
Subject: [PATCH 10/51] fix: dumped character sets were ambiguous

---
 include/lexertl/debug.hpp        |  8 ++++++--
 include/lexertl/string_token.hpp | 18 +++++++++++-------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/lexertl/debug.hpp b/include/lexertl/debug.hpp
index 7872e95..423497e 100644
--- a/include/lexertl/debug.hpp
+++ b/include/lexertl/debug.hpp
@@ -488,10 +488,14 @@ namespace lexertl
 
             for (const auto& range_ : token_._ranges)
             {
+                // A lone ']' has been escaped above
+                const bool bracketed_ = token_._ranges.size() > 1 ||
+                    negated_ || range_.first != range_.second;
+
                 if (range_.first == static_cast<char_type>('-') ||
                     range_.first == static_cast<char_type>('^') ||
                     (range_.first == static_cast<char_type>(']') &&
-                    range_.first != range_.second))
+                    bracketed_))
                 {
                     stream_ << static_cast<char_type>('\\');
                 }
@@ -510,7 +514,7 @@ namespace lexertl
                         range_.second == static_cast<char_type>('^') ||
                         range_.second == static_cast<char_type>(']'))
                     {
-                        stream_ << static_cast<char_type>('\\');
+                        chars_ += static_cast<char_type>('\\');
                     }
 
                     chars_ += string_token::escape_char(range_.second);
diff --git a/include/lexertl/string_token.hpp b/include/lexertl/string_token.hpp
index ebe5d27..89f9bf5 100644
--- a/include/lexertl/string_token.hpp
+++ b/include/lexertl/string_token.hpp
@@ -334,6 +334,8 @@ namespace lexertl
             case '\0':
                 out_ += '\\';
                 out_ += '0';
+                out_ += '0';
+                out_ += '0';
                 break;
             case '\a':
                 out_ += '\\';
@@ -343,12 +345,6 @@ namespace lexertl
                 out_ += '\\';
                 out_ += 'b';
                 break;
-            case 27:
-                out_ += '\\';
-                out_ += 'x';
-                out_ += '1';
-                out_ += 'b';
-                break;
             case '\f':
                 out_ += '\\';
                 out_ += 'f';
@@ -383,7 +379,15 @@ namespace lexertl
                 break;
             default:
             {
-                if (ch_ < 32 || ch_ > 126)
+                if (ch_ < 32)
+                {
+                    // Unlike hex, octal cannot run on into the next character
+                    out_ += '\\';
+                    out_ += '0';
+                    out_ += static_cast<char_type>('0' + (ch_ >> 3));
+                    out_ += static_cast<char_type>('0' + (ch_ & 7));
+                }
+                else if (ch_ > 126)
                 {
                     std::basic_stringstream<char_type> ss_;
 
-- 
2.43.0


From 5cf2bc5fc5e70590f49e0cbb321a842384188b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:42 +0000
Subject: [PATCH 11/51] fix: character sets in graphs were ambiguous or broke
 the label

---
 include/lexertl/dot.hpp | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/include/lexertl/dot.hpp b/include/lexertl/dot.hpp
index 4e54763..83ba138 100644
--- a/include/lexertl/dot.hpp
+++ b/include/lexertl/dot.hpp
@@ -90,6 +90,8 @@ namespace lexertl
                 out_ << '\\';
                 out_ << '\\';
                 out_ << '0';
+                out_ << '0';
+                out_ << '0';
                 break;
             case '\a':
                 out_ << '\\';
@@ -129,6 +131,18 @@ namespace lexertl
             case '\\':
                 out_ << '\\';
                 out_ << '\\';
+                out_ << '\\';
+                out_ << '\\';
+                break;
+            // Labels are HTML
+            case '<':
+                out_ << "&lt;";
+                break;
+            case '>':
+                out_ << "&gt;";
+                break;
+            case '&':
+                out_ << "&amp;";
                 break;
             case '"':
                 out_ << '\\';
@@ -142,8 +156,18 @@ namespace lexertl
                 break;
             default:
             {
-                if (ch_ < 32 || ch_ > 126)
+                if (ch_ < 32)
+                {
+                    // Unlike hex, octal cannot run on into the next character
+                    out_ << '\\';
+                    out_ << '\\';
+                    out_ << '0';
+                    out_ << char_type('0' + (ch_ >> 3));
+                    out_ << char_type('0' + (ch_ & 7));
+                }
+                else if (ch_ > 126)
                 {
+                    out_ << '\\';
                     out_ << '\\';
                     out_ << 'x';
                     out_ << std::hex;
@@ -250,7 +274,8 @@ namespace lexertl
 
             for (const auto& range : token_._ranges)
             {
-                if (range.first == '^' ||
+                if (range.first == '-' ||
+                    range.first == '^' ||
                     range.first == ']')
                 {
                     stream_ << R"(\\)";
@@ -265,10 +290,11 @@ namespace lexertl
                         chars_ += '-';
                     }
 
-                    if (range.second == '^' ||
+                    if (range.second == '-' ||
+                        range.second == '^' ||
                         range.second == ']')
                     {
-                        stream_ << R"(\\)";
+                        chars_ += R"(\\)";
                     }
 
                     chars_ += double_escape_char(range.second);
-- 
2.43.0


From 2985750891aca78125f01c55cc0bed9c0d2d1897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:42 +0000
Subject: [PATCH 12/51] fix: graphs led popping rules to a state that does not
 exist

---
 include/lexertl/dot.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/dot.hpp b/include/lexertl/dot.hpp
index 83ba138..ba2c13f 100644
--- a/include/lexertl/dot.hpp
+++ b/include/lexertl/dot.hpp
@@ -260,7 +260,9 @@ namespace lexertl
                     stream_ << "</TD></TR></TABLE>>];" << std::endl;
                 }
 
-                if (dfas_ > 1 && state_._end_state) {
+                // Only known at run time for a pop
+                if (dfas_ > 1 && state_._end_state && state_._push_pop_dfa !=
+                    dfa_state::push_pop_dfa::pop_dfa) {
                     const string dst_name = node_name(state_._next_dfa, 0);
                     stream_ << "    " << src_name << " -> " << dst_name
                         << " [style = \"dashed\"];" << std::endl;
-- 
2.43.0


From 766764a230b7680d8888418eaa4f91b26cdb715d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:37 +0000
Subject: [PATCH 13/51] fix: graphs streamed 8-bit state numbers as characters

---
 include/lexertl/dot.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/dot.hpp b/include/lexertl/dot.hpp
index ba2c13f..0882dca 100644
--- a/include/lexertl/dot.hpp
+++ b/include/lexertl/dot.hpp
@@ -71,9 +71,9 @@ namespace lexertl
             stringstream namestream_;
 
             namestream_ << 'L';
-            stream_num(dfa_id_, namestream_);
+            stream_num(static_cast<std::size_t>(dfa_id_), namestream_);
             namestream_ << "_S";
-            stream_num(state_id_, namestream_);
+            stream_num(static_cast<std::size_t>(state_id_), namestream_);
             return namestream_.str();
         }
 
@@ -210,7 +210,7 @@ namespace lexertl
                     if (name_)
                         stream_ << name_;
                     else
-                        stream_ << dfa_id_;
+                        stream_num(static_cast<std::size_t>(dfa_id_), stream_);
 
                     stream_ << "\"];" << std::endl;
                 }
-- 
2.43.0


From a9b6d1b8daadaecb7e78c5c62f247596d6820562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:58 +0000
Subject: [PATCH 14/51] fix: graphs of machines over wide characters did not
 compile

---
 include/lexertl/dot.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/dot.hpp b/include/lexertl/dot.hpp
index 0882dca..520550f 100644
--- a/include/lexertl/dot.hpp
+++ b/include/lexertl/dot.hpp
@@ -80,7 +80,7 @@ namespace lexertl
         // Escape control characters twice. This is necessary when
         // expressing character sets attached as to DOT nodes as
         // labels.
-        static string double_escape_char(const id_type ch_)
+        static string double_escape_char(const std::size_t ch_)
         {
             stringstream out_;
 
@@ -202,7 +202,7 @@ namespace lexertl
 
                 if (i_ == 0)
                 {
-                    const char* name_ = rules_.state(dfa_id_);
+                    const auto* name_ = rules_.state(dfa_id_);
 
                     stream_ << "    " << name <<
                         " [shape = circle, xlabel=\"";
@@ -296,7 +296,8 @@ namespace lexertl
                         range.second == '^' ||
                         range.second == ']')
                     {
-                        chars_ += R"(\\)";
+                        chars_ += '\\';
+                        chars_ += '\\';
                     }
 
                     chars_ += double_escape_char(range.second);
-- 
2.43.0


From 9688aecd9f95ebb8217ac7e2a060d9a60f797a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:02 +0000
Subject: [PATCH 15/51] fix: dumps streamed the pushed 8-bit state as a
 character

---
 include/lexertl/debug.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/debug.hpp b/include/lexertl/debug.hpp
index 423497e..8445a63 100644
--- a/include/lexertl/debug.hpp
+++ b/include/lexertl/debug.hpp
@@ -328,7 +328,8 @@ namespace lexertl
                         dfa_state::push_pop_dfa::push_dfa)
                     {
                         push(stream_);
-                        stream_num(state_._push_dfa, stream_);
+                        stream_num(static_cast<std::size_t>(state_._push_dfa),
+                            stream_);
                     }
                     else if (state_._push_pop_dfa ==
                         dfa_state::push_pop_dfa::pop_dfa)
-- 
2.43.0


From 584aa2132a8f4368d9d918e856d405f96c3bbc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:24 +0000
Subject: [PATCH 16/51] fix: generated lexers did not see end of line before a
 carriage return

---
 include/lexertl/generate_cpp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index b545822..d3ae161 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -286,7 +286,8 @@ namespace lexertl
                 }
 
                 os_ << ";\n\n";
-                os_ << "        if (EOL_state_ && *curr_ == '\\n')\n";
+                os_ << "        if (EOL_state_ && (*curr_ == '\\r' || "
+                    "*curr_ == '\\n'))\n";
                 os_ << "        {\n";
                 os_ << "            ptr_ = ";
 
-- 
2.43.0


From 7a78da5fe7cf316672dcef70c21b7a2ae5c4c8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:24 +0000
Subject: [PATCH 17/51] fix: generated lexers took the last character for
 consumed when it did not match

---
 include/lexertl/generate_cpp.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index d3ae161..7956f9d 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -947,7 +947,7 @@ namespace lexertl
             std::ostream& os_, const std::false_type&)
         {
             output_tabs(additional_tabs_, os_);
-            os_ << "        const char_type prev_char_ = *curr_++;\n";
+            os_ << "        const char_type prev_char_ = *curr_;\n";
             output_tabs(additional_tabs_, os_);
             os_ << "        const ";
 
@@ -1028,6 +1028,8 @@ namespace lexertl
             }
 
             os_ << ";\n";
+            output_tabs(additional_tabs_, os_);
+            os_ << "        ++curr_;\n";
         }
 
         template<typename id_type>
@@ -1044,7 +1046,7 @@ namespace lexertl
             output_tabs(additional_tabs_, os_);
             os_ << "        const std::size_t shift_[] = {0, 8, 16};\n";
             output_tabs(additional_tabs_, os_);
-            os_ << "        char_type prev_char_ = *curr_++;\n\n";
+            os_ << "        char_type prev_char_ = *curr_;\n\n";
 
             if (features_ & *feature_bit::bol)
             {
@@ -1117,7 +1119,9 @@ namespace lexertl
 
             os_ << ";\n";
             output_tabs(additional_tabs_, os_);
-            os_ << "        }\n";
+            os_ << "        }\n\n";
+            output_tabs(additional_tabs_, os_);
+            os_ << "        ++curr_;\n";
         }
 
         static void output_quit(std::ostream&, const std::false_type&)
-- 
2.43.0


From c38f41a84f357dc37c7f4bdedf7a97cb3b038883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:24 +0000
Subject: [PATCH 18/51] fix: generated pointer tables sent states without start
 of line rules to the dead state

---
 include/lexertl/generate_cpp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index 7956f9d..12cf65e 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -861,7 +861,7 @@ namespace lexertl
             {
                 bool zero_ = *ptr_ == 0;
 
-                if (first_)
+                if (first_ && !zero_)
                 {
                     // We want numbers regardless of id_type.
                     os_ << dfa_name_ << " + 0x" << std::hex <<
-- 
2.43.0


From 437126dd7c14e4ebc3c31d0a2ee04a2945b5c120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:24 +0000
Subject: [PATCH 19/51] fix: generated pointer tables held a number in place of
 the end of line state

---
 include/lexertl/generate_cpp.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index 12cf65e..1289805 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -886,6 +886,14 @@ namespace lexertl
                     os_ << ", ";
                     zero_ = *ptr_ == 0;
 
+                    if (id_index_ == *state_index::eol && !zero_)
+                    {
+                        // A state, as for transitions
+                        os_ << dfa_name_ << " + 0x" << std::hex <<
+                            static_cast<std::size_t>(*ptr_) * dfa_alphabet_;
+                        continue;
+                    }
+
                     if (!zero_)
                     {
                         os_ << "reinterpret_cast<const void*>(";
-- 
2.43.0


From 38cf0e4cf23738e51be68f5d80edf1acc25b51b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:34 +0000
Subject: [PATCH 20/51] fix: generated lexers that push and pop within a single
 state did not compile

---
 include/lexertl/generate_cpp.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index 1289805..a29d8e2 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -596,8 +596,13 @@ namespace lexertl
             {
                 os_ << "        if (pop_)\n";
                 os_ << "        {\n";
-                os_ << "            start_state_ =  results_."
-                    "stack.top().first;\n";
+
+                if (internals_._dfa.size() > 1)
+                {
+                    os_ << "            start_state_ =  results_."
+                        "stack.top().first;\n";
+                }
+
                 os_ << "            results_.stack.pop();\n";
                 os_ << "        }\n";
                 os_ << "        else if (push_dfa_ != results_.npos())\n";
-- 
2.43.0


From 81ef9464c2997d7a85237016814d1d0ecd181c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:15 +0000
Subject: [PATCH 21/51] fix: generated lexers popped from an empty stack

---
 include/lexertl/generate_cpp.hpp  | 3 +++
 include/lexertl/match_results.hpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index a29d8e2..44ca913 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -596,6 +596,9 @@ namespace lexertl
             {
                 os_ << "        if (pop_)\n";
                 os_ << "        {\n";
+                os_ << "            if (results_.stack.empty())\n";
+                os_ << "                throw lexertl::runtime_error(\"Stack "
+                    "underflow in " << name_ << "().\");\n\n";
 
                 if (internals_._dfa.size() > 1)
                 {
diff --git a/include/lexertl/match_results.hpp b/include/lexertl/match_results.hpp
index 50e519a..20a66e1 100644
--- a/include/lexertl/match_results.hpp
+++ b/include/lexertl/match_results.hpp
@@ -9,6 +9,7 @@
 #include "char_traits.hpp"
 #include "enum_operator.hpp"
 #include "enums.hpp"
+#include "runtime_error.hpp"
 
 #include <cstdint>
 #include <iterator>
-- 
2.43.0


From db590886330a3c7f031f8be6ed42e3201a2824e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:31 +0000
Subject: [PATCH 22/51] fix: [:print:] of wide lexers was the set of characters
 that are not printable

---
 include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
index c6b9b77..f496586 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
@@ -853,7 +853,7 @@ namespace lexertl::detail
                 {
                     // print
                     str_ = sizeof(input_char_type) == 1 ?
-                        "[\x20-\x7e]" : R"([\p{C}])";
+                        "[\x20-\x7e]" : R"([^\p{C}])";
                 }
                 else
                 {
-- 
2.43.0


From 2ff55ca434052258d7f547b2a4d2f1fa45952c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:07 +0000
Subject: [PATCH 23/51] fix: Unicode categories lacked the characters that the
 database gives as ranges

---
 gen_unicode_hpp/main.cpp                     | 14 ++++++-
 include/lexertl/parser/tokeniser/unicode.hpp | 40 ++++++++++----------
 2 files changed, 32 insertions(+), 22 deletions(-)

diff --git a/gen_unicode_hpp/main.cpp b/gen_unicode_hpp/main.cpp
index e35bfaa..7ad9101 100644
--- a/gen_unicode_hpp/main.cpp
+++ b/gen_unicode_hpp/main.cpp
@@ -16,9 +16,11 @@ void lex_unicode_data(lexertl::memory_file& mf_, std::ostream& os_,
 	const char* start_ = mf_.data();
 	const char* end_ = start_ + mf_.size();
 	lexertl::cmatch results_(start_, end_);
-	enum { eNumber = 1, eName };
+	enum { eNumber = 1, eName, eLast };
 
+	std::size_t prev_ = 0;
 	std::size_t num_ = 0;
+	bool last_ = false;
 	using string_token = lexertl::basic_string_token<std::size_t>;
 	using map = std::map<std::string, string_token>;
 	map map_;
@@ -28,6 +30,7 @@ void lex_unicode_data(lexertl::memory_file& mf_, std::ostream& os_,
 	rules_.push_state("FINISH");
 
 	rules_.push("INITIAL", "^[A-F0-9]+", eNumber, "LONG_NAME");
+	rules_.push("LONG_NAME", ";<[^;]+, Last>;", eLast, "SHORT_NAME");
 	rules_.push("LONG_NAME", ";[^;]+;", lexertl::rules::skip(), "SHORT_NAME");
 	rules_.push("SHORT_NAME", "[A-Z][a-z]?", eName, "FINISH");
 	rules_.push("FINISH", ".*\n", lexertl::rules::skip(), "INITIAL");
@@ -41,15 +44,22 @@ void lex_unicode_data(lexertl::memory_file& mf_, std::ostream& os_,
 		{
 			std::stringstream ss_;
 
+			prev_ = num_;
+			last_ = false;
 			ss_ << results_.str();
 			ss_ >> std::hex >> num_;
 		}
+		else if (results_.id == eLast)
+		{
+			// All characters from the preceding line ("First") on
+			last_ = true;
+		}
 		else if (results_.id == eName)
 		{
 			const std::string name_ = results_.str();
 
 			map_[name_].insert(lexertl::basic_string_token<std::size_t>::range
-			(num_, num_));
+			(last_ ? prev_ : num_, num_));
 		}
 	} while (results_.id != 0);
 
diff --git a/include/lexertl/parser/tokeniser/unicode.hpp b/include/lexertl/parser/tokeniser/unicode.hpp
index 00e1d41..853def4 100644
--- a/include/lexertl/parser/tokeniser/unicode.hpp
+++ b/include/lexertl/parser/tokeniser/unicode.hpp
@@ -54,12 +54,12 @@
 
     static const char* Co()
     {
-        return "[\\xe000\\xf8ff\\xf0000\\xffffd\\x100000\\x10fffd]";
+        return "[\\xe000-\\xf8ff\\xf0000-\\xffffd\\x100000-\\x10fffd]";
     }
 
     static const char* Cs()
     {
-        return "[\\xd800\\xdb7f\\xdb80\\xdbff\\xdc00\\xdfff]";
+        return "[\\xd800-\\xdfff]";
     }
 
     static const char* Ll()
@@ -217,8 +217,8 @@
             "\\x2da8-\\x2dae\\x2db0-\\x2db6\\x2db8-\\x2dbe\\x2dc0-\\x2dc6"
             "\\x2dc8-\\x2dce\\x2dd0-\\x2dd6\\x2dd8-\\x2dde\\x3006\\x303c"
             "\\x3041-\\x3096\\x309f\\x30a1-\\x30fa\\x30ff\\x3105-\\x312f"
-            "\\x3131-\\x318e\\x31a0-\\x31bf\\x31f0-\\x31ff\\x3400\\x4dbf\\x4e00"
-            "\\x9fff-\\xa014\\xa016-\\xa48c\\xa4d0-\\xa4f7\\xa500-\\xa60b"
+            "\\x3131-\\x318e\\x31a0-\\x31bf\\x31f0-\\x31ff\\x3400-\\x4dbf"
+            "\\x4e00-\\xa014\\xa016-\\xa48c\\xa4d0-\\xa4f7\\xa500-\\xa60b"
             "\\xa610-\\xa61f\\xa62a\\xa62b\\xa66e\\xa6a0-\\xa6e5\\xa78f\\xa7f7"
             "\\xa7fb-\\xa801\\xa803-\\xa805\\xa807-\\xa80a\\xa80c-\\xa822"
             "\\xa840-\\xa873\\xa882-\\xa8b3\\xa8f2-\\xa8f7\\xa8fb\\xa8fd\\xa8fe"
@@ -228,7 +228,7 @@
             "\\xaa7a\\xaa7e-\\xaaaf\\xaab1\\xaab5\\xaab6\\xaab9-\\xaabd\\xaac0"
             "\\xaac2\\xaadb\\xaadc\\xaae0-\\xaaea\\xaaf2\\xab01-\\xab06"
             "\\xab09-\\xab0e\\xab11-\\xab16\\xab20-\\xab26\\xab28-\\xab2e"
-            "\\xabc0-\\xabe2\\xac00\\xd7a3\\xd7b0-\\xd7c6\\xd7cb-\\xd7fb"
+            "\\xabc0-\\xabe2\\xac00-\\xd7a3\\xd7b0-\\xd7c6\\xd7cb-\\xd7fb"
             "\\xf900-\\xfa6d\\xfa70-\\xfad9\\xfb1d\\xfb1f-\\xfb28"
             "\\xfb2a-\\xfb36\\xfb38-\\xfb3c\\xfb3e\\xfb40\\xfb41\\xfb43\\xfb44"
             "\\xfb46-\\xfbb1\\xfbd3-\\xfd3d\\xfd50-\\xfd8f\\xfd92-\\xfdc7"
@@ -281,26 +281,26 @@
             "\\x14400-\\x14646\\x16100-\\x1611d\\x16800-\\x16a38"
             "\\x16a40-\\x16a5e\\x16a70-\\x16abe\\x16ad0-\\x16aed"
             "\\x16b00-\\x16b2f\\x16b63-\\x16b77\\x16b7d-\\x16b8f"
-            "\\x16d43-\\x16d6a\\x16f00-\\x16f4a\\x16f50\\x17000"
-            "\\x187ff-\\x18cd5\\x18cff\\x18d00\\x18d1e\\x18d80-\\x18df2"
-            "\\x1b000-\\x1b122\\x1b132\\x1b150-\\x1b152\\x1b155"
-            "\\x1b164-\\x1b167\\x1b170-\\x1b2fb\\x1bc00-\\x1bc6a"
-            "\\x1bc70-\\x1bc7c\\x1bc80-\\x1bc88\\x1bc90-\\x1bc99\\x1df0a"
-            "\\x1e100-\\x1e12c\\x1e14e\\x1e290-\\x1e2ad\\x1e2c0-\\x1e2eb"
-            "\\x1e4d0-\\x1e4ea\\x1e5d0-\\x1e5ed\\x1e5f0\\x1e6c0-\\x1e6de"
-            "\\x1e6e0-\\x1e6e2\\x1e6e4\\x1e6e5\\x1e6e7-\\x1e6ed"
-            "\\x1e6f0-\\x1e6f4\\x1e6fe\\x1e7e0-\\x1e7e6\\x1e7e8-\\x1e7eb"
-            "\\x1e7ed\\x1e7ee\\x1e7f0-\\x1e7fe\\x1e800-\\x1e8c4"
-            "\\x1ee00-\\x1ee03\\x1ee05-\\x1ee1f\\x1ee21\\x1ee22\\x1ee24\\x1ee27"
+            "\\x16d43-\\x16d6a\\x16f00-\\x16f4a\\x16f50\\x17000-\\x18cd5"
+            "\\x18cff-\\x18d1e\\x18d80-\\x18df2\\x1b000-\\x1b122\\x1b132"
+            "\\x1b150-\\x1b152\\x1b155\\x1b164-\\x1b167\\x1b170-\\x1b2fb"
+            "\\x1bc00-\\x1bc6a\\x1bc70-\\x1bc7c\\x1bc80-\\x1bc88"
+            "\\x1bc90-\\x1bc99\\x1df0a\\x1e100-\\x1e12c\\x1e14e"
+            "\\x1e290-\\x1e2ad\\x1e2c0-\\x1e2eb\\x1e4d0-\\x1e4ea"
+            "\\x1e5d0-\\x1e5ed\\x1e5f0\\x1e6c0-\\x1e6de\\x1e6e0-\\x1e6e2"
+            "\\x1e6e4\\x1e6e5\\x1e6e7-\\x1e6ed\\x1e6f0-\\x1e6f4\\x1e6fe"
+            "\\x1e7e0-\\x1e7e6\\x1e7e8-\\x1e7eb\\x1e7ed\\x1e7ee"
+            "\\x1e7f0-\\x1e7fe\\x1e800-\\x1e8c4\\x1ee00-\\x1ee03"
+            "\\x1ee05-\\x1ee1f\\x1ee21\\x1ee22\\x1ee24\\x1ee27"
             "\\x1ee29-\\x1ee32\\x1ee34-\\x1ee37\\x1ee39\\x1ee3b\\x1ee42\\x1ee47"
             "\\x1ee49\\x1ee4b\\x1ee4d-\\x1ee4f\\x1ee51\\x1ee52\\x1ee54\\x1ee57"
             "\\x1ee59\\x1ee5b\\x1ee5d\\x1ee5f\\x1ee61\\x1ee62\\x1ee64"
             "\\x1ee67-\\x1ee6a\\x1ee6c-\\x1ee72\\x1ee74-\\x1ee77"
             "\\x1ee79-\\x1ee7c\\x1ee7e\\x1ee80-\\x1ee89\\x1ee8b-\\x1ee9b"
-            "\\x1eea1-\\x1eea3\\x1eea5-\\x1eea9\\x1eeab-\\x1eebb\\x20000"
-            "\\x2a6df\\x2a700\\x2b73f\\x2b740\\x2b81d\\x2b820\\x2cead\\x2ceb0"
-            "\\x2ebe0\\x2ebf0\\x2ee5d\\x2f800-\\x2fa1d\\x30000\\x3134a\\x31350"
-            "\\x323af\\x323b0\\x33479]";
+            "\\x1eea1-\\x1eea3\\x1eea5-\\x1eea9\\x1eeab-\\x1eebb"
+            "\\x20000-\\x2a6df\\x2a700-\\x2b81d\\x2b820-\\x2cead"
+            "\\x2ceb0-\\x2ebe0\\x2ebf0-\\x2ee5d\\x2f800-\\x2fa1d"
+            "\\x30000-\\x3134a\\x31350-\\x33479]";
     }
 
     static const char* Lt()
-- 
2.43.0


From fa7e9f5d3a2a83e556b1c888d391f84d8fb0db3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:46 +0000
Subject: [PATCH 24/51] fix: case-insensitive wide lexers did not fold
 alternating letter pairs

---
 .../parser/tokeniser/re_tokeniser_helper.hpp   | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
index f496586..91f2687 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
@@ -267,14 +267,15 @@ namespace lexertl::detail
                     }
                     else
                     {
-                        const index_type first_ = ptr_->to.second +
+                        // Descending
+                        const index_type second_ = ptr_->to.first -
                             (range_.first - ptr_->from.first);
 
-                        out_.insert(range(first_,
-                            range_.second > ptr_->from.second ?
-                            ptr_->to.first :
-                            static_cast<index_type>(ptr_->to.second +
-                                (range_.second - ptr_->from.first))));
+                        out_.insert(range(range_.second > ptr_->from.second ?
+                            ptr_->to.second :
+                            static_cast<index_type>(ptr_->to.first -
+                                (range_.second - ptr_->from.first)),
+                            second_));
                     }
                 }
                 else if (range_.second >= ptr_->from.first &&
@@ -289,10 +290,11 @@ namespace lexertl::detail
                     }
                     else
                     {
-                        const index_type second_ = ptr_->to.second +
+                        // Descending
+                        const index_type first_ = ptr_->to.first -
                             (range_.second - ptr_->from.first);
 
-                        out_.insert(range(ptr_->to.second, second_));
+                        out_.insert(range(first_, ptr_->to.first));
                     }
                 }
                 // Either range fully encompasses from range or not at all.
-- 
2.43.0


From 32326328f5f48297ce1752a3aed08c6ad2119089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:46 +0000
Subject: [PATCH 25/51] fix: (?s: did not let . match CR and LF when the dot
 excludes both

---
 include/lexertl/parser/tokeniser/re_tokeniser.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser.hpp b/include/lexertl/parser/tokeniser/re_tokeniser.hpp
index ddc855b..9054763 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser.hpp
@@ -395,11 +395,8 @@ namespace lexertl::detail
                         else
                         {
                             state_._flags = state_._flags &
-#ifdef _WIN32
-                                ~*regex_flags::dot_not_cr_lf;
-#else
-                                ~*regex_flags::dot_not_newline;
-#endif
+                                ~(*regex_flags::dot_not_newline |
+                                    *regex_flags::dot_not_cr_lf);
                         }
 
                         negate_ = false;
-- 
2.43.0


From f0bb2868e62ed35315e9d17362d317292303b10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:51 +0000
Subject: [PATCH 26/51] fix: POSIX classes could not be used in 16-bit lexers

---
 .../parser/tokeniser/re_tokeniser_helper.hpp  | 25 ++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
index 91f2687..be050c8 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
@@ -1049,7 +1049,30 @@ namespace lexertl::detail
                 state_._id, state_._flags, state_._locale, nullptr);
             string_token temp_token_;
 
-            charset(temp_state_, temp_token_);
+            if constexpr (sizeof(input_char_type) == 2)
+            {
+                // Unicode categories go beyond 16 bits
+                using helper = basic_re_tokeniser_helper<char,
+                    char32_t, id_type>;
+                const auto max_ = char_traits::max_val();
+                typename helper::string_token wide_;
+
+                helper::charset(temp_state_, wide_);
+
+                for (const auto& range_ : wide_._ranges)
+                {
+                    if (range_.first > max_) break;
+
+                    temp_token_.insert(range
+                    (static_cast<index_type>(range_.first),
+                        range_.second > max_ ? max_ :
+                        static_cast<index_type>(range_.second)));
+                }
+            }
+            else
+            {
+                charset(temp_state_, temp_token_);
+            }
 
             if (negate_) temp_token_.negate();
 
-- 
2.43.0


From 1763044227c3ef9a29eda3dca25da408e784d0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:07 +0000
Subject: [PATCH 27/51] fix: long hex escapes wrapped around instead of being
 rejected

---
 include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
index be050c8..feb2fca 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
@@ -1349,6 +1349,9 @@ namespace lexertl::detail
 
             do
             {
+                // Far too big already (see below), do not wrap around
+                if (hex_ > (~static_cast<std::size_t>(0) >> 4)) break;
+
                 hex_ *= 16;
 
                 if (ch_ >= '0' && ch_ <= '9')
-- 
2.43.0


From 38012f3ba61b815fe30e7a1fe0fa87ece8f2b77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:44 +0000
Subject: [PATCH 28/51] fix: rules that match nothing at the end of a line were
 not rejected

---
 include/lexertl/generator.hpp | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 888945f..8aed63f 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -555,14 +555,46 @@ namespace lexertl
             }
         }
 
+        template<typename nodes>
+        static void append_followpos(const node& node_, nodes& nodes_)
+        {
+            const auto& followpos_ = node_.followpos();
+
+            nodes_.insert(nodes_.end(), followpos_.begin(), followpos_.end());
+        }
+
         static void check_zero_len(const rules& rules_,
             const observer_ptr<node> root_)
         {
             if ((rules_.flags() & *regex_flags::match_zero_len) == 0)
             {
+                // A trailing $ does not consume anything either
                 const auto& firstpos_ = root_->firstpos();
+                auto nodes_ = firstpos_;
 
                 for (observer_ptr<const node> node_ : firstpos_)
+                {
+                    if (!node_->end_state() &&
+                        node_->token() == parser::bol_token())
+                    {
+                        for (observer_ptr<const node> follow_ :
+                            node_->followpos())
+                        {
+                            if (!follow_->end_state() &&
+                                follow_->token() == parser::eol_token())
+                            {
+                                append_followpos(*follow_, nodes_);
+                            }
+                        }
+                    }
+                    else if (!node_->end_state() &&
+                        node_->token() == parser::eol_token())
+                    {
+                        append_followpos(*node_, nodes_);
+                    }
+                }
+
+                for (observer_ptr<const node> node_ : nodes_)
                 {
                     if (node_->end_state())
                     {
-- 
2.43.0


From 23c3d98dc5f5c4c7306f16d827d4b663e9145228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:44 +0000
Subject: [PATCH 29/51] fix: repeated repeats and repeated ^ crashed instead of
 being rejected

---
 include/lexertl/parser/tokeniser/re_token.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/lexertl/parser/tokeniser/re_token.hpp b/include/lexertl/parser/tokeniser/re_token.hpp
index 53a208b..bcad975 100644
--- a/include/lexertl/parser/tokeniser/re_token.hpp
+++ b/include/lexertl/parser/tokeniser/re_token.hpp
@@ -71,18 +71,18 @@ namespace lexertl::detail
                 /*DUPLI*/  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* or  */  ' ', ' ', ' ', '=', '<', '<', '<', ' ', ' ', '<', '<', '<', '<', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ',
                 /*CHARA*/  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>',
-                /* BOL */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>',
+                /* BOL */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* EOL */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>',
                 /*MACRO*/  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>',
                 /*  (  */  ' ', '=', '<', '<', '<', '<', '<', ' ', ' ', '<', '<', '<', '<', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ',
                 /*  )  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>', '>',
-                /*  ?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /*  ?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* ??  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
-                /*  *  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /*  *  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* *?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
-                /*  +  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /*  +  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* +?  */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
-                /* n,m */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', '<', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
+                /* n,m */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* n,m?*/  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>', '>', '>', '>', '>', '>', '>', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', '>',
                 /* END */  ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' ', ' '
             };
-- 
2.43.0


From 0a2366aca3f478aef501e1298ae4bbae0d7e2811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:17 +0000
Subject: [PATCH 30/51] fix: macros that were rejected stayed behind empty

---
 include/lexertl/rules.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index 172d0d8..6404453 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -251,12 +251,11 @@ namespace lexertl
 
             if (iter_ == _macro_map.end())
             {
-                auto pair_ =
-                    _macro_map.insert(macro_pair(name_, token_vector()));
                 auto tokens_vec_ = tokenise(regex_, npos(), name_);
 
                 // There can only be one token_vector for a macro
-                pair_.first->second = std::move(tokens_vec_.back());
+                _macro_map.insert(macro_pair(name_,
+                    std::move(tokens_vec_.back())));
             }
             else
             {
-- 
2.43.0


From a45c89b1778bb6a00929a023fe23b63da191234c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:17 +0000
Subject: [PATCH 31/51] fix: empty names in lists of start states were accepted

---
 include/lexertl/rules.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index 6404453..8c9dec5 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -1174,8 +1174,9 @@ namespace lexertl
             {
                 const rules_char_type* start_ = curr_dfa_;
                 string next_dfa_;
+                bool more_ = true;
 
-                while (*curr_dfa_)
+                while (more_)
                 {
                     while (*curr_dfa_ && *curr_dfa_ != ',')
                     {
@@ -1184,7 +1185,9 @@ namespace lexertl
 
                     next_dfa_.assign(start_, curr_dfa_);
 
-                    if (*curr_dfa_)
+                    more_ = *curr_dfa_ != 0;
+
+                    if (more_)
                     {
                         ++curr_dfa_;
                         start_ = curr_dfa_;
-- 
2.43.0


From 6b4407bae2b5d0ccc904b23d84f98b26ee656143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:17 +0000
Subject: [PATCH 32/51] fix: {-} or {+} straight after {-} or {+} was accepted

---
 include/lexertl/rules.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index 8c9dec5..920912c 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -543,7 +543,7 @@ namespace lexertl
                     process_macro(name_, lhs_, rhs_, macro_, tokens_, state_,
                         regex_, diff_);
                 }
-                else if (rhs_._type == detail::token_type::DIFF)
+                else if (rhs_._type == detail::token_type::DIFF && !diff_)
                 {
                     process_diff(name_, rhs_, state_, macro_, diff_);
                     continue;
-- 
2.43.0


From 083f18120b300ef00895c69895d360bc7302e0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:27 +0000
Subject: [PATCH 33/51] fix: a start state that could not be added was left
 behind

---
 include/lexertl/rules.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/lexertl/rules.hpp b/include/lexertl/rules.hpp
index 920912c..7cf5224 100644
--- a/include/lexertl/rules.hpp
+++ b/include/lexertl/rules.hpp
@@ -197,6 +197,14 @@ namespace lexertl
         {
             validate(name_);
 
+            if (_statemap.size() == npos() &&
+                _statemap.find(name_) == _statemap.end())
+            {
+                // Overflow
+                throw runtime_error("The id_type you have chosen cannot hold "
+                    "this many lexer start states.");
+            }
+
             if (_statemap.insert(string_id_type_pair(name_,
                 static_cast<id_type>(_statemap.size()))).second)
             {
@@ -219,13 +227,6 @@ namespace lexertl
                 return _statemap.find(name_)->second;
             }
 
-            if (_next_dfas.size() > npos())
-            {
-                // Overflow
-                throw runtime_error("The id_type you have chosen cannot hold "
-                    "this many lexer start states.");
-            }
-
             // Initial is not stored, so no need to - 1.
             return static_cast<id_type>(_lexer_state_names.size());
         }
-- 
2.43.0


From 70494e62bcfda097834fdebeedf901bd2316eb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:08 +0000
Subject: [PATCH 34/51] fix: rules beyond the range of an 8-bit id type were
 confused when looking for unmatchable rules

---
 include/lexertl/generator.hpp            | 16 ++++++++--------
 include/lexertl/parser/parser.hpp        |  2 +-
 include/lexertl/parser/tree/end_node.hpp |  6 +++---
 include/lexertl/parser/tree/node.hpp     |  2 +-
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/lexertl/generator.hpp b/include/lexertl/generator.hpp
index 8aed63f..4d99844 100644
--- a/include/lexertl/generator.hpp
+++ b/include/lexertl/generator.hpp
@@ -52,8 +52,8 @@ namespace lexertl
             internals internals_;
             sm temp_sm_;
             node_ptr_vector node_ptr_vector_;
-            std::set<id_type> used_ids_;
-            id_type unique_id_ = 0;
+            std::set<std::size_t> used_ids_;
+            std::size_t unique_id_ = 0;
 
             internals_._eoi = rules_.eoi();
             internals_.add_states(size_);
@@ -105,7 +105,7 @@ namespace lexertl
         static observer_ptr<node> build_tree(const rules& rules_,
             const std::size_t dfa_, node_ptr_vector& node_ptr_vector_,
             charset_map& charset_map_, id_type& cr_id_, id_type& nl_id_,
-            id_type& unique_id_)
+            std::size_t& unique_id_)
         {
             parser parser_(rules_.locale(), node_ptr_vector_, charset_map_,
                 rules_.eoi());
@@ -189,7 +189,7 @@ namespace lexertl
         static void build_dfa(const charset_map& charset_map_,
             const observer_ptr<node> root_, internals& internals_, sm& sm_,
             const id_type dfa_index_, id_type& cr_id_, id_type& nl_id_,
-            const std::size_t flags_, std::set<id_type>& used_ids_)
+            const std::size_t flags_, std::set<std::size_t>& used_ids_)
         {
             // partitioned charset list
             charset_list charset_list_;
@@ -612,11 +612,11 @@ namespace lexertl
         }
 
         static void check_suppressed(const rules& rules_,
-            const id_type unique_id_, std::set<id_type>& used_ids_)
+            const std::size_t unique_id_, std::set<std::size_t>& used_ids_)
         {
             if (!(rules_.flags() & *regex_flags::allow_suppressed_rules))
             {
-                for (id_type id_ = 0; id_ < unique_id_; ++id_)
+                for (std::size_t id_ = 0; id_ < unique_id_; ++id_)
                 {
                     if (used_ids_.find(id_ + 1) == used_ids_.end())
                     {
@@ -930,7 +930,7 @@ namespace lexertl
             node_set_vector& seen_sets_, node_vector_vector& seen_vectors_,
             size_t_vector& hash_vector_, const id_type size_,
             id_type_vector& dfa_, const std::size_t flags_,
-            std::set<id_type>& used_ids_)
+            std::set<std::size_t>& used_ids_)
         {
             bool end_state_ = false;
             id_type id_ = 0;
@@ -1006,7 +1006,7 @@ namespace lexertl
             id_type& push_dfa_, bool& pop_dfa_, node_set& set_ptr_,
             node_vector& vector_ptr_, std::size_t& hash_,
             greedy_repeat& greedy_, const std::size_t flags_,
-            std::set<id_type>& used_ids_)
+            std::set<std::size_t>& used_ids_)
         {
             if (node_->end_state())
             {
diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index ded1a8e..3bd3f16 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -91,7 +91,7 @@ namespace lexertl::detail
         }
 
         observer_ptr<node> parse(const token_vector& regex_, const id_type id_,
-            const id_type user_id_, const id_type unique_id_,
+            const id_type user_id_, const std::size_t unique_id_,
             const id_type next_dfa_, const id_type push_dfa_,
             const bool pop_dfa_, id_type& cr_id_, id_type& nl_id_,
             const bool seen_bol_)
diff --git a/include/lexertl/parser/tree/end_node.hpp b/include/lexertl/parser/tree/end_node.hpp
index aa02515..97b2476 100644
--- a/include/lexertl/parser/tree/end_node.hpp
+++ b/include/lexertl/parser/tree/end_node.hpp
@@ -24,7 +24,7 @@ namespace lexertl::detail
         using node_vector = typename node::node_vector;
 
         basic_end_node(const id_type id_,
-            const id_type user_id_, const id_type unique_id_,
+            const id_type user_id_, const std::size_t unique_id_,
             const id_type next_dfa_, const id_type push_dfa_,
             const bool pop_dfa_, const greedy_repeat greedy_) :
             node(false),
@@ -85,7 +85,7 @@ namespace lexertl::detail
             return _user_id;
         }
 
-        id_type unique_id() const override
+        std::size_t unique_id() const override
         {
             return _unique_id;
         }
@@ -108,7 +108,7 @@ namespace lexertl::detail
     private:
         id_type _id;
         id_type _user_id;
-        id_type _unique_id;
+        std::size_t _unique_id;
         id_type _next_dfa;
         id_type _push_dfa;
         bool _pop_dfa;
diff --git a/include/lexertl/parser/tree/node.hpp b/include/lexertl/parser/tree/node.hpp
index ae68c1f..ec8ad1c 100644
--- a/include/lexertl/parser/tree/node.hpp
+++ b/include/lexertl/parser/tree/node.hpp
@@ -147,7 +147,7 @@ namespace lexertl::detail
 #endif
         }
 
-        virtual id_type unique_id() const
+        virtual std::size_t unique_id() const
         {
             throw runtime_error("Internal error node::unique_id().");
 #ifdef __SUNPRO_CC
-- 
2.43.0


From 3893359df103768943778c4273ec551f2b51b06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:02 +0000
Subject: [PATCH 35/51] fix: character set ids of an 8-bit id type ran into the
 line anchors

---
 include/lexertl/parser/parser.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index 3bd3f16..c6348ae 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -741,16 +741,18 @@ namespace lexertl::detail
             // Converted to id_type below.
             std::size_t id_ = sm_traits::npos();
 
-            if (static_cast<id_type>(id_) < id_)
-            {
-                throw runtime_error("id_type is not large enough "
-                    "to hold all ids.");
-            }
-
             if (auto iter_ = _charset_map.find(charset_);
                 iter_ == _charset_map.end())
             {
                 id_ = _charset_map.size();
+
+                // The values from eol_token() on are not character sets
+                if (id_ >= eol_token())
+                {
+                    throw runtime_error("id_type is not large enough "
+                        "to hold all ids.");
+                }
+
                 _charset_map.insert(charset_pair(charset_,
                     static_cast<id_type>(id_)));
             }
-- 
2.43.0


From 8a934d397e717ac9d72feaf49eb5f023040bf8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:00 +0000
Subject: [PATCH 36/51] fix: wide rules anchored at the end of line without any
 zero byte crashed the generator

---
 include/lexertl/parser/parser.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/lexertl/parser/parser.hpp b/include/lexertl/parser/parser.hpp
index c6348ae..fb3f7aa 100644
--- a/include/lexertl/parser/parser.hpp
+++ b/include/lexertl/parser/parser.hpp
@@ -420,6 +420,9 @@ namespace lexertl::detail
                 nl_id_ = temp_nl_id_;
             }
 
+            // Wide newlines start with zeros
+            if constexpr (compressed::value) lookup(string_token(0, 0));
+
             // store charset
             _node_ptr_vector.push_back(std::make_unique<leaf_node>
                 (eol_token(), greedy_repeat::yes));
-- 
2.43.0


From d39bc03ba69751a1f19749e4bbe77ac397addb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 37/51] fix: replace() to an output iterator kept writing at
 the first position

std::copy() takes the output iterator by value, so its result has to be
kept: with a pointer or any iterator with state of its own every piece
overwrote the one before and the position returned was never advanced.
---
 include/lexertl/replace.hpp | 44 ++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/include/lexertl/replace.hpp b/include/lexertl/replace.hpp
index 7655f38..688c958 100644
--- a/include/lexertl/replace.hpp
+++ b/include/lexertl/replace.hpp
@@ -31,13 +31,13 @@ namespace lexertl
 
         while (results_.id != 0)
         {
-            std::copy(last_, results_.first, out_);
-            std::copy(fmt_.cbegin(), fmt_.cend(), out_);
+            out_ = std::copy(last_, results_.first, out_);
+            out_ = std::copy(fmt_.cbegin(), fmt_.cend(), out_);
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -57,18 +57,18 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
-                std::copy(iter_->second.cbegin(), iter_->second.cend(), out_);
+                out_ = std::copy(iter_->second.cbegin(), iter_->second.cend(), out_);
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -90,22 +90,22 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
             {
                 const auto str_ = iter_->second(results_.first, results_.second);
 
-                std::copy(str_.cbegin(), str_.cend(), out_);
+                out_ = std::copy(str_.cbegin(), str_.cend(), out_);
             }
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -129,13 +129,13 @@ namespace lexertl
 
         while (results_.id != 0)
         {
-            std::copy(last_, results_.first, out_);
-            std::copy(fmt_, end_fmt_, out_);
+            out_ = std::copy(last_, results_.first, out_);
+            out_ = std::copy(fmt_, end_fmt_, out_);
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -153,10 +153,10 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
             {
                 const char_type* end_fmt_ = [end_ = iter_->second]() mutable
@@ -167,14 +167,14 @@ namespace lexertl
                         return end_;
                     }();
 
-                std::copy(iter_->second, end_fmt_, out_);
+                out_ = std::copy(iter_->second, end_fmt_, out_);
             }
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
@@ -193,10 +193,10 @@ namespace lexertl
         {
             auto iter_ = fmt_.find(results_.id);
 
-            std::copy(last_, results_.first, out_);
+            out_ = std::copy(last_, results_.first, out_);
 
             if (iter_ == fmt_.cend())
-                std::copy(results_.first, results_.second, out_);
+                out_ = std::copy(results_.first, results_.second, out_);
             else
             {
                 const char_type* str_ =
@@ -209,14 +209,14 @@ namespace lexertl
                         return str_;
                     }();
 
-                std::copy(str_, end_str_, out_);
+                out_ = std::copy(str_, end_str_, out_);
             }
 
             last_ = results_.second;
             lexertl::lookup(sm_, results_);
         }
 
-        std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.first, out_);
         return out_;
     }
 
-- 
2.43.0


From 1c8b3573c300669427ee0e1e25c9fa92fe3cd50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 38/51] fix: replace() dropped an unfinished token at the end
 of the text

When the text ends inside a continuation the end of input is reported
with first at the start of the unfinished token, so that copying up to
first lost the rest of the text.
---
 include/lexertl/replace.hpp | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/lexertl/replace.hpp b/include/lexertl/replace.hpp
index 688c958..4c67111 100644
--- a/include/lexertl/replace.hpp
+++ b/include/lexertl/replace.hpp
@@ -37,7 +37,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        out_ = std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.eoi, out_);
         return out_;
     }
 
@@ -68,7 +68,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        out_ = std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.eoi, out_);
         return out_;
     }
 
@@ -105,7 +105,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        out_ = std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.eoi, out_);
         return out_;
     }
 
@@ -135,7 +135,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        out_ = std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.eoi, out_);
         return out_;
     }
 
@@ -174,7 +174,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        out_ = std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.eoi, out_);
         return out_;
     }
 
@@ -216,7 +216,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        out_ = std::copy(last_, results_.first, out_);
+        out_ = std::copy(last_, results_.eoi, out_);
         return out_;
     }
 
@@ -244,7 +244,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -279,7 +279,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -319,7 +319,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -352,7 +352,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -385,7 +385,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -419,7 +419,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -451,7 +451,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -491,7 +491,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -532,7 +532,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -564,7 +564,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -603,7 +603,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 
@@ -643,7 +643,7 @@ namespace lexertl
             lexertl::lookup(sm_, results_);
         }
 
-        ret_.append(last_, results_.first);
+        ret_.append(last_, results_.eoi);
         return ret_;
     }
 }
-- 
2.43.0


From 30951cf38829271e460f6059a373ca122cb5cba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:01 +0000
Subject: [PATCH 39/51] fix: iterators of recursive lexers compared equal with
 different stacks

recursive_match_results inherited the comparison of match_results, which
leaves the stack out: two iterators that go on to give different tokens
compared equal.
---
 include/lexertl/match_results.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/lexertl/match_results.hpp b/include/lexertl/match_results.hpp
index 20a66e1..0a1cc17 100644
--- a/include/lexertl/match_results.hpp
+++ b/include/lexertl/match_results.hpp
@@ -164,6 +164,16 @@ namespace lexertl
 
             while (!stack.empty()) stack.pop();
         }
+
+        friend bool operator ==(const recursive_match_results& lhs_,
+            const recursive_match_results& rhs_)
+        {
+            using base = match_results<iter, id_type, flags>;
+
+            return static_cast<const base&>(lhs_) ==
+                static_cast<const base&>(rhs_) &&
+                lhs_.stack == rhs_.stack;
+        }
     };
 
     using smatch = match_results<std::string::const_iterator>;
-- 
2.43.0


From 1d4096b1eee9e5dae69d9ef85e573df0acc83468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 40/51] fix: subview() did not compile for string iterators

---
 include/lexertl/match_results.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexertl/match_results.hpp b/include/lexertl/match_results.hpp
index 0a1cc17..051c1a2 100644
--- a/include/lexertl/match_results.hpp
+++ b/include/lexertl/match_results.hpp
@@ -75,7 +75,8 @@ namespace lexertl
         string_view subview(const std::size_t soffset_,
             const std::size_t eoffset_) const
         {
-            return string_view(first + soffset_,
+            // &* in case we are using string iterators
+            return string_view(&*(first + soffset_),
                 length() - soffset_ - eoffset_);
         }
 
-- 
2.43.0


From 455daa63254d7b7cda5d759fb51b1616b1b2f12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 41/51] fix: stream_shared_iterator.hpp lacked the includes it
 needs

std::find and memcpy were only declared when something else had included
<algorithm> and <cstring>.
---
 include/lexertl/stream_shared_iterator.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/lexertl/stream_shared_iterator.hpp b/include/lexertl/stream_shared_iterator.hpp
index b91e5d5..5e7dda4 100644
--- a/include/lexertl/stream_shared_iterator.hpp
+++ b/include/lexertl/stream_shared_iterator.hpp
@@ -9,6 +9,9 @@
 
 #include "runtime_error.hpp"
 
+#include <algorithm>
+#include <cstddef>
+#include <cstring>
 #include <istream>
 #include <iterator>
 #include <vector>
-- 
2.43.0


From 717e008ef7371650764a4a8b2abca73613e8bf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:47 +0000
Subject: [PATCH 42/51] fix: stream_shared_iterator moved overlapping ranges
 with memcpy

When more of the buffer is kept than dropped the two ranges overlap.
---
 include/lexertl/stream_shared_iterator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/stream_shared_iterator.hpp b/include/lexertl/stream_shared_iterator.hpp
index 5e7dda4..136ef1d 100644
--- a/include/lexertl/stream_shared_iterator.hpp
+++ b/include/lexertl/stream_shared_iterator.hpp
@@ -207,8 +207,9 @@ namespace lexertl
                     const size_t start_ = _buffer.size() - lowest_;
                     const size_t len_ = _buffer.size() - start_;
 
-                    memcpy(&_buffer.front(), &_buffer[lowest_], start_ *
-                        sizeof(char_type));
+                    // The ranges overlap when more is kept than dropped
+                    memmove(&_buffer.front(), _buffer.data() + lowest_,
+                        start_ * sizeof(char_type));
                     _stream.read(&_buffer.front() + start_, len_);
                     read_ = static_cast<size_t>(_stream.gcount());
                     subtract(lowest_);
-- 
2.43.0


From 2f6f154a8c441e72c84db6f58e78c87d8173ef93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 43/51] fix: assigning stream_shared_iterators miscounted the
 sharing

Assignment kept neither the reference count nor the list of clients
right: assigning from an iterator as constructed left a position that
later reloads did not adjust, assigning over one of another stream, or
over an ended one, leaked or freed the shared buffer too early, and
assigning over a constructed one left it in the list after its end.
---
 include/lexertl/stream_shared_iterator.hpp | 67 ++++++++++------------
 1 file changed, 29 insertions(+), 38 deletions(-)

diff --git a/include/lexertl/stream_shared_iterator.hpp b/include/lexertl/stream_shared_iterator.hpp
index 136ef1d..3c54ed3 100644
--- a/include/lexertl/stream_shared_iterator.hpp
+++ b/include/lexertl/stream_shared_iterator.hpp
@@ -60,17 +60,7 @@ namespace lexertl
 
         ~basic_stream_shared_iterator()
         {
-            if (_shared)
-            {
-                --_shared->_ref_count;
-                _shared->erase(this);
-
-                if (_shared->_ref_count == 0)
-                {
-                    delete _shared;
-                    _shared = nullptr;
-                }
-            }
+            release();
         }
 
         basic_stream_shared_iterator& operator =
@@ -78,37 +68,22 @@ namespace lexertl
         {
             if (this != &rhs_)
             {
+                const std::size_t index_ = rhs_._master ?
+                    rhs_._shared->lowest() : rhs_._index;
+
+                // rhs_ keeps its own share, whatever is released here.
+                release();
                 _master = false;
-                _index = rhs_._master ? rhs_._shared->lowest() : rhs_._index;
+                _live = false;
+                _index = index_;
+                _shared = rhs_._shared;
 
-                if (!_live && !rhs_._live)
-                {
-                    if (rhs_._shared)
-                    {
-                        ++rhs_._shared->_ref_count;
-                    }
-                }
-                else if (!_live && rhs_._live)
+                if (_shared)
                 {
-                    rhs_._shared->_clients.push_back(this);
-
-                    if (!_shared)
-                    {
-                        ++rhs_._shared->_ref_count;
-                    }
+                    ++_shared->_ref_count;
+                    _shared->_clients.push_back(this);
+                    _live = true;
                 }
-                else if (_live && !rhs_._live)
-                {
-                    _shared->erase(this);
-
-                    if (!rhs_._shared)
-                    {
-                        --_shared->_ref_count;
-                    }
-                }
-
-                _live = rhs_._live;
-                _shared = rhs_._shared;
             }
 
             return *this;
@@ -306,6 +281,22 @@ namespace lexertl
         std::size_t _index = shared::npos();
         shared* _shared = nullptr;
 
+        void release()
+        {
+            if (_shared)
+            {
+                --_shared->_ref_count;
+                _shared->erase(this);
+
+                if (_shared->_ref_count == 0)
+                {
+                    delete _shared;
+                }
+
+                _shared = nullptr;
+            }
+        }
+
         void check_master()
         {
             if (!_shared)
-- 
2.43.0


From b1d9e5434f4521679c3f648dfca170677ae0630a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 44/51] fix: stream_shared_iterator saw a character in an empty
 stream

A copy of an iterator over an empty stream started at index 0 of a buffer
nothing had been read into, so that it did not compare equal to the end
and gave a null character; on the other hand an iterator as constructed
always compared equal to the end. Both now go by the position.
---
 include/lexertl/stream_shared_iterator.hpp | 28 +++++++++++++++-------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/lexertl/stream_shared_iterator.hpp b/include/lexertl/stream_shared_iterator.hpp
index 3c54ed3..3280309 100644
--- a/include/lexertl/stream_shared_iterator.hpp
+++ b/include/lexertl/stream_shared_iterator.hpp
@@ -43,7 +43,7 @@ namespace lexertl
         }
 
         basic_stream_shared_iterator(const basic_stream_shared_iterator& rhs_) :
-            _index(rhs_._master ? rhs_._shared->lowest() : rhs_._index),
+            _index(rhs_.position()),
             _shared(rhs_._shared)
         {
             if (_shared)
@@ -68,8 +68,7 @@ namespace lexertl
         {
             if (this != &rhs_)
             {
-                const std::size_t index_ = rhs_._master ?
-                    rhs_._shared->lowest() : rhs_._index;
+                const std::size_t index_ = rhs_.position();
 
                 // rhs_ keeps its own share, whatever is released here.
                 release();
@@ -92,11 +91,12 @@ namespace lexertl
         friend bool operator ==(const basic_stream_shared_iterator& lhs_,
             const basic_stream_shared_iterator& rhs_)
         {
-            return lhs_._index == rhs_._index &&
+            const std::size_t index_ = lhs_.position();
+
+            return index_ == rhs_.position() &&
                 (lhs_._shared == rhs_._shared ||
-                    (lhs_._index == shared::npos() ||
-                        rhs_._index == shared::npos()) &&
-                    (!lhs_._shared || !rhs_._shared));
+                    (index_ == shared::npos() &&
+                    (!lhs_._shared || !rhs_._shared)));
         }
 
         friend bool operator !=(const basic_stream_shared_iterator& lhs_,
@@ -281,6 +281,18 @@ namespace lexertl
         std::size_t _index = shared::npos();
         shared* _shared = nullptr;
 
+        // An iterator as constructed stands where the first of its copies
+        // does, which is the end when there is nothing left to read.
+        std::size_t position() const
+        {
+            if (!_master)
+                return _index;
+
+            const std::size_t lowest_ = _shared->lowest();
+
+            return lowest_ < _shared->_len ? lowest_ : shared::npos();
+        }
+
         void release()
         {
             if (_shared)
@@ -307,9 +319,9 @@ namespace lexertl
 
             if (_master)
             {
+                _index = position();
                 _master = false;
                 _live = true;
-                _index = _shared->lowest();
             }
         }
 
-- 
2.43.0


From 0423f44806a6f2c0ab3a4d6e69243d346b9aa709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 45/51] fix: memory files of wide characters were only partly
 unmapped

munmap() was given the number of characters instead of bytes.
---
 include/lexertl/memory_file.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/memory_file.hpp b/include/lexertl/memory_file.hpp
index d1c7768..a9f8b51 100644
--- a/include/lexertl/memory_file.hpp
+++ b/include/lexertl/memory_file.hpp
@@ -93,7 +93,8 @@ namespace lexertl
                     }
                     else
                     {
-                        _size = sbuf_.st_size / sizeof(char_type);
+                        _bytes = sbuf_.st_size;
+                        _size = _bytes / sizeof(char_type);
                     }
                 }
             }
@@ -117,7 +118,8 @@ namespace lexertl
 #ifdef _WIN32
                 ::UnmapViewOfFile(_data);
 #else
-                ::munmap(const_cast<char_type*>(_data), _size);
+                ::munmap(const_cast<char_type*>(_data), _bytes);
+                _bytes = 0;
 #endif
                 _data = nullptr;
                 _size = 0;
@@ -148,6 +150,7 @@ namespace lexertl
         HANDLE _fh = nullptr;
         HANDLE _fmh = nullptr;
 #else
+        std::size_t _bytes = 0;
         int _fh = 0;
 #endif
     };
-- 
2.43.0


From 06057300e963c7a9ea230e9f1c1e4141de6db89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:23 +0000
Subject: [PATCH 46/51] fix: memory_file leaked file descriptors

Reopening closed the previous file only if it had been mapped (an empty
file or a directory is opened but not mapped), and descriptor 0 was never
closed.
---
 include/lexertl/memory_file.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/lexertl/memory_file.hpp b/include/lexertl/memory_file.hpp
index a9f8b51..4faad3f 100644
--- a/include/lexertl/memory_file.hpp
+++ b/include/lexertl/memory_file.hpp
@@ -46,10 +46,7 @@ namespace lexertl
 
         void open(const char* pathname_)
         {
-            if (_data)
-            {
-                close();
-            }
+            close();
 
 #ifdef _WIN32
             _fh = ::CreateFileA(pathname_, GENERIC_READ, FILE_SHARE_READ,
@@ -136,10 +133,10 @@ namespace lexertl
 
             _fh = nullptr;
 #else
-            if (_fh)
+            if (_fh > -1)
                 ::close(_fh);
 
-            _fh = 0;
+            _fh = -1;
 #endif
         }
 
@@ -151,7 +148,7 @@ namespace lexertl
         HANDLE _fmh = nullptr;
 #else
         std::size_t _bytes = 0;
-        int _fh = 0;
+        int _fh = -1;
 #endif
     };
 
-- 
2.43.0


From 6bea102225c5152953837e5557cedba9d97bc090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:09 +0000
Subject: [PATCH 47/51] fix: UTF output iterators compared equal inside a
 character

Two iterators at different bytes of the encoding of one character compared
equal, so that the text between them seemed empty and loops over it ended
at once.
---
 include/lexertl/utf_iterators.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/lexertl/utf_iterators.hpp b/include/lexertl/utf_iterators.hpp
index 1ec4ae2..33c1d3e 100644
--- a/include/lexertl/utf_iterators.hpp
+++ b/include/lexertl/utf_iterators.hpp
@@ -283,13 +283,13 @@ namespace lexertl
         friend bool operator ==(const basic_utf8_out_iterator& lhs_,
             const basic_utf8_out_iterator& rhs_)
         {
-            return lhs_._it == rhs_._it;
+            return lhs_._it == rhs_._it && lhs_._index == rhs_._index;
         }
 
         friend bool operator !=(const basic_utf8_out_iterator& lhs_,
             const basic_utf8_out_iterator& rhs_)
         {
-            return lhs_._it != rhs_._it;
+            return !(lhs_ == rhs_);
         }
 
         basic_utf8_out_iterator& operator ++()
@@ -329,13 +329,14 @@ namespace lexertl
 
         void next()
         {
+            _index = 0;
+
             if (_it == _eoi)
                 return;
 
             const std::size_t ch_ = *_it;
 
             _count = len(ch_);
-            _index = 0;
 
             switch (_count)
             {
@@ -544,13 +545,13 @@ namespace lexertl
         friend bool operator ==(const basic_utf16_out_iterator& lhs_,
             const basic_utf16_out_iterator& rhs_)
         {
-            return lhs_._it == rhs_._it;
+            return lhs_._it == rhs_._it && lhs_._index == rhs_._index;
         }
 
         friend bool operator !=(const basic_utf16_out_iterator& lhs_,
             const basic_utf16_out_iterator& rhs_)
         {
-            return lhs_._it != rhs_._it;
+            return !(lhs_ == rhs_);
         }
 
         basic_utf16_out_iterator& operator ++()
@@ -590,13 +591,14 @@ namespace lexertl
 
         void next()
         {
+            _index = 0;
+
             if (_it == _eoi)
                 return;
 
             const std::size_t ch_ = *_it;
 
             _count = len(ch_);
-            _index = 0;
 
             switch (_count)
             {
-- 
2.43.0


From 2ff3ca3a3f6d3d379c6d44f1ea4c1ca2aa5764db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 48/51] fix: non-greedy alternatives at the end of a rule were
 dropped

A trailing non-greedy repeat that can be empty was removed together with its
alternative, so that a(b|c*?) no longer matched "a". The group becomes
optional now. A minimum written with several zeroes ({00,3}?) was not taken
for zero.
---
 include/lexertl/abstemious.hpp | 45 +++++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/include/lexertl/abstemious.hpp b/include/lexertl/abstemious.hpp
index ebbc7cd..c2bee8f 100644
--- a/include/lexertl/abstemious.hpp
+++ b/include/lexertl/abstemious.hpp
@@ -45,8 +45,11 @@ namespace lexertl
                         op_._type = detail::token_type::REPEATN;
                         op_._extra = op_._extra.substr(0, op_._extra.find(','));
 
-                        if (op_._extra.size() == 1 && op_._extra.front() == '0')
+                        if (op_._extra.find_first_not_of('0') ==
+                            op_._extra.npos)
+                        {
                             remove_sequence(tokens_, start_, idx_);
+                        }
 
                         break;
                     default:
@@ -83,6 +86,7 @@ namespace lexertl
                     idx_ = end_block(tokens_, idx_ + 1);
                     break;
                 case detail::token_type::CLOSEPAREN:
+                case detail::token_type::OPT:
                     ++idx_;
                     break;
                 case detail::token_type::END:
@@ -174,16 +178,51 @@ namespace lexertl
                 --start_;
                 --iter_;
                 ++idx_;
+
+                if (tokens_[idx_ + 1]._type == detail::token_type::OPT)
+                    ++idx_;
             }
 
             iter_ = tokens_.erase(iter_, tokens_.begin() + idx_ + 1);
 
             if (iter_->_type == detail::token_type::OR)
-                tokens_.erase(iter_);
+                make_optional(tokens_, tokens_.erase(iter_));
             else if (iter_->_type != detail::token_type::BEGIN &&
                 (iter_ - 1)->_type == detail::token_type::OR)
             {
-                tokens_.erase(--iter_);
+                make_optional(tokens_, tokens_.erase(--iter_));
+            }
+        }
+
+        // An alternative that could be empty has been removed from the group
+        // that ends after iter_ (if there is one), so that the group itself
+        // can be empty now.
+        static void make_optional(token_vector& tokens_,
+            typename token_vector::iterator iter_)
+        {
+            std::size_t parens_ = 0;
+
+            for (; iter_ != tokens_.end(); ++iter_)
+            {
+                if (iter_->_type == detail::token_type::OPENPAREN)
+                    ++parens_;
+                else if (iter_->_type == detail::token_type::CLOSEPAREN)
+                {
+                    if (parens_ == 0)
+                    {
+                        ++iter_;
+
+                        if (iter_->_type != detail::token_type::OPT)
+                        {
+                            tokens_.insert(iter_,
+                                token(detail::token_type::OPT));
+                        }
+
+                        break;
+                    }
+
+                    --parens_;
+                }
             }
         }
     };
-- 
2.43.0


From 4ba9eb6dd8865f8d9ae759878cae6502d1f19c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 49/51] fix: results objects of lexers that push and pop within
 a single state did not compile

A recursive_match_results object made for exactly the features of such a
machine (no multi_state) was rejected by the compiler.
---
 include/lexertl/lookup.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/lookup.hpp b/include/lexertl/lookup.hpp
index 2df4374..e04070e 100644
--- a/include/lexertl/lookup.hpp
+++ b/include/lexertl/lookup.hpp
@@ -316,8 +316,12 @@ namespace lexertl
                         throw runtime_error("Stack underflow in "
                             "lookup_state::pop().");
 
-                    _multi_state_state._start_state =
-                        results_.stack.top().first;
+                    if constexpr ((flags & +feature_bit::multi_state) != 0)
+                    {
+                        _multi_state_state._start_state =
+                            results_.stack.top().first;
+                    }
+
                     results_.stack.pop();
                 }
                 else if (_recursive_state._push_dfa != results::npos())
-- 
2.43.0


From 17e1a9075c1bf28da749f7b87a0fb1559e01b77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 50/51] fix: generated lexers with more than ten start states
 did not compile

---
 include/lexertl/generate_cpp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lexertl/generate_cpp.hpp b/include/lexertl/generate_cpp.hpp
index 44ca913..b847f6f 100644
--- a/include/lexertl/generate_cpp.hpp
+++ b/include/lexertl/generate_cpp.hpp
@@ -811,7 +811,7 @@ namespace lexertl
 
                     ss_ << dfa_;
                     dfa_name_ += ss_.str();
-                    os_ << dfa_;
+                    os_ << ss_.str();
                 }
 
                 dfa_name_ += '_';
@@ -850,7 +850,7 @@ namespace lexertl
 
                 for (std::size_t col_ = 1; col_ < dfas_; ++col_)
                 {
-                    os_ << ", dfa" << col_ << '_';
+                    os_ << ", dfa" << std::dec << col_ << '_';
                 }
 
                 os_ << "};\n";
-- 
2.43.0


From 5f3a480299eab81e0ab9c3f9923ebec44966658c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 51/51] fix: letters of a locale were spelt out as a bracket
 expression

So [:alpha:], [:alnum:], [:lower:] and [:upper:] were refused or wrong when there are none of them, or brackets among them (as in ISO 646-DE).
---
 .../parser/tokeniser/re_tokeniser_helper.hpp  | 134 ++++++------------
 1 file changed, 46 insertions(+), 88 deletions(-)

diff --git a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
index feb2fca..c6a0f66 100644
--- a/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
+++ b/include/lexertl/parser/tokeniser/re_tokeniser_helper.hpp
@@ -558,61 +558,21 @@ namespace lexertl::detail
             }
             else
             {
-                std::string str_;
-
                 check_posix_termination(state_);
 
                 if (type_ == type::alnum)
                 {
                     // alnum
-                    str_ = sizeof(input_char_type) == 1 ?
-                        make_alnum(state_._locale) :
-                        std::string(R"([\p{Ll}\p{Lu}\p{Nd}])");
+                    insert_letters(std::ctype_base::alnum,
+                        R"([\p{Ll}\p{Lu}\p{Nd}])", state_, token_, negate_);
                 }
                 else
                 {
                     // alpha
-                    str_ = sizeof(input_char_type) == 1 ?
-                        make_alpha(state_._locale) :
-                        std::string(R"([\p{Ll}\p{Lu}])");
-                }
-
-                insert_charset(str_.c_str(), state_, token_, negate_);
-            }
-        }
-
-        static std::string make_alnum(const std::locale& locale_)
-        {
-            std::string str_(1, '[');
-
-            for (std::size_t i_ = 0; i_ < 256; ++i_)
-            {
-                if (std::use_facet<std::ctype<char> >(locale_).
-                    is(std::ctype_base::alnum, static_cast<char>(i_)))
-                {
-                    str_ += static_cast<char>(i_);
-                }
-            }
-
-            str_ += ']';
-            return str_;
-        }
-
-        static std::string make_alpha(const std::locale& locale_)
-        {
-            std::string str_(1, '[');
-
-            for (std::size_t i_ = 0; i_ < 256; ++i_)
-            {
-                if (std::use_facet<std::ctype<char> >(locale_).
-                    is(std::ctype_base::alpha, static_cast<char>(i_)))
-                {
-                    str_ += static_cast<char>(i_);
+                    insert_letters(std::ctype_base::alpha,
+                        R"([\p{Ll}\p{Lu}])", state_, token_, negate_);
                 }
             }
-
-            str_ += ']';
-            return str_;
         }
 
         template<typename state_type>
@@ -762,32 +722,12 @@ namespace lexertl::detail
             }
             else
             {
-                std::string str_ = sizeof(input_char_type) == 1 ?
-                    create_lower(state_._locale) :
-                    std::string("[\\p{Ll}]");
-
                 check_posix_termination(state_);
-                insert_charset(str_.c_str(), state_, token_, negate_);
+                insert_letters(std::ctype_base::lower, "[\\p{Ll}]",
+                    state_, token_, negate_);
             }
         }
 
-        static std::string create_lower(const std::locale& locale_)
-        {
-            std::string str_(1, '[');
-
-            for (std::size_t i_ = 0; i_ < 256; ++i_)
-            {
-                if (std::use_facet<std::ctype<char> >(locale_).
-                    is(std::ctype_base::lower, static_cast<char>(i_)))
-                {
-                    str_ += static_cast<char>(i_);
-                }
-            }
-
-            str_ += ']';
-            return str_;
-        }
-
         template<typename state_type>
         static void print_punct(state_type& state_, string_token& token_,
             const bool negate_)
@@ -923,32 +863,12 @@ namespace lexertl::detail
             }
             else
             {
-                std::string str_ = sizeof(input_char_type) == 1 ?
-                    create_upper(state_._locale) :
-                    std::string("[\\p{Lu}]");
-
                 check_posix_termination(state_);
-                insert_charset(str_.c_str(), state_, token_, negate_);
+                insert_letters(std::ctype_base::upper, "[\\p{Lu}]",
+                    state_, token_, negate_);
             }
         }
 
-        static std::string create_upper(const std::locale& locale_)
-        {
-            std::string str_(1, '[');
-
-            for (std::size_t i_ = 0; i_ < 256; ++i_)
-            {
-                if (std::use_facet<std::ctype<char> >(locale_).
-                    is(std::ctype_base::upper, static_cast<char>(i_)))
-                {
-                    str_ += static_cast<char>(i_);
-                }
-            }
-
-            str_ += ']';
-            return str_;
-        }
-
         template<typename state_type>
         static void xdigit(state_type& state_, string_token& token_,
             const bool negate_)
@@ -1038,6 +958,44 @@ namespace lexertl::detail
             throw runtime_error(ss_.str());
         }
 
+        // In 8 bit char mode, use locale
+        template<typename state_type>
+        static void insert_letters(const std::ctype_base::mask mask_,
+            const char* wide_, state_type& state_, string_token& token_,
+            const bool negate_)
+        {
+            if constexpr (sizeof(input_char_type) == 1)
+            {
+                const auto& ctype_ =
+                    std::use_facet<std::ctype<char> >(state_._locale);
+                string_token temp_token_;
+
+                for (std::size_t i_ = 0; i_ < 256; ++i_)
+                {
+                    if (ctype_.is(mask_, static_cast<char>(i_)))
+                    {
+                        const range range_(static_cast<index_type>(i_),
+                            static_cast<index_type>(i_));
+
+                        temp_token_.insert(range_);
+
+                        if (state_._flags & *regex_flags::icase)
+                        {
+                            fold(range_, state_._locale, temp_token_, one());
+                        }
+                    }
+                }
+
+                if (negate_) temp_token_.negate();
+
+                token_.insert(temp_token_);
+            }
+            else
+            {
+                insert_charset(wide_, state_, token_, negate_);
+            }
+        }
+
         template<typename state_type>
         static void insert_charset(const char* str_, state_type& state_,
             string_token& token_, const bool negate_)
-- 
2.43.0

