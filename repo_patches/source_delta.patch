From e397a3d4de50c90201f0ea750528efdae990f991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 01/57] fix: DFA minimization merged accepting with
 non-accepting states

---
 src/core/DFA.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/DFA.hpp b/src/core/DFA.hpp
index 1124e3b..dfc14d1 100644
--- a/src/core/DFA.hpp
+++ b/src/core/DFA.hpp
@@ -24,6 +24,10 @@ public:
 		: NFABaseState<TCHAR, IndexVector>(label), m_long(long_flag), m_accept(false) {}
     DFAState(const DFAState<TCHAR>& state, std::vector<DFATransition<TCHAR> >&& transitions)
         : NFABaseState<TCHAR, IndexVector>(state, std::move(transitions)), m_long(state.m_long), m_accept(state.m_accept) {}
+    bool operator==(const DFAState<TCHAR>& s) const
+    {
+        return m_accept == s.m_accept && NFABaseState<TCHAR, IndexVector>::operator==(s);
+    }
 	bool is_accept_state() const
 	{
 		return m_accept;
-- 
2.43.0


From abc6e3c992adefbdc2c8bfcddb83e67ba25cf1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 02/57] fix: adding a range to a character class could leave
 its ranges unsorted and overlapping

---
 src/core/CharClass.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/CharClass.hpp b/src/core/CharClass.hpp
index b7bccd8..ef9d90a 100644
--- a/src/core/CharClass.hpp
+++ b/src/core/CharClass.hpp
@@ -195,7 +195,7 @@ public:
 
         auto i = m_ranges.cbegin();
 
-        for (; i != m_ranges.cend() && !i->overlaps(r); i++)
+        for (; i != m_ranges.cend() && i->end() < r.start(); i++)
             ;
         
         cc.m_ranges.insert(cc.m_ranges.end(), m_ranges.cbegin(), i);
-- 
2.43.0


From 21128ffb24c0d7bca99df7d287003696848d3a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 03/57] fix: union of overlapping character classes dropped
 part of the merged range

---
 src/core/CharClass.cpp | 43 +++---------------------------------------
 1 file changed, 3 insertions(+), 40 deletions(-)

diff --git a/src/core/CharClass.cpp b/src/core/CharClass.cpp
index d42fa14..5d1ed37 100644
--- a/src/core/CharClass.cpp
+++ b/src/core/CharClass.cpp
@@ -123,50 +123,13 @@ void CharClass<TCHAR>::parse(Stream& stream)
 template<typename TCHAR>
 CharClass<TCHAR> CharClass<TCHAR>::operator|(const CharClass<TCHAR>& cc) const
 {
-    CharClass<TCHAR> new_class;
-
-    auto i = m_ranges.cbegin();
-    auto j = cc.m_ranges.cbegin();
-
-    Range<TCHAR> ri, rj;
-
-    if (i != m_ranges.cend()) ri = *i;
-    if (j != cc.m_ranges.cend()) rj = *j;
+    CharClass<TCHAR> new_class(*this);
 
-    while (i != m_ranges.cend() && j != cc.m_ranges.cend())
+    for (const auto& r : cc.m_ranges)
     {
-        if (ri < rj)
-        {
-            new_class.m_ranges.push_back(ri);
-            if (++i != m_ranges.cend())
-                ri = *i;
-        }
-        else if (ri > rj)
-        {
-            new_class.m_ranges.push_back(rj);
-            if (++j != cc.m_ranges.cend())
-                rj = *j;
-        }
-        else
-        {
-            if (ri.end() < rj.end())
-            {
-                rj = rj.merge(ri);
-                if (++i != m_ranges.cend())
-                    ri = *i;
-            }
-            else
-            {
-                ri = ri.merge(rj);
-                if (++j != cc.m_ranges.cend())
-                    rj = *j;
-            }
-        }
+        new_class |= r;
     }
 
-    new_class.m_ranges.insert(new_class.m_ranges.end(), i, m_ranges.cend());
-    new_class.m_ranges.insert(new_class.m_ranges.end(), j, cc.m_ranges.cend());
-
     return new_class;
 }
 
-- 
2.43.0


From 1aeda07bc1dcf627721d93c5d5fa6b4274b88d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 04/57] fix: character class built from a list of characters
 kept its ranges unsorted

---
 src/core/CharClass.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/CharClass.hpp b/src/core/CharClass.hpp
index ef9d90a..6bd5f13 100644
--- a/src/core/CharClass.hpp
+++ b/src/core/CharClass.hpp
@@ -126,7 +126,7 @@ public:
     {
         for (wchar_t ch : ch_list)
         {
-            m_ranges.push_back(Range<TCHAR>(ch, ch + 1));
+            *this |= Range<TCHAR>(ch, ch + 1);
         }
     }
     CharClass(wchar_t start, wchar_t end)
-- 
2.43.0


From b2fe5d914417c8ac34593c63a09e8519ae198f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:36 +0000
Subject: [PATCH 05/57] fix: complement of a character class containing NUL
 produced an inverted range

---
 src/core/CharClass.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/CharClass.hpp b/src/core/CharClass.hpp
index 6bd5f13..bbedc3c 100644
--- a/src/core/CharClass.hpp
+++ b/src/core/CharClass.hpp
@@ -171,7 +171,7 @@ public:
 
 		if (i != m_ranges.cend())
 		{
-			if (i->start() == 1)
+			if (i->start() <= 1)
 			{
 				last_end = i->end();
 				i++;
-- 
2.43.0


From 7b908eb98558d19efd2f58dd694fb6deb616cea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 06/57] fix: epsilon closure recursed forever on nested
 repetitions of nullable expressions

---
 src/core/NFA.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/NFA.hpp b/src/core/NFA.hpp
index 3f801bb..8487e44 100644
--- a/src/core/NFA.hpp
+++ b/src/core/NFA.hpp
@@ -629,7 +629,8 @@ public:
     bool epsilon_closure_sub(std::set<int>& closure, int index) const
     {
         //Always include myself
-        closure.insert(index);
+        if (!closure.insert(index).second)
+            return false;
 
         bool long_flag = false;
         IndexVector et = m_states[index].epsilon_transitions(long_flag);
-- 
2.43.0


From ab1e733d6d32c154a6b5e9a25624b7bdfa77ef29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 07/57] fix: NFA simulation read past the end of the input and
 recursed forever on epsilon cycles

---
 src/core/NFA.hpp | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/core/NFA.hpp b/src/core/NFA.hpp
index 8487e44..5cc98d0 100644
--- a/src/core/NFA.hpp
+++ b/src/core/NFA.hpp
@@ -668,27 +668,24 @@ public:
      */
     bool run(const std::basic_string<TCHAR>& seq, int index = 0, int input_pos = 0) const
     {
-        if (index == m_states.size() - 1 && seq.size() == input_pos)
-        {
-            return true;
-        }
-        else
+        bool long_flag = false;
+        std::set<int> current = epsilon_closure(index, long_flag);
+
+        for (; input_pos < seq.size(); input_pos++)
         {
-            for (const auto& tr : get_transitions(index))
+            std::set<int> next;
+
+            for (int i : current)
             {
-                if (tr.is_epsilon())
-                {
-                    if (run(seq, tr.dest(), input_pos))
-                        return true;
-                }
-                else if (tr.label().includes(seq[input_pos]))
+                for (const auto& tr : get_transitions(i))
                 {
-                    if (run(seq, tr.dest(), input_pos + 1))
-                        return true;
+                    if (!tr.is_epsilon() && tr.label().includes(seq[input_pos]))
+                        next.insert(tr.dest());
                 }
             }
-            return false;
+            current = epsilon_closure(next, long_flag);
         }
+        return current.count(m_states.size() - 1) > 0;
     }
     /*!
     * @brief Add a transition to a new state from the final state.
-- 
2.43.0


From dc4725fee0fa615dfbdf0a347e92197f3cb01e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 08/57] fix: reduction stacks were read when empty

---
 src/core/Stage2RunnerNonRecursive.hpp | 2 +-
 src/core/Stage3RunnerNonRecursive.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Stage2RunnerNonRecursive.hpp b/src/core/Stage2RunnerNonRecursive.hpp
index c40bcf5..8760d3e 100644
--- a/src/core/Stage2RunnerNonRecursive.hpp
+++ b/src/core/Stage2RunnerNonRecursive.hpp
@@ -55,7 +55,7 @@ protected:
   static void push_value(const semantic_value_type val, std::vector<semantic_value_type>& values, std::vector<detail::StackEntryTag>& tags)
   {
     if (val == 0) return;
-    if (detail::isValueTag(tags.back())) {
+    if (!tags.empty() && detail::isValueTag(tags.back())) {
       tags.back() = static_cast<detail::StackEntryTag>(static_cast<int>(tags.back()) + 1);
     } else {
       tags.emplace_back(detail::StackEntryTag::VALUE);
diff --git a/src/core/Stage3RunnerNonRecursive.hpp b/src/core/Stage3RunnerNonRecursive.hpp
index dbfb854..956fe0f 100644
--- a/src/core/Stage3RunnerNonRecursive.hpp
+++ b/src/core/Stage3RunnerNonRecursive.hpp
@@ -118,7 +118,7 @@ private:
   template <typename Iterator>
   static void append_value(Iterator& values_next_it, int n, std::vector<semantic_value_type>& values, std::vector<detail::StackEntryTag>& tags)
   {
-    if (detail::isValueTag(tags.back())) {
+    if (!tags.empty() && detail::isValueTag(tags.back())) {
       tags.back() = static_cast<detail::StackEntryTag>(static_cast<int>(tags.back()) + n);
     } else {
       tags.emplace_back(static_cast<detail::StackEntryTag>(n));
-- 
2.43.0


From 614266012a1ab3c50d64f52d59d26e1a3949c644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 09/57] fix: moving a grammar lost its rule list and its name

---
 src/core/Grammar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Grammar.hpp b/src/core/Grammar.hpp
index a339855..0fa0aa9 100644
--- a/src/core/Grammar.hpp
+++ b/src/core/Grammar.hpp
@@ -71,7 +71,7 @@ public:
         optimize();
     }
     Grammar(Grammar&& old)
-        : m_networks(std::move(old.m_networks)), m_root_id(old.m_root_id)
+        : m_networks(std::move(old.m_networks)), m_identifiers(std::move(old.m_identifiers)), m_root_id(old.m_root_id), m_grammar_name(old.m_grammar_name), m_options(std::move(old.m_options))
     {
     }
     virtual ~Grammar()
-- 
2.43.0


From 7b43cebee4a4bca1a5b87c1a321be149ec96d971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 10/57] fix: an unterminated include path was read forever

---
 src/core/Grammar.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 844c782..fd431dc 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -97,6 +97,9 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
 
             for (ch = stream.get(); ch != L'"'; ch = stream.get())
             {
+                if (ch == L'\0')
+                    throw stream.unexpected(ch);
+
                 wide_path.push_back(ch);
             }
 
-- 
2.43.0


From a52da211b3d9278abae837c4f6249acdb9594691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 11/57] fix: rule numbers beyond 15 bits were accepted although
 they do not fit a CST marker

---
 src/core/Grammar.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index fd431dc..e156f77 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -56,8 +56,8 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
         if (ch == L'\0')
             break;
 
-        if (machine_id >= 65536)
-            throw stream.toomany(65535);
+        if (machine_id >= 32768)
+            throw stream.toomany(32767);
 
         Identifier id(stream);
 
-- 
2.43.0


From 70cb22449753241f139003116d5117e518e60f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 12/57] fix: optimizing a grammar dropped the priorities of its
 alternatives

---
 src/core/ATN.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/core/ATN.hpp b/src/core/ATN.hpp
index b614473..0dd35ad 100644
--- a/src/core/ATN.hpp
+++ b/src/core/ATN.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <stack>
 #include <unordered_map>
 
@@ -138,6 +139,10 @@ public:
     {
         m_transitions.emplace_back(dest, priority);
     }
+    void add_transition(ATNTransitionType type, int dest, int priority)
+    {
+        m_transitions.emplace_back(type, dest, priority);
+    }
     /*void add_transition(const CharClass<TCHAR>& cc, int dest)
     {
         if (!cc.is_epsilon())
@@ -376,9 +381,19 @@ public:
                 {
                     assert(where >= 0);
                     ATNNode<TCHAR>& origin = m_nodes.at(where);
+
+                    //The node carries the priorities of a nested selection, which must not mix with those of another one
+                    bool is_prioritized = std::any_of(node.get_transitions().cbegin(), node.get_transitions().cend(),
+                        [](const ATNTransition<TCHAR>& t) { return t.tag() != 0; });
+                    if (is_prioritized && origin.get_transitions().size() > 1)
+                        continue;
+
+                    int tag = std::find_if(origin.get_transitions().cbegin(), origin.get_transitions().cend(),
+                        [i](const ATNTransition<TCHAR>& t) { return t.dest() == i; })->tag();
+
                     for (const auto& t : node.get_transitions())
                     {
-                        origin.add_transition(t);
+                        origin.add_transition(t.type(), t.dest(), is_prioritized ? t.tag() : tag);
                     }
                     mask[i] = false;
                 }
-- 
2.43.0


From 38385415a12c74fe1c34a09b33d9fec5d3df846a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 13/57] fix: lookahead closure recursed forever on repetitions
 of nullable expressions

---
 src/core/CompositeATN.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/CompositeATN.cpp b/src/core/CompositeATN.cpp
index 0f0564a..46b5dc9 100644
--- a/src/core/CompositeATN.cpp
+++ b/src/core/CompositeATN.cpp
@@ -67,9 +67,9 @@ void CompositeATN<TCHAR>::build_closure_exclusive(CATNClosure& closure, const AT
 
                 if (dest_node.is_terminal())
                 {
-                    closure.emplace(dest_path, color, new_priority);
-
-                    build_closure_exclusive(closure, dest_path, color, stack, new_priority);
+                    //Nodes already in the closure have been expanded
+                    if (closure.emplace(dest_path, color, new_priority).second)
+                        build_closure_exclusive(closure, dest_path, color, stack, new_priority);
                 }
                 else
                 {
@@ -91,9 +91,9 @@ void CompositeATN<TCHAR>::build_closure_inclusive(CATNClosure& closure, const AT
 
     if (node.is_terminal())
     {
-        closure.emplace(path, color, priority);
-
-        build_closure_exclusive(closure, path, color, stack, priority);
+        //Nodes already in the closure have been expanded
+        if (closure.emplace(path, color, priority).second)
+            build_closure_exclusive(closure, path, color, stack, priority);
     }
     else
     {
-- 
2.43.0


From b932b9817fed643e837800141922d51080cfe944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 14/57] fix: reduction stacks handed over to the Python final
 reducer could overflow their page

---
 src/core/Stage2RunnerNonRecursive.hpp | 26 +++++++++--------
 src/core/Stage3RunnerNonRecursive.hpp | 42 +++++++++++++++------------
 2 files changed, 38 insertions(+), 30 deletions(-)

diff --git a/src/core/Stage2RunnerNonRecursive.hpp b/src/core/Stage2RunnerNonRecursive.hpp
index 8760d3e..d547a98 100644
--- a/src/core/Stage2RunnerNonRecursive.hpp
+++ b/src/core/Stage2RunnerNonRecursive.hpp
@@ -158,19 +158,21 @@ private:
       }
     }
 #if PYCENTAURUS
+    // One word per remaining entry, in order: a marker or the length of a run of values.
+    // Each entry stems from at least one marker of the page, so that they always fit.
     auto it = src;
-    *it++ = starts.size();
-    std::memcpy(it, starts.data(), starts.size()*sizeof(CSTMarker));
-    it += starts.size();
-    *it++ = ends.size();
-    std::memcpy(it, ends.data(), ends.size()*sizeof(CSTMarker));
-    it += ends.size();
-    *it++ = values.size();
-    std::memcpy(it, values.data(), values.size()*sizeof(semantic_value_type));
-    it += values.size();
-    *it++ = tags.size();
-    std::memcpy(it, tags.data(), tags.size()*sizeof(detail::StackEntryTag));
-    assert(reinterpret_cast<uint64_t*>(reinterpret_cast<detail::StackEntryTag*>(it) + tags.size()) < src + m_bank_size / 8);
+    auto starts_it = starts.begin();
+    auto ends_it = ends.begin();
+    for (auto tag : tags) {
+      if (tag == detail::StackEntryTag::START_MARKER) {
+        std::memcpy(it++, &*starts_it++, sizeof(CSTMarker));
+      } else if (tag == detail::StackEntryTag::END_MARKER) {
+        std::memcpy(it++, &*ends_it++, sizeof(CSTMarker));
+      } else {
+        *it++ = static_cast<uint64_t>(tag);
+      }
+    }
+    if (it < src + m_bank_size / 8) *it = 0;
 #else
     *src = reinterpret_cast<uint64_t>(ptr);
 #endif
diff --git a/src/core/Stage3RunnerNonRecursive.hpp b/src/core/Stage3RunnerNonRecursive.hpp
index 956fe0f..adf54f2 100644
--- a/src/core/Stage3RunnerNonRecursive.hpp
+++ b/src/core/Stage3RunnerNonRecursive.hpp
@@ -33,17 +33,12 @@ private:
 #if PYCENTAURUS
     auto bank_ptr = reinterpret_cast<uint64_t*>(acquire_bank());
     assert(bank_ptr != nullptr);
-    std::vector<CSTMarker> starts(*bank_ptr++, CSTMarker(0));
-    std::memcpy(starts.data(), bank_ptr, starts.size()*sizeof(CSTMarker));
-    bank_ptr += starts.size();
-    std::vector<CSTMarker> ends(*bank_ptr++, CSTMarker(0));
+    std::vector<CSTMarker> starts;
+    std::vector<CSTMarker> ends;
+    std::vector<semantic_value_type> values(1, 0);
+    std::vector<detail::StackEntryTag> tags;
+    read_entries(bank_ptr, starts, ends, tags);
     assert(ends.empty());
-    std::vector<semantic_value_type> values(*bank_ptr++);
-    std::memcpy(values.data(), bank_ptr, values.size()*sizeof(semantic_value_type));
-    assert(values[0] == 0 && values.size() == 1);
-    bank_ptr += values.size();
-    std::vector<detail::StackEntryTag> tags(*bank_ptr++);
-    std::memcpy(tags.data(), bank_ptr, tags.size()*sizeof(detail::StackEntryTag));
 #else
     auto bank_base_ptr = reinterpret_cast<std::tuple<std::vector<CSTMarker>,
                                                      std::vector<CSTMarker>,
@@ -61,14 +56,10 @@ private:
     void *current_bank;
     while ((current_bank = acquire_bank()) != nullptr) {
 #if PYCENTAURUS
-      auto bank_ptr = reinterpret_cast<uint64_t*>(current_bank);
-      detail::ConstPtrRange<CSTMarker> starts_next(reinterpret_cast<CSTMarker*>(bank_ptr + 1), bank_ptr[0]);
-      bank_ptr += starts_next.size() + 1;
-      detail::ConstPtrRange<CSTMarker> ends_next(reinterpret_cast<CSTMarker*>(bank_ptr + 1), bank_ptr[0]);
-      bank_ptr += ends_next.size() + 1;
-      detail::ConstPtrRange<semantic_value_type> values_next(bank_ptr + 1, bank_ptr[0]);
-      bank_ptr += values_next.size() + 1;
-      detail::ConstPtrRange<detail::StackEntryTag> tags_next(reinterpret_cast<detail::StackEntryTag*>(bank_ptr + 1), bank_ptr[0]);
+      std::vector<CSTMarker> starts_next, ends_next;
+      std::vector<semantic_value_type> values_next;
+      std::vector<detail::StackEntryTag> tags_next;
+      read_entries(reinterpret_cast<uint64_t*>(current_bank), starts_next, ends_next, tags_next);
 #else
       auto& stack_tuple = **reinterpret_cast<std::decay<decltype(stack_tuple_base)>::type**>(current_bank);
       auto& starts_next = std::get<0>(stack_tuple);
@@ -115,6 +106,21 @@ private:
 #endif
     return result;
   }
+#if PYCENTAURUS
+  void read_entries(const uint64_t *src, std::vector<CSTMarker>& starts, std::vector<CSTMarker>& ends, std::vector<detail::StackEntryTag>& tags) const
+  {
+    for (size_t i = 0; i < m_bank_size / 8 && src[i] != 0; i++) {
+      CSTMarker marker(src[i]);
+      if (marker.is_start_marker()) {
+        push_start_marker(marker, starts, tags);
+      } else if (marker.is_end_marker()) {
+        push_end_marker(marker, ends, tags);
+      } else {
+        tags.emplace_back(static_cast<detail::StackEntryTag>(src[i]));
+      }
+    }
+  }
+#endif
   template <typename Iterator>
   static void append_value(Iterator& values_next_it, int n, std::vector<semantic_value_type>& values, std::vector<detail::StackEntryTag>& tags)
   {
-- 
2.43.0


From e8faffef25ea21d56b5472043a2f3a33f007298c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:42 +0000
Subject: [PATCH 15/57] fix: final stage took an already reduced input for a
 start marker

---
 src/core/Stage3Runner.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/Stage3Runner.hpp b/src/core/Stage3Runner.hpp
index 3e70758..d66f78c 100644
--- a/src/core/Stage3Runner.hpp
+++ b/src/core/Stage3Runner.hpp
@@ -44,6 +44,10 @@ private:
       m_window_position = 0;
     }
     CSTMarker start_marker(m_current_window[m_window_position++]);
+    if (start_marker.is_sv_marker()) {
+      // The second stage has already reduced the whole input
+      return SVCapsule(m_input_window, m_current_window[m_window_position - 1], m_current_window[m_window_position]);
+    }
     while (true) {
       for (; m_window_position < m_bank_size / 8; m_window_position++) {
         CSTMarker marker(m_current_window[m_window_position]);
-- 
2.43.0


From 656bc71eecdaa89bb44d0a7e70709bbd31ec99d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:44 +0000
Subject: [PATCH 16/57] fix: optional group ending in a repetition also matched
 repetitions of its tail alone

---
 src/core/NFA.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/NFA.hpp b/src/core/NFA.hpp
index 5cc98d0..8bd71f9 100644
--- a/src/core/NFA.hpp
+++ b/src/core/NFA.hpp
@@ -567,15 +567,21 @@ public:
             {
             case L'?':
                 stream.discard();
+                //Add a confluence
+                add_state(CharClass<TCHAR>());
                 //Add a skipping transition
                 add_transition_from(CharClass<TCHAR>(), 1);
                 break;
             case L'*':
                 stream.discard();
+                //Add a confluence
+                add_state(CharClass<TCHAR>());
                 //Add a skipping transition
                 add_transition_from(CharClass<TCHAR>(), 1);
                 break;
             default:
+                //Add a confluence
+                add_state(CharClass<TCHAR>());
                 //Add a skipping transition
                 add_transition_from(CharClass<TCHAR>(), 1);
                 break;
-- 
2.43.0


From 17c52909e548939b09576d586fedc8be6f675f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 17/57] fix: terminals and rule references without an id
 annotation had an undefined id

---
 src/core/ATN.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/ATN.hpp b/src/core/ATN.hpp
index 0dd35ad..c4d42ec 100644
--- a/src/core/ATN.hpp
+++ b/src/core/ATN.hpp
@@ -102,6 +102,7 @@ public:
     {
     }
     ATNNode(Stream& stream)
+        : m_localid(-1)
     {
         parse(stream);
     }
-- 
2.43.0


From 8569d15597aa99312176113d2ced4a01dc6d0db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 18/57] fix: a one-line comment in a file with CRLF line ends
 swallowed the rest of the file

---
 src/core/Stream.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/Stream.hpp b/src/core/Stream.hpp
index 36450ad..9d3f913 100644
--- a/src/core/Stream.hpp
+++ b/src/core/Stream.hpp
@@ -97,6 +97,7 @@ public:
                     m_newline_flag = true;
                     m_pos++;
                     m_cur++;
+                    return L'\n';
                 }
             }
             else if (ch == L'\n' || ch == L'\u0085' || ch == L'\u2028' || ch == L'\u2029')
-- 
2.43.0


From f3178be816294493f9109883671a530ac9be4e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 19/57] fix: an error at the first character of a line was
 reported for the line before

---
 src/core/Stream.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/Stream.hpp b/src/core/Stream.hpp
index 9d3f913..ef6f219 100644
--- a/src/core/Stream.hpp
+++ b/src/core/Stream.hpp
@@ -185,7 +185,10 @@ public:
     {
         std::ostringstream stream;
 
-        stream << "Line " << m_line << ", Pos " << m_pos << ": Unexpected character " << std::hex << (int)ch << std::dec;
+        //The character may have been peeked at only, and begin a new line
+        bool newline = m_newline_flag && ch != L'\n' && ch != L'\u0085' && ch != L'\u2028' && ch != L'\u2029';
+
+        stream << "Line " << (newline ? m_line + 1 : m_line) << ", Pos " << (newline ? 0 : m_pos) << ": Unexpected character " << std::hex << (int)ch << std::dec;
 
         return StreamException(stream.str());
     }
-- 
2.43.0


From eb49e129b698bf86ec7331b5b5dd6cf57225dc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 20/57] fix: unbalanced parentheses in a regular expression
 were accepted

---
 src/core/NFA.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/core/NFA.hpp b/src/core/NFA.hpp
index 8bd71f9..fbf3f83 100644
--- a/src/core/NFA.hpp
+++ b/src/core/NFA.hpp
@@ -441,14 +441,23 @@ public:
 
         add_transition_from(CharClass<TCHAR>(), initial_size - 1);
     }
-    void parse(Stream& stream)
+    void parse(Stream& stream, bool group = false)
     {
-        for (wchar_t ch = stream.get(); ch != L')' && ch != L'/' && ch != L'\0'; ch = stream.get())
+        wchar_t ch = stream.get();
+        for (; ch != L')' && ch != L'/' && ch != L'\0'; ch = stream.get())
         {
             NFA<TCHAR> nfa;
             nfa.parse_selection(stream, ch);
             concat(nfa);
         }
+        if (group ? ch != L')' : ch == L')')
+            throw stream.unexpected(ch);
+    }
+    void parse_group(Stream& stream)
+    {
+        NFA<TCHAR> nfa;
+        nfa.parse(stream, true);
+        concat(nfa);
     }
     void parse_unit(Stream& stream, wchar_t ch)
     {
@@ -483,7 +492,7 @@ public:
             add_state(CharClass<TCHAR>::make_star());
             break;
         case L'(':
-            concat(NFA<TCHAR>(stream));
+            parse_group(stream);
             break;
         default:
             add_state(CharClass<TCHAR>(ch));
-- 
2.43.0


From 0c37d04e807cc42adcf5f8320f8105db26a6c3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:35 +0000
Subject: [PATCH 21/57] fix: a decision point following a repeated regular
 expression maps to a node of its own

---
 src/core/CompositeATN.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/CompositeATN.hpp b/src/core/CompositeATN.hpp
index dbf6194..f6692ad 100644
--- a/src/core/CompositeATN.hpp
+++ b/src/core/CompositeATN.hpp
@@ -129,6 +129,9 @@ private:
             m_nodes.emplace_back();
             m_nodes.back().import_transitions(nfa.get_state(i), offset);
         }
+        //The transitions of the ATN node start at a node without transitions of the NFA's own
+        if (!m_nodes.back().get_transitions().empty())
+            add_node(CharClass<TCHAR>(), m_nodes.size() - 1, 0);
         return m_nodes.size() - 1;
     }
     int import_nonterminal(const Identifier& id, int origin, int tag)
-- 
2.43.0


From 049035360be974da4cc32543bd80bd75a1c73b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:32 +0000
Subject: [PATCH 22/57] fix: an empty literal has a node of its own in the
 character network

---
 src/core/CompositeATN.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/CompositeATN.hpp b/src/core/CompositeATN.hpp
index f6692ad..ffe1d60 100644
--- a/src/core/CompositeATN.hpp
+++ b/src/core/CompositeATN.hpp
@@ -112,6 +112,9 @@ private:
     }
     int import_literal_terminal(const std::basic_string<TCHAR>& literal, int origin, int tag)
     {
+        //Even an empty literal has a node of its own
+        if (literal.empty())
+            return add_node(CharClass<TCHAR>(), origin, tag);
         for (TCHAR ch : literal)
         {
             origin = add_node(CharClass<TCHAR>(ch, ch + 1), origin, tag);
-- 
2.43.0


From 8f8189fe3fc2f06eb9cb0cdf3be169136c55a8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:24 +0000
Subject: [PATCH 23/57] fix: choices made after two alternatives have parted do
 not order them

---
 src/core/Util.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Util.hpp b/src/core/Util.hpp
index d35c5df..067adb1 100644
--- a/src/core/Util.hpp
+++ b/src/core/Util.hpp
@@ -251,6 +251,9 @@ class PriorityChain : private std::vector<PriorityChainElement>
             const PriorityChainElement& p = this->operator[](i);
             const PriorityChainElement& q = chain[i];
 
+            //Choices made after two alternatives have parted do not order them
+            if (!(p.id() == q.id()) || p.index() != q.index()) return 0;
+
             if (p < q) return -1;
             if (p > q) return +1;
         }
-- 
2.43.0


From 0553d020dc9d20cdf5d136bc4a48aec8c46cfb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:02 +0000
Subject: [PATCH 24/57] fix: left-recursive rules outside decisions passed
 verification

---
 src/core/CompositeATN.cpp | 81 +++++++++++++++++++++++++++++++++++++++
 src/core/CompositeATN.hpp | 10 +++++
 src/core/Grammar.cpp      |  4 +-
 3 files changed, 94 insertions(+), 1 deletion(-)

diff --git a/src/core/CompositeATN.cpp b/src/core/CompositeATN.cpp
index 46b5dc9..6f22cba 100644
--- a/src/core/CompositeATN.cpp
+++ b/src/core/CompositeATN.cpp
@@ -180,6 +180,87 @@ bool CompositeATN<TCHAR>::verify_decisions(const std::unordered_map<Identifier,
     }
     return true;
 }
+template<typename TCHAR>
+std::set<int> CompositeATN<TCHAR>::collect_leading_nodes(const Identifier& id, const std::unordered_set<Identifier>& nullables) const
+{
+    std::set<int> nodes{0};
+    std::vector<int> unvisited{0};
+
+    while (!unvisited.empty())
+    {
+        const CATNNode<TCHAR>& node = get_node(id, unvisited.back());
+
+        unvisited.pop_back();
+
+        if (!node.is_terminal() && nullables.count(node.get_submachine()) == 0)
+            continue;
+
+        for (const auto& tr : node.get_transitions())
+        {
+            if (tr.is_epsilon() && nodes.insert(tr.dest()).second)
+                unvisited.push_back(tr.dest());
+        }
+    }
+    return nodes;
+}
+template<typename TCHAR>
+bool CompositeATN<TCHAR>::verify_recursions() const
+{
+    //The machines which can be gone through without reading anything
+    std::unordered_set<Identifier> nullables;
+
+    for (size_t prev_size = m_dict.size() + 1; nullables.size() != prev_size;)
+    {
+        prev_size = nullables.size();
+
+        for (const auto& p : m_dict)
+        {
+            for (int index : collect_leading_nodes(p.first, nullables))
+            {
+                if (p.second[index].is_stop_node() && p.second[index].is_terminal())
+                    nullables.insert(p.first);
+            }
+        }
+    }
+
+    //The machines which a machine can invoke before anything is read
+    std::unordered_map<Identifier, std::unordered_set<Identifier> > leaders;
+
+    for (const auto& p : m_dict)
+    {
+        for (int index : collect_leading_nodes(p.first, nullables))
+        {
+            if (!p.second[index].is_terminal())
+                leaders[p.first].insert(p.second[index].get_submachine());
+        }
+    }
+
+    for (const auto& p : m_dict)
+    {
+        std::unordered_set<Identifier> reached;
+        std::vector<Identifier> unvisited{p.first};
+
+        while (!unvisited.empty())
+        {
+            Identifier id = unvisited.back();
+
+            unvisited.pop_back();
+
+            for (const auto& leader : leaders[id])
+            {
+                if (reached.insert(leader).second)
+                    unvisited.push_back(leader);
+            }
+        }
+
+        if (reached.count(p.first) != 0)
+        {
+            std::wcerr << L"Left recursion found at " << p.first << std::endl;
+            return false;
+        }
+    }
+    return true;
+}
 template class CompositeATN<wchar_t>;
 template class CompositeATN<unsigned char>;
 template class CompositeATN<char>;
diff --git a/src/core/CompositeATN.hpp b/src/core/CompositeATN.hpp
index ffe1d60..a770841 100644
--- a/src/core/CompositeATN.hpp
+++ b/src/core/CompositeATN.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <array>
+#include <set>
+#include <unordered_set>
 
 #include "Identifier.hpp"
 #include "NFA.hpp"
@@ -475,6 +477,10 @@ private:
     void build_closure_inclusive(CATNClosure& closure, const ATNPath& path, int color, ATNStateStack& stack, const PriorityChain& priority) const;
     void build_wildcard_departure_set(CATNDepartureSetFactory<TCHAR>& deptset_factory, const Identifier& id, int color, const PriorityChain& priority, ATNStateStack& stack) const;
     void build_departure_set_r(CATNDepartureSetFactory<TCHAR>& deptset_factory, const ATNPath& path, int color, const PriorityChain& priority, ATNStateStack& stack) const;
+    /*!
+     * @brief Collect the nodes of a machine which can be reached before anything is read
+     */
+    std::set<int> collect_leading_nodes(const Identifier& id, const std::unordered_set<Identifier>& nullables) const;
 public:
     CompositeATN(const Grammar<TCHAR>& grammar)
     {
@@ -487,6 +493,10 @@ public:
     {
     }
     bool verify_decisions(const std::unordered_map<Identifier, ATNMachine<TCHAR> >& network) const;
+    /*!
+     * @brief Check that no machine can invoke itself before anything has been read
+     */
+    bool verify_recursions() const;
     const CATNMachine<TCHAR>& operator[](const Identifier& id) const
     {
         return m_dict.at(id);
diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index e156f77..c89de46 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -145,7 +145,9 @@ bool Grammar<TCHAR>::verify() const
         }
     }
 
-    if (!CompositeATN<TCHAR>(*this).verify_decisions(m_networks))
+    CompositeATN<TCHAR> catn(*this);
+
+    if (!catn.verify_recursions() || !catn.verify_decisions(m_networks))
     {
         return false;
     }
-- 
2.43.0


From 38a7782dabd003c64c5e4057c769105be885504b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:08 +0000
Subject: [PATCH 25/57] fix: the generated code called back with the stack off
 by eight bytes

---
 src/core/CodeGenEM64T.cpp      | 16 ++--------------
 src/core/CodeGenUtilsEM64T.hpp | 21 ++++++++++++++-------
 2 files changed, 16 insertions(+), 21 deletions(-)

diff --git a/src/core/CodeGenEM64T.cpp b/src/core/CodeGenEM64T.cpp
index 677585d..66c0930 100644
--- a/src/core/CodeGenEM64T.cpp
+++ b/src/core/CodeGenEM64T.cpp
@@ -414,14 +414,8 @@ void ParserEM64T<TCHAR>::emit_machine(asmjit::X86Assembler& as, const ATNMachine
         as.push(STACK_BACKUP_REG);
         as.movdqa(asmjit::x86::xmm15, PATTERN_REG);
         as.mov(ARG1_REG, asmjit::X86Mem(asmjit::x86::rsp, 8));
-#if defined(CENTAURUS_BUILD_WINDOWS)
-        as.sub(asmjit::x86::rsp, 32);
-#endif
         as.sfence();
-        as.call((uint64_t)request_page);
-#if defined(CENTAURUS_BUILD_WINDOWS)
-        as.add(asmjit::x86::rsp, 32);
-#endif
+        call_aligned(as, (uint64_t)request_page);
         as.mov(OUTPUT_REG, asmjit::x86::rax);
         as.mov(OUTPUT_BOUND_REG, OUTPUT_REG);
         as.add(OUTPUT_BOUND_REG, AST_BUF_SIZE);
@@ -441,14 +435,8 @@ void ParserEM64T<TCHAR>::emit_machine(asmjit::X86Assembler& as, const ATNMachine
         as.push(STACK_BACKUP_REG);
         as.movdqa(asmjit::x86::xmm15, PATTERN_REG);
         as.mov(ARG1_REG, asmjit::X86Mem(asmjit::x86::rsp, 8));
-#if defined(CENTAURUS_BUILD_WINDOWS)
-        as.sub(asmjit::x86::rsp, 32);
-#endif
         as.sfence();
-        as.call((uint64_t)request_page);
-#if defined(CENTAURUS_BUILD_WINDOWS)
-        as.add(asmjit::x86::rsp, 32);
-#endif
+        call_aligned(as, (uint64_t)request_page);
         as.mov(OUTPUT_REG, asmjit::x86::rax);
         as.mov(OUTPUT_BOUND_REG, OUTPUT_REG);
         as.add(OUTPUT_BOUND_REG, AST_BUF_SIZE);
diff --git a/src/core/CodeGenUtilsEM64T.hpp b/src/core/CodeGenUtilsEM64T.hpp
index e1f72de..1d2094b 100644
--- a/src/core/CodeGenUtilsEM64T.hpp
+++ b/src/core/CodeGenUtilsEM64T.hpp
@@ -80,6 +80,19 @@ static void push_arg(asmjit::X86Assembler& as, T1 arg1, Ts... args)
 	as.push(arg1);
 }
 
+//Calls a function with the stack aligned to 16 bytes, as both of the calling conventions require.
+//RBX is preserved by the callee and is not in use where functions are called.
+static void call_aligned(asmjit::X86Assembler& as, uint64_t addr)
+{
+	as.mov(asmjit::x86::rbx, asmjit::x86::rsp);
+	as.and_(asmjit::x86::rsp, asmjit::Imm(-16));
+#if defined(CENTAURUS_BUILD_WINDOWS)
+	as.sub(asmjit::x86::rsp, 32);
+#endif
+	as.call(addr);
+	as.mov(asmjit::x86::rsp, asmjit::x86::rbx);
+}
+
 template<typename T, typename... Ts>
 static void call_abs(asmjit::X86Assembler& as, T addr, Ts... args)
 {
@@ -89,13 +102,7 @@ static void call_abs(asmjit::X86Assembler& as, T addr, Ts... args)
 	if (sizeof...(args) >= 3) as.pop(ARG3_REG);
 	if (sizeof...(args) >= 4) as.pop(ARG4_REG);
 	
-#if defined(CENTAURUS_BUILD_WINDOWS)
-	as.sub(asmjit::x86::rsp, 32);
-#endif
-	as.call(reinterpret_cast<uint64_t>(addr));
-#if defined(CENTAURUS_BUILD_WINDOWS)
-	as.add(asmjit::x86::rsp, 32);
-#endif
+	call_aligned(as, reinterpret_cast<uint64_t>(addr));
 }
 
 static void emit_parser_prolog(asmjit::X86Assembler& as)
-- 
2.43.0


From e6fa7150513f6d3bf8fc1bfa36bc5dea502ebd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:08 +0000
Subject: [PATCH 26/57] fix: a possessive loop lost characters on several
 transitions or of more than eight ranges

---
 src/core/CodeGenEM64T.cpp | 44 ++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/core/CodeGenEM64T.cpp b/src/core/CodeGenEM64T.cpp
index 66c0930..b489eea 100644
--- a/src/core/CodeGenEM64T.cpp
+++ b/src/core/CodeGenEM64T.cpp
@@ -573,28 +573,38 @@ void DFARoutineEM64T<TCHAR>::emit_state(asmjit::X86Assembler& as, asmjit::Label&
 {
     std::vector<NFATransition<TCHAR> > transitions(state.get_transitions());
 
-    for (auto i = transitions.begin(); i != transitions.end();)
+    //All the characters the state loops on, whichever of its transitions they are on
+    CharClass<TCHAR> loopclass;
+
+    for (const auto& tr : transitions)
     {
-        if (i->dest() == index && state.is_long())
-        {
-            pool.load_charclass_filter(PATTERN2_REG, i->label());
+        if (tr.dest() == index && state.is_long())
+            loopclass = loopclass | tr.label();
+    }
 
-            asmjit::Label looplabel = as.newLabel();
+    //A character class of more ranges than the filter can hold goes the way of the other transitions
+    if (loopclass.size() >= 1 && loopclass.size() <= (sizeof(TCHAR) == 1 ? 8 : 4))
+    {
+        pool.load_charclass_filter(PATTERN2_REG, loopclass);
 
-            as.bind(looplabel);
+        asmjit::Label looplabel = as.newLabel();
 
-            as.movdqu(LOAD_REG, asmjit::X86Mem(INPUT_REG, 0));
-            as.pcmpistri(PATTERN2_REG, LOAD_REG, asmjit::Imm(sizeof(TCHAR) == 1 ? 0x14 : 0x15));
-            if (sizeof(TCHAR) == 2)
-                as.sal(INDEX_REG, 1);
-            as.add(INPUT_REG, INDEX_REG);
-            as.cmp(INDEX_REG, 15);
-            as.jg(looplabel);
-            i = transitions.erase(i);
-        }
-        else
+        as.bind(looplabel);
+
+        as.movdqu(LOAD_REG, asmjit::X86Mem(INPUT_REG, 0));
+        as.pcmpistri(PATTERN2_REG, LOAD_REG, asmjit::Imm(sizeof(TCHAR) == 1 ? 0x14 : 0x15));
+        if (sizeof(TCHAR) == 2)
+            as.sal(INDEX_REG, 1);
+        as.add(INPUT_REG, INDEX_REG);
+        as.cmp(INDEX_REG, 15);
+        as.jg(looplabel);
+
+        for (auto i = transitions.begin(); i != transitions.end();)
         {
-            i++;
+            if (i->dest() == index)
+                i = transitions.erase(i);
+            else
+                i++;
         }
     }
 
-- 
2.43.0


From f055cb05b4699d4d05806c9fc5f2ddf63d7bacae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:08 +0000
Subject: [PATCH 27/57] fix: a dot matched the zero behind the end of the input

---
 src/core/CharClass.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/CharClass.hpp b/src/core/CharClass.hpp
index bbedc3c..db9c6b1 100644
--- a/src/core/CharClass.hpp
+++ b/src/core/CharClass.hpp
@@ -156,7 +156,7 @@ public:
     }
     static CharClass<TCHAR> make_star()
     {
-        return CharClass<TCHAR>(0, std::numeric_limits<TCHAR>::max());
+        return CharClass<TCHAR>(1, std::numeric_limits<TCHAR>::max());
     }
     bool is_epsilon() const
     {
-- 
2.43.0


From fa09d25a3eb3e31531312a3b16879547076add96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:08 +0000
Subject: [PATCH 28/57] fix: the last page of a rejected input was left as it
 was

---
 src/core/CodeGenEM64T.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/core/CodeGenEM64T.cpp b/src/core/CodeGenEM64T.cpp
index b489eea..00908d3 100644
--- a/src/core/CodeGenEM64T.cpp
+++ b/src/core/CodeGenEM64T.cpp
@@ -129,13 +129,26 @@ void ParserEM64T<TCHAR>::init(const Grammar<TCHAR>& grammar, asmjit::Logger *log
     asmjit::Label finishlabel = as.newLabel();
     as.jmp(finishlabel);
 
+    //The rest of the page is filled in when the input is rejected, too
+    asmjit::Label discardlabel = as.newLabel();
+    as.bind(discardlabel);
+    as.xor_(MARKER_REG, MARKER_REG);
+    asmjit::Label discardlooplabel = as.newLabel();
+    as.bind(discardlooplabel);
+    as.movnti(asmjit::X86Mem(OUTPUT_REG, 0), MARKER_REG);
+    as.add(OUTPUT_REG, asmjit::Imm(8));
+    as.cmp(OUTPUT_REG, OUTPUT_BOUND_REG);
+    as.jne(discardlooplabel);
+    as.sfence();
+    as.jmp(rejectlabel);
+
     CompositeATN<TCHAR> catn(grammar);
 
     for (const auto& p : grammar.get_machines())
     {
         as.bind(machine_map[p.first]);
 
-        emit_machine(as, p.second, machine_map, catn, p.first, rejectlabel, pool);
+        emit_machine(as, p.second, machine_map, catn, p.first, discardlabel, pool);
     }
 
     as.bind(finishlabel);
-- 
2.43.0


From 1743123dcce9024858e90d3e933814254afe5783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:08 +0000
Subject: [PATCH 29/57] fix: an input that ends at the end of a memory page was
 read past its mapping

---
 src/core/BaseRunner.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/core/BaseRunner.hpp b/src/core/BaseRunner.hpp
index 27b5f31..c931438 100644
--- a/src/core/BaseRunner.hpp
+++ b/src/core/BaseRunner.hpp
@@ -147,7 +147,10 @@ public:
         fstat(fd, &sb);
         m_input_size = sb.st_size;
 
-        m_input_window = mmap(NULL, sb.st_size, PROT_READ, MAP_SHARED, fd, 0);
+        //The input is followed by zeros, whatever its size: the parser reads past its end
+        m_input_window = mmap(NULL, get_input_window_size(), PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
+        if (m_input_size > 0 && m_input_window != MAP_FAILED)
+            mmap(const_cast<void *>(m_input_window), m_input_size, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0);
 
         close(fd);
 
@@ -161,7 +164,7 @@ public:
 #if defined(CENTAURUS_BUILD_WINDOWS)
         UnmapViewOfFile(m_input_window);
 #elif defined(CENTAURUS_BUILD_LINUX)
-        munmap(const_cast<void *>(m_input_window), m_input_size);
+        munmap(const_cast<void *>(m_input_window), get_input_window_size());
 #endif
 	}
 public:
@@ -177,6 +180,13 @@ public:
 	{
 		return get_main_window_size() + get_sub_window_size();
 	}
+#if defined(CENTAURUS_BUILD_LINUX)
+    size_t get_input_window_size() const
+    {
+        const size_t page_size = sysconf(_SC_PAGESIZE);
+        return ALIGN_NEXT(m_input_size, page_size) + page_size;
+    }
+#endif
     size_t get_input_size() const
     {
         return m_input_size;
-- 
2.43.0


From 94ab1ccfae9ec20d56cdaa21ac9846ce2dd59bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:08 +0000
Subject: [PATCH 30/57] fix: the runners that attach to the shared memory left
 its descriptor open

---
 src/core/BaseRunner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/BaseRunner.hpp b/src/core/BaseRunner.hpp
index c931438..16f7e39 100644
--- a/src/core/BaseRunner.hpp
+++ b/src/core/BaseRunner.hpp
@@ -260,7 +260,7 @@ protected:
     ftruncate(fd, get_window_size());
     m_sub_window  = mmap(NULL, get_sub_window_size(), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
     m_main_window = mmap(NULL, get_main_window_size(), PROT_READ | PROT_WRITE, MAP_SHARED, fd, get_sub_window_size());
-    if (is_allocating) close(fd);
+    close(fd);
 #endif
   }
   void release_memory(bool is_finalizing)
-- 
2.43.0


From acda9baff22db1ac0fd09f0dd6f481dd3f052343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:18 +0000
Subject: [PATCH 31/57] fix: free the captured result chunks with the parser
 stage

---
 src/core/Stage1Runner.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/Stage1Runner.hpp b/src/core/Stage1Runner.hpp
index d092600..231aab2 100644
--- a/src/core/Stage1Runner.hpp
+++ b/src/core/Stage1Runner.hpp
@@ -98,6 +98,7 @@ public:
   virtual ~Stage1Runner() {
     close_semaphore(true);
     release_memory(true);
+    for (auto& chunk : result_chunks_) delete[] reinterpret_cast<const char*>(chunk.begin());
   }
 
   virtual void start() override
-- 
2.43.0


From 9d10a989be398fd5318d0328f8a51fb95930d25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:18 +0000
Subject: [PATCH 32/57] fix: a rejected input no longer trips the final
 reducer's assertions

---
 src/core/Stage3RunnerNonRecursive.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/Stage3RunnerNonRecursive.hpp b/src/core/Stage3RunnerNonRecursive.hpp
index adf54f2..12c427a 100644
--- a/src/core/Stage3RunnerNonRecursive.hpp
+++ b/src/core/Stage3RunnerNonRecursive.hpp
@@ -95,10 +95,8 @@ private:
 #endif
       release_bank();
     }
-    assert(starts.empty());
+    //NOTE: the markers and values of unfinished nonterminals remain if the input has been rejected
     assert(ends.empty());
-    assert(values.size() <= 1);
-    assert(tags.size() <= 1);
 
     auto result = (values.empty()) ? 0 : std::move(values.front());
 #if !PYCENTAURUS
-- 
2.43.0


From 3a3c9ac98431c14174bab095e9c000ae4c86680d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:45 +0000
Subject: [PATCH 33/57] fix: a Python context can parse more than one input

---
 src/python/centaurus/context.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/python/centaurus/context.py b/src/python/centaurus/context.py
index f4b1d04..348ccc0 100644
--- a/src/python/centaurus/context.py
+++ b/src/python/centaurus/context.py
@@ -15,15 +15,18 @@ class Stage1Worker(object):
         self.runner = None
         self.core_affinity=core_affinity
     def parse(self, path):
+        self.stop()
         self.runner = Stage1Runner(path, self.parser, self.context.bank_size, self.context.bank_num)
         self.runner.start()
     def start(self):
         if sys.platform.startswith('linux') and self.core_affinity >= 0:
             os.system("taskset -p -c %d %d" % (self.core_affinity, os.getpid()))
+    def wait(self):
+        self.runner.wait()
+        self.runner = None
     def stop(self):
         if self.runner:
-            self.runner.wait()
-            self.runner = None
+            self.wait()
     def attach(self, listener):
         pass
     def set_core_affinity(self, core_affinity):
@@ -35,7 +38,7 @@ class SubprocessWorker:
         self.context = context
         self.master_pid = os.getpid()
         self.proc = mp.Process(target=self.workloop)
-        self.cmd_queue = mp.Queue()
+        self.cmd_queue = mp.JoinableQueue()
         self.listener = None
         self.core_affinity = core_affinity
     def start(self):
@@ -45,6 +48,8 @@ class SubprocessWorker:
         self.proc.join()
     def parse(self, path):
         self.cmd_queue.put(('parse', path))
+    def wait(self):
+        self.cmd_queue.join()
     def attach(self, listener):
         self.listener = listener
     def set_core_affinity(self, core_affinity):
@@ -58,10 +63,11 @@ class SubprocessWorker:
         self.logger.setLevel(logging.DEBUG)
         while True:
             cmd, arg =  self.cmd_queue.get()
+            if cmd == 'parse':
+                self.parse_impl(arg)
+            self.cmd_queue.task_done()
             if cmd == 'stop':
                 break
-            elif cmd == 'parse':
-                self.parse_impl(arg)
 
 class Stage2Worker(SubprocessWorker):
     def parse_impl(self, path):
@@ -97,7 +103,14 @@ class Context(object):
     def parse(self, path):
         for w in itertools.chain(self.serial_workers, self.parallel_workers):
             w.parse(path)
-        return self.drain.get()
+        value = self.drain.get()
+        #NOTE: every worker has to leave this run before the memory of the run goes away
+        for w in self.parallel_workers:
+            w.wait()
+        stage1, stage3 = self.serial_workers
+        stage3.wait()
+        stage1.wait()
+        return value
     def stop(self):
         for w in itertools.chain(self.serial_workers, self.parallel_workers):
             w.stop()
-- 
2.43.0


From 6008473d35e38caac02c1f38688a673f2469d805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:45 +0000
Subject: [PATCH 34/57] fix: a Python context can be started again after a stop

---
 src/python/centaurus/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/centaurus/context.py b/src/python/centaurus/context.py
index 348ccc0..885a271 100644
--- a/src/python/centaurus/context.py
+++ b/src/python/centaurus/context.py
@@ -37,11 +37,11 @@ class SubprocessWorker:
     def __init__(self, context, core_affinity=-1):
         self.context = context
         self.master_pid = os.getpid()
-        self.proc = mp.Process(target=self.workloop)
         self.cmd_queue = mp.JoinableQueue()
         self.listener = None
         self.core_affinity = core_affinity
     def start(self):
+        self.proc = mp.Process(target=self.workloop)
         self.proc.start()
     def stop(self):
         self.cmd_queue.put(('stop', None))
-- 
2.43.0


From b0d957df06b2514567a53c6cf36a0ee701fc056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:45 +0000
Subject: [PATCH 35/57] fix: parsing a rejected input from Python returns None
 instead of another rule's value

---
 src/pydll/PyCentaurus.cpp       | 5 +++++
 src/python/centaurus/context.py | 9 +++++----
 src/python/centaurus/corelib.py | 5 +++++
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/pydll/PyCentaurus.cpp b/src/pydll/PyCentaurus.cpp
index eab4765..f6ea6e5 100644
--- a/src/pydll/PyCentaurus.cpp
+++ b/src/pydll/PyCentaurus.cpp
@@ -88,6 +88,11 @@ namespace Centaurus __attribute__((visibility("default")))
 		return new Stage1Runner(filename, parser, bank_size, bank_num);
 	}
 
+	CENTAURUS_EXPORT(const void *) Stage1RunnerGetResult(Stage1Runner *runner)
+	{
+		return runner->get_result();
+	}
+
 	CENTAURUS_EXPORT(void) RunnerStart(BaseRunner *runner)
 	{
 		runner->start();
diff --git a/src/python/centaurus/context.py b/src/python/centaurus/context.py
index 885a271..a25d262 100644
--- a/src/python/centaurus/context.py
+++ b/src/python/centaurus/context.py
@@ -22,8 +22,11 @@ class Stage1Worker(object):
         if sys.platform.startswith('linux') and self.core_affinity >= 0:
             os.system("taskset -p -c %d %d" % (self.core_affinity, os.getpid()))
     def wait(self):
+        """Waits for the parser; true if it has accepted the input."""
         self.runner.wait()
+        accepted = self.runner.get_result() is not None
         self.runner = None
+        return accepted
     def stop(self):
         if self.runner:
             self.wait()
@@ -84,8 +87,7 @@ class Stage3Worker(SubprocessWorker):
         runner.attach(adapter.reduction_callback, adapter.transfer_callback)
         runner.start()
         runner.wait()
-        assert len(adapter.values) <= 1
-        self.context.drain.put(adapter.values[0] if adapter.values else None)
+        self.context.drain.put(adapter.values[0] if len(adapter.values) == 1 else None)
 
 class Context(object):
     bank_size = 8 * 1024 * 1024
@@ -109,8 +111,7 @@ class Context(object):
             w.wait()
         stage1, stage3 = self.serial_workers
         stage3.wait()
-        stage1.wait()
-        return value
+        return value if stage1.wait() else None
     def stop(self):
         for w in itertools.chain(self.serial_workers, self.parallel_workers):
             w.stop()
diff --git a/src/python/centaurus/corelib.py b/src/python/centaurus/corelib.py
index 19fcd01..c059fa0 100644
--- a/src/python/centaurus/corelib.py
+++ b/src/python/centaurus/corelib.py
@@ -113,10 +113,15 @@ class BaseRunner(object):
 class Stage1Runner(BaseRunner):
     CoreLib.Stage1RunnerCreate.restype = ctypes.c_void_p
     CoreLib.Stage1RunnerCreate.argtypes = [ctypes.c_char_p, ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
+    CoreLib.Stage1RunnerGetResult.restype = ctypes.c_void_p
+    CoreLib.Stage1RunnerGetResult.argtypes = [ctypes.c_void_p]
 
     def __init__(self, filename, parser, bank_size, bank_num):
         super(Stage1Runner, self).__init__(CoreLib.Stage1RunnerCreate(filename.encode('utf-8'), parser.handle, bank_size, bank_num))
 
+    def get_result(self):
+        return CoreLib.Stage1RunnerGetResult(self.handle)
+
 class Stage2Runner(BaseRunner):
     CoreLib.Stage2RunnerCreate.restype = ctypes.c_void_p
     CoreLib.Stage2RunnerCreate.argtypes = [ctypes.c_char_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int]
-- 
2.43.0


From 618b78cfb8affa14070de6acd9f068bf2cd81c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:12 +0000
Subject: [PATCH 36/57] fix: a repeated rule definition takes no number of its
 own

---
 src/core/Grammar.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index c89de46..2a912d6 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -114,14 +114,18 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
         }
         else
         {
-            ATNMachine<TCHAR> atn(machine_id++, stream);
+            ATNMachine<TCHAR> atn(machine_id, stream);
 
             if (m_root_id.str().empty())
                 m_root_id = id;
 
-            m_networks.insert(std::pair<Identifier, ATNMachine<TCHAR> >(id, std::move(atn)));
+            //A rule keeps its first definition; only that one has a number
+            if (m_networks.insert(std::pair<Identifier, ATNMachine<TCHAR> >(id, std::move(atn))).second)
+            {
+                m_identifiers.push_back(id);
 
-            m_identifiers.push_back(id);
+                machine_id++;
+            }
         }
 
         //m_networks.emplace(Identifier(stream), ATN<TCHAR>(stream));
-- 
2.43.0


From 0720e999e71c894f962ddfe1cfb0b75cab7cfdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:12 +0000
Subject: [PATCH 37/57] fix: a grammar file that cannot be opened is refused

---
 src/core/Grammar.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 2a912d6..28fa38d 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -45,6 +45,9 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
 {
     std::wifstream grammar_file(filename, std::ios::in);
 
+    if (!grammar_file)
+        throw SimpleException(std::string("Cannot open grammar file: ") + filename);
+
     std::wstring grammar_str(std::istreambuf_iterator<wchar_t>(grammar_file), {});
 
     Stream stream(std::move(grammar_str));
-- 
2.43.0


From 6d5a62ea0edc7e5ba88a6856ec2f684734e5bc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:12 +0000
Subject: [PATCH 38/57] fix: grammar files that include each other in a circle
 are refused

---
 src/core/Grammar.cpp | 11 +++++++----
 src/core/Grammar.hpp |  4 ++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 28fa38d..1d4a21d 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -41,8 +41,11 @@ void Grammar<TCHAR>::print_ldfa(std::wostream& os, const ATNPath& path) const
     ldfa.print(os, path.leaf_id().str());
 }
 template<typename TCHAR>
-int Grammar<TCHAR>::parse(const char *filename, int machine_id)
+int Grammar<TCHAR>::parse(const char *filename, int machine_id, int include_depth)
 {
+    if (include_depth > 255)
+        throw SimpleException(std::string("Files are included too deeply: ") + filename);
+
     std::wifstream grammar_file(filename, std::ios::in);
 
     if (!grammar_file)
@@ -113,7 +116,7 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
 
             Encoder enc{};
 
-            machine_id = parse(make_include_path(filename, enc.wcstombs(wide_path)), machine_id);
+            machine_id = parse(make_include_path(filename, enc.wcstombs(wide_path)), machine_id, include_depth + 1);
         }
         else
         {
@@ -136,9 +139,9 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
     return machine_id;
 }
 template<typename TCHAR>
-int Grammar<TCHAR>::parse(const std::string& filename, int machine_id)
+int Grammar<TCHAR>::parse(const std::string& filename, int machine_id, int include_depth)
 {
-    return parse(filename.c_str(), machine_id);
+    return parse(filename.c_str(), machine_id, include_depth);
 }
 template<typename TCHAR>
 bool Grammar<TCHAR>::verify() const
diff --git a/src/core/Grammar.hpp b/src/core/Grammar.hpp
index 0fa0aa9..eac944a 100644
--- a/src/core/Grammar.hpp
+++ b/src/core/Grammar.hpp
@@ -54,8 +54,8 @@ template<typename TCHAR> class Grammar : public IGrammar
 	Identifier m_grammar_name;
     GrammarOptions m_options;
 public:
-    int parse(const char *filename, int machine_id = 1);
-    int parse(const std::string& filename, int machine_id = 1);
+    int parse(const char *filename, int machine_id = 1, int include_depth = 0);
+    int parse(const std::string& filename, int machine_id = 1, int include_depth = 0);
     const ATNNode<TCHAR>& resolve(const ATNPath& path) const
     {
         return m_networks.at(path.leaf_id()).get_node(path.leaf_index());
-- 
2.43.0


From 9a13ff1994a1b0634927eb5544ac6379874076e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:12 +0000
Subject: [PATCH 39/57] fix: grammar text beyond ASCII is read instead of
 cutting the grammar short

---
 src/core/Grammar.cpp | 54 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 1d4a21d..a541d19 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -1,6 +1,10 @@
+#include <codecvt>
+#include <fstream>
+#include <locale>
+#include <string>
+
 #include "CompositeATN.hpp"
 #include "LookaheadDFA.hpp"
-#include "Encoding.hpp"
 
 namespace
 {
@@ -20,6 +24,44 @@ std::string make_include_path(const std::string& base_path, const std::string& d
 
     return base_path.substr(0, last_slash_pos + 1) + dest_path;
 }
+
+//A grammar over bytes is read byte by byte, a grammar over wide characters is written in UTF-8
+template<typename TCHAR>
+std::wstring decode_grammar(const std::string& external)
+{
+    if (sizeof(TCHAR) == 1)
+    {
+        std::wstring internal;
+
+        for (char ch : external)
+        {
+            //Character classes cannot represent the last character
+            if (static_cast<unsigned char>(ch) == 0xFF)
+                throw Centaurus::SimpleException("Byte 0xFF in grammar file.");
+
+            internal.push_back(static_cast<unsigned char>(ch));
+        }
+
+        return internal;
+    }
+
+    return std::wstring_convert<std::codecvt_utf8<wchar_t>, wchar_t>().from_bytes(external);
+}
+template<typename TCHAR>
+std::string encode_grammar(const std::wstring& internal)
+{
+    if (sizeof(TCHAR) == 1)
+    {
+        std::string external;
+
+        for (wchar_t ch : internal)
+            external.push_back(static_cast<char>(ch));
+
+        return external;
+    }
+
+    return std::wstring_convert<std::codecvt_utf8<wchar_t>, wchar_t>().to_bytes(internal);
+}
 }
 
 namespace Centaurus
@@ -46,14 +88,14 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id, int include_dept
     if (include_depth > 255)
         throw SimpleException(std::string("Files are included too deeply: ") + filename);
 
-    std::wifstream grammar_file(filename, std::ios::in);
+    std::ifstream grammar_file(filename, std::ios::in);
 
     if (!grammar_file)
         throw SimpleException(std::string("Cannot open grammar file: ") + filename);
 
-    std::wstring grammar_str(std::istreambuf_iterator<wchar_t>(grammar_file), {});
+    std::string grammar_str(std::istreambuf_iterator<char>(grammar_file), {});
 
-    Stream stream(std::move(grammar_str));
+    Stream stream(decode_grammar<TCHAR>(grammar_str));
 
     while (1)
     {
@@ -114,9 +156,7 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id, int include_dept
                 throw stream.unexpected(ch);
             stream.discard();
 
-            Encoder enc{};
-
-            machine_id = parse(make_include_path(filename, enc.wcstombs(wide_path)), machine_id, include_depth + 1);
+            machine_id = parse(make_include_path(filename, encode_grammar<TCHAR>(wide_path)), machine_id, include_depth + 1);
         }
         else
         {
-- 
2.43.0


From ae575dee8e682c0329131a04effe0cbeb57e4460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:12 +0000
Subject: [PATCH 40/57] fix: an input file that cannot be opened or mapped is
 refused

---
 src/core/BaseRunner.hpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/core/BaseRunner.hpp b/src/core/BaseRunner.hpp
index 16f7e39..192cde2 100644
--- a/src/core/BaseRunner.hpp
+++ b/src/core/BaseRunner.hpp
@@ -2,8 +2,11 @@
 
 #include <stdio.h>
 #include <atomic>
+#include <sstream>
+#include <string>
 
 #include "BaseListener.hpp"
+#include "Exception.hpp"
 #include "Platform.hpp"
 
 #define ALIGN_NEXT(x, a) (((x) + (a) - 1) / (a) * (a))
@@ -144,16 +147,29 @@ public:
         int fd = open(filename, O_RDONLY);
 
         struct stat sb;
-        fstat(fd, &sb);
+        if (fd < 0 || fstat(fd, &sb) < 0)
+        {
+            if (fd >= 0)
+                close(fd);
+            throw SimpleException(std::string("Cannot open input file: ") + filename);
+        }
         m_input_size = sb.st_size;
 
         //The input is followed by zeros, whatever its size: the parser reads past its end
         m_input_window = mmap(NULL, get_input_window_size(), PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
-        if (m_input_size > 0 && m_input_window != MAP_FAILED)
-            mmap(const_cast<void *>(m_input_window), m_input_size, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0);
+        bool mapped = m_input_window != MAP_FAILED;
+        if (mapped && m_input_size > 0)
+            mapped = mmap(const_cast<void *>(m_input_window), m_input_size, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) != MAP_FAILED;
 
         close(fd);
 
+        if (!mapped)
+        {
+            if (m_input_window != MAP_FAILED)
+                munmap(const_cast<void *>(m_input_window), get_input_window_size());
+            throw SimpleException(std::string("Cannot map input file: ") + filename);
+        }
+
         snprintf(m_memory_name, sizeof(m_memory_name), "/%s%s[%d]Window", PROGRAM_UUID, PROGRAM_NAME, pid);
 
 		snprintf(m_slave_lock_name, sizeof(m_slave_lock_name), "/%s%s[%d]SlaveLock", PROGRAM_UUID, PROGRAM_NAME, pid);
-- 
2.43.0


From 2a92d1eda31583aa89358e737774b1ba86c6572e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:12 +0000
Subject: [PATCH 41/57] fix: a grammar that cannot be read raises an exception
 in Python

---
 src/pydll/PyCentaurus.cpp       | 11 ++++++++++-
 src/python/centaurus/corelib.py |  2 ++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pydll/PyCentaurus.cpp b/src/pydll/PyCentaurus.cpp
index f6ea6e5..129bb38 100644
--- a/src/pydll/PyCentaurus.cpp
+++ b/src/pydll/PyCentaurus.cpp
@@ -23,7 +23,16 @@ namespace Centaurus __attribute__((visibility("default")))
 {
 	CENTAURUS_EXPORT(IGrammar *) GrammarCreate(const char *filename)
 	{
-		return new Grammar<unsigned char>(filename);
+		//An exception must not leave through the C interface
+		try
+		{
+			return new Grammar<unsigned char>(filename);
+		}
+		catch (const std::exception& ex)
+		{
+			std::cerr << ex.what() << std::endl;
+		}
+		return nullptr;
 	}
 
 	CENTAURUS_EXPORT(void) GrammarDestroy(IGrammar *grammar)
diff --git a/src/python/centaurus/corelib.py b/src/python/centaurus/corelib.py
index c059fa0..669175d 100644
--- a/src/python/centaurus/corelib.py
+++ b/src/python/centaurus/corelib.py
@@ -31,6 +31,8 @@ class Grammar(object):
 
     def __init__(self, filename):
         self.handle = CoreLib.GrammarCreate(filename.encode('utf-8'))
+        if self.handle is None:
+            raise ValueError('Cannot read the grammar {}'.format(filename))
         self.actions = []
         self.ids = {}
         CoreLib.GrammarEnumMachines(self.handle, EnumMachinesCallback(self.enum_machines_callback))
-- 
2.43.0


From ebcc387b528f83b0583c5b62c9d848f2ff3c8c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:12 +0000
Subject: [PATCH 42/57] fix: a grammar that is no parser raises an exception in
 Python

---
 src/pydll/PyCentaurus.cpp       | 28 +++++++++++++++++++++-------
 src/python/centaurus/corelib.py |  4 ++++
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/pydll/PyCentaurus.cpp b/src/pydll/PyCentaurus.cpp
index 129bb38..8b0abbe 100644
--- a/src/pydll/PyCentaurus.cpp
+++ b/src/pydll/PyCentaurus.cpp
@@ -61,12 +61,19 @@ namespace Centaurus __attribute__((visibility("default")))
 	{
 		Grammar<unsigned char> *g_c = dynamic_cast<Grammar<unsigned char> *>(grammar);
 
-		if (g_c)
+		try
+		{
+			if (g_c)
+			{
+				if (dry)
+					return new DryParserEM64T<unsigned char>(*g_c);
+				else
+					return new ParserEM64T<unsigned char>(*g_c);
+			}
+		}
+		catch (const std::exception& ex)
 		{
-			if (dry)
-				return new DryParserEM64T<unsigned char>(*g_c);
-			else
-				return new ParserEM64T<unsigned char>(*g_c);
+			std::cerr << ex.what() << std::endl;
 		}
 
 		return nullptr;
@@ -81,8 +88,15 @@ namespace Centaurus __attribute__((visibility("default")))
 	{
 		Grammar<unsigned char> *g_c = dynamic_cast<Grammar<unsigned char> *>(grammar);
 
-		if (g_c)
-			return new ChaserEM64T<unsigned char>(*g_c);
+		try
+		{
+			if (g_c)
+				return new ChaserEM64T<unsigned char>(*g_c);
+		}
+		catch (const std::exception& ex)
+		{
+			std::cerr << ex.what() << std::endl;
+		}
 
 		return nullptr;
 	}
diff --git a/src/python/centaurus/corelib.py b/src/python/centaurus/corelib.py
index 669175d..0c7349c 100644
--- a/src/python/centaurus/corelib.py
+++ b/src/python/centaurus/corelib.py
@@ -61,6 +61,8 @@ class Parser(object):
 
     def __init__(self, grammar, dry = False):
         self.handle = CoreLib.ParserCreate(grammar.handle, dry)
+        if self.handle is None:
+            raise ValueError('Cannot make a parser of the grammar')
 
     def __del__(self):
         CoreLib.ParserDestroy(self.handle)
@@ -72,6 +74,8 @@ class Chaser(object):
 
     def __init__(self, grammar):
         self.handle = CoreLib.ChaserCreate(grammar.handle)
+        if self.handle is None:
+            raise ValueError('Cannot make a parser of the grammar')
 
     def __del__(self):
         CoreLib.ChaserDestroy(self.handle)
-- 
2.43.0


From 58c996d70018ff11788015c8cc88ccac1d9fb1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:12 +0000
Subject: [PATCH 43/57] fix: parsing a file that cannot be opened raises an
 exception in Python

---
 src/python/centaurus/context.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/centaurus/context.py b/src/python/centaurus/context.py
index a25d262..02239a3 100644
--- a/src/python/centaurus/context.py
+++ b/src/python/centaurus/context.py
@@ -103,6 +103,8 @@ class Context(object):
             w.attach(self.listener)
             w.start()
     def parse(self, path):
+        #NOTE: fails here, before any worker takes part, if the input is not readable
+        open(path, 'rb').close()
         for w in itertools.chain(self.serial_workers, self.parallel_workers):
             w.parse(path)
         value = self.drain.get()
-- 
2.43.0


From 61f2a394d9d2a806226656e802ec7c7d38ad3eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:12 +0000
Subject: [PATCH 44/57] fix: the drawn lookahead automaton is that of the
 decision point asked for

---
 src/core/Grammar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index a541d19..cdc7c86 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -78,7 +78,7 @@ void Grammar<TCHAR>::print_ldfa(std::wostream& os, const ATNPath& path) const
 {
     CompositeATN<TCHAR> catn(*this);
 
-    LookaheadDFA<TCHAR> ldfa(catn, path);
+    LookaheadDFA<TCHAR> ldfa(catn, catn.convert_atn_path(path));
 
     ldfa.print(os, path.leaf_id().str());
 }
-- 
2.43.0


From da5999d8b003dc8665513d13c623f3265d038c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:12 +0000
Subject: [PATCH 45/57] fix: two drawn occurrences of rules never share a name

---
 src/core/ATN.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ATN.hpp b/src/core/ATN.hpp
index c4d42ec..ecb3f64 100644
--- a/src/core/ATN.hpp
+++ b/src/core/ATN.hpp
@@ -463,7 +463,7 @@ class ATNPrinter
 private:
 	std::pair<std::wstring, std::wstring> print_atn(std::wostream& os, int index, const Identifier& key)
 	{
-		std::wstring prefix = key + std::to_wstring(m_counter++);
+		std::wstring prefix = key + (L"_" + std::to_wstring(m_counter++));
 
 		os << L"subgraph cluster_" << prefix << L" {" << std::endl;
 
-- 
2.43.0


From 6710128efa72f96ece8af738c56256ca504c7e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:12 +0000
Subject: [PATCH 46/57] fix: printing an empty index vector stays inside it

---
 src/core/Util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Util.cpp b/src/core/Util.cpp
index a0c795a..ae56c2d 100644
--- a/src/core/Util.cpp
+++ b/src/core/Util.cpp
@@ -20,7 +20,7 @@ std::wostream& operator<<(std::wostream& os, const ATNPath& path)
 std::wostream& operator<<(std::wostream& os, const IndexVector& v)
 {
     os << L'[';
-    for (unsigned int i = 0; i < v.size() - 1; i++)
+    for (unsigned int i = 0; i + 1 < v.size(); i++)
     {
         os << v[i] << L',';
     }
-- 
2.43.0


From a60da2212a9d2daa8060d2811fccfdd2c5f81bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:12 +0000
Subject: [PATCH 47/57] fix: a path that names no node is refused

---
 src/core/Grammar.cpp | 2 ++
 src/core/Grammar.hpp | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index cdc7c86..2446910 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -76,6 +76,8 @@ void Grammar<TCHAR>::print_catn(std::wostream& os, const Identifier& id) const
 template<typename TCHAR>
 void Grammar<TCHAR>::print_ldfa(std::wostream& os, const ATNPath& path) const
 {
+    resolve(path);
+
     CompositeATN<TCHAR> catn(*this);
 
     LookaheadDFA<TCHAR> ldfa(catn, catn.convert_atn_path(path));
diff --git a/src/core/Grammar.hpp b/src/core/Grammar.hpp
index eac944a..cfb9014 100644
--- a/src/core/Grammar.hpp
+++ b/src/core/Grammar.hpp
@@ -58,7 +58,12 @@ public:
     int parse(const std::string& filename, int machine_id = 1, int include_depth = 0);
     const ATNNode<TCHAR>& resolve(const ATNPath& path) const
     {
-        return m_networks.at(path.leaf_id()).get_node(path.leaf_index());
+        const ATNMachine<TCHAR>& atn = m_networks.at(path.leaf_id());
+
+        if (path.leaf_index() < 0 || path.leaf_index() >= atn.get_node_num())
+            throw SimpleException("The specified node does not exist.");
+
+        return atn.get_node(path.leaf_index());
     }
 public:
     Grammar()
-- 
2.43.0


From 70f96fca2521220dd457f58954f6e0f29b933fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:12 +0000
Subject: [PATCH 48/57] fix: an expression cut off after an alternation is
 refused

---
 src/core/NFA.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/NFA.hpp b/src/core/NFA.hpp
index fbf3f83..e8ba4ce 100644
--- a/src/core/NFA.hpp
+++ b/src/core/NFA.hpp
@@ -613,8 +613,12 @@ public:
 
             stream.discard();
 
+            ch = stream.get();
+            if (ch == L'\0')
+                throw stream.unexpected(EOF);
+
             NFA<TCHAR> nfa;
-            nfa.parse_unit(stream, stream.get());
+            nfa.parse_unit(stream, ch);
             select(nfa);
         }
     }
-- 
2.43.0


From 2ef59f5fc92102713e749b70986a2e14a60efafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:12 +0000
Subject: [PATCH 49/57] fix: graphs of rules named like words of DOT are drawn

---
 src/core/CompositeATN.hpp | 2 +-
 src/core/DFA.hpp          | 2 +-
 src/core/Grammar.hpp      | 2 +-
 src/core/LookaheadDFA.hpp | 2 +-
 src/core/NFA.hpp          | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/CompositeATN.hpp b/src/core/CompositeATN.hpp
index a770841..018a974 100644
--- a/src/core/CompositeATN.hpp
+++ b/src/core/CompositeATN.hpp
@@ -206,7 +206,7 @@ public:
     }
 	void print(std::wostream& os, const std::wstring& name) const
 	{
-		os << L"digraph " << name << L" {" << std::endl;
+		os << L"digraph \"" << name << L"\" {" << std::endl;
 		os << L"rankdir=\"LR\";" << std::endl;
 		os << L"graph [ charset=\"UTF-8\" ];" << std::endl;
 		os << L"node [ style=\"solid,filled\" ];" << std::endl;
diff --git a/src/core/DFA.hpp b/src/core/DFA.hpp
index dfc14d1..14d6dda 100644
--- a/src/core/DFA.hpp
+++ b/src/core/DFA.hpp
@@ -155,7 +155,7 @@ public:
 	}
 	virtual void print(std::wostream& os, const std::wstring& graph_name) const override
 	{
-		os << L"digraph " << graph_name << L" {" << std::endl;
+		os << L"digraph \"" << graph_name << L"\" {" << std::endl;
 		os << L"rankdir=\"LR\";" << std::endl;
 		os << L"graph [ charset=\"UTF-8\", style=\"filled\" ];" << std::endl;
 		os << L"node [ style=\"solid,filled\" ];" << std::endl;
diff --git a/src/core/Grammar.hpp b/src/core/Grammar.hpp
index cfb9014..87bb99b 100644
--- a/src/core/Grammar.hpp
+++ b/src/core/Grammar.hpp
@@ -84,7 +84,7 @@ public:
     }
 	void print(std::wostream& os, const Identifier& key, int maxdepth = 3) const
 	{
-		os << L"digraph " << key << L" {" << std::endl;
+		os << L"digraph \"" << key << L"\" {" << std::endl;
 		os << L"rankdir=\"LR\";" << std::endl;
 		os << L"graph [ charset=\"UTF-8\" ];" << std::endl;
 		os << L"node [ style=\"solid,filled\" ];" << std::endl;
diff --git a/src/core/LookaheadDFA.hpp b/src/core/LookaheadDFA.hpp
index 787ea31..d6d8ae5 100644
--- a/src/core/LookaheadDFA.hpp
+++ b/src/core/LookaheadDFA.hpp
@@ -265,7 +265,7 @@ public:
 	}
 	virtual void print(std::wostream& os, const std::wstring& graph_name) const override
 	{
-		os << L"digraph " << graph_name << L" {" << std::endl;
+		os << L"digraph \"" << graph_name << L"\" {" << std::endl;
 		os << L"rankdir=\"LR\";" << std::endl;
 		os << L"graph [ charset=\"UTF-8\", style=\"filled\" ];" << std::endl;
 		os << L"node [ style=\"solid,filled\" ];" << std::endl;
diff --git a/src/core/NFA.hpp b/src/core/NFA.hpp
index e8ba4ce..7a33aea 100644
--- a/src/core/NFA.hpp
+++ b/src/core/NFA.hpp
@@ -259,7 +259,7 @@ public:
 	}
 	virtual void print(std::wostream& os, const std::wstring& graph_name) const
 	{
-		os << L"digraph " << graph_name << L" {" << std::endl;
+		os << L"digraph \"" << graph_name << L"\" {" << std::endl;
 		os << L"rankdir=\"LR\";" << std::endl;
 		os << L"graph [ charset=\"UTF-8\", style=\"filled\" ];" << std::endl;
 		os << L"node [ style=\"solid,filled\" ];" << std::endl;
-- 
2.43.0


From d5bf45bb601c6ae967a96f79861724687ec3357a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:12 +0000
Subject: [PATCH 50/57] fix: --optimize decides whether the automaton of an
 expression is optimised

---
 src/tool/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tool/main.cpp b/src/tool/main.cpp
index 0d76de0..4d7ac69 100644
--- a/src/tool/main.cpp
+++ b/src/tool/main.cpp
@@ -230,7 +230,7 @@ int main(int argc, char *argv[])
                     case GenerateDFA:
                     {
                         NFA<char> nfa(stream);
-                        DFA<char> dfa(nfa);
+                        DFA<char> dfa(nfa, optimize_flag);
 
                         dfa.print(output_stream, L"DFA");
                     }
-- 
2.43.0


From a0d884f1bb5474cab70473465742c2354ed99c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:12 +0000
Subject: [PATCH 51/57] fix: text after the end of an expression is refused

---
 src/tool/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tool/main.cpp b/src/tool/main.cpp
index 4d7ac69..fa3b5e6 100644
--- a/src/tool/main.cpp
+++ b/src/tool/main.cpp
@@ -223,6 +223,8 @@ int main(int argc, char *argv[])
                     case GenerateNFA:
                     {
                         NFA<char> nfa(stream);
+                        if (stream.peek() != L'\0')
+                            throw stream.unexpected(stream.peek());
 
                         nfa.print(output_stream, L"NFA");
                     }
@@ -230,6 +232,8 @@ int main(int argc, char *argv[])
                     case GenerateDFA:
                     {
                         NFA<char> nfa(stream);
+                        if (stream.peek() != L'\0')
+                            throw stream.unexpected(stream.peek());
                         DFA<char> dfa(nfa, optimize_flag);
 
                         dfa.print(output_stream, L"DFA");
-- 
2.43.0


From 26e04f02787a5cb031eed8a5cbb42ca000da4578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:12 +0000
Subject: [PATCH 52/57] fix: output that cannot be written is reported

---
 src/tool/main.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/tool/main.cpp b/src/tool/main.cpp
index fa3b5e6..f53d7ca 100644
--- a/src/tool/main.cpp
+++ b/src/tool/main.cpp
@@ -192,26 +192,26 @@ int main(int argc, char *argv[])
                 {
                 case GenerateATN:
                     grammar->print_grammar(output_stream, max_depth, optimize_flag);
-                    return 0;
+                    break;
                 case GenerateCATN:
                     grammar->print_catn(output_stream, Identifier(enc.mbstowcs(machine_name)));
-                    return 0;
+                    break;
                 case GenerateNFA:
                     grammar->print_nfa(output_stream, ATNPath(enc.mbstowcs(atn_path)));
-                    return 0;
+                    break;
                 case GenerateLDFA:
                     grammar->print_ldfa(output_stream, ATNPath(enc.mbstowcs(atn_path)));
-                    return 0;
+                    break;
                 case GenerateDFA:
                     grammar->print_dfa(output_stream, ATNPath(enc.mbstowcs(atn_path)), optimize_flag);
-                    return 0;
+                    break;
                 case VerifyGrammar:
                     if (!grammar->verify())
                     {
                         std::cerr << "Grammar verification failed." << std::endl;
                         return 1;
                     }
-                    return 0;
+                    break;
                 }
             }
             else
@@ -228,7 +228,7 @@ int main(int argc, char *argv[])
 
                         nfa.print(output_stream, L"NFA");
                     }
-                    return 0;
+                    break;
                     case GenerateDFA:
                     {
                         NFA<char> nfa(stream);
@@ -238,9 +238,13 @@ int main(int argc, char *argv[])
 
                         dfa.print(output_stream, L"DFA");
                     }
-                    return 0;
+                    break;
                 }
             }
+
+            output_stream.flush();
+            if (!output_stream)
+                throw SimpleException("The output could not be written.");
         }
         else
         {
-- 
2.43.0


From b3c694f8e021d81b744d48fbffb4ede9eee2539d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:04 +0000
Subject: [PATCH 53/57] fix: a repetition which can go round without reading
 anything is refused by verification

---
 src/core/CompositeATN.cpp | 28 +++++++++++++++++++++++++---
 src/core/CompositeATN.hpp |  1 +
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/core/CompositeATN.cpp b/src/core/CompositeATN.cpp
index 6f22cba..e4baff1 100644
--- a/src/core/CompositeATN.cpp
+++ b/src/core/CompositeATN.cpp
@@ -181,10 +181,10 @@ bool CompositeATN<TCHAR>::verify_decisions(const std::unordered_map<Identifier,
     return true;
 }
 template<typename TCHAR>
-std::set<int> CompositeATN<TCHAR>::collect_leading_nodes(const Identifier& id, const std::unordered_set<Identifier>& nullables) const
+std::set<int> CompositeATN<TCHAR>::collect_following_nodes(const Identifier& id, int origin, const std::unordered_set<Identifier>& nullables) const
 {
-    std::set<int> nodes{0};
-    std::vector<int> unvisited{0};
+    std::set<int> nodes;
+    std::vector<int> unvisited{origin};
 
     while (!unvisited.empty())
     {
@@ -204,6 +204,15 @@ std::set<int> CompositeATN<TCHAR>::collect_leading_nodes(const Identifier& id, c
     return nodes;
 }
 template<typename TCHAR>
+std::set<int> CompositeATN<TCHAR>::collect_leading_nodes(const Identifier& id, const std::unordered_set<Identifier>& nullables) const
+{
+    std::set<int> nodes = collect_following_nodes(id, 0, nullables);
+
+    nodes.insert(0);
+
+    return nodes;
+}
+template<typename TCHAR>
 bool CompositeATN<TCHAR>::verify_recursions() const
 {
     //The machines which can be gone through without reading anything
@@ -259,6 +268,19 @@ bool CompositeATN<TCHAR>::verify_recursions() const
             return false;
         }
     }
+
+    //A repetition of something which can be gone through without reading anything has no end
+    for (const auto& p : m_dict)
+    {
+        for (int index = 0; index < p.second.get_num_nodes(); index++)
+        {
+            if (p.second[index].get_source() >= 0 && collect_following_nodes(p.first, index, nullables).count(index) != 0)
+            {
+                std::wcerr << L"Repetition without input found at " << ATNPath(p.first, p.second[index].get_source()) << std::endl;
+                return false;
+            }
+        }
+    }
     return true;
 }
 template class CompositeATN<wchar_t>;
diff --git a/src/core/CompositeATN.hpp b/src/core/CompositeATN.hpp
index 018a974..d3d739c 100644
--- a/src/core/CompositeATN.hpp
+++ b/src/core/CompositeATN.hpp
@@ -480,6 +480,7 @@ private:
     /*!
      * @brief Collect the nodes of a machine which can be reached before anything is read
      */
+    std::set<int> collect_following_nodes(const Identifier& id, int origin, const std::unordered_set<Identifier>& nullables) const;
     std::set<int> collect_leading_nodes(const Identifier& id, const std::unordered_set<Identifier>& nullables) const;
 public:
     CompositeATN(const Grammar<TCHAR>& grammar)
-- 
2.43.0


From e05390fce602dfaa48f17425eb48d911068c4351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:33 +0000
Subject: [PATCH 54/57] fix: a missing Python handler raises an exception at
 start instead of hanging every parse

---
 src/python/centaurus/context.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/python/centaurus/context.py b/src/python/centaurus/context.py
index 02239a3..83658f4 100644
--- a/src/python/centaurus/context.py
+++ b/src/python/centaurus/context.py
@@ -96,6 +96,8 @@ class Context(object):
         self.drain = mp.Queue()
         self.serial_workers = (Stage1Worker(self), Stage3Worker(self))
     def start(self, num_workers=1):
+        #NOTE: fails here, before any worker starts, if a nonterminal has no handler
+        BaseListenerAdapter(self.grammar, self.listener, None, None)
         self.bank_num = num_workers * 2
         self.channels = tuple(mp.Queue() for _ in range(self.bank_num))
         self.parallel_workers = tuple(Stage2Worker(self) for _ in range(num_workers))
-- 
2.43.0


From 8b3f84ff348a5ff742c921757a3e7a194ec23fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:33 +0000
Subject: [PATCH 55/57] fix: an exception in a Python handler is raised by
 parse instead of disturbing other values

---
 src/python/centaurus/context.py  |  9 ++++++---
 src/python/centaurus/listener.py | 18 ++++++++++++++----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/python/centaurus/context.py b/src/python/centaurus/context.py
index 83658f4..4888fac 100644
--- a/src/python/centaurus/context.py
+++ b/src/python/centaurus/context.py
@@ -87,7 +87,7 @@ class Stage3Worker(SubprocessWorker):
         runner.attach(adapter.reduction_callback, adapter.transfer_callback)
         runner.start()
         runner.wait()
-        self.context.drain.put(adapter.values[0] if len(adapter.values) == 1 else None)
+        self.context.drain.put((adapter.values[0] if len(adapter.values) == 1 else None, adapter.error))
 
 class Context(object):
     bank_size = 8 * 1024 * 1024
@@ -109,13 +109,16 @@ class Context(object):
         open(path, 'rb').close()
         for w in itertools.chain(self.serial_workers, self.parallel_workers):
             w.parse(path)
-        value = self.drain.get()
+        value, error = self.drain.get()
         #NOTE: every worker has to leave this run before the memory of the run goes away
         for w in self.parallel_workers:
             w.wait()
         stage1, stage3 = self.serial_workers
         stage3.wait()
-        return value if stage1.wait() else None
+        accepted = stage1.wait()
+        if error is not None:
+            raise HandlerException(error)
+        return value if accepted else None
     def stop(self):
         for w in itertools.chain(self.serial_workers, self.parallel_workers):
             w.stop()
diff --git a/src/python/centaurus/listener.py b/src/python/centaurus/listener.py
index ddece13..ca45690 100644
--- a/src/python/centaurus/listener.py
+++ b/src/python/centaurus/listener.py
@@ -12,6 +12,9 @@ logger.setLevel(logging.DEBUG)
 class GrammarException(Exception):
     pass
 
+class HandlerException(Exception):
+    pass
+
 class BaseListenerAdapter(object):
     default_handler_name = 'defaultact'
 
@@ -19,6 +22,7 @@ class BaseListenerAdapter(object):
         self.grammar = grammar
         self.window = window
         self.channels = channels
+        self.error = None
         self.handlers = [None] #NOTE: padding for 1-based symbol.id
         for index in range(1, grammar.get_machine_num() + 1):
             handler_name = 'parse' + grammar.get_machine_name(index)
@@ -32,7 +36,12 @@ class BaseListenerAdapter(object):
     def invoke_hander(self, symbol, argc):
         self.symbol = symbol
         self.argc = argc
-        lhs_value = self.handlers[symbol.id](self)
+        try:
+            lhs_value = self.handlers[symbol.id](self)
+        except BaseException:
+            #NOTE: the first failure is what Context.parse raises; the occurrence has no value
+            self.error = self.error or traceback.format_exc()
+            lhs_value = None
         del self.values[len(self.values) - argc:]
         if lhs_value is None:
             return 0
@@ -73,8 +82,8 @@ class Stage2ListenerAdapter(BaseListenerAdapter):
             end_time = time.time()
             self.run_time += end_time - self.start_time
             logger.debug("Stage2 cumulative runtime = %f[s]" % (self.run_time,))
-            self.channels[index].put(self.values)
-            self.values = None
+            self.channels[index].put((self.values, self.error))
+            self.values = self.error = None
         else:
             self.page_index = new_index
             self.values = []
@@ -106,7 +115,8 @@ class Stage3ListenerAdapter(BaseListenerAdapter):
             sys.exit()
 
     def transfer_callback(self, index, new_index):
-        values = self.channels[index].get()
+        values, error = self.channels[index].get()
+        self.error = self.error or error
         if self.values is None:
             self.values = values
         else:
-- 
2.43.0


From 90e58e4808004f6556b382508303df9baabbfb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:33 +0000
Subject: [PATCH 56/57] fix: a Python value that cannot be sent to another
 process raises an exception instead of hanging

---
 src/python/centaurus/context.py  |  5 +++--
 src/python/centaurus/listener.py | 12 ++++++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/python/centaurus/context.py b/src/python/centaurus/context.py
index 4888fac..1817f3b 100644
--- a/src/python/centaurus/context.py
+++ b/src/python/centaurus/context.py
@@ -5,6 +5,7 @@ import multiprocessing as mp
 import logging
 import traceback
 import itertools
+import pickle
 from .corelib import *
 from .listener import *
 
@@ -87,7 +88,7 @@ class Stage3Worker(SubprocessWorker):
         runner.attach(adapter.reduction_callback, adapter.transfer_callback)
         runner.start()
         runner.wait()
-        self.context.drain.put((adapter.values[0] if len(adapter.values) == 1 else None, adapter.error))
+        self.context.drain.put(pack(adapter.values[0] if len(adapter.values) == 1 else None, adapter.error, None))
 
 class Context(object):
     bank_size = 8 * 1024 * 1024
@@ -109,7 +110,7 @@ class Context(object):
         open(path, 'rb').close()
         for w in itertools.chain(self.serial_workers, self.parallel_workers):
             w.parse(path)
-        value, error = self.drain.get()
+        value, error = pickle.loads(self.drain.get())
         #NOTE: every worker has to leave this run before the memory of the run goes away
         for w in self.parallel_workers:
             w.wait()
diff --git a/src/python/centaurus/listener.py b/src/python/centaurus/listener.py
index ca45690..169fbbb 100644
--- a/src/python/centaurus/listener.py
+++ b/src/python/centaurus/listener.py
@@ -4,6 +4,7 @@ import collections
 import traceback
 import time
 import ctypes
+import pickle
 from io import StringIO
 
 logger = logging.getLogger(__name__)
@@ -15,6 +16,13 @@ class GrammarException(Exception):
 class HandlerException(Exception):
     pass
 
+def pack(values, error, instead):
+    """Pickles what goes to another process; what cannot go there is an error."""
+    try:
+        return pickle.dumps((values, error))
+    except Exception:
+        return pickle.dumps((instead, error or traceback.format_exc()))
+
 class BaseListenerAdapter(object):
     default_handler_name = 'defaultact'
 
@@ -82,7 +90,7 @@ class Stage2ListenerAdapter(BaseListenerAdapter):
             end_time = time.time()
             self.run_time += end_time - self.start_time
             logger.debug("Stage2 cumulative runtime = %f[s]" % (self.run_time,))
-            self.channels[index].put((self.values, self.error))
+            self.channels[index].put(pack(self.values, self.error, [None] * len(self.values)))
             self.values = self.error = None
         else:
             self.page_index = new_index
@@ -115,7 +123,7 @@ class Stage3ListenerAdapter(BaseListenerAdapter):
             sys.exit()
 
     def transfer_callback(self, index, new_index):
-        values, error = self.channels[index].get()
+        values, error = pickle.loads(self.channels[index].get())
         self.error = self.error or error
         if self.values is None:
             self.values = values
-- 
2.43.0


From 68a0ef15b22d68cb30f6612a2a2e83466435c8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:41 +0000
Subject: [PATCH 57/57] fix: a negative index into the values of a Python
 context reaches no value of another occurrence

---
 src/python/centaurus/listener.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/centaurus/listener.py b/src/python/centaurus/listener.py
index 169fbbb..fdff85b 100644
--- a/src/python/centaurus/listener.py
+++ b/src/python/centaurus/listener.py
@@ -66,7 +66,7 @@ class BaseListenerAdapter(object):
     def __len__(self):
         return self.argc
     def __getitem__(self, index):
-        return self.values[len(self.values) - self.argc + index]
+        return self.values[range(len(self.values) - self.argc, len(self.values))[index]]
     def __iter__(self):
         return (self.values[i] for i in range(len(self.values) - self.argc, len(self.values)))
 
-- 
2.43.0

